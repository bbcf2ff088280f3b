// Random self test of the expression simplifier: g++ -std=c++17 -o t exprtest.cpp expr.cpp -lz3
#include "expr.h"
static uint64_t g=88172645463325252ull; static uint64_t rnd(){g^=g<<13;g^=g>>7;g^=g<<17;return g;}
static uint64_t ref(Kind k,uint64_t a,uint64_t b,unsigned w){uint64_t m=MASK(w);switch(k){case K_ADD:return(a+b)&m;case K_SUB:return(a-b)&m;case K_MUL:return(a*b)&m;case K_UDIV:return b?a/b:m;case K_UREM:return b?a%b:a;case K_AND:return a&b;case K_OR:return a|b;case K_XOR:return a^b;case K_SHL:return b>=w?0:(a<<b)&m;case K_LSHR:return b>=w?0:a>>b;case K_ASHR:return (uint64_t)(SX(a,w)>>(b>=w?w-1:b))&m;case K_EQ:return a==b;case K_ULT:return a<b;case K_SLT:return SX(a,w)<SX(b,w);default:abort();}}
int main(int c,char**v){ if(c>1) g^=atoi(v[1])*0x9E3779B97F4A7C15ull; const int M=4; for(long it=0;it<30000;it++){ std::vector<std::vector<uint8_t>> md(M,std::vector<uint8_t>(8)); for(auto&m:md)for(auto&x:m)x=rnd()%3?rnd():(rnd()%2?0:255);
 struct N{Expr*e;uint64_t v[M];}; std::vector<N> ns; for(int i=0;i<8;i++){N n;n.e=mk_sym(i);for(int j=0;j<M;j++)n.v[j]=md[j][i];ns.push_back(n);} 
 auto cst=[&](unsigned w){N n;uint64_t x=rnd()%4==0?rnd():rnd()%3==0?1ull<<(rnd()%w):rnd()%3==0?MASK(w)&(MASK(1+rnd()%w)<<(rnd()%w)):rnd()%20; x&=MASK(w); n.e=mk_const(x,w); for(int j=0;j<M;j++)n.v[j]=x;return n;};
 auto get=[&](unsigned w){ if(rnd()%5==0)return cst(w); for(int t=0;t<20;t++){N&n=ns[rnd()%ns.size()]; if(n.e->w==w)return n;} N n=ns[rnd()%ns.size()]; N r; if(n.e->w==w) return n; if(n.e->w<w){bool s=rnd()&1; r.e=s?mk_sext(n.e,w):mk_zext(n.e,w); for(int j=0;j<M;j++)r.v[j]=s?(uint64_t)SX(n.v[j],n.e->w)&MASK(w):n.v[j];} else {unsigned lo=rnd()%(n.e->w-w+1); r.e=mk_extract(n.e,lo,w); for(int j=0;j<M;j++)r.v[j]=(n.v[j]>>lo)&MASK(w);} return r;};
 for(int s=0;s<24;s++){ static const unsigned W[]={1,4,7,8,8,16,24,32,32,64,64}; unsigned w=W[rnd()%11]; N r; int op=rnd()%20; if(op<14){ static const Kind K[]={K_ADD,K_SUB,K_MUL,K_UDIV,K_UREM,K_AND,K_OR,K_XOR,K_SHL,K_LSHR,K_ASHR,K_EQ,K_ULT,K_SLT}; Kind k=K[op]; N a=get(w),b=get(w); if(k>=K_SHL&&k<=K_ASHR&&rnd()%4){uint64_t x=rnd()%(w+1); if(w<64)x&=MASK(w); b.e=mk_const(x,w);for(int j=0;j<M;j++)b.v[j]=x;} r.e=mk_bin(k,a.e,b.e); for(int j=0;j<M;j++)r.v[j]=ref(k,a.v[j],b.v[j],w);} else if(op<16){N q=get(1),a=get(w),b=get(w); r.e=mk_ite(q.e,a.e,b.e); for(int j=0;j<M;j++)r.v[j]=q.v[j]?a.v[j]:b.v[j];} else if(op<18&&w<=32){N a=get(w),b=get(W[rnd()%9]); r.e=mk_concat(a.e,b.e); for(int j=0;j<M;j++)r.v[j]=a.v[j]<<b.e->w|b.v[j];} else { static const Kind K[]={K_XOR,K_OR,K_ADD}; N a=get(w); unsigned n=rnd()%w; if(!n)n=1; uint64_t m=MASK(w); Kind k=K[rnd()%3]; N sh=a; Expr*l=mk_bin(K_SHL,a.e,mk_const(n,w)),*h=mk_bin(K_LSHR,a.e,mk_const(w-n,w)); if(w<7)continue; r.e=mk_bin(k,l,h); for(int j=0;j<M;j++)r.v[j]=((a.v[j]<<n)|(a.v[j]>>(w-n)))&m; }
  for(int j=0;j<M;j++){ if(eval_expr(r.e,md[j])!=r.v[j]){printf("MISMATCH it %ld op %d w %u: %lx != %lx\n",it,op,w,eval_expr(r.e,md[j]),r.v[j]);return 1;} if(r.v[j]&r.e->kz){printf("KZ it %ld op %d w %u\n",it,op,w);return 1;} }
  ns.push_back(r);} } puts("ok"); }
