#include "expr.h"
uint64_t g_exprs = 0;
namespace {
struct Key { Kind k; uint8_t w; uint64_t c; Expr *a, *b, *d; };
struct KeyHash { size_t operator()(const Key &x) const {
  uint64_t h = x.k * 0x9E3779B97F4A7C15ull ^ (uint64_t)x.w << 56 ^ x.c * 0xBF58476D1CE4E5B9ull;
  auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0x94D049BB133111EBull; h ^= h >> 29; };
  mix(x.a ? x.a->id + 1 : 0); mix(x.b ? x.b->id + 1 : 0); mix(x.d ? x.d->id + 1 : 0); return h; } };
struct KeyEq { bool operator()(const Key &x, const Key &y) const { return x.k == y.k && x.w == y.w && x.c == y.c && x.a == y.a && x.b == y.b && x.d == y.d; } };
std::unordered_map<Key, Expr *, KeyHash, KeyEq> &table() { static auto *t = new std::unordered_map<Key, Expr *, KeyHash, KeyEq>(1 << 16); return *t; }
SymSet *empty_set() { static SymSet *s = new SymSet(); return s; }
SymSet *uni(SymSet *x, SymSet *y) {
  if (x == y || y->v.empty()) return x; if (x->v.empty()) return y;
  static std::map<std::pair<SymSet *, SymSet *>, SymSet *> memo;
  static std::map<std::vector<uint32_t>, SymSet *> sets;
  if (x > y) std::swap(x, y);
  auto it = memo.find({x, y}); if (it != memo.end()) return it->second;
  std::vector<uint32_t> r; std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r));
  SymSet *res;
  if (r == x->v) res = x; else if (r == y->v) res = y; else {
    auto &slot = sets[r]; if (!slot) { slot = new SymSet(); slot->v = r; } res = slot; }
  memo[{x, y}] = res; return res;
}
SymSet *single(uint32_t id) { static std::unordered_map<uint32_t, SymSet *> m; auto &s = m[id]; if (!s) { s = new SymSet(); s->v.push_back(id); } return s; }

uint64_t known_zero(const Expr *e) {
  uint64_t m = MASK(e->w);
  switch (e->k) {
    case K_CONST: return ~e->c & m;
    case K_AND: return (e->a->kz | e->b->kz) & m;
    case K_OR: case K_XOR: return e->a->kz & e->b->kz & m;
    case K_ZEXT: return (e->a->kz | ~MASK(e->a->w)) & m;
    case K_CONCAT: return ((e->a->kz << e->b->w) | e->b->kz) & m;
    case K_EXTRACT: return (e->a->kz >> e->c) & m;
    case K_ITE: return e->b->kz & e->d->kz & m;
    case K_SHL: if (isc(e->b) && e->b->c < e->w) return ((e->a->kz << e->b->c) | MASK(e->b->c)) & m; return 0;
    case K_LSHR: if (isc(e->b) && e->b->c < e->w) return ((e->a->kz >> e->b->c) | ~(m >> e->b->c)) & m; return 0;
    case K_ADD: { // bits above the highest possible
      uint64_t ma = ~e->a->kz & m, mb = ~e->b->kz & m; 
      // trailing zeros common
      uint64_t tz = 0; unsigned ta = ma ? __builtin_ctzll(ma) : 64, tb = mb ? __builtin_ctzll(mb) : 64; unsigned t = std::min(ta, tb);
      if (t) tz = MASK(std::min(t, (unsigned)e->w));
      unsigned __int128 s = (unsigned __int128)ma + mb; uint64_t hz = 0;
      if (s <= m) { uint64_t sv = (uint64_t)s; unsigned hb = sv ? 64 - __builtin_clzll(sv) : 0; hz = ~MASK(hb) & m; if (hb >= 64) hz = 0; }
      return (tz | hz) & m; }
    case K_MUL: { uint64_t ma = ~e->a->kz & m, mb = ~e->b->kz & m; if (!ma || !mb) return m;
      unsigned t = __builtin_ctzll(ma) + __builtin_ctzll(mb); uint64_t tz = t >= e->w ? m : MASK(t);
      unsigned __int128 s = (unsigned __int128)ma * mb; uint64_t hz = 0;
      if (s <= m) { uint64_t sv = (uint64_t)s; unsigned hb = 64 - __builtin_clzll(sv); hz = hb >= 64 ? 0 : ~MASK(hb) & m; }
      return (tz | hz) & m; }
    case K_UREM: if (isc(e->b) && e->b->c) { uint64_t mx = e->b->c - 1; unsigned hb = mx ? 64 - __builtin_clzll(mx) : 0; return hb >= 64 ? 0 : ~MASK(hb) & m; } return 0;
    case K_UDIV: { uint64_t ma = ~e->a->kz & m; if (isc(e->b) && e->b->c) ma /= e->b->c; unsigned hb = ma ? 64 - __builtin_clzll(ma) : 0; if (!(isc(e->b) && e->b->c)) return 0; return hb >= 64 ? 0 : ~MASK(hb) & m; }
    default: return 0;
  }
}
Expr *intern(Kind k, unsigned w, uint64_t c, Expr *a = nullptr, Expr *b = nullptr, Expr *d = nullptr) {
  Key key{k, (uint8_t)w, c, a, b, d};
  auto &t = table(); auto it = t.find(key); if (it != t.end()) return it->second;
  Expr *e = new Expr(); e->k = k; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->id = g_exprs++;
  SymSet *s = empty_set(); if (k == K_SYM) s = single(c); if (a) s = uni(s, a->syms); if (b) s = uni(s, b->syms); if (d) s = uni(s, d->syms);
  e->flat = k == K_SYM || k == K_CONST || ((k == K_ZEXT || k == K_EXTRACT) && a->flat) || (k == K_CONCAT && a->flat && b->flat); e->syms = s; e->kz = known_zero(e); t.emplace(key, e); return e;
}
uint64_t fold(Kind k, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = MASK(w);
  switch (k) {
    case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? a / b : m; case K_UREM: return b ? a % b : a;
    case K_SDIV: { int64_t x = SX(a, w), y = SX(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
    case K_SREM: { int64_t x = SX(a, w), y = SX(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << b) & m; case K_LSHR: return b >= w ? 0 : a >> b;
    case K_ASHR: return (uint64_t)(SX(a, w) >> (b >= w ? w - 1 : b)) & m;
    case K_EQ: return a == b; case K_ULT: return a < b; case K_SLT: return SX(a, w) < SX(b, w);
    default: abort();
  }
}
// sums and exclusive ors of several terms: one order of the terms, whatever
// the association in the source
bool disjoint(Expr *a, Expr *b) { uint64_t m = MASK(a->w); return !(~a->kz & ~b->kz & m); }
bool leaves(Kind k, Expr *e, std::vector<Expr *> &o) { while (e->k == k) { if (o.size() > 200) return false; if (e->b->k == k) { if (!leaves(k, e->b, o)) return false; } else o.push_back(e->b); e = e->a; } o.push_back(e); return true; }
Expr *chain(Kind k, Expr *a, Expr *b) {
  std::vector<Expr *> o; if (!leaves(k, a, o) || !leaves(k, b, o)) return nullptr;
  std::sort(o.begin(), o.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
  if (k == K_XOR) { std::vector<Expr *> r; for (auto *e : o) if (!r.empty() && r.back() == e) r.pop_back(); else r.push_back(e); o.swap(r); if (o.empty()) return mk_const(0, a->w); }
  Expr *r = o[0]; for (size_t i = 1; i < o.size(); i++) r = intern(k, a->w, 0, r, o[i]); return r;
}
void pieces(Expr *e, std::vector<Expr *> &o) { while (e->k == K_CONCAT || e->k == K_ZEXT) { if (e->k == K_ZEXT) { o.push_back(mk_const(0, e->w - e->a->w)); e = e->a; } else { if (e->a->k == K_CONCAT || e->a->k == K_ZEXT) pieces(e->a, o); else o.push_back(e->a); e = e->b; } } o.push_back(e); }
// a value with constant parts is the sum of them and of the rest
Expr *rebuild(std::vector<Expr *> &ps) { Expr *r = nullptr; for (size_t i = ps.size(); i-- > 0;) r = r ? mk_concat(ps[i], r) : ps[i]; return r; }
uint64_t takeconst(Expr *&e) {
  if (e->k == K_OR) { for (int i = 0; i < 2; i++) { Expr *c = i ? e->a : e->b, *x = i ? e->b : e->a; if (isc(c) && c->c && (~x->kz & c->c) == 0) { e = x; return c->c; } } return 0; }
  if (e->k != K_CONCAT && e->k != K_ZEXT) return 0;
  std::vector<Expr *> ps; pieces(e, ps); uint64_t v = 0; unsigned at = e->w; for (auto *&x : ps) { at -= x->w; if (isc(x) && x->c) { v |= x->c << at; x = mk_const(0, x->w); } }
  if (v) e = rebuild(ps); return v;
}
bool comm(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ; }
}
Expr *mk_const(uint64_t v, unsigned w) { return intern(K_CONST, w, v & MASK(w)); }
Expr *mk_sym(uint32_t id) { return intern(K_SYM, 8, id); }
Expr *mk_not(Expr *e) { return mk_bin(K_XOR, e, mk_const(MASK(e->w), e->w)); }

// debugging aid (PGDIFF=n): where two large expressions which are compared differ
static const char *KN[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "ite", "concat", "extract", "zext", "sext", "agg"};
static void pr(Expr *e, int d) { if (isc(e)) { fprintf(stderr, "0x%lx:%d", (long)e->c, e->w); return; } if (e->k == K_SYM) { fprintf(stderr, "s%lu", (long)e->c); return; } if (!d) { fprintf(stderr, "#%u:%d", e->id, e->w); return; } fprintf(stderr, "(%s:%d@%lu ", KN[e->k], e->w, (long)e->c); for (Expr *x : {e->a, e->b, e->d}) if (x) { pr(x, d - 1); fprintf(stderr, " "); } fprintf(stderr, ")#%u", e->id); }
static bool same(Expr *a, Expr *b) { std::vector<uint8_t> m(1 << 12); for (int t = 0; t < 4; t++) { uint64_t g = 88172645463325252ull + t; for (auto &x : m) { g ^= g << 13; g ^= g >> 7; g ^= g << 17; x = g >> 24; } if (eval_expr(a, m) != eval_expr(b, m)) return false; } return true; }
static void diff(Expr *a, Expr *b, int d) {
  static std::unordered_set<uint64_t> seen; if (a == b || !seen.insert((uint64_t)a->id << 32 | b->id).second) return;
  Expr *x[] = {a->a, a->b, a->d}, *y[] = {b->a, b->b, b->d}; bool down = a->k == b->k && a->w == b->w && a->c == b->c && a->a && b->a; for (int i = 0; down && i < 3; i++) if (x[i] && y[i] && (x[i]->w != y[i]->w || !same(x[i], y[i]))) down = false;
  if (down) { for (int i = 0; i < 3; i++) if (x[i] && y[i]) diff(x[i], y[i], d + 1); return; }
  fprintf(stderr, "DIFF depth %d %s\n A ", d, same(a, b) ? "same value" : "different"); pr(a, 6); fprintf(stderr, "\n B "); pr(b, 6); fprintf(stderr, "\n");
}
Expr *mk_bin(Kind k, Expr *a, Expr *b) {
  static int dbg = getenv("PGDIFF") ? atoi(getenv("PGDIFF")) : 0; if (dbg && k == K_EQ && a->w >= 8 && !isc(a) && !isc(b) && a != b) { dbg--; diff(a, b, 0); }
  unsigned w = a->w; unsigned rw = (k == K_EQ || k == K_ULT || k == K_SLT) ? 1 : w;
  if (isc(a) && isc(b)) return mk_const(fold(k, a->c, b->c, w), rw);
  if (comm(k)) { if (isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b); }
  uint64_t m = MASK(w);
  switch (k) {
    case K_ADD:
      if (isc(b)) { if (!b->c) return a; if (a->k == K_ADD && isc(a->b)) return mk_bin(K_ADD, a->a, mk_const(a->b->c + b->c, w)); if (a->k == K_SUB && isc(a->a)) return mk_bin(K_SUB, mk_const(a->a->c + b->c, w), a->b); if (w > 1) { Expr *x = a; uint64_t v = takeconst(x); if (v) { b = mk_const(v + b->c, w); if (!b->c) return x; if (isc(x)) return mk_const(x->c + b->c, w); a = x; if (a->k == K_ADD && isc(a->b)) return mk_bin(K_ADD, a, b); } if (disjoint(a, b)) return mk_bin(K_OR, a, b); } }
      else { // (x+c)+y -> (x+y)+c
        if (a->k == K_ADD && isc(a->b)) return mk_bin(K_ADD, mk_bin(K_ADD, a->a, b), a->b);
        if (b->k == K_ADD && isc(b->b)) return mk_bin(K_ADD, mk_bin(K_ADD, a, b->a), b->b);
        if (w > 1 && (a->kz | b->kz) && disjoint(a, b)) return mk_bin(K_OR, a, b);
        { Expr *x = a, *y = b; uint64_t v = takeconst(x) + takeconst(y); if (x != a || y != b) return mk_bin(K_ADD, mk_bin(K_ADD, x, y), mk_const(v, w)); }
        if (a->k == K_SUB && isc(a->a)) return mk_bin(K_ADD, mk_bin(K_SUB, b, a->b), a->a);
        if (b->k == K_SUB && isc(b->a)) return mk_bin(K_ADD, mk_bin(K_SUB, a, b->b), b->a);
        if (a->k == K_ADD || b->k == K_ADD) { Expr *r = chain(K_ADD, a, b); if (r) return r; }
      }
      break;
    case K_SUB:
      if (a == b) return mk_const(0, w);
      if (isc(b)) return mk_bin(K_ADD, a, mk_const(0 - b->c, w));
      if (a->k == K_ADD && a->a == b) return a->b;
      if (a->k == K_ADD && a->b == b) return a->a;
      if (a->k == K_ADD && isc(a->b) ) return mk_bin(K_ADD, mk_bin(K_SUB, a->a, b), a->b);
      if (b->k == K_ADD && isc(b->b) ) return mk_bin(K_ADD, mk_bin(K_SUB, a, b->a), mk_const(0 - b->b->c, w));
      break;
    case K_MUL:
      if (isc(b)) { if (!b->c) return b; if (b->c == 1) return a; if ((b->c & (b->c - 1)) == 0) return mk_bin(K_SHL, a, mk_const(__builtin_ctzll(b->c), w)); }
      for (int q = 0; q < 2; q++, std::swap(a, b)) if (a->k == K_CONCAT) { Expr *t = a; while (t->b->k == K_CONCAT) t = t->b; if (isc(t->b) && !t->b->c) { unsigned n = t->b->w; return mk_bin(K_SHL, mk_bin(K_MUL, mk_zext(mk_extract(a, n, w - n), w), b), mk_const(n, w)); } }
      break;
    case K_UDIV: case K_UREM: if (isc(b) && b->c > 1 && !isc(a) && (b->c & (b->c - 1))) { uint64_t ma = ~a->kz & m, mm = ma | b->c; unsigned n = mm ? 64 - __builtin_clzll(mm) : 1; if (k == K_UREM && ma < b->c) return a; if (k == K_UDIV && ma < b->c) return mk_const(0, w); if (n < w) return mk_zext(mk_bin(k, mk_extract(a, 0, n), mk_const(b->c, n)), w); }
      if (k == K_UREM) { if (isc(b)) { if (b->c == 1) return mk_const(0, w); if (b->c && (b->c & (b->c - 1)) == 0) return mk_bin(K_AND, a, mk_const(b->c - 1, w)); if (b->c && !isc(a)) { unsigned n = 64 - __builtin_clzll(b->c - 1); if (n < w) return mk_zext(mk_extract(intern(K_UREM, w, 0, a, b), 0, n), w); } } break; }
      if (isc(b)) { if (b->c == 1) return a; if (b->c && (b->c & (b->c - 1)) == 0) return mk_bin(K_LSHR, a, mk_const(__builtin_ctzll(b->c), w)); } break;
    case K_AND:
      if (a == b) return a;
      if (isc(b)) { if (!b->c) return b; if (((~b->c) & m & ~a->kz) == 0) return a; if (a->k == K_AND && isc(a->b)) return mk_bin(K_AND, a->a, mk_const(a->b->c & b->c, w));
        if ((b->c & ~a->kz & m) == 0) return mk_const(0, w);
        if ((b->c & (b->c + 1)) == 0) { unsigned n = __builtin_popcountll(b->c); return mk_zext(mk_extract(a, 0, n), w); } 
        if (a->k == K_ZEXT && (b->c & MASK(a->a->w)) != b->c) return mk_bin(K_AND, a, mk_const(b->c & MASK(a->a->w), w));
        if (a->k == K_OR && isc(a->b)) return mk_bin(K_OR, mk_bin(K_AND, a->a, b), mk_const(a->b->c & b->c, w));
      }
      if ((~a->kz & ~b->kz & m) == 0) return mk_const(0, w);
      break;
    case K_OR:
      if (a == b) return a;
      if (isc(b)) { if (!b->c) return a; if (b->c == m) return b; if (a->k == K_OR && isc(a->b)) return mk_bin(K_OR, a->a, mk_const(a->b->c | b->c, w)); }
      if (w > 1) { // disjoint bit ranges: one canonical form for byte assembly and rotation
        uint64_t na = ~a->kz & m, nb = ~b->kz & m;
        if (na && nb && !(na & nb)) {
          unsigned la = __builtin_ctzll(na), ha = 63 - __builtin_clzll(na), lb = __builtin_ctzll(nb), hb = 63 - __builtin_clzll(nb);
          Expr *hi = nullptr, *lo = nullptr; unsigned l1, h1, l0, h0;
          if (la > hb) { hi = a; lo = b; l1 = la; h1 = ha; l0 = lb; h0 = hb; } else if (lb > ha) { hi = b; lo = a; l1 = lb; h1 = hb; l0 = la; h0 = ha; }
          if (hi) { (void)h0; Expr *r = mk_concat(mk_extract(hi, l1, h1 - l1 + 1), mk_extract(lo, l0, l1 - l0)); if (l0) r = mk_concat(r, mk_const(0, l0)); return mk_zext(r, w); }
        } }
      break;
    case K_XOR:
      if (a == b) return mk_const(0, w);
      if (isc(b)) { if (!b->c) return a; if (a->k == K_XOR && isc(a->b)) return mk_bin(K_XOR, a->a, mk_const(a->b->c ^ b->c, w));
        // constant parts take their share of the mask
        if (w > 1 && (a->k == K_CONCAT || a->k == K_ZEXT)) {
          std::vector<Expr *> ps; pieces(a, ps); uint64_t over = 0; unsigned at = w; for (auto *x : ps) { at -= x->w; if (isc(x)) over |= MASK(x->w) << at; }
          if (over & b->c) { Expr *r = nullptr; at = 0; for (size_t i = ps.size(); i-- > 0;) { Expr *x = ps[i]; if (isc(x)) x = mk_const(x->c ^ (b->c >> at), x->w); at += x->w; r = r ? mk_concat(x, r) : x; } return mk_bin(K_XOR, r, mk_const(b->c & ~over, w)); }
          if (a->k == K_ZEXT) return mk_zext(mk_bin(K_XOR, a->a, mk_const(b->c, a->a->w)), w);
        } }
      if (a->k == K_XOR) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
      if (b->k == K_XOR) { if (b->a == a) return b->b; if (b->b == a) return b->a; }
      if (w > 1 && !isc(b)) {
        if (a->k == K_XOR && isc(a->b)) return mk_bin(K_XOR, mk_bin(K_XOR, a->a, b), a->b);
        if (b->k == K_XOR && isc(b->b)) return mk_bin(K_XOR, mk_bin(K_XOR, a, b->a), b->b);
        if ((a->kz | b->kz) && disjoint(a, b)) return mk_bin(K_OR, a, b);
        if (a->k == K_XOR || b->k == K_XOR) { Expr *r = chain(K_XOR, a, b); if (r) return r; }
      }
      break;
    case K_SHL:
      if (w == 1) return mk_ite(b, mk_const(0, 1), a);
      if (isc(b)) { if (!b->c) return a; if (b->c >= w) return mk_const(0, w); if (a->k == K_SHL && isc(a->b)) return mk_bin(K_SHL, a->a, mk_const(a->b->c + b->c, w)); 
        return mk_concat(mk_extract(a, 0, w - b->c), mk_const(0, b->c)); }
      break;
    case K_LSHR:
      if (w == 1) return mk_ite(b, mk_const(0, 1), a);
      if (isc(b)) { if (!b->c) return a; if (b->c >= w) return mk_const(0, w); return mk_zext(mk_extract(a, b->c, w - b->c), w); }
      break;
    case K_ASHR:
      if (w == 1) return a;
      if (isc(b)) { if (!b->c) return a; if ((a->kz >> (w - 1)) & 1) return mk_bin(K_LSHR, a, b); }
      break;
    case K_EQ:
      if (a == b) return mk_const(1, 1);
      if (isc(b)) {
        if (w == 1) return b->c ? a : mk_not(a);
        if (b->c & a->kz) return mk_const(0, 1);
        if (a->k == K_ZEXT) return mk_bin(K_EQ, a->a, mk_const(b->c, a->a->w));
        if (a->k == K_SEXT) { uint64_t t = b->c & MASK(a->a->w); if ((SX(t, a->a->w) & m) != b->c) return mk_const(0, 1); return mk_bin(K_EQ, a->a, mk_const(t, a->a->w)); }
        if (a->k == K_ADD && isc(a->b)) return mk_bin(K_EQ, a->a, mk_const(b->c - a->b->c, w));
        if (a->k == K_XOR && isc(a->b)) return mk_bin(K_EQ, a->a, mk_const(b->c ^ a->b->c, w));
        if (a->k == K_ITE) {
          bool t = isc(a->b), f = isc(a->d);
          if (t && f) { bool x = a->b->c == b->c, y = a->d->c == b->c; if (x && y) return mk_const(1, 1); if (!x && !y) return mk_const(0, 1); return x ? a->a : mk_not(a->a); }
          if (t && a->b->c != b->c) return mk_bin(K_AND, mk_not(a->a), mk_bin(K_EQ, a->d, b));
          if (f && a->d->c != b->c) return mk_bin(K_AND, a->a, mk_bin(K_EQ, a->b, b));
          if (t || f) return mk_ite(a->a, mk_bin(K_EQ, a->b, b), mk_bin(K_EQ, a->d, b));
        }
        if (a->k == K_CONCAT) return mk_bin(K_AND, mk_bin(K_EQ, a->a, mk_const(b->c >> a->b->w, a->a->w)), mk_bin(K_EQ, a->b, mk_const(b->c, a->b->w)));
        if (a->k == K_OR && isc(a->b)) { if (a->b->c & ~b->c) return mk_const(0, 1); }
      } else if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mk_bin(K_EQ, a->a, b->a);
      else if (w == 1) return mk_not(mk_bin(K_XOR, a, b));
      break;
    case K_ULT:
      if (a == b) return mk_const(0, 1);
      if (isc(b)) { if (!b->c) return mk_const(0, 1); if ((~a->kz & m) < b->c) return mk_const(1, 1); if (b->c == 1) return mk_bin(K_EQ, a, mk_const(0, w));
        if (a->k == K_ZEXT) { return mk_bin(K_ULT, a->a, mk_const(b->c, a->a->w)); } 
        if (a->k == K_UREM && isc(a->b) && a->b->c && a->b->c <= b->c) return mk_const(1, 1);
        if (a->k == K_EXTRACT && !a->c && a->a->k == K_UREM && isc(a->a->b) && a->a->b->c && a->a->b->c <= b->c && a->a->b->c - 1 <= m) return mk_const(1, 1);
        if (a->k == K_CONCAT) { Expr *t = a; while (t->b->k == K_CONCAT) t = t->b; if (isc(t->b)) { unsigned n = t->b->w; uint64_t hi = b->c >> n, lim = hi + (t->b->c < (b->c & MASK(n))); if (lim > MASK(w - n)) return mk_const(1, 1); return mk_bin(K_ULT, mk_extract(a, n, w - n), mk_const(lim, w - n)); } }
        if (a->k == K_ITE && (isc(a->b) || isc(a->d))) return mk_ite(a->a, mk_bin(K_ULT, a->b, b), mk_bin(K_ULT, a->d, b)); }
      if (isc(a)) { if (a->c == m) return mk_const(0, 1); if ((~b->kz & m) <= a->c) return mk_const(0, 1); if (!a->c) return mk_not(mk_bin(K_EQ, b, mk_const(0, w)));
        if (b->k == K_ZEXT) { return mk_bin(K_ULT, mk_const(a->c, b->a->w), b->a); } 
        if (b->k == K_UREM && isc(b->b) && b->b->c && b->b->c <= a->c + 1) return mk_const(0, 1);
        if (b->k == K_EXTRACT && !b->c && b->a->k == K_UREM && isc(b->a->b) && b->a->b->c && b->a->b->c <= a->c + 1 && b->a->b->c - 1 <= m) return mk_const(0, 1);
        if (b->k == K_CONCAT) { Expr *t = b; while (t->b->k == K_CONCAT) t = t->b; if (isc(t->b)) return mk_not(mk_bin(K_ULT, b, mk_const(a->c + 1, w))); }
        if (b->k == K_ITE && (isc(b->b) || isc(b->d))) return mk_ite(b->a, mk_bin(K_ULT, a, b->b), mk_bin(K_ULT, a, b->d)); }
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mk_bin(K_ULT, a->a, b->a);
      break;
    case K_SLT:
      if (a == b) return mk_const(0, 1);
      if (((a->kz >> (w - 1)) & 1) && ((b->kz >> (w - 1)) & 1)) return mk_bin(K_ULT, a, b);
      if (isc(b) && b->c == 0 && w > 1 && a->k == K_SEXT) return mk_bin(K_SLT, a->a, mk_const(0, a->a->w));
      break;
    default: break;
  }
  if (k == K_ADD && isc(b) && a->kz && w > 16 && w <= 32 && (a->k == K_CONCAT || a->k == K_ZEXT)) { unsigned t = ~a->kz & m ? __builtin_ctzll(~a->kz & m) : w; if (t >= 16 && t < w) return mk_concat(mk_bin(K_ADD, mk_extract(a, t, w - t), mk_const(b->c >> t, w - t)), mk_const(b->c, t)); } // low bits which are constant
  if (k == K_ADD && isc(b) && w > 1 && w != 8 && w != 16 && w != 32 && w != 64) { // odd widths come from extracts: the narrowest one
    unsigned __int128 top = (unsigned __int128)(~a->kz & m) + (~b->kz & m); if (top && top <= m) { unsigned hb = 64 - __builtin_clzll((uint64_t)top); if (hb < w) return mk_zext(mk_bin(K_ADD, mk_extract(a, 0, hb), mk_extract(b, 0, hb)), w); } }
  return intern(k, rw, 0, a, b);
}
Expr *mk_ite(Expr *c, Expr *t, Expr *f) {
  if (isc(c)) return c->c ? t : f; if (t == f) return t;
  if (c->k == K_XOR && isc(c->b) && c->b->c == 1) return mk_ite(c->a, f, t);
  if (t->w == 1) { if (isc(t) && isc(f)) return t->c ? c : mk_not(c); if (isc(t)) return t->c ? mk_bin(K_OR, c, f) : mk_bin(K_AND, mk_not(c), f); if (isc(f)) return f->c ? mk_bin(K_OR, mk_not(c), t) : mk_bin(K_AND, c, t); }
  return intern(K_ITE, t->w, 0, c, t, f);
}
Expr *mk_concat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w; if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isc(hi) && isc(lo)) return mk_const(hi->c << lo->w | lo->c, w);
  if (isc(hi) && hi->c == 0) return mk_zext(lo, w);
  if (isc(hi) && lo->k == K_ZEXT) return mk_concat(mk_const(hi->c << (lo->w - lo->a->w), w - lo->a->w), lo->a);
  if (isc(hi) && !(hi->c >> (hi->w - 1))) return mk_zext(mk_concat(mk_const(hi->c, 64 - __builtin_clzll(hi->c)), lo), w);
  { bool xh = hi->k == K_XOR && isc(hi->b) && hi->w > 1, xl = lo->k == K_XOR && isc(lo->b) && lo->w > 1; // masks on the outside
    if (xh || xl) return mk_bin(K_XOR, mk_concat(xh ? hi->a : hi, xl ? lo->a : lo), mk_const((xh ? hi->b->c : 0) << lo->w | (xl ? lo->b->c : 0), w)); }
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mk_extract(hi->a, lo->c, w);
  if (hi->k == K_ZEXT) return mk_zext(mk_concat(hi->a, lo), w);
  if (hi->k == K_CONCAT) return mk_concat(hi->a, mk_concat(hi->b, lo));
  if (lo->k == K_CONCAT && isc(hi) && isc(lo->a)) return mk_concat(mk_const(hi->c << lo->a->w | lo->a->c, hi->w + lo->a->w), lo->b);
  if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->a->k == K_EXTRACT && hi->a == lo->a->a && hi->c == lo->a->c + lo->a->w) return mk_concat(mk_extract(hi->a, lo->a->c, hi->w + lo->a->w), lo->b);
  return intern(K_CONCAT, w, 0, hi, lo);
}
Expr *mk_extract(Expr *e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  switch (e->k) {
    case K_CONST: return mk_const(e->c >> lo, w);
    case K_EXTRACT: return mk_extract(e->a, e->c + lo, w);
    case K_CONCAT: if (lo >= e->b->w) return mk_extract(e->a, lo - e->b->w, w); if (lo + w <= e->b->w) return mk_extract(e->b, lo, w);
      return mk_concat(mk_extract(e->a, 0, lo + w - e->b->w), mk_extract(e->b, lo, e->b->w - lo));
    case K_ZEXT: if (lo >= e->a->w) return mk_const(0, w); if (lo + w <= e->a->w) return mk_extract(e->a, lo, w); return mk_zext(mk_extract(e->a, lo, e->a->w - lo), w);
    case K_SEXT: if (lo + w <= e->a->w) return mk_extract(e->a, lo, w); break;
    case K_AND: case K_OR: case K_XOR: { // only where it simplifies: distributing blindly is exponential on deep mixes
      uint64_t r = MASK(w) << lo; auto flat = [](Expr *x) { return x->flat; };
      if (isc(e->b) || (e->k != K_XOR && ((e->a->kz & r) == r || (e->b->kz & r) == r)) || (e->k == K_XOR && w % 8 == 0 && lo % 8 == 0 ? flat(e->a) || flat(e->b) : flat(e->a) && flat(e->b))) return mk_bin(e->k, mk_extract(e->a, lo, w), mk_extract(e->b, lo, w)); break; }
    case K_ADD: case K_SUB: case K_MUL: if (lo == 0 && w < e->w && isc(e->b)) return mk_bin(e->k, mk_extract(e->a, 0, w), mk_extract(e->b, 0, w)); break;
    case K_SHL: if (isc(e->b)) { unsigned s = e->b->c; if (lo >= s) return mk_extract(e->a, lo - s, w); if (lo + w <= s) return mk_const(0, w); } break;
    case K_ITE: if (isc(e->b) || isc(e->d)) return mk_ite(e->a, mk_extract(e->b, lo, w), mk_extract(e->d, lo, w)); break;
    default: break;
  }
  if (((e->kz >> lo) & MASK(w)) == MASK(w)) return mk_const(0, w);
  return intern(K_EXTRACT, w, lo, e);
}
Expr *mk_zext(Expr *e, unsigned w) {
  if (w == e->w) return e; if (isc(e)) return mk_const(e->c, w); if (e->k == K_ZEXT) return mk_zext(e->a, w);
  if (e->k == K_ITE && isc(e->b) && isc(e->d)) return mk_ite(e->a, mk_const(e->b->c, w), mk_const(e->d->c, w));
  return intern(K_ZEXT, w, 0, e);
}
Expr *mk_sext(Expr *e, unsigned w) {
  if (w == e->w) return e; if (isc(e)) return mk_const((uint64_t)SX(e->c, e->w), w);
  if ((e->kz >> (e->w - 1)) & 1) return mk_zext(e, w);
  return intern(K_SEXT, w, 0, e);
}
static uint32_t g_stamp = 0;
static uint64_t ev(Expr *e, const std::vector<uint8_t> &m) {
  if (e->k == K_CONST) return e->c;
  if (e->stamp == g_stamp) return e->val;
  uint64_t r;
  switch (e->k) {
    case K_SYM: r = e->c < m.size() ? m[e->c] : 0; break;
    case K_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->d, m); break;
    case K_CONCAT: r = ev(e->a, m) << e->b->w | ev(e->b, m); break;
    case K_EXTRACT: r = (ev(e->a, m) >> e->c) & MASK(e->w); break;
    case K_ZEXT: r = ev(e->a, m); break;
    case K_SEXT: r = (uint64_t)SX(ev(e->a, m), e->a->w) & MASK(e->w); break;
    default: r = fold(e->k, ev(e->a, m), ev(e->b, m), e->a->w);
  }
  e->stamp = g_stamp; e->val = r; return r;
}
uint64_t eval_expr(Expr *e, const std::vector<uint8_t> &model) { g_stamp++; return ev(e, model); }

z3::context &z3ctx() { static z3::context *c = new z3::context(); return *c; }
static std::vector<z3::expr> &ztab() { static auto *t = new std::vector<z3::expr>(); return *t; }
z3::expr sym_z3(uint32_t id) { char n[24]; snprintf(n, sizeof n, "s%u", id); return z3ctx().bv_const(n, 8); }
z3::expr to_z3(Expr *e) {
  if (e->z3i) return ztab()[e->z3i - 1];
  auto &c = z3ctx(); z3::expr r(c);
  bool b1 = e->w == 1;
  auto bv = [&](Expr *x) -> z3::expr { z3::expr z = to_z3(x); if (x->w == 1) return z3::ite(z, c.bv_val(1, 1), c.bv_val(0, 1)); return z; };
  switch (e->k) {
    case K_CONST: r = b1 ? c.bool_val(e->c != 0) : c.bv_val((uint64_t)e->c, e->w); break;
    case K_SYM: r = sym_z3(e->c); break;
    case K_ADD: r = b1 ? (to_z3(e->a) != to_z3(e->b)) : bv(e->a) + bv(e->b); break;
    case K_SUB: r = b1 ? (to_z3(e->a) != to_z3(e->b)) : bv(e->a) - bv(e->b); break;
    case K_MUL: r = b1 ? (to_z3(e->a) && to_z3(e->b)) : bv(e->a) * bv(e->b); break;
    case K_UDIV: r = z3::udiv(bv(e->a), bv(e->b)); break;
    case K_SDIV: r = bv(e->a) / bv(e->b); break;
    case K_UREM: r = z3::urem(bv(e->a), bv(e->b)); break;
    case K_SREM: r = z3::srem(bv(e->a), bv(e->b)); break;
    case K_AND: r = b1 ? (to_z3(e->a) && to_z3(e->b)) : (bv(e->a) & bv(e->b)); break;
    case K_OR: r = b1 ? (to_z3(e->a) || to_z3(e->b)) : (bv(e->a) | bv(e->b)); break;
    case K_XOR: r = b1 ? (isc(e->b) && e->b->c ? !to_z3(e->a) : (to_z3(e->a) != to_z3(e->b))) : (bv(e->a) ^ bv(e->b)); break;
    case K_SHL: r = z3::shl(bv(e->a), bv(e->b)); break;
    case K_LSHR: r = z3::lshr(bv(e->a), bv(e->b)); break;
    case K_ASHR: r = z3::ashr(bv(e->a), bv(e->b)); break;
    case K_EQ: r = to_z3(e->a) == to_z3(e->b); break;
    case K_ULT: r = z3::ult(bv(e->a), bv(e->b)); break;
    case K_SLT: r = z3::slt(bv(e->a), bv(e->b)); break;
    case K_ITE: r = z3::ite(to_z3(e->a), to_z3(e->b), to_z3(e->d)); break;
    case K_CONCAT: r = z3::concat(bv(e->a), bv(e->b)); break;
    case K_EXTRACT: r = bv(e->a).extract(e->c + e->w - 1, e->c); if (b1) r = (r == c.bv_val(1, 1)); break;
    case K_ZEXT: r = z3::zext(bv(e->a), e->w - e->a->w); break;
    case K_SEXT: r = z3::sext(bv(e->a), e->w - e->a->w); break;
    default: abort();
  }
  ztab().push_back(r); e->z3i = ztab().size(); return r;
}
