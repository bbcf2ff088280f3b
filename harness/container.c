// Stack, array, hash map, keyed hash, allocation context, version.
#include "pg.h"
#include <passgen/config.h>
#include <passgen/container/stack.h>
#include <passgen/container/array.h>
#include <passgen/container/hashmap.h>
#include <passgen/util/siphash.h>
#include <passgen/context.h>
#include <passgen/version.h>
#include <stdlib.h>
#include <string.h>

// ------------------------------------------------------------ stack
static uint8_t model[400][24]; static size_t mlen, esz, seen;
static void visit(void *e) { PG_ASSERTM(seen < mlen, "iteration visits too many elements"); PG_ASSERTM(pg_bytes_eq(e, model[seen], esz), "iteration order or content"); seen++; }
static void st_check(passgen_stack *s, int deep) {
  void *t = passgen_stack_top(s);
  if (!mlen) PG_ASSERTM(!t, "top of an empty stack"); else PG_ASSERTM(t && pg_bytes_eq(t, model[mlen - 1], esz), "top element");
  PG_ASSERTM(!passgen_stack_get(s, mlen) && !passgen_stack_get(s, mlen + 33), "element beyond the top"); PG_ASSERTM(s->len == mlen, "length");
  if (deep) { for (size_t i = 0; i < mlen; i++) { void *p = passgen_stack_get(s, i); PG_ASSERTM(p && pg_bytes_eq(p, model[i], esz), "element lost or moved"); } seen = 0; passgen_stack_foreach(s, visit); PG_ASSERTM(seen == mlen, "iteration misses elements"); }
}
static void st_push(passgen_stack *s, int sym) {
  uint8_t e[24]; if (sym) pg_sym_raw(e, esz, "elem"); else for (size_t i = 0; i < esz; i++) e[i] = (uint8_t)(mlen * 7 + i + 1);
  int copy = sym ? (int)pg_choice(1, "copy") : mlen & 1; void *p = passgen_stack_push(s, copy ? e : NULL); PG_ASSERTM(p, "push"); if (!copy) memcpy(p, e, esz);
  PG_ASSERTM(pg_bytes_eq(p, e, esz), "pushed element"); memcpy(model[mlen++], e, esz);
}
static void st_pop(passgen_stack *s, int want) {
  uint8_t o[24]; memset(o, 0x3C, sizeof o); void *r = passgen_stack_pop(s, want ? o : NULL);
  if (!mlen) { PG_ASSERTM(!r, "pop of an empty stack"); PG_ASSERT(o[0] == 0x3C); return; }
  mlen--; if (want) { PG_ASSERTM(r == o, "pop result"); PG_ASSERTM(pg_bytes_eq(o, model[mlen], esz), "popped element is not the last one pushed"); }
}
// start from a stack of any size (with any history of a peak), then any sequence of operations
void h_stack(void) {
  static const uint8_t sz[] = {1, 8, 24, 5}; esz = sz[pg_choice(3, "element size")]; passgen_stack s; passgen_stack_init(&s, esz); mlen = 0;
  size_t peak = pg_choice(PG_PARAM(0, 70), "peak"), drop = pg_choice(3, "drop"); for (size_t i = 0; i < peak; i++) st_push(&s, 0);
  size_t target = drop == 0 ? peak : drop == 1 ? peak / 2 : drop == 2 ? (peak > 33 ? 32 : 0) : (peak ? peak - 1 : 0); while (mlen > target) st_pop(&s, mlen & 1);
  st_check(&s, 1); size_t ops = PG_PARAM(1, 3);
  for (size_t i = 0; i < ops; i++) { switch (pg_choice(2, "op")) { case 0: st_push(&s, 1); break; case 1: st_pop(&s, 1); break; case 2: st_pop(&s, 0); break; } st_check(&s, i + 1 == ops); }
  passgen_stack_free(&s); PG_ASSERTM(pg_heap_live() == 0, "stack leaks memory"); pg_cover("done");
}
// long histories across several bins
void h_stack_long(void) {
  esz = 8; passgen_stack s; passgen_stack_init(&s, esz); mlen = 0; size_t a = 32 * (1 + pg_choice(8, "a")) + pg_choice(2, "da") - 1, b = pg_choice(9, "b") * 32 + pg_choice(2, "db"), c = 32 * pg_choice(9, "c") + 1;
  while (mlen < a) st_push(&s, 0); st_check(&s, 1); while (mlen > b && mlen) st_pop(&s, 1); st_check(&s, 1); while (mlen < c) st_push(&s, 0); st_push(&s, 1); st_check(&s, 1);
  if (pg_choice(1, "drain")) while (mlen) st_pop(&s, 1); passgen_stack_free(&s); PG_ASSERTM(pg_heap_live() == 0, "stack leaks memory"); pg_cover("done");
}

// ------------------------------------------------------------ array
static int expect_exit; void pg_exit_handler(int c) { PG_ASSERTM(expect_exit, "unexpected exit"); PG_ASSERT(c != 0); pg_cover("refused"); }
void h_array(void) {
  passgen_array a; void *m[80]; size_t n = 0; passgen_array_init(&a, pg_choice(5, "capacity")); size_t pre = pg_choice(PG_PARAM(0, 34), "prefill"); for (; n < pre; n++) { m[n] = (void *)(n + 1); passgen_array_push(&a, m[n]); }
  size_t ops = PG_PARAM(1, 4);
  for (size_t i = 0; i < ops; i++) {
    if (pg_choice(1, "op")) { void *p = (void *)pg_u64("ptr"); m[n++] = p; passgen_array_push(&a, p); }
    else { void *p = passgen_array_pop(&a); if (!n) PG_ASSERTM(!p, "pop of an empty array"); else PG_ASSERTM(p == m[--n], "popped pointer"); }
    PG_ASSERT(a.items == n); for (size_t k = 0; k < n; k++) PG_ASSERTM(passgen_array_get(&a, k) == m[k], "element lost");
  }
  if (pg_choice(1, "oob")) { expect_exit = 1; pg_allow_exit(1); passgen_array_get(&a, n + pg_choice(1, "far")); pg_fail("out of range element returned"); }
  passgen_array_free(&a); PG_ASSERTM(pg_heap_live() == 0, "array leaks memory"); pg_cover("done");
}

// ------------------------------------------------------------ hash map
static uint8_t hv[8][2]; static uint8_t hset[8][2]; static int inits, finis;
static char keyobj[2][8][4]; // two distinct objects per key: equality is by content
static int keyno(const void *k) { const char *c = k; return c[0] - 'a'; }
static uint64_t my_hash(const passgen_hashmap *m, const void *key, bool first) {
  int k = keyno(key), w = first ? 0 : 1; if (m->capacity > PG_PARAM(2, 7)) pg_path_end(); // growth beyond the bound is outside the claim
  if (!hset[k][w]) { hset[k][w] = 1; hv[k][w] = pg_u8("hash"); pg_assume(hv[k][w] < PG_PARAM(3, 21)); }
  pg_conc(hv[k][w] % (uint8_t)m->capacity); // split on the slot: later queries concern one key only
  return hv[k][w];
}
static bool my_equal(const passgen_hashmap *m, const void *a, const void *b) { (void)m; return keyno(a) == keyno(b); }
static void my_init(passgen_hashmap *m) { (void)m; inits++; } static void my_fini(passgen_hashmap *m) { (void)m; finis++; }
static const passgen_hashmap_context ctx = {my_hash, my_equal, my_init, my_fini};
static void *val[8]; static const void *mkey[8]; static int vis[8]; static size_t count_;
static int each(void *u, passgen_hashmap_entry *e) { PG_ASSERT(u == (void *)vis); int k = keyno(e->key); PG_ASSERTM(!vis[k]++, "iteration visits an entry twice"); PG_ASSERTM(mkey[k] == e->key && val[k] == e->value, "iteration shows a stale entry"); return 0; }
static int stop2(void *u, passgen_hashmap_entry *e) { (void)e; return ++*(int *)u == 2 ? 42 : 0; }
static void hm_check(passgen_hashmap *m, int K) {
  PG_ASSERTM(m->len == count_, "reported size"); for (int k = 0; k < K; k++) { passgen_hashmap_entry *e = passgen_hashmap_lookup(m, keyobj[0][k]); if (mkey[k]) PG_ASSERTM(e && e->value == val[k] && e->key == mkey[k], "lookup misses or returns a wrong entry"); else PG_ASSERTM(!e, "lookup finds a key which is not in the map"); }
  memset(vis, 0, sizeof vis); PG_ASSERT(passgen_hashmap_foreach(m, vis, each) == 0); for (int k = 0; k < K; k++) PG_ASSERTM(vis[k] == (mkey[k] != NULL), "iteration misses an entry");
}
static void hm_ins(passgen_hashmap *m, int k, int which) {
  static char vals[64]; static int nv; void *v = &vals[nv++]; passgen_hashmap_entry r = passgen_hashmap_insert(m, keyobj[which][k], v);
  PG_ASSERTM(r.key == mkey[k] && r.value == (mkey[k] ? val[k] : NULL), "insertion does not return the replaced entry"); if (!mkey[k]) count_++; mkey[k] = keyobj[which][k]; val[k] = v;
}
static void hm_del(passgen_hashmap *m, int k) { passgen_hashmap_entry r = passgen_hashmap_remove(m, keyobj[1][k]); PG_ASSERTM(r.key == mkey[k] && r.value == (mkey[k] ? val[k] : NULL), "removal does not return the removed entry"); if (mkey[k]) count_--; mkey[k] = NULL; val[k] = NULL; }
static void hm_keys(void) { for (int k = 0; k < 8; k++) for (int w = 0; w < 2; w++) { keyobj[w][k][0] = 'a' + k; keyobj[w][k][1] = 0; } }
void h_hashmap(void) {
  hm_keys(); passgen_hashmap m; passgen_hashmap_init(&m, &ctx); PG_ASSERT(inits == 1); int K = PG_PARAM(0, 3); size_t ops = PG_PARAM(1, 4);
  int used = 0; for (size_t i = 0; i < ops; i++) { int k = pg_choice(used < K ? used : K - 1, "key"); if (k == used) used++; /* keys are interchangeable */ if (pg_choice(1, "op")) hm_del(&m, k); else hm_ins(&m, k, i & 1); hm_check(&m, K); }
  if (count_ >= 2) { int n = 0; PG_ASSERTM(passgen_hashmap_foreach(&m, &n, stop2) == 42 && n == 2, "iteration does not stop when asked to"); pg_cover("stop"); }
  passgen_hashmap_free(&m); PG_ASSERT(finis == 1); PG_ASSERTM(pg_heap_live() == 0, "map leaks memory"); pg_cover("done");
}
// K keys inserted, then removed and inserted again, any hash values: growth and displacement
void h_hashmap_fill(void) {
  hm_keys(); passgen_hashmap m; passgen_hashmap_init(&m, &ctx); int K = PG_PARAM(0, 4);
  for (int k = 0; k < K; k++) hm_ins(&m, k, 0); hm_check(&m, K);
  int d = pg_choice(K - 1, "del"), d2 = pg_choice(K - 1, "again"); hm_del(&m, d); hm_ins(&m, d2, 1); hm_del(&m, d2); hm_ins(&m, d, 1); hm_check(&m, K);
  passgen_hashmap_free(&m); PG_ASSERTM(pg_heap_live() == 0, "map leaks memory"); pg_cover("done");
}
// real text keys (default context) with symbolic content
void h_hashmap_text(void) {
  static char a[8], b[8]; size_t n = PG_PARAM(0, 2), na = pg_choice(n, "la"), nb = pg_choice(n, "lb"); if (na) pg_sym_raw(a, na, "a"); if (nb) pg_sym_raw(b, nb, "b"); for (size_t i = 0; i < na; i++) pg_assume(a[i] != 0); for (size_t i = 0; i < nb; i++) pg_assume(b[i] != 0);
  const passgen_hashmap_context *c = &passgen_hashmap_context_utf8; passgen_hashmap m; passgen_hashmap_init(&m, pg_choice(1, "default") ? NULL : c); 
  int same = strcmp(a, b) == 0; PG_ASSERTM(c->equal(&m, a, b) == same, "text key equality");
  if (same) { PG_ASSERTM(c->hash(&m, a, true) == c->hash(&m, b, true) && c->hash(&m, a, false) == c->hash(&m, b, false), "equal text keys hash differently"); pg_cover("same"); } else pg_cover("different");
  uint64_t h1, h2; passgen_siphash(a, strlen(a), "someverylongpass", (uint8_t *)&h1, 8); passgen_siphash(a, strlen(a), "myotherverylongk", (uint8_t *)&h2, 8);
  PG_ASSERTM(c->hash(&m, a, true) == h1 && c->hash(&m, a, false) == h2, "text key hash does not cover the whole key"); passgen_hashmap_free(&m);
}
// long text keys which share a prefix
void h_hashmap_text_long(void) {
  static char a[80], b[80]; size_t n = pg_choice(PG_PARAM(0, 40), "prefix"); int wide = pg_choice(1, "wide"); for (size_t i = 0; i < n; i++) a[i] = b[i] = wide && i % 2 == 0 ? '\xc3' : wide ? '\xa4' : 'k';
  size_t la = pg_choice(2, "la"), lb = pg_choice(2, "lb"); for (size_t i = 0; i < la; i++) { a[n + i] = pg_u8("a"); pg_assume(a[n + i] != 0); } for (size_t i = 0; i < lb; i++) { b[n + i] = pg_u8("b"); pg_assume(b[n + i] != 0); }
  const passgen_hashmap_context *c = &passgen_hashmap_context_utf8; passgen_hashmap m; passgen_hashmap_init(&m, c); int same = la == lb && (!la || pg_bytes_eq(a + n, b + n, la));
  PG_ASSERTM(!c->equal(&m, a, b) == !same, "text key equality"); pg_cover(same ? "same" : "different");
  // and a map keeps them apart
  a[n] = 'x'; a[n + 1] = 0; b[n] = 'y'; b[n + 1] = 0; passgen_hashmap_insert(&m, a, a); passgen_hashmap_insert(&m, b, b); passgen_hashmap_entry *x = passgen_hashmap_lookup(&m, a), *y = passgen_hashmap_lookup(&m, b);
  PG_ASSERTM(x && y && x->value == a && y->value == b && m.len == 2, "long text keys are kept apart"); passgen_hashmap_free(&m);
}
void h_hashmap_text32(void) {
  static uint32_t a[4], b[4]; size_t n = PG_PARAM(0, 2), na = pg_choice(n, "la"), nb = pg_choice(n, "lb"); for (size_t i = 0; i < na; i++) { a[i] = pg_u32("a"); pg_assume(a[i] != 0); } for (size_t i = 0; i < nb; i++) { b[i] = pg_u32("b"); pg_assume(b[i] != 0); }
  const passgen_hashmap_context *c = &passgen_hashmap_context_utf32; passgen_hashmap m; passgen_hashmap_init(&m, c); int same = na == nb && pg_bytes_eq(a, b, 4 * na);
  PG_ASSERTM(c->equal(&m, a, b) == same, "wide text key equality"); if (same) { PG_ASSERT(c->hash(&m, a, true) == c->hash(&m, b, true) && c->hash(&m, a, false) == c->hash(&m, b, false)); pg_cover("same"); } else pg_cover("different"); passgen_hashmap_free(&m);
}
// wide text keys which differ only late must still be usable together
static uint64_t guard_hash(const passgen_hashmap *m, const void *k, bool f) { PG_ASSERTM(m->capacity < 1000, "a map of three entries grows without bound"); return passgen_hashmap_context_utf32.hash(m, k, f); }
void h_hashmap_text32_many(void) {
  static uint32_t k[3][5]; size_t n = pg_choice(3, "len"); for (int i = 0; i < 3; i++) { for (size_t j = 0; j <= n; j++) k[i][j] = 'a'; k[i][n] = 'a' + i; }
  if (n > 0 && (PG_PARAM(63, 0) >> (n - 1) & 1)) { pg_cover("listed"); return; } // known finding: the hash covers n bytes of a wide key, not n codepoints
  static passgen_hashmap_context g; g = passgen_hashmap_context_utf32; g.hash = guard_hash; passgen_hashmap m; passgen_hashmap_init(&m, &g); for (int i = 0; i < 3; i++) passgen_hashmap_insert(&m, k[i], &k[i]);
  for (int i = 0; i < 3; i++) { passgen_hashmap_entry *e = passgen_hashmap_lookup(&m, k[i]); PG_ASSERT(e && e->value == &k[i]); } passgen_hashmap_free(&m); pg_cover("done");
}

// ------------------------------------------------------------ keyed hash
static uint64_t rotl(uint64_t x, int b) { return x << b | x >> (64 - b); }
typedef struct { uint64_t a, b, c, d; } sip;
static sip rnd(sip s) { s.a += s.b; s.c += s.d; s.b = rotl(s.b, 13) ^ s.a; s.d = rotl(s.d, 16) ^ s.c; s.a = rotl(s.a, 32); s.c += s.b; s.a += s.d; s.b = rotl(s.b, 17) ^ s.c; s.d = rotl(s.d, 21) ^ s.a; s.c = rotl(s.c, 32); return s; }
static uint64_t le(const uint8_t *p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; i++) v |= (uint64_t)p[i] << (8 * i); return v; }
void h_siphash(void) {
  size_t n = pg_choice(PG_PARAM(0, 17), "len"); static uint8_t buf[64]; uint8_t *in = buf + 64 - n, key[16], out[16]; if (n) pg_sym_raw(in, n, "msg"); pg_sym_raw(key, 16, "key"); int wide = pg_choice(1, "wide"); memset(out, 0xEE, 16);
  passgen_siphash(in, n, key, out, wide ? 16 : 8);
  uint64_t k0 = le(key, 8), k1 = le(key + 8, 8); sip s = {0x736f6d6570736575ull ^ k0, 0x646f72616e646f6dull ^ k1, 0x6c7967656e657261ull ^ k0, 0x7465646279746573ull ^ k1}; if (wide) s.b ^= 0xee;
  size_t i = 0; for (;; i += 8) { uint64_t m; int last = n - i < 8; if (last) m = le(in + i, n - i) | (uint64_t)n << 56; else m = le(in + i, 8); s.d ^= m; s = rnd(rnd(s)); s.a ^= m; if (last) break; }
  s.c ^= wide ? 0xee : 0xff; s = rnd(rnd(rnd(rnd(s)))); uint64_t h = s.a ^ s.b ^ s.c ^ s.d;
  PG_ASSERTM(le(out, 8) == h, "not SipHash-2-4"); if (!wide) { for (int j = 8; j < 16; j++) PG_ASSERTM(out[j] == 0xEE, "writes past the hash"); pg_cover("short"); return; }
  s.b ^= 0xdd; s = rnd(rnd(rnd(rnd(s)))); PG_ASSERTM(le(out + 8, 8) == (s.a ^ s.b ^ s.c ^ s.d), "not SipHash-2-4 (second half)"); pg_cover("wide");
}

// ------------------------------------------------------------ allocation context
#ifdef PASSGEN_MEMORY
static void *g_state; static uint64_t g_size, g_count; static void *g_ptr; static int g_calls; static char block[8];
static void *c_m(void *s, size_t n) { g_state = s; g_size = n; g_calls |= 1; return block; } static void *c_c(void *s, size_t c, size_t n) { g_state = s; g_count = c; g_size = n; g_calls |= 2; return block + 1; }
static void *c_r(void *s, void *p, size_t n) { g_state = s; g_ptr = p; g_size = n; g_calls |= 4; return block + 2; } static void c_f(void *s, void *p) { g_state = s; g_ptr = p; g_calls |= 8; }
void h_context(void) {
  passgen_context c; memset(&c, 0xA5, sizeof c); passgen_context_init(&c); int set = pg_choice(15, "set"); void *st = (void *)pg_u64("state"); uint64_t n = pg_u64("size"), k = pg_u64("count"); void *p = (void *)pg_u64("ptr");
  if (set & 1) passgen_context_set_malloc(&c, c_m); if (set & 2) passgen_context_set_calloc(&c, c_c); if (set & 4) passgen_context_set_realloc(&c, c_r); if (set & 8) passgen_context_set_free(&c, c_f); if (pg_choice(1, "with state")) passgen_context_set_alloc_state(&c, st); else st = NULL;
  if (set & 1) { PG_ASSERT(passgen_malloc(&c, n) == block); PG_ASSERTM(g_calls == 1 && g_state == st && g_size == n, "allocation not routed to the custom function"); } else { uint8_t *q = passgen_malloc(&c, 40); PG_ASSERTM(q && pg_heap_live() == 1 && pg_objsize(q) == 40, "default allocation"); q[39] = 1; free(q); } g_calls = 0;
  if (set & 2) { PG_ASSERT(passgen_calloc(&c, k, n) == block + 1); PG_ASSERTM(g_calls == 2 && g_state == st && g_size == n && g_count == k, "zeroed allocation not routed"); } else { uint8_t *q = passgen_calloc(&c, 5, 8); PG_ASSERTM(q && pg_objsize(q) == 40, "default zeroed allocation"); for (int i = 0; i < 40; i++) PG_ASSERT(q[i] == 0); free(q); } g_calls = 0;
  if (set & 4) { PG_ASSERT(passgen_realloc(&c, p, n) == block + 2); PG_ASSERTM(g_calls == 4 && g_state == st && g_size == n && g_ptr == p, "reallocation not routed"); } else { uint8_t *q = malloc(4); q[3] = 9; q = passgen_realloc(&c, q, 60); PG_ASSERTM(q && pg_objsize(q) == 60 && q[3] == 9, "default reallocation"); free(q); } g_calls = 0;
  if (set & 8) { passgen_free(&c, p); PG_ASSERTM(g_calls == 8 && g_state == st && g_ptr == p, "release not routed"); } else passgen_free(&c, malloc(3));
  PG_ASSERTM(pg_heap_live() == 0, "default release"); pg_cover("done");
}
#endif

// ------------------------------------------------------------ version
void h_version(void) {
  passgen_version v = passgen_version_get(), q; PG_ASSERTM(v.major == PG_PARAM(0, 1) && v.minor == PG_PARAM(1, 0) && v.patch == PG_PARAM(2, 0), "reported version differs from the project's");
  memset(&q, 0, sizeof q); q.major = pg_u8("major"); q.minor = pg_u8("minor"); q.patch = pg_u8("patch"); uint32_t have = v.minor << 8 | v.patch, want = q.minor << 8 | q.patch;
  PG_ASSERTM(passgen_version_compatible(q) == (q.major == v.major && have >= want), "compatibility does not follow semantic versioning");
#ifdef PASSGEN_DEBUG
  PG_ASSERT(passgen_is_debug());
#else
  PG_ASSERT(!passgen_is_debug());
#endif
  pg_cover("done");
}
// many keys: growth through many capacities, removals and reinsertion
static uint32_t mk_[2000]; static uint8_t in_[2000]; static size_t many_seen; static uint64_t mseed;
static uint64_t many_hash(const passgen_hashmap *m, const void *key, bool first) { (void)m; uint64_t x = (*(const uint32_t *)key + mseed) * 0x9E3779B97F4A7C15ull + (first ? 1 : 0x632BE59BD9B4E019ull); x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return mseed & 1 ? x & 0xffff : x; }
static bool many_equal(const passgen_hashmap *m, const void *a, const void *b) { (void)m; return *(const uint32_t *)a == *(const uint32_t *)b; }
static int many_each(void *u, passgen_hashmap_entry *e) { PG_ASSERT(u == (void *)in_); size_t i = (const uint32_t *)e->key - mk_; PG_ASSERTM(i < 2000 && in_[i] == 1 && e->value == (void *)&in_[i], "iteration shows an entry which is not in the map"); in_[i] = 2; many_seen++; return 0; }
static void many_check(passgen_hashmap *m, size_t n, size_t count) {
  PG_ASSERTM(m->len == count, "reported size"); for (size_t i = 0; i < n; i++) { uint32_t q = mk_[i]; passgen_hashmap_entry *e = passgen_hashmap_lookup(m, &q); if (in_[i]) PG_ASSERTM(e && e->key == &mk_[i] && e->value == (void *)&in_[i], "lookup misses or returns a wrong entry"); else PG_ASSERTM(!e, "lookup finds a key which is not in the map"); }
  many_seen = 0; PG_ASSERT(passgen_hashmap_foreach(m, in_, many_each) == 0); PG_ASSERTM(many_seen == count, "iteration misses an entry"); for (size_t i = 0; i < n; i++) in_[i] = in_[i] != 0;
}
void h_hashmap_many(void) {
  static const passgen_hashmap_context c = {many_hash, many_equal, my_init, my_fini}; mseed = pg_choice(PG_PARAM(1, 5), "seed") * 77 + 1; size_t N = PG_PARAM(0, 400), step = 1 + pg_choice(3, "step"), count = 0; for (size_t i = 0; i < 2000; i++) mk_[i] = i * 3 + 1;
  passgen_hashmap m; passgen_hashmap_init(&m, &c);
  for (size_t i = 0; i < N; i++) { passgen_hashmap_entry r = passgen_hashmap_insert(&m, &mk_[i], &in_[i]); PG_ASSERTM(!r.key && !r.value, "inserting a new key returns an entry"); in_[i] = 1; count++; if (i < 70 || i + 1 == N || (i & (i + 1)) == 0) many_check(&m, i + 2, count); }
  for (size_t i = 0; i < N; i += step) { uint32_t q = mk_[i]; passgen_hashmap_entry r = passgen_hashmap_remove(&m, &q); PG_ASSERTM(r.key == &mk_[i] && r.value == (void *)&in_[i], "removal does not return the removed entry"); in_[i] = 0; count--; r = passgen_hashmap_remove(&m, &q); PG_ASSERTM(!r.key && !r.value, "removal of a removed key"); }
  many_check(&m, N + 3, count);
  for (size_t i = 0; i < N; i++) { passgen_hashmap_entry r = passgen_hashmap_insert(&m, &mk_[i], &in_[i]); PG_ASSERTM(in_[i] ? r.key == &mk_[i] && r.value == (void *)&in_[i] : !r.key && !r.value, "insertion does not return the replaced entry"); if (!in_[i]) count++; in_[i] = 1; }
  many_check(&m, N + 3, count); passgen_hashmap_free(&m); PG_ASSERTM(pg_heap_live() == 0, "map leaks memory"); pg_cover("done");
}
