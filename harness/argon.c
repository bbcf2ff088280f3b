// The password hash: P31.  Reference written from RFC 9106.
#include "crypto.c"
#define MAXB 540
typedef struct { uint64_t w[128]; } block_t;
static block_t mem_[MAXB];
static void hprime(uint8_t *out, uint32_t n, const uint8_t *x, uint32_t xn) {
  static uint8_t in[1400]; put32(in, n); memcpy(in + 4, x, xn);
  if (n <= 64) { ref_blake(out, n, NULL, 0, in, xn + 4); return; }
  uint8_t v[64]; ref_blake(v, 64, NULL, 0, in, xn + 4); uint32_t at = 0; memcpy(out, v, 32); at = 32;
  while (n - at > 64) { uint8_t t[64]; ref_blake(t, 64, NULL, 0, v, 64); memcpy(v, t, 64); memcpy(out + at, v, 32); at += 32; }
  uint8_t t[64]; ref_blake(t, n - at, NULL, 0, v, 64); memcpy(out + at, t, n - at);
}
static uint64_t lo32(uint64_t v) { return v & 0xffffffff; }
static uint64_t bla(uint64_t x, uint64_t y) { return x + y + 2 * (lo32(x) * lo32(y)); }
static void gb(uint64_t *a, uint64_t *b, uint64_t *c, uint64_t *d) { *a = bla(*a, *b); *d = ror(*d ^ *a, 32); *c = bla(*c, *d); *b = ror(*b ^ *c, 24); *a = bla(*a, *b); *d = ror(*d ^ *a, 16); *c = bla(*c, *d); *b = ror(*b ^ *c, 63); }
static void perm(uint64_t **v) { for (int i = 0; i < 4; i++) gb(v[i], v[4 + i], v[8 + i], v[12 + i]); for (int i = 0; i < 4; i++) gb(v[i], v[4 + (i + 1) % 4], v[8 + (i + 2) % 4], v[12 + (i + 3) % 4]); }
static void G_(block_t *out, const block_t *x, const block_t *y) {
  static block_t r, q; uint64_t *v[16]; for (int i = 0; i < 128; i++) r.w[i] = q.w[i] = x->w[i] ^ y->w[i];
  for (int k = 0; k < 8; k++) { for (int i = 0; i < 16; i++) v[i] = &q.w[16 * k + i]; perm(v); } // rows: eight 16 byte registers each
  for (int k = 0; k < 8; k++) { for (int i = 0; i < 8; i++) { v[2 * i] = &q.w[16 * i + 2 * k]; v[2 * i + 1] = &q.w[16 * i + 2 * k + 1]; } perm(v); }
  for (int i = 0; i < 128; i++) out->w[i] = q.w[i] ^ r.w[i];
}
static size_t pn, sn, kn_, xn; static uint8_t P_[200], S_[64], K_[64], X_[200];
static void ref_argon2(uint8_t *tag, uint32_t T, uint32_t p, uint32_t m, uint32_t t, uint32_t y) {
  static uint8_t in[800]; size_t n = 0; uint8_t h0[72];
#define W32(v) do { put32(in + n, v); n += 4; } while (0)
  W32(p); W32(T); W32(m); W32(t); W32(0x13); W32(y); W32(pn); memcpy(in + n, P_, pn); n += pn; W32(sn); memcpy(in + n, S_, sn); n += sn; W32(kn_); memcpy(in + n, K_, kn_); n += kn_; W32(xn); memcpy(in + n, X_, xn); n += xn;
  ref_blake(h0, 64, NULL, 0, in, n); uint32_t q = m / (4 * p) * 4, sl_ = q / 4; static uint8_t full[1024];
  for (uint32_t l = 0; l < p; l++) for (uint32_t j = 0; j < 2; j++) { put32(h0 + 64, j); put32(h0 + 68, l); hprime(full, 1024, h0, 72); for (int i = 0; i < 128; i++) mem_[l * q + j].w[i] = get64(full + 8 * i); }
  for (uint32_t r = 0; r < t; r++) for (uint32_t s = 0; s < 4; s++) for (uint32_t l = 0; l < p; l++) {
    static block_t addr, z, zero, o; uint64_t ctr = 0;
    for (uint32_t j = 0; j < sl_; j++) {
      int indep = y == 1 || (y == 2 && r == 0 && s < 2);
      if (indep && j % 128 == 0) { for (int i = 0; i < 128; i++) z.w[i] = zero.w[i] = 0; z.w[0] = r; z.w[1] = l; z.w[2] = s; z.w[3] = q * p; z.w[4] = t; z.w[5] = y; z.w[6] = ++ctr; G_(&o, &zero, &z); G_(&addr, &zero, &o); }
      if (r == 0 && s == 0 && j < 2) continue;
      uint32_t col = s * sl_ + j; block_t *cur = &mem_[l * q + col], *prev = &mem_[l * q + (col + q - 1) % q]; uint64_t js = indep ? addr.w[j % 128] : prev->w[0], j1 = js & 0xffffffff, j2 = js >> 32;
      uint64_t rl = r == 0 && s == 0 ? l : p == 1 ? 0 : j2 % p; // the lane referred to
      // the blocks of the last three finished segments and, in the own lane, of this segment
      uint64_t segs = r == 0 ? s : 3, own = segs * sl_ + j - 1, other = segs * sl_ - (j == 0), size = rl == l ? own : other, start = r == 0 ? 0 : (s + 1) % 4 * sl_;
      uint64_t x = j1 * j1 >> 32, yy = size * x >> 32, zz = size - 1 - yy, at = (start + zz) % q; block_t *ref_ = &mem_[rl * q + at];
      if (r == 0) G_(cur, prev, ref_); else { G_(&o, prev, ref_); for (int i = 0; i < 128; i++) cur->w[i] ^= o.w[i]; }
    }
  }
  static uint8_t last[1024]; for (int i = 0; i < 128; i++) { uint64_t v = mem_[q - 1].w[i]; for (uint32_t l = 1; l < p; l++) v ^= mem_[l * q + q - 1].w[i]; put64(last + 8 * i, v); } hprime(tag, T, last, 1024);
}
static uint8_t tag[140], want_tag[140];
static void check_argon(uint32_t T, uint32_t p, uint32_t m, uint32_t t, uint32_t y) {
  uint8_t *work = malloc(1024 * m); memset(tag, 0xA5, sizeof tag); passgen_argon2_config c = {.algorithm = y, .nb_blocks = m, .nb_passes = t, .nb_lanes = p}; passgen_argon2_inputs in = {.pass = P_, .salt = S_, .pass_size = pn, .salt_size = sn}; passgen_argon2_extras ex = {.key = kn_ ? K_ : NULL, .ad = xn ? X_ : NULL, .key_size = kn_, .ad_size = xn};
  ref_argon2(want_tag, T, p, m, t, y); passgen_argon2(tag, T, work, c, in, ex);
  for (uint32_t i = 0; i < T; i++) PG_ASSERTM(tag[i] == want_tag[i], "output differs from Argon2"); for (size_t i = T; i < sizeof tag; i++) PG_ASSERTM(tag[i] == 0xA5, "output written outside of the range");
  for (size_t i = 0; i < 1024 * (size_t)(m / (4 * p) * 4 * p); i++) PG_ASSERTM(work[i] == 0, "the work area is not cleared"); free(work); pg_cover("done");
}
// configurations: {variant, lanes, blocks, passes}
static const uint16_t CONF[][4] = {{2, 1, 8, 8}, {2, 1, 8, 1}, {2, 1, 8, 2}, {2, 1, 16, 2}, {0, 1, 8, 1}, {0, 1, 8, 3}, {0, 1, 16, 2}, {1, 1, 8, 1}, {1, 1, 8, 2}, {1, 1, 9, 3}, {1, 1, 11, 1}, {1, 1, 12, 2}, {1, 1, 23, 2}, {1, 2, 16, 1}, {1, 2, 16, 3}, {1, 2, 23, 2}, {1, 2, 24, 2}, {1, 3, 24, 2}, {1, 4, 35, 2}, {0, 1, 12, 2}, {2, 1, 12, 2}, {2, 1, 20, 1}, {1, 1, 40, 2}, {2, 1, 32, 2}, {0, 1, 32, 2}, {2, 1, 23, 3}, {0, 1, 35, 1}, {2, 1, 64, 1}, {1, 1, 524, 1}, {1, 1, 530, 2}, {2, 1, 64, 3}, {0, 1, 100, 2}, {2, 1, 16, 8}, {1, 4, 64, 4}, {2, 1, 530, 1}};
void h_argon_conf(void) { int k = PG_PARAM(0, 0) + pg_choice(PG_PARAM(1, 24), "configuration"); pn = 4; sn = 8; kn_ = 2; xn = 2; pg_sym_raw(P_, pn, "pass"); pg_sym_raw(S_, sn, "salt"); pg_sym_raw(K_, kn_, "key"); pg_sym_raw(X_, xn, "ad"); check_argon(32, CONF[k][1], CONF[k][2], CONF[k][3], CONF[k][0]); }
// sizes of the inputs and of the output: one at a time
void h_argon_sizes(void) {
  static const size_t N[] = {0, 1, 2, 3, 5, 7, 12, 50, 85, 86, 87, 88, 89, 100, 128, 180, 4, 6, 16, 63, 64, 65, 95, 96, 97, 127, 129, 130}; int k = PG_PARAM(0, 0) + pg_choice(PG_PARAM(1, 47), "size"); pn = 3; sn = 8; kn_ = 0; xn = 0; uint32_t T = 32;
  if (k < 16) pn = N[k]; else if (k < 24) sn = N[k - 16]; else if (k < 32) kn_ = N[k - 24]; else if (k < 48) xn = N[k - 32]; else T = N[k - 47];
  if (pn) pg_sym_raw(P_, pn, "pass"); if (sn) pg_sym_raw(S_, sn, "salt"); if (kn_) pg_sym_raw(K_, kn_, "key"); if (xn) { pg_sym_raw(X_, xn, "ad"); } check_argon(T > 130 ? 126 : T, 1, 8, 1, 1);
}
