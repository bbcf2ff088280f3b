// The bundled primitives: P29, P31.  References written from RFC 8439 (and
// the original 64 bit counter variant), RFC 7693 and RFC 9106.
#include "pg.h"
#include <passgen/config.h>
#include <passgen/monocypher.h>
#include <stdlib.h>
#include <string.h>
static uint32_t get32(const uint8_t *p) { return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static void put32(uint8_t *p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = (uint8_t)(v >> (8 * i)); }
static uint64_t get64(const uint8_t *p) { return get32(p) | (uint64_t)get32(p + 4) << 32; }
static void put64(uint8_t *p, uint64_t v) { for (int i = 0; i < 8; i++) p[i] = (uint8_t)(v >> (8 * i)); }
static uint32_t rol(uint32_t v, int n) { return v << n | v >> (32 - n); }
static uint64_t ror(uint64_t v, int n) { return v >> n | v << (64 - n); }
// ---------------------------------------------------------------- ChaCha20
static void quarter(uint32_t *s, int a, int b, int c, int d) { s[a] += s[b]; s[d] = rol(s[d] ^ s[a], 16); s[c] += s[d]; s[b] = rol(s[b] ^ s[c], 12); s[a] += s[b]; s[d] = rol(s[d] ^ s[a], 8); s[c] += s[d]; s[b] = rol(s[b] ^ s[c], 7); }
static void rounds(uint32_t *s) { for (int i = 0; i < 10; i++) { for (int k = 0; k < 4; k++) quarter(s, k, 4 + k, 8 + k, 12 + k); for (int k = 0; k < 4; k++) quarter(s, k, 4 + (k + 1) % 4, 8 + (k + 2) % 4, 12 + (k + 3) % 4); } }
static void ref_state(uint32_t *s, const uint8_t *key) { static const char c[] = "expand 32-byte k"; for (int i = 0; i < 4; i++) s[i] = get32((const uint8_t *)c + 4 * i); for (int i = 0; i < 8; i++) s[4 + i] = get32(key + 4 * i); }
static void ref_block(uint8_t *out, const uint8_t *key, uint32_t w12, uint32_t w13, uint32_t w14, uint32_t w15) { uint32_t in[16], s[16]; ref_state(in, key); in[12] = w12; in[13] = w13; in[14] = w14; in[15] = w15; memcpy(s, in, 64); rounds(s); for (int i = 0; i < 16; i++) put32(out + 4 * i, s[i] + in[i]); }
static uint8_t key[64], nonce[24], plain[600], got[616], ref[664];
static const uint32_t near[] = {0, 1, 0x7fffffff, 0xfffffffd, 0xfffffffe, 0xffffffff};
static void check_text(size_t n, int src, uint32_t lo, uint32_t hi, uint32_t w14, uint32_t w15, int ietf, const uint8_t *k) {
  for (size_t b = 0; b * 64 < n; b++) { ref_block(ref + 64 * b, k, lo, hi, w14, w15); lo++; if (!lo && !ietf) hi++; }
  for (size_t i = 0; i < n; i++) PG_ASSERTM(got[i] == (uint8_t)(ref[i] ^ (src ? plain[i] : 0)), "output differs from ChaCha20"); for (size_t i = n; i < n + 16; i++) PG_ASSERTM(got[i] == 0xA5, "output written outside of the range");
}
static int prepare(size_t n) { pg_sym_raw(key, 32, "key"); pg_sym_raw(nonce, 24, "nonce"); memset(got, 0xA5, sizeof got); int src = pg_choice(2, "text"); if (src) { if (n) pg_sym_raw(plain, n, "plain"); if (src == 2) memcpy(got, plain, n); } return src; }
// every length, in place, to another place and without input
void h_chacha(void) {
  size_t n = pg_choice(PG_PARAM(0, 200), "size"); int src = prepare(n); uint32_t lo = near[pg_choice(5, "counter")], hi = pg_u32("high"); if (n <= 64 && pg_choice(1, "any counter")) lo = pg_u32("low");
  uint8_t k[32], iv[8]; memcpy(k, key, 32); memcpy(iv, nonce, 8); uint64_t r = passgen_chacha20_djb(got, src == 2 ? got : src ? plain : NULL, n, k, iv, (uint64_t)hi << 32 | lo);
  check_text(n, src, lo, hi, get32(nonce), get32(nonce + 4), 0, key); uint64_t blocks = (n + 63) / 64; PG_ASSERTM(r == ((uint64_t)hi << 32 | lo) + blocks, "the counter returned is not the next one"); PG_ASSERTM(pg_bytes_eq(k, key, 32) && pg_bytes_eq(iv, nonce, 8), "inputs changed"); pg_cover("done");
}
// one stream in pieces
void h_chacha_split(void) {
  size_t a = 64 * (1 + pg_choice(1, "blocks")), n = a + 1 + pg_choice(PG_PARAM(0, 70), "rest"); int src = prepare(n); uint32_t lo = near[pg_choice(5, "counter")], hi = pg_u32("high"); uint64_t c = (uint64_t)hi << 32 | lo;
  c = passgen_chacha20_djb(got, src ? plain : NULL, a, key, nonce, c); if (src == 2) memcpy(got + a, plain + a, n - a); passgen_chacha20_djb(got + a, src ? plain + a : NULL, n - a, key, nonce, c); check_text(n, src, lo, hi, get32(nonce), get32(nonce + 4), 0, key); pg_cover("done");
}
// the variants built on it
void h_chacha_variants(void) {
  int v = pg_choice(2, "variant"); size_t n = v == 0 ? 0 : pg_choice(PG_PARAM(0, 80), "size"); int src = prepare(n); const uint8_t *p = src == 2 ? got : src ? plain : NULL; uint8_t sub[32]; uint32_t s[16]; ref_state(s, key); for (int i = 0; i < 4; i++) s[12 + i] = get32(nonce + 4 * i); rounds(s); for (int i = 0; i < 4; i++) { put32(sub + 4 * i, s[i]); put32(sub + 16 + 4 * i, s[12 + i]); }
  if (v == 0) { passgen_chacha20_h(got, key, nonce); PG_ASSERTM(pg_bytes_eq(got, sub, 32), "output differs from HChaCha20"); pg_cover("h"); return; }
  uint32_t c = near[pg_choice(v == 1 ? 2 : 5, "counter")];
  if (v == 1) { PG_ASSERTM(passgen_chacha20_ietf(got, p, n, key, nonce, c) == c + (n + 63) / 64, "counter"); check_text(n, src, c, get32(nonce), get32(nonce + 4), get32(nonce + 8), 1, key); pg_cover("ietf"); }
  else { uint64_t r = passgen_chacha20_x(got, p, n, key, nonce, c); PG_ASSERTM(r == (uint64_t)c + (n + 63) / 64, "counter"); check_text(n, src, c, 0, get32(nonce + 16), get32(nonce + 20), 0, sub); pg_cover("x"); }
}
// ----------------------------------------------------------------- BLAKE2b
static const uint64_t IV[8] = {0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179};
static const uint8_t SIGMA[10][16] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}, {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3}, {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4}, {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8}, {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13}, {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9}, {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11}, {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10}, {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5}, {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
static void mix(uint64_t *v, int a, int b, int c, int d, uint64_t x, uint64_t y) { v[a] += v[b] + x; v[d] = ror(v[d] ^ v[a], 32); v[c] += v[d]; v[b] = ror(v[b] ^ v[c], 24); v[a] += v[b] + y; v[d] = ror(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = ror(v[b] ^ v[c], 63); }
static void compress(uint64_t *h, const uint8_t *block, uint64_t t, int last) {
  uint64_t v[16], m[16]; for (int i = 0; i < 16; i++) m[i] = get64(block + 8 * i); for (int i = 0; i < 8; i++) { v[i] = h[i]; v[8 + i] = IV[i]; } v[12] ^= t; if (last) v[14] = ~v[14];
  for (int r = 0; r < 12; r++) { const uint8_t *s = SIGMA[r % 10]; for (int k = 0; k < 4; k++) mix(v, k, 4 + k, 8 + k, 12 + k, m[s[2 * k]], m[s[2 * k + 1]]); for (int k = 0; k < 4; k++) mix(v, k, 4 + (k + 1) % 4, 8 + (k + 2) % 4, 12 + (k + 3) % 4, m[s[8 + 2 * k]], m[s[9 + 2 * k]]); }
  for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[8 + i];
}
static void ref_blake(uint8_t *out, size_t on, const uint8_t *k, size_t kn, const uint8_t *m, size_t n) {
  uint64_t h[8], t = 0; memcpy(h, IV, 64); h[0] ^= 0x01010000 ^ kn << 8 ^ on; uint8_t b[128];
  if (kn) { memset(b, 0, 128); memcpy(b, k, kn); t = 128; compress(h, b, t, n == 0); }
  if (n || !kn) { size_t at = 0; do { size_t c = n - at < 128 ? n - at : 128; memset(b, 0, 128); memcpy(b, m + at, c); at += c; t += c; compress(h, b, t, at == n); } while (at < n); }
  uint8_t full[64]; for (int i = 0; i < 8; i++) put64(full + 8 * i, h[i]); memcpy(out, full, on);
}
static uint8_t msg[600], hash[80], want[64];
static void check_hash(size_t on) { for (size_t i = 0; i < on; i++) PG_ASSERTM(hash[i] == want[i], "output differs from BLAKE2b"); for (size_t i = on; i < sizeof hash; i++) PG_ASSERTM(hash[i] == 0xA5, "output written outside of the range"); pg_cover("done"); }
void h_blake(void) {
  static const size_t KN[] = {0, 1, 16, 32, 63, 64}; size_t n = pg_choice(PG_PARAM(0, 140), "size"), kn = KN[pg_choice(5, "key size")], on = 64; if (n == 3) on = 1 + pg_choice(63, "hash size"); uint8_t *m = malloc(n + 1), *k = malloc(kn + 1); if (n) pg_sym_raw(m, n, "message"); if (kn) pg_sym_raw(k, kn, "key");
  if (n) memcpy(msg, m, n); memcpy(key, k, kn); memset(hash, 0xA5, sizeof hash); if (kn || pg_choice(1, "keyed")) passgen_blake2b_keyed(hash, on, kn ? k : NULL, kn, m, n); else passgen_blake2b(hash, on, m, n); ref_blake(want, on, key, kn, msg, n); check_hash(on); free(m); free(k);
}
// longer messages around the block size
void h_blake_long(void) { static const size_t N[] = {255, 256, 257, 383, 384, 385, 512, 520}; size_t n = N[pg_choice(7, "size")], kn = pg_choice(1, "keyed") * 32; pg_sym_raw(msg, n, "message"); if (kn) pg_sym_raw(key, kn, "key"); memset(hash, 0xA5, sizeof hash); passgen_blake2b_keyed(hash, 64, key, kn, msg, n); ref_blake(want, 64, key, kn, msg, n); check_hash(64); }
// in pieces: every pair of sizes
void h_blake_split(void) {
  size_t lim = PG_PARAM(0, 20), a = pg_choice(lim, "first"), off = pg_choice(3, "near"); static const size_t O[] = {0, 110, 120, 245}; size_t b = O[off] + pg_choice(lim, "second"), c = pg_choice(2, "third"); c = c == 2 ? 128 : c; size_t n = a + b + c; if (n) pg_sym_raw(msg, n, "message"); passgen_blake2b_ctx x; memset(&x, 0xA5, sizeof x); int kn = pg_choice(1, "keyed") * 17; if (kn) pg_sym_raw(key, kn, "key");
  if (kn) passgen_blake2b_keyed_init(&x, 48, key, kn); else passgen_blake2b_init(&x, 48); memset(hash, 0xA5, sizeof hash); passgen_blake2b_update(&x, msg, a); passgen_blake2b_update(&x, msg + a, b); if (c) passgen_blake2b_update(&x, msg + a + b, c); passgen_blake2b_final(&x, hash); ref_blake(want, 48, key, kn, msg, n); check_hash(48);
  for (size_t i = 0; i < sizeof x; i++) PG_ASSERTM(((uint8_t *)&x)[i] == 0, "state is not cleared");
}
// ----------------------------------------------------------------- helpers
void h_helpers(void) {
  uint8_t a[64], b[64]; static const int N[] = {16, 32, 64}; int k = pg_choice(2, "size"), n = N[k]; pg_sym_raw(a, n, "a"); pg_sym_raw(b, n, "b"); int r = k == 0 ? passgen_verify16(a, b) : k == 1 ? passgen_verify32(a, b) : passgen_verify64(a, b); int same = pg_bytes_eq(a, b, n);
  PG_ASSERTM((r == 0) == !!same && (r == 0 || r == -1), "comparison"); size_t w = pg_choice(64, "wipe"); uint8_t c[72]; memset(c, 0x5A, 72); passgen_wipe(c, w); for (size_t i = 0; i < 72; i++) PG_ASSERTM(c[i] == (i < w ? 0 : 0x5A), "clearing"); pg_cover("done");
}
