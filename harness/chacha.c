// ChaCha20 based sources: chunking, seeking, descriptions, master passphrases, wiping.
// The cipher itself is replaced by a recording stand-in (its own correctness is
// property P29); everything around it is the real code.
#include "pg.h"
#include "io.h"
#include <passgen/random.h>
#include <passgen/monocypher.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define BUF PASSGEN_RANDOM_BUFFER_LENGTH
#define KS 4096
static uint8_t ks[KS]; uint8_t ck_key[32], ck_iv[8]; int ck_set;
uint64_t passgen_chacha20_djb(uint8_t *out, const uint8_t *in, size_t n, const uint8_t key[32], const uint8_t nonce[8], uint64_t ctr) {
  if (ck_set) { PG_ASSERTM(pg_bytes_eq(ck_key, key, 32) && pg_bytes_eq(ck_iv, nonce, 8), "key or nonce changed within one stream"); }
  memcpy(ck_key, key, 32); memcpy(ck_iv, nonce, 8); ck_set = 1;
  if (ctr > KS || ctr * 64 + n > KS) { PG_ASSERTM(n == 0, "keystream position beyond anything requested"); return ctr; }
  if (!in) memcpy(out, ks + ctr * 64, n); else for (size_t i = 0; i < n; i++) out[i] = in[i] ^ ks[ctr * 64 + i];
  return ctr + (n + 63) / 64;
}
// chacha20 descriptions: key and iv come from the text
void h_chacha_desc(void) {
  size_t kn = pg_choice(PG_PARAM(0, 34), "keylen"), mode = pg_choice(2, "iv"), vn = mode == 1 ? pg_choice(9, "ivlen") : 0; char b[128]; size_t len = 9 + kn + (mode ? 1 + vn : 0); char *d = b + 127 - len; memcpy(d, "chacha20:", 9);
  static const char *lens = ""; (void)lens;
  if (kn) pg_sym_raw(d + 9, kn, "key"); for (size_t i = 0; i < kn; i++) pg_assume(d[9 + i] != 0 && d[9 + i] != ':'); if (mode) d[9 + kn] = ':'; if (vn) pg_sym_raw(d + 10 + kn, vn, "ivb"); for (size_t i = 0; i < vn; i++) pg_assume(d[10 + kn + i] != 0); d[len] = 0;
  uint8_t key[32] = {0}, iv[8] = "passgen"; if (kn <= 32) memcpy(key, d + 9, kn); if (mode) { memset(iv, 0, 8); memcpy(iv, d + 10 + kn, vn > 8 ? 8 : vn); }
  extern uint8_t ck_key[32], ck_iv[8]; extern int ck_set; ck_set = 0;
  passgen_random st; passgen_random *r = passgen_random_open(&st, d);
  if (kn > 32) { PG_ASSERTM(!r, "overlong key accepted"); pg_cover("overlong"); return; }
  PG_ASSERTM(r == &st, "valid description refused"); PG_ASSERT(ck_set); PG_ASSERTM(pg_bytes_eq(ck_key, key, 32), "key differs from the description"); PG_ASSERTM(pg_bytes_eq(ck_iv, iv, 8), "iv differs from the description"); pg_cover("opened");
  passgen_random_close(&st);
}

// any split of the stream into requests, direct from the source: the same keystream
void h_chunks(void) {
  pg_sym_raw(ks, KS, "keystream"); uint8_t key[32], iv[8]; pg_sym_raw(key, 32, "key"); pg_sym_raw(iv, 8, "iv"); passgen_random st; PG_ASSERT(passgen_random_chacha20_open(&st, key, iv) == &st);
  PG_ASSERTM(pg_bytes_eq(ck_key, key, 32) && pg_bytes_eq(ck_iv, iv, 8), "key or iv not passed on"); memset(key, 0, 32); memset(iv, 0, 8); // the source keeps its own copy
  static uint8_t out[2048]; size_t pos = BUF, N = PG_PARAM(0, 140);
  size_t n[3] = {pg_choice(N, "n1"), 0, 0}; n[1] = pg_choice(N, "n2"); static const uint8_t third[] = {1, 63, 64, 65, 128, 200}; n[2] = third[(n[0] + n[1]) % 6];
  for (int i = 0; i < 3; i++) { memset(out, 0x5A, n[i] + 64); size_t got = st.read(st.context, out + 32, n[i]); PG_ASSERTM(got == n[i], "short keystream read"); PG_ASSERTM(pg_bytes_eq(out + 32, ks + pos, n[i]), "keystream depends on how the requests are split"); PG_ASSERT(out[31] == 0x5A && out[32 + n[i]] == 0x5A); pos += n[i]; }
  passgen_random_close(&st); PG_ASSERT(pg_heap_live() == 0); pg_cover("done");
}
// seek to any position, read, across reloads and oversized reads
void h_seek(void) {
  pg_sym_raw(ks, KS, "keystream"); uint8_t key[32], iv[8]; pg_sym_raw(key, 32, "key"); pg_sym_raw(iv, 8, "iv"); passgen_random *r = passgen_random_chacha20_open(NULL, key, iv); PG_ASSERT(r);
  static uint8_t out[2048]; size_t pre = pg_choice(2, "pre"); if (pre) { passgen_random_read(r, out, pre == 1 ? 77 : 1100); }
  size_t p = pg_choice(PG_PARAM(0, 600), "pos"); passgen_random_chacha20_seek(r, p);
  static const uint16_t ns[] = {1, 64, 1000, 1023, 1024}; size_t n = ns[pg_choice(4, "n")]; memset(out, 0, sizeof out); passgen_random_read(r, out, n); PG_ASSERTM(pg_bytes_eq(out, ks + p, n), "seek does not continue at the requested position");
  passgen_random_read(r, out, 900); PG_ASSERTM(pg_bytes_eq(out, ks + p + n, 900), "stream after a seek"); passgen_random_free(r); PG_ASSERT(pg_heap_live() == 0); pg_cover("done");
}
// oversized reads of any size continue the stream, including the following refill
void h_oversized(void) {
  pg_sym_raw(ks, KS, "keystream"); uint8_t key[32] = {1}, iv[8] = {2}; passgen_random st; passgen_random_chacha20_open(&st, key, iv); static uint8_t out[2048]; size_t n = 1025 + pg_choice(130, "n");
  passgen_random_read(&st, out, n); PG_ASSERTM(pg_bytes_eq(out, ks + BUF, n), "oversized read"); passgen_random_read(&st, out, BUF); PG_ASSERTM(pg_bytes_eq(out, ks, BUF), "buffered data changed"); passgen_random_read(&st, out, 700); PG_ASSERTM(pg_bytes_eq(out, ks + BUF + n, 700), "refill after an oversized read"); pg_cover("done");
}

// ------------------------------------------------------------ master passphrase
#ifdef WITH_ARGON
static uint8_t a_hash[32]; static const void *a_work; static int a_calls;
static uint8_t e_pass[160], e_dom[160], e_tok[160]; static size_t e_pl, e_dl, e_tl; static passgen_argon2_config e_cfg;
void passgen_argon2(uint8_t *hash, uint32_t hash_size, void *work, passgen_argon2_config c, passgen_argon2_inputs in, passgen_argon2_extras ex) {
  a_calls++; PG_ASSERTM(hash_size == 32, "derived key length"); PG_ASSERTM(c.algorithm == e_cfg.algorithm && c.nb_blocks == e_cfg.nb_blocks && c.nb_passes == e_cfg.nb_passes && c.nb_lanes == e_cfg.nb_lanes, "derivation cost parameters");
  PG_ASSERTM(pg_objsize(work) >= (size_t)c.nb_blocks * 1024, "work area too small"); ((uint8_t *)work)[c.nb_blocks * 1024 - 1] = 0;
  PG_ASSERTM(in.pass_size == e_pl && pg_bytes_eq(in.pass, e_pass, e_pl), "passphrase not passed to the derivation"); PG_ASSERTM(in.salt_size == 7 && pg_bytes_eq(in.salt, "passgen", 7), "salt");
  PG_ASSERTM(ex.key_size == e_dl && pg_bytes_eq(ex.key, e_dom, e_dl), "domain not passed to the derivation"); PG_ASSERTM(ex.ad_size == e_tl && pg_bytes_eq(ex.ad, e_tok, e_tl), "token not passed to the derivation");
  memcpy(hash, a_hash, 32);
}
static size_t symstr(char *p, size_t n, const char *nm, int colon) { if (n) pg_sym_raw(p, n, nm); for (size_t i = 0; i < n; i++) { pg_assume(p[i] != 0); if (!colon) pg_assume(p[i] != ':'); } p[n] = 0; return n; }
static void opened(passgen_random *r) { PG_ASSERT(a_calls == 1); PG_ASSERTM(pg_bytes_eq(ck_key, a_hash, 32), "stream not keyed by the derived key"); PG_ASSERTM(!memcmp(ck_iv, "passgen", 8), "nonce"); uint8_t o[100]; passgen_random_read(r, o, 100); PG_ASSERTM(pg_bytes_eq(o, ks, 100), "stream"); }
void h_master(void) {
  pg_sym_raw(ks, KS, "keystream"); pg_sym_raw(a_hash, 32, "hash"); size_t N = PG_PARAM(0, 5), pl = pg_choice(N, "pl"), dl = pg_choice(N + 1, "dl"), tl = pg_choice(N + 1, "tl"); char p[64], d[64], t[64];
  e_pl = symstr(p, pl, "pass", 1); e_dl = dl <= N ? symstr(d, dl, "dom", 1) : 0; e_tl = tl <= N ? symstr(t, tl, "tok", 1) : 0; memcpy(e_pass, p, e_pl); memcpy(e_dom, d, e_dl); memcpy(e_tok, t, e_tl);
  passgen_argon2_config cfg = {CRYPTO_ARGON2_ID, 8, 8, 1}, *c = NULL; if (pg_choice(1, "config")) { cfg.algorithm = CRYPTO_ARGON2_I; cfg.nb_blocks = 8 + pg_choice(2, "blocks"); cfg.nb_passes = pg_u32("passes"); c = &cfg; } e_cfg = cfg;
  passgen_random st; passgen_random *r = passgen_random_chacha20_argon2_open(pg_choice(1, "alloc") ? NULL : &st, (uint8_t *)p, dl <= N ? (uint8_t *)d : NULL, tl <= N ? (uint8_t *)t : NULL, c); PG_ASSERT(r); opened(r);
  if (r == &st) passgen_random_close(r); else passgen_random_free(r); PG_ASSERTM(pg_heap_live() == 0, "leak"); pg_cover("done");
}
// chacha20-argon2:PASS[:DOMAIN[:TOKEN]]
void h_master_desc(void) {
  memset(ks, 1, KS); pg_sym_raw(a_hash, 32, "hash"); e_cfg = (passgen_argon2_config){CRYPTO_ARGON2_ID, 8, 8, 1};
  static const uint8_t lens[] = {0, 1, 2, 5, 126, 127, 128, 130}; size_t parts = 1 + pg_choice(2, "parts"); size_t L[3] = {0, 0, 0}; static char buf[500]; char f[3][160]; memset(f, 0, sizeof f); size_t total = 16;
  for (size_t i = 0; i < parts; i++) { L[i] = lens[pg_choice(7, "len")]; symstr(f[i], L[i], "field", 0); total += L[i] + (i > 0); }
  if (L[0] == 0) pg_assume(0); // an empty passphrase is outside the documented syntax
  if (parts == 3 && L[1] == 0) pg_assume(0); // an empty domain followed by a token
  char *d = buf + 499 - total, *q = d; memcpy(q, "chacha20-argon2:", 16); q += 16; for (size_t i = 0; i < parts; i++) { if (i) *q++ = ':'; memcpy(q, f[i], L[i]); q += L[i]; } *q = 0;
  e_pl = L[0]; e_dl = L[1]; e_tl = L[2]; memcpy(e_pass, f[0], 160); memcpy(e_dom, f[1], 160); memcpy(e_tok, f[2], 160);
  passgen_random st; passgen_random *r = passgen_random_open(&st, d);
  if (L[0] > 127 || L[1] > 127 || L[2] > 127) { PG_ASSERTM(!r, "overlong field accepted"); pg_cover("overlong"); return; }
  PG_ASSERTM(r == &st, "valid description refused"); opened(r); passgen_random_close(r); PG_ASSERTM(pg_heap_live() == 0, "leak"); pg_cover("opened");
}
#endif
// ------------------------------------------------------------ wiping
// Secret bytes are drawn from 0x81..0xB0; four of them in a row must not
// remain in memory which is given back.
#ifdef WITH_WIPE
static int armed;
static int secretish(const uint8_t *b, size_t n) { int run = 0; for (size_t i = 0; i < n; i++) { if (b[i] >= 0x81 && b[i] <= 0xB0) { if (++run == 4) return 1; } else run = 0; } return 0; }
extern uint64_t wipe_state;
void pg_free_hook(void *p, size_t n) {
  if (wipe_state && n >= 8) { uint8_t *b = p; for (size_t i = 0; i + 8 <= n && n < 2048; i++) PG_ASSERTM(memcmp(b + i, &wipe_state, 8) != 0, "memory released with generator state in it"); }
  if (!armed) return;
#ifndef PG_NATIVE
  if (pg_is_symbolic(p, n)) { pg_assert_raw(!secretish(p, n), "memory released with key or generator state in it"); }
  else
#endif
  PG_ASSERTM(!secretish(p, n), "memory released with key or generator state in it");
}
static void secret(uint8_t *p, size_t n, const char *nm) { pg_sym_raw(p, n, nm); for (size_t i = 0; i < n; i++) pg_assume(p[i] >= 0x81 && p[i] <= 0xB0); }
void h_wipe(void) {
  uint8_t key[32], iv[8]; int how = pg_choice(3, "how"); secret(key, 32, "key"); secret(iv, 8, "iv"); secret(ks, 64, "ks"); for (size_t i = 64; i < KS; i++) ks[i] = ks[i & 63];
  static passgen_random st; passgen_random *r = NULL; armed = 1;
#ifdef WITH_ARGON
  memcpy(a_hash, key, 32); e_cfg = (passgen_argon2_config){CRYPTO_ARGON2_ID, 8, 8, 1}; e_pl = 8; e_dl = 8; memcpy(e_pass, iv, 8); memcpy(e_dom, iv, 8); char p[9]; memcpy(p, iv, 8); p[8] = 0;
#endif
  switch (how) {
    case 0: r = passgen_random_chacha20_open(&st, key, iv); break;
    case 1: r = passgen_random_chacha20_open(NULL, key, iv); break;
#ifdef WITH_ARGON
    case 2: r = passgen_random_chacha20_argon2_open(&st, (uint8_t *)p, (uint8_t *)p, NULL, NULL); break;
    default: r = passgen_random_chacha20_argon2_open(NULL, (uint8_t *)p, (uint8_t *)p, NULL, NULL); break;
#endif
  }
  PG_ASSERT(r); uint8_t o[16]; size_t n = pg_choice(1, "reads"); for (size_t i = 0; i < n; i++) passgen_random_read(r, o, 16);
  if (pg_choice(1, "seek")) passgen_random_chacha20_seek(r, 77);
  if (r == &st) { passgen_random_close(&st); uint8_t *b = (uint8_t *)&st; for (size_t i = 0; i < sizeof st; i++) PG_ASSERTM(b[i] == 0, "closing leaves random data or state behind"); } else passgen_random_free(r);
  PG_ASSERTM(pg_heap_live() == 0, "leak"); pg_cover("done");
}
// every other kind of source: the caller's object is cleared, generator state does not survive
static long os_fill(void *p, size_t n, unsigned fl) { memset(p, 0x99, n); return n; }
static size_t cust_read(void *c, void *d, size_t n) { memset(d, 0x99, n); return n; }
static void cust_close(void *c) { *(int *)c += 1; }
void h_wipe_other(void) {
  static passgen_random st; passgen_random *r = NULL; int how = pg_choice(7, "how"), closed = 0; static uint8_t fd[4096]; memset(fd, 0x99, sizeof fd); pg_file_add("/r", fd, 4096); pg_getrandom_hook = os_fill; armed = 1;
  uint64_t seed = 0x8182838485868788ull;
  switch (how) {
    case 0: r = passgen_random_system_open(&st); break; case 1: r = passgen_random_system_open(NULL); break; case 2: r = passgen_random_path_open(&st, "/r"); break; case 3: r = passgen_random_open(NULL, "file:/r"); break;
    case 4: case 5: case 6: r = passgen_random_xorshift_open(how == 5 ? NULL : &st, seed); break;
    default: r = &st; memset(&st, 0, sizeof st); st.read = cust_read; st.close = cust_close; st.context = &closed; passgen_random_reload(&st); break;
  }
  PG_ASSERT(r); uint8_t o[32]; passgen_random_read(r, o, 32);
  if (how >= 4 && how <= 6) { // state right now: the last word produced so far
    uint64_t x = seed; for (int i = 0; i < 128; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; }
    armed = 0; extern uint64_t wipe_state; wipe_state = x;
  }
  if (r == &st) { passgen_random_close(&st); uint8_t *b = (uint8_t *)&st; for (size_t i = 0; i < sizeof st; i++) PG_ASSERTM(b[i] == 0, "closing leaves random data or state behind"); } else passgen_random_free(r);
  if (how == 7) PG_ASSERTM(closed == 1, "source closed exactly once"); if (how == 2 || how == 3) PG_ASSERTM(pg_files[0].closes == 1, "device closed exactly once");
  PG_ASSERTM(pg_heap_live() == 0, "leak"); pg_cover("done");
}
uint64_t wipe_state;
#endif
