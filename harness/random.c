// Randomness sources: delivery (P01), bounded draws (P02), failure (P03),
// deterministic sources (P04), wiping (P05).
#include "pg.h"
#include "io.h"
#include <passgen/random.h>
#include <passgen/monocypher.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define BUF PASSGEN_RANDOM_BUFFER_LENGTH

// ------------------------------------------------------------ custom source
// Produces a fixed stream.  Bytes written straight into the caller's buffer
// count as delivered; everything else is queued and must come out in order.
#define STREAM 8192
static uint8_t stream[STREAM]; static size_t produced, lastcall;
static uint8_t *cur_dest; static size_t cur_len;
static uint8_t fifo[STREAM]; static size_t head, tail;
static uint8_t want[STREAM]; static uint8_t direct[STREAM];
static size_t src_read(void *ctx, void *dest, size_t n) {
  PG_ASSERTM(ctx == (void *)stream, "source called with a foreign context");
  PG_ASSERTM(produced + n <= STREAM, "source asked for more data than any request needs");
  uint8_t *d = dest; memcpy(d, stream + produced, n);
  if (cur_dest && d >= cur_dest && d < cur_dest + cur_len) { size_t o = d - cur_dest; PG_ASSERTM(o + n <= cur_len, "source writes beyond the requested bytes"); memcpy(want + o, stream + produced, n); memset(direct + o, 1, n); }
  else { memcpy(fifo + tail, stream + produced, n); tail += n; }
  produced += n; lastcall = n; return n;
}
static void src_close(void *ctx) { PG_ASSERT(ctx == (void *)stream); }
static void src_open(passgen_random *r) { memset(r, 0, sizeof *r); r->context = stream; r->read = src_read; r->close = src_close; produced = head = tail = 0; cur_dest = NULL; passgen_random_reload(r); }
static void expect(uint8_t *dest, size_t n) { cur_dest = dest; cur_len = n; memset(direct, 0, n); }
static void check(uint8_t *dest, size_t n) {
  for (size_t i = 0; i < n;) {
    if (direct[i]) { i++; continue; }
    size_t k = i; while (k < n && !direct[k]) k++;
    PG_ASSERTM(head + (k - i) <= tail, "delivered more bytes than the source produced"); memcpy(want + i, fifo + head, k - i); head += k - i; i = k;
  }
  PG_ASSERTM(pg_bytes_eq(dest, want, n), "delivered bytes are not the next bytes of the source"); cur_dest = NULL;
}
static void rd(passgen_random *r, size_t n) {
  static uint8_t out[STREAM]; uint8_t *o = out + 64; memset(out, 0xA5, n + 128);
  expect(o, n); passgen_random_read(r, o, n); check(o, n);
  PG_ASSERTM(o[-1] == 0xA5 && o[n] == 0xA5, "read wrote outside the requested range");
}
// three requests of any sizes: every byte of the source is delivered once and in order
static const uint16_t sizes2[] = {0, 1, 2, 3, 7, 8, 63, 64, 511, 512, 513, 1020, 1022, 1023, 1024, 1025, 1500, 2047, 2048, 2049};
static size_t pick(size_t used, const char *nm) {
  size_t left = BUF - used % BUF, ns = sizeof sizes2 / sizeof *sizes2;
  size_t c = pg_choice(ns + 5, nm); if (c < ns) return sizes2[c];
  switch (c - ns) { case 0: return left - 1; case 1: return left; case 2: return left + 1; case 3: return left / 2; case 4: return left + 8; default: return 2 * left; }
}
void h_stream(void) {
  pg_sym_raw(stream, STREAM, "stream"); passgen_random r; src_open(&r);
  size_t n1 = pg_choice(PG_PARAM(0, 1026), "n1"), used = 0;
  rd(&r, n1); if (n1 <= BUF) used += n1;
  size_t n2 = pick(used, "n2"); rd(&r, n2); if (n2 <= BUF) used += n2;
  size_t n3 = PG_PARAM(1, 0) ? pick(used, "n3") : 1024 - 24; rd(&r, n3); rd(&r, 1);
  if (n1 > BUF) pg_cover("oversized first"); if (used > BUF) pg_cover("crosses the buffer end");
  passgen_random_close(&r);
}
// typed draws at every offset around the end of the buffer
void h_typed(void) {
  pg_sym_raw(stream, 4096, "stream"); passgen_random r; src_open(&r);
  size_t n1 = BUF - pg_choice(PG_PARAM(0, 20), "gap"); rd(&r, n1); uint8_t b[8]; 
  for (int i = 0; i < (int)PG_PARAM(1, 2); i++) {
    uint64_t v; size_t n, k = pg_choice(4, "kind");
    static uint8_t o[8]; expect(o, 0);
    size_t h0 = head;
    switch (k) {
      case 0: v = passgen_random_u8(&r); n = 1; break;
      case 1: v = passgen_random_u16(&r); n = 2; break;
      case 2: v = passgen_random_u32(&r); n = 4; break;
      case 3: v = passgen_random_u64(&r); n = 8; break;
      default: v = passgen_random_bool(&r); n = 1; break;
    }
    PG_ASSERTM(h0 + n <= tail, "more bytes than produced"); memcpy(b, fifo + h0, n); head += n;
    uint64_t w = 0; for (size_t j = 0; j < n; j++) w |= (uint64_t)b[j] << (8 * j);
    if (k == 4) PG_ASSERTM((int)v == !(w >> 7), "boolean draw is not one fair bit of the next byte"); else PG_ASSERTM(v == w, "integer draw is not the next source bytes");
  }
  rd(&r, 5); pg_cover("done");
}
// system and file sources deliver what the operating system gave, once
static uint8_t osdata[8192]; static size_t ospos;
static long os_random(void *p, size_t n, unsigned fl) { memcpy(p, osdata + ospos, n); ospos += n; return n; }
void h_system(void) {
  size_t N = 4096; pg_sym_raw(osdata, sizeof osdata, "os"); pg_getrandom_hook = os_random;
  pg_file_add("/data/random", osdata, sizeof osdata);
  int how = pg_choice(5, "how"); passgen_random st, *r = NULL;
  switch (how) {
    case 0: r = passgen_random_open(&st, NULL); break;
    case 1: r = passgen_random_open(&st, "system"); break;
    case 2: r = passgen_random_system_open(NULL); break;
    case 3: r = passgen_random_open(&st, "file:/data/random"); break;
    case 4: r = passgen_random_path_open(NULL, "/data/random"); break;
    case 5: { FILE *f = fopen("/data/random", "r"); r = passgen_random_file_open(&st, f); break; }
  }
  PG_ASSERT(r); static uint8_t out[4096]; size_t pos = 0; static const uint16_t seq[] = {1, 500, 523, 8, 1024, 3, 4, 1000, 600};
  size_t rot = pg_choice(8, "rot");
  for (size_t i = 0; i < 9 && pos + 1024 < N; i++) { size_t n = seq[(i + rot) % 9]; passgen_random_read(r, out + pos, n); pos += n; }
  PG_ASSERTM(pg_bytes_eq(out, osdata, pos), "bytes differ from what the system delivered");
  if (r == &st) passgen_random_close(r); else passgen_random_free(r);
  if (how < 3) pg_cover("system"); else pg_cover("file");
}
void h_missing_file(void) {
  passgen_random st; PG_ASSERT(!passgen_random_open(&st, "file:/does/not/exist")); PG_ASSERT(!passgen_random_path_open(NULL, "/nope")); PG_ASSERTM(pg_heap_live() == 0, "failed open leaks memory"); pg_cover("done");
}

// ------------------------------------------------------------ bounded draws
static uint8_t words[32]; static size_t wpos, wlen;
static size_t word_read(void *c, void *d, size_t n) { (void)c; uint8_t *b = d; for (size_t i = 0; i < n; i++) b[i] = wpos + i < wlen ? words[wpos + i] : 0; wpos += n; return n; }
static void none(void *c) { (void)c; }
static uint64_t draw(passgen_random *r, int w, uint64_t max) { switch (w) { case 0: return passgen_random_u8_max(r, max); case 1: return passgen_random_u16_max(r, max); case 2: return passgen_random_u32_max(r, max); default: return passgen_random_u64_max(r, max); } }
static void words_open(passgen_random *r) { memset(r, 0, sizeof *r); r->read = word_read; r->close = none; memset(r->buffer, 0, BUF); memcpy(r->buffer, words, sizeof words); }
static uint64_t rawmax(int w) { uint8_t b[8] = {0}; size_t n = 1u << w; pg_sym_raw(b, n, "max"); uint64_t v = 0; for (size_t i = 0; i < n; i++) v |= (uint64_t)b[i] << (8 * i); return v; }
// consumption: how many bytes of the buffer did the draw use?
static size_t used(passgen_random *r) { return r->pos; }
// value below max; exactly one word per attempt; accepted attempts map one-to-one onto every value
void h_bounded(void) {
  int w = pg_choice(3, "width"); size_t n = 1u << w; uint64_t max = rawmax(w); pg_assume(max != 0);
  passgen_random r; memset(words, 0, sizeof words); pg_sym_raw(words, n, "word"); // a zero word follows: accepted for every max
  words_open(&r); uint64_t v = draw(&r, w, max); size_t c = used(&r);
  PG_ASSERTM(v < max, "bounded draw returned a value outside its range");
  PG_ASSERTM(c == n || c == 2 * n, "draw consumed a different number of bytes than one word per attempt");
  int acc = c == n; uint64_t b = 0; { uint8_t t[8] = {0}; pg_sym_raw(t, n, "other"); for (size_t i = 0; i < n; i++) b |= (uint64_t)t[i] << (8 * i); } pg_assume(b < max);
  if (acc) { // w -> w ^ (v ^ b) carries the words giving v onto the words giving b
    pg_cover("accepted"); uint64_t x = v ^ b; for (size_t i = 0; i < n; i++) words[i] ^= x >> (8 * i);
    words_open(&r); uint64_t v2 = draw(&r, w, max);
    PG_ASSERTM(v2 == b && used(&r) == n, "bounded draw is not uniform: one value has more source words than another");
  } else { // a rejected word is rejected because of its top relevant bit: rejection probability below 1/2
    pg_cover("rejected"); uint64_t top = max; top |= top >> 1; top |= top >> 2; top |= top >> 4; top |= top >> 8; top |= top >> 16; top |= top >> 32; top ^= top >> 1;
    for (size_t i = 0; i < n; i++) words[i] ^= top >> (8 * i);
    words_open(&r); draw(&r, w, max); PG_ASSERTM(used(&r) == n, "more than half of the source words are rejected");
    PG_ASSERTM(v == 0, "retry did not use the next word");
  }
}
// a sequence of rejections: the result depends only on the first accepted word
void h_rejections(void) {
  int w = pg_choice(3, "width"); size_t n = 1u << w; uint64_t max = rawmax(w); pg_assume(max != 0);
  uint8_t in[24]; memset(in, 0, sizeof in); pg_sym_raw(in, 3 * n > 24 ? 24 : 3 * n, "words");
  memset(words, 0, sizeof words); memcpy(words, in, 24); passgen_random r; words_open(&r); uint64_t v = draw(&r, w, max); size_t k = used(&r) / n; PG_ASSERT(used(&r) % n == 0 && k >= 1 && k <= 4);
  if (k <= 3) { memset(words, 0, sizeof words); memcpy(words, in + (k - 1) * n, n); words_open(&r); uint64_t v2 = draw(&r, w, max); PG_ASSERTM(v2 == v && used(&r) == n, "result does not depend on the accepted word alone"); }
  for (size_t i = 0; i + 1 < k && i < 3; i++) { memset(words, 0, sizeof words); memcpy(words, in + i * n, n); words_open(&r); draw(&r, w, max); PG_ASSERTM(used(&r) > n, "an acceptable word was skipped"); }
  if (k == 3) pg_cover("two rejections");
}
// bounded draws across the end of the buffer
void h_bounded_edge(void) {
  pg_sym_raw(stream, 2048, "stream"); int w = pg_choice(3, "width"); size_t n = 1u << w, gap = pg_choice(n + 1, "gap"); uint64_t max = rawmax(w); pg_assume(max != 0);
  passgen_random r; src_open(&r); rd(&r, BUF - gap); 
  uint8_t nx[8]; memset(nx, 0, 8); memcpy(nx, stream + BUF - gap, n); passgen_random r2; memset(words, 0, sizeof words); memcpy(words, nx, n); words_open(&r2); uint64_t v2 = draw(&r2, w, max); pg_assume(used(&r2) == n); // accepted at once
  uint64_t v = draw(&r, w, max); PG_ASSERTM(v == v2, "draw at the end of the buffer differs"); pg_cover("done");
}

// ------------------------------------------------------------ failure
static int exitcode = -1, failed, returned_after;
void pg_exit_handler(int code) { PG_ASSERTM(failed, "the process ended although the source never failed"); PG_ASSERTM(code != 0, "a failing randomness source must not end in success"); pg_cover("stopped"); }
static uint8_t good[8192]; static size_t gpos; static int failat, ncall;
static size_t short_amount(size_t n) { // any result other than n
  size_t k = pg_choice(5, "short"); failed = 1; switch (k) { case 0: return 0; case 1: return n - 1; case 2: return n / 2; case 3: return (size_t)-1; case 4: return 1; default: return n + 1; }
}
static size_t flaky(void *c, void *d, size_t n) { (void)c; if (ncall++ == failat) { size_t s = short_amount(n); size_t put = s < n ? s : 0; memcpy(d, good + gpos, put); return s; } memcpy(d, good + gpos, n); gpos += n; return n; }
static long flaky_os(void *d, size_t n, unsigned fl) { return (long)flaky(NULL, d, n); }
void h_failure(void) {
  memset(good, 0x77, sizeof good); failat = pg_choice(2, "failing call"); pg_allow_exit(1); passgen_random st, *r = &st; memset(&st, 0x11, sizeof st);
  int how = pg_choice(2, "how"); size_t total = 0;
  if (how == 0) { memset(&st, 0, sizeof st); st.read = flaky; st.close = none; passgen_random_reload(&st); }
  else if (how == 1) { pg_getrandom_hook = flaky_os; r = passgen_random_system_open(&st); }
  else { pg_getrandom_hook = flaky_os; r = passgen_random_open(NULL, "system"); }
  if (failed) { PG_ASSERTM(r == NULL, "open succeeded although the source failed"); return; }
  static uint8_t out[4096]; size_t big = pg_choice(2, "big");
  for (int i = 0; i < 4; i++) { size_t n = big == 0 ? 700 : big == 1 ? 1024 : 1030; memset(out, 0, n); passgen_random_read(r, out, n); PG_ASSERTM(!failed, "read returned although the source failed"); for (size_t j = 0; j < n; j += 64) PG_ASSERT(out[j] == 0x77); }
  (void)total; pg_fail("the source failed but nobody noticed");
}
// a file which is too short
void h_short_file(void) {
  memset(good, 0x77, sizeof good); size_t n = pg_choice(PG_PARAM(0, 2100), "file size"); pg_file_add("/data/r", good, n); pg_allow_exit(1); failed = n < 3 * 1024;
  passgen_random st; memset(&st, 0x11, sizeof st); passgen_random *r = passgen_random_open(&st, "file:/data/r"); if (!r) { PG_ASSERTM(n < 1024, "open failed"); return; }
  PG_ASSERTM(n >= 1024, "opened a file source without enough data"); static uint8_t out[1024]; size_t got = 0;
  for (int i = 0; i < 12; i++) { passgen_random_read(r, out, 300); got += 300; PG_ASSERTM(got <= n, "delivered more bytes than the file holds"); for (int j = 0; j < 300; j++) PG_ASSERTM(out[j] == 0x77, "delivered a byte which is not in the file"); }
}

// ------------------------------------------------------------ deterministic
void h_xorshift(void) {
  uint64_t seed = pg_u64("seed"); pg_assume(seed != 0); passgen_random st; PG_ASSERT(passgen_random_xorshift_open(&st, seed) == &st);
  uint64_t x = seed; size_t words_ = PG_PARAM(0, 130);
  for (size_t i = 0; i < words_; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; uint64_t v = passgen_random_u64(&st); PG_ASSERTM(v == x, "xorshift output differs from the published recurrence"); }
  passgen_random_close(&st); PG_ASSERT(pg_heap_live() == 0); pg_cover("done");
}
// oversized xorshift requests continue the recurrence, partial last word
void h_xorshift_big(void) {
  uint64_t seed = pg_u64("seed"); passgen_random st; passgen_random_xorshift_open(&st, seed); size_t n = 1025 + pg_choice(15, "n"); static uint8_t out[2048], ref[4096]; uint64_t x = seed;
  for (size_t i = 0; i < 4096; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(ref + i, &x, 8); if (i > 1024 + 1100) break; }
  passgen_random_read(&st, out, n); PG_ASSERTM(pg_bytes_eq(out, ref + 1024, n), "oversized read"); pg_cover("done");
}
void h_zero(void) { passgen_random st; PG_ASSERT(passgen_random_open(&st, "zero")); static uint8_t out[2048]; size_t n = pg_choice(2048, "n"); memset(out, 1, sizeof out); passgen_random_read(&st, out, n); for (size_t i = 0; i < n; i++) PG_ASSERT(out[i] == 0); passgen_random_close(&st); pg_cover("done"); }
// seeds: every decimal number of up to D digits
void h_seed(void) {
  size_t D = PG_PARAM(0, 4), n = pg_choice(D, "digits"); char d[32] = "xorshift:"; uint64_t v = 0; for (size_t i = 0; i < n; i++) { d[9 + i] = pg_u8("digit"); pg_assume(d[9 + i] >= '0' && d[9 + i] <= '9'); v = v * 10 + (d[9 + i] - '0'); }
  passgen_random st, ref; passgen_random *r = passgen_random_open(&st, d); if (v == 0) { PG_ASSERTM(!r, "a zero or empty seed must be refused"); pg_cover("refused"); return; }
  PG_ASSERTM(r != NULL, "valid seed refused"); passgen_random_xorshift_open(&ref, v); PG_ASSERTM(passgen_random_u64(&st) == passgen_random_u64(&ref), "seed"); pg_cover("seeded");
}
// any short description: opens exactly the documented source or fails, no memory error
static long os_zero(void *p, size_t n, unsigned fl) { memset(p, 0x42, n); return n; }
void h_desc(void) {
  size_t n = pg_choice(PG_PARAM(0, 7), "len"); char b[16]; char *d = b + 15 - n; d[n] = 0; if (n) pg_sym_raw(d, n, "desc"); for (size_t i = 0; i < n; i++) pg_assume(d[i] != 0);
  pg_getrandom_hook = os_zero; passgen_random st; passgen_random *r = passgen_random_open(&st, d);
  int z = !strcmp(d, "zero"), s = !strcmp(d, "system"); if (z || s) { PG_ASSERTM(r == &st, "documented description refused"); PG_ASSERT(passgen_random_u8(&st) == (z ? 0 : 0x42)); pg_cover(z ? "zero" : "system"); } else { PG_ASSERTM(r == NULL, "unknown description accepted"); pg_cover("refused"); }
}

// ------------------------------------------------------------ no memory
// every kind of source, opened with any one allocation failing
static uint8_t filedata[4096]; static uint64_t nm_seed; static uint8_t nm_key[32], nm_iv[8]; static FILE *nm_file;
static const char *NM[] = {"zero", "system", NULL, "xorshift:77", "file:/data/r", "chacha20:key", "chacha20:key:iv", "chacha20-argon2:secret:domain:token"};
#define NMN (sizeof NM / sizeof *NM)
static passgen_random *nm_open(int how, passgen_random *r) {
  passgen_argon2_config cfg = {.algorithm = 1, .nb_blocks = 9, .nb_passes = 1, .nb_lanes = 1};
  if (how < (int)NMN) return passgen_random_open(r, NM[how]);
  switch (how - NMN) {
    case 0: return passgen_random_zero_open(r);
    case 1: return passgen_random_system_open(r);
    case 2: return passgen_random_xorshift_open(r, nm_seed);
    case 3: return passgen_random_path_open(r, "/data/r");
    case 4: return passgen_random_chacha20_open(r, nm_key, nm_iv);
    case 5: return passgen_random_chacha20_argon2_open(r, (const uint8_t *)"pw", NULL, NULL, &cfg);
    case 6: return passgen_random_chacha20_argon2_open(r, (const uint8_t *)"pw", (const uint8_t *)"d", (const uint8_t *)"t", NULL);
    default: return passgen_random_file_open(r, nm_file);
  }
}
static long os_seq(void *p, size_t n, unsigned fl) { (void)fl; for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)(i * 7 + 1); return n; }
void h_nomem(void) {
  int how = pg_choice(NMN + 7, "source"), own = pg_choice(1, "own object"), k = pg_choice(PG_PARAM(0, 4), "failing allocation"); pg_allow_exit(0);
  nm_seed = pg_u64("seed"); pg_assume(nm_seed != 0); pg_sym_raw(nm_key, 32, "key"); pg_sym_raw(nm_iv, 8, "iv"); pg_getrandom_hook = os_seq; for (size_t i = 0; i < sizeof filedata; i++) filedata[i] = (uint8_t)(i ^ i >> 8); struct pg_file *f = pg_file_add("/data/r", filedata, sizeof filedata);
  // what the source delivers
  static uint8_t want[96], got[96]; passgen_random ref; memset(&ref, 0, sizeof ref); if (how == (int)NMN + 7) nm_file = fopen("/data/r", "r"); PG_ASSERTM(nm_open(how, &ref) == &ref, "the source does not open although there is memory"); passgen_random_read(&ref, want, sizeof want); passgen_random_close(&ref);
  uint64_t live = pg_heap_live(); PG_ASSERTM(live == 0, "closing leaks memory");
  if (how == (int)NMN + 7) nm_file = fopen("/data/r", "r"); int opens = f->opens - f->closes;
  static passgen_random obj; memset(&obj, 0x5A, sizeof obj); passgen_random *mine = own ? &obj : NULL;
  if (k) pg_malloc_fail_at(k - 1); passgen_random *r = nm_open(how, mine); pg_malloc_fail_at(-1);
  if (!r) {
    PG_ASSERTM(k != 0, "the source does not open although there is memory"); pg_cover("failed");
    PG_ASSERTM(pg_heap_live() == live, "memory is leaked when opening fails"); PG_ASSERTM(f->opens - f->closes == opens, how == (int)NMN + 7 ? "the file of the caller is closed when opening fails" : "a file stays open when opening fails"); return;
  }
  PG_ASSERTM(!own || r == mine, "another object is returned"); passgen_random_read(r, got, sizeof got); PG_ASSERTM(pg_bytes_eq(got, want, sizeof got), "a source which could not be opened properly is returned");
  if (own) passgen_random_close(r); else passgen_random_free(r);
  PG_ASSERTM(pg_heap_live() == live, "memory is leaked"); PG_ASSERTM(f->opens == f->closes, "a file stays open"); pg_cover("opened");
}
