// UTF-8 decoding and encoding against an independent reference (RFC 3629).
#include "pg.h"
#include <passgen/util/utf8.h>
#include <string.h>

// reference: length of the well-formed sequence at p (n bytes left), 0 if none
static unsigned ref_dec(const uint8_t *p, size_t n, uint32_t *cp) {
  uint32_t c;
  if (n == 0) return 0;
  if (p[0] < 0x80) { *cp = p[0]; return 1; }
  if (p[0] >= 0xC2 && p[0] <= 0xDF) { if (n < 2 || (p[1] & 0xC0) != 0x80) return 0; *cp = (p[0] & 0x1Fu) << 6 | (p[1] & 0x3F); return 2; }
  if ((p[0] & 0xF0) == 0xE0) {
    if (n < 3 || (p[1] & 0xC0) != 0x80 || (p[2] & 0xC0) != 0x80) return 0;
    c = (p[0] & 0x0Fu) << 12 | (p[1] & 0x3Fu) << 6 | (p[2] & 0x3F);
    if (c < 0x800 || (c >= 0xD800 && c <= 0xDFFF)) return 0; *cp = c; return 3;
  }
  if ((p[0] & 0xF8) == 0xF0) {
    if (n < 4 || (p[1] & 0xC0) != 0x80 || (p[2] & 0xC0) != 0x80 || (p[3] & 0xC0) != 0x80) return 0;
    c = (p[0] & 0x07u) << 18 | (p[1] & 0x3Fu) << 12 | (p[2] & 0x3Fu) << 6 | (p[3] & 0x3F);
    if (c < 0x10000 || c > 0x10FFFF) return 0; *cp = c; return 4;
  }
  return 0;
}

// every byte string of length 0..N, every output capacity 0..N
void h_decode(void) {
  size_t N = PG_PARAM(0, 5);
  size_t n = pg_choice(N, "len"), cap = pg_choice(N, "cap");
  uint8_t in[16]; uint32_t out[16]; uint8_t w[16]; uint8_t *exact = in + 16 - n; // reads past the end hit the object's end
  if (n) pg_sym_raw(exact, n, "bytes");
  // split by byte class first: keeps the conditions small
  static const uint8_t lo[] = {0, 0x80, 0x90, 0xA0, 0xC0, 0xC2, 0xE0, 0xE1, 0xED, 0xEE, 0xF0, 0xF1, 0xF4, 0xF5, 0};
  for (size_t i = 0; i < n; i++) { size_t k = pg_choice(13, "class"); pg_assume(exact[i] >= lo[k]); if (lo[k + 1]) pg_assume(exact[i] < lo[k + 1]); }
  uint32_t *o = out + 16 - cap; uint8_t *ow = w + 16 - cap;
  uint32_t *op = o; const uint8_t *ip = exact;
  int ret = passgen_utf8_decode(&op, cap, ow, &ip, n);
  size_t pos = 0, k = 0; int bad = 0;
  while (pos < n && k < cap) {
    uint32_t cp = 0; unsigned l = ref_dec(exact + pos, n - pos, &cp);
    if (!l) { bad = 1; break; }
    { PG_ASSERTM(o[k] == cp, "decoded codepoint differs from the input"); PG_ASSERTM(ow[k] == l, "reported width differs from the encoded width"); }
    pos += l; k++;
  }
  if (bad) { pg_cover("invalid"); PG_ASSERTM(ret < 0, "malformed or truncated UTF-8 accepted"); PG_ASSERTM(op == o + k, "number of codepoints before the malformed sequence"); PG_ASSERTM(ip == exact + pos, "position of the malformed sequence"); return; }
  PG_ASSERTM(ret >= 0, "well-formed UTF-8 rejected");
  PG_ASSERTM(op == o + k, "number of codepoints produced"); PG_ASSERTM(ip == exact + pos, "number of bytes consumed");
  if (pos == n) { pg_cover("complete"); PG_ASSERTM(ret == 0, "complete decode must report success"); }
  else { pg_cover("output full"); PG_ASSERTM(ret > 0, "incomplete decode must ask for more room"); }
  // decoding in two calls gives the same result
  if (pos != n) {
    uint32_t more[16]; uint32_t *mp = more; const uint8_t *ip2 = ip; int r2 = passgen_utf8_decode(&mp, 16, NULL, &ip2, n - pos);
    uint32_t cp; if (ref_dec(exact + pos, n - pos, &cp)) { if (r2 == 0) PG_ASSERT(more[0] == cp && ip2 == exact + n); } else PG_ASSERT(r2 < 0);
  }
}

static int validcp(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
static unsigned width(uint32_t c) { return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4; }

// every codepoint sequence of length 0..N, every output capacity 0..4N+1
void h_encode(void) {
  size_t N = PG_PARAM(0, 2);
  size_t n = pg_choice(N, "len"), cap = pg_choice(4 * N + 1, "cap");
  uint32_t in[8]; for (size_t i = 0; i < n; i++) in[i] = pg_u32("cp");
  uint8_t buf[40]; memset(buf, 0xAA, sizeof buf); uint8_t *o = buf + 40 - cap;
  size_t op = 0, ip = 0; int ret = passgen_utf8_encode(o, cap, &op, in, n, &ip);
  PG_ASSERTM(op <= cap, "encoder claims more bytes than the buffer holds"); PG_ASSERTM(ip <= n, "encoder claims more input than given");
  PG_ASSERTM(buf[39 - cap] == 0xAA, "encoder wrote before the buffer");
  size_t pos = 0, k = 0;
  for (; k < ip; k++) {
    uint32_t cp = 0; PG_ASSERTM(validcp(in[k]), "a value outside Unicode was encoded"); unsigned wd = width(in[k]);
    PG_ASSERTM(pos + wd <= op, "encoded length");
    unsigned l = ref_dec(o + pos, op - pos, &cp); PG_ASSERTM(l == wd && cp == in[k], "encoding does not decode back to the codepoint"); pos += l;
  }
  PG_ASSERTM(pos == op, "bytes written without input consumed");
  if (ip == n) { pg_cover("all"); PG_ASSERTM(ret == 0, "complete encode must report success"); }
  else if (!validcp(in[ip])) { pg_cover("invalid"); PG_ASSERTM(ret < 0 || op + 4 > cap, "value outside Unicode not reported"); PG_ASSERTM(ret != 0, "incomplete encode reported as success"); }
  else { pg_cover("full"); PG_ASSERTM(ret > 0, "full output must be reported as such"); PG_ASSERTM(op + width(in[ip]) > cap, "codepoint refused although it fits"); }
}

// every 32-bit value
void h_codepoint(void) {
  uint32_t c = pg_u32("cp"); uint8_t o[4] = {0, 0, 0, 0};
  int r = passgen_utf8_encode_codepoint(o, c);
  if (!validcp(c)) { pg_cover("invalid"); PG_ASSERT(r < 0); return; }
  PG_ASSERTM(r == (int)width(c), "width");
  uint32_t back = 0; unsigned l = ref_dec(o, 4, &back); pg_cover("valid");
  PG_ASSERTM(l == (unsigned)r && back == c, "round trip");
}
// strings longer than one chunk boundary: round trip of up to M codepoints
void h_roundtrip(void) {
  size_t n = PG_PARAM(0, 3); uint32_t in[8], out[8]; uint8_t b[40], w[8];
  for (size_t i = 0; i < n; i++) { in[i] = pg_u32("cp"); pg_assume(in[i] <= 0x10FFFF && (in[i] < 0xD800 || in[i] > 0xDFFF)); }
  size_t op = 0, ip = 0; PG_ASSERT(passgen_utf8_encode(b, 40, &op, in, n, &ip) == 0);
  uint32_t *p = out; const uint8_t *q = b; PG_ASSERT(passgen_utf8_decode(&p, 8, w, &q, op) == 0);
  PG_ASSERT(p == out + n && q == b + op);
  for (size_t i = 0; i < n; i++) PG_ASSERTM(out[i] == in[i] && w[i] == width(in[i]), "round trip");
  pg_cover("done");
}
static unsigned ref_enc(uint8_t *d, uint32_t c) {
  if (c < 0x80) { d[0] = c; return 1; } if (c < 0x800) { d[0] = 0xC0 | c >> 6; d[1] = 0x80 | (c & 0x3F); return 2; }
  if (c < 0x10000) { d[0] = 0xE0 | c >> 12; d[1] = 0x80 | (c >> 6 & 0x3F); d[2] = 0x80 | (c & 0x3F); return 3; }
  d[0] = 0xF0 | c >> 18; d[1] = 0x80 | (c >> 12 & 0x3F); d[2] = 0x80 | (c >> 6 & 0x3F); d[3] = 0x80 | (c & 0x3F); return 4;
}
// long texts of every width, converted in one and in two steps
void h_long_text(void) {
  static const uint16_t L[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513}; size_t n = L[pg_choice(sizeof L / sizeof *L - 1, "length")]; int mix = pg_choice(3, "widths");
  static uint32_t in[520], out[520]; static uint8_t b[2100], c[2100], w[520], ref[2100]; size_t rn = 0;
  static const uint32_t base[] = {0x41, 0x3B1, 0x20AC, 0x1F600}; for (size_t i = 0; i < n; i++) in[i] = base[mix == 3 ? (i * 7 + i / 5) % 4 : mix] + i % 13;
  in[n - 1] = pg_u32("last"); pg_assume(validcp(in[n - 1]));
  for (size_t i = 0; i < n; i++) rn += ref_enc(ref + rn, in[i]);
  memset(b, 0xAA, sizeof b); size_t op = 0, ip = 0; PG_ASSERTM(passgen_utf8_encode(b, sizeof b, &op, in, n, &ip) == 0 && op == rn && ip == n, "long text is not encoded"); PG_ASSERTM(pg_bytes_eq(b, ref, rn), "encoding of a long text");
  // the buffer is too small at first
  size_t cut = rn - pg_choice(9, "cut"); op = ip = 0; memset(c, 0xAA, sizeof c); int r = passgen_utf8_encode(c, cut, &op, in, n, &ip); PG_ASSERTM(op <= cut && c[cut] == 0xAA, "encoder wrote beyond the buffer"); PG_ASSERTM((r == 0) == (cut == rn), "result of a partial encode");
  r = passgen_utf8_encode(c, sizeof c, &op, in, n, &ip); PG_ASSERTM(r == 0 && op == rn && ip == n && pg_bytes_eq(c, ref, rn), "continued encoding");
  uint32_t *p = out; const uint8_t *q = b; PG_ASSERTM(passgen_utf8_decode(&p, 520, w, &q, rn) == 0 && p == out + n && q == b + rn, "long text is not decoded");
  for (size_t i = 0; i < n; i++) PG_ASSERTM(out[i] == in[i] && w[i] == width(in[i]), "decoding of a long text");
  size_t room = n - 1 - pg_choice(3, "room"); memset(out, 0xA5, sizeof out); p = out; q = b; r = passgen_utf8_decode(&p, room, NULL, &q, rn); PG_ASSERTM(r > 0 && p == out + room && out[room] == 0xA5A5A5A5, "full output of codepoints");
  r = passgen_utf8_decode(&p, 520 - room, NULL, &q, rn - (q - b)); PG_ASSERTM(r == 0 && p == out + n && q == b + rn, "continued decoding"); for (size_t i = 0; i < n; i++) PG_ASSERTM(out[i] == in[i], "continued decoding"); pg_cover("done");
}
