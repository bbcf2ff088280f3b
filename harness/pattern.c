// Parsing and generation: P07-P14, P25.
#include "ref.h"
#include <passgen/passgen.h>
#include <passgen/generate.h>
#include <passgen/random.h>
#include <passgen/pattern/env.h>
#include <passgen/parser/token.h>
#include <passgen/parser/parser.h>
#include <stdlib.h>
#define STREAM 2048
static uint8_t stream[STREAM]; static size_t spos;
static size_t src_read(void *c, void *d, size_t n) { (void)c; if (spos + n > STREAM) pg_path_end(); memcpy(d, stream + spos, n); spos += n; return n; }
static void src_close(void *c) { (void)c; }
static void src(passgen_random *r) { memset(r, 0, sizeof *r); r->read = src_read; r->close = src_close; spos = 0; passgen_random_reload(r); }
#define ERRMSG(e) PG_ASSERTM((e)->message != NULL && pg_valid((e)->message), "failure without a message")
enum { F_ACCEPT = 1, F_POS = 2, F_GEN = 4, F_ENT = 8, F_MEM = 16 };
#define CAPMAX 256
static size_t CAP = 40, depth_limit = 1024; static void (*env_setup)(passgen_env *);
static void pipeline(const char *text, size_t n, int flags) {
  passgen_pattern pat; passgen_error e; memset(&e, 0xA5, sizeof e); memset(&pat, 0xA5, sizeof pat);
  int ret = passgen_parse(&pat, &e, text), root = -2;
  if (flags & ~F_MEM) root = ref_parse((const uint8_t *)text, n);
  if (ret != 0) {
    pg_cover("refused");
    if (flags & F_ACCEPT) PG_ASSERTM(root < 0, "valid pattern refused");
    if ((flags & F_POS) && root < 0) {
      ERRMSG(&e);
      PG_ASSERTM(e.offset.codepoint == err_off, "error position (characters) is not the first offending token");
      PG_ASSERTM(e.offset.byte == err_boff, "error position (bytes) is not the first offending token");
    }
    if (flags & F_MEM) { ERRMSG(&e); PG_ASSERTM(e.offset.byte <= n && e.offset.codepoint <= e.offset.byte, "error position outside of the text"); }
    passgen_error_free(&e);
  } else {
    pg_cover("accepted");
    if (flags & F_ACCEPT) PG_ASSERTM(root >= 0, "invalid pattern accepted");
  }
  if (ret == 0 && root >= 0 && (flags & (F_GEN | F_ENT))) {
    want_entropy = !!(flags & F_ENT);
    pg_sym_raw(stream, STREAM, "stream");
    int r = ref_run(root, depth_limit, stream, STREAM, CAP);
    passgen_random rnd; src(&rnd); passgen_env env; passgen_env_init(&env, &rnd); env.depth_limit = depth_limit; if (env_setup) env_setup(&env);
    uint32_t out[CAPMAX]; double ent = -1;
    size_t k = passgen_generate_fill_unicode(&pat, &env, want_entropy ? &ent : NULL, out, CAP);
    PG_ASSERTM(env.depth_limit == depth_limit && env.random == &rnd, "generation changed the environment");
    if (r) { pg_cover("failed"); PG_ASSERTM(k == 0, "failing generation reports output"); }
    else {
      if (routn) pg_cover("generated");
      PG_ASSERTM(k == routn, "number of characters generated");
      PG_ASSERTM(!k || pg_bytes_eq(out, rout, k * 4), "generated text is not the one selected by the random choices");
      if (want_entropy) { pg_cover("entropy"); PG_ASSERTM(ent > rent * 0.999999 && ent < rent * 1.000001, "entropy is not the product of the choices"); }
      // the same random bytes were consumed: the next byte is the next unread one
      uint8_t b; passgen_random_read(&rnd, &b, 1); PG_ASSERTM(b == stream[dpos], "generation consumed other random data than its choices");
    }
    env.random = NULL; passgen_env_free(&env);
  }
  passgen_pattern_free(&pat);
  if (flags & F_MEM) { PG_ASSERTM(pg_heap_live() == 0, "memory leaked"); }
}
// fills holes of a template: \x01 any ASCII character, \x02 digit, \x03 the
// alphabet of the syntax, \x07 a few letters, \x08 groups and alternatives, \x04 hexadecimal digit or brace, \x05 any byte
static char text[1024];
static int alpha(uint8_t c) { return (c == 'a') | (c == 'b') | (c == 'c') | (c == '(') | (c == ')') | (c == '[') | (c == ']') | (c == '{') | (c == '}') | (c == '|') | (c == '?') | (c == '-') | (c == ',') | (c == '\\') | (c == '1') | (c == '2'); }
static void fill_at(char *text, const char *tpl, size_t n) {
  for (size_t i = 0; i < n; i++) {
    uint8_t t = tpl[i]; if (t > 8) { text[i] = t; continue; }
    if (t == 7) { text[i] = "abc}(|\\"[pg_choice(6, "letter")]; continue; } // concrete: names are hashed
    uint8_t c = pg_u8("hole"); pg_assume(c != 0);
    if (t == 1) pg_assume(c < 128); else if (t == 2) pg_assume((c >= '0') & (c <= '9')); else if (t == 3) pg_assume(alpha(c));
    else if (t == 6) pg_assume((c >= '0') & (c <= '3'));
    else if (t == 8) pg_assume((c == '(') | (c == ')') | (c == '|') | (c == 'a') | (c == '?'));
    else if (t == 4) pg_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | (c == 'D') | (c == '{') | (c == '}'));
    else { static const uint8_t lo[] = {1, 0x80, 0x90, 0xA0, 0xC0, 0xC2, 0xE0, 0xE1, 0xED, 0xEE, 0xF0, 0xF1, 0xF4, 0xF5, 0}; size_t k = pg_choice(13, "class"); pg_assume(c >= lo[k]); if (lo[k + 1]) pg_assume(c < lo[k + 1]); }
    text[i] = c;
  }
  text[n] = 0;
}
static void fill(const char *tpl, size_t n) { fill_at(text, tpl, n); }
// every text of n characters of one kind
void h_all(void) {
  size_t n = PG_PARAM(0, 3); int kind = PG_PARAM(1, 1); char tpl[64]; n = PG_PARAM(3, 0) ? n : pg_choice(n, "len"); memset(tpl, kind, n); fill(tpl, n);
  pipeline(text, n, PG_PARAM(2, F_ACCEPT | F_POS | F_GEN));
}
// longer texts with free positions
static const char *const TPL[] = {
  // 0: modifiers bind to the last character, across the literal size
  "abcde\001\001\003\003a", "abcdef\001\003\001\003a", "abcdef\001{\002}\001?\001", "abcdefg\001{2}\001\001\003", "abcdefghijklmn\001{\002,\002}\001",
  // 5: empty groups
  "a()\003\002\003\003", "(\003\003)\003\002}\001", "a(()|())\003\002}b", "({0}\001|\003\003)\003", "(\003|{0})\003\002}\003",
  // 9: weights
  "{\002}\001|{\002}\003|\001", "({\002}a|{\002}{\002}b|c)", "({0}a|{\002}b|{0}c|d)\003", "{\002\002}a|{\002\002}b|c", "a|{\002}b|{\002}c|{\002}",
  // 14: sets
  "[\001-\001\001\001]", "[a\001\001-\001]\001", "[\001\\\001\001\001\001", "[\\\001-\\\001]", "[a-c\003\003\003]", "[ab][cd]\003\002}[ef]?",
  // 20: repetitions
  "a{\002,\002}", "[ab]{\002,\002}?", "(a|b){\002,\002}?\003", "a{\001\003\003\003", "a?{\002}?{1,\002}\003", "(a{\002}|b?){1,2}",
  // 26: escapes
  "\\u{\004\004\004\004\004", "\\u{000\004\004\004\004", "\\u{\0040\004000\004\004", "\\u{\004\004\004}\003", "\\\001\001\\\001", "\\u{\004}{\002}\\u{2\004}\001", "[\\u{\004\004}-\\u{\004\004}]", "\\u{d\004\004\004}", "\\u{1\004ffff}",
  // 33: references
  "\\w{\001\001\001", "\\m{a\001\001b}\003", "\\\001{\001\001}\001",
  // 36: nesting
  "((((\003\003))))\003", "(a(b|c)\003|\003(d)?)\003", "(\003(\003)\003)\003", "((a|b)|(c|d))\003\003}\003",
  // 40: numbers too large
  "a{1844674407370955161\002}\001", "a{1844674407370955\002\002\002\002\002}", "a{1,1844674407370955161\002}", "{922337203685477580\002}|{\002}a", "{922337203685477580\002}|{1}|{\002}\003", "(a|{18446744073709551\002\002\002}b)", "{9223372036854775807}a||\003\002}b", "{184467440737095516\002\002}a|b",
};
#define NTPL (sizeof TPL / sizeof *TPL)
void h_tpl(void) {
  CAP = PG_PARAM(4, 40); depth_limit = PG_PARAM(5, 1024); max_reject = PG_PARAM(6, 0);
  size_t lo = PG_PARAM(0, 0), hi = PG_PARAM(1, NTPL - 1); size_t k = lo + pg_choice(hi - lo, "template"); size_t n = strlen(TPL[k]);
  pg_note_i("template", k); fill(TPL[k], n); pipeline(text, n, PG_PARAM(2, F_ACCEPT | F_POS | F_GEN));
}

// weighted and counted choices for the entropy; \006 is a digit 0..3
static const char *const ETPL[] = {
  "a?[ab]{1,\006}?", "{\006}a|{\006}b|c", "({\006}a|b|(c|d)?){1,\006}", "[a-\003]{\006,3}", "a{\006,\006}?\003", "(a?|b?)?\003", "[abc][de]{2}(x|y|z)?{0,\006}", "\003|\003|[ab]?", "[a-z]{\006}(ab|{\006}cd)?", "[\\u{0}-\\u{ffff}]{9}\003",
  "({\006}[ab]|{\006}[a-c]){1,2}", "((a|b)\003|(c|{2}d)?){2}", "[aab-d]{\006}|{\006}", "()?{0,\006}a?", "([ab]?{\006}){2}", "([ab]{0}|\003{\006}){3}",
};
void h_etpl(void) {
  size_t lo = PG_PARAM(0, 0), hi = PG_PARAM(1, sizeof ETPL / sizeof *ETPL - 1); size_t k = lo + pg_choice(hi - lo, "template"); size_t n = strlen(ETPL[k]);
  pg_note_i("template", k); fill(ETPL[k], n); pipeline(text, n, F_ENT);
}
// numbers of one and two digits
static const char *const NTPL_[] = {"a{\002}", "a{\002,\002}b", "[ab]{\002,\002}c", "(a){1\002,1\002}", "a{\002\002}b", "(ab?){\006,\006}", "a{\006}{\002}b", "a{\002,\002}{\006,\006}", "(){\002,\002}a", "[]{\006}a", "a{0\002,00\002}", "a{,\002}", "a{\002,}", "a{\002\003\002}b", "a{1\002,\006\002}", "a{\002\002,\002\002}"};
void h_numbers(void) {
  CAP = PG_PARAM(4, 110); size_t lo = PG_PARAM(0, 0), hi = PG_PARAM(1, sizeof NTPL_ / sizeof *NTPL_ - 3); size_t k = lo + pg_choice(hi - lo, "template"); size_t n = strlen(NTPL_[k]);
  pg_note_i("template", k); fill(NTPL_[k], n); pipeline(text, n, F_ACCEPT | F_GEN);
}
// ------------------------------------------------------------------ tokens
// the reference reads characters from an array here
static uint32_t chars[16]; static uint8_t widths[16];
static size_t enc(size_t n, uint8_t *d) { size_t k = 0; for (size_t i = 0; i < n; i++) k += ref_enc(d + k, chars[i]); return k; }
static uint32_t any_char(const char *nm) { uint32_t c = pg_u32(nm); pg_assume((c < 0xD800) | ((c > 0xDFFF) & (c < 0x110000))); return c; }
// every sequence of characters; the reference is a table over (state, character)
void h_token(void) {
  size_t n = pg_choice(PG_PARAM(0, 6), "n"); passgen_token_parser p; memset(&p, 0xA5, sizeof p); passgen_token_parser_init(&p); passgen_token t; memset(&t, 0, sizeof t);
  int st = 0; uint32_t v = 0; int digits = 0; size_t off = 0, boff = 0, start = 0, bstart = 0;
  for (size_t i = 0; i < n; i++) {
    uint32_t c = any_char("char"); uint8_t w = 1 + pg_upto(3, "width");
    int r = passgen_token_parse(&p, &t, w, c);
    if (st < 0) { PG_ASSERTM(r == st, "tokenizer continues behind an error"); continue; }
    if (st == 0) { start = off; bstart = boff; }
    uint32_t tokcp = 0; int done = 0, esc = 0;
    if (st == 0) { if (c == '\\') st = 1; else { tokcp = c; done = 1; } }
    else if (st == 1) {
      if (c == 'u') st = 2;
      else { const char *from = "abefnrtv\\", *to = "\a\b\033\f\n\r\t\v\\"; esc = 1; tokcp = c; for (int k = 0; k < 9; k++) if (c == (uint8_t)from[k]) { tokcp = (uint8_t)to[k]; esc = 0; } done = 1; }
    }
    else if (st == 2) { if (c == '{') { st = 3; v = 0; digits = 0; } else st = -1; }
    else { if (c == '}') { if (!digits || v > 0x10FFFF) st = -1; else { tokcp = v; done = 1; } } else if (hexval(c) < 0 || digits == 6) st = -1; else { v = v * 16 + hexval(c); digits++; } }
    if (st == -1) { PG_ASSERTM(r < 0, "malformed escape accepted"); PG_ASSERTM(passgen_token_parse_error_str(r) != NULL, "error without a message"); st = r; pg_cover("error"); continue; }
    PG_ASSERTM(r >= 0, "valid escape refused"); off++; boff += w;
    if (done) {
      st = 0; pg_cover(esc ? "escaped" : "plain"); PG_ASSERTM(r == PASSGEN_TOKEN_INIT, "complete token not reported");
      PG_ASSERTM(t.codepoint == (esc ? tokcp | PASSGEN_TOKEN_ESCAPED_BIT : tokcp), "token has another value than its text");
      PG_ASSERTM(t.offset == start && t.byte_offset == bstart, "token position");
    } else PG_ASSERTM(r > 0, "incomplete token reported as complete");
  }
}
// unicode escapes with any digits, leading zeros included
void h_unicode(void) {
  size_t n = pg_choice(8, "digits"); passgen_token_parser p; passgen_token_parser_init(&p); passgen_token t; memset(&t, 0, sizeof t); uint32_t v = 0; int r = 0, badc = 0;
  passgen_token_parse(&p, &t, 1, '\\'); passgen_token_parse(&p, &t, 1, 'u'); passgen_token_parse(&p, &t, 1, '{');
  for (size_t i = 0; i < n; i++) { uint32_t c; if (PG_PARAM(0, 0)) c = any_char("digit"); else { c = pg_u8("digit"); pg_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'))); } if (PG_PARAM(0, 0) && c == '}') pg_path_end();
    int k = hexval(c); r = passgen_token_parse(&p, &t, 1, c); if (badc) continue; if (k < 0 || i >= 6) { badc = 1; PG_ASSERTM(r < 0, "invalid digit accepted"); } else { v = v * 16 + k; PG_ASSERTM(r > 0, "valid digit refused"); } }
  r = passgen_token_parse(&p, &t, 1, '}');
  if (badc || !n || v > 0x10FFFF) { pg_cover("refused"); PG_ASSERTM(r < 0, "number which is not a character accepted"); }
  else { pg_cover("value"); PG_ASSERTM(r == 0 && t.codepoint == v, "unicode escape has another value than its digits"); }
}
// the same text fed as an array of characters and as UTF-8
void h_feed(void) {
  size_t n = pg_choice(PG_PARAM(0, 4), "n"); for (size_t i = 0; i < n; i++) { if (PG_PARAM(1, 1)) { uint8_t c = pg_u8("char"); pg_assume((c != 0) & (c < 128)); if (PG_PARAM(1, 1) == 2) pg_assume(alpha(c)); chars[i] = c; } else { chars[i] = any_char("char"); pg_assume(chars[i] != 0); } }
  uint8_t buf[80]; size_t k = enc(n, buf); buf[k] = 0; passgen_pattern a, b; passgen_error e; passgen_parser p;
  int r1 = passgen_parse(&a, &e, (char *)buf); if (r1) passgen_error_free(&e);
  passgen_parser_init(&p, &b); int r2 = passgen_parser_unicode(&p, chars, n); if (!r2) r2 = passgen_parse_finish(&p); passgen_parser_free(&p);
  PG_ASSERTM(!r1 == !r2, "the same text is accepted in one form and refused in the other"); if (r1) pg_cover("refused"); else pg_cover("accepted");
  if (!r1 && n <= PG_PARAM(2, 2)) {
    // and mean the same
    pg_sym_raw(stream, STREAM, "stream"); passgen_random r; passgen_env env; uint32_t x[24], y[24];
    passgen_env_init(&env, &r); src(&r); size_t i = passgen_generate_fill_unicode(&a, &env, NULL, x, 24); src(&r); size_t j = passgen_generate_fill_unicode(&b, &env, NULL, y, 24);
    PG_ASSERTM(i == j && (!i || pg_bytes_eq(x, y, i * 4)), "the same text has two meanings"); env.random = NULL; passgen_env_free(&env);
  }
  passgen_pattern_free(&a); passgen_pattern_free(&b);
}
// long texts: every alignment of a construct with the internal chunk size
static const char *const TAIL[] = {"\\u{\004\004}\003", "[\001-\001]\001", "\001{\002,\002}\001", "\\w{\001\001}\001", "(\003|\001)\003\001", "\003\003\003", "\\\001\001\001", "\xc3\xa4\003\xe2\x82\xac\001\001", "\005\005\005"};
void h_chunk(void) {
  size_t k = pg_choice(sizeof TAIL / sizeof *TAIL - 1, "tail"), base = PG_PARAM(0, 246), len = base + pg_choice(PG_PARAM(1, 12), "prefix"); int wide = pg_choice(1, "wide"); size_t p = 0;
  for (size_t i = 0; i < len; i++) { if (wide && i % 2) { text[p++] = 0xC3; text[p++] = 0xA4; } else text[p++] = 'x'; }
  size_t n = strlen(TAIL[k]); fill_at(text + p, TAIL[k], n); pipeline(text, p + n, PG_PARAM(2, F_ACCEPT | F_POS | F_MEM));
}
// the parser is fed only a part, or stops at an error, and is released
void h_partial(void) {
  size_t n = pg_choice(PG_PARAM(0, 4), "n"); passgen_pattern *pat = NULL; passgen_pattern mine; int own = pg_choice(1, "own"); passgen_parser p; passgen_parser_init(&p, own ? &mine : NULL); p.limit = pg_choice(1, "limited") ? 3 : 0;
  passgen_token_parser tp; passgen_token_parser_init(&tp); passgen_token t;
  for (size_t i = 0; i < n; i++) { int r = passgen_token_parse(&tp, &t, 1, any_char("char")); if (r < 0) break; if (r == 0 && passgen_parse_token(&p, &t)) { pg_cover("refused"); break; } PG_ASSERTM(!p.limit || p.state.len <= p.limit, "parser nests deeper than its limit"); }
  if (pg_choice(1, "finish")) passgen_parse_finish(&p);
  pat = passgen_parser_free(&p); PG_ASSERTM(pat != NULL && (!own || pat == &mine), "parser returns the pattern it was given"); passgen_pattern_free(pat); if (!own) free(pat);
  PG_ASSERTM(pg_heap_live() == 0, "memory leaked"); pg_cover("done");
}
// nesting beyond the limit of the parser
void h_deep(void) {
  static char deep[12100]; size_t n = 9990 + pg_choice(20, "depth") * (PG_PARAM(0, 1) ? 100 : 1); memset(deep, '(', n); deep[n] = pg_u8("c"); deep[n + 1] = 0; passgen_pattern p; passgen_error e;
  int r = passgen_parse(&p, &e, deep); PG_ASSERTM(r != 0, "unclosed groups accepted"); passgen_error_free(&e); passgen_pattern_free(&p); PG_ASSERTM(pg_heap_live() == 0, "memory leaked"); pg_cover("done");
}
// ------------------------------------------------------------------ output
// decodes the content of a JSON string (RFC 8259); returns the number of characters or -1
static int unjson(const uint8_t *s, size_t n, uint32_t *out, int max) {
  int k = 0; size_t i = 0;
  while (i < n) {
    uint32_t c; if (k == max) return -1;
    if (s[i] < 0x20 || s[i] == '"') return -1;
    if (s[i] != '\\') { unsigned l = ref_dec(s + i, n - i, &c); if (!l) return -1; i += l; out[k++] = c; continue; }
    if (++i >= n) return -1;
    switch (s[i++]) {
      case '"': c = '"'; break; case '\\': c = '\\'; break; case '/': c = '/'; break; case 'b': c = 8; break; case 'f': c = 12; break; case 'n': c = 10; break; case 'r': c = 13; break; case 't': c = 9; break;
      case 'u': { if (i + 4 > n) return -1; c = 0; for (int j = 0; j < 4; j++) { int h = hexval(s[i + j]); if (h < 0) return -1; c = c * 16 + h; } i += 4;
        if (c >= 0xDC00 && c <= 0xDFFF) return -1;
        if (c >= 0xD800 && c <= 0xDBFF) { if (i + 6 > n || s[i] != '\\' || s[i + 1] != 'u') return -1; uint32_t d = 0; for (int j = 0; j < 4; j++) { int h = hexval(s[i + 2 + j]); if (h < 0) return -1; d = d * 16 + h; } if (d < 0xDC00 || d > 0xDFFF) return -1; c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00); i += 6; }
        break; }
      default: return -1;
    }
    out[k++] = c;
  }
  return k;
}
static const char *const OPAT[] = {"[\\u{0}-\\u{d7ff}\\u{e000}-\\u{10ffff}]", "[\\u{0}-\\u{10ffff}]", "x[\\u{1}-\\u{d7ff}\\u{e000}-\\u{10ffff}]", "[\\u{0}-\\u{d7ff}\\u{e000}-\\u{10ffff}]{2}", "a[\\u{1}-\\u{d7ff}\\u{e000}-\\u{10ffff}]bc", "", "[\\u{8}-#\\\\x]{3}", "\\\\\\b\\t\\n\\f\\r\"/\\u{1f}\\u{7f}", "\\u{d7ff}\\u{e000}\\u{ffff}\\u{10000}\\u{10ffff}"};
void h_output(void) {
  size_t lo = PG_PARAM(0, 0), hi = PG_PARAM(1, sizeof OPAT / sizeof *OPAT - 1); size_t which = lo + pg_choice(hi - lo, "pattern"); passgen_pattern p; passgen_error e; PG_ASSERT(passgen_parse(&p, &e, OPAT[which]) == 0);
  int root = ref_parse((const uint8_t *)OPAT[which], strlen(OPAT[which])); PG_ASSERT(root >= 0);
  pg_sym_raw(stream, 256, "stream"); PG_ASSERT(ref_run(root, 1024, stream, 256, 64) == 0);
  int surrogate = 0; for (size_t i = 0; i < routn; i++) if (rout[i] >= 0xD800 && rout[i] <= 0xDFFF) surrogate = 1;
  passgen_random r; passgen_env env; passgen_env_init(&env, &r); double e0, e1 = -1;
  { static uint32_t big[64]; src(&r); size_t k = passgen_generate_fill_unicode(&p, &env, &e0, big, 64); PG_ASSERTM(k == routn && (!k || pg_bytes_eq(big, rout, 4 * k)), "codepoint output"); }
  int form = pg_choice(2, "form"); size_t k, cap;
  if (form == 0) {
    cap = pg_choice(routn + 1, "cap"); uint32_t *o = malloc(4 * cap + 4); memset(o, 0xA5, 4 * cap + 4); src(&r); k = passgen_generate_fill_unicode(&p, &env, &e1, o, cap);
    PG_ASSERTM(k == (cap >= routn ? routn : 0), "number of characters reported"); PG_ASSERTM(!k || pg_bytes_eq(o, rout, 4 * k), "codepoint output depends on the buffer"); PG_ASSERTM(o[cap] == 0xA5A5A5A5, "output buffer overrun"); free(o);
    if (cap < routn) pg_cover("full"); else PG_ASSERTM(e1 == e0, "entropy depends on the output");
  } else if (form == 1) {
    uint8_t want[256]; size_t wn = 0; if (!surrogate) for (size_t i = 0; i < routn; i++) wn += ref_enc(want + wn, rout[i]);
    cap = pg_choice(surrogate ? 16 : wn + 5, "cap"); uint8_t *o = malloc(cap + 8); memset(o, 0xA5, cap + 8); src(&r); k = passgen_generate_fill_utf8(&p, &env, &e1, o, cap);
    if (surrogate) { PG_ASSERTM(k == 0, "surrogate written as UTF-8"); pg_cover("surrogate"); } else { PG_ASSERTM(k == (cap >= wn ? wn : 0), "number of bytes reported"); PG_ASSERTM(!k || pg_bytes_eq(o, want, k), "UTF-8 output differs from the codepoint output"); if (cap >= wn) { pg_cover("utf8"); PG_ASSERTM(e1 == e0, "entropy depends on the output"); } else pg_cover("full"); }
    for (int i = 0; i < 8; i++) PG_ASSERTM(o[cap + i] == 0xA5, "output buffer overrun"); free(o);
  } else {
    static uint8_t full[512]; src(&r); double e2; size_t fn = passgen_generate_fill_json_utf8(&p, &env, &e2, full, sizeof full);
    if (surrogate) PG_ASSERTM(fn == 0, "surrogate written as UTF-8");
    else {
      uint32_t back[64]; int bn = unjson(full, fn, back, 64); PG_ASSERTM(bn >= 0, "JSON output is not the content of a JSON string"); PG_ASSERTM((size_t)bn == routn && (!bn || pg_bytes_eq(back, rout, 4 * bn)), "JSON output denotes another text"); PG_ASSERTM(e2 == e0, "entropy depends on the output"); pg_cover("json");
      cap = pg_choice(fn + 1, "cap"); uint8_t *o = malloc(cap + 8); memset(o, 0xA5, cap + 8); src(&r); k = passgen_generate_fill_json_utf8(&p, &env, &e1, o, cap);
      PG_ASSERTM(k == (cap >= fn ? fn : 0), "number of bytes reported"); PG_ASSERTM(!k || pg_bytes_eq(o, full, k), "JSON output depends on the buffer"); for (int i = 0; i < 8; i++) PG_ASSERTM(o[cap + i] == 0xA5, "output buffer overrun"); free(o);
    }
  }
  env.random = NULL; passgen_env_free(&env); passgen_pattern_free(&p);
}
// the callback stops the generation at any point; its result is handed on
static size_t cb_calls, cb_stop; static int cb_ret; static uint32_t cb_out[64]; static int token_;
static int cb(void *d, uint32_t c) { PG_ASSERTM(d == &token_, "callback data"); PG_ASSERTM(cb_calls <= cb_stop, "callback called again after it reported failure"); cb_out[cb_calls] = c; if (cb_calls++ == cb_stop) return cb_ret; return 0; }
static const char *const CPAT[] = {"abc", "(a|bc)[d-f]{1,2}g?", "[a-z]{4}", "(a(b(c)?)?){2}"};
void h_callback(void) {
  size_t which = pg_choice(3, "pattern"); passgen_pattern p; passgen_error e; PG_ASSERT(passgen_parse(&p, &e, CPAT[which]) == 0); int root = ref_parse((const uint8_t *)CPAT[which], strlen(CPAT[which]));
  pg_sym_raw(stream, 256, "stream"); PG_ASSERT(ref_run(root, 1024, stream, 256, 64) == 0); passgen_random r; src(&r); passgen_env env; passgen_env_init(&env, &r);
  cb_stop = pg_choice(5, "stop"); cb_ret = pg_choice(1, "negative") ? -1 : 7; cb_calls = 0; int ret = passgen_generate(&p, &env, NULL, &token_, cb);
  if (cb_stop < routn) { PG_ASSERTM(ret != 0, "failing callback ignored"); PG_ASSERTM(cb_calls == cb_stop + 1, "generation continued after the callback failed"); pg_cover("stopped"); }
  else { PG_ASSERTM(ret == 0, "generation fails"); PG_ASSERTM(cb_calls == routn, "number of characters"); pg_cover("complete"); }
  for (size_t i = 0; i < cb_calls; i++) PG_ASSERTM(cb_out[i] == rout[i], "characters handed to the callback");
  // a failure affects nothing else
  src(&r); uint32_t o[64]; size_t k = passgen_generate_fill_unicode(&p, &env, NULL, o, 64); PG_ASSERTM(k == routn && (!k || pg_bytes_eq(o, rout, 4 * k)), "generation after a failure differs"); env.random = NULL; passgen_env_free(&env); passgen_pattern_free(&p);
}
// ---------------------------------------------------------- large numbers
// repetitions up to 2^64 - 1; the callback stops the generation
static const char *const LPAT[] = {"[ab]{1,4294967297}", "a{0,4294967296}b", "a{\002,429496729\002}b", "a{1\002,18446744073709551615}b", "(a|b){4294967296,4294967298}", "a{18446744073709551615}", "a{4294967296}", "a{1,4294967296}b{0,8589934592}c", "(a?b){0,6442450944}c", "a{1,9223372036854775809}b", "x?{2147483647,2147483649}", "a{4294967295,4294967297}", "a{0,18446744073709551615}b"};
void h_large(void) {
  size_t k = pg_choice(sizeof LPAT / sizeof *LPAT - 1, "pattern"), n = strlen(LPAT[k]); fill(LPAT[k], n); passgen_pattern p; passgen_error e; int root = ref_parse((const uint8_t *)text, n); int ret = passgen_parse(&p, &e, text);
  PG_ASSERTM((root >= 0) == (ret == 0), "accepted exactly if it is valid"); if (ret) { passgen_error_free(&e); passgen_pattern_free(&p); pg_cover("refused"); return; }
  pg_sym_raw(stream, 64, "stream"); max_reject = 1; cb_stop = PG_PARAM(0, 3); int full = ref_run(root, 1024, stream, 64, cb_stop + 1); passgen_random r; src(&r); passgen_env env; passgen_env_init(&env, &r);
  cb_ret = 7; cb_calls = 0; passgen_generate(&p, &env, NULL, &token_, cb);
  if (full || routn == cb_stop + 1) pg_cover("stopped"); else pg_cover("complete");
  PG_ASSERTM(cb_calls == routn, "number of characters generated"); for (size_t i = 0; i < cb_calls; i++) PG_ASSERTM(cb_out[i] == rout[i], "generated text is not the one selected by the random choices");
  env.random = NULL; passgen_env_free(&env); passgen_pattern_free(&p);
}
// ------------------------------------------------------------------- depth
// every text of groups, alternatives and optional items
void h_depth_any(void) {
  size_t n = PG_PARAM(0, 7); n = pg_choice(n, "length"); char tpl[64]; size_t k = 0; if (PG_PARAM(1, 0)) { tpl[k++] = '('; } memset(tpl + k, 8, n); k += n; if (PG_PARAM(1, 0)) { memcpy(tpl + k, "){3}(b)", 7); k += 7; } fill(tpl, k);
  depth_limit = pg_choice(PG_PARAM(3, 4), "limit"); pipeline(text, k, F_GEN);
}
static const char *const DPAT[] = {"\003(\003(\003(\003)\003)\003)", "(((\003)\003(\003))\003)", "(a)(b(c))(\003){2}(d)\003", "((a)?|b)(c|((d)))", "((((((a))))))", "(a(b(c{2}){2}){2}){2}",
  "(\010\010\010){\006}\003", "((\010\010\010)\010){3}", "((|\003){\006}(\003|)?){2}(a)", "(\010(\010\010)\010){2}(a)", "(|a){9}(b)", "((a?|b?)(|c){2}){3}(((d)))", "(()(a?){3}|({0}a|){2}){3}(b)"};
void h_depth(void) {
  size_t lo = PG_PARAM(0, 0), hi = PG_PARAM(1, sizeof DPAT / sizeof *DPAT - 1); size_t k = lo + pg_choice(hi - lo, "pattern"); depth_limit = pg_choice(PG_PARAM(3, 8), "limit"); size_t n = strlen(DPAT[k]); fill(DPAT[k], n); pipeline(text, n, F_GEN);
}
