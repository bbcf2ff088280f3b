// Independent reference for the pattern language: a recursive descent parser
// over the documented grammar and an interpreter which consumes random draws.
// Written from docs/syntax.md and the headers, not from the parser.
#pragma once
#include "pg.h"
#include <string.h>
// ---------------------------------------------------------------- UTF-8
// length of the well-formed sequence at s, 0 if there is none
static unsigned ref_dec(const uint8_t *s, size_t n, uint32_t *cp) {
  uint8_t a = s[0];
  if (a < 0x80) { *cp = a; return 1; }
  if (a < 0xC2) return 0;
  if (a < 0xE0) { if (n < 2 || (s[1] & 0xC0) != 0x80) return 0; *cp = (a & 31u) << 6 | (s[1] & 63u); return 2; }
  if (a < 0xF0) {
    if (n < 3 || (s[1] & 0xC0) != 0x80 || (s[2] & 0xC0) != 0x80) return 0;
    uint32_t c = (a & 15u) << 12 | (s[1] & 63u) << 6 | (s[2] & 63u);
    if (c < 0x800 || (c >= 0xD800 && c <= 0xDFFF)) return 0; *cp = c; return 3;
  }
  if (a < 0xF5) {
    if (n < 4 || (s[1] & 0xC0) != 0x80 || (s[2] & 0xC0) != 0x80 || (s[3] & 0xC0) != 0x80) return 0;
    uint32_t c = (a & 7u) << 18 | (s[1] & 63u) << 12 | (s[2] & 63u) << 6 | (s[3] & 63u);
    if (c < 0x10000 || c > 0x10FFFF) return 0; *cp = c; return 4;
  }
  return 0;
}
static unsigned ref_enc(uint8_t *d, uint32_t c) {
  if (c < 0x80) { d[0] = c; return 1; }
  if (c < 0x800) { d[0] = 0xC0 | c >> 6; d[1] = 0x80 | (c & 63); return 2; }
  if (c < 0x10000) { d[0] = 0xE0 | c >> 12; d[1] = 0x80 | (c >> 6 & 63); d[2] = 0x80 | (c & 63); return 3; }
  d[0] = 0xF0 | c >> 18; d[1] = 0x80 | (c >> 12 & 63); d[2] = 0x80 | (c >> 6 & 63); d[3] = 0x80 | (c & 63); return 4;
}
// ---------------------------------------------------------------- tokens
struct tk { uint32_t cp; int esc; size_t off, boff; };
static const uint8_t *rs; static size_t rn, rpos, rcp;      // text, bytes, position in bytes and characters
static size_t err_off, err_boff; static int err_set;
static void ref_err(size_t off, size_t boff) { if (!err_set) { err_set = 1; err_off = off; err_boff = boff; } }
// next character: 1, 0 at the end, -1 if the text is not UTF-8 here
static int ref_char(uint32_t *c) {
  if (rpos == rn) return 0;
  unsigned l = ref_dec(rs + rpos, rn - rpos, c); if (!l) { ref_err(rcp, rpos); return -1; }
  rpos += l; rcp++; return 1;
}
static int hexval(uint32_t c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
// next token: 1, 0 at the end, -1 error
static int ref_next(struct tk *t) {
  t->off = rcp; t->boff = rpos; t->esc = 0; uint32_t c; int r = ref_char(&c); if (r <= 0) return r;
  if (c != '\\') { t->cp = c; return 1; }
  r = ref_char(&c); if (r < 0) return r; if (!r) { ref_err(rcp, rpos); return -1; }
  switch (c) {
    case 'a': t->cp = 7; return 1; case 'b': t->cp = 8; return 1; case 'e': t->cp = 27; return 1; case 'f': t->cp = 12; return 1;
    case 'n': t->cp = 10; return 1; case 'r': t->cp = 13; return 1; case 't': t->cp = 9; return 1; case 'v': t->cp = 11; return 1; case '\\': t->cp = '\\'; return 1;
    case 'u': break;
    default: t->cp = c; t->esc = 1; return 1;
  }
  r = ref_char(&c); if (r < 0) return r; if (!r) { ref_err(rcp, rpos); return -1; }
  if (c != '{') { ref_err(t->off, t->boff); return -1; }
  uint32_t v = 0; int digits = 0;
  for (;;) {
    r = ref_char(&c); if (r < 0) return r; if (!r) { ref_err(rcp, rpos); return -1; }
    if (c == '}') { if (!digits || v > 0x10FFFF) { ref_err(t->off, t->boff); return -1; } t->cp = v; return 1; }
    int h = hexval(c); if (h < 0 || digits == 6) { ref_err(t->off, t->boff); return -1; }
    v = v * 16 + h; digits++;
  }
}
// ---------------------------------------------------------------- grammar
enum { LIT, SET, GRP, SPEC };
struct ritem { int kind; uint32_t cp; int grp, r0, rn; int maybe; uint64_t min, max; int empty; char special; int n0, nlen; };
struct rseg { uint64_t mult; int i0, in; };
struct rgrp { uint64_t sum; int s0, sn; int empty; };
#define RMAX 640
static struct ritem ri[RMAX]; static int rin; static struct rseg rsg[RMAX]; static int rsn; static struct rgrp rg[RMAX]; static int rgn;
static uint32_t rr[RMAX][2]; static int rrn; static uint32_t rnames[RMAX]; static int rnn;
static int bad(struct tk *t) { ref_err(t->off, t->boff); return -1; }
static int tok(struct tk *t) { int r = ref_next(t); if (r == 1 && t->cp >= 0xD800 && t->cp <= 0xDFFF) return bad(t); return r; }
// a decimal number up to 2^64-2; *t is the first token behind it
static int ref_number(uint64_t *v, struct tk *t) {
  *v = 0;
  for (;;) {
    int r = tok(t); if (r < 0) return r; if (!r) { ref_err(rcp, rpos); return -1; }
    if (t->esc || t->cp < '0' || t->cp > '9') return 0;
    uint64_t d = t->cp - '0'; if (*v > (UINT64_MAX - 1 - d) / 10) return bad(t); *v = *v * 10 + d;
  }
}
static int set_char(struct tk *t) { if (t->esc && t->cp != '-' && t->cp != '[' && t->cp != ']') return bad(t); return 0; }
static int ref_set(struct ritem *it) {
  struct tk t; it->kind = SET; it->r0 = rrn; it->rn = 0; 
  for (;;) {
    int r = tok(&t); if (r < 0) return r; if (!r) { ref_err(rcp, rpos); return -1; }
    if (!t.esc && t.cp == ']') return 0;
    if (it->rn && !t.esc && t.cp == '-') {
      r = tok(&t); if (r < 0) return r; if (!r) { ref_err(rcp, rpos); return -1; }
      if (!t.esc && t.cp == ']') return bad(&t);
      if (set_char(&t)) return -1;
      if (t.cp < rr[rrn - 1][0]) return bad(&t);
      rr[rrn - 1][1] = t.cp; continue;
    }
    if (set_char(&t)) return -1;
    rr[rrn][0] = rr[rrn][1] = t.cp; rrn++; it->rn++;
  }
}
static int ref_special(struct ritem *it, char kind) {
  struct tk t; it->kind = SPEC; it->special = kind; it->n0 = rnn; it->nlen = 0;
  int r = tok(&t); if (r < 0) return r; if (!r) { ref_err(rcp, rpos); return -1; }
  if (t.esc || t.cp != '{') return bad(&t);
  for (;;) {
    r = tok(&t); if (r < 0) return r; if (!r) { ref_err(rcp, rpos); return -1; }
    if (!t.esc && t.cp == '}') { if (!it->nlen) return bad(&t); return 0; }
    if (t.cp == 0) return bad(&t);
    rnames[rnn++] = t.cp; it->nlen++;
  }
}
// items of nested groups must not interleave with those of the outer group:
// each group collects its own and appends them when it is complete
static int ref_group(int top) {
  struct ritem nested[24]; static struct ritem outer[RMAX]; struct ritem *items = top ? outer : nested; int n = 0, seg_first = 0; struct rseg segs[16]; int sn = 0; uint64_t mult = 1, others = 0; struct tk t;
  for (;;) {
    int r = tok(&t); if (r < 0) return r;
    int close = !r || (!t.esc && t.cp == ')'), bar = r && !t.esc && t.cp == '|';
    if (close || bar) {
      if (!r && !top) { ref_err(rcp, rpos); return -1; }
      if (r && close && top) return bad(&t);
      int k = seg_first; for (int i = seg_first; i < n; i++) if (!items[i].empty) items[k++] = items[i]; n = k;
      if (mult || (top && close)) { segs[sn].mult = mult; segs[sn].i0 = seg_first; segs[sn].in = n - seg_first; sn++; others += mult; } else n = seg_first;
      if (close) break;
      seg_first = n; mult = 1; continue;
    }
    struct ritem *it = &items[n]; memset(it, 0, sizeof *it); it->min = it->max = 1; it->kind = LIT; it->cp = t.cp;
    if (t.esc) {
      switch (t.cp) {
        case '|': case '?': case '(': case ')': case '{': case '}': case '[': case ']': n++; continue;
        case 'm': case 'p': case 'w': if (ref_special(it, (char)t.cp)) return -1; n++; continue;
        default: return bad(&t);
      }
    }
    switch (t.cp) {
      case '(': it->kind = GRP; it->grp = ref_group(0); if (it->grp < 0) return -1; it->empty = rg[it->grp].empty; n++; continue;
      case '[': if (ref_set(it)) return -1; n++; continue;
      case '?': if (n == seg_first) return bad(&t); items[n - 1].maybe = 1; continue;
      case '{': {
        uint64_t a, b; struct tk u; if (ref_number(&a, &u)) return -1;
        if (n == seg_first) { // weight of the segment
          if (u.esc || u.cp != '}') return bad(&u);
          if (others > INT64_MAX || a > INT64_MAX - others) return bad(&u); mult = a; continue;
        }
        b = a;
        if (!u.esc && u.cp == ',') { if (ref_number(&b, &u)) return -1; if (!u.esc && u.cp == '}' && b < a) return bad(&u); }
        if (u.esc || u.cp != '}') return bad(&u);
        items[n - 1].min = a; items[n - 1].max = b; continue;
      }
      default: n++; continue;
    }
  }
  int g = rgn++, empty = 1; rg[g].s0 = rsn; rg[g].sn = sn; rg[g].sum = others; int base = rin;
  for (int i = 0; i < sn; i++) { rsg[rsn] = segs[i]; rsg[rsn].i0 += base; if (segs[i].in) empty = 0; rsn++; }
  for (int i = 0; i < n; i++) ri[rin++] = items[i];
  rg[g].empty = empty; return g;
}
// the root group, or -1 with the position of the error
static int ref_parse(const uint8_t *s, size_t n) { rs = s; rn = n; rpos = rcp = 0; err_set = 0; rin = rsn = rgn = rrn = rnn = 0; return ref_group(1); }
// ---------------------------------------------------------------- meaning
#define OUTMAX 512
static const uint8_t *dstream; static size_t dpos, dmax; static int ndraws;
static uint32_t rout[OUTMAX]; static size_t routn, routcap; static double rent; static int rfail; static int want_entropy;
// a bounded draw: the next 8 bytes, masked, rejected if not below the bound
static int max_reject;
static uint64_t ref_draw(uint64_t max) {
  uint64_t mask = max; for (int s = 1; s < 64; s *= 2) mask |= mask >> s; int rej = 0;
  for (;;) {
    if (dpos + 8 > dmax) pg_path_end();
    uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)dstream[dpos + i] << (8 * i); dpos += 8; v &= mask; ndraws++;
    if (rej >= max_reject) { pg_assume(v < max); return v; }
    if (v < max) return v; rej++;
  }
}
static int (*ref_special_gen)(const struct ritem *it, uint64_t depth);
static int remit(uint32_t c) { if (routn == routcap) return -1; rout[routn++] = c; return 0; }
static int ref_gen(int g, uint64_t depth);
static int ref_item(const struct ritem *it, uint64_t depth) {
  if (it->maybe) {
    if (dpos + 1 > dmax) pg_path_end();
    uint8_t b = dstream[dpos++]; ndraws++; if (want_entropy) rent *= 2; if (b & 128) return 0;
  }
  uint64_t reps = it->min, diff = it->max - it->min; if (diff) { reps += ref_draw(diff + 1); if (want_entropy) rent *= (double)(diff + 1); }
  for (uint64_t i = 0; i < reps; i++) {
    if (it->kind == LIT) { if (remit(it->cp)) return -1; }
    else if (it->kind == GRP) { if (ref_gen(it->grp, depth)) return -1; }
    else if (it->kind == SPEC) { if (!ref_special_gen) pg_path_end(); if (ref_special_gen(it, depth)) return -1; }
    else {
      uint64_t total = 0; for (int k = 0; k < it->rn; k++) total += (uint64_t)rr[it->r0 + k][1] - rr[it->r0 + k][0] + 1;
      if (!total) { if (reps > 64) pg_path_end(); continue; }
      uint64_t c = ref_draw(total); if (want_entropy) rent *= (double)total;
      int k = 0; for (;; k++) { uint64_t w = (uint64_t)rr[it->r0 + k][1] - rr[it->r0 + k][0] + 1; if (c < w) break; c -= w; }
      if (remit((uint32_t)(rr[it->r0 + k][0] + c))) return -1;
    }
  }
  return 0;
}
static int ref_gen(int g, uint64_t depth) {
  if (!depth) return -1; if (!rg[g].sum) return -1;
  uint64_t c = ref_draw(rg[g].sum); int s = rg[g].s0; while (c >= rsg[s].mult) { c -= rsg[s].mult; s++; }
  if (want_entropy) { rent *= (double)rg[g].sum; rent /= (double)rsg[s].mult; }
  for (int i = 0; i < rsg[s].in; i++) if (ref_item(&ri[rsg[s].i0 + i], depth - 1)) return -1;
  return 0;
}
static int ref_run(int g, uint64_t depth, const uint8_t *stream, size_t len, size_t cap) { dstream = stream; dpos = 0; dmax = len; routn = 0; routcap = cap; rent = 1; ndraws = 0; return ref_gen(g, depth); }
