// Wordlists and Markov models: P19, P20.
#include "pattern.c"
#include "io.h"
#include <passgen/wordlist.h>
#include <passgen/markov.h>
#include <stdio.h>
static char *dup_(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
// the non-empty lines of a text
static uint8_t content[16384]; static size_t clen; static struct { size_t at, len; } line[2200]; static size_t lines;
static void split(void) { lines = 0; size_t s = 0; for (size_t i = 0; i <= clen; i++) if (i == clen || content[i] == '\n') { if (i > s) { line[lines].at = s; line[lines].len = i - s; lines++; } s = i + 1; } }
static void check_words(passgen_wordlist *w) {
  PG_ASSERTM(w->count == lines && passgen_wordlist_count(w) == lines, "number of words differs from the number of non-empty lines");
  for (size_t i = 0; i < lines; i++) { const char *p = w->words[i]; PG_ASSERTM(strlen(p) == line[i].len, "length of a word"); PG_ASSERTM(pg_bytes_eq(p, content + line[i].at, line[i].len), "word differs from its line"); }
}
// every content of n bytes: the lines, and each picked by exactly its draw
void h_load(void) {
  clen = pg_choice(PG_PARAM(0, 5), "len"); if (clen) pg_sym_raw(content, clen, "content"); for (size_t i = 0; i < clen; i++) pg_assume(content[i] != 0); split();
  struct pg_file *f = pg_file_add("/w", content, clen); FILE *fp = fopen("/w", "r"); passgen_wordlist w; memset(&w, 0xA5, sizeof w); passgen_wordlist_init(&w, fp, 1 + pg_choice(2, "level"));
  passgen_random r; memset(&r, 0, sizeof r); src(&r);
  PG_ASSERTM(passgen_wordlist_random(&w, &r) == NULL, "a word is picked from a list which was not loaded");
  PG_ASSERTM(passgen_wordlist_parse(&w) == 0, "loading fails"); PG_ASSERTM(f->closes == 1, "file is not closed once it is loaded"); check_words(&w);
  pg_sym_raw(stream, 16, "stream"); src(&r);
  if (!lines) { pg_cover("empty"); PG_ASSERTM(passgen_wordlist_random(&w, &r) == NULL, "a word is picked from an empty list"); }
  else { dstream = stream; dpos = 0; dmax = 16; uint64_t d = ref_draw(lines); const char *p = passgen_wordlist_random(&w, &r); PG_ASSERTM(p == w.words[d], "picked word is not the one drawn"); pg_cover("picked"); }
  passgen_wordlist_free(&w); PG_ASSERTM(f->closes == 1 && f->opens == 1, "file closed more than once"); PG_ASSERTM(pg_heap_live() == 0, "memory leaked");
}
// released without being loaded, or before
void h_unloaded(void) {
  clen = 4; memcpy(content, "a\nb\n", 4); struct pg_file *f = pg_file_add("/w", content, clen); FILE *fp = fopen("/w", "r"); passgen_wordlist w; memset(&w, 0xA5, sizeof w);
  int how = pg_choice(2, "how"); if (how == 2) passgen_wordlist_load(&w, fp, 2); else passgen_wordlist_init(&w, fp, 2); if (how == 1) w.should_close_file = false; if (how == 2) { split(); check_words(&w); }
  passgen_wordlist_free(&w); PG_ASSERTM(f->closes == (how != 1), "file closed exactly if the list owns it"); PG_ASSERTM(pg_heap_live() == 0, "memory leaked"); pg_cover("done");
}
// many words: across the growth steps of the list
void h_load_many(void) {
  static const size_t near[] = {0, 254, 509, 1021, 2045}; size_t n = near[pg_choice(PG_PARAM(0, 2), "near")] + 1 + pg_choice(5, "extra"); clen = 0; int trail = pg_choice(2, "end");
  for (size_t i = 0; i < n; i++) { content[clen++] = 'a' + i % 26; if (i % 3 == 0) content[clen++] = 'A' + i / 26 % 26; if (i + 3 >= n || i == 255 || i == 256) { pg_sym_raw(content + clen, 1, "byte"); pg_assume(content[clen] != 0); clen++; } if (i + 1 < n || trail) content[clen++] = '\n'; if (trail == 2 && i % 100 == 7) content[clen++] = '\n'; }
  split(); struct pg_file *f = pg_file_add("/w", content, clen); FILE *fp = fopen("/w", "r"); passgen_wordlist w; passgen_wordlist_init(&w, fp, 1); PG_ASSERTM(passgen_wordlist_parse(&w) == 0, "loading fails"); check_words(&w);
  passgen_random r; pg_sym_raw(stream, 8, "stream"); src(&r); size_t d = pg_choice(4, "pick"); d = d == 0 ? 0 : d == 1 ? lines - 1 : d == 2 ? lines / 2 : d == 3 ? (lines > 256 ? 256 : 0) : (lines > 255 ? 255 : 0); stream[0] = d; stream[1] = d >> 8; memset(stream + 2, 0, 6);
  src(&r); PG_ASSERTM(passgen_wordlist_random(&w, &r) == w.words[d], "picked word is not the one drawn"); passgen_wordlist_free(&w); PG_ASSERTM(f->closes == 1, "file closed once"); PG_ASSERTM(pg_heap_live() == 0, "memory leaked"); pg_cover("done");
}
// files which cannot be read
static size_t shortread; static size_t short_hook(struct pg_file *p, void *b, size_t n) { size_t a = p->len - p->pos; if (a > shortread) a = shortread; if (a > n) a = n; memcpy(b, p->data + p->pos, a); return a; }
void h_load_fail(void) {
  clen = 6; memcpy(content, "ab\ncd\n", 6); struct pg_file *f = pg_file_add("/w", content, clen); int how = pg_choice(3, "how");
  if (how == 0) f->noseek = 1; else if (how == 1) f->notell = 1; else if (how == 2) f->notell = 2; else { shortread = pg_choice(5, "short"); pg_read_hook = short_hook; }
  FILE *fp = fopen("/w", "r"); passgen_random r; src(&r); int api = pg_choice(3, "api"); passgen_error e; passgen_pattern pat; uint32_t out[16];
  if (api == 0) { passgen_wordlist w; memset(&w, 0xA5, sizeof w); passgen_wordlist_init(&w, fp, 2); PG_ASSERTM(passgen_wordlist_parse(&w) != 0, "unreadable list is not reported"); PG_ASSERTM(passgen_wordlist_random(&w, &r) == NULL, "a word is picked from a list which was not loaded"); passgen_wordlist_free(&w); }
  else if (api == 3) { passgen_wordlist w; memset(&w, 0xA5, sizeof w); passgen_wordlist_load(&w, fp, 2); PG_ASSERTM(passgen_wordlist_random(&w, &r) == NULL, "a word is picked from a list which was not loaded"); passgen_wordlist_free(&w); }
  else {
    passgen_env env; passgen_env_init(&env, &r); PG_ASSERTM(passgen_env_wordlist_add(&env, dup_("x"), fp, 2) == 0, "adding a list"); PG_ASSERT(passgen_parse(&pat, &e, api == 1 ? "a\\w{x}" : "a\\m{x}") == 0);
    for (int i = 0; i < 2; i++) PG_ASSERTM(passgen_generate_fill_unicode(&pat, &env, NULL, out, 16) == 0, "generated from a list which cannot be read");
    env.random = NULL; passgen_env_free(&env); passgen_pattern_free(&pat);
  }
  PG_ASSERTM(f->closes == 1, "file closed once"); PG_ASSERTM(pg_heap_live() == 0, "memory leaked"); pg_cover("failed");
}
// ------------------------------------------------- words chosen by patterns
// lists a (words of any valid UTF-8) and b; the reference picks by one draw
static uint8_t la[1400], lb[64]; static size_t lan, lbn; static struct { const uint8_t *p; size_t n; } words[2][8]; static size_t wn[2];
static void add_word(int l, const uint8_t *p, size_t n) { words[l][wn[l]].p = p; words[l][wn[l]++].n = n; }
static void mk_lists(int kind) {
  lan = lbn = 0; wn[0] = wn[1] = 0;
  size_t n = 1 + pg_choice(kind ? 1 : 2, "words");
  for (size_t i = 0; i < n; i++) {
    size_t at = lan, l = 1 + pg_choice(PG_PARAM(5, 1), "length");
    for (size_t k = 0; k < l; k++) {
      if (kind == 0) { la[lan] = pg_u8("letter"); pg_assume((la[lan] != 0) & (la[lan] != '\n') & (la[lan] < 128)); lan++; }
      else { static const uint32_t lo[] = {1, 0x80, 0x800, 0x10000, 0x110000}; size_t c = pg_choice(3, "class"); uint32_t v = pg_u32("char"); pg_assume((v >= lo[c]) & (v < lo[c + 1]) & (v != '\n') & ((v < 0xD800) | (v > 0xDFFF))); lan += ref_enc(la + lan, v); }
    }
    add_word(0, la + at, lan - at); la[lan++] = '\n';
  }
  memcpy(lb, "xyz\n\xc3\xa4\n", 7); lbn = 7; add_word(1, lb, 3); add_word(1, lb + 4, 2);
}
static int name_is(const struct ritem *it, const char *s) { size_t n = strlen(s); if ((size_t)it->nlen != n) return 0; for (size_t i = 0; i < n; i++) if (rnames[it->n0 + i] != (uint8_t)s[i]) return 0; return 1; }
static int gen_word(const struct ritem *it, uint64_t depth) {
  (void)depth; if (it->special == 'p') pg_path_end(); // presets in patterns are not implemented
  int l = name_is(it, "a") ? 0 : name_is(it, "bb") ? 1 : -1; if (l < 0) return -1; if (it->special != 'w') pg_path_end();
  uint64_t d = ref_draw(wn[l]); if (want_entropy) rent *= (double)wn[l];
  const uint8_t *p = words[l][d].p; size_t n = words[l][d].n; while (n) { uint32_t c; unsigned k = ref_dec(p, n, &c); if (!k) return -1; if (remit(c)) return -1; p += k; n -= k; }
  return 0;
}
static void with_lists(passgen_env *env) {
  pg_file_add("/a", la, lan); pg_file_add("/b", lb, lbn);
  PG_ASSERT(passgen_env_wordlist_add(env, dup_("a"), fopen("/a", "r"), 2) == 0); PG_ASSERT(passgen_env_wordlist_add(env, dup_("bb"), fopen("/b", "r"), 3) == 0);
}
static const char *const WPAT[] = {"\\w{a}", "\\w{a}{2}x", "(\\w{a}|\\w{bb}?){1,2}", "\\w{bb}\\w{a}\\w{bb}", "\\w{\007}", "\\w{b\007}", "\\w{\007\007\007", "\\w{c}|a", "[ab]\\w{a}?{0,1}"};
void h_words(void) {
  size_t lo = PG_PARAM(0, 0), hi = PG_PARAM(1, sizeof WPAT / sizeof *WPAT - 1); size_t k = lo + pg_choice(hi - lo, "pattern"); mk_lists(PG_PARAM(3, 0)); ref_special_gen = gen_word; env_setup = with_lists;
  size_t n = strlen(WPAT[k]); fill(WPAT[k], n); pipeline(text, n, F_ENT | F_MEM); for (int i = 0; i < 16; i++) if (pg_files[i].used) PG_ASSERTM(pg_files[i].opens == pg_files[i].closes, "file left open");
}
// words of 120 to 140 characters of any width
void h_words_long(void) {
  size_t n = 120 + pg_choice(20, "length"); int wide = pg_choice(1, "wide"); lan = lbn = 0; wn[0] = wn[1] = 0; CAP = 200;
  for (size_t i = 0; i < n; i++) { if (wide && (i % 3)) { la[lan++] = 0xE2; la[lan++] = 0x82; la[lan++] = 0xAC; } else la[lan++] = 'a' + i % 26; } pg_sym_raw(la, 1, "first"); pg_assume(la[0] > ' ' && la[0] < 127); uint8_t c = pg_u8("last"); pg_assume(c > ' ' && c < 127); la[lan++] = c; add_word(0, la, lan); la[lan++] = '\n'; la[lan++] = 'q'; add_word(0, la + lan - 1, 1); lb[0] = 'z'; lbn = 1; add_word(1, lb, 1);
  ref_special_gen = gen_word; env_setup = with_lists; pipeline("\\w{a}b", 6, F_ENT | F_MEM); pg_cover("done");
}
// a list which is not UTF-8 makes generation fail instead of producing something else
void h_words_invalid(void) {
  lan = 0; wn[0] = wn[1] = 0; lbn = 1; lb[0] = 'z'; size_t n = 1 + pg_choice(PG_PARAM(0, 2), "n"); pg_sym_raw(la, n, "bytes"); int bad = 0; for (size_t i = 0; i < n; i++) pg_assume((la[i] != 0) & (la[i] != '\n')); lan = n; add_word(0, la, n); add_word(1, lb, 1);
  for (size_t i = 0; i < n;) { uint32_t c; unsigned l = ref_dec(la + i, n - i, &c); if (!l) { bad = 1; break; } i += l; }
  passgen_random r; src(&r); passgen_env env; passgen_env_init(&env, &r); with_lists(&env); passgen_pattern pat; passgen_error e; int m = pg_choice(1, "markov"); PG_ASSERT(passgen_parse(&pat, &e, m ? "\\m{a}" : "\\w{a}") == 0); uint32_t out[16];
  if (m && !bad) pg_path_end(); size_t k = passgen_generate_fill_unicode(&pat, &env, NULL, out, 8);
  if (bad) { pg_cover("invalid"); PG_ASSERTM(k == 0, "text generated from a word which is not UTF-8"); } else if (!m) { pg_cover("valid"); PG_ASSERTM(k > 0, "valid word not generated"); }
  env.random = NULL; passgen_env_free(&env); passgen_pattern_free(&pat); PG_ASSERTM(pg_heap_live() == 0, "memory leaked");
}
// names of lists: added twice, looked up by any name
void h_names(void) {
  static uint8_t c[3]; for (int i = 0; i < 3; i++) { c[i] = 'a' + pg_choice(2, "name"); }
  passgen_random r; src(&r); passgen_env env; passgen_env_init(&env, &r); static char path[3][4]; static uint8_t w[3] = "xyz"; int early = pg_choice(1, "generate between");
  passgen_pattern pat; passgen_error e; char p[8]; uint32_t out[8]; char q = 'a' + pg_choice(3, "asked"); memcpy(p, "\\w{?}", 6); p[3] = q; PG_ASSERT(passgen_parse(&pat, &e, p) == 0);
  for (int i = 0; i < 3; i++) { path[i][0] = '/'; path[i][1] = '0' + i; path[i][2] = 0; pg_file_add(path[i], w + i, 1); char *nm = malloc(2); nm[0] = c[i]; nm[1] = 0; PG_ASSERT(passgen_env_wordlist_add(&env, nm, fopen(path[i], "r"), 2) == 0); if (early) { src(&r); passgen_generate_fill_unicode(&pat, &env, NULL, out, 8); } }
  src(&r); size_t k = passgen_generate_fill_unicode(&pat, &env, NULL, out, 8); int want = -1; for (int i = 0; i < 3; i++) if (c[i] == (uint8_t)q) want = i;
  if (want < 0) { pg_cover("unknown"); PG_ASSERTM(k == 0, "unknown wordlist does not fail"); } else { pg_cover("known"); PG_ASSERTM(k == 1 && out[0] == w[want], "name refers to another list than the one last given that name"); }
  env.random = NULL; passgen_env_free(&env); passgen_pattern_free(&pat); for (int i = 0; i < 3; i++) PG_ASSERTM(pg_files[i].opens == pg_files[i].closes, "file left open or closed twice"); PG_ASSERTM(pg_heap_live() == 0, "memory leaked");
}
// ----------------------------------------------------------------- Markov
#define MW 4
static uint32_t mw[MW][8]; static size_t ml[MW], mwt[MW]; static size_t mn, lvl;
static uint32_t at(size_t w, long i) { return i < 0 || (size_t)i >= ml[w] ? 0 : mw[w][i]; }
// how often the model contains the transition from ctx to c
static uint64_t expected(const uint32_t *ctx, uint32_t c) {
  uint64_t s = 0;
  for (size_t w = 0; w < mn; w++) for (size_t i = 0; i <= ml[w]; i++) { int m = at(w, i) == c; for (size_t k = 0; k < lvl; k++) m &= at(w, (long)i - (long)lvl + (long)k) == ctx[k]; s += m ? mwt[w] : 0; }
  return s;
}
static void mk_words(passgen_markov *m, size_t nw, size_t maxlen, int kind) {
  mn = nw;
  for (size_t w = 0; w < nw; w++) {
    ml[w] = 1 + pg_choice(maxlen - 1, "length"); mwt[w] = 1 + pg_choice(kind == 2 ? 0 : 1, "weight");
    uint32_t *exact = malloc(4 * ml[w]); // exactly as long as the word
    for (size_t i = 0; i < ml[w]; i++) { static const uint32_t far[] = {'a', 'a' + 3, 'a' + 21, 'a' + 357, 'a' + 13209, 'a' + 1043511}; if (kind == 1) mw[w][i] = 'a' + pg_choice(2, "letter") * 7; else if (kind == 3) mw[w][i] = far[pg_choice(5, "letter")]; else { mw[w][i] = pg_u8("char"); pg_assume((mw[w][i] != 0) & (mw[w][i] <= PG_PARAM(4, 255))); } exact[i] = mw[w][i]; }
    passgen_markov_add(m, exact, ml[w], mwt[w]); free(exact);
  }
}
// every context of the model: exactly the trained transitions, each selected by exactly as many draws as its weight
void h_markov(void) {
  lvl = PG_PARAM(2, 0) ? PG_PARAM(2, 0) : 1 + pg_choice(2, "level"); passgen_markov m; memset(&m, 0xA5, sizeof m); pg_fork_addresses(1); passgen_markov_init(&m, lvl); mk_words(&m, PG_PARAM(0, 2), PG_PARAM(1, 2), PG_PARAM(3, 0));
  passgen_random r; size_t w = pg_choice(mn - 1, "context word");
  size_t all = 0; for (size_t i = 0; i < mn; i++) all += mwt[i] * (ml[i] + 1); PG_ASSERTM(m.count == all, "number of transitions");
  for (size_t i = 0; i <= ml[w]; i++) {
    uint32_t ctx[8]; for (size_t k = 0; k < lvl; k++) ctx[k] = at(w, (long)i - (long)lvl + (long)k);
    // the number of draws: all occurrences of the context
    uint64_t total = 0; for (size_t v = 0; v < mn; v++) for (size_t j = 0; j <= ml[v]; j++) { int e = 1; for (size_t k = 0; k < lvl; k++) e &= at(v, (long)j - (long)lvl + (long)k) == ctx[k]; total += e ? mwt[v] : 0; }
    total = pg_conc(total); uint32_t got[40]; PG_ASSERT(total > 0 && total < 40);
    for (uint64_t d = 0; d < total; d++) { memset(stream, 0, 16); stream[0] = d; memset(stream + 8, 0xff, 8); src(&r); double ent = 1; got[d] = passgen_markov_generate(&m, ctx, &r, &ent);
      uint64_t e = expected(ctx, got[d]); PG_ASSERTM(e > 0, "a transition which was not trained"); e = pg_conc(e); PG_ASSERTM(ent * (double)e > (double)total * 0.9999 && ent * (double)e < (double)total * 1.0001, "entropy of a transition"); }
    for (uint64_t d = 0; d < total; d++) { uint64_t same = 0; for (uint64_t e = 0; e < total; e++) same += got[e] == got[d]; PG_ASSERTM(same == expected(ctx, got[d]), "a transition is not selected in proportion to its weight"); }
  }
  passgen_markov_free(&m); PG_ASSERTM(pg_heap_live() == 0, "memory leaked"); pg_cover("done");
}
// large weights: every draw, and collisions which make the tables grow
void h_markov_weights(void) {
  static const size_t W[] = {1, 70000, 65535, 65536, 255, 256, 16777216, 1000000000}; static const uint32_t L[] = {'a', 'a' + 3, 'a' + 21, 'b'};
  lvl = 1 + pg_choice(1, "level"); passgen_markov m; memset(&m, 0xA5, sizeof m); passgen_markov_init(&m, lvl); mn = 3; size_t all = 0, nw = PG_PARAM(0, 4);
  for (size_t w = 0; w < mn; w++) { size_t wt = pg_choice(w == 2 ? 1 : nw - 1, "weight"); mwt[w] = W[wt]; ml[w] = 1; mw[w][0] = L[pg_choice(3, "letter")]; passgen_markov_add(&m, mw[w], 1, mwt[w]); all += 2 * mwt[w]; }
  PG_ASSERTM(m.count == all, "number of transitions"); uint32_t ctx[2] = {0, 0}; all /= 2; // all words begin in the same context
  memset(stream, 0, 16); memset(stream + 8, 0xff, 8); uint64_t d = pg_u64("draw"); pg_assume(d < all); memcpy(stream, &d, 8); passgen_random r; src(&r); double ent = 1; uint32_t c = passgen_markov_generate(&m, ctx, &r, &ent);
  c = (uint32_t)pg_conc(c); uint64_t e = expected(ctx, c); PG_ASSERTM(e > 0, "a transition which was not trained"); PG_ASSERTM(ent * (double)e > (double)all * 0.9999 && ent * (double)e < (double)all * 1.0001, "entropy of a transition");
  passgen_markov_free(&m); pg_cover("done");
}
// words generated through a pattern consist of trained windows only
static size_t put_word(uint8_t *d, size_t w) { size_t k = 0; for (size_t i = 0; i < ml[w]; i++) k += ref_enc(d + k, mw[w][i]); d[k++] = '\n'; return k; }
void h_markov_words(void) {
  lvl = 1 + pg_choice(PG_PARAM(1, 2), "level"); mn = PG_PARAM(0, 2); lan = 0; for (size_t w = 0; w < mn; w++) { ml[w] = 1 + pg_choice(PG_PARAM(2, 2), "length"); mwt[w] = 1; for (size_t i = 0; i < ml[w]; i++) mw[w][i] = 'a' + pg_choice(1, "letter") * (i == 1 ? 3 : 7); lan += put_word(la + lan, w); }
  pg_file_add("/a", la, lan); passgen_random r; memset(stream, 0, sizeof stream); for (int i = 0; i < (int)PG_PARAM(4, 6); i++) { stream[8 * i] = pg_u8("draw"); pg_assume(stream[8 * i] <= 3); } src(&r); passgen_env env; passgen_env_init(&env, &r); PG_ASSERT(passgen_env_wordlist_add(&env, dup_("a"), fopen("/a", "r"), lvl) == 0);
  passgen_pattern pat; passgen_error e; PG_ASSERT(passgen_parse(&pat, &e, "\\m{a}") == 0); uint32_t out[16]; double ent = -1; size_t cap = PG_PARAM(3, 5); size_t k = passgen_generate_fill_unicode(&pat, &env, &ent, out, cap);
  if (k) { // (an output which does not fit is a failure)
    uint32_t ctx[8] = {0}; double want = 1;
    for (size_t i = 0; i <= k; i++) { uint32_t c = i < k ? out[i] : 0; uint64_t n = expected(ctx, c), t = 0; PG_ASSERTM(n > 0, "the word contains a window which is not in the list"); for (size_t v = 0; v < mn; v++) for (size_t j = 0; j <= ml[v]; j++) { int q = 1; for (size_t z = 0; z < lvl; z++) q &= at(v, (long)j - (long)lvl + (long)z) == ctx[z]; t += q; } want = want * (double)t / (double)n; for (size_t z = 0; z + 1 < lvl; z++) ctx[z] = ctx[z + 1]; ctx[lvl - 1] = c; }
    PG_ASSERTM(ent > want * 0.999999 && ent < want * 1.000001, "entropy of a word"); pg_cover("word");
  } else pg_cover("too long");
  env.random = NULL; passgen_env_free(&env); passgen_pattern_free(&pat); PG_ASSERTM(pg_heap_live() == 0, "memory leaked");
}
// one long word (longer than any internal buffer), levels up to the largest
void h_markov_long(void) {
  static const size_t lv[] = {1, 3, 100, 127, 128, 129, 254, 255}; lvl = lv[pg_choice(7, "level")]; size_t n = 100 + pg_choice(3, "length") * 80; lan = 0; for (size_t i = 0; i < n; i++) { uint32_t c = 0x100 + i; lan += ref_enc(la + lan, c); }
  pg_file_add("/a", la, lan); passgen_random r; memset(stream, 0, sizeof stream); src(&r); passgen_env env; passgen_env_init(&env, &r); PG_ASSERT(passgen_env_wordlist_add(&env, dup_("a"), fopen("/a", "r"), lvl) == 0);
  passgen_pattern pat; passgen_error e; PG_ASSERT(passgen_parse(&pat, &e, "\\m{a}") == 0); static uint32_t out[400]; double ent = -1; passgen_random z; passgen_random_zero_open(&z); env.random = &z;
  size_t k = passgen_generate_fill_unicode(&pat, &env, &ent, out, 400); PG_ASSERTM(k == n, "the only word of the list is generated completely"); for (size_t i = 0; i < n; i++) PG_ASSERTM(out[i] == 0x100 + i, "the only word of the list is generated"); PG_ASSERTM(ent > 0.999 && ent < 1.001, "entropy without a choice");
  env.random = NULL; passgen_env_free(&env); passgen_random_close(&z); passgen_pattern_free(&pat); PG_ASSERTM(pg_heap_live() == 0, "memory leaked"); pg_cover("done");
}
