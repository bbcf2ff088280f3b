// The whole program: P22, P23, P24, P30.  main() is executed with modelled
// files, streams, environment and system randomness; a reference interpreter
// of the command line and of configuration files says what has to happen.
#include "words.c"
#include <passgen/config.h>
#include <seccomp.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <math.h>
int passgen_main(int argc, char **argv);
// ------------------------------------------------------------- seccomp stub
struct rule { uint32_t action; int nr; unsigned n; struct scmp_arg_cmp c[6]; };
static struct rule rules[256]; static int nrules; static uint32_t sc_default; static int sc_init, sc_loaded, sc_released, sc_fail, sc_late; static int sc_token;
scmp_filter_ctx seccomp_init(uint32_t def) { sc_default = def; if (sc_fail == 1) return NULL; sc_init++; return &sc_token; }
static int add_rule(scmp_filter_ctx x, uint32_t a, int nr, unsigned n, const struct scmp_arg_cmp *c) { PG_ASSERTM(x == (void *)&sc_token && sc_init && !sc_released, "filter rule added to a released filter"); if (sc_loaded) sc_late = 1; PG_ASSERTM(nrules < 256 && n <= 6, "model: number of rules"); rules[nrules].action = a; rules[nrules].nr = nr; rules[nrules].n = n; for (unsigned i = 0; i < n; i++) rules[nrules].c[i] = c[i]; nrules++; return 0; }
int seccomp_rule_add_array(scmp_filter_ctx x, uint32_t a, int nr, unsigned n, const struct scmp_arg_cmp *c) { return add_rule(x, a, nr, n, c); }
int seccomp_rule_add_exact_array(scmp_filter_ctx x, uint32_t a, int nr, unsigned n, const struct scmp_arg_cmp *c) { return add_rule(x, a, nr, n, c); }
int seccomp_rule_add(scmp_filter_ctx x, uint32_t a, int nr, unsigned n, ...) { struct scmp_arg_cmp c[6]; va_list ap; va_start(ap, n); for (unsigned i = 0; i < n && i < 6; i++) c[i] = va_arg(ap, struct scmp_arg_cmp); va_end(ap); return add_rule(x, a, nr, n, c); }
int seccomp_rule_add_exact(scmp_filter_ctx x, uint32_t a, int nr, unsigned n, ...) { struct scmp_arg_cmp c[6]; va_list ap; va_start(ap, n); for (unsigned i = 0; i < n && i < 6; i++) c[i] = va_arg(ap, struct scmp_arg_cmp); va_end(ap); return add_rule(x, a, nr, n, c); }
int seccomp_load(scmp_filter_ctx x) { PG_ASSERTM(x == (void *)&sc_token && !sc_released, "released filter loaded"); if (sc_fail == 2) return -1; if (sc_fail == 3) return -22; sc_loaded++; return 0; }
void seccomp_release(scmp_filter_ctx x) { PG_ASSERTM(x == (void *)&sc_token && !sc_released, "filter released twice"); sc_released++; }
int seccomp_attr_set(scmp_filter_ctx x, enum scmp_filter_attr a, uint32_t v) { (void)x; (void)a; (void)v; return 0; }
// -------------------------------------------------------------- environment
static const char *home = "/h", *xdg; static uint8_t sysbytes[STREAM]; static int sysopens, sys_ends;
static int eq(const char *a, const char *b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
static const char *env_hook(const char *n) { if (eq(n, "HOME")) return home; if (eq(n, "XDG_CONFIG_PATH")) return xdg; return NULL; }
static long sys_hook(void *b, size_t n, unsigned fl) { (void)fl; if (sys_ends) { pg_cover("valid"); pg_path_end(); } sysopens++; if (n > STREAM) pg_path_end(); memcpy(b, sysbytes, n); return n; }
static void (*finish)(int code); static int finished;
void pg_exit_handler(int code) { if (finished) return; finished = 1; finish(code); }
#define ARGS 10
static char argbuf[ARGS][40]; static char *argv_[ARGS + 1]; static int argc_;
static void arg(const char *s) { argv_[argc_] = (char *)s; argc_++; argv_[argc_] = NULL; }
static void begin(void) { argc_ = 0; arg("passgen"); pg_getenv_hook = env_hook; pg_getrandom_hook = sys_hook; pg_allow_exit(1); for (int i = 0; i < STREAM; i++) sysbytes[i] = (i % 16) == 8; }
static void go(void) { pg_getopt_reset(); int r = passgen_main(argc_, argv_); if (!finished) { finished = 1; finish(r & 255); } }
static int contains(const uint8_t *s, size_t n, const char *w) { size_t l = strlen(w); for (size_t i = 0; i + l <= n; i++) { size_t k = 0; while (k < l && s[i + k] == (uint8_t)w[k]) k++; if (k == l) return 1; } return 0; }
// (messages of getopt are not modelled: it prints them unless opterr is 0)
extern int opterr; static int by_getopt;
#define SAID() PG_ASSERTM(pg_errlen + pg_outlen > 0 || (by_getopt && opterr), "failure without a message")
// ---------------------------------------------- reference of the command line
struct def { const char *name, *value; };
static struct { int code, help, list, listed; uint64_t amount, depth, markov; int ent, null, json, rnd, opened; const char *preset, *pattern, *m, *d, *t; struct def defs[24]; int ndefs; struct { const char *name, *path; size_t n; uint64_t level; } lists[8]; int nlists; int stop; } M;
static const char *const SHORT = "a:p:P:d:w:r:m:D:M:t:ezhvjl";
static const struct { const char *n; char c; int arg; } LONG[] = {{"amount", 'a', 1}, {"help", 'h', 0}, {"preset", 'p', 1}, {"depth", 'D', 1}, {"version", 'v', 0}, {"null", 'z', 0}, {"entropy", 'e', 0}, {"wordlist", 'w', 1}, {"random", 'r', 1}, {"list", 'l', 0}, {"define-preset", 'P', 1}, {"json", 'j', 0}, {"markov-length", 'M', 1}, {"master", 'm', 1}, {"domain", 'd', 1}, {"token", 't', 1}};
// a number in decimal digits, at most max; -1 if it is not one
static int refnum(const char *s, uint64_t max, uint64_t *v) {
  uint64_t x = 0, y; if (!*s) return -1; for (; *s; s++) { if (*s < '0' || *s > '9') return -1; if (x > UINT64_MAX / 10) return -1; x *= 10; y = x + (unsigned)(*s - '0'); if (y < x || y > max) return -1; x = y; } *v = x; return 0;
}
static void define(const char *name, const char *value) { for (int i = 0; i < M.ndefs; i++) if (eq(M.defs[i].name, name)) { M.defs[i].value = value; return; } M.defs[M.ndefs].name = name; M.defs[M.ndefs++].value = value; }
static char split_[32][48]; static int nsplit;
static char *part(const char *s, size_t n) { if (n > 47 || nsplit == 32) pg_path_end(); memcpy(split_[nsplit], s, n); split_[nsplit][n] = 0; return split_[nsplit++]; }
static int colon(const char *s) { for (int i = 0; s[i]; i++) if (s[i] == ':') return i; return -1; }
static int file_exists(const char *p) { for (int i = 0; i < 16; i++) if (pg_files[i].used && eq(pg_files[i].path, p)) return 1; return 0; }
// 0 continue, 1 stop
static int apply(char o, const char *a) {
  int k; uint64_t v;
  switch (o) {
    case 'h': case 'v': M.help = 1; return 1;
    case 'l': M.list = 1; return 1;
    case 'a': if (refnum(a, UINT64_MAX, &v) || !v) { M.code = 5; return 1; } M.amount = v; return 0;
    case 'D': if (refnum(a, UINT64_MAX, &v)) { M.code = 9; return 1; } M.depth = v; return 0;
    case 'M': if (refnum(a, 255, &v) || !v) { M.code = 6; return 1; } M.markov = v; return 0;
    case 'm': M.m = a; return 0; case 'd': M.d = a; return 0; case 't': M.t = a; return 0;
    case 'p': M.preset = a; return 0; case 'z': M.null = 1; return 0; case 'e': M.ent = 1; return 0; case 'j': M.json = 1; return 0;
    case 'P': k = colon(a); if (k < 0) { M.code = 1; return 1; } define(part(a, k), a + k + 1); return 0;
    case 'w': k = colon(a); if (k < 0 || !file_exists(a + k + 1)) { M.code = 1; return 1; } M.lists[M.nlists].name = a; M.lists[M.nlists].n = k; M.lists[M.nlists].path = a + k + 1; M.lists[M.nlists++].level = M.markov; return 0;
    case 'r': if (eq(a, "zero")) M.rnd = 1; else if (eq(a, "system") || eq(a, "sys")) M.rnd = 2; else { M.code = 2; return 1; } return 0;
  }
  M.code = 7; return 1;
}
static const char *ops[ARGS]; static int nops;
static void ref_defaults(void) { memset(&M, 0, sizeof M); M.amount = 1; M.depth = 1024; M.markov = 3; nops = 0; }
static void ref_cli(void) {
  for (int i = 1; i < argc_; i++) {
    const char *s = argv_[i];
    if (s[0] != '-' || !s[1]) { ops[nops++] = s; continue; }
    if (s[1] == '-' && !s[2]) { for (i++; i < argc_; i++) ops[nops++] = argv_[i]; break; }
    if (s[1] == '-') {
      const char *n = s + 2; size_t l = 0; while (n[l] && n[l] != '=') l++; int hit = -1, many = 0;
      for (int k = 0; k < 16; k++) { const char *c = LONG[k].n; size_t q = 0; while (q < l && c[q] && c[q] == n[q]) q++; if (q < l) continue; if (!c[l]) { hit = k; many = 0; break; } if (hit >= 0) many = 1; hit = k; }
      if (hit < 0 || many) { M.code = 7; return; }
      const char *a = n[l] ? n + l + 1 : NULL; if (LONG[hit].arg) { if (!a) { if (i + 1 >= argc_) { M.code = 7; return; } a = argv_[++i]; } } else if (a) { M.code = 7; return; }
      if (apply(LONG[hit].c, a)) return; continue;
    }
    for (const char *c = s + 1; *c; c++) {
      int k = -1; for (int q = 0; SHORT[q]; q++) if (SHORT[q] != ':' && SHORT[q] == *c) k = q;
      if (k < 0) { M.code = 7; return; }
      if (SHORT[k + 1] == ':') { const char *a = c + 1; if (!*a) { if (i + 1 >= argc_) { M.code = 7; return; } a = argv_[++i]; } if (apply(SHORT[k], a)) return; break; }
      if (apply(SHORT[k], NULL)) return;
    }
  }
  if (M.preset) { const char *v = NULL; for (int i = 0; i < M.ndefs; i++) if (eq(M.defs[i].name, M.preset)) v = M.defs[i].value; if (!v) { M.code = 8; return; } M.pattern = v; }
  if (nops) { if (M.pattern || nops > 1) { M.code = 1; return; } M.pattern = ops[0]; }
  if (!M.pattern) M.help = 1;
}
// ------------------------------------------------------- reference of output
static uint8_t want[4096]; static size_t wlen; static char wanterr[8192]; static size_t welen; static double ents[200]; static uint64_t am_max = 12;
static int toolong; static uint32_t items_[200][300]; static size_t itemn[200];
static void put_s(const char *s) { while (*s) want[wlen++] = *s++; }
// what is generated; the result is the exit code
static int ref_output(void) {
  int root = ref_parse((const uint8_t *)M.pattern, strlen(M.pattern)); if (root < 0) return 3;
  static uint8_t zeros[STREAM]; const uint8_t *s = M.rnd == 1 ? zeros : sysbytes; size_t at = 0; want_entropy = 1; wlen = welen = 0;
  if (M.amount > am_max) pg_path_end();
  for (uint64_t i = 0; i < M.amount; i++) {
    if (ref_run(root, M.depth, s + at, 1024 - at, 256)) return 10;
    at += dpos; ents[i] = rent; itemn[i] = routn; memcpy(items_[i], rout, routn * 4);
    size_t start = wlen, n = 0, esc = 0; uint8_t tmp[1400], one[8]; for (size_t k = 0; k < routn; k++) { esc += rout[k] < 32 || rout[k] == 127 ? 6 : rout[k] == '"' || rout[k] == '\\' ? 2 : ref_enc(one, rout[k]); if (rout[k] >= 0xD800 && rout[k] <= 0xDFFF) return 10; n += ref_enc(tmp + n, rout[k]); }
    if (n > 256) return 10; if (M.json && esc > 256) toolong = 1;
    if (i) want[wlen++] = M.null ? 0 : '\n'; memcpy(want + wlen, tmp, n); wlen += n; (void)start;
    if (M.ent && !M.json) { char b[64]; welen += snprintf(wanterr + welen, sizeof wanterr - welen, "entropy: %.2lf bits\n", log(rent) / log(2)); (void)b; }
  }
  want[wlen++] = '\n'; return 0;
}
// a JSON array of objects with exactly these members
static void check_json(void) {
  size_t p = 0, n = pg_outlen; const uint8_t *s = pg_out; static uint32_t back[300];
#define EXPECT(c) do { PG_ASSERTM(p < n && s[p] == (c), "JSON output is not well-formed"); p++; } while (0)
#define LITERAL(w) do { for (const char *q_ = w; *q_; q_++) EXPECT((uint8_t)*q_); } while (0)
  EXPECT('[');
  for (uint64_t i = 0; i < M.amount; i++) {
    if (i) EXPECT(','); LITERAL("{\"output\":\""); size_t e = p; while (e < n && s[e] != '"') e += s[e] == '\\' ? 2 : 1; PG_ASSERTM(e < n, "JSON output is not well-formed");
    int k = unjson(s + p, e - p, back, 300); PG_ASSERTM(k >= 0, "JSON output is not well-formed"); PG_ASSERTM((size_t)k == itemn[i] && (!k || pg_bytes_eq(back, items_[i], 4 * k)), "JSON output denotes another passphrase"); p = e + 1;
    if (M.ent) { LITERAL(",\"entropy\":"); char b[64]; double bits = log(ents[i]) / log(2); if (bits - bits == 0) snprintf(b, sizeof b, "%lf", bits); else snprintf(b, sizeof b, "null"); LITERAL(b); }
    EXPECT('}');
  }
  EXPECT(']'); if (p < n && s[p] == '\n') p++; PG_ASSERTM(p == n, "trailing JSON output");
}
static int pre_done, pre;
static void check_run(int code) {
  by_getopt = M.code == 7; if (M.code) { PG_ASSERTM(code != 0, "error reported as success"); SAID(); PG_ASSERTM(sysopens <= 1 + (M.rnd == 2), "error generates"); pg_cover("error"); return; }
  if (M.help) { PG_ASSERTM(code == 0, "usage or version is a failure"); SAID(); PG_ASSERTM(!contains(pg_out, pg_outlen, "error"), "usage reports an error"); pg_cover("help"); return; }
  if (M.list) { PG_ASSERTM(code == 0, "listing fails"); for (int i = 0; i < M.ndefs; i++) { static char l[128]; size_t k = 0; const char *q = "preset "; while (*q) l[k++] = *q++; q = M.defs[i].name; while (*q) l[k++] = *q++; l[k++] = ' '; q = M.defs[i].value; while (*q) l[k++] = *q++; l[k++] = '\n'; l[k] = 0; PG_ASSERTM(contains(pg_out, pg_outlen, l), "preset missing in the list"); } size_t nl = 0; for (size_t i = 0; i < pg_outlen; i++) nl += pg_out[i] == '\n'; PG_ASSERTM(nl == 13 + (size_t)M.ndefs, "number of presets in the list"); pg_cover("list"); return; }
  int c = pre_done ? pre : ref_output();
  if (c == 10) { PG_ASSERTM(code != 0, "failing generation reported as success"); PG_ASSERTM(pg_errlen > 0, "failure without a message"); pg_cover("failed"); return; }
  if (c == 3) { PG_ASSERTM(code != 0, "refused pattern reported as success"); SAID(); pg_cover("refused"); return; }
  if (toolong && code != 0) { PG_ASSERTM(pg_errlen > 0, "failure without a message"); return; } // (the limit applies to the escaped text)
  PG_ASSERTM(code == 0, "command line refused"); pg_cover("generated");
  if (M.json) { check_json(); PG_ASSERTM(pg_errlen == 0, "unexpected message"); return; }
  PG_ASSERTM(pg_outlen == wlen && pg_bytes_eq(pg_out, want, wlen), "printed output"); PG_ASSERTM(pg_errlen == welen && (!welen || pg_bytes_eq(pg_err, wanterr, welen)), "reported entropy");
}
static void decide(void) { ref_cli(); finish = check_run; go(); }
// --------------------------------------------------------------------- P22
static const char *const TOK[] = {
  "-a2", "-a", "2", "--amount=3", "--amo", "-z", "-e", "-j", "-ez", "-D0", "-D", "1", "--depth=2", "-p", "x", "-Px:a[ab]b", "-P", "y:(c)", "-px", "--preset=y", "--pre=y", "-pq",
  "-rzero", "--random", "zero", "-rbad", "-M0", "-M", "256", "-M255", "[ab]c", "((d))", "-h", "-v", "--", "-l", "", "-", "-wn:/none", "-wn:/wl", "-wn", "-P:", "--a", "--null=1", "--json", "-a01", "--help", "--version", "--de", "--ent", "-mX", "-P", "-je2", "-Px:z",
};
#define NTOK (sizeof TOK / sizeof *TOK)
void h_menu(void) {
  begin(); ref_defaults(); size_t n = PG_PARAM(0, 2); pg_file_add("/wl", "w\n", 2);
  for (size_t i = 0; i < n; i++) { size_t k = pg_choice(NTOK, "token"); if (k == NTOK) break; arg(TOK[k]); }
  if (pg_choice(1, "operand")) arg("[ab](c)");
  ref_cli(); if (M.m && !M.code && !M.help && !M.list) pg_path_end(); // (the derivation is decided by P28)
  finish = check_run; go();
}
// options of any characters (names which are hashed or open files are in the menu)
static int tame(const char *s, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == 'p' || s[i] == 'P' || s[i] == 'w' || s[i] == 'r' || s[i] == 'm') return 0; return 1; }
void h_opts(void) {
  begin(); ref_defaults(); size_t n = 1 + pg_choice(PG_PARAM(0, 3) - 1, "n"), m = pg_choice(PG_PARAM(1, 2), "m"); int dash = pg_choice(2, "dash"), second = pg_choice(1, "second"); size_t p = 0; if (!dash && n > 1) pg_path_end();
  for (int i = 0; i < dash; i++) argbuf[0][p++] = '-'; for (size_t i = 0; i < n; i++) { argbuf[0][p] = pg_u8("c"); pg_assume(argbuf[0][p] > 0); if (!dash) pg_assume(argbuf[0][p] != '\\'); p++; } arg(argbuf[0]);
  if (second) { for (size_t i = 0; i < m; i++) { argbuf[1][i] = pg_u8("d"); pg_assume(argbuf[1][i] > 0); pg_assume(argbuf[1][i] != '\\'); } arg(argbuf[1]); }
  for (int k = 1; k < argc_; k++) if (!tame(argv_[k], strlen(argv_[k]))) pg_path_end();
  if (pg_choice(1, "operand")) arg("[ab](c)");
  ref_cli(); if (M.amount > 3) pg_path_end(); if (M.m && !M.code && !M.help && !M.list) pg_path_end(); finish = check_run; go();
}
// long options of any name
void h_long(void) {
  begin(); ref_defaults(); static const char *const N[] = {"amount", "depth", "null", "entropy", "markov-length", "json", "version", "domain", "token"}; size_t k = pg_choice(8, "name"), l = strlen(N[k]), cut = pg_choice(l, "length"), p = 2; argbuf[0][0] = argbuf[0][1] = '-';
  for (size_t i = 0; i < cut; i++) argbuf[0][p++] = N[k][i]; size_t x = pg_choice(2, "extra"); for (size_t i = 0; i < x; i++) { uint8_t c = pg_u8("c"); pg_assume(c > 0); argbuf[0][p++] = c; } arg(argbuf[0]);
  if (pg_choice(1, "value")) arg("2"); arg("[ab](c)"); ref_cli(); if (M.amount > 3 || (M.m && !M.code && !M.help && !M.list)) pg_path_end(); finish = check_run; go();
}
// numbers: accepted exactly if they are decimal numbers in range
static void num_end(int code) { PG_ASSERTM(M.code != 0, "valid number refused or no passphrase generated"); PG_ASSERTM(code != 0, "invalid number accepted"); SAID(); PG_ASSERTM(sysopens == 0, "passphrases are generated in spite of an invalid number"); pg_cover("invalid"); }
static const char *const NUM[] = {"\001\001\001", "1844674407370955161\001", "184467440737095516\002\002", "1844674407370955162\002", "18446744073709551615\002", "99999999999999999999999999999\002", "25\002", "00000000000000000000000\001", "\002\002\002\002", "\001\001", "\001", ""};
void h_numbers_cli(void) {
  begin(); ref_defaults(); int o = pg_choice(2, "option"), form = pg_choice(2, "form"); size_t k = pg_choice(sizeof NUM / sizeof *NUM - 1, "number"), n = strlen(NUM[k]); char *b = argbuf[0]; size_t p = 0; const char *pre = form == 0 ? "" : form == 1 ? (o == 0 ? "--amount=" : o == 1 ? "--depth=" : "--markov-length=") : (o == 0 ? "-a" : o == 1 ? "-D" : "-M");
  while (*pre) b[p++] = *pre++; if (form == 2 && !n) pg_path_end(); size_t at = p; for (size_t i = 0; i < n; i++) { uint8_t t = NUM[k][i]; if (t > 2) b[p++] = t; else { uint8_t c = pg_u8("c"); pg_assume(c != 0); if (t == 2) pg_assume((c >= '0') & (c <= '9')); b[p++] = c; } } b[p] = 0;
  if (form == 0) arg(o == 0 ? "-a" : o == 1 ? "-D" : "-M"); arg(b); arg("x"); uint64_t v; int bad = refnum(b + at, o == 2 ? 255 : UINT64_MAX, &v) || (o != 1 && v == 0); M.code = bad; sys_ends = !bad; finish = num_end; go();
}
// the number of passphrases and the depth limit
void h_amount(void) {
  begin(); ref_defaults(); int o = pg_choice(1, "option"); char *b = argbuf[0]; size_t n = 1 + pg_choice(1, "digits"); b[0] = '-'; b[1] = o ? 'D' : 'a'; for (size_t i = 0; i < n; i++) { b[2 + i] = pg_u8("d"); pg_assume((b[2 + i] >= '0') & (b[2 + i] <= '9')); if (!o && i + 1 < n) pg_assume(b[2 + i] <= '1'); } arg(b);
  static const char *const P[] = {"a", "[ab](b)", "((c)(((d))))", "(((((((((e)))))))))"}; arg(P[pg_choice(3, "pattern")]); decide();
}
// the Markov length applies to the wordlists which follow
static int mk_level; static void mk_end(int code) {
  PG_ASSERTM(code == 0, "generation fails"); size_t n = 0; uint32_t o[32]; while (n < pg_outlen && pg_out[n] != '\n') { o[n] = pg_out[n]; n++; } lvl = mk_level; uint32_t ctx[300] = {0}; double w = 1;
  for (size_t i = 0; i <= n; i++) { uint32_t c = i < n ? o[i] : 0; uint64_t e = expected(ctx, c), t = 0; PG_ASSERTM(e > 0, "the word contains a window which is not in the list"); for (size_t v = 0; v < mn; v++) for (size_t j = 0; j <= ml[v]; j++) { int q = 1; for (size_t z = 0; z < lvl; z++) q &= at(v, (long)j - (long)lvl + (long)z) == ctx[z]; t += q; } w = w * (double)t / (double)e; for (size_t z = 0; z + 1 < lvl; z++) ctx[z] = ctx[z + 1]; ctx[lvl - 1] = c; }
  char b[64]; size_t k = snprintf(b, sizeof b, "entropy: %.2lf bits\n", log(w) / log(2)); PG_ASSERTM(pg_errlen == k && pg_bytes_eq(pg_err, b, k), "the Markov length is not the one given before the wordlist"); pg_cover("done");
}
void h_markov_cli(void) {
  begin(); static const char *const W[] = {"xabc", "yabd", "zb"}; static uint8_t wl[16]; size_t p = 0; mn = 3; for (int i = 0; i < 3; i++) { ml[i] = strlen(W[i]); mwt[i] = 1; for (size_t k = 0; k < ml[i]; k++) { mw[i][k] = W[i][k]; wl[p++] = W[i][k]; } wl[p++] = '\n'; } pg_file_add("/wl", wl, p); pg_file_add("/wl2", wl, p);
  static const char *const L[] = {"-M1", "-M2", "-M3", "-M4", "-M9", "-M255"}; static const int V[] = {1, 2, 3, 4, 9, 255}; mk_level = 3; size_t a = pg_choice(6, "before"), c = pg_choice(6, "between"); arg("-rzero"); arg("-e"); int other = pg_choice(1, "other");
  if (a < 6) { arg(L[a]); mk_level = V[a]; } arg("-wn:/wl"); if (c < 6) { arg(L[c]); if (other) mk_level = V[c]; } if (other) arg("-wo:/wl2"); arg(other ? "\\m{o}" : "\\m{n}"); finish = mk_end; go();
}
// failures of the environment are reported
static int why; static void fail_end(int code) { PG_ASSERTM(code != 0, "failure reported as success"); PG_ASSERTM(pg_errlen > 0 || (why < 2 && pg_outlen > 0), "failure without a message"); pg_cover("failed"); }
static long no_random(void *b, size_t n, unsigned fl) { (void)b; (void)n; (void)fl; errno = 38; return -1; }
void h_fail(void) {
  begin(); why = pg_choice(4, "why"); static const char *const P[] = {"a", "a{5}[ab]", "[abc]{200}"}; int form = pg_choice(3, "form"); if (form == 1) arg("-j"); if (form == 2) arg("-e"); if (form == 3) arg("-z"); if (pg_choice(1, "amount")) arg("-a3");
  if (why == 0) { static const char *const R[] = {"-rfile:/none", "-rnone", "-r", "-rxorshift:x", "-rzer", "-rzero1", "-rsystem "}; size_t k = pg_choice(6, "source"); if (k == 2) { arg("--random="); } else arg(R[k]); arg("a"); }
  else if (why == 1) { pg_getrandom_hook = no_random; arg("a"); }
  else if (why == 2) { pg_stdout_full = 1; arg(P[pg_choice(2, "pattern")]); }
  else if (why == 3) { static const char *const F[] = {"\\w{x}", "\\m{x}", "a{257}", "(a{300}|b{300})", "[\\u{d800}]", "[ab]{300}", "a\\w{x}"}; arg(F[pg_choice(6, "pattern")]); }
  else { pg_stdout_full = 2; arg(P[pg_choice(2, "pattern")]); }
  finish = fail_end; go();
}
// a refused pattern: the caret is below the first offending character
static char *refused; static void caret_end(int code) {
  int root = ref_parse((uint8_t *)refused, strlen(refused)); if (root >= 0) { if (code) PG_ASSERTM(code != 3, "valid pattern refused"); return; }
  PG_ASSERTM(code != 0, "refused pattern reported as success"); SAID(); const uint8_t *s = pg_err; size_t n = pg_errlen; PG_ASSERTM(pg_outlen == 0, "output in spite of an error");
  // skips escape sequences; the text of the pattern begins in some column
  size_t line = 0, col = 0, patcol = 0, patline = 0, found = 0, caretcol = 0, hascaret = 0, tl = strlen(refused);
  for (size_t i = 0; i < n; i++) { if (s[i] == 27) { while (i < n && s[i] != 'm') i++; continue; } if (!found && i + tl <= n && i > 0 && s[i - 1] == ' ' && i + tl < n && s[i + tl] == '\n' && pg_bytes_eq(s + i, refused, tl)) { found = 1; patcol = col; patline = line; for (size_t k = 0; k < tl; k++) { if (s[i + k] == '\n') pg_path_end(); } i += tl - 1; continue; } if (s[i] == '\n') { line++; col = 0; continue; } if (found && line == patline + 1 && s[i] == '^') { hascaret = 1; caretcol = col; } col++; }
  PG_ASSERTM(found, "the refused pattern is not shown"); PG_ASSERTM(hascaret, "the position of the error is not marked"); PG_ASSERTM(caretcol == patcol + err_off, "the mark is not below the first offending character"); pg_cover("caret");
}
static const char *const CARET[] = {"\003\003\003", "abc\003\003\003\003", "\xc3\xa4\xc3\xb6\003\003", "(a|\003)\003", "[\001\001", "a\\\001\001", "a{\001\001\001", "\\u{\001\001\001"};
void h_caret(void) {
  begin(); sys_ends = 0; size_t k = pg_choice(sizeof CARET / sizeof *CARET - 1, "pattern"), n = strlen(CARET[k]); fill_at(text, CARET[k], n); refused = text; for (size_t i = 0; i < n; i++) if (text[i] == '\n' || text[i] == 27) pg_path_end(); if (text[0] == '-') pg_path_end();
  arg(text); finish = caret_end; go();
}
// the master passphrase, domain and token reach the key derivation
#ifdef STUB_MASTER
static const char *gm, *gd, *gt; static int gn, gparams, gfail;
passgen_random *passgen_random_chacha20_argon2_open(passgen_random *r, const uint8_t *m, const uint8_t *d, const uint8_t *t, passgen_argon2_config *c) { gn++; gm = (const char *)m; gd = (const char *)d; gt = (const char *)t; gparams = c != NULL; if (gfail) return NULL; return passgen_random_zero_open(r); }
static const char *em, *ed, *et; static int same_s(const char *a, const char *b) { return !a || !b ? a == b : eq(a, b); }
static void master_end(int code) {
  if (!em) { PG_ASSERTM(gn == 0 && code == 0, "derivation without a master passphrase"); pg_cover("none"); return; }
  PG_ASSERTM(gn == 1 && !gparams, "the key is derived once with the default parameters"); PG_ASSERTM(same_s(gm, em), "master passphrase"); PG_ASSERTM(same_s(gd, ed), "domain"); PG_ASSERTM(same_s(gt, et), "token");
  if (gfail) { PG_ASSERTM(code != 0, "failing derivation reported as success"); SAID(); pg_cover("failed"); } else { PG_ASSERTM(code == 0 && sysopens == 0, "the derived stream is not used"); PG_ASSERTM(pg_outlen == 3 && pg_out[0] == 'a' && pg_out[1] == 'b' && pg_out[2] == '\n', "output"); pg_cover("derived"); }
}
void h_master_cli(void) {
  begin(); gfail = pg_choice(1, "fail"); size_t used = 0; char last[3] = {0};
  for (int i = 0; i < 4; i++) { int o = pg_choice(3, "option"); if (o == 3) break; if (last[o]++) pg_path_end(); size_t n = pg_choice(2, "length"); char *b = argbuf[used++], v[4]; for (size_t k = 0; k < n; k++) { v[k] = pg_u8("c"); pg_assume(v[k] != 0); } v[n] = 0; int form = pg_choice(2, "form"); size_t p = 0; const char *pre = form == 0 ? "" : form == 1 ? (o == 0 ? "-m" : o == 1 ? "-d" : "-t") : (o == 0 ? "--master=" : o == 1 ? "--domain=" : "--token="); if (form == 1 && !n) pg_path_end(); while (*pre) b[p++] = *pre++; memcpy(b + p, v, n + 1); if (form == 0) arg(o == 0 ? "-m" : o == 1 ? "-d" : "-t"); arg(b); if (o == 0) em = b + p; else if (o == 1) ed = b + p; else et = b + p; }
  arg("[ab]b"); for (int i = 0; i < STREAM; i++) sysbytes[i] = 0; finish = master_end; go();
}
#endif
// --------------------------------------------------------------------- P30
static const char *const PP[] = {"[\\u{0}-\\u{7f}]", "[\\u{80}-\\u{7ff}]x", "\\u{0}[ab]\\u{0}", "[\\u{fff0}-\\u{1000f}]", "a?b{0,2}", "", "[\\u{0}-\\u{1f}\"\\\\]", "(ab|{2}c)?", "[\\u{d7f0}-\\u{d80f}]", "x{250}[a\\u{e4}]{3,6}y{0,1}"};
void h_print(void) {
  begin(); ref_defaults(); static const char *const A[] = {"-a1", "-a2", "-a3"}; size_t k = PG_PARAM(0, 0) + pg_choice(PG_PARAM(1, sizeof PP / sizeof *PP - 1) - PG_PARAM(0, 0), "pattern"); pg_sym_raw(sysbytes, PG_PARAM(2, 200), "random"); arg(A[pg_choice(PG_PARAM(3, 2), "amount")]); int form = pg_choice(3, "form"); if (form == 1) arg("-z"); if (form == 2) arg("-j"); if (form == 3) { arg("-j"); arg("-z"); } if (pg_choice(1, "entropy")) arg("-e"); arg(PP[k]); max_reject = 0; ref_cli(); pre = ref_output(); pre_done = 1; finish = check_run; go();
}
// many passphrases
void h_print_many(void) {
  am_max = 200; begin(); ref_defaults(); static char a[16]; snprintf(a, sizeof a, "-a%zu", (size_t)pg_choice(PG_PARAM(0, 63), "amount") + 1); arg(a); int form = pg_choice(3, "form"); if (form == 1) arg("-z"); if (form == 2) arg("-j"); if (form == 3) { arg("-j"); arg("-z"); } if (pg_choice(1, "entropy")) arg("-e"); arg("[a\\u{e4}]\"");
  for (int i = 0; i < STREAM; i++) sysbytes[i] = (i * 37 >> 3) & 1; max_reject = 0; ref_cli(); pre = ref_output(); pre_done = 1; finish = check_run; go();
}
// long output: the limit applies to each passphrase, nothing is cut off silently
void h_print_long(void) {
  begin(); ref_defaults(); static char p[32]; size_t n = 240 + pg_choice(20, "n"); int wide = pg_choice(2, "wide"); snprintf(p, sizeof p, wide == 1 ? "\\u{e4}{%zu}" : wide == 2 ? "\\u{1}{%zu}" : "x{%zu}", wide == 1 ? n / 2 : wide == 2 ? n / 6 : n); arg(p); int form = pg_choice(1, "form"); if (form) arg("-j"); if (pg_choice(1, "amount")) arg("-a2");
  ref_cli(); finish = check_run; go();
}
// --------------------------------------------------------------------- P24
static int cmp_holds(const struct scmp_arg_cmp *c, const uint64_t *a) { uint64_t v = a[c->arg < 6 ? c->arg : 0]; switch (c->op) { case SCMP_CMP_NE: return v != c->datum_a; case SCMP_CMP_LT: return v < c->datum_a; case SCMP_CMP_LE: return v <= c->datum_a; case SCMP_CMP_EQ: return v == c->datum_a; case SCMP_CMP_GE: return v >= c->datum_a; case SCMP_CMP_GT: return v > c->datum_a; case SCMP_CMP_MASKED_EQ: return (v & c->datum_a) == c->datum_b; default: pg_fail("unknown comparison in a filter rule"); } }
static int allowed(int nr, const uint64_t *a) { int ok = 0; for (int i = 0; i < nrules; i++) { int h = rules[i].nr == nr; if (rules[i].action != SCMP_ACT_ALLOW) continue; for (unsigned k = 0; k < rules[i].n; k++) h &= cmp_holds(&rules[i].c[k], a); ok |= h; } return ok; }
#define RDFLAGS(f) (((f) & ~(uint64_t)(0100000 | O_CLOEXEC)) == 0)
static int harmless(int nr, const uint64_t *a) {
  int s = 0;
  s |= (nr == SCMP_SYS(open)) & RDFLAGS(a[1]); s |= (nr == SCMP_SYS(openat)) & RDFLAGS(a[2]);
  s |= (nr == SCMP_SYS(read)) | (nr == SCMP_SYS(readv)) | (nr == SCMP_SYS(pread64)) | (nr == SCMP_SYS(lseek)) | (nr == SCMP_SYS(_llseek)) | (nr == SCMP_SYS(fstat)) | (nr == SCMP_SYS(newfstatat)) | (nr == SCMP_SYS(stat)) | (nr == SCMP_SYS(lstat)) | (nr == SCMP_SYS(statx)) | (nr == SCMP_SYS(access)) | (nr == SCMP_SYS(faccessat));
  s |= ((nr == SCMP_SYS(write)) | (nr == SCMP_SYS(writev))) & ((a[0] == 1) | (a[0] == 2)); s |= (nr == SCMP_SYS(close)) & (a[0] > 2);
  s |= (nr == SCMP_SYS(getrandom)) | (nr == SCMP_SYS(exit)) | (nr == SCMP_SYS(exit_group)) | (nr == SCMP_SYS(brk)) | (nr == SCMP_SYS(munmap)) | (nr == SCMP_SYS(mremap)) | (nr == SCMP_SYS(rt_sigreturn));
  s |= (nr == SCMP_SYS(mmap)) & ((a[2] & ~(uint64_t)(PROT_READ | PROT_WRITE)) == 0) & ((a[3] & MAP_ANONYMOUS) != 0) & ((a[3] & MAP_FIXED) == 0);
  s |= (nr == SCMP_SYS(ioctl)) & ((a[1] == TIOCGWINSZ) | (a[1] == TCGETS));
  s |= (nr == SCMP_SYS(madvise)) | (nr == SCMP_SYS(mlock)) | (nr == SCMP_SYS(munlock)) | (nr == SCMP_SYS(clock_gettime));
  return s;
}
static void must(int nr, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3) { uint64_t a[6] = {a0, a1, a2, a3, pg_u64("arg"), pg_u64("arg")}; PG_ASSERTM(allowed(nr, a), "a call the program needs is not permitted"); }
static void filter_end(int code) {
  if (sc_fail) { PG_ASSERTM(code != 0, "the program succeeds without the filter"); PG_ASSERTM(pg_outlen == 0 && sysopens == 0, "the program continues without the filter"); pg_cover("failing"); return; }
  PG_ASSERTM(sc_loaded >= 1 && !sc_late, "the filter is not in force"); PG_ASSERTM(sc_default == SCMP_ACT_KILL || sc_default == SCMP_ACT_KILL_PROCESS || sc_default == SCMP_ACT_KILL_THREAD, "calls which are not listed do not end the process");
  int which = pg_choice(1, "which");
  if (!which) { int nr = (int)pg_u32("number"); uint64_t a[6]; for (int i = 0; i < 6; i++) a[i] = pg_u64("arg"); PG_ASSERTM(!(allowed(nr, a) & !harmless(nr, a)), "a call which is not harmless is permitted"); pg_cover("blocked"); }
  else {
    uint64_t x = pg_u64("x"), y = pg_u64("y"), z = pg_u64("z");
    must(SCMP_SYS(openat), x, y, O_RDONLY, z); must(SCMP_SYS(read), x, y, z, 0); must(SCMP_SYS(lseek), x, y, z, 0); must(SCMP_SYS(fstat), x, y, z, 0); must(SCMP_SYS(newfstatat), x, y, z, 0); must(SCMP_SYS(write), 1, x, y, z); must(SCMP_SYS(write), 2, x, y, z); pg_assume(x > 2); must(SCMP_SYS(close), x, y, z, 0); must(SCMP_SYS(getrandom), x, y, z, 0); must(SCMP_SYS(exit_group), x, y, z, 0); must(SCMP_SYS(brk), x, y, z, 0); must(SCMP_SYS(mmap), 0, x, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS); must(SCMP_SYS(munmap), x, y, z, 0); must(SCMP_SYS(mremap), x, y, z, 0); must(SCMP_SYS(ioctl), x, TCGETS, y, z); pg_cover("needed");
  }
}
static void guard_open(const char *p) { (void)p; PG_ASSERTM(sc_loaded, "a file is opened before the filter is in force"); }
static long guard_random(void *b, size_t n, unsigned fl) { PG_ASSERTM(sc_loaded, "random data is read before the filter is in force"); return sys_hook(b, n, fl); }
void h_filter(void) {
  begin(); sc_fail = pg_choice(3, "fail"); pg_fopen_hook = guard_open; pg_getrandom_hook = guard_random; static const char *const A[] = {"a", "-h", "-v", "-l", "-wn:/wl", "--bogus", "-e", "-rzero"}; pg_file_add("/wl", "w\n", 2); pg_file_add("/etc/passgen.conf", "preset q:a\n", 11); size_t k = pg_choice(8, "argument"); if (k < 8) arg(A[k]); if (k > 3 && k < 8) arg("a"); finish = filter_end; go();
}
// --------------------------------------------------------------------- P23
// reference: lines; blanks, comments; keyword, blanks, argument
static int cfg_error; // a random source which cannot be opened
static void ref_config(const uint8_t *s, size_t n) {
  for (size_t i = 0; i < n; i++) if (!s[i]) { n = i; break; } // (what follows a NUL character is not specified)
  for (size_t i = 0; i < n && !cfg_error;) {
    size_t e = i; while (e < n && s[e] != '\n') e++;
    size_t k = i, end = e; i = e + 1; while (k < end && (s[k] == ' ' || s[k] == '\t')) k++;
    if (k == end || s[k] == '#') continue;
    size_t w = k; while (w < end && s[w] != ' ' && s[w] != '\t') w++; size_t wl = w - k, a = w; while (a < end && (s[a] == ' ' || s[a] == '\t')) a++;
#define WORD(x) (wl == sizeof(x) - 1 && pg_bytes_eq(s + k, x, sizeof(x) - 1))
    size_t nm = a; while (nm < end && s[nm] != ':' && s[nm] != ' ' && s[nm] != '\t') nm++;
    size_t v = nm; int ok = nm < end; if (ok) { if (s[nm] == ':') v = nm + 1; else while (v < end && (s[v] == ' ' || s[v] == '\t')) v++; }
    if (WORD("random")) { const char *d = part((const char *)s + a, end - a); if (eq(d, "zero")) M.rnd = 1; else if (eq(d, "system") || eq(d, "sys")) M.rnd = 2; else cfg_error = 1; continue; }
    if (WORD("preset")) { if (ok) define(part((const char *)s + a, nm - a), part((const char *)s + v, end - v)); continue; }
    if (WORD("wordlist")) { if (ok) { const char *path = part((const char *)s + v, end - v); if (file_exists(path)) { M.lists[M.nlists].name = part((const char *)s + a, nm - a); M.lists[M.nlists++].path = path; } } continue; }
  }
}
static uint8_t cfg[24000 + 20000]; static size_t cfgn; static int warned;
static int cfg_special(const struct ritem *it, uint64_t depth) { (void)depth; if (it->special != 'w') return -1; for (int i = M.nlists - 1; i >= 0; i--) if (name_is(it, M.lists[i].name)) return remit(eq(M.lists[i].path, "/wl") ? 'w' : 'v'); return -1; }
static void cfg_end(int code) {
  if (cfg_error) { PG_ASSERTM(code != 0, "failure reported as success"); SAID(); pg_cover("error"); return; }
  for (int i = 0; i < 16; i++) if (pg_files[i].used && pg_files[i].data == cfg) PG_ASSERTM(pg_files[i].opens == 1 && pg_files[i].closes == 1, "configuration is not read once");
  if (M.list || M.code || M.help) { check_run(code); return; }
  ref_special_gen = cfg_special; int c = ref_output();
  if (c) { PG_ASSERTM(code != 0, "failure reported as success"); SAID(); pg_cover("failed"); return; }
  PG_ASSERTM(code == 0, "definition of the configuration refused"); PG_ASSERTM(pg_outlen == wlen && pg_bytes_eq(pg_out, want, wlen), "definition differs from the configuration"); pg_cover("defined");
}
// the same question for all: the list, a preset or a pattern
static void ask(int k) { if (k == 0) { arg("-p"); arg("x"); } else if (k == 1) arg("-l"); else if (k == 2) { arg("-p"); arg("y"); } else arg("[ab]\\w{n}"); ref_cli(); finish = cfg_end; go(); }
static void cfg_file(void) { pg_file_add(pg_choice(1, "place") ? "/etc/passgen.conf" : "/h/.config/passgen.conf", cfg, cfgn); pg_file_add("/wl", "w\n", 2); pg_file_add("/wl2", "v", 1); }
// every short content defines nothing and does no harm
void h_config_any(void) {
  begin(); ref_defaults(); cfgn = pg_choice(PG_PARAM(0, 4), "n"); if (cfgn) pg_sym_raw(cfg, cfgn, "content"); cfg_file(); arg("[ab]c"); ref_cli(); finish = cfg_end; go();
}
static const char *const CT[] = {
  "preset x:ab\npreset y:c\n", "preset x [ab]c\n", " \tpreset\t x  a b\n#preset x:q\npreset y:x\n", "wordlist n:/wl\npreset x:\\w{n}c\n", "wordlist n /wl2\nwordlist m:/none\npreset x:\\w{n}\n",
  "random zero\npreset x:[ab]\n", "preset x:a\npreset x:b", "bogus x:a\npresetx:b\npreset x:c:d\n", "preset\npreset x\npreset x:a\n\n\nwordlist\nwordlist n\n", "# a\n\n  # b\npreset y:(a)\npreset x (b)#c\n",
};
// every variant of a template with one character changed, inserted or removed
void h_config(void) {
  begin(); ref_defaults(); static const char alt[] = {' ', '\t', ':', '\n', '#', 'x', 'y', 'a', '\r', '(', 0x7f}; size_t k = pg_choice(sizeof CT / sizeof *CT - 1, "template"), n = strlen(CT[k]), at = pg_choice(n - 1, "position"); int how = pg_choice(2, "how"); cfgn = 0;
  for (size_t i = 0; i < n; i++) { if (i == at) { if (how == 0) { cfg[cfgn++] = alt[pg_choice(sizeof alt - 1, "character")]; continue; } if (how == 1) cfg[cfgn++] = alt[pg_choice(sizeof alt - 1, "character")]; else continue; } cfg[cfgn++] = CT[k][i]; }
  cfg_file(); ref_config(cfg, cfgn); ask(pg_choice(PG_PARAM(1, 1), "question"));
}
// values and comments of any characters
static const char *const CV[] = {"preset x:\001\001\npreset y:a\n", "preset x \001\001\n", "#\001\001\npreset x:a\n", "preset x:a\001\001preset y:b\n", "preset y:a\n\001\001\npreset x:b", "preset x:a\n\001preset y:b\n", "preset x:\001{\001}\n", "preset x:a\n#\001\001\001"};
void h_config_values(void) {
  begin(); ref_defaults(); size_t k = pg_choice(sizeof CV / sizeof *CV - 1, "template"), n = strlen(CV[k]); cfgn = 0;
  for (size_t i = 0; i < n; i++) { uint8_t c = CV[k][i]; if (c == 1) { c = pg_u8("value"); pg_assume(c != 0); if (k == 3 || k == 4 || k == 5) pg_assume((c != 'p') & (c != 'w') & (c != 'r')); } cfg[cfgn++] = c; }
  cfg_file(); ref_config(cfg, cfgn); ask(pg_choice(1, "question") * 2);
}
// contents around the size of the internal buffer
void h_config_size(void) {
  begin(); ref_defaults(); static const size_t S[] = {1000, 10240, 20480, 40960}; size_t base = S[pg_choice(3, "size")] - 8 + pg_choice(16, "n"); int kind = pg_choice(2, "kind"); cfgn = 0; const char *tail = "\npreset x:q"; if (kind == 2) tail = "";
  if (kind < 2) cfg[cfgn++] = '#'; else { memcpy(cfg, "preset x:q\n", 11); cfgn = 11; } while (cfgn + strlen(tail) < base) cfg[cfgn++] = kind == 1 ? '#' : '\n'; if (kind == 0) for (size_t i = 1; i < cfgn; i++) cfg[i] = 'c'; memcpy(cfg + cfgn, tail, strlen(tail)); cfgn += strlen(tail);
  uint8_t c = pg_u8("last"); if (cfgn && kind < 2) { pg_assume((c == 'q') | (c == 'r') | (c == '\n')); cfg[cfgn - 1] = c; }
  cfg_file(); define("x", kind == 2 ? "q" : part((const char *)&cfg[cfgn - 1], c == '\n' ? 0 : 1)); ask(0);
}
// the files which are read, whatever the environment
void h_config_paths(void) {
  begin(); ref_defaults(); static char dir[5200], path[5300], sys[] = "preset x:s\n"; size_t n; int which = pg_choice(3, "variables"); static const size_t L[] = {0, 1, 20, 90, 240, 490, 1000, 4080, 5000}; n = L[pg_choice(8, "length")] + pg_choice(16, "extra"); for (size_t i = 0; i < n; i++) dir[i] = i ? 'd' : '/'; dir[n] = 0;
  home = xdg = NULL; if (which == 0) home = dir; if (which == 1) xdg = dir; if (which == 2) { xdg = dir; home = "/other"; } size_t p = 0; memcpy(path, dir, n); p = n; const char *s = which == 0 ? "/.config/passgen.conf" : "/passgen.conf"; while (*s) path[p++] = *s++; path[p] = 0;
  int sysf = pg_choice(1, "system"), userf = which < 3 && pg_choice(1, "user"); if (sysf) { pg_file_add("/etc/passgen.conf", sys, 11); define("x", "s"); } if (userf) { memcpy(cfg, "preset x:u\n", 11); cfgn = 11; pg_file_add(path, cfg, cfgn); define("x", "u"); }
  int over = pg_choice(1, "overridden"); if (over) arg("-Px:o"); arg("-px"); ref_cli(); finish = cfg_end; go();
}
