// Bitcode definitions of the pure libc functions for the symbolic engine
// (the native replay uses the real libc).
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <errno.h>
#include <stdlib.h>



size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); if (!l) return (char *)h; for (; *h; h++) if (*h == *n && !strncmp(h, n, l)) return (char *)h; return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
void *memcpy(void *, const void *, size_t);
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
static char *tokp;
char *strtok_r(char *s, const char *d, char **p) { if (!s) s = *p; s += strspn(s, d); if (!*s) { *p = s; return 0; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *p = e; return s; }
char *strtok(char *s, const char *d) { return strtok_r(s, d, &tokp); }
char *strsep(char **p, const char *d) { char *s = *p; if (!s) return 0; char *e = s + strcspn(s, d); if (*e) { *e = 0; *p = e + 1; } else *p = 0; return s; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isblank(int c) { return c == ' ' || c == 9; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int isalpha(int c) { return islower(c) || isupper(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int strcasecmp(const char *a, const char *b) { while (*a && tolower(*a) == tolower(*b)) a++, b++; return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
// glibc's ctype macros (isdigit etc. when not called as functions)
static unsigned short ctab[384]; static const unsigned short *ctabp; static int lowtab[384], uptab[384]; static const int *lowp, *upp;
static void ctinit(void) { for (int c = -128; c < 256; c++) { int v = 0; int k = c; if (k >= 0) { if (isupper(k)) v |= 1 << 8; if (islower(k)) v |= 1 << 9; if (isalpha(k)) v |= 1 << 10; if (isdigit(k)) v |= 1 << 11; if (isxdigit(k)) v |= 1 << 12; if (isspace(k)) v |= 1 << 13; if (isprint(k)) v |= 1 << 14; if (isprint(k) && k != 32) v |= 1 << 15; if (isblank(k)) v |= 1; if (iscntrl(k)) v |= 2; if (ispunct(k)) v |= 4; if (isalnum(k)) v |= 8; } ctab[c + 128] = v; lowtab[c + 128] = c < 0 ? c : tolower(c); uptab[c + 128] = c < 0 ? c : toupper(c); } ctabp = ctab + 128; lowp = lowtab + 128; upp = uptab + 128; }
const unsigned short **__ctype_b_loc(void) { if (!ctabp) ctinit(); return (const unsigned short **)&ctabp; }
const int **__ctype_tolower_loc(void) { if (!ctabp) ctinit(); return &lowp; }
const int **__ctype_toupper_loc(void) { if (!ctabp) ctinit(); return &upp; }
static int err_; int *__errno_location(void) { return &err_; }
static unsigned long long sto(const char *s, char **end, int base, int *neg, int *ovf) {
  const char *p = s; while (isspace((unsigned char)*p)) p++; *neg = 0; *ovf = 0; if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; int any = 0;
  for (;; p++) { int c = (unsigned char)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any = 1; if (v > (ULLONG_MAX - d) / base) *ovf = 1; v = v * base + d; }
  if (end) *end = (char *)(any ? p : s); return v;
}
long strtol(const char *s, char **e, int b) { int n, o; unsigned long long v = sto(s, e, b, &n, &o); if (o || v > (unsigned long long)LONG_MAX + n) { errno = ERANGE; return n ? LONG_MIN : LONG_MAX; } return n ? -v : v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { int n, o; unsigned long long v = sto(s, e, b, &n, &o); if (o) { errno = ERANGE; return ULONG_MAX; } return n ? -v : v; }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtol(s, 0, 10); }
void qsort(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) { char *a = b; for (size_t i = 1; i < n; i++) for (size_t j = i; j && cmp(a + (j - 1) * sz, a + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char t = a[j * sz + k]; a[j * sz + k] = a[(j - 1) * sz + k]; a[(j - 1) * sz + k] = t; } }
void explicit_bzero(void *p, size_t n) { volatile unsigned char *q = p; for (size_t i = 0; i < n; i++) q[i] = 0; }
void bzero(void *p, size_t n) { unsigned char *q = p; for (size_t i = 0; i < n; i++) q[i] = 0; }
void *reallocarray(void *p, size_t n, size_t m) { if (m && n > SIZE_MAX / m) return 0; return realloc(p, n * m); }
int abs(int x) { return x < 0 ? -x : x; }
// ---- getopt_long with glibc semantics (permutation, abbreviations)
struct option { const char *name; int has_arg; int *flag; int val; };
char *optarg; int optind = 1, opterr = 1, optopt = '?';
static char *nextchar; static int first_nonopt, last_nonopt, getopt_inited;
void pg_getopt_reset(void) { optind = 1; nextchar = 0; getopt_inited = 0; optarg = 0; }
static void exchange(char **argv) { int bottom = first_nonopt, middle = last_nonopt, top = optind; 
  // rotate [bottom,middle) behind [middle,top)
  int n = top - middle; for (int k = 0; k < n; k++) { char *t = argv[middle + k]; for (int j = middle + k; j > bottom + k; j--) argv[j] = argv[j - 1]; argv[bottom + k] = t; }
  first_nonopt += optind - last_nonopt; last_nonopt = optind; }
int getopt_long(int argc, char *const *av, const char *os, const struct option *lo, int *li) {
  char **argv = (char **)av; optarg = 0;
  if (!getopt_inited) { getopt_inited = 1; first_nonopt = last_nonopt = optind; nextchar = 0; }
  if (!nextchar || !*nextchar) {
    if (last_nonopt > optind) last_nonopt = optind; if (first_nonopt > optind) first_nonopt = optind;
    if (first_nonopt != last_nonopt && last_nonopt != optind) exchange(argv); else if (last_nonopt != optind) first_nonopt = optind;
    while (optind < argc && (argv[optind][0] != '-' || argv[optind][1] == 0)) optind++;
    last_nonopt = optind;
    if (optind != argc && !strcmp(argv[optind], "--")) { optind++; if (first_nonopt != last_nonopt && last_nonopt != optind) exchange(argv); else if (first_nonopt == last_nonopt) first_nonopt = optind; last_nonopt = argc; optind = argc; }
    if (optind == argc) { if (first_nonopt != last_nonopt) optind = first_nonopt; return -1; }
    if (argv[optind][1] == '-') {
      nextchar = argv[optind] + 2; char *e = nextchar; while (*e && *e != '=') e++;
      const struct option *p, *found = 0; int exact = 0, ambig = 0, idx = 0, i = 0; size_t l = e - nextchar;
      for (p = lo; p->name; p++, i++) if (!strncmp(p->name, nextchar, l)) { if (strlen(p->name) == l) { found = p; idx = i; exact = 1; break; } if (!found) { found = p; idx = i; } else if (found->has_arg != p->has_arg || found->flag != p->flag || found->val != p->val) ambig = 1; }
      nextchar = 0; optind++;
      if (!exact && ambig) { optopt = 0; return '?'; }
      if (!found) { optopt = 0; return '?'; }
      if (*e) { if (found->has_arg) optarg = e + 1; else { optopt = found->val; return '?'; } }
      else if (found->has_arg == 1) { if (optind < argc) optarg = argv[optind++]; else { optopt = found->val; return os[0] == ':' ? ':' : '?'; } }
      if (li) *li = idx; if (found->flag) { *found->flag = found->val; return 0; } return found->val;
    }
    nextchar = argv[optind] + 1;
  }
  char c = *nextchar++; const char *t = strchr(os, c); if (!*nextchar) optind++;
  if (!t || c == ':' || c == ';') { optopt = c; return '?'; }
  if (t[1] == ':') {
    if (t[2] == ':') { if (*nextchar) { optarg = nextchar; optind++; } else optarg = 0; nextchar = 0; }
    else { if (*nextchar) { optarg = nextchar; optind++; } else if (optind == argc) { optopt = c; c = os[0] == ':' ? ':' : '?'; } else optarg = argv[optind++]; nextchar = 0; }
  }
  return c;
}
