// Native side of the harness API: replays the inputs of a counterexample
// against the real, natively compiled code under ASan/UBSan.
//   prog REPLAY-FILE     lines: "input NAME HEX", "param I V"
// exit 77: the violation reproduces.  0: property held.  3: replay diverged.
#define _GNU_SOURCE
#include "pg.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <malloc.h>
#include <math.h>
#include <sys/syscall.h>
ssize_t __real_write(int, const void *, size_t); FILE *__real_fopen(const char *, const char *); char *__real_fgets(char *, int, FILE *); int __real_fclose(FILE *);
#define write __real_write
#define fopen __real_fopen
#define fgets __real_fgets
#define fclose __real_fclose
extern void PG_ENTRY(void);
extern void pg_exit_handler(int) __attribute__((weak));
extern void pg_free_hook(void *, size_t) __attribute__((weak));
void __real_exit(int) __attribute__((noreturn));
void __real_abort(void) __attribute__((noreturn));
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __asan_address_is_poisoned(void const volatile *) __attribute__((weak));
static struct { char *name; unsigned char *b; size_t n; } in[20000]; static int nin, pos; static uint64_t par[64]; static char haspar[64];
static int allow; static long live; static int failat = -1;
static void out(const char *a, const char *b) { size_t r = 0; r += write(2, a, strlen(a)); r += write(2, b, strlen(b)); r += write(2, "\n", 1); (void)r; }
void pg_sym_raw(void *p, size_t n, const char *name0) {
  char name[128]; size_t k = 0; for (; name0[k] && k < 127; k++) name[k] = name0[k] == ' ' ? '_' : name0[k]; name[k] = 0;
  if (pos >= nin || in[pos].n != n || strcmp(in[pos].name, name)) { out("PG-DIVERGED at input ", name); _exit(3); }
  memcpy(p, in[pos].b, n); pos++;
}
void pg_assume(int c) { if (!c) { out("PG-ASSUME", " false"); _exit(0); } }
void pg_fail(const char *m) { out("PG-VIOLATION assert: ", m); _exit(77); }
void pg_assert_raw(int c, const char *m) { if (!c) pg_fail(m); }
void pg_cover(const char *n) { (void)n; }
uint64_t pg_param_raw(int i, uint64_t d) { return haspar[i] ? par[i] : d; }
uint64_t pg_conc(uint64_t v) { return v; }
uint64_t pg_choice_raw(uint64_t max, const char *n) { unsigned char b[4] = {0, 0, 0, 0}; pg_sym_raw(b, max < 256 ? 1 : 4, n); return b[0] | b[1] << 8 | b[2] << 16 | (uint64_t)b[3] << 24; }
int pg_bytes_eq(const void *p, const void *q, size_t n) { return memcmp(p, q, n) == 0; }
void pg_allow_exit(int on) { allow = on; }
void pg_fork_addresses(int on) { (void)on; }
void pg_note(const char *s) { out("PG-NOTE ", s); }
void pg_note_i(const char *s, uint64_t v) { char b[40]; snprintf(b, 40, "%llu", (unsigned long long)v); out(s, b); }
void pg_print(const char *s, uint64_t v) { pg_note_i(s, v); }
size_t pg_objsize(const void *p) { return malloc_usable_size((void *)p); }
int pg_valid(const void *p) { return __asan_address_is_poisoned ? !__asan_address_is_poisoned(p) : 1; }
uint64_t pg_heap_live(void) { return live; }
void pg_malloc_fail_at(int n) { failat = n; }
int pg_is_symbolic(const void *p, size_t n) { (void)p; (void)n; return 0; }
void pg_path_end(void) { _exit(0); }
int pg_fmt_double(char *b, size_t n, const char *f, double v) { return snprintf(b, n, f, v); }
static int inexit;
void __wrap_exit(int code) {
  if (!allow) { out("PG-VIOLATION ", "exit() called"); _exit(77); }
  if (!inexit && pg_exit_handler) { inexit = 1; pg_exit_handler(code & 0xff); }
  _exit(0);
}
void __wrap_abort(void) {
  if (!allow) { out("PG-VIOLATION ", "abort() called"); _exit(77); }
  if (!inexit && pg_exit_handler) { inexit = 1; pg_exit_handler(134); }
  _exit(0);
}
void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *fn) { (void)f; (void)l; (void)fn; out("PG-VIOLATION assert() failed: ", a); _exit(77); }
static int nofail(void) { if (failat == 0) { failat = -1; return 0; } if (failat > 0) failat--; return 1; }
void *__wrap_malloc(size_t n) { if (!nofail() || n > (1ull << 28)) return NULL; void *p = __real_malloc(n); if (p) { live++; memset(p, 0xbe, n); } return p; }
void *__wrap_calloc(size_t a, size_t b) { if (!nofail()) return NULL; void *p = __real_calloc(a, b); if (p) live++; return p; }
void *__wrap_realloc(void *q, size_t n) { if (!nofail() || n > (1ull << 28)) return NULL; 
  if (q && !n) { live--; __real_free(q); return NULL; } void *p = __real_malloc(n); if (!p) return NULL; memset(p, 0xbe, n); if (q) { size_t o = malloc_usable_size(q); memcpy(p, q, o < n ? o : n); __real_free(q); } else live++; return p; }
static int inhook;
void __wrap_free(void *p) { if (p) { live--; if (pg_free_hook && !inhook) { inhook = 1; pg_free_hook(p, malloc_usable_size(p)); inhook = 0; } } __real_free(p); }
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL; static char line[1 << 20];
  while (f && fgets(line, sizeof line, f)) {
    char *sp; char *t = strtok_r(line, " \n", &sp); if (!t) continue;
    if (!strcmp(t, "param")) { int i = atoi(strtok_r(NULL, " \n", &sp)); par[i] = strtoull(strtok_r(NULL, " \n", &sp), NULL, 10); haspar[i] = 1; }
    else if (!strcmp(t, "input")) { char *n = strtok_r(NULL, " \n", &sp), *h = strtok_r(NULL, " \n", &sp); size_t l = h ? strlen(h) / 2 : 0; in[nin].name = strdup(n); in[nin].b = __real_malloc(l + 1); in[nin].n = l; for (size_t i = 0; i < l; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); in[nin].b[i] = v; } nin++; }
  }
  if (f) fclose(f);
  live = 0;
  PG_ENTRY();
  out("PG-OK", ""); _exit(0);
}
