#define _GNU_SOURCE
#include "io.h"
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/types.h>
#ifdef PG_NATIVE
#define W(x) __wrap_##x
void pg_getopt_reset(void) { extern int optind; optind = 0; }
#else
#define W(x) x
static int in_, out_, err_;
#undef stdin
#undef stdout
#undef stderr
FILE *stdin = (FILE *)&in_, *stdout = (FILE *)&out_, *stderr = (FILE *)&err_;
#endif
#undef putc
#undef getc
#undef feof
#undef ferror
struct pg_file pg_files[16];
size_t (*pg_read_hook)(struct pg_file *, void *, size_t);
long (*pg_getrandom_hook)(void *, size_t, unsigned);
const char *(*pg_getenv_hook)(const char *);
void (*pg_fopen_hook)(const char *);
uint8_t pg_out[PG_OUTMAX], pg_err[PG_OUTMAX]; size_t pg_outlen, pg_errlen; int pg_stdout_full; int pg_mlocked;
struct pg_file *pg_file_add(const char *path, const void *data, size_t len) {
  for (int i = 0; i < 16; i++) if (!pg_files[i].used) { struct pg_file *f = &pg_files[i]; f->used = 1; f->path = path; f->data = data; f->len = len; f->unget = -1; return f; }
  return NULL;
}
static struct pg_file *F(FILE *f) { struct pg_file *p = (struct pg_file *)(void *)f; for (int i = 0; i < 16; i++) if (p == &pg_files[i]) { if (!p->open) pg_fail("stdio call on a closed stream"); return p; } if (f == NULL) pg_fail("stdio call on a null stream"); return NULL; }
static struct pg_file *FD(int fd) { if (fd >= 100 && fd < 116) return &pg_files[fd - 100]; return NULL; }
static struct pg_file *openp(const char *path) { if (pg_fopen_hook) pg_fopen_hook(path); for (int i = 0; i < 16; i++) if (pg_files[i].used && !strcmp(pg_files[i].path, path)) { struct pg_file *f = &pg_files[i]; if (f->open) { struct pg_file *g = pg_file_add(f->path, f->data, f->len); if (!g) break; g->noseek = f->noseek; g->notell = f->notell; f = g; } f->opens++; f->open = 1; f->pos = 0; f->eof = f->err = 0; f->unget = -1; return f; } errno = ENOENT; return NULL; }
FILE *W(fopen)(const char *path, const char *mode) { if (mode[0] != 'r' || strchr(mode, '+')) pg_fail("file opened for writing"); return (FILE *)(void *)openp(path); }
FILE *W(fopen64)(const char *path, const char *mode) { return W(fopen)(path, mode); }
FILE *W(fdopen)(int fd, const char *m) { (void)m; return (FILE *)(void *)FD(fd); }
int W(fclose)(FILE *f) { if (f == stdin || f == stdout || f == stderr) return 0; struct pg_file *p = F(f); if (!p) return -1; p->closes++; p->open = 0; return 0; }
static size_t rd(struct pg_file *p, void *b, size_t n) {
  if (!n) return 0; if (!p->open) return 0;
  size_t k;
  if (pg_read_hook) k = pg_read_hook(p, b, n);
  else { size_t a = p->len - p->pos; k = n < a ? n : a; memcpy(b, p->data + p->pos, k); }
  p->pos += k; p->total_read += k; if (k < n) p->eof = 1; return k;
}
size_t W(fread)(void *b, size_t s, size_t n, FILE *f) { if (f == stdin) return 0; struct pg_file *p = F(f); if (!s || !n) return 0; return rd(p, b, s * n) / s; }
int W(fgetc)(FILE *f) { struct pg_file *p = F(f); if (!p) return EOF; if (p->unget >= 0) { int c = p->unget; p->unget = -1; return c; } unsigned char c; return rd(p, &c, 1) ? c : EOF; }
int W(getc)(FILE *f) { return W(fgetc)(f); }
int W(ungetc)(int c, FILE *f) { F(f)->unget = c; F(f)->eof = 0; return c; }
char *W(fgets)(char *s, int n, FILE *f) { int i = 0; while (i < n - 1) { int c = W(fgetc)(f); if (c == EOF) break; s[i++] = c; if (c == '\n') break; } if (!i) return NULL; s[i] = 0; return s; }
ssize_t W(getline)(char **l, size_t *n, FILE *f) { size_t i = 0; for (;;) { int c = W(fgetc)(f); if (c == EOF) break; if (!*l || i + 2 > *n) { *n = *n ? *n * 2 : 120; *l = realloc(*l, *n); } (*l)[i++] = c; if (c == '\n') break; } if (!i) return -1; (*l)[i] = 0; return i; }
int W(feof)(FILE *f) { struct pg_file *p = F(f); return p ? p->eof : 0; }
int W(ferror)(FILE *f) { if (f == stdout) return pg_stdout_full == 1; if (f == stderr) return 0; struct pg_file *p = F(f); return p ? p->err : 0; }
int W(fileno)(FILE *f) { if (f == stdin) return 0; if (f == stdout) return 1; if (f == stderr) return 2; return 100 + (int)(F(f) - pg_files); }
int W(fseek)(FILE *f, long o, int w) { struct pg_file *p = F(f); if (!p || p->noseek) { errno = ESPIPE; return -1; } size_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? p->pos : p->len; if ((long)(b + o) < 0) return -1; p->pos = b + o > p->len ? p->len : b + o; p->eof = 0; p->unget = -1; return 0; }
int W(fseeko)(FILE *f, off_t o, int w) { return W(fseek)(f, o, w); }
long W(ftell)(FILE *f) { struct pg_file *p = F(f); if (p && p->notell) { if (p->notell == 2) return 0x7fffffffffffffff; errno = EIO; return -1; } return p ? (long)p->pos : -1; }
off_t W(ftello)(FILE *f) { return W(ftell)(f); }
void W(rewind)(FILE *f) { W(fseek)(f, 0, SEEK_SET); }
int W(setvbuf)(FILE *f, char *b, int m, size_t n) { (void)f; (void)b; (void)m; (void)n; return 0; }
void W(setbuf)(FILE *f, char *b) { (void)f; (void)b; }
int W(open)(const char *path, int fl, ...) { if (fl & 3) pg_fail("file opened for writing"); struct pg_file *p = openp(path); return p ? 100 + (int)(p - pg_files) : -1; }
int W(open64)(const char *path, int fl, ...) { return W(open)(path, fl); }
ssize_t W(read)(int fd, void *b, size_t n) { struct pg_file *p = FD(fd); if (!p || !p->open) { errno = EBADF; return -1; } return rd(p, b, n); }
int W(close)(int fd) { struct pg_file *p = FD(fd); if (!p || !p->open) return -1; p->closes++; p->open = 0; return 0; }
ssize_t W(getrandom)(void *b, size_t n, unsigned fl) { if (pg_getrandom_hook) return pg_getrandom_hook(b, n, fl); pg_sym_raw(b, n, "getrandom"); return n; }
char *W(getenv)(const char *n) { return pg_getenv_hook ? (char *)pg_getenv_hook(n) : NULL; }
char *W(secure_getenv)(const char *n) { return W(getenv)(n); }
int W(mlockall)(int f) { pg_mlocked = f; return 0; }
int W(mlock)(const void *p, size_t n) { (void)p; (void)n; return 0; }
int W(munlock)(const void *p, size_t n) { (void)p; (void)n; return 0; }
static size_t put(FILE *f, const void *b, size_t n) {
  if (f == stdout) { if (pg_stdout_full == 1) return 0; if (pg_outlen + n > PG_OUTMAX) pg_fail("model: output too long"); memcpy(pg_out + pg_outlen, b, n); pg_outlen += n; return n; }
  if (f == stderr) { if (pg_errlen + n <= PG_OUTMAX) { memcpy(pg_err + pg_errlen, b, n); pg_errlen += n; } return n; }
  pg_fail("write to a file other than stdout/stderr");
}
size_t W(fwrite)(const void *b, size_t s, size_t n, FILE *f) { return s ? put(f, b, s * n) / s : 0; }
int W(fputc)(int c, FILE *f) { unsigned char x = c; return put(f, &x, 1) ? x : EOF; }
int W(putc)(int c, FILE *f) { return W(fputc)(c, f); }
int W(putchar)(int c) { return W(fputc)(c, stdout); }
int W(fputs)(const char *s, FILE *f) { size_t n = strlen(s); return put(f, s, n) == n ? 1 : EOF; }
int W(puts)(const char *s) { W(fputs)(s, stdout); return W(fputc)('\n', stdout); }
ssize_t W(write)(int fd, const void *b, size_t n) { return put(fd == 1 ? stdout : fd == 2 ? stderr : NULL, b, n); }
// 1: nothing can be written, 2: only flushing fails
int W(fflush)(FILE *f) { if (pg_stdout_full && (f == stdout || !f)) { pg_stdout_full = 1; return EOF; } return 0; }
void W(perror)(const char *s) { W(fputs)(s, stderr); }
#ifdef PG_NATIVE
int W(vfprintf)(FILE *f, const char *fmt, va_list ap) { char *s = NULL; int n = vasprintf(&s, fmt, ap); size_t k = put(f, s, n); return k == (size_t)n ? n : -1; }
#else
struct sink { char *d; size_t cap, n; FILE *f; int bad; };
static void emit(struct sink *s, const char *b, size_t n) { if (s->f) { if (n && put(s->f, b, n) != n) s->bad = 1; } else { for (size_t i = 0; i < n; i++) if (s->n + i < s->cap) s->d[s->n + i] = b[i]; } s->n += n; }
static void fmt(struct sink *s, const char *f, va_list ap) {
  char tmp[520];
  for (; *f; f++) {
    if (*f != '%') { const char *e = f; while (*e && *e != '%') e++; emit(s, f, e - f); f = e - 1; continue; }
    const char *start = f; f++; int left = 0, zero = 0, plus = 0, alt = 0, space = 0; for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') space = 1; else break; }
    int width = 0, prec = -1; if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int lng = 0, h = 0; for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q' || *f == 'L') lng = 1; else if (*f == 'h') h++; else break; }
    const char *b = tmp; size_t n = 0; int num = 0;
    switch (*f) {
      case '%': tmp[0] = '%'; n = 1; break;
      case 'c': tmp[0] = va_arg(ap, int); n = 1; break;
      case 's': b = va_arg(ap, const char *); if (!b) b = "(null)"; n = prec >= 0 ? strnlen(b, prec) : strlen(b); break;
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        unsigned long long v; int neg = 0; num = 1;
        if (*f == 'p') { v = va_arg(ap, uintptr_t); alt = 1; } else if (lng) v = va_arg(ap, long); else v = va_arg(ap, int);
        v = pg_conc(v);
        if (*f == 'd' || *f == 'i') { if (!lng) v = h == 2 ? (long long)(signed char)v : h == 1 ? (long long)(short)v : (long long)(int)v; if ((long long)v < 0) { neg = 1; v = -v; } }
        else if (!lng && *f != 'p') v = h == 2 ? (unsigned char)v : h == 1 ? (unsigned short)v : (unsigned)v;
        unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10; char r[70]; int k = 0; while (v) { r[k++] = (*f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[v % base]; v /= base; } if (!k && prec != 0) r[k++] = '0'; while (k < prec && k < 64) r[k++] = '0';
        if (neg) tmp[n++] = '-'; else if (plus && (*f == 'd' || *f == 'i')) tmp[n++] = '+'; else if (space && (*f == 'd' || *f == 'i')) tmp[n++] = ' '; if (alt && base == 16) { tmp[n++] = '0'; tmp[n++] = 'x'; }
        if (zero && !left && prec < 0) while ((int)n + k < width && n < 400) tmp[n++] = '0';
        while (k) tmp[n++] = r[--k]; break; }
      case 'f': case 'g': case 'e': case 'F': case 'G': case 'a': { char spec[40]; size_t k = 0; for (const char *q = start; q <= f && k < 38; q++) if (*q != 'L') spec[k++] = *q; spec[k] = 0; n = pg_fmt_double(tmp, sizeof tmp, spec, va_arg(ap, double)); width = 0; break; }
      default: pg_fail("model: unsupported printf conversion");
    }
    (void)num;
    if (!left) for (int i = n; i < width; i++) emit(s, " ", 1); emit(s, b, n); if (left) for (int i = n; i < width; i++) emit(s, " ", 1);
  }
}
int vfprintf(FILE *f, const char *fm, va_list ap) { struct sink s = {0, 0, 0, f, 0}; fmt(&s, fm, ap); return s.bad ? -1 : (int)s.n; }
int vsnprintf(char *d, size_t n, const char *fm, va_list ap) { struct sink s = {d, n ? n - 1 : 0, 0, 0, 0}; fmt(&s, fm, ap); if (n) d[s.n < n - 1 ? s.n : n - 1] = 0; return s.n; }
int vsprintf(char *d, const char *fm, va_list ap) { return vsnprintf(d, 1u << 30, fm, ap); }
int snprintf(char *d, size_t n, const char *fm, ...) { va_list ap; va_start(ap, fm); int r = vsnprintf(d, n, fm, ap); va_end(ap); return r; }
int sprintf(char *d, const char *fm, ...) { va_list ap; va_start(ap, fm); int r = vsnprintf(d, 1u << 30, fm, ap); va_end(ap); return r; }
int vasprintf(char **o, const char *fm, va_list ap) { char t[4096]; int n = vsnprintf(t, sizeof t, fm, ap); *o = malloc(n + 1); memcpy(*o, t, n + 1); return n; }
int asprintf(char **o, const char *fm, ...) { va_list ap; va_start(ap, fm); int r = vasprintf(o, fm, ap); va_end(ap); return r; }
#endif
int W(vprintf)(const char *fm, va_list ap) { return W(vfprintf)(stdout, fm, ap); }
int W(printf)(const char *fm, ...) { va_list ap; va_start(ap, fm); int r = W(vfprintf)(stdout, fm, ap); va_end(ap); return r; }
int W(fprintf)(FILE *f, const char *fm, ...) { va_list ap; va_start(ap, fm); int r = W(vfprintf)(f, fm, ap); va_end(ap); return r; }
int W(dprintf)(int fd, const char *fm, ...) { va_list ap; va_start(ap, fm); int r = W(vfprintf)(fd == 1 ? stdout : stderr, fm, ap); va_end(ap); return r; }
