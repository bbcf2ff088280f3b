// Environment model shared by the symbolic and the native runs: files,
// standard streams, system randomness, environment variables.
#pragma once
#include "pg.h"
#define PG_OUTMAX 8192
struct pg_file { const char *path; const uint8_t *data; size_t len, pos; int opens, closes, open; int used; int eof, err; int unget; size_t total_read; int noseek, notell; };
extern struct pg_file pg_files[16];
struct pg_file *pg_file_add(const char *path, const void *data, size_t len);
// optional overrides (NULL = default behaviour)
extern size_t (*pg_read_hook)(struct pg_file *f, void *buf, size_t n);
extern long (*pg_getrandom_hook)(void *buf, size_t n, unsigned flags);
extern const char *(*pg_getenv_hook)(const char *name);
extern void (*pg_fopen_hook)(const char *path);
extern uint8_t pg_out[PG_OUTMAX], pg_err[PG_OUTMAX]; extern size_t pg_outlen, pg_errlen;
extern int pg_stdout_full; // if set, writes to stdout fail
extern int pg_mlocked;
void pg_getopt_reset(void);
