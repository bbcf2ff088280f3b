// Harness API.  The same harness source is executed symbolically by the
// engine (engine/pgsym.cpp) and, with recorded inputs, natively (lib/native.c).
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void pg_sym_raw(void *p, size_t n, const char *name);   // make bytes symbolic
void pg_assume(int cond);                               // restrict the inputs
_Noreturn void pg_fail(const char *msg);                // property violated
void pg_assert_raw(int cond, const char *msg);          // property
void pg_cover(const char *name);                        // reachability witness
uint64_t pg_param_raw(int index, uint64_t def);         // bound set by the driver
uint64_t pg_conc(uint64_t v);                           // case split on every value
uint64_t pg_choice_raw(uint64_t max, const char *name); // fork on 0..max
int pg_bytes_eq(const void *p, const void *q, size_t n); // one expression, no forks
void pg_allow_exit(int on);                             // exit()/abort() is not a violation
void pg_fork_addresses(int on);                          // case split on symbolic addresses
void pg_note(const char *s);
void pg_note_i(const char *s, uint64_t v);
void pg_print(const char *s, uint64_t v);
size_t pg_objsize(const void *p);                       // size of the object at p (heap)
int pg_valid(const void *p);                            // p points into a live object
uint64_t pg_heap_live(void);                            // number of live heap blocks
void pg_malloc_fail_at(int n);                          // n-th next allocation fails
int pg_is_symbolic(const void *p, size_t n);
_Noreturn void pg_path_end(void);                       // stop this path, no verdict
int pg_fmt_double(char *buf, size_t size, const char *fmt, double v);
// optional, defined by a harness:
void pg_exit_handler(int code);
void pg_free_hook(void *p, size_t size);

#define PG_STR2(x) #x
#define PG_STR(x) PG_STR2(x)
#define PG_ASSERT(c) pg_assert_raw(!!(c), #c " [" __FILE_NAME__ ":" PG_STR(__LINE__) "]")
#define PG_ASSERTM(c, m) pg_assert_raw(!!(c), m)
#define PG_PARAM(i, d) pg_param_raw(i, d)

static inline uint8_t pg_u8(const char *n) { uint8_t v; pg_sym_raw(&v, 1, n); return v; }
static inline uint16_t pg_u16(const char *n) { uint16_t v; pg_sym_raw(&v, 2, n); return v; }
static inline uint32_t pg_u32(const char *n) { uint32_t v; pg_sym_raw(&v, 4, n); return v; }
static inline uint64_t pg_u64(const char *n) { uint64_t v; pg_sym_raw(&v, 8, n); return v; }
// v in [0, max], one byte, kept symbolic
static inline uint8_t pg_upto(uint8_t max, const char *n) { uint8_t v = pg_u8(n); pg_assume(v <= max); return v; }
// v in [0, max], case split: every value is explored on its own
static inline uint64_t pg_choice(uint64_t max, const char *n) { return pg_choice_raw(max, n); }
#ifdef __cplusplus
}
#endif
