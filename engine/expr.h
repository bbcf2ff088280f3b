// Hash-consed bit-vector expressions (widths 1..64) with simplification,
// concrete evaluation and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <z3++.h>

enum Kind : uint8_t {
  K_CONST, K_SYM, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_SLT,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_AGG
};

struct SymSet { std::vector<uint32_t> v; };

struct Expr {
  Kind k; uint8_t w; uint8_t inq = 0; bool flat = false; // only concatenated inputs and constants
  uint32_t id;
  uint64_t c;          // const value / sym id / extract low bit
  Expr *a, *b, *d;
  SymSet *syms;        // support
  uint64_t kz;         // known-zero bits
  uint32_t stamp = 0; uint64_t val = 0;
  uint32_t z3i = 0;    // index+1 into the translation table
  std::vector<struct V> *agg = nullptr;
};

struct V { Expr *e; uint64_t c; };   // e==nullptr => constant c

static inline uint64_t MASK(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t SX(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

extern uint64_t g_exprs;
Expr *mk_const(uint64_t v, unsigned w);
Expr *mk_sym(uint32_t id);
Expr *mk_bin(Kind k, Expr *a, Expr *b);
Expr *mk_ite(Expr *c, Expr *t, Expr *f);
Expr *mk_concat(Expr *hi, Expr *lo);
Expr *mk_extract(Expr *e, unsigned lo, unsigned w);
Expr *mk_zext(Expr *e, unsigned w);
Expr *mk_sext(Expr *e, unsigned w);
Expr *mk_not(Expr *e);
uint64_t eval_expr(Expr *e, const std::vector<uint8_t> &model);
z3::expr to_z3(Expr *e);
z3::context &z3ctx();
z3::expr sym_z3(uint32_t id);

static inline bool isc(Expr *e) { return e->k == K_CONST; }
