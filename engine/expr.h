// Hash-consed bit-vector expression DAG with simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <array>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 {
  E_CONST, E_VAR, E_ADD, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_EQ, E_ULT, E_SLT, E_ITE
};
static const int MAXV = 256;
struct VSet {
  u64 b[4];
  bool test(int i) const { return b[i >> 6] >> (i & 63) & 1; }
  void set(int i) { b[i >> 6] |= 1ull << (i & 63); }
  bool intersects(const VSet& o) const {
    return (b[0] & o.b[0]) | (b[1] & o.b[1]) | (b[2] & o.b[2]) | (b[3] & o.b[3]);
  }
  void add(const VSet& o) { for (int i = 0; i < 4; i++) b[i] |= o.b[i]; }
  bool contains(const VSet& o) const {
    for (int i = 0; i < 4; i++) if (o.b[i] & ~b[i]) return false;
    return true;
  }
  int count() const { int n = 0; for (int i = 0; i < 4; i++) n += __builtin_popcountll(b[i]); return n; }
  int first() const { for (int i = 0; i < 4; i++) if (b[i]) return i * 64 + __builtin_ctzll(b[i]); return -1; }
  bool empty() const { return !(b[0] | b[1] | b[2] | b[3]); }
};
typedef VSet TT;  // 256-bit truth table / byte domain, same layout
struct TTHash { size_t operator()(const TT& t) const {
  u64 h = 1469598103934665603ull; for (int i = 0; i < 4; i++) { h ^= t.b[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
static inline bool operator==(const VSet& a, const VSet& b) { return !memcmp(a.b, b.b, sizeof a.b); }
static const TT TT_ALL = {{~0ull, ~0ull, ~0ull, ~0ull}};

struct Expr {
  u8 op;
  u8 cut;       // unused
  uint16_t w;
  u32 id;
  u32 depth;
  int sv;       // single variable index, -1 const, -2 several
  Expr* k[3];
  u128 c;       // const value / var index / extract offset
  VSet vs;
  u64* tab;     // 256-entry table for single variable exprs (w<=64)
  Z3_ast z;
  u64 evEpoch;
  u128 ev;
  u64 rgEpoch; u128 rlo, rhi;   // memoised value range under byte domains
};

static inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, int w) {
  if (w >= 128) return (i128)v;
  v &= maskw(w);
  if (v >> (w - 1) & 1) v |= ~maskw(w);
  return (i128)v;
}

struct ExprKey { u8 op; uint16_t w; Expr* k[3]; u128 c; };
struct KeyHash { size_t operator()(const ExprKey& x) const {
  u64 h = x.op * 0x9E3779B97F4A7C15ull + x.w;
  auto mix = [&](u64 v) { h ^= v; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  for (int i = 0; i < 3; i++) mix((u64)x.k[i]);
  mix((u64)x.c); mix((u64)(x.c >> 64));
  return h; } };
struct KeyEq { bool operator()(const ExprKey& a, const ExprKey& b) const {
  return a.op == b.op && a.w == b.w && a.c == b.c && a.k[0] == b.k[0] && a.k[1] == b.k[1] && a.k[2] == b.k[2]; } };

extern u64 g_nexprs;
u128 evalOp(int op, int w, int w0, u128 a, u128 b, u128 c, u128 imm);
Expr* mkConst(int w, u128 v);
Expr* mkVar(int idx);
Expr* mkAdd(Expr*, Expr*);
Expr* mkSub(Expr*, Expr*);
Expr* mkMul(Expr*, Expr*);
Expr* mkBin(int op, Expr*, Expr*);   // UDIV..SREM, ASHR, SHL, LSHR generic
Expr* mkAnd(Expr*, Expr*);
Expr* mkOr(Expr*, Expr*);
Expr* mkXor(Expr*, Expr*);
Expr* mkShl(Expr*, Expr*);
Expr* mkLshr(Expr*, Expr*);
Expr* mkAshr(Expr*, Expr*);
Expr* mkZext(Expr*, int w);
Expr* mkSext(Expr*, int w);
Expr* mkExtract(Expr*, int off, int w);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkEq(Expr*, Expr*);
Expr* mkUlt(Expr*, Expr*);
Expr* mkSlt(Expr*, Expr*);
Expr* mkNot(Expr*);
Expr* mkIte(Expr*, Expr*, Expr*);
Expr* mkDomain(int var, const TT& t);   // canonical boolean for a byte domain
TT truthTable(Expr* e);                 // e: w==1, single var
u128 evalExpr(Expr* e, const u8* model, u64 epoch);
void rangeExpr(Expr* e, const TT* dom, u64 epoch, u128& lo, u128& hi);  // sound over-approximation
Expr* restrictExpr(Expr* e, const TT* dom);   // simplify a single-variable expression under its domain
Expr* simpExpr(Expr* e, const TT* dom, u64 epoch);   // equal to e inside the domains
bool liaQuery(Z3_context c, const std::vector<Expr*>& q, const VSet& vars, std::vector<Z3_ast>& out);
u8 liaByte(int v, u64 x);   // byte for the integer value of v in a model of the last liaQuery
bool wantsLia(const std::vector<Expr*>& q);
Z3_ast liaVar(Z3_context c, int v);
Z3_ast toZ3(Z3_context c, Expr* e);
void printExpr(FILE* f, Expr* e, int depth);
static inline bool isC(Expr* e) { return e->op == E_CONST; }
