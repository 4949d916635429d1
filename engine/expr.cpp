#include "expr.h"
#include <algorithm>

u64 g_nexprs = 0;
static std::unordered_map<ExprKey, Expr*, KeyHash, KeyEq> g_tab;
struct TabKey { int var; int w; u64 h; };
static std::unordered_map<u64, std::vector<Expr*>> g_semtab;  // semantic table for single-var exprs

u128 evalOp(int op, int w, int w0, u128 a, u128 b, u128 c, u128 imm) {
  u128 m = maskw(w);
  switch (op) {
    case E_ADD: return (a + b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b == 0 ? m : (a / b) & m;
    case E_SDIV: { i128 x = sx(a, w), y = sx(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case E_UREM: return b == 0 ? a : (a % b) & m;
    case E_SREM: { i128 x = sx(a, w), y = sx(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= (u128)w ? 0 : (a << (int)b) & m;
    case E_LSHR: return b >= (u128)w ? 0 : (a >> (int)b) & m;
    case E_ASHR: { i128 x = sx(a, w); int s = b >= (u128)w ? w - 1 : (int)b; return (u128)(x >> s) & m; }
    case E_ZEXT: return a;
    case E_SEXT: return (u128)sx(a, w0) & m;
    case E_EXTRACT: return (a >> (int)imm) & m;
    case E_CONCAT: return 0;  // handled by caller (needs width of lo)
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_SLT: return sx(a, w0) < sx(b, w0);
    case E_ITE: return a ? b : c;
  }
  abort();
}

static void* arena(size_t n) {
  static char* p = nullptr; static size_t left = 0;
  n = (n + 15) & ~(size_t)15;
  if (left < n) { size_t s = 1 << 20; if (n > s) s = n; p = (char*)aligned_alloc(16, s); left = s; }
  void* r = p; p += n; left -= n; return r;
}

static const u64* getTab(Expr* e);

static Expr* mkNode(int op, int w, Expr* a, Expr* b, Expr* c, u128 imm) {
  ExprKey key{(u8)op, (uint16_t)w, {a, b, c}, imm};
  auto it = g_tab.find(key);
  if (it != g_tab.end()) return it->second;
  Expr* e = (Expr*)arena(sizeof(Expr));
  memset(e, 0, sizeof *e);
  e->op = op; e->w = w; e->c = imm; e->k[0] = a; e->k[1] = b; e->k[2] = c;
  e->id = (u32)g_nexprs++;
  u32 d = 0;
  for (int i = 0; i < 3; i++) if (e->k[i]) { e->vs.add(e->k[i]->vs); d = std::max(d, e->k[i]->depth + 1); }
  e->depth = d;
  if (op == E_VAR) e->vs.set((int)imm);
  int n = e->vs.count();
  e->sv = n == 0 ? -1 : n == 1 ? e->vs.first() : -2;
  Expr* res = e;
  if (e->sv >= 0 && w <= 64) {
    {
      const u64* t = getTab(e);
      // constant?
      bool cst = true;
      for (int i = 1; i < 256; i++) if (t[i] != t[0]) { cst = false; break; }
      if (cst) res = mkConst(w, t[0]);
      else {
        u64 h = (u64)e->sv * 1000003 + w;
        for (int i = 0; i < 256; i++) { h ^= t[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 31; }
        auto& v = g_semtab[h];
        bool found = false;
        for (Expr* o : v) if (o->sv == e->sv && o->w == w && !memcmp(o->tab, t, 256 * 8)) { res = o; found = true; break; }
        if (!found) v.push_back(e);
        else if (e->depth < res->depth) { /* keep first for stability */ }
      }
    }
  }
  g_tab.emplace(key, res);
  return res;
}

// the same with values of up to 128 bits
static const u128* getTabW(Expr* e) {
  static std::unordered_map<Expr*, const u128*> memo;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  u128* t = new u128[256];
  if (e->op == E_VAR) for (int i = 0; i < 256; i++) t[i] = i;
  else if (e->op == E_CONST) for (int i = 0; i < 256; i++) t[i] = e->c;
  else if (e->tab) for (int i = 0; i < 256; i++) t[i] = e->tab[i];
  else {
    const u128 *a = e->k[0] ? getTabW(e->k[0]) : nullptr, *b = e->k[1] ? getTabW(e->k[1]) : nullptr, *c = e->k[2] ? getTabW(e->k[2]) : nullptr; int w0 = e->k[0] ? e->k[0]->w : 0;
    if (e->op == E_CONCAT) { int lw = e->k[1]->w; for (int i = 0; i < 256; i++) t[i] = (a[i] << lw) | b[i]; }
    else for (int i = 0; i < 256; i++) t[i] = evalOp(e->op, e->w, w0, a ? a[i] : 0, b ? b[i] : 0, c ? c[i] : 0, e->c);
  }
  memo[e] = t; return t;
}
static const u64* getTab(Expr* e) {
  if (e->tab) return e->tab;
  u64* t = (u64*)arena(256 * 8);
  if (e->op == E_VAR) { for (int i = 0; i < 256; i++) t[i] = i; e->tab = t; return t; }
  if (e->op == E_CONST) { for (int i = 0; i < 256; i++) t[i] = (u64)e->c; e->tab = t; return t; }
  for (int i = 0; i < 3; i++) if (e->k[i] && e->k[i]->w > 64) { const u128* f = getTabW(e); for (int j = 0; j < 256; j++) t[j] = (u64)f[j]; e->tab = t; return t; }
  const u64* a = e->k[0] ? getTab(e->k[0]) : nullptr;
  const u64* b = e->k[1] ? getTab(e->k[1]) : nullptr;
  const u64* c = e->k[2] ? getTab(e->k[2]) : nullptr;
  int w0 = e->k[0] ? e->k[0]->w : 0;
  if (e->op == E_CONCAT) { int lw = e->k[1]->w; for (int i = 0; i < 256; i++) t[i] = (a[i] << lw) | b[i]; }
  else for (int i = 0; i < 256; i++) t[i] = (u64)evalOp(e->op, e->w, w0, a ? a[i] : 0, b ? b[i] : 0, c ? c[i] : 0, e->c);
  e->tab = t;
  return t;
}

TT truthTable(Expr* e) {
  TT t = {{0, 0, 0, 0}};
  const u64* a = getTab(e);
  for (int i = 0; i < 256; i++) if (a[i] & 1) t.set(i);
  return t;
}

Expr* mkConst(int w, u128 v) { return mkNode(E_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
Expr* mkVar(int idx) { return mkNode(E_VAR, 8, nullptr, nullptr, nullptr, idx); }

static bool constArms(Expr* e) { return e->op == E_ITE && isC(e->k[1]) && isC(e->k[2]); }

Expr* mkAdd(Expr* a, Expr* b) {
  int w = a->w;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(w, a->c + b->c);
    if (b->c == 0) return a;
    if (a->op == E_ADD && isC(a->k[1])) return mkAdd(a->k[0], mkConst(w, a->k[1]->c + b->c));
    if (constArms(a)) return mkIte(a->k[0], mkAdd(a->k[1], b), mkAdd(a->k[2], b));
  } else {
    // float constants outwards
    if (a->op == E_ADD && isC(a->k[1])) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
    if (b->op == E_ADD && isC(b->k[1])) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
    // a + (-a)
    if (b->op == E_MUL && isC(b->k[1]) && b->k[1]->c == maskw(w) && b->k[0] == a) return mkConst(w, 0);
    if (a->op == E_MUL && isC(a->k[1]) && a->k[1]->c == maskw(w) && a->k[0] == b) return mkConst(w, 0);
    // (x + y) + (-y)
    if (b->op == E_MUL && isC(b->k[1]) && b->k[1]->c == maskw(w) && a->op == E_ADD) {
      if (a->k[0] == b->k[0]) return a->k[1];
      if (a->k[1] == b->k[0]) return a->k[0];
    }
    if (a->id > b->id) std::swap(a, b);
  }
  return mkNode(E_ADD, w, a, b, nullptr, 0);
}
static Expr* mkNeg(Expr* a) {
  int w = a->w;
  if (isC(a)) return mkConst(w, -a->c);
  if (a->op == E_ADD) return mkAdd(mkNeg(a->k[0]), mkNeg(a->k[1]));
  return mkMul(a, mkConst(w, maskw(w)));
}
Expr* mkSub(Expr* a, Expr* b) { return mkAdd(a, mkNeg(b)); }
Expr* mkMul(Expr* a, Expr* b) {
  int w = a->w;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(w, a->c * b->c);
    if (b->c == 0) return b;
    if (b->c == 1) return a;
    if (w == 1) return a;
    if (a->op == E_MUL && isC(a->k[1])) return mkMul(a->k[0], mkConst(w, a->k[1]->c * b->c));
    if (a->op == E_ADD && isC(a->k[1])) return mkAdd(mkMul(a->k[0], b), mkConst(w, a->k[1]->c * b->c));
    if (constArms(a)) return mkIte(a->k[0], mkMul(a->k[1], b), mkMul(a->k[2], b));
  } else if (a->id > b->id) std::swap(a, b);
  return mkNode(E_MUL, w, a, b, nullptr, 0);
}
Expr* mkBin(int op, Expr* a, Expr* b) {
  int w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, evalOp(op, w, w, a->c, b->c, 0, 0));
  if (isC(b)) {
    if ((op == E_UDIV || op == E_SDIV) && b->c == 1) return a;
    if (op == E_UDIV && b->c && !(b->c & (b->c - 1))) { int s = 0; while (!(b->c >> s & 1)) s++; return mkLshr(a, mkConst(w, s)); }
    if (op == E_UREM && b->c && !(b->c & (b->c - 1))) return mkAnd(a, mkConst(w, b->c - 1));
    if (constArms(a)) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  }
  return mkNode(op, w, a, b, nullptr, 0);
}
// lowest run mask?
static bool lowMask(u128 c, int* n) {
  if (c == 0 || (c & (c + 1))) return false;
  int k = 0; while (c) { k++; c >>= 1; }
  *n = k; return true;
}
Expr* mkAnd(Expr* a, Expr* b) {
  int w = a->w;
  if (a == b) return a;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(w, a->c & b->c);
    if (b->c == 0) return b;
    if (b->c == maskw(w)) return a;
    int n;
    if (lowMask(b->c, &n)) return mkZext(mkExtract(a, 0, n), w);
    // shifted mask: 0..0 1..1 0..0
    { int s = 0; while (!(b->c >> s & 1)) s++; if (s && lowMask(b->c >> s, &n)) {
        Expr* x = mkConcat(mkExtract(a, s, n), mkConst(s, 0)); return mkZext(x, w); } }
    if (a->op == E_AND && isC(a->k[1])) return mkAnd(a->k[0], mkConst(w, a->k[1]->c & b->c));
    if (constArms(a)) return mkIte(a->k[0], mkAnd(a->k[1], b), mkAnd(a->k[2], b));
    if (a->op == E_CONCAT) {
      int lw = a->k[1]->w;
      return mkConcat(mkAnd(a->k[0], mkConst(a->k[0]->w, b->c >> lw)), mkAnd(a->k[1], mkConst(lw, b->c)));
    }
    if (a->op == E_ZEXT) return mkZext(mkAnd(a->k[0], mkConst(a->k[0]->w, b->c)), w);
  } else {
    if (w == 1) {
      if (mkNot(a) == b) return mkConst(1, 0);
      if (a->op == E_AND && (a->k[0] == b || a->k[1] == b)) return a;
      if (b->op == E_AND && (b->k[0] == a || b->k[1] == a)) return b;
    }
    if (a->id > b->id) std::swap(a, b);
  }
  return mkNode(E_AND, w, a, b, nullptr, 0);
}
Expr* mkOr(Expr* a, Expr* b) {
  int w = a->w;
  if (a == b) return a;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(w, a->c | b->c);
    if (b->c == 0) return a;
    if (b->c == maskw(w)) return b;
    if (constArms(a)) return mkIte(a->k[0], mkOr(a->k[1], b), mkOr(a->k[2], b));
  } else {
    if (w == 1) {
      if (mkNot(a) == b) return mkConst(1, 1);
    }
    // disjoint concat
    auto lowZeros = [](Expr* e) { int n = 0; while (e->op == E_ZEXT) e = e->k[0]; Expr* x = e; while (x->op == E_CONCAT) { Expr* lo = x->k[1]; if (isC(lo) && lo->c == 0) { n = lo->w; } break; } return n; };
    auto highWidth = [](Expr* e) { return e->op == E_ZEXT ? (int)e->k[0]->w : (int)e->w; };
    int za = lowZeros(a), zb = lowZeros(b);
    if (zb && highWidth(a) <= zb) { std::swap(a, b); std::swap(za, zb); }
    if (za && highWidth(b) <= za) {
      Expr* hi = mkExtract(a, za, w - za);
      Expr* lo = mkExtract(b, 0, za);
      return mkConcat(hi, lo);
    }
    if (a->id > b->id) std::swap(a, b);
  }
  return mkNode(E_OR, w, a, b, nullptr, 0);
}
Expr* mkXor(Expr* a, Expr* b) {
  int w = a->w;
  if (a == b) return mkConst(w, 0);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(w, a->c ^ b->c);
    if (b->c == 0) return a;
    if (w == 1) return mkNot(a);
    if (a->op == E_XOR && isC(a->k[1])) return mkXor(a->k[0], mkConst(w, a->k[1]->c ^ b->c));
    if (constArms(a)) return mkIte(a->k[0], mkXor(a->k[1], b), mkXor(a->k[2], b));
  } else if (w == 1) return mkNot(mkEq(a, b));
  else if (a->id > b->id) std::swap(a, b);
  return mkNode(E_XOR, w, a, b, nullptr, 0);
}
Expr* mkShl(Expr* a, Expr* b) {
  int w = a->w;
  if (isC(b)) {
    if (b->c >= (u128)w) return mkConst(w, 0);
    int s = (int)b->c;
    if (s == 0) return a;
    if (isC(a)) return mkConst(w, a->c << s);
    return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0));
  }
  return mkNode(E_SHL, w, a, b, nullptr, 0);
}
Expr* mkLshr(Expr* a, Expr* b) {
  int w = a->w;
  if (isC(b)) {
    if (b->c >= (u128)w) return mkConst(w, 0);
    int s = (int)b->c;
    if (s == 0) return a;
    if (isC(a)) return mkConst(w, a->c >> s);
    return mkZext(mkExtract(a, s, w - s), w);
  }
  return mkNode(E_LSHR, w, a, b, nullptr, 0);
}
Expr* mkAshr(Expr* a, Expr* b) {
  int w = a->w;
  if (isC(b)) {
    int s = b->c >= (u128)w ? w - 1 : (int)b->c;
    if (s == 0) return a;
    return mkSext(mkExtract(a, s, w - s), w);
  }
  return mkNode(E_ASHR, w, a, b, nullptr, 0);
}
Expr* mkZext(Expr* a, int w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(w, a->c);
  if (a->op == E_ZEXT) return mkZext(a->k[0], w);
  if (constArms(a)) return mkIte(a->k[0], mkConst(w, a->k[1]->c), mkConst(w, a->k[2]->c));
  return mkNode(E_ZEXT, w, a, nullptr, nullptr, 0);
}
Expr* mkSext(Expr* a, int w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(w, (u128)sx(a->c, a->w));
  if (a->op == E_ZEXT && a->k[0]->w < a->w) return mkZext(a->k[0], w);
  if (a->op == E_SEXT) return mkSext(a->k[0], w);
  if (constArms(a)) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return mkNode(E_SEXT, w, a, nullptr, nullptr, 0);
}
Expr* mkExtract(Expr* a, int off, int w) {
  if (off == 0 && a->w == w) return a;
  if (isC(a)) return mkConst(w, a->c >> off);
  switch (a->op) {
    case E_EXTRACT: return mkExtract(a->k[0], off + (int)a->c, w);
    case E_ZEXT: {
      int iw = a->k[0]->w;
      if (off >= iw) return mkConst(w, 0);
      if (off + w <= iw) return mkExtract(a->k[0], off, w);
      return mkZext(mkExtract(a->k[0], off, iw - off), w);
    }
    case E_SEXT: {
      int iw = a->k[0]->w;
      if (off + w <= iw) return mkExtract(a->k[0], off, w);
      if (off < iw) return mkSext(mkExtract(a->k[0], off, iw - off), w);
      break;
    }
    case E_CONCAT: {
      int lw = a->k[1]->w;
      if (off >= lw) return mkExtract(a->k[0], off - lw, w);
      if (off + w <= lw) return mkExtract(a->k[1], off, w);
      return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off));
    }
    case E_AND: return mkAnd(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    case E_OR: return mkOr(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    case E_XOR: return mkXor(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    case E_ITE: if (constArms(a) || a->k[1]->op == E_ZEXT || a->k[2]->op == E_ZEXT || isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w)); break;
    case E_ADD: if (off == 0 && a->sv >= 0) return mkAdd(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case E_MUL: if (off == 0 && a->sv >= 0) return mkMul(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
  }
  return mkNode(E_EXTRACT, w, a, nullptr, nullptr, off);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  int w = hi->w + lo->w;
  if (isC(hi)) {
    if (isC(lo)) return mkConst(w, (hi->c << lo->w) | lo->c);
    if (hi->c == 0) return mkZext(lo, w);
  }
  // merge adjacent extracts
  if (hi->op == E_EXTRACT) {
    if (lo->op == E_EXTRACT && lo->k[0] == hi->k[0] && (int)hi->c == (int)lo->c + lo->w) return mkExtract(lo->k[0], (int)lo->c, w);
    if ((int)hi->c == lo->w && hi->k[0] == lo) return mkExtract(lo, 0, w);  // only if w<=lo->w, impossible but harmless
  }
  if (hi->op == E_ZEXT) return mkZext(mkConcat(hi->k[0], lo), w);
  if (hi->op == E_ITE && hi->sv < 0) {
    if (lo->op == E_ITE && lo->k[0] == hi->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
    if (lo->op == E_CONCAT && lo->k[0]->op == E_ITE && lo->k[0]->k[0] == hi->k[0]) return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
  }
  // right-assoc: Concat(Concat(a,b),c) -> Concat(a, Concat(b,c))
  if (hi->op == E_CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (lo->op == E_CONCAT && hi->op == E_EXTRACT && lo->k[0]->op == E_EXTRACT && lo->k[0]->k[0] == hi->k[0] && (int)hi->c == (int)lo->k[0]->c + lo->k[0]->w)
    return mkConcat(mkExtract(hi->k[0], (int)lo->k[0]->c, hi->w + lo->k[0]->w), lo->k[1]);
  if (isC(lo) && lo->c == 0 && false) {}
  return mkNode(E_CONCAT, w, hi, lo, nullptr, 0);
}
Expr* mkNot(Expr* a) {
  if (isC(a)) return mkConst(1, !a->c);
  if (a->op == E_XOR && isC(a->k[1]) && a->w == 1) return a->k[0];
  return mkNode(E_XOR, 1, a, mkConst(1, 1), nullptr, 0);
}
Expr* mkEq(Expr* a, Expr* b) {
  if (a == b) return mkConst(1, 1);
  if (isC(a)) std::swap(a, b);
  int w = a->w;
  if (isC(b)) {
    if (isC(a)) return mkConst(1, a->c == b->c);
    if (w == 1) return b->c ? a : mkNot(a);
    switch (a->op) {
      case E_ZEXT: if (b->c >> a->k[0]->w) return mkConst(1, 0); return mkEq(a->k[0], mkConst(a->k[0]->w, b->c));
      case E_SEXT: { u128 t = b->c & maskw(a->k[0]->w); if (((u128)sx(t, a->k[0]->w) & maskw(w)) != b->c) return mkConst(1, 0); return mkEq(a->k[0], mkConst(a->k[0]->w, t)); }
      case E_ADD: if (isC(a->k[1])) return mkEq(a->k[0], mkConst(w, b->c - a->k[1]->c)); 
        // x + (-y) == 0  ->  x == y
        if (b->c == 0) {
          for (int i = 0; i < 2; i++) { Expr* n = a->k[i]; if (n->op == E_MUL && isC(n->k[1]) && n->k[1]->c == maskw(w)) return mkEq(a->k[1 - i], n->k[0]); }
        }
        break;
      case E_MUL: if (isC(a->k[1]) && a->k[1]->c == maskw(w)) return mkEq(a->k[0], mkConst(w, -b->c)); break;
      case E_XOR: if (isC(a->k[1])) return mkEq(a->k[0], mkConst(w, b->c ^ a->k[1]->c));
        if (b->c == 0) return mkEq(a->k[0], a->k[1]);
        break;
      case E_CONCAT: return mkAnd(mkEq(a->k[0], mkConst(a->k[0]->w, b->c >> a->k[1]->w)), mkEq(a->k[1], mkConst(a->k[1]->w, b->c)));
      case E_ITE: if (isC(a->k[1]) || isC(a->k[2])) {
        Expr* x = mkEq(a->k[1], b); Expr* y = mkEq(a->k[2], b);
        return mkIte(a->k[0], x, y);
      } break;
      case E_OR: if (b->c == 0) return mkAnd(mkEq(a->k[0], b), mkEq(a->k[1], b)); break;
    }
  } else {
    if (a->op == E_ZEXT && b->op == E_ZEXT) {
      int m = std::max(a->k[0]->w, b->k[0]->w);
      if (m < w) return mkEq(mkZext(a->k[0], m), mkZext(b->k[0], m));
    }
    if (a->op == E_SEXT && b->op == E_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
    if (a->op == E_ADD && isC(a->k[1]) && b->op == E_ADD && isC(b->k[1])) return mkEq(a->k[0], mkAdd(b->k[0], mkConst(w, b->k[1]->c - a->k[1]->c)));
    if (a->op == E_ADD && b->op == E_ADD) {
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (a->k[i] == b->k[j]) return mkEq(a->k[1 - i], b->k[1 - j]);
    }
    if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[1]->w == b->k[1]->w) return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
    if (a->op == E_ITE && b->op == E_ITE && a->k[0] == b->k[0]) return mkIte(a->k[0], mkEq(a->k[1], b->k[1]), mkEq(a->k[2], b->k[2]));
    if (a->op == E_ITE && (a->k[1] == b || a->k[2] == b)) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
    if (b->op == E_ITE && (b->k[1] == a || b->k[2] == a)) return mkIte(b->k[0], mkEq(b->k[1], a), mkEq(b->k[2], a));
    if (a->id > b->id) std::swap(a, b);
  }
  return mkNode(E_EQ, 1, a, b, nullptr, 0);
}
Expr* mkUlt(Expr* a, Expr* b) {
  int w = a->w;
  if (a == b) return mkConst(1, 0);
  if (isC(a) && isC(b)) return mkConst(1, a->c < b->c);
  if (isC(b)) {
    if (b->c == 0) return mkConst(1, 0);
    if (b->c == 1) return mkEq(a, mkConst(w, 0));
    if (a->op == E_CONCAT) {   // hi:lo < C, split when only one part matters
      Expr *hi = a->k[0], *lo = a->k[1]; int lw = lo->w; u128 bh = b->c >> lw, bl = b->c & maskw(lw);
      if (bl == 0) return mkUlt(hi, mkConst(hi->w, bh));
      if (bh == 0) return mkAnd(mkEq(hi, mkConst(hi->w, 0)), mkUlt(lo, mkConst(lw, bl)));
    }
    if (a->op == E_ZEXT) { int iw = a->k[0]->w; if (b->c > maskw(iw)) return mkConst(1, 1); return mkUlt(a->k[0], mkConst(iw, b->c)); }
    if (a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
  }
  if (isC(a)) {
    if (a->c == maskw(w)) return mkConst(1, 0);
    if (a->c == 0) return mkNot(mkEq(b, mkConst(w, 0)));
    if (b->op == E_CONCAT) {   // C < hi:lo  ==  !(hi:lo < C + 1)
      Expr *hi = b->k[0], *lo = b->k[1]; int lw = lo->w; u128 c1 = a->c + 1, bh = c1 >> lw, bl = c1 & maskw(lw);
      if (bl == 0 || bh == 0) { (void)hi; return mkNot(mkUlt(b, mkConst(w, c1))); }
    }
    if (b->op == E_ZEXT) { int iw = b->k[0]->w; if (a->c >= maskw(iw)) return mkConst(1, 0); return mkUlt(mkConst(iw, a->c), b->k[0]); }
    if (b->op == E_ITE && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
  }
  if (a->op == E_ZEXT && b->op == E_ZEXT) { int m = std::max(a->k[0]->w, b->k[0]->w); if (m < w) return mkUlt(mkZext(a->k[0], m), mkZext(b->k[0], m)); }
  return mkNode(E_ULT, 1, a, b, nullptr, 0);
}
Expr* mkSlt(Expr* a, Expr* b) {
  int w = a->w;
  if (a == b) return mkConst(1, 0);
  if (isC(a) && isC(b)) return mkConst(1, sx(a->c, w) < sx(b->c, w));
  auto nonneg = [](Expr* e) { return isC(e) ? !(e->c >> (e->w - 1) & 1) : e->op == E_ZEXT && e->k[0]->w < e->w; };
  if (nonneg(a) && nonneg(b)) return mkUlt(a, b);
  if (nonneg(a) && isC(b)) return mkConst(1, 0);
  if (nonneg(b) && isC(a)) return mkConst(1, 1);
  if (a->op == E_SEXT && isC(b)) {
    int iw = a->k[0]->w; i128 v = sx(b->c, w);
    i128 lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
    if (v <= lo) return mkConst(1, 0);
    if (v > hi) return mkConst(1, 1);
    return mkSlt(a->k[0], mkConst(iw, (u128)v));
  }
  if (b->op == E_SEXT && isC(a)) {
    int iw = b->k[0]->w; i128 v = sx(a->c, w);
    i128 lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
    if (v < lo) return mkConst(1, 1);
    if (v >= hi) return mkConst(1, 0);
    return mkSlt(mkConst(iw, (u128)v), b->k[0]);
  }
  if (a->op == E_ITE && isC(b) && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
  if (b->op == E_ITE && isC(a) && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
  return mkNode(E_SLT, 1, a, b, nullptr, 0);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == E_XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == E_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == E_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (b->op == E_ITE && b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
  return mkNode(E_ITE, a->w, c, a, b, 0);
}
Expr* mkDomain(int var, const TT& t) {
  static std::unordered_map<TT, std::vector<std::pair<int, Expr*>>, TTHash> cache;
  auto& v = cache[t];
  for (auto& p : v) if (p.first == var) return p.second;
  Expr* x = mkVar(var);
  Expr* r = mkConst(1, 0);
  for (int i = 0; i < 256;) {
    if (!t.test(i)) { i++; continue; }
    int j = i; while (j + 1 < 256 && t.test(j + 1)) j++;
    Expr* p;
    if (i == j) p = mkEq(x, mkConst(8, i));
    else {
      p = mkConst(1, 1);
      if (i > 0) p = mkAnd(p, mkUlt(mkConst(8, i - 1), x));
      if (j < 255) p = mkAnd(p, mkUlt(x, mkConst(8, j + 1)));
    }
    r = mkOr(r, p);
    i = j + 1;
  }
  v.push_back({var, r});
  return r;
}

u128 evalExpr(Expr* e, const u8* m, u64 ep) {
  if (e->op == E_CONST) return e->c;
  if (e->op == E_VAR) return m[(int)e->c];
  if (e->evEpoch == ep) return e->ev;
  u128 r;
  if (e->tab) r = e->tab[m[e->sv]];
  else if (e->op == E_ITE) r = evalExpr(e->k[0], m, ep) ? evalExpr(e->k[1], m, ep) : evalExpr(e->k[2], m, ep);
  else {
    u128 a = e->k[0] ? evalExpr(e->k[0], m, ep) : 0;
    u128 b = e->k[1] ? evalExpr(e->k[1], m, ep) : 0;
    if (e->op == E_CONCAT) r = (a << e->k[1]->w) | b;
    else r = evalOp(e->op, e->w, e->k[0]->w, a, b, 0, e->c);
  }
  e->evEpoch = ep; e->ev = r;
  return r;
}


void rangeExpr(Expr* e, const TT* dom, u64 ep, u128& lo, u128& hi) {
  if (e->op == E_CONST) { lo = hi = e->c; return; }
  if (e->rgEpoch == ep) { lo = e->rlo; hi = e->rhi; return; }
  u128 m = maskw(e->w); lo = 0; hi = m;
  if (e->tab && e->sv >= 0) {
    const TT& d = dom[e->sv]; u64 a = ~0ull, b = 0;
    for (int wd = 0; wd < 4; wd++) { u64 x = d.b[wd]; while (x) { int i = wd * 64 + __builtin_ctzll(x); x &= x - 1; u64 v = e->tab[i]; if (v < a) a = v; if (v > b) b = v; } }
    if (a <= b) { lo = a; hi = b; }
  } else {
    u128 al, ah, bl, bh; Expr *x = e->k[0], *y = e->k[1];
    auto RA = [&] { rangeExpr(x, dom, ep, al, ah); };
    auto RB = [&] { rangeExpr(y, dom, ep, bl, bh); };
    switch (e->op) {
      case E_ADD: RA(); RB(); if (e->w < 127) { u128 sl = al + bl, sh = ah + bh; if ((sl >> e->w) == (sh >> e->w)) { lo = sl & m; hi = sh & m; } } break;
      case E_MUL: RA(); RB();
        if (e->w <= 64) {
          if (isC(y) && y->c == m) { if (al >= 1) { lo = (m - ah) + 1; hi = (m - al) + 1; } else if (ah == 0) { lo = hi = 0; } }
          else if (bh == 0 || ah <= m / bh) { lo = al * bl; hi = ah * bh; }
        }
        break;
      case E_ZEXT: RA(); lo = al; hi = ah; break;
      case E_SEXT: RA(); { u128 half = (u128)1 << (x->w - 1); if (ah < half) { lo = al; hi = ah; } else if (al >= half) { u128 add = m & ~maskw(x->w); lo = al | add; hi = ah | add; } } break;
      case E_EXTRACT: RA(); { int o = (int)e->c; al >>= o; ah >>= o; if (ah <= m) { lo = al; hi = ah; } } break;
      case E_CONCAT: RA(); RB(); lo = (al << y->w) | bl; hi = (ah << y->w) | bh; break;
      case E_AND: RA(); RB(); if (e->w == 1) { lo = al & bl; hi = ah & bh; } else { lo = 0; hi = ah < bh ? ah : bh; } break;
      case E_OR: RA(); RB(); if (e->w == 1) { lo = al | bl; hi = ah | bh; } else { lo = al > bl ? al : bl; u128 t = ah | bh; int k = 0; while (t) { k++; t >>= 1; } hi = maskw(k); } break;
      case E_XOR: RA(); RB(); if (e->w == 1) { if (al == ah && bl == bh) lo = hi = al ^ bl; } break;
      case E_EQ: RA(); RB(); if (ah < bl || bh < al) lo = hi = 0; else if (al == ah && bl == bh) lo = hi = (al == bl); break;
      case E_ULT: RA(); RB(); if (ah < bl) lo = hi = 1; else if (al >= bh) lo = hi = 0; break;
      case E_SLT: RA(); RB(); { u128 half = (u128)1 << (x->w - 1); bool ok = (ah < half || al >= half) && (bh < half || bl >= half);
        if (ok) { i128 A = sx(al, x->w), B = sx(ah, x->w), C = sx(bl, x->w), D = sx(bh, x->w); if (B < C) lo = hi = 1; else if (A >= D) lo = hi = 0; } } break;
      case E_ITE: { RA(); if (al == ah) { rangeExpr(al ? e->k[1] : e->k[2], dom, ep, lo, hi); } else { u128 cl, ch; RB(); rangeExpr(e->k[2], dom, ep, cl, ch); lo = bl < cl ? bl : cl; hi = bh > ch ? bh : ch; } } break;
      case E_UDIV: RA(); RB(); if (bl) { lo = al / bh; hi = ah / bl; } break;
      case E_UREM: RA(); RB(); if (bl) { hi = bh - 1; if (ah < hi) hi = ah; } break;
      default: break;
    }
  }
  e->rgEpoch = ep; e->rlo = lo; e->rhi = hi;
}
Expr* restrictExpr(Expr* e, const TT* dom) {
  if (e->sv < 0 || !e->tab || e->op == E_VAR) return e;
  const TT& d = dom[e->sv];
  bool cst = true, lin = e->w >= 8; int f = d.first(); u64 v0 = e->tab[f], mk = e->w >= 64 ? ~0ull : (1ull << e->w) - 1; u64 l0 = (v0 - f) & mk;
  for (int wd = 0; wd < 4 && (cst || lin); wd++) { u64 x = d.b[wd]; while (x) { int i = wd * 64 + __builtin_ctzll(x); x &= x - 1; u64 v = e->tab[i]; if (v != v0) cst = false; if (lin && ((v - i) & mk) != l0) lin = false; } }
  if (cst) return mkConst(e->w, v0);
  if (lin && e->depth > 1) return mkAdd(mkZext(mkVar(e->sv), e->w), mkConst(e->w, l0));
  return e;
}
static Z3_ast z3const(Z3_context c, int w, u128 v) {
  if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, Z3_mk_bv_sort(c, w));
  char buf[64]; int i = 63; buf[i] = 0; if (v == 0) buf[--i] = '0';
  while (v) { buf[--i] = '0' + (int)(v % 10); v /= 10; }
  return Z3_mk_numeral(c, buf + i, Z3_mk_bv_sort(c, w));
}
// Width-1 expressions are Z3 Bools; wider ones are bit-vectors.
static Z3_ast asBV(Z3_context c, Expr* e) {
  Z3_ast a = toZ3(c, e);
  if (e->w == 1) return Z3_mk_ite(c, a, z3const(c, 1, 1), z3const(c, 1, 0));
  return a;
}
static Z3_ast asBool1(Z3_context c, Z3_ast bv) { return Z3_mk_eq(c, bv, z3const(c, 1, 1)); }
Z3_ast toZ3(Z3_context c, Expr* e) {
  if (e->z) return e->z;
  Z3_ast r = nullptr;
  Expr *a = e->k[0], *b = e->k[1];
  bool bo = e->w == 1;
  switch (e->op) {
    case E_CONST: r = bo ? (e->c ? Z3_mk_true(c) : Z3_mk_false(c)) : z3const(c, e->w, e->c); break;
    case E_VAR: { char n[32]; snprintf(n, 32, "b%d", (int)e->c); r = Z3_mk_const(c, Z3_mk_string_symbol(c, n), Z3_mk_bv_sort(c, 8)); break; }
    case E_AND: if (bo) { Z3_ast x[2] = {toZ3(c, a), toZ3(c, b)}; r = Z3_mk_and(c, 2, x); } else r = Z3_mk_bvand(c, toZ3(c, a), toZ3(c, b)); break;
    case E_OR: if (bo) { Z3_ast x[2] = {toZ3(c, a), toZ3(c, b)}; r = Z3_mk_or(c, 2, x); } else r = Z3_mk_bvor(c, toZ3(c, a), toZ3(c, b)); break;
    case E_XOR: if (bo) { r = isC(b) ? Z3_mk_not(c, toZ3(c, a)) : Z3_mk_xor(c, toZ3(c, a), toZ3(c, b)); } else r = Z3_mk_bvxor(c, toZ3(c, a), toZ3(c, b)); break;
    case E_EQ: r = Z3_mk_eq(c, toZ3(c, a), toZ3(c, b)); break;
    case E_ULT: r = Z3_mk_bvult(c, asBV(c, a), asBV(c, b)); break;
    case E_SLT: r = Z3_mk_bvslt(c, asBV(c, a), asBV(c, b)); break;
    case E_ITE: r = Z3_mk_ite(c, toZ3(c, a), toZ3(c, b), toZ3(c, e->k[2])); break;
    case E_ZEXT: if (a->w == 1) r = Z3_mk_ite(c, toZ3(c, a), z3const(c, e->w, 1), z3const(c, e->w, 0)); else r = Z3_mk_zero_ext(c, e->w - a->w, toZ3(c, a)); break;
    case E_SEXT: if (a->w == 1) r = Z3_mk_ite(c, toZ3(c, a), z3const(c, e->w, maskw(e->w)), z3const(c, e->w, 0)); else r = Z3_mk_sign_ext(c, e->w - a->w, toZ3(c, a)); break;
    case E_EXTRACT: { Z3_ast x = Z3_mk_extract(c, (int)e->c + e->w - 1, (int)e->c, asBV(c, a)); r = bo ? asBool1(c, x) : x; break; }
    case E_CONCAT: r = Z3_mk_concat(c, asBV(c, a), asBV(c, b)); break;
    default: {
      Z3_ast x = asBV(c, a), y = asBV(c, b);
      switch (e->op) {
        case E_ADD: r = Z3_mk_bvadd(c, x, y); break;
        case E_MUL: r = Z3_mk_bvmul(c, x, y); break;
        case E_UDIV: r = Z3_mk_bvudiv(c, x, y); break;
        case E_SDIV: r = Z3_mk_bvsdiv(c, x, y); break;
        case E_UREM: r = Z3_mk_bvurem(c, x, y); break;
        case E_SREM: r = Z3_mk_bvsrem(c, x, y); break;
        case E_SHL: r = Z3_mk_bvshl(c, x, y); break;
        case E_LSHR: r = Z3_mk_bvlshr(c, x, y); break;
        case E_ASHR: r = Z3_mk_bvashr(c, x, y); break;
        default: abort();
      }
      if (bo) r = asBool1(c, r);
    }
  }

  e->z = r;
  return r;
}
void printExpr(FILE* f, Expr* e, int depth) {
  static const char* nm[] = {"c", "v", "+", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "zext", "sext", "ext", "cat", "==", "<u", "<s", "ite"};
  if (e->op == E_CONST) { fprintf(f, "%llu:%d", (unsigned long long)e->c, e->w); return; }
  if (e->op == E_VAR) { fprintf(f, "b%d", (int)e->c); return; }
  if (depth <= 0) { fprintf(f, "..."); return; }
  fprintf(f, "(%s", nm[e->op]);
  if (e->op == E_EXTRACT) fprintf(f, "[%d+%d]", (int)e->c, e->w);
  if (e->op == E_ZEXT || e->op == E_SEXT) fprintf(f, "%d", e->w);
  for (int i = 0; i < 3; i++) if (e->k[i]) { fprintf(f, " "); printExpr(f, e->k[i], depth - 1); }
  fprintf(f, ")");
}
