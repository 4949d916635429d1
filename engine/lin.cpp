// Simplification of expressions under byte domains: integer-linear normal forms over the input bytes.
// simpExpr(e) is equal to e for every assignment inside the domains; the solver sees the simplified query.
#include "expr.h"
#include <map>
#include <algorithm>
typedef std::map<u32, std::pair<Expr*, i128>> Terms;   // keyed by expression id for determinism
struct Lin { Terms t; i128 c = 0; };
static const TT* g_dom; static u64 g_ep;
static std::unordered_map<Expr*, Expr*> g_memo;
static std::unordered_map<Expr*, Lin> g_lmemo;
static u64 g_memoEp = ~0ull;
static Expr* simp(Expr* e);
static i128 red(i128 v, int w) { if (w >= 128) return v; u128 x = (u128)v & maskw(w); return sx(x, w); }
static void reduce(Lin& l, int w) { for (auto it = l.t.begin(); it != l.t.end();) { it->second.second = red(it->second.second, w); if (it->second.second == 0) it = l.t.erase(it); else ++it; } l.c = red(l.c, w); }
static bool interval(const Lin& l, i128& lo, i128& hi, bool withConst = true) {
  lo = hi = withConst ? l.c : 0;
  for (auto& p : l.t) {
    u128 a, b; rangeExpr(p.second.first, g_dom, g_ep, a, b);
    if (b >> 100) return false;
    i128 k = p.second.second, x, y;
    if (__builtin_mul_overflow(k, (i128)(k > 0 ? a : b), &x) || __builtin_mul_overflow(k, (i128)(k > 0 ? b : a), &y)) return false;
    if (__builtin_add_overflow(lo, x, &lo) || __builtin_add_overflow(hi, y, &hi)) return false;
  }
  return true;
}
static i128 fdiv(i128 a, int w) { return a >> w; }   // arithmetic shift = floor
// make the integer value of l lie in [base, base+2^w); false when its range straddles a boundary
static bool norm(Lin& l, int w, bool sgn = false) {
  if (w > 90) return false;
  i128 lo, hi; if (!interval(l, lo, hi)) return false;
  i128 off = sgn ? (i128)1 << (w - 1) : 0; i128 k = fdiv(lo + off, w); if (fdiv(hi + off, w) != k) return false;
  l.c -= k << w; return true;
}
static void addTo(Lin& a, const Lin& b, i128 k) { for (auto& p : b.t) { auto& r = a.t[p.first]; r.first = p.second.first; r.second = (i128)((u128)r.second + (u128)p.second.second * (u128)k); } a.c = (i128)((u128)a.c + (u128)b.c * (u128)k); }
static Lin atom(Expr* e) { Lin l; if (isC(e)) l.c = (i128)e->c; else { while (e->op == E_ZEXT) e = e->k[0]; l.t[e->id] = {e, 1}; } return l; }
// l = r + 2^k q with 0 <= r < 2^k
static bool peel(const Lin& l, int k, Lin& r, Lin& q) {
  if (k > 90) return false;
  r = Lin(); q = Lin(); i128 m = ((i128)1 << k) - 1;
  for (auto& p : l.t) { i128 c = p.second.second, a = c & m; if (a) r.t[p.first] = {p.second.first, a}; if (c - a) q.t[p.first] = {p.second.first, (c - a) >> k}; }
  i128 vl, vh; if (!interval(r, vl, vh, false)) return false;
  i128 c0 = l.c & m; i128 s = (vl + c0) >> k; c0 -= s << k;
  if (vl + c0 < 0 || vh + c0 > m) return false;
  r.c = c0; q.c = (l.c - c0) >> k; return true;
}
static Expr* fit(Expr* a, int w) { return a->w < w ? mkZext(a, w) : a->w > w ? mkExtract(a, 0, w) : a; }
static Expr* build(const Lin& l, int w) {
  Expr* s = nullptr;
  for (auto& p : l.t) { i128 k = red(p.second.second, w); if (!k) continue; Expr* x = fit(p.second.first, w); if (k != 1) x = mkMul(x, mkConst(w, (u128)k & maskw(w))); s = s ? mkAdd(s, x) : x; }
  Expr* c = mkConst(w, (u128)l.c & maskw(w));
  return s ? (l.c ? mkAdd(s, c) : s) : c;
}
static Lin lin(Expr* e);
static Lin linRaw(Expr* e) {
  int w = e->w; Lin l, x, y;
  if (isC(e)) { l.c = (i128)e->c; reduce(l, w); return l; }
  if (w > 90) return atom(simp(e));
  { u128 lo, hi; rangeExpr(e, g_dom, g_ep, lo, hi); if (lo == hi) { l.c = (i128)lo; reduce(l, w); return l; } }
  if (e->sv >= 0 && e->tab && e->op != E_VAR) {
    // affine in its byte over the domain?
    const TT& d = g_dom[e->sv]; int i0 = -1, i1 = -1; for (int i = 0; i < 256 && i1 < 0; i++) if (d.test(i)) { if (i0 < 0) i0 = i; else i1 = i; }
    if (i1 == i0 + 1) {
      u64 mk = w >= 64 ? ~0ull : (1ull << w) - 1, k = (e->tab[i1] - e->tab[i0]) & mk, c = (e->tab[i0] - k * (u64)i0) & mk; bool ok = true;
      for (int i = i1; i < 256 && ok; i++) if (d.test(i) && ((k * (u64)i + c) & mk) != e->tab[i]) ok = false;
      if (ok) { Expr* v = mkVar(e->sv); l.t[v->id] = {v, (i128)(u128)k}; l.c = (i128)(u128)c; reduce(l, w); return l; }
    }
    if (e->op != E_MUL && e->op != E_ADD && e->op != E_ZEXT && e->op != E_SHL) return atom(e);   // those decompose below
  }
  auto fallback = [&](Expr* z) { return atom(z); };
  switch (e->op) {
    case E_ADD: l = lin(e->k[0]); addTo(l, lin(e->k[1]), 1); reduce(l, w); return l;
    case E_MUL: { x = lin(e->k[0]); y = lin(e->k[1]); if (y.t.empty()) { addTo(l, x, y.c); reduce(l, w); return l; } if (x.t.empty()) { addTo(l, y, x.c); reduce(l, w); return l; } return fallback(mkMul(build(x, w), build(y, w))); }
    case E_ZEXT: l = lin(e->k[0]); if (norm(l, e->k[0]->w)) return l; return atom(build(l, e->k[0]->w));
    case E_SEXT: l = lin(e->k[0]); if (norm(l, e->k[0]->w, true)) { reduce(l, w); return l; } return fallback(mkSext(build(l, e->k[0]->w), w));
    case E_EXTRACT: {
      int off = (int)e->c; if (e->k[0]->w > 90) return fallback(mkExtract(simp(e->k[0]), off, w));
      x = lin(e->k[0]); if (off == 0) { l = x; reduce(l, w); return l; }
      Lin nx = x; if (norm(nx, e->k[0]->w)) { Lin r, q; if (peel(nx, off, r, q)) { reduce(q, w); return q; } }
      return fallback(mkExtract(build(x, e->k[0]->w), off, w)); }
    case E_CONCAT: { int lw = e->k[1]->w; x = lin(e->k[0]); y = lin(e->k[1]); if (!norm(y, lw)) y = atom(build(y, lw)); l = y; addTo(l, x, (i128)1 << lw); reduce(l, w); return l; }
    case E_SHL: if (isC(e->k[1])) { if (e->k[1]->c >= (u128)w) return l; addTo(l, lin(e->k[0]), (i128)1 << (int)e->k[1]->c); reduce(l, w); return l; } break;
    case E_LSHR: if (isC(e->k[1])) { if (e->k[1]->c >= (u128)w) return l; x = lin(e->k[0]); Lin nx = x; if (norm(nx, w)) { Lin r, q; if (peel(nx, (int)e->k[1]->c, r, q)) return q; } return fallback(mkLshr(build(x, w), e->k[1])); } break;
    case E_XOR: if (isC(e->k[1]) && e->k[1]->c == maskw(w)) { addTo(l, lin(e->k[0]), -1); l.c -= 1; reduce(l, w); return l; } break;
    case E_AND: {
      Expr *a = e->k[0], *m = e->k[1]; if (isC(a)) std::swap(a, m);
      if (!isC(m) || w > 64) break;
      if (a->op == E_OR) return lin(mkOr(mkAnd(a->k[0], m), mkAnd(a->k[1], m)));
      x = lin(a); Lin nx = x, acc; if (!norm(nx, w)) return fallback(mkAnd(build(x, w), m));
      int p = 0; bool ok = true; Lin cur = nx; u64 mk = (u64)m->c;
      while (p < w) {
        int b = mk >> p & 1, len = 1; while (p + len < w && (int)(mk >> (p + len) & 1) == b) len++;
        if (p + len >= w) { if (b) addTo(acc, cur, (i128)1 << p); break; }
        Lin r, q; if (!peel(cur, len, r, q)) { ok = false; break; }
        if (b) addTo(acc, r, (i128)1 << p);
        cur = q; p += len;
      }
      if (ok) { reduce(acc, w); return acc; }
      return fallback(mkAnd(build(x, w), m)); }
    case E_OR: {
      x = lin(e->k[0]); y = lin(e->k[1]); Lin nx = x, ny = y;
      if (norm(nx, w) && norm(ny, w)) for (int s = 0; s < 2; s++) {
        i128 lo, hi; if (interval(ny, lo, hi) && lo >= 0) { int k = 0; while (k < 64 && (hi >> k)) k++; i128 m = ((i128)1 << k) - 1; bool div = !(nx.c & m); for (auto& p : nx.t) if (p.second.second & m) div = false; if (div) { l = nx; addTo(l, ny, 1); reduce(l, w); return l; } }
        std::swap(nx, ny);
      }
      return fallback(mkOr(build(x, w), build(y, w))); }
    case E_ITE: { Expr* c = simp(e->k[0]); if (isC(c)) return lin(c->c ? e->k[1] : e->k[2]); Expr *a = simp(e->k[1]), *b = simp(e->k[2]); if (a == b) return lin(a); Expr* z = mkIte(c, a, b); return fallback(z); }
    case E_VAR: return atom(e);
    default: break;
  }
  Expr *a = e->k[0] ? simp(e->k[0]) : nullptr, *b = e->k[1] ? simp(e->k[1]) : nullptr;
  switch (e->op) {
    case E_AND: return fallback(mkAnd(a, b)); case E_XOR: return fallback(mkXor(a, b)); case E_SHL: return fallback(mkShl(a, b)); case E_LSHR: return fallback(mkLshr(a, b)); case E_ASHR: return fallback(mkAshr(a, b));
    case E_UDIV: case E_SDIV: case E_UREM: case E_SREM: return fallback(mkBin(e->op, a, b));
    default: return fallback(e);
  }
}
static Lin lin(Expr* e) { auto it = g_lmemo.find(e); if (it != g_lmemo.end()) return it->second; Lin l = linRaw(e); g_lmemo[e] = l; return l; }
static Expr* simpRaw(Expr* e) {
  if (isC(e)) return e;
  { u128 lo, hi; rangeExpr(e, g_dom, g_ep, lo, hi); if (lo == hi) return mkConst(e->w, lo); }
  if (e->sv >= 0 && e->tab) return restrictExpr(e, g_dom);
  if (e->w == 1) {
    switch (e->op) {
      case E_AND: return mkAnd(simp(e->k[0]), simp(e->k[1]));
      case E_OR: return mkOr(simp(e->k[0]), simp(e->k[1]));
      case E_XOR: return mkXor(simp(e->k[0]), simp(e->k[1]));
      case E_ITE: return mkIte(simp(e->k[0]), simp(e->k[1]), simp(e->k[2]));
      case E_EQ: case E_ULT: case E_SLT: {
        Expr *a = e->k[0], *b = e->k[1]; int w = a->w; if (w == 1 || w > 90) { a = simp(a); b = simp(b); return e->op == E_EQ ? mkEq(a, b) : e->op == E_ULT ? mkUlt(a, b) : mkSlt(a, b); }
        Lin x = lin(a), y = lin(b);
        if (e->op == E_EQ) {
          Lin d = x; addTo(d, y, -1); reduce(d, w);
          if (d.t.empty()) return mkConst(1, d.c == 0);
          i128 lo, hi; if (interval(d, lo, hi) && fdiv(lo - 1, w) == fdiv(hi, w)) return mkConst(1, 0);   // no multiple of 2^w in the range
          return mkEq(build(x, w), build(y, w));
        }
        bool sg = e->op == E_SLT; Lin nx = x, ny = y;
        if (norm(nx, w, sg) && norm(ny, w, sg)) {
          Lin d = nx; addTo(d, ny, -1); i128 lo, hi; for (auto it = d.t.begin(); it != d.t.end();) if (!it->second.second) it = d.t.erase(it); else ++it;
          if (interval(d, lo, hi)) { if (hi < 0) return mkConst(1, 1); if (lo >= 0) return mkConst(1, 0); }
        }
        return sg ? mkSlt(build(x, w), build(y, w)) : mkUlt(build(x, w), build(y, w)); }
      case E_EXTRACT: { Expr* a = e->k[0]; if (a->w <= 90) return mkExtract(build(lin(a), a->w), (int)e->c, 1); return e; }
      default: return e;
    }
  }
  if (e->w > 90) {
    switch (e->op) {
      case E_ADD: return mkAdd(simp(e->k[0]), simp(e->k[1])); case E_MUL: return mkMul(simp(e->k[0]), simp(e->k[1]));
      case E_ZEXT: return mkZext(simp(e->k[0]), e->w); case E_SEXT: return mkSext(simp(e->k[0]), e->w);
      case E_CONCAT: return mkConcat(simp(e->k[0]), simp(e->k[1]));
      case E_ITE: return mkIte(simp(e->k[0]), simp(e->k[1]), simp(e->k[2]));
      default: return e;
    }
  }
  return build(lin(e), e->w);
}
static Expr* simp(Expr* e) { auto it = g_memo.find(e); if (it != g_memo.end()) return it->second; Expr* r = simpRaw(e); g_memo[e] = r; return r; }
Expr* simpExpr(Expr* e, const TT* dom, u64 ep) {
  if (ep != g_memoEp) { g_memo.clear(); g_lmemo.clear(); g_memoEp = ep; }
  g_dom = dom; g_ep = ep;
  return simp(e);
}

// ------------------------------------------------------------------ exact integer encoding of a query
// Bytes become integers 0..255, machine arithmetic becomes linear integer arithmetic with explicit wrap-around counters.
static Z3_context g_zc; static std::vector<Z3_ast>* g_side; static int g_fresh; static bool g_fail;
#define LFAIL (g_fail = true, getenv("VK_LDBG") && fprintf(stderr, "lia fail line %d\n", __LINE__))
static std::unordered_map<Expr*, Z3_ast> g_tmemo, g_bmemo;
// A byte that a query only uses through one function f (others factor through it) is replaced by an integer t = f(byte) when f's image is an interval.
struct Use { std::vector<Expr*> ex; bool raw = false; };
struct Repl { Expr* f; i128 lo, hi; };
static std::unordered_map<int, Use> g_use; static std::unordered_map<int, Repl> g_repl;
static void noteUse(int v, Expr* e) { Use& u = g_use[v]; for (Expr* x : u.ex) if (x == e) return; u.ex.push_back(e); }
static Z3_ast zi(i128 v) { char b[64]; int i = 63; b[i] = 0; bool n = v < 0; u128 u = n ? (u128)0 - (u128)v : (u128)v; if (!u) b[--i] = '0'; while (u) { b[--i] = '0' + (int)(u % 10); u /= 10; } if (n) b[--i] = '-'; return Z3_mk_numeral(g_zc, b + i, Z3_mk_int_sort(g_zc)); }
static Z3_ast zfresh(const char* p) { char b[32]; snprintf(b, 32, "%s%d", p, g_fresh++); return Z3_mk_const(g_zc, Z3_mk_string_symbol(g_zc, b), Z3_mk_int_sort(g_zc)); }
Z3_ast liaVar(Z3_context c, int v) { char n[32]; snprintf(n, 32, "i%d", v); return Z3_mk_const(c, Z3_mk_string_symbol(c, n), Z3_mk_int_sort(c)); }
static Z3_ast zand(const std::vector<Z3_ast>& v) { return v.size() == 1 ? v[0] : Z3_mk_and(g_zc, v.size(), v.data()); }
static Z3_ast liaDom(int v, const TT& t) {
  std::vector<Z3_ast> ors; Z3_ast x = liaVar(g_zc, v);
  for (int i = 0; i < 256;) { if (!t.test(i)) { i++; continue; } int j = i; while (j + 1 < 256 && t.test(j + 1)) j++; Z3_ast a[2] = {Z3_mk_ge(g_zc, x, zi(i)), Z3_mk_le(g_zc, x, zi(j))}; ors.push_back(i == j ? Z3_mk_eq(g_zc, x, zi(i)) : Z3_mk_and(g_zc, 2, a)); i = j + 1; }
  if (ors.empty()) return Z3_mk_false(g_zc);
  return ors.size() == 1 ? ors[0] : Z3_mk_or(g_zc, ors.size(), ors.data());
}
static Z3_ast boolT(Expr* e);
static Z3_ast uval(Expr* e);          // unsigned value of e
static Z3_ast sumT(const Lin& l) {
  std::vector<Z3_ast> s; if (l.c || l.t.empty()) s.push_back(zi(l.c));
  for (auto& p : l.t) { Z3_ast x = uval(p.second.first); if (g_fail) return x; if (p.second.second != 1) { Z3_ast m[2] = {zi(p.second.second), x}; x = Z3_mk_mul(g_zc, 2, m); } s.push_back(x); }
  return s.size() == 1 ? s[0] : Z3_mk_add(g_zc, s.size(), s.data());
}
// value of l reduced into [-off, 2^w-off)
static Z3_ast modT(Lin l, int w, bool sgn) {
  if (norm(l, w, sgn)) return sumT(l);
  i128 lo, hi; if (w > 90 || !interval(l, lo, hi)) { LFAIL; return nullptr; }
  i128 off = sgn ? (i128)1 << (w - 1) : 0;
  Z3_ast s = sumT(l); if (g_fail) return s;
  Z3_ast k = zfresh("k"); Z3_ast m[2] = {zi((i128)1 << w), k}; Z3_ast d[2] = {s, Z3_mk_mul(g_zc, 2, m)}; Z3_ast r = Z3_mk_sub(g_zc, 2, d);
  g_side->push_back(Z3_mk_ge(g_zc, r, zi(-off))); g_side->push_back(Z3_mk_lt(g_zc, r, zi(((i128)1 << w) - off)));
  g_side->push_back(Z3_mk_ge(g_zc, k, zi(fdiv(lo + off, w)))); g_side->push_back(Z3_mk_le(g_zc, k, zi(fdiv(hi + off, w))));
  return r;
}
static Z3_ast divT(Z3_ast x, i128 d, Z3_ast* rem) { Z3_ast q = zfresh("q"), r = zfresh("r"); Z3_ast m[2] = {zi(d), q}; Z3_ast a[2] = {Z3_mk_mul(g_zc, 2, m), r}; g_side->push_back(Z3_mk_eq(g_zc, x, Z3_mk_add(g_zc, 2, a))); g_side->push_back(Z3_mk_ge(g_zc, r, zi(0))); g_side->push_back(Z3_mk_lt(g_zc, r, zi(d))); if (rem) *rem = r; return q; }
static Z3_ast uvalRaw(Expr* e) {
  if (isC(e)) return zi((i128)e->c);
  if (e->op == E_VAR) { g_use[(int)e->c].raw = true; return liaVar(g_zc, (int)e->c); }
  if (e->w > 90) { LFAIL; return nullptr; }
  if (e->w == 1) { Z3_ast c = boolT(e); if (g_fail) return c; return Z3_mk_ite(g_zc, c, zi(1), zi(0)); }
  if (e->sv >= 0 && e->tab) {   // piecewise affine in one byte
    Lin l = lin(e); if (!(l.t.size() == 1 && l.t.begin()->second.first == e)) return modT(l, e->w, false);
    noteUse(e->sv, e);
    const TT& d = g_dom[e->sv]; Z3_ast v = liaVar(g_zc, e->sv), r = zi(0);
    auto rp = g_repl.find(e->sv);
    if (rp != g_repl.end()) {   // v stands for t = f(byte)
      if (rp->second.f == e) return v;
      std::map<i128, i128> im; for (int i = 0; i < 256; i++) if (d.test(i)) im[(i128)rp->second.f->tab[i]] = (i128)e->tab[i];
      std::vector<std::array<i128, 4>> sg;   // lo, hi, slope, offset
      for (auto it = im.begin(); it != im.end();) { auto j = it; auto n = std::next(j); i128 k = 0; if (n != im.end() && n->first == j->first + 1) { k = n->second - j->second; j = n; n = std::next(j); while (n != im.end() && n->first == j->first + 1 && n->second - j->second == k) { j = n; n = std::next(j); } } sg.push_back({it->first, j->first, k, it->second - k * it->first}); it = std::next(j); }
      if (sg.size() > 64) { LFAIL; return nullptr; }
      for (size_t i = sg.size(); i-- > 0;) { Z3_ast m[2] = {zi(sg[i][2]), v}; Z3_ast a[2] = {Z3_mk_mul(g_zc, 2, m), zi(sg[i][3])}; Z3_ast val = Z3_mk_add(g_zc, 2, a); r = i + 1 == sg.size() ? val : Z3_mk_ite(g_zc, Z3_mk_le(g_zc, v, zi(sg[i][1])), val, r); }
      return r;
    }
     std::vector<std::array<int, 2>> seg; std::vector<std::pair<i128, i128>> kc;
    for (int i = 0; i < 256;) {
      if (!d.test(i)) { i++; continue; }
      int j = i; i128 k = 0; if (i < 255 && d.test(i + 1)) { k = (i128)e->tab[i + 1] - (i128)e->tab[i]; j = i + 1; while (j < 255 && d.test(j + 1) && (i128)e->tab[j + 1] - (i128)e->tab[j] == k) j++; }
      seg.push_back({i, j}); kc.push_back({k, (i128)e->tab[i] - k * i}); i = j + 1;
    }
    if (seg.size() > 64) { LFAIL; return nullptr; }
    for (size_t i = seg.size(); i-- > 0;) { Z3_ast m[2] = {zi(kc[i].first), v}; Z3_ast a[2] = {Z3_mk_mul(g_zc, 2, m), zi(kc[i].second)}; Z3_ast val = Z3_mk_add(g_zc, 2, a); r = i + 1 == seg.size() ? val : Z3_mk_ite(g_zc, Z3_mk_le(g_zc, v, zi(seg[i][1])), val, r); }
    return r;
  }
  Lin l = lin(e);
  if (!(l.t.size() == 1 && l.t.begin()->second.first == e)) return modT(l, e->w, false);
  switch (e->op) {
    case E_ITE: { Z3_ast c = boolT(e->k[0]); if (g_fail) return c; Z3_ast a = uval(e->k[1]); if (g_fail) return a; Z3_ast b = uval(e->k[2]); if (g_fail) return b; return Z3_mk_ite(g_zc, c, a, b); }
    case E_EXTRACT: { if (e->k[0]->w > 90) break; Z3_ast a = uval(e->k[0]); if (g_fail) return a; int off = (int)e->c; if (off) a = divT(a, (i128)1 << off, nullptr); if (off + e->w < e->k[0]->w) { Z3_ast r; divT(a, (i128)1 << e->w, &r); a = r; } return a; }
    case E_LSHR: if (isC(e->k[1]) && e->k[1]->c < 64) { Z3_ast a = uval(e->k[0]); if (g_fail) return a; return divT(a, (i128)1 << (int)e->k[1]->c, nullptr); } break;
    case E_UDIV: case E_UREM: if (isC(e->k[1]) && e->k[1]->c) { Z3_ast a = uval(e->k[0]); if (g_fail) return a; Z3_ast r, q = divT(a, (i128)e->k[1]->c, &r); return e->op == E_UDIV ? q : r; } break;
    case E_SEXT: { Z3_ast s = modT(lin(e->k[0]), e->k[0]->w, true); if (g_fail) return s; Z3_ast a[2] = {s, zi((i128)1 << e->w)}; return Z3_mk_ite(g_zc, Z3_mk_lt(g_zc, s, zi(0)), Z3_mk_add(g_zc, 2, a), s); }
    case E_ZEXT: return uval(e->k[0]);
    default: break;
  }
  LFAIL; return nullptr;
}
static Z3_ast uval(Expr* e) { auto it = g_tmemo.find(e); if (it != g_tmemo.end()) return it->second; Z3_ast r = uvalRaw(e); if (!g_fail) g_tmemo[e] = r; return r; }
static Z3_ast boolRaw(Expr* e) {
  if (isC(e)) return e->c ? Z3_mk_true(g_zc) : Z3_mk_false(g_zc);
  if (e->sv >= 0 && e->tab) {
    noteUse(e->sv, e);
    auto rp = g_repl.find(e->sv); if (rp == g_repl.end()) return liaDom(e->sv, truthTable(e));
    const TT& d = g_dom[e->sv]; std::map<i128, bool> im; for (int i = 0; i < 256; i++) if (d.test(i)) im[(i128)rp->second.f->tab[i]] = e->tab[i] & 1;
    std::vector<Z3_ast> ors; Z3_ast t = liaVar(g_zc, e->sv);
    for (auto it = im.begin(); it != im.end();) { if (!it->second) { ++it; continue; } auto j = it; for (auto n = std::next(j); n != im.end() && n->second; j = n, n = std::next(n)); Z3_ast c[2] = {Z3_mk_ge(g_zc, t, zi(it->first)), Z3_mk_le(g_zc, t, zi(j->first))}; ors.push_back(Z3_mk_and(g_zc, 2, c)); it = std::next(j); }
    if (ors.empty()) return Z3_mk_false(g_zc); return ors.size() == 1 ? ors[0] : Z3_mk_or(g_zc, ors.size(), ors.data());
  }
  Z3_ast a, b;
  switch (e->op) {
    case E_AND: case E_OR: case E_XOR: a = boolT(e->k[0]); if (g_fail) return a; b = boolT(e->k[1]); if (g_fail) return b; { Z3_ast x[2] = {a, b}; return e->op == E_AND ? Z3_mk_and(g_zc, 2, x) : e->op == E_OR ? Z3_mk_or(g_zc, 2, x) : Z3_mk_xor(g_zc, a, b); }
    case E_ITE: { Z3_ast c = boolT(e->k[0]); if (g_fail) return c; a = boolT(e->k[1]); if (g_fail) return a; b = boolT(e->k[2]); if (g_fail) return b; return Z3_mk_ite(g_zc, c, a, b); }
    case E_EQ: case E_ULT: case E_SLT: {
      if (e->k[0]->w == 1) { a = boolT(e->k[0]); if (g_fail) return a; b = boolT(e->k[1]); if (g_fail) return b; Z3_ast x[2] = {Z3_mk_not(g_zc, a), b}; if (e->op == E_EQ) return Z3_mk_iff(g_zc, a, b); if (e->op == E_ULT) return Z3_mk_and(g_zc, 2, x); LFAIL; return nullptr; }
      int w = e->k[0]->w; if (w > 90) { LFAIL; return nullptr; }
      bool sg = e->op == E_SLT; a = modT(lin(e->k[0]), w, sg); if (g_fail) return a; b = modT(lin(e->k[1]), w, sg); if (g_fail) return b;
      return e->op == E_EQ ? Z3_mk_eq(g_zc, a, b) : Z3_mk_lt(g_zc, a, b); }
    case E_EXTRACT: { if (e->k[0]->w > 90) { LFAIL; return nullptr; } a = modT(lin(e->k[0]), e->k[0]->w, false); if (g_fail) return a; int off = (int)e->c; if (off) a = divT(a, (i128)1 << off, nullptr); if (off + 1 < e->k[0]->w) { Z3_ast r; divT(a, 2, &r); a = r; } return Z3_mk_eq(g_zc, a, zi(1)); }
    default: LFAIL; return nullptr;
  }
}
static Z3_ast boolT(Expr* e) { auto it = g_bmemo.find(e); if (it != g_bmemo.end()) return it->second; Z3_ast r = boolRaw(e); if (!g_fail) g_bmemo[e] = r; return r; }
// Uses the domains given to the last simpExpr call.  False when the query is not expressible.
u8 liaByte(int v, u64 x) { auto it = g_repl.find(v); if (it == g_repl.end()) return (u8)x; for (int i = 0; i < 256; i++) if (g_dom[v].test(i) && it->second.f->tab[i] == x) return (u8)i; return 0; }
bool liaQuery(Z3_context c, const std::vector<Expr*>& q, const VSet& vars, std::vector<Z3_ast>& out) {
  g_zc = c; g_repl.clear(); std::vector<char> isDom(q.size(), 0);
  for (size_t i = 0; i < q.size(); i++) if (q[i]->sv >= 0 && q[i]->w == 1 && q[i] == mkDomain(q[i]->sv, g_dom[q[i]->sv])) isDom[i] = 1;
  for (int pass = 0; pass < 2; pass++) {
    out.clear(); g_use.clear(); g_side = &out; g_fail = false; g_fresh = 0; g_tmemo.clear(); g_bmemo.clear();
    for (int v = 0; v < MAXV; v++) if (vars.test(v)) { auto rp = g_repl.find(v); bool r = rp != g_repl.end(); Z3_ast x = liaVar(c, v); out.push_back(Z3_mk_ge(c, x, zi(r ? rp->second.lo : 0))); out.push_back(Z3_mk_le(c, x, zi(r ? rp->second.hi : 255))); }
    for (size_t i = 0; i < q.size(); i++) { if (isDom[i] && (pass == 0 || g_repl.count(q[i]->sv))) { if (pass == 0) continue; continue; } Z3_ast a = boolT(q[i]); if (g_fail) { g_repl.clear(); return false; } out.push_back(a); }
    if (pass == 0) {
      for (auto& p : g_use) {
        int v = p.first; Use& u = p.second; if (u.raw) continue;
        Expr* f = nullptr; for (Expr* e : u.ex) if (e->w > 1 && e->w <= 64) {   // the finest numeric use
          bool ok = true; const TT& d = g_dom[v];
          for (Expr* g : u.ex) { std::unordered_map<u64, u64> m; for (int i = 0; i < 256 && ok; i++) if (d.test(i)) { auto r = m.emplace(e->tab[i], g->tab[i]); if (r.first->second != g->tab[i]) ok = false; } if (!ok) break; }
          if (ok) { f = e; break; } }
        if (!f) continue;
        const TT& d = g_dom[v]; std::vector<u64> im; for (int i = 0; i < 256; i++) if (d.test(i)) im.push_back(f->tab[i]); std::sort(im.begin(), im.end()); im.erase(std::unique(im.begin(), im.end()), im.end());
        if (im.empty() || im.back() - im.front() + 1 != im.size() || im.back() > (1ull << 40)) continue;
        g_repl[v] = Repl{f, (i128)im.front(), (i128)im.back()};
      }
    }
  }
  return true;
}
static bool hasMul(Expr* e, std::unordered_map<Expr*, bool>& m) { if (e->sv >= -1 || isC(e)) return false; auto it = m.find(e); if (it != m.end()) return it->second; bool r = e->op == E_MUL || e->op == E_ADD || e->op == E_UDIV || e->op == E_UREM; for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = hasMul(e->k[i], m); return m[e] = r; }
bool wantsLia(const std::vector<Expr*>& q) { std::unordered_map<Expr*, bool> m; for (Expr* e : q) if (hasMul(e, m)) return true; return false; }
