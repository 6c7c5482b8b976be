// Hash-consed bit-vector expression DAG with local simplification.
// Every rewrite is an identity on fixed-width bit-vectors.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <bitset>
#include <cassert>

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_NOT, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
  O_SEXT, O_EXTRACT, O_CONCAT, O_AGG, O_UNINIT
};
// zext is CONCAT(0, x); sub is a + (-1)*b; concat is n-ary, most significant first.

constexpr unsigned MAXVARS = 1024;
typedef std::bitset<MAXVARS> VarSet;

struct Expr {
  Op op; uint8_t w; uint8_t lo;      // lo: extract offset
  uint32_t id; uint64_t c;           // constant value / var index
  std::vector<const Expr*> k;
  const VarSet* vars;
  uint32_t h;
};
typedef const Expr* E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct ExprCtx {
  std::vector<Expr*> all;
  std::unordered_multimap<uint32_t, Expr*> tab;
  VarSet empty;
  std::vector<VarSet*> vsets;
  std::vector<std::string> varname; std::vector<unsigned> varw; std::vector<E> varexpr;
  E UNINIT;
  ExprCtx() { Expr* u = new Expr(); u->op = O_UNINIT; u->w = 8; u->vars = &empty; u->id = 0; all.push_back(u); UNINIT = u; }

  E intern(Op op, unsigned w, uint64_t c, unsigned lo, std::vector<E> k) {
    uint32_t h = op * 2654435761u + w * 40503u + lo * 97u + (uint32_t)(c ^ (c >> 32)) * 16777619u;
    for (E x : k) h = (h ^ x->id) * 16777619u + 0x9e37u;
    auto r = tab.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      Expr* e = it->second;
      if (e->op == op && e->w == w && e->c == c && e->lo == lo && e->k == k) return e;
    }
    Expr* e = new Expr(); e->op = op; e->w = w; e->c = c; e->lo = lo; e->k = std::move(k); e->h = h; e->id = all.size();
    if (op == O_VAR) { auto* v = new VarSet(); v->set(c); e->vars = v; }
    else if (e->k.empty()) e->vars = &empty;
    else {
      const VarSet* v = e->k[0]->vars; bool same = true;
      for (E x : e->k) if (x->vars != v && x->vars != &empty) { if (v == &empty) v = x->vars; else same = false; }
      if (same) e->vars = v;
      else { VarSet u; for (E x : e->k) u |= *x->vars;
        const VarSet* found = nullptr; for (E x : e->k) if (*x->vars == u) { found = x->vars; break; }
        e->vars = found ? found : new VarSet(u); }
    }
    all.push_back(e); tab.emplace(h, e); return e;
  }
  E cst(uint64_t v, unsigned w) { return intern(O_CONST, w, v & maskw(w), 0, {}); }
  E newvar(const std::string& n, unsigned w) {
    if (varname.size() >= MAXVARS) { fprintf(stderr, "lsym: too many symbolic variables\n"); exit(3); }
    varname.push_back(n); varw.push_back(w); E e = intern(O_VAR, w, varname.size() - 1, 0, {}); varexpr.push_back(e); return e; }
  E T() { return cst(1, 1); } E F() { return cst(0, 1); }
  static bool isC(E e) { return e->op == O_CONST; }
  static bool isC(E e, uint64_t v) { return e->op == O_CONST && e->c == v; }
  static bool lessE(E a, E b) { return a->id < b->id; }

  E neg(E a) { return mul(a, cst(~0ull, a->w)); }
  E sub(E a, E b) { return add(a, neg(b)); }

  // n-ary sum with integer coefficients: k = terms, coefficients folded as MUL(term,const)
  void addterms(E e, uint64_t co, std::vector<std::pair<E, uint64_t>>& t, uint64_t& c) {
    unsigned w = e->w;
    if (isC(e)) { c += e->c * co; return; }
    if (e->op == O_ADD) { for (E x : e->k) addterms(x, co, t, c); return; }
    if (e->op == O_MUL && e->k.size() == 2 && isC(e->k[1])) { addterms(e->k[0], co * e->k[1]->c, t, c); return; }
    if (e->op == O_NOT && w > 1) { c -= co; addterms(e->k[0], 0 - co, t, c); return; } // ~x = -x-1
    t.push_back({e, co & maskw(w)});
  }
  E mksum(std::vector<std::pair<E, uint64_t>>& t, uint64_t c, unsigned w) {
    std::sort(t.begin(), t.end(), [](auto& a, auto& b) { return a.first->id < b.first->id; });
    std::vector<E> k; c &= maskw(w);
    for (size_t i = 0; i < t.size();) {
      uint64_t co = 0; size_t j = i; for (; j < t.size() && t[j].first == t[i].first; j++) co += t[j].second;
      co &= maskw(w);
      if (co == 1) k.push_back(t[i].first);
      else if (co) k.push_back(intern(O_MUL, w, 0, 0, {t[i].first, cst(co, w)}));
      i = j;
    }
    if (k.empty()) return cst(c, w);
    if (!c && k.size() > 1 && !opaque) { // terms that occupy different bits: a concatenation
      uint64_t seen = 0; bool ok = true; for (E x : k) { uint64_t b = pbits(x); if (b & seen) { ok = false; break; } seen |= b; }
      if (ok) { E r = nullptr; for (E x : k) { E y = x->op == O_MUL && isC(x->k[1]) ? shl(x->k[0], cst(__builtin_ctzll(x->k[1]->c), w)) : x; r = r ? or_(r, y) : y; } return r; } }
    if (c) k.push_back(cst(c, w));
    if (k.size() == 1) return k[0];
    return intern(O_ADD, w, 0, 0, k);
  }
  // bits that may be set (cheap)
  uint64_t pbits(E e) {
    switch (e->op) {
      case O_CONST: return e->c;
      case O_CONCAT: { uint64_t v = 0; for (E x : e->k) v = (x->w >= 64 ? 0 : v << x->w) | (isC(x) ? x->c : maskw(x->w)); return v; }
      case O_MUL: if (isC(e->k[1]) && !(e->k[1]->c & (e->k[1]->c - 1))) return (pbits(e->k[0]) << __builtin_ctzll(e->k[1]->c)) & maskw(e->w); return maskw(e->w);
      default: return maskw(e->w);
    }
  }
  E add(E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(a->c + b->c, w);
    if (isC(b, 0)) return a; if (isC(a, 0)) return b;
    if (w == 1) return xor_(a, b);
    std::vector<std::pair<E, uint64_t>> t; uint64_t c = 0;
    addterms(a, 1, t, c); addterms(b, 1, t, c);
    return mksum(t, c, w);
  }
  E mul(E a, E b) {
    unsigned w = a->w;
    if (isC(a)) std::swap(a, b);
    if (isC(a) && isC(b)) return cst(a->c * b->c, w);
    if (w == 1) return and_(a, b);
    if (isC(b)) {
      if (b->c == 0) return b; if (b->c == 1) return a;
      if (a->op == O_ADD || (a->op == O_MUL && isC(a->k[1])) || a->op == O_NOT) {
        std::vector<std::pair<E, uint64_t>> t; uint64_t c = 0; addterms(a, b->c, t, c); return mksum(t, c, w); }
      return intern(O_MUL, w, 0, 0, {a, b});
    }
    if (a->id > b->id) std::swap(a, b);
    return intern(O_MUL, w, 0, 0, {a, b});
  }
  E udiv(E a, E b) { unsigned w = a->w; if (isC(a) && isC(b) && b->c) return cst(a->c / b->c, w); if (isC(b, 1)) return a;
    if (isC(b) && !(b->c & (b->c - 1)) && b->c) return lshr(a, cst(__builtin_ctzll(b->c), w)); return intern(O_UDIV, w, 0, 0, {a, b}); }
  E urem(E a, E b) { unsigned w = a->w; if (isC(a) && isC(b) && b->c) return cst(a->c % b->c, w);
    if (isC(b) && !(b->c & (b->c - 1)) && b->c) return and_(a, cst(b->c - 1, w)); return intern(O_UREM, w, 0, 0, {a, b}); }
  E sdiv(E a, E b) { unsigned w = a->w; if (isC(a) && isC(b) && b->c && !(sx(b->c, w) == -1)) return cst((uint64_t)(sx(a->c, w) / sx(b->c, w)), w); if (isC(b, 1)) return a; return intern(O_SDIV, w, 0, 0, {a, b}); }
  E srem(E a, E b) { unsigned w = a->w; if (isC(a) && isC(b) && b->c && !(sx(b->c, w) == -1)) return cst((uint64_t)(sx(a->c, w) % sx(b->c, w)), w); return intern(O_SREM, w, 0, 0, {a, b}); }

  // flatten n-ary associative/commutative boolean ops
  void flat(Op op, E e, std::vector<E>& v) { if (e->op == op) for (E x : e->k) flat(op, x, v); else v.push_back(e); }
  E not_(E a) {
    if (isC(a)) return cst(~a->c, a->w);
    if (a->op == O_NOT) return a->k[0];
    if (a->w == 1) {
      if (a->op == O_ULT) return ule(a->k[1], a->k[0]); if (a->op == O_ULE) return ult(a->k[1], a->k[0]);
      if (a->op == O_SLT) return sle(a->k[1], a->k[0]); if (a->op == O_SLE) return slt(a->k[1], a->k[0]);
    }
    return intern(O_NOT, a->w, 0, 0, {a});
  }
  E andor(Op op, E a, E b) {
    unsigned w = a->w; uint64_t unit = op == O_AND ? maskw(w) : 0, zero = op == O_AND ? 0 : maskw(w);
    if (isC(a) && isC(b)) return cst(op == O_AND ? (a->c & b->c) : (a->c | b->c), w);
    if (isC(a)) std::swap(a, b);
    if (isC(b, unit)) return a; if (isC(b, zero)) return b; if (a == b) return a;
    // segment merging for concats and masks
    if (w > 1) { E s = segop(op, a, b); if (s) return s; }
    std::vector<E> v; flat(op, a, v); flat(op, b, v);
    uint64_t c = unit; std::vector<E> k;
    for (E x : v) if (isC(x)) c = op == O_AND ? (c & x->c) : (c | x->c); else k.push_back(x);
    c &= maskw(w);
    if (c == zero) return cst(zero, w);
    std::sort(k.begin(), k.end(), lessE); k.erase(std::unique(k.begin(), k.end()), k.end());
    for (E x : k) if (x->op == O_NOT && std::binary_search(k.begin(), k.end(), x->k[0], lessE)) return cst(zero, w);
    if (c != unit) k.push_back(cst(c, w));
    if (k.size() == 1) return k[0];
    return intern(op, w, 0, 0, k);
  }
  E and_(E a, E b) { return andor(O_AND, a, b); }
  E or_(E a, E b) { return andor(O_OR, a, b); }
  E xor_(E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(a->c ^ b->c, w);
    if (isC(a)) std::swap(a, b);
    if (isC(b, 0)) return a; if (isC(b, maskw(w))) return not_(a); if (a == b) return cst(0, w);
    if (w > 1) { E s = segop(O_XOR, a, b); if (s) return s; }
    std::vector<E> v; flat(O_XOR, a, v); flat(O_XOR, b, v);
    uint64_t c = 0; std::vector<E> k;
    for (E x : v) { if (x->op == O_NOT) { c ^= maskw(w); x = x->k[0]; } if (isC(x)) c ^= x->c; else k.push_back(x); }
    std::vector<E> k1; for (E x : k) flat(O_XOR, x, k1);   // NOT(XOR..) may expose more
    k.clear(); for (E x : k1) if (isC(x)) c ^= x->c; else k.push_back(x);
    std::sort(k.begin(), k.end(), lessE);
    std::vector<E> k2; for (size_t i = 0; i < k.size();) { size_t j = i; while (j < k.size() && k[j] == k[i]) j++; if ((j - i) & 1) k2.push_back(k[i]); i = j; }
    c &= maskw(w);
    if (k2.empty()) return cst(c, w);
    if (c == maskw(w)) { E r = k2.size() == 1 ? k2[0] : intern(O_XOR, w, 0, 0, k2); return not_(r); }
    if (c) k2.push_back(cst(c, w));
    if (k2.size() == 1) return k2[0];
    return intern(O_XOR, w, 0, 0, k2);
  }
  // segments, least significant first: (expr or nullptr for constant, width, constant)
  struct Seg { E e; unsigned w; };
  void segs(E e, std::vector<Seg>& s) { // LSB first
    if (e->op == O_CONCAT) { for (size_t i = e->k.size(); i-- > 0;) s.push_back({e->k[i], e->k[i]->w}); }
    else s.push_back({e, e->w});
  }
  bool opaque = getenv("LSYM_OPAQUE") != nullptr; // keep words whole (for hash functions)
  E segop(Op op, E a, E b) {
    bool ca = a->op == O_CONCAT, cb = b->op == O_CONCAT;
    if (op == O_AND && isC(b) && !ca) {
      // mask that is a contiguous low run or has zero bits at the top/bottom: turn into concat
      uint64_t m = b->c; unsigned w = a->w; if (!m) return nullptr;
      unsigned lo = __builtin_ctzll(m), hi = 64 - __builtin_clzll(m);
      uint64_t run = maskw(hi - lo) << lo;
      if (m == run && (lo > 0 || hi < w)) {
        E mid = extract(a, lo, hi - lo); std::vector<E> p;
        if (hi < w) p.push_back(cst(0, w - hi)); p.push_back(mid); if (lo) p.push_back(cst(0, lo));
        return concat(p);
      }
      return nullptr;
    }
    if (!ca && !cb) return nullptr;
    if (opaque && op == O_XOR) return nullptr;
    if (!((ca || isC(a)) && (cb || isC(b)))) {
      // one side concat, other opaque: only useful when the concat has const parts
      E con = ca ? a : b; bool hasc = false; for (E x : con->k) if (isC(x)) hasc = true;
      if (!hasc) return nullptr;
      if (op == O_XOR) return nullptr;
    }
    std::vector<Seg> sa, sb; segs(a, sa); segs(b, sb);
    std::vector<unsigned> cuts; unsigned p = 0; for (auto& s : sa) cuts.push_back(p += s.w); p = 0; for (auto& s : sb) cuts.push_back(p += s.w);
    std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    std::vector<E> out; unsigned lo = 0;
    for (unsigned c : cuts) { E x = extract(a, lo, c - lo), y = extract(b, lo, c - lo);
      E r = op == O_AND ? and_(x, y) : op == O_OR ? or_(x, y) : xor_(x, y); out.push_back(r); lo = c; }
    if (out.size() == 1 && cuts.size() == 1) return nullptr;
    std::reverse(out.begin(), out.end()); return concat(out);
  }
  E concat(std::vector<E> p) { // MSB first
    std::vector<E> f; for (E x : p) { if (x->op == O_CONCAT) f.insert(f.end(), x->k.begin(), x->k.end()); else f.push_back(x); }
    std::vector<E> g;
    for (E x : f) {
      if (!g.empty()) {
        E y = g.back();
        if (isC(x) && isC(y) && x->w + y->w <= 64) { g.back() = cst((y->c << x->w) | x->c, x->w + y->w); continue; }
        // adjacent extracts of the same thing
        E by = y, bx = x; unsigned ly = 0, lx = 0;
        if (y->op == O_EXTRACT) { by = y->k[0]; ly = y->lo; } if (x->op == O_EXTRACT) { bx = x->k[0]; lx = x->lo; }
        if (by == bx && ly == lx + x->w && (y->op == O_EXTRACT || x->op == O_EXTRACT)) { g.back() = rawextract(bx, lx, x->w + y->w); continue; }
      }
      g.push_back(x);
    }
    if (g.size() == 1) return g[0];
    unsigned w = 0; for (E x : g) w += x->w;
    if (w > 64) { fprintf(stderr, "lsym: concat too wide\n"); abort(); }
    return intern(O_CONCAT, w, 0, 0, g);
  }
  E zext(E a, unsigned w) { if (a->w == w) return a; if (isC(a)) return cst(a->c, w); return concat({cst(0, w - a->w), a}); }
  E sext(E a, unsigned w) { if (a->w == w) return a; if (isC(a)) return cst((uint64_t)sx(a->c, a->w), w);
    if (a->op == O_CONCAT && isC(a->k[0]) && !(a->k[0]->c >> (a->k[0]->w - 1))) return zext(a, w);
    if (a->op == O_SEXT) return sext(a->k[0], w);
    return intern(O_SEXT, w, 0, 0, {a}); }
  // extract without distributing over arithmetic, so that storing a value
  // byte by byte and loading it back gives the same expression
  E rawextract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isC(a) || a->op == O_EXTRACT || a->op == O_CONCAT) return extract(a, lo, w);
    return intern(O_EXTRACT, w, 0, lo, {a});
  }
  E extract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return cst(a->c >> lo, w);
    if (opaque && (a->op == O_AND || a->op == O_OR || a->op == O_XOR || a->op == O_NOT || a->op == O_ADD || a->op == O_MUL)) return intern(O_EXTRACT, w, 0, lo, {a});
    switch (a->op) {
      case O_EXTRACT: return extract(a->k[0], a->lo + lo, w);
      case O_CONCAT: {
        unsigned p = 0; std::vector<E> out;
        for (size_t i = a->k.size(); i-- > 0;) { E x = a->k[i]; unsigned s = std::max(p, lo), t = std::min(p + x->w, lo + w);
          if (s < t) out.push_back(extract(x, s - p, t - s)); p += x->w; }
        std::reverse(out.begin(), out.end()); return concat(out); }
      case O_SEXT: if (lo + w <= a->k[0]->w) return extract(a->k[0], lo, w); if (lo == 0) return sext(a->k[0], w); break;
      case O_AND: case O_OR: case O_XOR: case O_NOT: {
        if (a->op == O_NOT) return not_(extract(a->k[0], lo, w));
        E r = extract(a->k[0], lo, w);
        for (size_t i = 1; i < a->k.size(); i++) { E x = extract(a->k[i], lo, w); r = a->op == O_AND ? and_(r, x) : a->op == O_OR ? or_(r, x) : xor_(r, x); }
        return r; }
      case O_ADD: if (lo == 0) { E r = extract(a->k[0], 0, w); for (size_t i = 1; i < a->k.size(); i++) r = add(r, extract(a->k[i], 0, w)); return r; } break;
      case O_MUL: if (lo == 0) return mul(extract(a->k[0], 0, w), extract(a->k[1], 0, w)); break;
      case O_ITE: if (isC(a->k[1]) || isC(a->k[2])) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w)); break;
      default: break;
    }
    return intern(O_EXTRACT, w, 0, lo, {a});
  }
  E shl(E a, E b) { unsigned w = a->w;
    if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return cst(0, w); return concat({extract(a, 0, w - b->c), cst(0, b->c)}); }
    if (isC(a, 0)) return a; return intern(O_SHL, w, 0, 0, {a, b}); }
  E lshr(E a, E b) { unsigned w = a->w;
    if (isC(b)) { if (b->c == 0) return a; if (b->c >= w) return cst(0, w); return zext(extract(a, b->c, w - b->c), w); }
    if (isC(a, 0)) return a; return intern(O_LSHR, w, 0, 0, {a, b}); }
  E ashr(E a, E b) { unsigned w = a->w;
    if (isC(b)) { if (b->c == 0) return a; unsigned s = b->c >= w ? w - 1 : b->c; return sext(extract(a, s, w - s), w); }
    if (isC(a, 0)) return a; return intern(O_ASHR, w, 0, 0, {a, b}); }

  E eq(E a, E b) {
    if (a == b) return T();
    if (isC(a) && isC(b)) return cst(a->c == b->c, 1);
    if (isC(a)) std::swap(a, b);
    unsigned w = a->w;
    if (w == 1) { if (isC(b, 1)) return a; if (isC(b, 0)) return not_(a); }
    if (isC(b)) {
      switch (a->op) {
        case O_CONCAT: { E r = T(); unsigned p = 0; for (size_t i = a->k.size(); i-- > 0;) { E x = a->k[i]; r = and_(r, eq(x, cst(b->c >> p, x->w))); if (isC(r, 0)) return r; p += x->w; } return r; }
        case O_SEXT: { E x = a->k[0]; if ((uint64_t)(sx(b->c, x->w)) == (uint64_t)sx(b->c, w)) return eq(x, cst(b->c, x->w)); if (((uint64_t)sx(b->c, x->w) & maskw(w)) == b->c) return eq(x, cst(b->c, x->w)); return F(); }
        case O_NOT: return eq(a->k[0], cst(~b->c, w));
        case O_ADD: if (isC(a->k.back())) { std::vector<E> k(a->k.begin(), a->k.end() - 1); E r = k.size() == 1 ? k[0] : intern(O_ADD, w, 0, 0, k); return eq(r, cst(b->c - a->k.back()->c, w)); } break;
        case O_MUL: if (isC(a->k[1])) { uint64_t m = a->k[1]->c; if (m & 1) { uint64_t inv = m; for (int i = 0; i < 6; i++) inv *= 2 - m * inv; return eq(a->k[0], cst(b->c * inv, w)); } } break;
        case O_XOR: if (isC(a->k.back())) { std::vector<E> k(a->k.begin(), a->k.end() - 1); E r = k.size() == 1 ? k[0] : intern(O_XOR, w, 0, 0, k); return eq(r, cst(b->c ^ a->k.back()->c, w)); } break;
        case O_ITE: { E x = a->k[1], y = a->k[2];
          if (isC(x) || isC(y)) return or_(and_(a->k[0], eq(x, b)), and_(not_(a->k[0]), eq(y, b))); break; }
        default: break;
      }
    } else {
      if (a->op == O_CONCAT && b->op == O_CONCAT) {
        std::vector<Seg> sa, sb; segs(a, sa); segs(b, sb);
        if (sa.size() == sb.size()) { bool ok = true; for (size_t i = 0; i < sa.size(); i++) if (sa[i].w != sb[i].w) ok = false;
          if (ok) { E r = T(); for (size_t i = 0; i < sa.size(); i++) { r = and_(r, eq(sa[i].e, sb[i].e)); if (isC(r, 0)) return r; } return r; } }
      }
      if (a->op == O_ADD || b->op == O_ADD) { // move everything to one side when it simplifies
        E d = sub(a, b); if (isC(d)) return cst(d->c == 0, 1);
        if (d->op != O_ADD || (d->k.size() == 2 && isC(d->k[1]))) return eq(d, cst(0, w)); }
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return intern(O_EQ, 1, 0, 0, {a, b});
  }
  E ne(E a, E b) { return not_(eq(a, b)); }
  // unsigned upper/lower bounds (cheap)
  uint64_t umax(E e) {
    switch (e->op) {
      case O_CONST: return e->c;
      case O_CONCAT: { uint64_t v = 0; for (E x : e->k) v = (x->w >= 64 ? 0 : v << x->w) | umax(x); return v; }
      case O_ITE: return std::max(umax(e->k[1]), umax(e->k[2]));
      case O_AND: { uint64_t v = maskw(e->w); for (E x : e->k) v = std::min(v, umax(x)); return v; }
      case O_ADD: { __uint128_t v = 0; for (E x : e->k) v += umax(x); return v > maskw(e->w) ? maskw(e->w) : (uint64_t)v; }
      case O_UREM: if (isC(e->k[1]) && e->k[1]->c) return e->k[1]->c - 1; return maskw(e->w);
      default: return maskw(e->w);
    }
  }
  uint64_t umin(E e) {
    switch (e->op) {
      case O_CONST: return e->c;
      case O_CONCAT: { uint64_t v = 0; for (E x : e->k) v = (x->w >= 64 ? 0 : v << x->w) | umin(x); return v; }
      case O_ITE: return std::min(umin(e->k[1]), umin(e->k[2]));
      case O_ADD: { __uint128_t v = 0, lo = 0; for (E x : e->k) { v += umax(x); lo += umin(x); } return v > maskw(e->w) ? 0 : (uint64_t)lo; }
      default: return 0;
    }
  }
  // strip equal zero-extension from both sides
  bool stripz(E& a, E& b) {
    auto lead = [&](E x) -> unsigned { if (isC(x)) { return x->c ? (unsigned)(__builtin_clzll(x->c) - (64 - x->w)) : x->w; } if (x->op == O_CONCAT && isC(x->k[0], 0)) return x->k[0]->w; return 0; };
    unsigned n = std::min(lead(a), lead(b)); if (!n) return false; if (n >= a->w) n = a->w - 1; if (!n) return false;
    a = extract(a, 0, a->w - n); b = extract(b, 0, b->w - n); return true;
  }
  static unsigned trail0(E x) { if (x->op == O_CONCAT && isC(x->k.back(), 0)) return x->k.back()->w; return 0; }
  static bool bitwise(E e) { return e->op == O_VAR || e->op == O_EXTRACT || e->op == O_CONCAT; }
  E ult(E a, E b) {
    if (a == b) return F();
    if (isC(a) && isC(b)) return cst(a->c < b->c, 1);
    if (isC(b, 0)) return F(); if (isC(a, maskw(a->w))) return F();
    if (umax(a) < umin(b)) return T(); if (umin(a) >= umax(b)) return F();
    if (isC(b, 1)) return eq(a, cst(0, a->w)); if (isC(a, 0)) return ne(b, a);
    if (stripz(a, b)) return ult(a, b);
    if (isC(b) && !(b->c & (b->c - 1)) && bitwise(a)) { unsigned t = __builtin_ctzll(b->c); return eq(extract(a, t, a->w - t), cst(0, a->w - t)); }
    if (isC(a) && !((a->c + 1) & a->c) && bitwise(b)) { unsigned t = __builtin_ctzll(a->c + 1); return ne(extract(b, t, b->w - t), cst(0, b->w - t)); }
    { unsigned t = trail0(a); if (t && isC(b)) { uint64_t q = (b->c >> t) + ((b->c & maskw(t)) ? 1 : 0); unsigned w = a->w - t; if (q > maskw(w)) return T(); return ult(extract(a, t, w), cst(q, w)); }
      t = trail0(b); if (t && isC(a)) { unsigned w = b->w - t; return ult(cst(a->c >> t, w), extract(b, t, w)); } }
    return intern(O_ULT, 1, 0, 0, {a, b});
  }
  E ule(E a, E b) {
    if (a == b) return T();
    if (isC(a) && isC(b)) return cst(a->c <= b->c, 1);
    if (isC(a, 0)) return T(); if (isC(b, maskw(b->w))) return T();
    if (umax(a) <= umin(b)) return T(); if (umin(a) > umax(b)) return F();
    if (isC(b, 0)) return eq(a, b);
    if (isC(b)) return ult(a, cst(b->c + 1, b->w));
    if (isC(a)) return ult(cst(a->c - 1, a->w), b);
    if (stripz(a, b)) return ule(a, b);
    return intern(O_ULE, 1, 0, 0, {a, b});
  }
  E slt(E a, E b) {
    if (a == b) return F(); unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(sx(a->c, w) < sx(b->c, w), 1);
    uint64_t h = 1ull << (w - 1);
    if (umax(a) < h && umax(b) < h) return ult(a, b);
    if (isC(b, 0)) return extract(a, w - 1, 1);
    if (isC(a) && a->c == maskw(w)) return not_(extract(b, w - 1, 1));
    if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return slt(a->k[0], b->k[0]);
    return intern(O_SLT, 1, 0, 0, {a, b});
  }
  E sle(E a, E b) {
    if (a == b) return T(); unsigned w = a->w;
    if (isC(a) && isC(b)) return cst(sx(a->c, w) <= sx(b->c, w), 1);
    uint64_t h = 1ull << (w - 1);
    if (umax(a) < h && umax(b) < h) return ule(a, b);
    if (isC(a, 0)) return not_(extract(b, w - 1, 1));
    if (isC(b) && b->c == maskw(w)) return extract(a, w - 1, 1);
    if (isC(b) && b->c != h - 1) return slt(a, cst(b->c + 1, w));
    return intern(O_SLE, 1, 0, 0, {a, b});
  }
  E ite(E c, E a, E b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
      if (isC(a, 1) && isC(b, 0)) return c; if (isC(a, 0) && isC(b, 1)) return not_(c);
      if (isC(a, 1)) return or_(c, b); if (isC(a, 0)) return and_(not_(c), b);
      if (isC(b, 0)) return and_(c, a); if (isC(b, 1)) return or_(not_(c), a);
    }
    if (c->op == O_NOT) return ite(c->k[0], b, a);
    if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
    if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
    return intern(O_ITE, a->w, 0, 0, {c, a, b});
  }
  E agg(std::vector<E> k) { return intern(O_AGG, 0, 0, 0, std::move(k)); }

  // rebuild with replaced children
  E rebuild(E e, const std::vector<E>& k) {
    switch (e->op) {
      case O_ADD: { E r = k[0]; for (size_t i = 1; i < k.size(); i++) r = add(r, k[i]); return r; }
      case O_AND: { E r = k[0]; for (size_t i = 1; i < k.size(); i++) r = and_(r, k[i]); return r; }
      case O_OR: { E r = k[0]; for (size_t i = 1; i < k.size(); i++) r = or_(r, k[i]); return r; }
      case O_XOR: { E r = k[0]; for (size_t i = 1; i < k.size(); i++) r = xor_(r, k[i]); return r; }
      case O_MUL: return mul(k[0], k[1]); case O_UDIV: return udiv(k[0], k[1]); case O_SDIV: return sdiv(k[0], k[1]);
      case O_UREM: return urem(k[0], k[1]); case O_SREM: return srem(k[0], k[1]);
      case O_SHL: return shl(k[0], k[1]); case O_LSHR: return lshr(k[0], k[1]); case O_ASHR: return ashr(k[0], k[1]);
      case O_NOT: return not_(k[0]); case O_EQ: return eq(k[0], k[1]); case O_ULT: return ult(k[0], k[1]); case O_ULE: return ule(k[0], k[1]);
      case O_SLT: return slt(k[0], k[1]); case O_SLE: return sle(k[0], k[1]); case O_ITE: return ite(k[0], k[1], k[2]);
      case O_SEXT: return sext(k[0], e->w); case O_EXTRACT: return extract(k[0], e->lo, e->w); case O_CONCAT: return concat(k); case O_AGG: return agg(k);
      default: return e;
    }
  }
};
