// lsym: path-forking symbolic executor for LLVM 18 bitcode, deciding every
// branch, memory access and assertion with Z3.  See DESIGN.md.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <map>
#include <set>
#include <memory>
#include <chrono>
#include <atomic>
#include <cstdio>
#include <cmath>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/file.h>
#include <sys/prctl.h>
#include <sys/resource.h>
using namespace llvm;
typedef std::chrono::steady_clock Clk;

// ---------------------------------------------------------------- options
static unsigned optJobs = 8, optQueryMs = 60000, optFastMs = getenv("LSYM_FASTMS") ? atoi(getenv("LSYM_FASTMS")) : 500; static uint64_t optMaxSteps = 400000, optMaxPaths = 0; static double optTime = 800;
static unsigned optEnum = 4096; static std::string optOut = "lsym.out"; static bool optVerbose = false; static bool optKeepGoing = false;
static unsigned optMemMB = 3500, optSample = 5000;

// ---------------------------------------------------------------- shared stats
constexpr int NWIT = 64, NFN = 1024;
struct Shared {
  std::atomic<uint64_t> paths, killed, steps, forks, queries, qsat, qunsat, cachehits, domq, solver_us, asserts, asserts_q, incomplete, unknown, errors, maxdepth, samples;
  std::atomic<int> active; std::atomic<int> stop; std::atomic<uint64_t> wit[NWIT]; std::atomic<uint64_t> fncalls[NFN];
  std::atomic<uint64_t> bbcov[1 << 14];
};
static Shared* SH;
static Clk::time_point T0;
static double elapsed() { return std::chrono::duration<double>(Clk::now() - T0).count(); }

static ExprCtx X;

struct Val { uint64_t c; E e; };   // e==nullptr: concrete c
static inline Val CV(uint64_t c) { return {c, nullptr}; }
static inline Val EV(E e) { if (e->op == O_CONST) return {e->c, nullptr}; return {0, e}; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : X.cst(v.c, w); }

// ---------------------------------------------------------------- memory
struct Obj { uint64_t base, size; uint8_t kind; /*0 global 1 heap 2 stack*/ bool ro; bool freed = false; std::string name;
  std::vector<uint8_t> c; std::vector<E> s; // s empty: all concrete
  void mksym() { if (s.empty()) s.assign(size, nullptr); } };
typedef std::shared_ptr<Obj> ObjP;

// ---------------------------------------------------------------- decoded IR
enum IOp : uint8_t { I_BIN, I_CMP, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_CAST, I_BR, I_CBR, I_SWITCH, I_PHI, I_CALL, I_RET, I_SELECT, I_UNREACH, I_XVAL, I_IVAL, I_FREEZE, I_FBIN, I_FCMP, I_FNEG };
struct Opnd { int reg; Val v; uint8_t w; };
struct Fn;
struct In { IOp op; unsigned sub; uint8_t w; int dst; std::vector<Opnd> o; std::vector<uint64_t> imm; std::vector<std::pair<uint64_t, int>> scale; Fn* callee = nullptr; const Instruction* I = nullptr; std::vector<unsigned> idx; uint8_t w2 = 0; };
struct BB { std::vector<In> ins; unsigned covid; };
struct Fn { Function* F; std::string name; unsigned nregs = 0; std::vector<BB> bbs; bool decoded = false; unsigned id; uint64_t addr; int builtin = 0; bool hasBody; };

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::map<const Function*, Fn*> fnmap; static std::map<uint64_t, Fn*> fnaddr; static std::vector<Fn*> fns;
static std::map<const GlobalVariable*, uint64_t> gaddr; static unsigned ncov = 0;

[[noreturn]] static void die(const std::string& s) { fprintf(stderr, "lsym: FATAL %s\n", s.c_str()); SH->errors++; SH->stop = 2; fflush(stderr); _exit(3); }

static unsigned tw(Type* T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64; if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32;
  return 0;
}

// ---------------------------------------------------------------- state
typedef std::vector<uint64_t> Model;
struct Frame { Fn* f; unsigned bb = 0, ip = 0, prev = 0; std::vector<Val> r; std::vector<uint64_t> al; int dst = -1; std::vector<std::pair<Val, uint8_t>> va; };
struct Input { std::string name; Val v; uint8_t w; };
struct State {
  std::vector<Frame> st; std::map<uint64_t, ObjP> objs; std::vector<E> pc; std::shared_ptr<Model> model; std::map<E, uint64_t> eqm;
  std::vector<Input> in; uint64_t next = 0x100000000ull; uint64_t steps = 0, depth = 0; unsigned nvars = 0; std::vector<Val> notes;
  std::map<const void*, unsigned> enumcnt; unsigned settled = 0;
};

static uint64_t newAddr(State& s, uint64_t size) { uint64_t a = s.next; s.next += ((size + 4095) & ~4095ull) + 0x10000; return a; }
static ObjP newObj(State& s, uint64_t size, int kind, const std::string& nm, bool uninit) {
  auto o = std::make_shared<Obj>(); o->base = newAddr(s, size); o->size = size; o->kind = kind; o->ro = false; o->name = nm; o->c.assign(size, 0);
  if (uninit && size) o->s.assign(size, X.UNINIT);
  s.objs[o->base] = o; return o;
}
static Obj* findObj(State& s, uint64_t a, ObjP** slot = nullptr) {
  auto it = s.objs.upper_bound(a); if (it == s.objs.begin()) return nullptr; --it;
  Obj* o = it->second.get(); if (a > o->base + o->size) return nullptr; if (slot) *slot = &it->second; return o;
}
static Obj* wr(ObjP& p) { if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }

// fresh variable: variable index is allocated per state path so that the
// total stays small; the same (index,width,name) is reused across paths.
static std::vector<std::vector<E>> varpool; // [index] -> exprs by width
static E freshVar(State& s, unsigned w, const std::string& nm) {
  unsigned i = s.nvars++;
  // global table: vars keyed by (i,w)
  static std::map<std::pair<unsigned, unsigned>, E> tab;
  auto k = std::make_pair(i, w); auto it = tab.find(k); if (it != tab.end()) return it->second;
  E e = X.newvar(nm + "_" + std::to_string(i) + "_" + std::to_string(w), w); tab[k] = e; return e;
}

// ---------------------------------------------------------------- evaluation under a model
static std::vector<uint64_t> evv; static std::vector<uint32_t> evs; static uint32_t evstamp = 0;
static uint64_t ev1(E e, const Model& m) {
  if (e->op == O_CONST) return e->c;
  if (e->op == O_VAR) return e->c < m.size() ? m[e->c] & maskw(e->w) : 0;
  if (evs[e->id] == evstamp) return evv[e->id];
  uint64_t v = 0; unsigned w = e->w; auto K = [&](int i) { return ev1(e->k[i], m); };
  switch (e->op) {
    case O_ADD: for (E x : e->k) v += ev1(x, m); break; case O_MUL: v = K(0) * K(1); break;
    case O_UDIV: { uint64_t b = K(1); v = b ? K(0) / b : ~0ull; break; } case O_UREM: { uint64_t b = K(1), a = K(0); v = b ? a % b : a; break; }
    case O_SDIV: { int64_t a = sx(K(0), w), b = sx(K(1), w); v = b == 0 ? (a < 0 ? 1 : ~0ull) : b == -1 ? 0 - (uint64_t)a : (uint64_t)(a / b); break; }
    case O_SREM: { int64_t a = sx(K(0), w), b = sx(K(1), w); v = b == 0 ? (uint64_t)a : b == -1 ? 0 : (uint64_t)(a % b); break; }
    case O_AND: v = ~0ull; for (E x : e->k) v &= ev1(x, m); break; case O_OR: for (E x : e->k) v |= ev1(x, m); break; case O_XOR: for (E x : e->k) v ^= ev1(x, m); break;
    case O_SHL: { uint64_t b = K(1); v = b >= w ? 0 : K(0) << b; break; } case O_LSHR: { uint64_t b = K(1); v = b >= w ? 0 : K(0) >> b; break; }
    case O_ASHR: { uint64_t b = K(1); int64_t a = sx(K(0), w); v = (uint64_t)(a >> (b >= w ? w - 1 : b)); break; }
    case O_NOT: v = ~K(0); break; case O_EQ: v = K(0) == K(1); break; case O_ULT: v = K(0) < K(1); break; case O_ULE: v = K(0) <= K(1); break;
    case O_SLT: v = sx(K(0), e->k[0]->w) < sx(K(1), e->k[0]->w); break; case O_SLE: v = sx(K(0), e->k[0]->w) <= sx(K(1), e->k[0]->w); break;
    case O_ITE: v = K(0) ? K(1) : K(2); break; case O_SEXT: v = (uint64_t)sx(K(0), e->k[0]->w); break; case O_EXTRACT: v = K(0) >> e->lo; break;
    case O_CONCAT: for (E x : e->k) { v = (x->w >= 64 ? 0 : v << x->w) | ev1(x, m); } break;
    default: die("eval op");
  }
  v &= maskw(w); evs[e->id] = evstamp; evv[e->id] = v; return v;
}
static uint64_t evalM(E e, const Model& m) { if (evs.size() < X.all.size()) { evs.resize(X.all.size() * 2, 0); evv.resize(X.all.size() * 2); } evstamp++; if (!evstamp) { std::fill(evs.begin(), evs.end(), 0); evstamp = 1; } return ev1(e, m); }

// substitution of known constants
static E substRec(E e, State& s, std::unordered_map<E, E>& memo) {
  if (e->op == O_CONST || e->vars == &X.empty) return e;
  auto q = s.eqm.find(e); if (q != s.eqm.end()) return X.cst(q->second, e->w);
  if (e->op == O_VAR) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool ch = false; std::vector<E> k; k.reserve(e->k.size());
  for (E x : e->k) { E y = substRec(x, s, memo); ch |= y != x; k.push_back(y); }
  E r = ch ? X.rebuild(e, k) : e; memo[e] = r; return r;
}
static E subst(E e, State& s) { if (s.eqm.empty()) return e; std::unordered_map<E, E> memo; return substRec(e, s, memo); }
static void learnEq(State& s, E e, uint64_t v) {
  v &= maskw(e->w); s.eqm[e] = v;
  switch (e->op) {
    case O_CONCAT: { unsigned p = 0; for (size_t i = e->k.size(); i-- > 0;) { E x = e->k[i]; if (x->op != O_CONST) learnEq(s, x, v >> p); p += x->w; } break; }
    case O_NOT: learnEq(s, e->k[0], ~v); break;
    case O_ADD: if (e->k.size() == 2 && e->k[1]->op == O_CONST) learnEq(s, e->k[0], v - e->k[1]->c); break;
    case O_SEXT: learnEq(s, e->k[0], v); break;
    case O_XOR: if (e->k.size() == 2 && e->k[1]->op == O_CONST) learnEq(s, e->k[0], v ^ e->k[1]->c); break;
    case O_MUL: if (e->k[1]->op == O_CONST && (e->k[1]->c & 1)) { uint64_t m = e->k[1]->c, inv = m; for (int i = 0; i < 6; i++) inv *= 2 - m * inv; learnEq(s, e->k[0], v * inv); } break;
    default: break;
  }
}
static void addPC(State& s, E c) {
  if (c->op == O_CONST) { return; }
  if (c->op == O_AND && c->w == 1) { for (E x : c->k) addPC(s, x); return; }
  if (c->op == O_EQ && c->k[1]->op == O_CONST) learnEq(s, c->k[0], c->k[1]->c);
  else { if (c->op == O_NOT) s.eqm[c->k[0]] = 0; else if (c->w == 1 && c->op != O_VAR) s.eqm[c] = 1; else s.eqm[c] = 1;
    // the negation of an inequality is another inequality node
    E n = X.not_(c); if (n->op != O_NOT) s.eqm[n] = 0; }
  s.pc.push_back(c);
}

// ---------------------------------------------------------------- Z3
static Z3_context Z; static Z3_solver ZS; static std::vector<Z3_ast> zast;
static Z3_ast R(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_sort bvs(unsigned w) { static Z3_sort t[65]; if (!t[w]) { t[w] = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, t[w])); } return t[w]; }
static Z3_ast zbool(E e);
static Z3_ast zc(E e) {
  if (zast.size() < X.all.size()) zast.resize(X.all.size() * 2, nullptr);
  if (zast[e->id]) return zast[e->id];
  Z3_ast r; auto K = [&](int i) { return zc(e->k[i]); };
  auto bit = [&](Z3_ast b) { return R(Z3_mk_ite(Z, b, zc(X.T()), zc(X.F()))); };
#define NARY(F) r = K(0); for (size_t i = 1; i < e->k.size(); i++) { Z3_ast y = K(i); r = R(F(Z, r, y)); } break
#define BIN2(F) { Z3_ast x = K(0), y = K(1); r = R(F(Z, x, y)); break; }
  switch (e->op) {
    case O_CONST: r = R(Z3_mk_unsigned_int64(Z, e->c, bvs(e->w))); break;
    case O_VAR: r = R(Z3_mk_const(Z, Z3_mk_string_symbol(Z, X.varname[e->c].c_str()), bvs(e->w))); break;
    case O_ADD: NARY(Z3_mk_bvadd); case O_AND: if (e->w == 1) { r = bit(zbool(e)); break; } NARY(Z3_mk_bvand); case O_OR: if (e->w == 1) { r = bit(zbool(e)); break; } NARY(Z3_mk_bvor); case O_XOR: NARY(Z3_mk_bvxor); case O_CONCAT: NARY(Z3_mk_concat);
    case O_MUL: BIN2(Z3_mk_bvmul) case O_UDIV: BIN2(Z3_mk_bvudiv) case O_SDIV: BIN2(Z3_mk_bvsdiv) case O_UREM: BIN2(Z3_mk_bvurem) case O_SREM: BIN2(Z3_mk_bvsrem)
    case O_SHL: BIN2(Z3_mk_bvshl) case O_LSHR: BIN2(Z3_mk_bvlshr) case O_ASHR: BIN2(Z3_mk_bvashr)
    case O_NOT: r = R(Z3_mk_bvnot(Z, K(0))); break;
    case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: r = bit(zbool(e)); break;
    case O_ITE: { Z3_ast c = zbool(e->k[0]), x = K(1), y = K(2); r = R(Z3_mk_ite(Z, c, x, y)); break; }
    case O_SEXT: r = R(Z3_mk_sign_ext(Z, e->w - e->k[0]->w, K(0))); break; case O_EXTRACT: r = R(Z3_mk_extract(Z, e->lo + e->w - 1, e->lo, K(0))); break;
    default: die("zc op");
  }
  if (zast.size() < X.all.size()) zast.resize(X.all.size() * 2, nullptr); zast[e->id] = r; return r;
}
static std::vector<Z3_ast> zbl;
static Z3_ast zbool(E e) { // width-1 expression as a Z3 boolean
  if (zbl.size() < X.all.size()) zbl.resize(X.all.size() * 2, nullptr);
  if (zbl[e->id]) return zbl[e->id];
  Z3_ast r; 
  switch (e->op) {
    case O_CONST: r = R(e->c ? Z3_mk_true(Z) : Z3_mk_false(Z)); break;
    case O_EQ: { Z3_ast x, y; if (e->k[0]->w == 1) { x = zbool(e->k[0]); y = zbool(e->k[1]); } else { x = zc(e->k[0]); y = zc(e->k[1]); } r = R(Z3_mk_eq(Z, x, y)); break; }
    case O_ULT: { Z3_ast x = zc(e->k[0]), y = zc(e->k[1]); r = R(Z3_mk_bvult(Z, x, y)); break; } case O_ULE: { Z3_ast x = zc(e->k[0]), y = zc(e->k[1]); r = R(Z3_mk_bvule(Z, x, y)); break; }
    case O_SLT: { Z3_ast x = zc(e->k[0]), y = zc(e->k[1]); r = R(Z3_mk_bvslt(Z, x, y)); break; } case O_SLE: { Z3_ast x = zc(e->k[0]), y = zc(e->k[1]); r = R(Z3_mk_bvsle(Z, x, y)); break; }
    case O_NOT: r = R(Z3_mk_not(Z, zbool(e->k[0]))); break;
    case O_AND: case O_OR: { std::vector<Z3_ast> v; for (E x : e->k) v.push_back(zbool(x)); r = R(e->op == O_AND ? Z3_mk_and(Z, v.size(), v.data()) : Z3_mk_or(Z, v.size(), v.data())); break; }
    case O_ITE: { Z3_ast c = zbool(e->k[0]), x = zbool(e->k[1]), y = zbool(e->k[2]); r = R(Z3_mk_ite(Z, c, x, y)); break; }
    default: r = R(Z3_mk_eq(Z, zc(e), zc(X.T())));
  }
  if (zbl.size() < X.all.size()) zbl.resize(X.all.size() * 2, nullptr); zbl[e->id] = r; return r;
}
struct QR { int res; std::vector<std::pair<unsigned, uint64_t>> m; };
struct VH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 1469598103934665603ull; for (auto x : v) h = (h ^ x) * 1099511628211ull; return h; } };
static std::unordered_map<std::vector<uint32_t>, QR, VH> qcache;
static void zerr(Z3_context c, Z3_error_code e) { die(std::string("z3: ") + Z3_get_error_msg(c, e)); }
static void zinit() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, zerr);
  ZS = getenv("LSYM_QFBV") ? Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")) : Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, ZS);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), getenv("LSYM_QFBV") ? optQueryMs : std::min(optQueryMs, optFastMs)); Z3_solver_set_params(Z, ZS, p); Z3_params_dec_ref(Z, p);
}
// second attempt at a query the incremental solver could not settle quickly: bit-blasting with full preprocessing
static Z3_solver zslow() {
  Z3_tactic t = Z3_mk_tactic(Z, "qfbv"); Z3_tactic_inc_ref(Z, t); Z3_solver z = Z3_mk_solver_from_tactic(Z, t); Z3_solver_inc_ref(Z, z); Z3_tactic_dec_ref(Z, t);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), optQueryMs); Z3_solver_set_params(Z, z, p); Z3_params_dec_ref(Z, p); return z;
}
static std::unordered_map<E, std::bitset<256>> bsets;
static const std::bitset<256>& byteSet(E e, unsigned vi) {
  auto it = bsets.find(e); if (it != bsets.end()) return it->second;
  std::bitset<256> b; Model m(vi + 1, 0); unsigned n = 1u << X.varw[vi]; for (unsigned v = 0; v < n; v++) { m[vi] = v; if (evalM(e, m)) b.set(v); }
  return bsets[e] = b;
}
static std::map<std::string, std::pair<uint64_t,uint64_t>> qprof; static bool optProf = getenv("LSYM_PROF") != nullptr; static std::string loc(State&);
static void profq(State& s, uint64_t us) { auto& p = qprof[loc(s).substr(0, 120)]; p.first++; p.second += us; }
// Is pc && c satisfiable?  1 sat (model merged into out), 0 unsat, -1 unknown
static int solve(State& s, E c, Model* out, bool precise = false) {
  if (c->op == O_CONST) { if (c->c && out) *out = *s.model; return c->c; }
  // independence slice
  VarSet vs = *c->vars; std::vector<E> sl; std::vector<char> used(s.pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i] && (*s.pc[i]->vars & vs).any()) { used[i] = 1; VarSet o = vs; vs |= *s.pc[i]->vars; if (o != vs) ch = true; sl.push_back(s.pc[i]); } }
  if (!precise && vs.count() == 1) { // one byte-sized variable: exact set of satisfying values
    unsigned vi = 0; while (!vs.test(vi)) vi++;
    if (X.varw[vi] <= 8) {
      std::bitset<256> d = byteSet(c, vi); for (E x : sl) d &= byteSet(x, vi);
      SH->domq++; if (d.none()) return 0;
      if (out) { *out = *s.model; if (out->size() <= vi) out->resize(vi + 1, 0); unsigned v = 0; while (!d.test(v)) v++; (*out)[vi] = v; }
      return 1; } }
  std::vector<uint32_t> key; for (E x : sl) key.push_back(x->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end()); key.push_back(c->id | 0x80000000u);
  auto it = qcache.find(key); QR q;
  if (it != qcache.end()) { SH->cachehits++; q = it->second; }
  else {
    auto t = Clk::now();
    Z3_solver_push(Z, ZS);
    std::vector<E> as = sl; as.push_back(c);
    for (E x : as) Z3_solver_assert(Z, ZS, zbool(x));
    Z3_lbool r = Z3_solver_check(Z, ZS); Z3_solver zz = ZS;
    if (r == Z3_L_UNDEF && !getenv("LSYM_QFBV") && optFastMs < optQueryMs) { zz = zslow(); for (E x : as) Z3_solver_assert(Z, zz, zbool(x)); r = Z3_solver_check(Z, zz); }
    q.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (q.res == 1) {
      Z3_model m = Z3_solver_get_model(Z, zz); Z3_model_inc_ref(Z, m);
      for (unsigned i = 0; i < X.varname.size(); i++) if (vs.test(i)) {
        Z3_ast v = zc(X.varexpr[i]), o; uint64_t u = 0;
        if (Z3_model_eval(Z, m, v, true, &o)) { Z3_inc_ref(Z, o); Z3_get_numeral_uint64(Z, o, &u); Z3_dec_ref(Z, o); } q.m.push_back({i, u}); }
      Z3_model_dec_ref(Z, m);
    }
    if (zz != ZS) Z3_solver_dec_ref(Z, zz);
    Z3_solver_pop(Z, ZS, 1);
    uint64_t us = std::chrono::duration_cast<std::chrono::microseconds>(Clk::now() - t).count();
    SH->solver_us += us; SH->queries++; if (optProf) profq(s, us); if (q.res == 1) SH->qsat++; else if (q.res == 0) SH->qunsat++; else SH->unknown++;
    if (optVerbose && us > 2000000) fprintf(stderr, "slow query %.1fs res=%d constraints=%zu\n", us / 1e6, q.res, sl.size());
    if (q.res >= 0) { if (qcache.size() > 400000) qcache.clear(); qcache[key] = q; }
  }
  if (q.res == 1 && out) { *out = *s.model; for (auto& p : q.m) { if (out->size() <= p.first) out->resize(p.first + 1, 0); (*out)[p.first] = p.second; } }
  return q.res;
}

// ---------------------------------------------------------------- work list
static std::vector<State*> work; static int reportFd = -1;
static void writeReport(const std::string& t) { flock(reportFd, LOCK_EX); ssize_t n = write(reportFd, t.data(), t.size()); (void)n; flock(reportFd, LOCK_UN); }
static std::string loc(State& s) {
  std::string r; for (size_t i = s.st.size(); i-- > 0;) { Frame& f = s.st[i]; if (f.bb < f.f->bbs.size() && f.ip < f.f->bbs[f.bb].ins.size()) { const Instruction* I = f.f->bbs[f.bb].ins[f.ip].I; r += (r.empty() ? "" : " < ") + f.f->name; if (I) if (auto& d = I->getDebugLoc()) r += ":" + std::to_string(d.getLine()); } }
  return r;
}
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void report(State& s, const std::string& kind, const std::string& msg, const Model& m) {
  std::string t = "{\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(loc(s)) + "\",\"inputs\":[";
  bool first = true; for (auto& i : s.in) { uint64_t v = i.v.e ? evalM(i.v.e, m) : i.v.c; if (!first) t += ","; first = false; t += "[\"" + jesc(i.name) + "\"," + std::to_string(v) + "]"; }
  t += "],\"notes\":["; first = true; for (auto& v : s.notes) { if (!first) t += ","; first = false; t += std::to_string(v.e ? evalM(v.e, m) : v.c); }
  t += "]}\n"; writeReport(t); if (!optKeepGoing && kind != "sample" && kind != "incomplete") SH->stop = 1;
}
static void incomplete(State& s, const std::string& why, bool inputs = true) { SH->incomplete++; report(s, "incomplete", why, *s.model); if (!optKeepGoing) {} }

struct Kill {};   // terminate current path

static void pushFork(State* n);
static std::map<std::string, std::pair<uint64_t,uint64_t>> prof;
static void profile(State& s, int k) { if (!optProf) return; auto& p = prof[loc(s).substr(0, 120)]; if (k) p.second++; else p.first++; }
// A choice between constants inside e: its condition is settled first, so that what
// follows sees one of the constants and not the choice (at most 24 times on a path,
// since each may double the number of paths).
static const unsigned SETTLE = 24; static const bool optSelect = getenv("LSYM_SELECT") != nullptr;
static std::unordered_map<E, E> iteMemo;
static bool cstTree(E e, int d = 2) { return e->op == O_CONST || (d && e->op == O_ITE && cstTree(e->k[1], d - 1) && cstTree(e->k[2], d - 1)); }
static E pickIte(E e) {
  if (e->k.empty() || e->vars == &X.empty) return nullptr;
  auto it = iteMemo.find(e); if (it != iteMemo.end()) return it->second;
  E r = nullptr; if (e->op == O_ITE && e->w >= 32 && cstTree(e)) { r = pickIte(e->k[0]); if (!r) r = e->k[0]; } else for (E x : e->k) if ((r = pickIte(x))) break;
  return iteMemo[e] = r;
}
// Require a boolean decision; forks.  Returns the branch taken by `s`.
static bool decide(State& s, E c) {
  c = subst(c, s); if (c->op == O_CONST) return c->c;
  for (E i; s.settled < SETTLE && (i = pickIte(c));) { s.settled++; decide(s, i); E d = subst(c, s); if (d->op == O_CONST) return d->c; if (d == c) break; c = d; }
  bool cur = evalM(c, *s.model); Model m2; E other = cur ? X.not_(c) : c;
  int r = solve(s, other, &m2);
  if (r < 0) { incomplete(s, "solver gave no verdict on a branch"); throw Kill(); }
  if (r == 1) { State* n = new State(s); n->model = std::make_shared<Model>(m2); addPC(*n, other); n->depth++; s.depth++; SH->forks++; profile(s, 0); pushFork(n); addPC(s, cur ? c : X.not_(c)); }
  else { // implied: remember
    s.eqm[c] = cur; }
  return cur;
}
// Concretise: returns the value for this state; other values are explored by forks which re-execute.
static uint64_t concretize(State& s, Val v, unsigned w, const char* what) {
  if (!v.e) return v.c;
  E e = subst(v.e, s); if (e->op == O_CONST) return e->c;
  for (E i; s.settled < SETTLE && (i = pickIte(e));) { s.settled++; decide(s, i); E d = subst(e, s); if (d->op == O_CONST) return d->c; if (d == e) break; e = d; }
  uint64_t x = evalM(e, *s.model); E is = X.eq(e, X.cst(x, e->w)); Model m2;
  int r = solve(s, X.not_(is), &m2);
  if (r < 0) { incomplete(s, std::string("solver gave no verdict concretising ") + what); throw Kill(); }
  if (r == 1) {
    if (++s.enumcnt[e] > optEnum) { incomplete(s, std::string("too many values for ") + what); throw Kill(); }
    State* n = new State(s); n->model = std::make_shared<Model>(m2); addPC(*n, X.not_(is)); n->depth++; s.depth++; SH->forks++; profile(s, 0); pushFork(n); }
  addPC(s, is); learnEq(s, e, x); return x;
}
static void violation(State& s, const std::string& kind, const std::string& msg) { report(s, kind, msg, *s.model); throw Kill(); }

// Resolve an access of n bytes at address a. Returns the object slot; the
// address is left symbolic inside the object (caller decides).
static ObjP* resolve(State& s, E& a, uint64_t n, bool write, const char* what) {
  // a may be symbolic
  a = subst(a, s);
  uint64_t cur = evalM(a, *s.model); ObjP* slot = nullptr; Obj* o = findObj(s, cur, &slot);
  if (!o || cur + n > o->base + o->size || o->freed || (write && o->ro)) {
    std::string m = std::string(what) + ": invalid " + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes";
    if (o) m += (o->freed ? " in freed " : o->ro && write ? " to read-only " : " past the end of ") + o->name + " (size " + std::to_string(o->size) + ", offset " + std::to_string(cur - o->base) + ")";
    else if (cur < 4096) m += " at null pointer"; else m += " at wild pointer";
    violation(s, "memory", m);
  }
  if (a->op != O_CONST) {
    E inb = X.and_(X.ule(X.cst(o->base, 64), a), X.ule(a, X.cst(o->base + o->size - n, 64)));
    if (!decide(s, inb)) { violation(s, "memory", "internal: model mismatch"); }
    a = subst(a, s);
  }
  return slot;
}
static E byteAt(State& s, ObjP* slot, uint64_t off) {
  Obj* o = slot->get(); if (o->s.empty() || !o->s[off]) return X.cst(o->c[off], 8);
  if (o->s[off] == X.UNINIT) { o = wr(*slot); o->s[off] = freshVar(s, 8, "u"); }
  E e = o->s[off]; return e;
}
static E byteVal(State& s, ObjP* slot, uint64_t off) { E e = byteAt(s, slot, off); return e->op == O_EXTRACT ? X.extract(e->k[0], e->lo, e->w) : e; }
static Val loadConc(State& s, ObjP* slot, uint64_t off, unsigned nb, unsigned w) {
  Obj* o = slot->get(); bool sym = false; if (!o->s.empty()) for (unsigned i = 0; i < nb; i++) if (o->s[off + i]) sym = true;
  if (!sym) { uint64_t v = 0; memcpy(&v, &o->c[off], nb); return CV(v & maskw(w)); }
  std::vector<E> p; for (unsigned i = nb; i-- > 0;) p.push_back(byteAt(s, slot, off + i));
  E e = X.concat(p); if (e->w > w) e = X.extract(e, 0, w); else if (e->op == O_EXTRACT) e = X.extract(e->k[0], e->lo, e->w); return EV(e);
}
static Val memLoad(State& s, Val addr, unsigned w) {
  unsigned nb = (w + 7) / 8; if (nb > 8) die("load too wide");
  E a = toE(addr, 64); ObjP* slot;
  if (!addr.e) {
    Obj* o = findObj(s, addr.c, &slot);
    if (!o || addr.c + nb > o->base + o->size || o->freed) { resolve(s, a, nb, false, "load"); }
    return loadConc(s, slot, addr.c - o->base, nb, w);
  }
  slot = resolve(s, a, nb, false, "load"); Obj* o = slot->get();
  if (a->op == O_CONST) return loadConc(s, slot, a->c - o->base, nb, w);
  // symbolic offset: ITE over runs of equal values when small enough, otherwise fork
  E off = X.sub(a, X.cst(o->base, 64)); unsigned stride = 1, first = 0;
  if (off->op == O_CONCAT) { E l = off->k.back(); if (l->op == O_CONST && l->w < 32) { stride = 1u << l->w; first = l->c; } }
  else if (off->op == O_ADD) { uint64_t g = 0, c0 = 0; bool ok = true; for (E x : off->k) { uint64_t st = 1; if (x->op == O_CONST) { c0 = x->c; continue; } if (x->op == O_CONCAT && x->k.back()->op == O_CONST && x->k.back()->c == 0) st = 1ull << std::min<unsigned>(x->k.back()->w, 16); else if (x->op == O_MUL && x->k[1]->op == O_CONST) st = x->k[1]->c & (0 - x->k[1]->c); else ok = false; if (!g || st < g) g = st; } if (ok && g && g <= 65536) { stride = g; first = c0 % g; } }
  else if (off->op == O_MUL && off->k[1]->op == O_CONST) { uint64_t g = off->k[1]->c & (0 - off->k[1]->c); if (g <= 65536) stride = g; }
  uint64_t cnt = o->size >= first + nb ? (o->size - nb - first) / stride + 1 : 0; bool conc = true; std::vector<Val> vals;
  if (cnt && cnt <= 2048) {
    for (uint64_t i = 0; i < cnt; i++) { if (!o->s.empty()) for (unsigned j = 0; j < nb; j++) if (o->s[first + i * stride + j]) conc = false; }
    if (conc || cnt <= 80) {
      std::vector<std::pair<uint64_t, Val>> runs; // start offset, value
      for (uint64_t i = 0; i < cnt; i++) { Val v = loadConc(s, slot, first + i * stride, nb, w); if (runs.empty() || runs.back().second.e != v.e || runs.back().second.c != v.c) runs.push_back({first + i * stride, v}); }
      std::vector<Val> dv; bool allc = true; for (auto& r : runs) { if (r.second.e) { allc = false; break; } bool have = false; for (auto& d : dv) if (d.c == r.second.c) have = true; if (!have) dv.push_back(r.second); if (dv.size() > 8) break; }
      if (allc && dv.size() <= 8) { // few distinct values: case split on the value
        for (size_t k = 0; k + 1 < dv.size(); k++) { E in = X.F(); for (size_t i = 0; i < runs.size(); i++) if (runs[i].second.c == dv[k].c) { E lo = i ? X.ule(X.cst(runs[i].first, 64), off) : X.T(), hi = i + 1 < runs.size() ? X.ult(off, X.cst(runs[i + 1].first, 64)) : X.T(); in = X.or_(in, X.and_(lo, hi)); }
          if (decide(s, in)) return dv[k]; }
        return dv.back(); }
      if (runs.size() <= 300) {
        // balanced tree
        struct B { State& s; E off; std::vector<std::pair<uint64_t, Val>>& r; unsigned w; E go(size_t l, size_t h) { if (h - l == 1) return toE(r[l].second, w); size_t m = (l + h) / 2; return X.ite(X.ult(off, X.cst(r[m].first, 64)), go(l, m), go(m, h)); } } b{s, off, runs, w};
        return EV(b.go(0, runs.size()));
      }
    }
  }
  uint64_t ca = concretize(s, EV(a), 64, "a load address");
  return loadConc(s, slot, ca - o->base, nb, w);
}
static void storeConc(Obj* o, uint64_t off, unsigned nb, Val v, unsigned w) {
  if (!v.e) { memcpy(&o->c[off], &v.c, nb); if (!o->s.empty()) for (unsigned i = 0; i < nb; i++) o->s[off + i] = nullptr; return; }
  o->mksym(); E e = w < nb * 8 ? X.zext(v.e, nb * 8) : v.e;
  for (unsigned i = 0; i < nb; i++) { E b = X.rawextract(e, 8 * i, 8); if (b->op == O_CONST) { o->c[off + i] = b->c; o->s[off + i] = nullptr; } else o->s[off + i] = b; }
}
static void memStore(State& s, Val addr, Val v, unsigned w) {
  unsigned nb = (w + 7) / 8; E a = toE(addr, 64); ObjP* slot = resolve(s, a, nb, true, "store");
  uint64_t ca = a->op == O_CONST ? a->c : concretize(s, EV(a), 64, "a store address");
  Obj* o = wr(*slot); storeConc(o, ca - o->base, nb, v, w);
}
static ObjP* resolveRange(State& s, Val addr, uint64_t n, bool write, const char* what, uint64_t& off) {
  E a = toE(addr, 64); ObjP* slot = resolve(s, a, n, write, what); uint64_t ca = a->op == O_CONST ? a->c : concretize(s, EV(a), 64, "an address"); off = ca - (*slot)->base; return slot;
}
// symbolic length: first make sure it cannot leave the object, then enumerate
static uint64_t concLen(State& s, Val len, const char* what) { if (len.e) { len = EV(subst(len.e, s)); } return concretize(s, len, 64, what); }
static void doMemcpy(State& s, Val d, Val src, uint64_t n, const char* what, bool overlapok) {
  if (!n) return; uint64_t so, dofs; ObjP* ss = resolveRange(s, src, n, false, what, so); ObjP* ds = resolveRange(s, d, n, true, what, dofs);
  Obj* S = ss->get();
  if (!overlapok && S == ds->get() && so < dofs + n && dofs < so + n && so != dofs) violation(s, "memory", std::string(what) + ": overlapping memcpy");
  std::vector<uint8_t> c(S->c.begin() + so, S->c.begin() + so + n); std::vector<E> e; if (!S->s.empty()) e.assign(S->s.begin() + so, S->s.begin() + so + n);
  Obj* D = wr(*ds); memcpy(&D->c[dofs], c.data(), n);
  if (!e.empty()) { D->mksym(); for (uint64_t i = 0; i < n; i++) D->s[dofs + i] = e[i]; } else if (!D->s.empty()) for (uint64_t i = 0; i < n; i++) D->s[dofs + i] = nullptr;
}

// ---------------------------------------------------------------- decode
static Val constVal(const Constant* C);
static uint64_t constAddr(const Constant* C, int64_t& off) {
  if (auto* G = dyn_cast<GlobalVariable>(C)) return gaddr.at(G);
  if (auto* F = dyn_cast<Function>(C)) return fnmap.at(F)->addr;
  if (auto* A = dyn_cast<GlobalAlias>(C)) return constAddr(A->getAliasee(), off);
  if (auto* CE = dyn_cast<ConstantExpr>(C)) {
    if (CE->getOpcode() == Instruction::GetElementPtr) { APInt o(64, 0); cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, o); return constAddr(CE->getOperand(0), off) + o.getSExtValue(); }
    if (CE->isCast()) return constAddr(CE->getOperand(0), off);
    if (CE->getOpcode() == Instruction::Sub) { int64_t z; return constAddr(CE->getOperand(0), z) - constAddr(CE->getOperand(1), z); }
    if (CE->getOpcode() == Instruction::Add) { int64_t z; return constAddr(CE->getOperand(0), z) + constAddr(CE->getOperand(1), z); }
  }
  if (isa<ConstantPointerNull>(C)) return 0; if (auto* CI = dyn_cast<ConstantInt>(C)) return CI->getZExtValue();
  std::string s; raw_string_ostream os(s); C->print(os); die("unsupported constant " + os.str());
}
static Val constVal(const Constant* C) {
  if (auto* I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 64) die("wide int"); return CV(I->getZExtValue()); }
  if (isa<ConstantPointerNull>(C)) return CV(0); if (isa<UndefValue>(C)) { Type* T = C->getType(); if (T->isAggregateType()) { std::vector<E> k; for (unsigned i = 0; i < T->getStructNumElements(); i++) k.push_back(X.cst(0, tw(T->getStructElementType(i)))); return {0, X.agg(k)}; } return CV(0); }
  if (auto* F = dyn_cast<ConstantFP>(C)) return CV(F->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<ConstantAggregateZero>(C)) { Type* T = C->getType(); std::vector<E> k; for (unsigned i = 0; i < T->getStructNumElements(); i++) k.push_back(X.cst(0, tw(T->getStructElementType(i)))); return {0, X.agg(k)}; }
  if (auto* S = dyn_cast<ConstantStruct>(C)) { std::vector<E> k; for (unsigned i = 0; i < S->getNumOperands(); i++) k.push_back(toE(constVal(S->getOperand(i)), tw(S->getOperand(i)->getType()))); return {0, X.agg(k)}; }
  int64_t o = 0; return CV(constAddr(C, o));
}
static void initBytes(const Constant* C, std::vector<uint8_t>& b, uint64_t off) {
  Type* T = C->getType(); uint64_t sz = DL->getTypeStoreSize(T);
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto* A = dyn_cast<ConstantDataSequential>(C)) { uint64_t es = DL->getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); i++) initBytes(A->getElementAsConstant(i), b, off + i * es); return; }
  if (auto* A = dyn_cast<ConstantArray>(C)) { uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initBytes(A->getOperand(i), b, off + i * es); return; }
  if (auto* S = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initBytes(S->getOperand(i), b, off + L->getElementOffset(i)); return; }
  uint64_t v = constVal(C).c; memcpy(&b[off], &v, sz);
}
static void decode(Fn* f) {
  if (f->decoded) return; f->decoded = true; Function* F = f->F; std::map<const Value*, int> reg; std::map<const BasicBlock*, unsigned> bbi; unsigned nb = 0;
  for (auto& a : F->args()) reg[&a] = f->nregs++;
  for (auto& B : *F) { bbi[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = f->nregs++; }
  auto opn = [&](const Value* v) -> Opnd { Opnd o; o.w = tw(v->getType()); auto it = reg.find(v); if (it != reg.end()) { o.reg = it->second; o.v = CV(0); } else if (auto* C = dyn_cast<Constant>(v)) { o.reg = -1; o.v = constVal(C); } else { o.reg = -1; o.v = CV(0); } return o; };
  f->bbs.resize(nb);
  for (auto& B : *F) { BB& bb = f->bbs[bbi[&B]]; bb.covid = ncov++;
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue; In in; in.I = &I; in.dst = I.getType()->isVoidTy() ? -1 : reg[&I]; in.w = tw(I.getType()); in.sub = 0;
      unsigned oc = I.getOpcode();
      if (auto* X1 = dyn_cast<BinaryOperator>(&I)) { in.op = I.getType()->isFloatingPointTy() ? I_FBIN : I_BIN; in.sub = oc; if (I.getType()->isVectorTy()) die("vector op"); in.o = {opn(X1->getOperand(0)), opn(X1->getOperand(1))}; }
      else if (auto* C = dyn_cast<ICmpInst>(&I)) { in.op = I_CMP; in.sub = C->getPredicate(); in.o = {opn(C->getOperand(0)), opn(C->getOperand(1))}; }
      else if (auto* C = dyn_cast<FCmpInst>(&I)) { in.op = I_FCMP; in.sub = C->getPredicate(); in.o = {opn(C->getOperand(0)), opn(C->getOperand(1))}; }
      else if (auto* A = dyn_cast<AllocaInst>(&I)) { in.op = I_ALLOCA; in.imm = {DL->getTypeAllocSize(A->getAllocatedType())}; in.o = {opn(A->getArraySize())}; }
      else if (auto* L = dyn_cast<LoadInst>(&I)) { in.op = I_LOAD; in.o = {opn(L->getPointerOperand())}; if (!in.w) { in.idx.clear(); Type* T = L->getType(); if (!T->isStructTy()) die("load type"); auto* SL = DL->getStructLayout(cast<StructType>(T)); for (unsigned i = 0; i < T->getStructNumElements(); i++) { in.imm.push_back(SL->getElementOffset(i)); in.idx.push_back(tw(T->getStructElementType(i))); } } }
      else if (auto* S = dyn_cast<StoreInst>(&I)) { in.op = I_STORE; in.o = {opn(S->getValueOperand()), opn(S->getPointerOperand())}; Type* T = S->getValueOperand()->getType(); if (!tw(T)) { if (!T->isStructTy()) die("store type"); auto* SL = DL->getStructLayout(cast<StructType>(T)); for (unsigned i = 0; i < T->getStructNumElements(); i++) { in.imm.push_back(SL->getElementOffset(i)); in.idx.push_back(tw(T->getStructElementType(i))); } } }
      else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) { in.op = I_GEP; in.o = {opn(G->getPointerOperand())}; uint64_t co = 0;
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) { if (auto* ST = gi.getStructTypeOrNull()) { co += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); } else { uint64_t sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* CI = dyn_cast<ConstantInt>(gi.getOperand())) co += sc * CI->getSExtValue(); else { in.o.push_back(opn(gi.getOperand())); in.imm.push_back(sc); } } }
        in.imm.push_back(co); }
      else if (auto* C = dyn_cast<CastInst>(&I)) { in.op = I_CAST; in.sub = oc; in.o = {opn(C->getOperand(0))}; }
      else if (auto* Br = dyn_cast<BranchInst>(&I)) { if (Br->isConditional()) { in.op = I_CBR; in.o = {opn(Br->getCondition())}; in.idx = {bbi[Br->getSuccessor(0)], bbi[Br->getSuccessor(1)]}; } else { in.op = I_BR; in.idx = {bbi[Br->getSuccessor(0)]}; } }
      else if (auto* S = dyn_cast<SwitchInst>(&I)) { in.op = I_SWITCH; in.o = {opn(S->getCondition())}; in.idx = {bbi[S->getDefaultDest()]}; for (auto& c : S->cases()) { in.imm.push_back(c.getCaseValue()->getZExtValue()); in.idx.push_back(bbi[c.getCaseSuccessor()]); } }
      else if (auto* P = dyn_cast<PHINode>(&I)) { in.op = I_PHI; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { in.o.push_back(opn(P->getIncomingValue(i))); in.idx.push_back(bbi[P->getIncomingBlock(i)]); } }
      else if (auto* C = dyn_cast<CallInst>(&I)) { in.op = I_CALL; if (C->isInlineAsm()) die("inline asm"); for (auto& a : C->args()) { if (a->getType()->isMetadataTy()) { Opnd z; z.reg = -1; z.v = CV(0); z.w = 0; in.o.push_back(z); } else in.o.push_back(opn(a)); } auto* cf = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts()); if (cf) in.callee = fnmap.at(cf); else in.o.push_back(opn(C->getCalledOperand())); }
      else if (auto* R = dyn_cast<ReturnInst>(&I)) { in.op = I_RET; if (R->getReturnValue()) in.o = {opn(R->getReturnValue())}; }
      else if (auto* S = dyn_cast<SelectInst>(&I)) { in.op = I_SELECT; in.o = {opn(S->getCondition()), opn(S->getTrueValue()), opn(S->getFalseValue())}; }
      else if (isa<UnreachableInst>(I)) in.op = I_UNREACH;
      else if (auto* XV = dyn_cast<ExtractValueInst>(&I)) { in.op = I_XVAL; in.o = {opn(XV->getAggregateOperand())}; in.idx = {XV->getIndices()[0]}; if (XV->getNumIndices() != 1) die("nested extractvalue"); }
      else if (auto* IV = dyn_cast<InsertValueInst>(&I)) { in.op = I_IVAL; in.o = {opn(IV->getAggregateOperand()), opn(IV->getInsertedValueOperand())}; in.idx = {IV->getIndices()[0]}; if (IV->getNumIndices() != 1) die("nested insertvalue"); }
      else if (isa<FreezeInst>(I)) { in.op = I_FREEZE; in.o = {opn(I.getOperand(0))}; }
      else if (oc == Instruction::FNeg) { in.op = I_FNEG; in.o = {opn(I.getOperand(0))}; }
      else { std::string s; raw_string_ostream os(s); I.print(os); die("unsupported instruction " + os.str()); }
      bb.ins.push_back(std::move(in));
    } }
}

// ---------------------------------------------------------------- execution
static std::string cstr(State& s, uint64_t a) { std::string r; ObjP* sl; Obj* o = findObj(s, a, &sl); if (!o) return r; for (uint64_t i = a - o->base; i < o->size && o->c[i]; i++) r += (char)o->c[i]; return r; }
static double asD(uint64_t v, unsigned w) { if (w == 64) { double d; memcpy(&d, &v, 8); return d; } float f; uint32_t x = v; memcpy(&f, &x, 4); return f; }
static uint64_t frD(double d, unsigned w) { if (w == 64) { uint64_t v; memcpy(&v, &d, 8); return v; } float f = d; uint32_t x; memcpy(&x, &f, 4); return x; }

static Val binop(State& s, unsigned op, Val a, Val b, unsigned w) {
  if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
    if (!b.e) { if (!b.c) violation(s, "ub", "division by zero"); } else { E z = X.eq(b.e, X.cst(0, w)); if (decide(s, z)) violation(s, "ub", "division by zero"); } }
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c, r = 0; int64_t sxv = sx(x, w), syv = sx(y, w);
    switch (op) {
      case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
      case Instruction::UDiv: r = x / y; break; case Instruction::URem: r = x % y; break;
      case Instruction::SDiv: r = syv == -1 ? 0 - x : (uint64_t)(sxv / syv); break; case Instruction::SRem: r = syv == -1 ? 0 : (uint64_t)(sxv % syv); break;
      case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break; case Instruction::AShr: r = (uint64_t)(sxv >> (y >= w ? w - 1 : y)); break;
      default: die("binop");
    }
    return CV(r & maskw(w));
  }
  E x = toE(a, w), y = toE(b, w), r;
  switch (op) {
    case Instruction::Add: r = X.add(x, y); break; case Instruction::Sub: r = X.sub(x, y); break; case Instruction::Mul: r = X.mul(x, y); break;
    case Instruction::UDiv: r = X.udiv(x, y); break; case Instruction::URem: r = X.urem(x, y); break; case Instruction::SDiv: r = X.sdiv(x, y); break; case Instruction::SRem: r = X.srem(x, y); break;
    case Instruction::And: r = X.and_(x, y); break; case Instruction::Or: r = X.or_(x, y); break; case Instruction::Xor: r = X.xor_(x, y); break;
    case Instruction::Shl: r = X.shl(x, y); break; case Instruction::LShr: r = X.lshr(x, y); break; case Instruction::AShr: r = X.ashr(x, y); break;
    default: die("binop");
  }
  return EV(r);
}
static E cmpE(unsigned p, E a, E b) {
  switch (p) {
    case ICmpInst::ICMP_EQ: return X.eq(a, b); case ICmpInst::ICMP_NE: return X.ne(a, b); case ICmpInst::ICMP_ULT: return X.ult(a, b); case ICmpInst::ICMP_ULE: return X.ule(a, b);
    case ICmpInst::ICMP_UGT: return X.ult(b, a); case ICmpInst::ICMP_UGE: return X.ule(b, a); case ICmpInst::ICMP_SLT: return X.slt(a, b); case ICmpInst::ICMP_SLE: return X.sle(a, b);
    case ICmpInst::ICMP_SGT: return X.slt(b, a); case ICmpInst::ICMP_SGE: return X.sle(b, a);
  }
  die("icmp");
}
static bool cmpC(unsigned p, uint64_t a, uint64_t b, unsigned w) {
  int64_t x = sx(a, w), y = sx(b, w);
  switch (p) { case ICmpInst::ICMP_EQ: return a == b; case ICmpInst::ICMP_NE: return a != b; case ICmpInst::ICMP_ULT: return a < b; case ICmpInst::ICMP_ULE: return a <= b; case ICmpInst::ICMP_UGT: return a > b; case ICmpInst::ICMP_UGE: return a >= b; case ICmpInst::ICMP_SLT: return x < y; case ICmpInst::ICMP_SLE: return x <= y; case ICmpInst::ICMP_SGT: return x > y; case ICmpInst::ICMP_SGE: return x >= y; }
  die("icmp");
}

struct Done {};
// built-in functions; returns true when handled (result in r)
static bool builtin(State& s, Frame& f, In& in, Fn* cal, std::vector<Val>& a, Val& r) {
  const std::string& n = cal->name; r = CV(0);
  auto sw = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
  auto addInput = [&](const std::string& nm, Val v, unsigned w) { s.in.push_back({nm, v, (uint8_t)w}); };
  if (n == "vp_nd") { unsigned w = a[0].c; E e = freshVar(s, w, "v"); addInput(a[1].e ? "" : cstr(s, a[1].c), EV(e), w); r = EV(X.zext(e, 64)); return true; }
  if (n == "vp_range") { // (lo, hi, name): concrete per path
    uint64_t lo = a[0].c, hi = a[1].c; if (a[0].e || a[1].e) { lo = concretize(s, a[0], 64, "range bound"); hi = concretize(s, a[1], 64, "range bound"); }
    if (lo > hi) throw Kill();
    for (uint64_t v = lo + 1; v <= hi; v++) { State* m = new State(s); m->depth++; SH->forks++; Frame& g = m->st.back(); std::string nm = cstr(*m, a[2].c); m->in.push_back({nm, CV(v), 64}); g.r[in.dst] = CV(v); g.ip++; pushFork(m); }
    addInput(cstr(s, a[2].c), CV(lo), 64); r = CV(lo); return true; }
  if (n == "vp_assume") { if (!a[0].e) { if (!(a[0].c)) throw Kill(); return true; }
    E c = X.ne(subst(a[0].e, s), X.cst(0, a[0].e->w)); if (c->op == O_CONST) { if (!c->c) throw Kill(); return true; }
    if (!evalM(c, *s.model)) { Model m2; int q = solve(s, c, &m2); if (q < 0) { incomplete(s, "solver gave no verdict on an assumption"); throw Kill(); } if (!q) throw Kill(); s.model = std::make_shared<Model>(m2); }
    addPC(s, c); return true; }
  if (n == "vp_assert") { SH->asserts++; std::string msg = cstr(s, a[1].c);
    if (!a[0].e) { if (!a[0].c) violation(s, "assert", msg); return true; }
    E c = X.ne(subst(a[0].e, s), X.cst(0, a[0].e->w)); if (c->op == O_CONST) { if (!c->c) violation(s, "assert", msg); return true; }
    SH->asserts_q++; Model m2; int q = 1; if (evalM(c, *s.model)) q = solve(s, X.not_(c), &m2, true); else m2 = *s.model;
    if (q < 0) { incomplete(s, "solver gave no verdict on assertion: " + msg); throw Kill(); }
    if (q) { report(s, "assert", msg, m2); throw Kill(); }
    s.eqm[c] = 1; return true; }
  if (n == "vp_concrete") { r = CV(concretize(s, a[0], 64, "vp_concrete")); return true; }
  if (n == "vp_is_symbolic") { r = CV(a[0].e ? 1 : 0); return true; }
  if (n == "vp_symbolic_run") { r = CV(1); return true; }
  if (n == "vp_witness") { if (a[0].c < NWIT) SH->wit[a[0].c]++; return true; }
  if (n == "vp_note") { s.notes.push_back(a[0]); return true; }
  if (n == "vp_done") throw Done();
  if (n == "vp_fail") violation(s, "assert", cstr(s, a[0].c));
  if (n == "vp_readonly") { uint64_t p = a[0].c; ObjP* sl; Obj* o = findObj(s, p, &sl); if (o) wr(*sl)->ro = a[1].c; return true; }
  if (n == "vp_heap_live") { uint64_t c = 0; for (auto& o : s.objs) if (o.second->kind == 1 && !o.second->freed) c++; r = CV(c); return true; }
  if (n == "vp_obj_size") { ObjP* sl; uint64_t p = concretize(s, a[0], 64, "pointer"); Obj* o = findObj(s, p, &sl); r = CV(o ? o->base + o->size - p : 0); return true; }
  if (n == "vp_print") { fprintf(stderr, "[%d] %s", getpid(), cstr(s, a[0].c).c_str()); for (size_t i = 1; i < a.size(); i++) { if (a[i].e) fprintf(stderr, " sym(=%llu)", (unsigned long long)evalM(a[i].e, *s.model)); else fprintf(stderr, " %llu", (unsigned long long)a[i].c); } fprintf(stderr, "\n"); return true; }
  if (n == "malloc" || n == "calloc") {
    uint64_t sz; bool z = n == "calloc";
    if (z) { uint64_t x = concLen(s, a[0], "calloc count"), y = concLen(s, a[1], "calloc size"); sz = x * y; if (y && x > (1ull << 40) / y) { r = CV(0); return true; } }
    else sz = concLen(s, a[0], "malloc size");
    if (sz > (64ull << 20)) { r = CV(0); return true; } // allocations beyond 64 MiB fail
    ObjP o = newObj(s, sz, 1, "heap block", !z); r = CV(o->base); return true; }
  if (n == "free") { uint64_t p = concretize(s, a[0], 64, "free pointer"); if (!p) return true; auto it = s.objs.find(p); if (it == s.objs.end() || it->second->kind != 1) violation(s, "memory", "free of invalid pointer"); if (it->second->freed) violation(s, "memory", "double free");
    Obj* o = wr(it->second); o->freed = true; o->c.clear(); o->c.shrink_to_fit(); o->s.clear(); o->s.shrink_to_fit(); return true; }
  if (n == "realloc") { uint64_t sz = concLen(s, a[1], "realloc size"); uint64_t p = concretize(s, a[0], 64, "realloc pointer"); if (sz > (64ull << 20)) { r = CV(0); return true; }
    ObjP o = newObj(s, sz, 1, "heap block", true);
    if (p) { auto it = s.objs.find(p); if (it == s.objs.end() || it->second->kind != 1 || it->second->freed) violation(s, "memory", "realloc of invalid pointer"); uint64_t m = std::min(sz, it->second->size); doMemcpy(s, CV(o->base), CV(p), m, "realloc", true); Obj* q = wr(it->second); q->freed = true; q->c.clear(); q->s.clear(); }
    r = CV(o->base); return true; }
  if (n == "memcpy" || n == "memmove" || sw("llvm.memcpy") || sw("llvm.memmove")) {
    // an out-of-bounds length is found by the bounds test before enumeration
    bool ov = n == "memmove" || sw("llvm.memmove"); Val len = a[2]; if (len.e) len = EV(subst(len.e, s));
    if (len.e) { // check max length first: if it can exceed either object, that is a violation
      for (int k = 0; k < 2; k++) { if (a[k].e) continue; Obj* o = findObj(s, a[k].c); if (!o) continue; uint64_t room = o->base + o->size - a[k].c; E over = X.ult(X.cst(room, 64), len.e);
        if (decide(s, over)) violation(s, "memory", std::string(k ? "read" : "write") + " past the end of " + o->name + " in memcpy"); } }
    uint64_t L = concretize(s, len, 64, "memcpy length"); doMemcpy(s, a[0], a[1], L, "memcpy", ov); r = a[0]; return true; }
  if (n == "memset" || sw("llvm.memset")) {
    Val len = a[2]; if (len.e) len = EV(subst(len.e, s));
    if (len.e && !a[0].e) { Obj* o = findObj(s, a[0].c); if (o) { uint64_t room = o->base + o->size - a[0].c; if (decide(s, X.ult(X.cst(room, 64), len.e))) violation(s, "memory", "write past the end of " + o->name + " in memset"); } }
    uint64_t L = concretize(s, len, 64, "memset length"); r = a[0]; if (!L) return true; uint64_t off; ObjP* sl = resolveRange(s, a[0], L, true, "memset", off); Obj* o = wr(*sl);
    if (!a[1].e) { memset(&o->c[off], (int)a[1].c, L); if (!o->s.empty()) for (uint64_t i = 0; i < L; i++) o->s[off + i] = nullptr; }
    else { o->mksym(); E b = X.extract(a[1].e, 0, 8); for (uint64_t i = 0; i < L; i++) { if (b->op == O_CONST) { o->c[off + i] = b->c; o->s[off + i] = nullptr; } else o->s[off + i] = b; } }
    return true; }
  if (n == "memcmp" || n == "bcmp") { uint64_t L = concLen(s, a[2], "memcmp length"); if (!L) return true; uint64_t o1, o2; ObjP* p = resolveRange(s, a[0], L, false, "memcmp", o1); ObjP* q = resolveRange(s, a[1], L, false, "memcmp", o2);
    E res = X.cst(0, 32); for (uint64_t i = L; i-- > 0;) { E x = byteVal(s, p, o1 + i), y = byteVal(s, q, o2 + i); res = X.ite(X.eq(x, y), res, X.sub(X.zext(x, 32), X.zext(y, 32))); }
    r = EV(res); return true; }
  if (n == "strlen") { uint64_t p = concretize(s, a[0], 64, "string"); ObjP* sl; Obj* o = findObj(s, p, &sl); if (!o || o->freed) violation(s, "memory", "strlen of invalid pointer"); uint64_t i = p - o->base; for (;; i++) { if (i >= sl->get()->size) violation(s, "memory", "strlen runs past the end of " + sl->get()->name); E b = byteVal(s, sl, i); if (decide(s, X.eq(b, X.cst(0, 8)))) break; } r = CV(i - (p - sl->get()->base)); return true; }
  if (n == "abort" || n == "llvm.trap" || n == "llvm.ubsantrap") violation(s, "abort", "abort() reached");
  if (n == "__assert_fail") violation(s, "abort", "assertion failed: " + cstr(s, a[0].c));
  if (sw("llvm.lifetime") || sw("llvm.assume") || sw("llvm.dbg") || sw("llvm.experimental.noalias") || sw("llvm.va_end") || sw("llvm.stackrestore") || sw("llvm.prefetch")) return true;
  if (sw("llvm.stacksave")) return true;
  // variable arguments (x86-64): every one is passed in the overflow area
  if (sw("llvm.va_start")) {
    ObjP o = newObj(s, 8 * f.va.size(), 2, "variable arguments of " + f.f->name, true); f.al.push_back(o->base);
    for (size_t i = 0; i < f.va.size(); i++) { unsigned w = f.va[i].second; storeConc(o.get(), 8 * i, (w + 7) / 8, f.va[i].first, w); }
    auto put = [&](unsigned off, uint64_t v, unsigned w) { memStore(s, a[0].e ? EV(X.add(a[0].e, X.cst(off, 64))) : CV(a[0].c + off), CV(v), w); };
    put(0, 48, 32); put(4, 176, 32); put(8, o->base, 64); put(16, 0, 64); return true; }
  if (sw("llvm.va_copy")) { doMemcpy(s, a[0], a[1], 24, "va_copy", true); return true; }
  if (sw("llvm.expect")) { r = a[0]; return true; }
  if (sw("llvm.objectsize")) { r = CV(~0ull & maskw(in.w)); return true; }
  if (sw("llvm.is.constant")) { r = CV(0); return true; }
  unsigned w = in.w;
  auto A = [&](int i) { return toE(a[i], in.o[i].w); };
  if (sw("llvm.umin")) { r = EV(X.ite(X.ult(A(0), A(1)), A(0), A(1))); return true; } if (sw("llvm.umax")) { r = EV(X.ite(X.ult(A(0), A(1)), A(1), A(0))); return true; }
  if (sw("llvm.smin")) { r = EV(X.ite(X.slt(A(0), A(1)), A(0), A(1))); return true; } if (sw("llvm.smax")) { r = EV(X.ite(X.slt(A(0), A(1)), A(1), A(0))); return true; }
  if (sw("llvm.abs")) { r = EV(X.ite(X.slt(A(0), X.cst(0, w)), X.neg(A(0)), A(0))); return true; }
  if (sw("llvm.bswap")) { std::vector<E> p; for (unsigned i = 0; i < w; i += 8) p.push_back(X.extract(A(0), i, 8)); r = EV(X.concat(p)); return true; }
  if (sw("llvm.fshl") || sw("llvm.fshr")) { if (a[2].e) die("symbolic funnel shift"); unsigned k = a[2].c % w; if (!k) { r = sw("llvm.fshl") ? a[0] : a[1]; return true; } if (sw("llvm.fshr")) k = w - k; r = EV(X.concat({X.extract(A(0), 0, w - k), X.extract(A(1), w - k, k)})); return true; }
  if (sw("llvm.ctpop")) { E t = X.cst(0, w); for (unsigned i = 0; i < w; i++) t = X.add(t, X.zext(X.extract(A(0), i, 1), w)); r = EV(t); return true; }
  if (sw("llvm.cttz")) { E t = X.cst(w, w); for (unsigned i = w; i-- > 0;) t = X.ite(X.extract(A(0), i, 1), X.cst(i, w), t); r = EV(t); return true; }
  if (sw("llvm.ctlz")) { E t = X.cst(w, w); for (unsigned i = 0; i < w; i++) t = X.ite(X.extract(A(0), i, 1), X.cst(w - 1 - i, w), t); r = EV(t); return true; }
  if (n.find(".with.overflow") != std::string::npos) {
    unsigned ow = in.o[0].w; bool sg = n[5] == 's'; std::string op = n.substr(6, 3); E x = A(0), y = A(1), res, ov; unsigned W = 2 * ow; if (W > 64) {
      if (op == "add") { res = X.add(x, y); ov = sg ? X.and_(X.eq(X.extract(x, ow - 1, 1), X.extract(y, ow - 1, 1)), X.ne(X.extract(x, ow - 1, 1), X.extract(res, ow - 1, 1))) : X.ult(res, x); }
      else if (op == "sub") { res = X.sub(x, y); ov = sg ? X.and_(X.ne(X.extract(x, ow - 1, 1), X.extract(y, ow - 1, 1)), X.ne(X.extract(x, ow - 1, 1), X.extract(res, ow - 1, 1))) : X.ult(x, y); }
      else { res = X.mul(x, y); ov = X.ite(X.eq(x, X.cst(0, ow)), X.F(), sg ? X.ne(X.sdiv(res, X.ite(X.eq(x, X.cst(0, ow)), X.cst(1, ow), x)), y) : X.ne(X.udiv(res, X.ite(X.eq(x, X.cst(0, ow)), X.cst(1, ow), x)), y)); }
    } else { E wx = sg ? X.sext(x, W) : X.zext(x, W), wy = sg ? X.sext(y, W) : X.zext(y, W), wr_ = op == "add" ? X.add(wx, wy) : op == "sub" ? X.sub(wx, wy) : X.mul(wx, wy); res = X.extract(wr_, 0, ow); ov = X.ne(sg ? X.sext(res, W) : X.zext(res, W), wr_); }
    r = {0, X.agg({res, ov})}; return true; }
  if (sw("llvm.")) die("intrinsic " + n);
  return false;
}

static void step(State& s) {
  Frame* f = &s.st.back(); In& in = f->f->bbs[f->bb].ins[f->ip];
  auto O = [&](int i) -> Val { const Opnd& o = in.o[i]; return o.reg >= 0 ? f->r[o.reg] : o.v; };
  auto set = [&](Val v) { f->r[in.dst] = v; f->ip++; };
  auto jump = [&](unsigned b) {
    f->prev = f->bb; f->bb = b; f->ip = 0; BB& bb = f->f->bbs[b]; if (bb.covid < (1 << 14)) SH->bbcov[bb.covid].fetch_add(1, std::memory_order_relaxed);
    // evaluate phis in parallel
    size_t np = 0; std::vector<Val> tmp; for (; np < bb.ins.size() && bb.ins[np].op == I_PHI; np++) { In& p = bb.ins[np]; size_t k = 0; for (; k < p.idx.size() && p.idx[k] != f->prev; k++) ; tmp.push_back(p.o[k].reg >= 0 ? f->r[p.o[k].reg] : p.o[k].v); }
    for (size_t i = 0; i < np; i++) f->r[bb.ins[i].dst] = tmp[i]; f->ip = np; };
  switch (in.op) {
    case I_BIN: set(binop(s, in.sub, O(0), O(1), in.w)); break;
    case I_CMP: { Val a = O(0), b = O(1); unsigned w = in.o[0].w; if (!a.e && !b.e) set(CV(cmpC(in.sub, a.c, b.c, w))); else set(EV(cmpE(in.sub, toE(a, w), toE(b, w)))); break; }
    case I_ALLOCA: { uint64_t n = concretize(s, O(0), 64, "alloca size"); ObjP o = newObj(s, n * in.imm[0], 2, "local in " + f->f->name, true); f->al.push_back(o->base); set(CV(o->base)); break; }
    case I_LOAD: { if (in.w) set(memLoad(s, O(0), in.w)); else { std::vector<E> k; for (size_t i = 0; i < in.imm.size(); i++) { Val a = O(0); Val p = a.e ? EV(X.add(a.e, X.cst(in.imm[i], 64))) : CV(a.c + in.imm[i]); k.push_back(toE(memLoad(s, p, in.idx[i]), in.idx[i])); } set({0, X.agg(k)}); } break; }
    case I_STORE: { if (in.o[0].w) memStore(s, O(1), O(0), in.o[0].w); else { E g = O(0).e; for (size_t i = 0; i < in.imm.size(); i++) { Val a = O(1); Val p = a.e ? EV(X.add(a.e, X.cst(in.imm[i], 64))) : CV(a.c + in.imm[i]); memStore(s, p, EV(g->k[i]), in.idx[i]); } } f->ip++; break; }
    case I_GEP: { Val p = O(0); uint64_t co = in.imm.back(); E se = p.e; uint64_t ce = p.c + co; if (se) { se = X.add(se, X.cst(co, 64)); }
      for (size_t i = 1; i < in.o.size(); i++) { Val x = O(i); unsigned w = in.o[i].w; if (!x.e) { uint64_t d = (uint64_t)sx(x.c, w) * in.imm[i - 1]; if (se) se = X.add(se, X.cst(d, 64)); else ce += d; } else { if (!se) se = X.cst(ce, 64); se = X.add(se, X.mul(X.sext(x.e, 64), X.cst(in.imm[i - 1], 64))); } }
      set(se ? EV(se) : CV(ce)); break; }
    case I_CAST: { Val a = O(0); unsigned w0 = in.o[0].w, w = in.w;
      switch (in.sub) {
        case Instruction::ZExt: set(a.e ? EV(X.zext(a.e, w)) : a); break; case Instruction::SExt: set(a.e ? EV(X.sext(a.e, w)) : CV((uint64_t)sx(a.c, w0) & maskw(w))); break;
        case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: if (w < w0) set(a.e ? EV(X.extract(a.e, 0, w)) : CV(a.c & maskw(w))); else set(a.e ? EV(X.zext(a.e, w)) : a); break;
        case Instruction::BitCast: set(a); break;
        case Instruction::SIToFP: set(a.e ? EV(freshVar(s, w, "f")) : CV(frD((double)sx(a.c, w0), w))); break; case Instruction::UIToFP: set(a.e ? EV(freshVar(s, w, "f")) : CV(frD((double)a.c, w))); break;
        case Instruction::FPToSI: set(a.e ? EV(freshVar(s, w, "f")) : CV((uint64_t)(int64_t)asD(a.c, w0) & maskw(w))); break; case Instruction::FPToUI: set(a.e ? EV(freshVar(s, w, "f")) : CV((uint64_t)asD(a.c, w0) & maskw(w))); break;
        case Instruction::FPExt: case Instruction::FPTrunc: set(a.e ? EV(freshVar(s, w, "f")) : CV(frD(asD(a.c, w0), w))); break;
        default: die("cast");
      } break; }
    case I_FBIN: { Val a = O(0), b = O(1); if (a.e || b.e) set(EV(freshVar(s, in.w, "f"))); else { double x = asD(a.c, in.w), y = asD(b.c, in.w), r = 0; switch (in.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; } set(CV(frD(r, in.w))); } break; }
    case I_FNEG: { Val a = O(0); if (a.e) set(EV(freshVar(s, in.w, "f"))); else set(CV(frD(-asD(a.c, in.w), in.w))); break; }
    case I_FCMP: { Val a = O(0), b = O(1); unsigned w = in.o[0].w; if (a.e || b.e) set(EV(freshVar(s, 1, "f"))); else { double x = asD(a.c, w), y = asD(b.c, w); bool u = std::isnan(x) || std::isnan(y), r = false; switch (in.sub) { case FCmpInst::FCMP_OEQ: r = !u && x == y; break; case FCmpInst::FCMP_ONE: r = !u && x != y; break; case FCmpInst::FCMP_UNE: r = u || x != y; break; case FCmpInst::FCMP_OLT: r = !u && x < y; break; case FCmpInst::FCMP_OLE: r = !u && x <= y; break; case FCmpInst::FCMP_OGT: r = !u && x > y; break; case FCmpInst::FCMP_OGE: r = !u && x >= y; break; default: die("fcmp"); } set(CV(r)); } break; }
    case I_BR: jump(in.idx[0]); break;
    case I_CBR: { Val c = O(0); bool b = c.e ? decide(s, c.e) : (c.c & 1); f = &s.st.back(); jump(b ? in.idx[0] : in.idx[1]); break; }
    case I_SWITCH: { Val v = O(0); if (v.e) v = EV(subst(v.e, s));
      if (!v.e) { unsigned t = in.idx[0]; for (size_t i = 0; i < in.imm.size(); i++) if (in.imm[i] == v.c) { t = in.idx[i + 1]; break; } jump(t); break; }
      // group by target to limit forking
      unsigned w = in.o[0].w; std::vector<unsigned> tg; for (size_t i = 1; i < in.idx.size(); i++) if (in.idx[i] != in.idx[0] && std::find(tg.begin(), tg.end(), in.idx[i]) == tg.end()) tg.push_back(in.idx[i]);
      unsigned t = in.idx[0]; bool taken = false;
      // follow the model: the case it selects is decided first
      for (unsigned x : tg) { E c = X.F(); for (size_t i = 0; i < in.imm.size(); i++) if (in.idx[i + 1] == x) c = X.or_(c, X.eq(v.e, X.cst(in.imm[i], w))); if (decide(s, c)) { t = x; taken = true; break; } }
      (void)taken; f = &s.st.back(); jump(t); break; }
    case I_PHI: die("stray phi");
    case I_SELECT: { Val c = O(0), a = O(1), b = O(2); if (!c.e) { set(c.c ? a : b); break; } if (!in.w) { set(decide(s, c.e) ? a : b); break; }
      E cc = subst(c.e, s); if (optSelect && in.w == 64 && cc->op != O_CONST && s.settled < SETTLE) { s.settled++; set(decide(s, cc) ? a : b); break; } // a minimum or maximum written without a branch
      set(EV(X.ite(cc, toE(a, in.w), toE(b, in.w)))); break; }
    case I_UNREACH: violation(s, "ub", "unreachable code reached"); break;
    case I_XVAL: { E g = O(0).e; set(EV(g->k[in.idx[0]])); break; }
    case I_IVAL: { Val g = O(0); if (!g.e) die("insertvalue"); std::vector<E> k = g.e->k; k[in.idx[0]] = toE(O(1), in.o[1].w); set({0, X.agg(k)}); break; }
    case I_FREEZE: set(O(0)); break;
    case I_RET: { Val v = in.o.empty() ? CV(0) : O(0); for (uint64_t a : f->al) s.objs.erase(a); int d = f->dst; s.st.pop_back(); if (s.st.empty()) throw Done(); f = &s.st.back(); if (d >= 0) f->r[d] = v; f->ip++; break; }
    case I_CALL: {
      Fn* cal = in.callee; std::vector<Val> a; size_t na = in.o.size();
      if (!cal) { na--; uint64_t p = concretize(s, O(na), 64, "a function pointer"); auto it = fnaddr.find(p); if (it == fnaddr.end()) violation(s, "memory", "call through invalid function pointer"); cal = it->second; }
      for (size_t i = 0; i < na; i++) a.push_back(O(i));
      SH->fncalls[cal->id < NFN ? cal->id : NFN - 1].fetch_add(1, std::memory_order_relaxed);
      if (!cal->hasBody) { Val r; if (!builtin(s, *f, in, cal, a, r)) die("call to undefined function " + cal->name); f = &s.st.back(); if (in.dst >= 0) f->r[in.dst] = r; f->ip++; break; }
      if (s.st.size() > 400) { violation(s, "hang", "call depth"); }
      decode(cal); Frame g; g.f = cal; g.r.resize(cal->nregs, CV(0)); size_t np = cal->F->arg_size(); for (size_t i = 0; i < np && i < a.size(); i++) g.r[i] = a[i]; g.dst = in.dst; if (cal->F->isVarArg()) for (size_t i = np; i < na; i++) g.va.push_back({a[i], in.o[i].w}); s.st.push_back(std::move(g)); if (cal->bbs[0].covid < (1 << 14)) SH->bbcov[cal->bbs[0].covid]++; break; }
  }
}

static std::vector<pid_t> kids; static bool isChild = false; static pid_t rootPid;
static void pushFork(State* n) {
  // hand the new state to another process when one is idle
  work.push_back(n);
}
static void maybeSplit() {
  // when workers are idle and we have queued work, fork: child takes the oldest half
  static double last = 0, cost = 0.002; static bool wasChild = false;
  if (isChild != wasChild) { wasChild = isChild; last = elapsed(); }
  double now = elapsed(); if (now - last < 8 * cost) return;
  if (work.size() < 1) return;
  int a = SH->active.load(); if (a >= (int)optJobs) return;
  if (!SH->active.compare_exchange_strong(a, a + 1)) return;
  fflush(stdout); fflush(stderr);
  pid_t p = fork(); if (p < 0) { SH->active--; return; }
  std::vector<State*> give, keep; for (size_t i = 0; i < work.size(); i++) (i % 2 ? keep : give).push_back(work[i]);
  if (p == 0) { isChild = true; last = elapsed(); kids.clear(); work.swap(give); throw 1; /* child: abandon current path, run own work */ }
  last = elapsed(); cost = std::max(0.002, last - now);
  for (auto* w : give) delete w;
  work.swap(keep);
}
static void runAll() {
  uint64_t tick = 0;
  while (!work.empty()) {
    State* s = work.back(); work.pop_back(); uint64_t st0 = s->steps;
    try {
      while (true) {
        step(*s);
        if (++s->steps > optMaxSteps) { report(*s, "hang", "path exceeded the step limit", *s->model); throw Kill(); }
        if ((++tick & 255) == 0) { if (SH->stop) { SH->steps += s->steps - st0; delete s; return; } if (elapsed() > optTime) { SH->incomplete++; SH->stop = 3; delete s; return; } if (work.size() > 0 && SH->active.load() < (int)optJobs) maybeSplit();
          if ((tick & 65535) == 0) { if (isChild && kill(rootPid, 0) != 0) _exit(0); struct rusage ru; getrusage(RUSAGE_SELF, &ru); if ((unsigned long)ru.ru_maxrss / 1024 > optMemMB) { qcache.clear(); FILE* fp = fopen("/proc/self/statm", "r"); long a, b = 0; if (fp) { if (fscanf(fp, "%ld %ld", &a, &b) != 2) b = 0; fclose(fp); } if ((unsigned long)b * 4 / 1024 > optMemMB * 2) { SH->incomplete++; SH->stop = 4; } } } }
      }
    } catch (Kill&) { SH->killed++; } catch (Done&) { uint64_t pn = ++SH->paths; if ((pn & (pn - 1)) == 0 || pn % optSample == 0) { if (SH->samples++ < 24) report(*s, "sample", "", *s->model); } uint64_t d = s->depth, m = SH->maxdepth; while (d > m && !SH->maxdepth.compare_exchange_weak(m, d)) ; }
    catch (int) { /* forked child */ delete s; tick = 0; continue; }
    SH->steps += s->steps - st0; delete s;
    if (SH->stop) return;
  }
}

int main(int argc, char** argv) {
  std::string file, entry = "vp_main"; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "-j") optJobs = std::stoi(nx()); else if (a == "-q") optQueryMs = std::stoi(nx()); else if (a == "-t") optTime = std::stod(nx()); else if (a == "-s") optMaxSteps = std::stoull(nx()); else if (a == "-o") optOut = nx(); else if (a == "-e") entry = nx(); else if (a == "-v") optVerbose = true; else if (a == "-k") optKeepGoing = true; else if (a == "-n") optEnum = std::stoi(nx()); else file = a; }
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30)) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : rl.rlim_max; if (!getenv("LSYM_RE") && setrlimit(RLIMIT_STACK, &rl) == 0) { setenv("LSYM_RE", "1", 1); execv("/proc/self/exe", argv); } }
  T0 = Clk::now(); rootPid = getpid(); prctl(PR_SET_CHILD_SUBREAPER, 1);
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (SH) Shared(); SH->active = 1;
  SMDiagnostic err; M = parseIRFile(file, err, LC); if (!M) { err.print("lsym", errs()); return 3; } DL = &M->getDataLayout();
  reportFd = open((optOut + ".reports").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  zinit(); State* s = new State(); s->model = std::make_shared<Model>();
  uint64_t fa = 0x10000; for (auto& F : *M) { Fn* f = new Fn(); f->F = &F; f->name = F.getName().str(); f->id = fns.size(); f->addr = fa; fa += 16; f->hasBody = !F.isDeclaration(); fnmap[&F] = f; fnaddr[f->addr] = f; fns.push_back(f); }
  for (auto& G : M->globals()) { uint64_t sz = DL->getTypeAllocSize(G.getValueType()); auto o = newObj(*s, sz, 0, "global " + G.getName().str(), false); o->base = o->base; gaddr[&G] = o->base; }
  for (auto& G : M->globals()) { ObjP& o = s->objs[gaddr[&G]]; if (G.hasInitializer()) initBytes(G.getInitializer(), o->c, 0); else fprintf(stderr, "lsym: note: external global %s\n", G.getName().str().c_str()); o->ro = G.isConstant(); }
  Function* E0 = M->getFunction(entry); if (!E0) die("no entry"); Fn* ef = fnmap[E0];
  for (auto* f : fns) if (f->hasBody) decode(f);
  Frame f; f.f = ef; f.r.resize(ef->nregs, CV(0)); s->st.push_back(f); work.push_back(s);
  runAll();
  for (auto& p : qprof) fprintf(stderr, "%8llu queries %9.1f ms %s\n", (unsigned long long)p.second.first, p.second.second / 1e3, p.first.c_str());
  for (auto& p : prof) fprintf(stderr, "%8llu %s\n", (unsigned long long)p.second.first, p.first.c_str());
  for (auto w : work) delete w; work.clear();
  SH->active--;
  if (isChild) _exit(0);
  while (true) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0 && errno == EINTR) continue; if (p < 0) break; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->errors++; SH->stop = 5; } }
  FILE* o = fopen((optOut + ".json").c_str(), "w");
  fprintf(o, "{\"paths\":%llu,\"killed\":%llu,\"steps\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"domain_queries\":%llu,\"solver_s\":%.3f,\"asserts\":%llu,\"asserts_solver\":%llu,\"incomplete\":%llu,\"errors\":%llu,\"max_depth\":%llu,\"stop\":%d,\"wall_s\":%.3f,\"witness\":[",
    (unsigned long long)SH->paths, (unsigned long long)SH->killed, (unsigned long long)SH->steps, (unsigned long long)SH->forks, (unsigned long long)SH->queries, (unsigned long long)SH->qsat, (unsigned long long)SH->qunsat, (unsigned long long)SH->unknown, (unsigned long long)SH->cachehits, (unsigned long long)SH->domq, SH->solver_us / 1e6, (unsigned long long)SH->asserts, (unsigned long long)SH->asserts_q, (unsigned long long)SH->incomplete, (unsigned long long)SH->errors, (unsigned long long)SH->maxdepth, (int)SH->stop, elapsed());
  for (int i = 0; i < NWIT; i++) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)SH->wit[i]);
  fprintf(o, "],\"functions\":{"); bool first = true; for (auto* f : fns) if (f->hasBody && SH->fncalls[f->id < NFN ? f->id : NFN - 1]) { unsigned tot = 0, cov = 0; for (auto& b : f->bbs) { tot++; if (b.covid < (1 << 14) && SH->bbcov[b.covid]) cov++; } std::string src; if (auto* sp = f->F->getSubprogram()) src = sp->getFile()->getFilename().str(); fprintf(o, "%s\"%s\":{\"calls\":%llu,\"blocks\":%u,\"blocks_reached\":%u,\"file\":\"%s\"}", first ? "" : ",", f->name.c_str(), (unsigned long long)SH->fncalls[f->id < NFN ? f->id : NFN - 1], tot, cov, jesc(src).c_str()); first = false; }
  fprintf(o, "}}\n"); fclose(o);
  return 0;
}
