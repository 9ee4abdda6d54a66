// sx: bounded symbolic executor for LLVM IR.
//
// Executes the IR clang produces for a harness plus the real library code with
// symbolic inputs.  Every branch on symbolic data is decided by Z3 (both sides are
// followed when both are satisfiable), every assertion is discharged by asking Z3 for
// a counterexample under the path condition, and every memory access is checked
// against the set of live objects.
#include "expr.h"
#include <llvm/ADT/APFloat.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>   // for the real libstdc++ rehash policy

using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ path endings
struct Vio { std::string kind, msg; };      // property violation candidate on this path
struct Kill {};                             // infeasible / assumed away
struct EngineError { std::string msg; };    // cannot decide

// ------------------------------------------------------------------ memory
enum Kind : uint8_t { K_GLOBAL, K_HEAP, K_STACK, K_EXC };
struct SB { const Node* e; uint8_t idx; };
struct Obj {
  int rc = 0; u64 base; u64 size; Kind kind; bool ro = false, lib = false; u64 align = 1;
  std::vector<uint8_t> data, st;   // st: 0 concrete, 1 symbolic, 2 uninitialised
  std::vector<SB> sym;             // lazily sized
  Obj() {}
  Obj(const Obj& o, int) : base(o.base), size(o.size), kind(o.kind), ro(o.ro), lib(o.lib), align(o.align), data(o.data), st(o.st), sym(o.sym) {}
};
struct ObjRef {
  Obj* p = nullptr;
  ObjRef() {} explicit ObjRef(Obj* o) : p(o) { if (p) p->rc++; }
  ObjRef(const ObjRef& o) : p(o.p) { if (p) p->rc++; }
  ObjRef(ObjRef&& o) noexcept : p(o.p) { o.p = nullptr; }
  ObjRef& operator=(ObjRef o) { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p && --p->rc == 0) delete p; }
};
struct Ent { u64 base; ObjRef o; };

// ------------------------------------------------------------------ decoded code
enum IOp : uint16_t { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_CAST, I_FCAST, I_MOV, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR,
  I_SWITCH, I_CALL, I_RET, I_UNREACH, I_LPAD, I_RESUME, I_XCHG, I_RMW, I_NOP, I_UNSUP, I_INSEXT };
struct Leaf { u64 off; unsigned w; };
struct Edge { u32 pc = 0; std::vector<std::pair<u32, int>> moves; };
struct Engine; struct State; struct CallX;
typedef bool (*Builtin)(Engine&, State&, const CallX&, std::vector<Val>&); // true: the caller advances past the call
struct FnInfo;
struct CallX {
  Function* callee = nullptr; FnInfo* fi = nullptr; int fn = 0; std::vector<int> args; std::vector<std::pair<unsigned, u64>> byval; // arg leaf index -> size
  std::vector<unsigned> argw;
  Builtin bi = nullptr; std::string biName; bool invoke = false; Edge normal, unwind; const LandingPadInst* lp = nullptr; u32 dst = 0; unsigned nret = 0; bool isvoid = true; unsigned retw = 0; bool tried = false;
};
struct Ext {
  std::vector<std::pair<int, int64_t>> terms; std::vector<unsigned> termw; Edge e1, e2; std::vector<std::pair<u64, Edge>> cases; CallX call;
  std::vector<Leaf> leaves; std::vector<std::pair<u32, int>> moves; std::string msg; Type* ty = nullptr;
};
struct I { IOp op; uint8_t sub = 0; uint8_t w = 0, w2 = 0; u32 dst = 0; int a = 0, b = 0, c = 0; int64_t imm = 0; const Instruction* src = nullptr; Ext* x = nullptr; };
struct FnInfo { Function* f; std::vector<I> code; std::vector<Val> consts; u32 nslots = 0; bool nounwind = false; u32 entry = 0; bool counted = false; };

struct Frame { FnInfo* f; u32 pc; std::vector<Val> regs; u32 stackMark; };
struct Caught { u64 addr; bool rethrown; };
struct ExcRec { u64 addr, ti, dtor; };
struct Input { std::string name; const Node* v; };

struct State {
  int entry = 0;
  std::vector<Frame> fr;
  std::vector<Ent> glob, heap, stack;
  u64 heapNext, stackNext;
  size_t heapLive = 0; size_t heapHoles = 0;
  std::vector<const Node*> pc, imp; std::vector<bool> fixed;
  struct Dom { u64 mask = 0; bool impure = false; }; std::vector<Dom> dom; // inputs with a small range: the values still possible
  std::vector<u64> asg;
  std::vector<Input> inputs; u32 uninitCtr = 0;
  std::vector<Val> obs;
  std::vector<Caught> caught; std::vector<ExcRec> exc; u64 lpExc = 0; int lpSel = 0;
  u64 instrs = 0; u32 depth = 0; u64 protLimit = 0;
  std::vector<std::pair<u64,u64>> freed; // recently freed ranges, for messages
};

static const u64 CBASE = 0x180000000ull, GBASE = 0x100000000ull, FBASE = 0x10000000ull, HBASE = 0x600000000000ull, SBASE = 0x700000000000ull;

struct EntryStats { std::string name; u64 domq = 0, paths = 0, killed = 0, instr = 0, forks = 0, queries = 0, asserts = 0, assertsSolver = 0, vios = 0, sat = 0, unsat = 0; double solver = 0; u32 maxDepth = 0, maxInputs = 0; std::set<std::string> cover; std::vector<std::string> samples; u64 sampleSeen = 0; };

struct Engine {
  std::unordered_map<Function*, Function*> redirect; // external function -> stand-in of the module
  LLVMContext ctx; std::unique_ptr<Module> mod; const DataLayout* DL; Exprs X;
  Z3_solver solver = nullptr; std::vector<const Node*> asserted;
  std::unordered_map<const GlobalValue*, u64> gaddr; std::map<std::string, u64> externs; u64 gnext = GBASE, cnext = CBASE; std::vector<Ent> cglob; bool bfs = false;
  std::unordered_map<u64, Function*> faddr; std::unordered_map<const Function*, u64> faddrR; u64 fnext = FBASE;
  std::unordered_map<const Function*, FnInfo*> fns; std::map<u64, int> tyids; std::map<u64, std::string> externName;
  std::vector<EntryStats> ent; std::map<std::string, Builtin> builtins; std::set<std::string> fnsExecuted, externsUsed;
  std::deque<std::unique_ptr<State>> work; FILE* out = stdout; u64 seed = 1, rng = 88172645463325252ull;
  u64 maxInstr = 20000000; unsigned maxVio = 2; double deadline = 1e18; unsigned queryTimeout = 60000; volatile int* sharedVio = nullptr; unsigned nsamples = 2;
  State* base = nullptr; int validate = 0; std::function<void()> share;

  u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

  // ---------------------------------------------------------------- solver
  void sync(const State& s) {
    size_t k = 0; while (k < asserted.size() && k < s.pc.size() && asserted[k] == s.pc[k]) k++;
    if (k < asserted.size()) { Z3_solver_pop(X.z, solver, asserted.size() - k); asserted.resize(k); }
    for (; k < s.pc.size(); k++) { Z3_solver_push(X.z, solver); Z3_solver_assert(X.z, solver, X.toB(s.pc[k])); asserted.push_back(s.pc[k]); }
  }
  bool query(State& s, Val cond, std::vector<u64>& model) { // is pc && cond satisfiable
    if (!cond.s) { model = s.asg; return cond.c; }
    EntryStats& es = ent[s.entry]; es.queries++; double t = now();
    sync(s);
    Z3_solver_push(X.z, solver); Z3_solver_assert(X.z, solver, X.toB(cond.s));
    Z3_lbool r = Z3_solver_check(X.z, solver);
    if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(X.z, solver); Z3_model_inc_ref(X.z, m);
      model.assign(X.vars.size(), 0);
      unsigned n = Z3_model_get_num_consts(X.z, m);
      for (unsigned i = 0; i < n; i++) {
        Z3_func_decl d = Z3_model_get_const_decl(X.z, m, i); Z3_ast v = Z3_model_get_const_interp(X.z, m, d);
        const char* nm = Z3_get_symbol_string(X.z, Z3_get_decl_name(X.z, d)); unsigned idx = atoi(nm + 1); uint64_t val = 0;
        if (nm[0] == 'v' && v && Z3_get_numeral_uint64(X.z, v, &val) && idx < model.size()) model[idx] = val;
      }
      Z3_model_dec_ref(X.z, m);
    }
    Z3_solver_pop(X.z, solver, 1);
    es.solver += now() - t;
    if (r == Z3_L_UNDEF) throw EngineError{"solver returned unknown (query budget)"};
    if (r == Z3_L_TRUE) { es.sat++; if (!X.eval(cond, model)) throw EngineError{"model does not satisfy the query (encoding error)"}; } else es.unsat++;
    return r == Z3_L_TRUE;
  }
  void taint(State& s, const Node* n) { // n relates several inputs: their ranges are no longer exact
    if (n->op == CONST || n->stamp == X.stampCtr) return; n->stamp = X.stampCtr;
    if (n->op == VAR) { if (n->k < s.dom.size()) s.dom[n->k].impure = true; return; }
    for (const Node* k : {n->a, n->b, n->c}) if (k) taint(s, k);
  }
  void fix(State& s, u64 k) { if (s.fixed.size() <= k) s.fixed.resize(k + 1); s.fixed[k] = true; }
  void freeVar(State& s, const Node* n, int& var) { // the only variable of n that is not pinned, -3 if several
    if (var == -3 || n->op == CONST) return;
    if (n->op == VAR) { if (n->k < s.fixed.size() && s.fixed[n->k]) return; if (var == -1) var = (int)n->k; else if (var != (int)n->k) var = -3; return; }
    if (n->stamp == X.stampCtr) return; n->stamp = X.stampCtr; n->ev = 0;
    for (const Node* k : {n->a, n->b, n->c}) if (k) freeVar(s, k, var);
  }
  // the values of the only input of n (which has a small range) for which n is true; false if n is not of that form
  bool domain(State& s, const Node* n, int& var, u64& yes, u64& all) {
    var = X.support(n); if (var == -3 && !s.fixed.empty()) { ++X.stampCtr; var = -1; freeVar(s, n, var); }
    if (var < 0 || (size_t)var >= s.dom.size() || !s.dom[var].mask) return false;
    all = s.dom[var].mask; yes = 0; u64 old = s.asg.size() > (size_t)var ? s.asg[var] : 0; if (s.asg.size() <= (size_t)var) s.asg.resize(var + 1);
    for (u64 m = all; m; m &= m - 1) { s.asg[var] = __builtin_ctzll(m); if (X.eval(Val(n), s.asg)) yes |= m & -m; }
    s.asg[var] = old; return true;
  }
  void assume(State& s, Val cond) {
    if (!cond.s) return; const Node* n = cond.s; int var; u64 yes, all;
    if (domain(s, n, var, yes, all)) { if (!(yes & (yes - 1))) fix(s, var); s.dom[var].mask = yes; if (!yes) s.dom[var].impure = true; }
    else {
      if (n->op == EQ && n->b->op == CONST && n->a->op == VAR) fix(s, n->a->k);
      if (X.support(n) == -3) { ++X.stampCtr; taint(s, n); }
    }
    s.pc.push_back(n);
  }
  // conditions whose truth follows syntactically: already on the path, or over pinned variables only
  bool onlyFixed(State& s, const Node* n) {
    if (n->op == CONST) return true; if (n->stamp == X.stampCtr) return n->ev;
    bool r = n->op == VAR ? n->k < s.fixed.size() && s.fixed[n->k] : (!n->a || onlyFixed(s, n->a)) && (!n->b || onlyFixed(s, n->b)) && (!n->c || onlyFixed(s, n->c));
    n->stamp = X.stampCtr; n->ev = r; return r;
  }
  int known(State& s, const Node* n) {
    const Node* neg = n->op == XOR && n->b->op == CONST ? n->a : nullptr;
    int var; u64 yes, all; if (domain(s, n, var, yes, all)) { ent[s.entry].domq++; if (yes == all) return 1; if (!yes) return 0; }
    for (auto* l : {&s.pc, &s.imp}) for (auto* c : *l) { if (c == n) return 1; if (neg ? c == neg : (c->op == XOR && c->a == n && c->b->op == CONST)) return 0; }
    if (!s.fixed.empty()) { ++X.stampCtr; if (onlyFixed(s, n)) return X.eval(Val(n), s.asg); }
    return -1;
  }
  // is pc && cond satisfiable; inputs with an exact small range need no solver
  bool feasible(State& s, Val cond, std::vector<u64>& m) {
    int var; u64 yes, all;
    if (cond.s && domain(s, cond.s, var, yes, all)) {
      if (!yes) { ent[s.entry].domq++; return false; }
      if (!s.dom[var].impure) { ent[s.entry].domq++; m = s.asg; if (m.size() <= (size_t)var) m.resize(var + 1); m[var] = __builtin_ctzll(yes); return true; }
    }
    return query(s, cond, m);
  }
  std::unique_ptr<State> clone(const State& s) { ent[s.entry].forks++; auto n = std::make_unique<State>(s); n->depth++; return n; }

  // Turn a symbolic value into a concrete one, forking over every feasible value.
  u64 concretize(State& s, Val v, unsigned w) {
    if (!v.s) return v.c;
    u64 k = X.eval(v, s.asg);
    if (!s.fixed.empty()) { ++X.stampCtr; if (onlyFixed(s, v.s)) return k; }
    Val eq = X.bin(EQ, w, v, Val(k));
    if (!eq.s) return k;
    std::vector<u64> m;
    if (feasible(s, X.notb(eq), m)) {
      auto n = clone(s); assume(*n, X.notb(eq)); n->asg = m; work.push_front(std::move(n)); // re-executes this instruction
    }
    assume(s, eq); return k;
  }
  // decide a condition; forks when both sides are feasible. The forked state gets the other side and `other` applied.
  bool branch(State& s, Val cond, const std::function<void(State&)>& other) {
    if (!cond.s) return cond.c;
    int kn = known(s, cond.s); if (kn >= 0) return kn;
    bool t = X.eval(cond, s.asg); Val neg = X.notb(cond); std::vector<u64> m;
    if (feasible(s, t ? neg : cond, m)) {
      auto n = clone(s); assume(*n, t ? neg : cond); n->asg = m; other(*n); work.push_front(std::move(n));
      assume(s, t ? cond : neg);
    } else s.imp.push_back(t ? cond.s : neg.s);
    return t;
  }

  // ---------------------------------------------------------------- objects
  static Ent* findIn(std::vector<Ent>& v, u64 a) {
    size_t lo = 0, hi = v.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].base <= a) lo = m + 1; else hi = m; }
    return lo ? &v[lo - 1] : nullptr;
  }
  std::vector<Ent>& region(State& s, u64 a) { return a >= SBASE ? s.stack : a >= HBASE ? s.heap : a >= CBASE ? cglob : s.glob; }
  std::string describe(State& s, u64 a, u64 n) {
    char b[200]; std::string what = "address not in any live object";
    Ent* e = findIn(region(s, a), a);
    if (a < 4096) what = "null pointer";
    else {
      for (auto& f : s.freed) if (a >= f.first && a < f.first + f.second + 1) { what = "freed heap object"; break; }
      if (e && e->o.p && a < e->base + e->o.p->size + 64) { snprintf(b, sizeof b, "offset %lld of a %s object of %llu bytes", (long long)(a - e->base), e->o.p->kind == K_HEAP ? "heap" : e->o.p->kind == K_STACK ? "stack" : "global", (unsigned long long)e->o.p->size); what = b; }
    }
    snprintf(b, sizeof b, "%llu-byte access: ", (unsigned long long)n); return b + what;
  }
  Obj* find(State& s, u64 a, u64 n) {
    Ent* e = findIn(region(s, a), a);
    if (!e || !e->o.p || a + n > e->base + e->o.p->size || a + n < a) throw Vio{"memory", "invalid access, " + describe(s, a, n)};
    return e->o.p;
  }
  Obj* findW(State& s, u64 a, u64 n) {
    Ent* e = findIn(region(s, a), a);
    if (!e || !e->o.p || a + n > e->base + e->o.p->size || a + n < a) throw Vio{"memory", "invalid write, " + describe(s, a, n)};
    if (e->o.p->ro) throw Vio{"memory", "write to constant memory"};
    if (e->o.p->kind == K_HEAP && e->base < s.protLimit) throw Vio{"protect", "a const operation writes to memory of the collection"};
    if (e->o.p->lib && s.protLimit) throw Vio{"protect", "a const operation writes to an unsynchronised static variable of the library"};
    if (e->o.p->rc > 1) e->o = ObjRef(new Obj(*e->o.p, 0));
    return e->o.p;
  }
  static Obj* mkObj(u64 base, u64 size, Kind k, bool init) {
    Obj* o = new Obj; o->base = base; o->size = size; o->kind = k; o->data.assign(size, 0); o->st.assign(size, init ? 0 : 2); return o;
  }
  u64 allocHeap(State& s, u64 n, u64 al, Kind k = K_HEAP) {
    if (al < 16) al = 16;
    u64 a = (s.heapNext + al - 1) / al * al; s.heapNext = a + n + 48;
    Obj* o = mkObj(a, n, k, false); o->align = al; s.heap.push_back({a, ObjRef(o)}); if (k == K_HEAP) s.heapLive++; return a;
  }
  void freeHeap(State& s, u64 a, int64_t sz, u64 al) {
    if (!a) return;
    Ent* e = a >= HBASE && a < SBASE ? findIn(s.heap, a) : nullptr;
    if (!e || e->base != a || !e->o.p || e->o.p->kind != K_HEAP) {
      bool dbl = false; for (auto& f : s.freed) if (f.first == a) dbl = true;
      throw Vio{"memory", dbl ? "double free" : "free of a pointer that is not a live heap block"};
    }
    if (sz >= 0 && (u64)sz != e->o.p->size) throw Vio{"memory", "sized deallocation with the wrong size (" + std::to_string(sz) + " vs " + std::to_string(e->o.p->size) + ")"};
    if (al && al != e->o.p->align && !(al <= 16 && e->o.p->align <= 16)) throw Vio{"memory", "deallocation with the wrong alignment"};
    if (e->base < s.protLimit) throw Vio{"protect", "a const operation frees memory of the collection"};
    s.freed.push_back({a, e->o.p->size}); e->o = ObjRef(); s.heapLive--; s.heapHoles++;
    if (s.heapHoles > 64 && s.heapHoles > s.heap.size() / 2) { s.heap.erase(std::remove_if(s.heap.begin(), s.heap.end(), [](Ent& x) { return !x.o.p; }), s.heap.end()); s.heapHoles = 0; }
  }
  u64 allocStack(State& s, u64 n, u64 al) {
    if (al < 16) al = 16;
    u64 a = (s.stackNext + al - 1) / al * al; s.stackNext = a + n + 32;
    s.stack.push_back({a, ObjRef(mkObj(a, n, K_STACK, false))}); return a;
  }
  Val uninit(State& s, Obj* o, u64 off) { // lazily give an uninitialised byte an arbitrary value
    const Node* v = X.getVar("uninit" + std::to_string(s.uninitCtr++), 8);
    Ent* e = findIn(region(s, o->base), o->base); // COW clone if shared
    if (e->o.p->rc > 1) { e->o = ObjRef(new Obj(*e->o.p, 0)); }
    Obj* q = e->o.p; if (q->sym.empty()) q->sym.resize(q->size); q->sym[off] = {v, 0}; q->st[off] = 1; return Val(v);
  }
  Val loadBytes(State& s, u64 a, unsigned nb, unsigned w) {
    Obj* o = find(s, a, nb); u64 off = a - o->base; const uint8_t* st = &o->st[off];
    bool conc = true; for (unsigned i = 0; i < nb; i++) if (st[i]) { conc = false; break; }
    if (conc) { u64 r = 0; memcpy(&r, &o->data[off], nb); return Val(r & maskw(w)); }
    // whole symbolic value?
    if (st[0] == 1) {
      const Node* e = o->sym[off].e; bool whole = o->sym[off].idx == 0 && (e->w == nb * 8u || (e->w < 8 && nb == 1));
      for (unsigned i = 1; whole && i < nb; i++) if (st[i] != 1 || o->sym[off + i].e != e || o->sym[off + i].idx != i) whole = false;
      if (whole) { Val v(e); if (e->w < nb * 8u) v = X.zext(v, e->w, nb * 8); return w < nb * 8 ? X.extract(v, nb * 8, 0, w) : v; }
    }
    Val r; unsigned cw = 0;
    for (unsigned i = 0; i < nb; i++) {
      Val b; o = find(s, a, nb);
      if (o->st[off + i] == 0) b = Val(o->data[off + i]);
      else if (o->st[off + i] == 2) b = uninit(s, o, off + i);
      else { SB sb = o->sym[off + i]; unsigned ew = sb.e->w; b = ew < 8 ? X.zext(Val(sb.e), ew, 8) : X.extract(Val(sb.e), ew, sb.idx * 8, 8); }
      r = cw ? X.concat(b, 8, r, cw) : b; cw += 8;
    }
    return w < nb * 8 ? X.extract(r, nb * 8, 0, w) : r;
  }
  void storeBytes(State& s, u64 a, unsigned nb, Val v, unsigned w) {
    Obj* o = findW(s, a, nb); u64 off = a - o->base;
    if (!v.s) { memcpy(&o->data[off], &v.c, nb); memset(&o->st[off], 0, nb); return; }
    if (w < nb * 8 && w >= 8) v = X.zext(v, w, nb * 8);
    if (!v.s) { storeBytes(s, a, nb, v, nb * 8); return; }
    if (o->sym.empty()) o->sym.resize(o->size);
    for (unsigned i = 0; i < nb; i++) { o->sym[off + i] = {v.s, (uint8_t)i}; o->st[off + i] = 1; }
  }
  void copyMem(State& s, u64 d, u64 a, u64 n) {
    if (!n) return;
    Obj* src = find(s, a, n); ObjRef hold(src); u64 so = a - src->base;
    std::vector<uint8_t> da(src->data.begin() + so, src->data.begin() + so + n), st(src->st.begin() + so, src->st.begin() + so + n); std::vector<SB> sy;
    if (!src->sym.empty()) sy.assign(src->sym.begin() + so, src->sym.begin() + so + n);
    Obj* dst = findW(s, d, n); u64 o = d - dst->base;
    memcpy(&dst->data[o], da.data(), n); memcpy(&dst->st[o], st.data(), n);
    if (!sy.empty()) { if (dst->sym.empty()) dst->sym.resize(dst->size); for (u64 i = 0; i < n; i++) dst->sym[o + i] = sy[i]; }
  }
  std::string readStr(State& s, u64 a) {
    std::string r; for (;;) { Val v = loadBytes(s, a++, 1, 8); if (v.s) throw EngineError{"symbolic string"}; if (!v.c) return r; r.push_back((char)v.c); if (r.size() > 100000) throw EngineError{"string too long"}; }
  }

  // ---------------------------------------------------------------- types & constants
  unsigned bits(Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
  bool flatten(Type* t, u64 off, std::vector<Leaf>& out) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) if (!flatten(st->getElementType(i), off + sl->getElementOffset(i), out)) return false; return true; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) if (!flatten(at->getElementType(), off + i * es, out)) return false; return true; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) if (!flatten(vt->getElementType(), off + i * es, out)) return false; return bits(vt->getElementType()) % 8 == 0; }
    if (t->isIntegerTy(128)) { out.push_back({off, 64}); out.push_back({off + 8, 64}); return true; }
    unsigned b = bits(t); if (!b || b > 64) return false;
    out.push_back({off, b}); return true;
  }
  unsigned nleaves(Type* t) { if (t->isVoidTy()) return 0; std::vector<Leaf> l; if (!flatten(t, 0, l)) return 1; return l.size(); }
  u64 leafIndex(Type* t, ArrayRef<unsigned> idx) {
    u64 r = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) r += nleaves(st->getElementType(k)); t = st->getElementType(i); }
      else { auto* at = cast<ArrayType>(t); r += i * nleaves(at->getElementType()); t = at->getElementType(); }
    }
    return r;
  }
  u64 extern_(const std::string& name, u64 size = 256) {
    auto it = externs.find(name); if (it != externs.end()) return it->second;
    throw EngineError{"external object " + name + " not materialised"};
  }
  u64 newExtern(State& s, const std::string& name, u64 size) {
    auto it = externs.find(name); if (it != externs.end()) return it->second;
    u64 a = (cnext + 15) / 16 * 16; cnext = a + size + 32;
    cglob.push_back({a, ObjRef(mkObj(a, size, K_GLOBAL, true))}); externs[name] = a; externName[a] = name; return a;
  }
  u64 fnAddr(const Function* f) {
    auto it = faddrR.find(f); if (it != faddrR.end()) return it->second;
    u64 a = fnext; fnext += 16; faddr[a] = const_cast<Function*>(f); faddrR[f] = a; return a;
  }
  u64 evalConst(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw EngineError{"wide constant"}; return ci->getZExtValue(); }
    if (auto* cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto* f = dyn_cast<Function>(c)) return fnAddr(f);
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
    if (auto* g = dyn_cast<GlobalVariable>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) throw EngineError{"unknown global"}; return it->second; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      unsigned w = bits(ce->getType());
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw EngineError{"gep constexpr"}; return evalConst(ce->getOperand(0)) + off.getSExtValue(); }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: return evalConst(ce->getOperand(0)) & maskw(w);
        case Instruction::Add: return (evalConst(ce->getOperand(0)) + evalConst(ce->getOperand(1))) & maskw(w);
        case Instruction::Sub: return (evalConst(ce->getOperand(0)) - evalConst(ce->getOperand(1))) & maskw(w);
        case Instruction::And: return evalConst(ce->getOperand(0)) & evalConst(ce->getOperand(1));
        case Instruction::ICmp: { u64 a = evalConst(ce->getOperand(0)), b = evalConst(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; } break; }
        default: break;
      }
    }
    std::string t; raw_string_ostream os(t); c->print(os); throw EngineError{"constant not supported: " + os.str()};
  }
  void flatConst(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (t->isIntegerTy(128)) { if (auto* ci = dyn_cast<ConstantInt>(c)) { out.push_back(Val(ci->getValue().extractBitsAsZExtValue(64, 0))); out.push_back(Val(ci->getValue().extractBitsAsZExtValue(64, 64))); } else { out.push_back(Val(0)); out.push_back(Val(0)); } return; }
    if (t->isAggregateType() || t->isVectorTy()) {
      unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; i++) flatConst(c->getAggregateElement(i), out);
    } else out.push_back(Val(evalConst(c)));
  }
  void initGlobal(const Constant* c, Obj* o, u64 off) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cds->getRawDataValues(); memcpy(&o->data[off], r.data(), r.size()); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(cs->getOperand(i), o, off + sl->getElementOffset(i)); return; }
    if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) { Type* et = c->getAggregateElement(0u)->getType(); u64 es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < c->getNumOperands(); i++) initGlobal(cast<Constant>(c->getOperand(i)), o, off + i * es); return; }
    if (auto* ci = dyn_cast<ConstantInt>(c)) if (ci->getBitWidth() > 64) { for (unsigned i = 0; i < ci->getBitWidth() / 64; i++) { u64 v = ci->getValue().extractBitsAsZExtValue(64, i * 64); memcpy(&o->data[off + 8 * i], &v, 8); } return; }
    u64 v = evalConst(c); memcpy(&o->data[off], &v, DL->getTypeStoreSize(t));
  }

  // ---------------------------------------------------------------- decode
  FnInfo* decode(Function* f);
  // ---------------------------------------------------------------- exceptions
  int tyid(u64 ti) { if (!ti) return 1; auto it = tyids.find(ti); if (it != tyids.end()) return it->second; int id = 2 + tyids.size(); tyids[ti] = id; return id; }
  bool tiMatch(State& s, u64 thrown, u64 c);
  void unwind(State& s, u64 exc, bool fromResume);
  void throwExc(State& s, u64 exc, u64 ti, u64 dtor) { s.exc.push_back({exc, ti, dtor}); unwind(s, exc, false); }
  void throwStd(State& s, const char* tiName) { u64 ti = extern_(tiName); u64 e = allocHeap(s, 32, 16, K_EXC); throwExc(s, e, ti, 0); }
  int clauseSelect(State& s, const LandingPadInst* lp, u64 ti, bool& isHandler);

  // ---------------------------------------------------------------- run
  void load(const char* file, State& s);
  void takeEdge(Frame& f, const Edge& e) {
    if (!e.moves.empty()) {
      if (e.moves.size() == 1) f.regs[e.moves[0].first] = get(f, e.moves[0].second);
      else { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (e.moves.size() > 64) { big.resize(e.moves.size()); t = big.data(); }
        for (size_t i = 0; i < e.moves.size(); i++) t[i] = get(f, e.moves[i].second);
        for (size_t i = 0; i < e.moves.size(); i++) f.regs[e.moves[i].first] = t[i]; }
    }
    f.pc = e.pc;
  }
  static inline Val get(const Frame& f, int o) { return o >= 0 ? f.regs[o] : f.f->consts[~o]; }
  static inline Val getL(const Frame& f, int o, unsigned i) { return o >= 0 ? f.regs[o + i] : f.f->consts[~o + i]; }
  void pushFrame(State& s, FnInfo* fi, const std::vector<Val>& args) {
    Frame nf; nf.f = fi; nf.pc = fi->entry; nf.regs.resize(fi->nslots); nf.stackMark = s.stack.size();
    for (size_t i = 0; i < args.size() && i < nf.regs.size(); i++) nf.regs[i] = args[i];
    if (!fi->counted) { fi->counted = true; fnsExecuted.insert(fi->f->getName().str()); }
    if (s.fr.size() > 2000) throw Vio{"stack", "call depth exceeds 2000 frames"};
    s.fr.push_back(std::move(nf));
  }
  void popStack(State& s, u32 mark) { s.stack.resize(mark); }
  void advanceCall(State& s) { Frame& f = s.fr.back(); const I& in = f.f->code[f.pc]; if (in.x->call.invoke) takeEdge(f, in.x->call.normal); else f.pc++; }
  void setRet(State& s, const CallX& c, Val v) { if (!c.isvoid && c.nret) s.fr.back().regs[c.dst] = v; }
  std::string where(State& s) {
    std::string r; int n = 0;
    for (size_t i = s.fr.size(); i-- > 0 && n < 14; n++) {
      const Instruction* in = s.fr[i].f->code[s.fr[i].pc].src; std::string nm = demangle(s.fr[i].f->f->getName().str());
      if (nm.size() > 140) nm = nm.substr(0, 137) + "...";
      r += (n ? " <- " : "") + nm; if (in) if (DILocation* dl = in->getDebugLoc()) r += "@" + dl->getFilename().str().substr(dl->getFilename().str().rfind('/') + 1) + ":" + std::to_string(dl->getLine());
    }
    return r;
  }
  static std::string esc(std::string x) { for (auto& c : x) if (c == '\t' || c == '\n') c = ' '; return x; }
  std::string inputStr(State& s, const std::vector<u64>& m) { std::string r; char b[64]; for (auto& i : s.inputs) { snprintf(b, sizeof b, "%llu", (unsigned long long)X.eval(Val(i.v), m)); r += (r.empty() ? "" : " ") + i.name + "=" + b; } return r; }
  void report(State& s, const std::string& kind, const std::string& msg, const std::vector<u64>& m) {
    EntryStats& e = ent[s.entry]; e.vios++; if (sharedVio) __sync_fetch_and_add(&sharedVio[s.entry], 1);
    fprintf(out, "VIO\t%s\t%s\t%s\t%s\t%s\n", e.name.c_str(), kind.c_str(), esc(msg).c_str(), esc(where(s)).c_str(), inputStr(s, m).c_str()); fflush(out);
  }
  u64 obsHash(State& s) { u64 h = 1469598103934665603ull; for (auto& o : s.obs) { h ^= X.eval(o, s.asg); h *= 1099511628211ull; } return h; }
  void diversify(State& s) { // a less degenerate model of the same path: perturb inputs one by one as long as the path condition still holds
    for (auto& i : s.inputs) {
      u64 k = i.v->k; if (k >= s.asg.size()) s.asg.resize(k + 1); u64 old = s.asg[k]; s.asg[k] = rnd() & maskw(i.v->w); bool ok = true;
      for (auto* c : s.pc) if (!X.eval(Val(c), s.asg)) { ok = false; break; }
      if (!ok) s.asg[k] = old;
    }
  }
  void pathDone(State& s) {
    EntryStats& e = ent[s.entry]; e.paths++;
    if (e.paths % 8 == 1) { std::vector<u64> m; const Node* t = X.mk(EQ, 1, 0, X.cst(0, 8), X.cst(0, 8)); if (!query(s, Val(t), m)) throw EngineError{"completed path has an unsatisfiable condition"}; }
    e.instr += s.instrs; e.maxDepth = std::max(e.maxDepth, s.depth); e.maxInputs = std::max<u32>(e.maxInputs, s.inputs.size());
    e.sampleSeen++; char b[64]; size_t slot = SIZE_MAX;
    if (e.samples.size() < nsamples) { slot = e.samples.size(); e.samples.emplace_back(); } else { u64 r = rnd() % e.sampleSeen; if (r < nsamples) slot = r; }
    if (slot != SIZE_MAX) { diversify(s); snprintf(b, sizeof b, "%016llx", (unsigned long long)obsHash(s)); e.samples[slot] = std::string(b) + "\t" + inputStr(s, s.asg); }
  }
  void exec(State& s); bool runState(std::unique_ptr<State>& sp); void drain(); u64 errors = 0, incomplete = 0, skipped = 0;
  void dump() {
    for (auto& e : ent) { if (!e.paths && !e.killed && !e.queries && !e.instr) continue;
      fprintf(out, "STAT\t%s\t%llu\t%llu\t%llu\t%llu\t%llu\t%.6f\t%llu\t%llu\t%u\t%u\t%llu\t%llu\t%llu\n", e.name.c_str(), (unsigned long long)e.paths, (unsigned long long)e.killed, (unsigned long long)e.instr, (unsigned long long)e.forks, (unsigned long long)e.queries, e.solver, (unsigned long long)e.asserts, (unsigned long long)e.assertsSolver, e.maxDepth, e.maxInputs, (unsigned long long)e.sat, (unsigned long long)e.unsat, (unsigned long long)e.domq);
      for (auto& c : e.cover) fprintf(out, "COVER\t%s\t%s\n", e.name.c_str(), esc(c).c_str());
      for (auto& c : e.samples) fprintf(out, "SAMPLE\t%s\t%s\n", e.name.c_str(), c.c_str()); }
    for (auto& f : fnsExecuted) fprintf(out, "FN\t%s\n", f.c_str());
    for (auto& f : externsUsed) fprintf(out, "MODEL\t%s\n", f.c_str());
    fflush(out);
  }
};


#include "sx2.inc"
