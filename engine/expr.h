// Bit-vector expression DAG (hash-consed, width <= 64) with light simplification,
// concrete evaluation and lazy translation to Z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

struct Node {
  Op op; uint8_t w; uint32_t id; uint64_t k; const Node *a, *b, *c;
  mutable uint64_t stamp = 0, ev = 0;
  mutable Z3_ast zv = nullptr, zb = nullptr;
  mutable int sup = -2; // -2 not computed, -1 no variable, -3 several, else the only variable
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sxt(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

struct Val {
  uint64_t c; const Node* s;
  Val() : c(0), s(nullptr) {}
  template <class T, class = typename std::enable_if<std::is_integral<T>::value>::type> Val(T c) : c((uint64_t)c), s(nullptr) {}
  Val(const Node* n) : c(0), s(n) { if (n->op == CONST) { c = n->k; s = nullptr; } }
  bool sym() const { return s != nullptr; }
};

struct NodeHash { size_t operator()(const Node* n) const {
  uint64_t h = n->op * 0x9E3779B97F4A7C15ull ^ n->w; auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
  mix(n->k); mix((uint64_t)n->a); mix((uint64_t)n->b); mix((uint64_t)n->c); return h; } };
struct NodeEq { bool operator()(const Node* x, const Node* y) const {
  return x->op == y->op && x->w == y->w && x->k == y->k && x->a == y->a && x->b == y->b && x->c == y->c; } };

struct VarInfo { std::string name; unsigned w; };

struct Exprs {
  std::unordered_set<Node*, NodeHash, NodeEq> tab;
  std::vector<VarInfo> vars;      // by var index
  std::vector<const Node*> varNodes;
  Z3_context z;
  uint64_t stampCtr = 0;
  uint32_t nextId = 1;

  const Node* mk(Op op, unsigned w, uint64_t k, const Node* a = nullptr, const Node* b = nullptr, const Node* c = nullptr) {
    Node key{op, (uint8_t)w, 0, k, a, b, c};
    auto it = tab.find(&key);
    if (it != tab.end()) return *it;
    Node* n = new Node(key); n->id = nextId++;
    tab.insert(n); return n;
  }
  const Node* cst(uint64_t v, unsigned w) { return mk(CONST, w, v & maskw(w)); }
  const Node* node(Val v, unsigned w) { return v.s ? v.s : cst(v.c, w); }
  const Node* var(unsigned idx) { return varNodes[idx]; }
  // variables are shared between states: index i of width w under the same key is the same variable
  std::unordered_map<std::string, const Node*> varByKey;
  const Node* getVar(const std::string& key, unsigned w) {
    auto it = varByKey.find(key);
    if (it != varByKey.end()) return it->second;
    const Node* n = mk(VAR, w, vars.size());
    vars.push_back({key, w}); varNodes.push_back(n); varByKey[key] = n; return n;
  }

  static uint64_t fold(Op op, unsigned w, uint64_t a, uint64_t b) {
    uint64_t m = maskw(w);
    switch (op) {
      case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
      case UDIV: return b ? (a / b) & m : m;
      case UREM: return b ? (a % b) & m : a;
      case SDIV: { int64_t x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
      case SREM: { int64_t x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
      case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
      case SHL: return b >= w ? 0 : (a << b) & m; case LSHR: return b >= w ? 0 : (a >> b);
      case ASHR: { int64_t x = sxt(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & m; }
      case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
      case SLT: return sxt(a, w) < sxt(b, w); case SLE: return sxt(a, w) <= sxt(b, w);
      default: abort();
    }
  }
  // w: operand width
  Val bin(Op op, unsigned w, Val x, Val y) {
    if (!x.s && !y.s) return Val(fold(op, w, x.c, y.c));
    bool cmp = op >= EQ && op <= SLE; unsigned rw = cmp ? 1 : w; uint64_t m = maskw(w);
    // canonical: constant on the right for commutative ops
    if ((op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ)) {
      if (!x.s) std::swap(x, y);
      else if (y.s && x.s->id > y.s->id) std::swap(x, y);
    }
    if (x.s && y.s && x.s == y.s) switch (op) {
      case SUB: case XOR: return 0; case AND: case OR: return x; case EQ: case ULE: case SLE: return 1; case ULT: case SLT: return 0; default: break; }
    if (!y.s) {
      uint64_t k = y.c; const Node* X = x.s;
      switch (op) {
        case ADD: case OR: case XOR: case SHL: case LSHR: case ASHR: if (k == 0) return x; break;
        case SUB: if (k == 0) return x; return bin(ADD, w, x, Val((0 - k) & m));
        case MUL: if (k == 0) return 0; if (k == 1) return x; break;
        case AND: if (k == 0) return 0; if (k == m) return x; break;
        case UDIV: if (k == 1) return x; break;
        default: break; }
      if (op == ADD && X->op == ADD && X->b->op == CONST) return bin(ADD, w, Val(X->a), Val((k + X->b->k) & m));
      if (op == OR && k == m) return Val(m);
      if (op == XOR && w == 1 && k == 1) { // logical not
        if (X->op == XOR && X->b->op == CONST) return Val(X->a);
      }
      if (op == EQ) {
        if (w == 1) { if (k == 1) return x; return bin(XOR, 1, x, Val(1)); }
        if (X->op == ZEXT) { unsigned iw = X->a->w; if (k > maskw(iw)) return 0; return bin(EQ, iw, Val(X->a), Val(k)); }
        if (X->op == SEXT) { unsigned iw = X->a->w; uint64_t ks = (uint64_t)sxt(k & maskw(iw), iw) & m; if (ks != k) return 0; return bin(EQ, iw, Val(X->a), Val(k & maskw(iw))); }
        if (X->op == ADD && X->b->op == CONST) return bin(EQ, w, Val(X->a), Val((k - X->b->k) & m));
        if (X->op == ITE && X->b->op == CONST && X->c->op == CONST) {
          bool t = X->b->k == k, e = X->c->k == k;
          if (t && e) return 1; if (!t && !e) return 0;
          return t ? Val(X->a) : bin(XOR, 1, Val(X->a), Val(1));
        }
      }
      if (op == ULT && k == 0) return 0;
      if (op == ULE && k == m) return 1;
      if ((op == AND) && X->op == ZEXT && k == maskw(X->a->w)) return x;
      if ((op == AND || op == OR) && w == 1) return k ? (op == AND ? x : Val(1)) : (op == AND ? Val(0) : x);
    } else if (!x.s) {
      if (op == ULE && x.c == 0) return 1;
      if (op == ULT && x.c == m) return 0;
      if ((op == SHL || op == LSHR || op == UDIV || op == UREM) && x.c == 0) return 0;
    }
    return Val(mk(op, rw, 0, node(x, w), node(y, w)));
  }
  Val notb(Val x) { return bin(XOR, 1, x, Val(1)); }
  Val ite(Val c, unsigned w, Val t, Val e) {
    if (!c.s) return c.c ? t : e;
    if (!t.s && !e.s && t.c == e.c) return t;
    if (t.s && t.s == e.s) return t;
    if (w == 1) {
      if (!t.s && !e.s) return t.c ? c : notb(c);
      if (!t.s) return t.c ? bin(OR, 1, c, e) : bin(AND, 1, notb(c), e);
      if (!e.s) return e.c ? bin(OR, 1, notb(c), t) : bin(AND, 1, c, t);
    }
    return Val(mk(ITE, w, 0, c.s, node(t, w), node(e, w)));
  }
  Val zext(Val x, unsigned from, unsigned to) {
    if (!x.s) return Val(x.c & maskw(from)); if (from == to) return x;
    if (x.s->op == ZEXT) return Val(mk(ZEXT, to, 0, x.s->a));
    return Val(mk(ZEXT, to, 0, x.s));
  }
  Val sext(Val x, unsigned from, unsigned to) {
    if (!x.s) return Val((uint64_t)sxt(x.c, from) & maskw(to)); if (from == to) return x;
    return Val(mk(SEXT, to, 0, x.s));
  }
  Val extract(Val x, unsigned from, unsigned lo, unsigned w) { // bits [lo,lo+w)
    if (!x.s) return Val((x.c >> lo) & maskw(w));
    if (lo == 0 && w == from) return x;
    const Node* X = x.s;
    if (X->op == EXTRACT) return extract(Val(X->a), X->a->w, lo + X->k, w);
    if (X->op == ZEXT || X->op == SEXT) {
      unsigned iw = X->a->w;
      if (lo + w <= iw) return extract(Val(X->a), iw, lo, w);
      if (X->op == ZEXT && lo >= iw) return 0;
    }
    if (X->op == CONCAT) { // a = high, b = low
      unsigned lw = X->b->w;
      if (lo + w <= lw) return extract(Val(X->b), lw, lo, w);
      if (lo >= lw) return extract(Val(X->a), X->a->w, lo - lw, w);
    }
    if (lo == 0 && (X->op == ADD || X->op == AND || X->op == OR || X->op == XOR || X->op == MUL) ) {
      return bin(X->op, w, extract(Val(X->a), from, 0, w), extract(Val(X->b), from, 0, w));
    }
    if (X->op == ITE) return ite(Val(X->a), w, extract(Val(X->b), from, lo, w), extract(Val(X->c), from, lo, w));
    return Val(mk(EXTRACT, w, lo, x.s));
  }
  Val concat(Val hi, unsigned hw, Val lo, unsigned lw) {
    if (!hi.s && !lo.s) return Val((hi.c << lw) | lo.c);
    if (!hi.s && hi.c == 0) return zext(lo, lw, hw + lw);
    if (hi.s && lo.s && hi.s->op == EXTRACT && lo.s->op == EXTRACT && hi.s->a == lo.s->a && hi.s->k == lo.s->k + lw)
      return extract(Val(hi.s->a), hi.s->a->w, lo.s->k, hw + lw);
    return Val(mk(CONCAT, hw + lw, 0, node(hi, hw), node(lo, lw)));
  }

  int support(const Node* n) { // the only variable of n
    if (n->sup != -2) return n->sup;
    if (n->op == CONST) return n->sup = -1; if (n->op == VAR) return n->sup = (int)n->k;
    int r = -1; for (const Node* k : {n->a, n->b, n->c}) if (k) { int q = support(k); if (q == -1) continue; if (r == -1) r = q; else if (q != r) { r = -3; break; } if (q == -3) { r = -3; break; } }
    return n->sup = r;
  }
  // ---- evaluation under an assignment (indexed by variable number; missing = 0)
  const std::vector<uint64_t>* asg = nullptr;
  uint64_t evalRec(const Node* n) {
    if (n->op == CONST) return n->k;
    if (n->stamp == stampCtr) return n->ev;
    uint64_t r;
    switch (n->op) {
      case VAR: r = n->k < asg->size() ? (*asg)[n->k] & maskw(n->w) : 0; break;
      case ITE: r = evalRec(n->a) ? evalRec(n->b) : evalRec(n->c); break;
      case CONCAT: r = (evalRec(n->a) << n->b->w) | evalRec(n->b); break;
      case EXTRACT: r = (evalRec(n->a) >> n->k) & maskw(n->w); break;
      case ZEXT: r = evalRec(n->a); break;
      case SEXT: r = (uint64_t)sxt(evalRec(n->a), n->a->w) & maskw(n->w); break;
      default: r = fold(n->op, n->a->w, evalRec(n->a), evalRec(n->b)); }
    n->stamp = stampCtr; n->ev = r; return r;
  }
  uint64_t eval(Val v, const std::vector<uint64_t>& as) { if (!v.s) return v.c; asg = &as; ++stampCtr; return evalRec(v.s); }

  // ---- Z3
  Z3_ast bit01[65][2] = {}; Z3_sort bvs[65] = {};
  Z3_sort bv(unsigned w) { if (!bvs[w]) { bvs[w] = Z3_mk_bv_sort(z, w); Z3_inc_ref(z, Z3_sort_to_ast(z, bvs[w])); } return bvs[w]; }
  Z3_ast kc(unsigned w, int k) { Z3_ast& a = bit01[w][k]; if (!a) a = keep(Z3_mk_unsigned_int64(z, k, bv(w))); return a; }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); return a; }
  Z3_ast toB(const Node* n) {
    if (n->zb) return n->zb;
    Z3_ast r;
    switch (n->op) {
      case CONST: r = n->k ? Z3_mk_true(z) : Z3_mk_false(z); break;
      case EQ: r = Z3_mk_eq(z, toV(n->a), toV(n->b)); break;
      case ULT: r = Z3_mk_bvult(z, toV(n->a), toV(n->b)); break;
      case ULE: r = Z3_mk_bvule(z, toV(n->a), toV(n->b)); break;
      case SLT: r = Z3_mk_bvslt(z, toV(n->a), toV(n->b)); break;
      case SLE: r = Z3_mk_bvsle(z, toV(n->a), toV(n->b)); break;
      case AND: case OR: { Z3_ast x[2] = {toB(n->a), toB(n->b)}; r = n->op == AND ? Z3_mk_and(z, 2, x) : Z3_mk_or(z, 2, x); break; }
      case XOR: if (n->b->op == CONST && n->b->k == 1) r = Z3_mk_not(z, toB(n->a)); else r = Z3_mk_xor(z, toB(n->a), toB(n->b)); break;
      case ITE: r = Z3_mk_ite(z, toB(n->a), toB(n->b), toB(n->c)); break;
      default: r = Z3_mk_eq(z, toV(n), kc(1, 1)); }
    return n->zb = keep(r);
  }
  Z3_ast toV(const Node* n) {
    if (n->zv) return n->zv;
    Z3_ast r;
    switch (n->op) {
      case CONST: r = Z3_mk_unsigned_int64(z, n->k, bv(n->w)); break;
      case VAR: { std::string nm = "v" + std::to_string(n->k); r = Z3_mk_const(z, Z3_mk_string_symbol(z, nm.c_str()), bv(n->w)); break; }
      case ADD: r = Z3_mk_bvadd(z, toV(n->a), toV(n->b)); break; case SUB: r = Z3_mk_bvsub(z, toV(n->a), toV(n->b)); break;
      case MUL: r = Z3_mk_bvmul(z, toV(n->a), toV(n->b)); break; case UDIV: r = Z3_mk_bvudiv(z, toV(n->a), toV(n->b)); break;
      case SDIV: r = Z3_mk_bvsdiv(z, toV(n->a), toV(n->b)); break; case UREM: r = Z3_mk_bvurem(z, toV(n->a), toV(n->b)); break;
      case SREM: r = Z3_mk_bvsrem(z, toV(n->a), toV(n->b)); break; case AND: r = Z3_mk_bvand(z, toV(n->a), toV(n->b)); break;
      case OR: r = Z3_mk_bvor(z, toV(n->a), toV(n->b)); break; case XOR: r = Z3_mk_bvxor(z, toV(n->a), toV(n->b)); break;
      case SHL: r = Z3_mk_bvshl(z, toV(n->a), toV(n->b)); break; case LSHR: r = Z3_mk_bvlshr(z, toV(n->a), toV(n->b)); break;
      case ASHR: r = Z3_mk_bvashr(z, toV(n->a), toV(n->b)); break;
      case ITE: r = Z3_mk_ite(z, toB(n->a), toV(n->b), toV(n->c)); break;
      case CONCAT: r = Z3_mk_concat(z, toV(n->a), toV(n->b)); break;
      case EXTRACT: r = Z3_mk_extract(z, n->k + n->w - 1, n->k, toV(n->a)); break;
      case ZEXT: if (n->a->w == 1) r = Z3_mk_ite(z, toB(n->a), kc(n->w, 1), kc(n->w, 0));
                 else r = Z3_mk_zero_ext(z, n->w - n->a->w, toV(n->a)); break;
      case SEXT: r = Z3_mk_sign_ext(z, n->w - n->a->w, toV(n->a)); break;
      default: { Z3_ast one = kc(1, 1), zero = kc(1, 0); r = Z3_mk_ite(z, toB(n), one, zero); } }
    return n->zv = keep(r);
  }
};
