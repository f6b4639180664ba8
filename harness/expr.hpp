// Function expressions over arbitrary (uninterpreted) leaf functions: syntax
// trees, their construction through the library's overloads, and their
// mathematical meaning as truncated Taylor data (value and derivatives).
#pragma once
#include "common.hpp"
using namespace gsplines::functions;

// an arbitrary smooth function R -> R^dim
class Opaque : public FunctionInheritanceHelper<Opaque, Function, Opaque> {
  std::string nm_;

public:
  Opaque(std::pair<double, double> d, std::size_t dim, const std::string &n)
      : FunctionInheritanceHelper(d, dim, "opaque_" + n), nm_(n) {}
  Opaque(const Opaque &o) : FunctionInheritanceHelper(o), nm_(o.nm_) {}
  void value_impl(const Eigen::Ref<const Eigen::VectorXd> p,
                  Eigen::Ref<Eigen::MatrixXd> r) const override {
    for (long i = 0; i < p.size(); i++)
      for (std::size_t j = 0; j < get_codom_dim(); j++)
        r(i, j) = sym::uf(comp(nm_, j), p(i));
  }
  static std::string comp(const std::string &n, std::size_t j) {
    auto k = n.find('\'');
    std::string b = k == std::string::npos ? n : n.substr(0, k);
    return b + "_" + S(j) + (k == std::string::npos ? "" : n.substr(k));
  }

protected:
  Opaque *deriv_impl(std::size_t deg) const override {
    return new Opaque(get_domain(), get_codom_dim(), nm_ + std::string(deg, '\''));
  }
};

enum Op { LEAF, ADD, SUB, NEG, MUL, COMP, CAT };
static const char *opname[] = {"f", "add", "sub", "neg", "mul", "comp", "cat"};
struct Node;
using N = std::shared_ptr<Node>;
struct Node {
  Op op;
  std::string name;
  int codom;
  N l, r;
  int cat = 0; // bit 0: right operand is an rvalue, bit 1: left is an rvalue
  bool raw = false; // left operand is used as a plain function, not expression
  double a, b;      // domain
  std::string str() const {
    if (op == LEAF)
      return name;
    return std::string(opname[op]) + S(cat) + (raw ? "r" : "") + "(" + l->str() +
           (r ? "," + r->str() : "") + ")";
  }
};
struct Gen {
  int k = 0;
  // split points of the domain, so that equal domains stay equal
  N leaf(int codom, double a, double b) {
    N n = std::make_shared<Node>();
    n->op = LEAF;
    n->name = "f" + S(k++);
    n->codom = codom;
    n->a = a;
    n->b = b;
    return n;
  }
  // a tree with root op over leaves, on domain [a,b]; m splits [a,b]
  N mk(Op op, int codom, double a, double b, double m) {
    if (op == LEAF)
      return leaf(codom, a, b);
    N n = std::make_shared<Node>();
    n->op = op;
    n->codom = codom;
    n->a = a;
    n->b = b;
    switch (op) {
    case NEG: n->l = leaf(codom, a, b); break;
    case ADD:
    case SUB: n->l = leaf(codom, a, b); n->r = leaf(codom, a, b); break;
    case MUL: n->l = leaf(codom, a, b); n->r = leaf(1, a, b); break;
    case COMP: n->l = leaf(codom, -1000, 1000); n->r = leaf(1, a, b); break;
    default: n->l = leaf(codom, a, m); n->r = leaf(codom, m, b); break;
    }
    return n;
  }
};
inline FunctionExpression build(const N &n) {
  if (n->op == LEAF)
    return FunctionExpression(Opaque({n->a, n->b}, n->codom, n->name));
  FunctionExpression A = build(n->l);
  std::unique_ptr<FunctionBase> plain; // raw: the left operand is a leaf
  if (n->raw)
    plain = std::make_unique<Opaque>(std::make_pair(n->l->a, n->l->b), n->l->codom, n->l->name);
  if (n->op == NEG) {
    if (n->raw)
      return n->cat & 2 ? -std::move(*plain) : -*plain;
    return n->cat & 2 ? -std::move(A) : -A;
  }
  FunctionExpression B = build(n->r);
  const FunctionBase &fa = n->raw ? *plain : A;
  FunctionBase &ma = n->raw ? *plain : A;
#define OPS(EXPR)                                                              \
  switch (n->cat) {                                                            \
  case 0: return EXPR(fa, B);                                                  \
  case 1: return EXPR(fa, std::move(B));                                       \
  case 2: return EXPR(std::move(ma), B);                                       \
  default: return EXPR(std::move(ma), std::move(B));                           \
  }
#define E_ADD(x, y) (x) + (y)
#define E_SUB(x, y) (x) - (y)
#define E_MUL(x, y) (x) * (y)
#define E_COMP(x, y) (x).compose(y)
#define E_CAT(x, y) (x).concat(y)
  switch (n->op) {
  case ADD: OPS(E_ADD)
  case SUB: OPS(E_SUB)
  case MUL: OPS(E_MUL)
  case COMP: OPS(E_COMP)
  default: OPS(E_CAT)
  }
}
static const Op ALL[] = {LEAF, ADD, SUB, NEG, MUL, COMP, CAT};
// root over two subtrees, all value categories
static N root(Gen &g, Op op, Op lo, Op ro, int codom, bool flip, double a, double m, double b) {
  N n = std::make_shared<Node>();
  n->op = op;
  n->codom = codom;
  n->a = a;
  n->b = b;
  switch (op) {
  case NEG: n->l = g.mk(lo, codom, a, b, m); break;
  case ADD:
  case SUB: n->l = g.mk(lo, codom, a, b, m); n->r = g.mk(ro, codom, a, b, m); break;
  case MUL:
    n->l = g.mk(lo, flip ? 1 : codom, a, b, m);
    n->r = g.mk(ro, flip ? codom : 1, a, b, m);
    break;
  case COMP: n->l = g.mk(lo, codom, -1000, 1000, 0.5); n->r = g.mk(ro, 1, a, b, m); break;
  default:
    n->l = g.mk(lo, codom, a, m, (a + m) / 2);
    n->r = g.mk(ro, codom, m, b, (m + b) / 2);
  }
  return n;
}
// a chain x0 op x1 op ... op x_{n-1} of leaves, folded to the left or to the
// right; cut: n+1 ascending points, the domain is [cut(0), cut(n)]
static N chain(Gen &g, Op op, int n, int codom, bool right, int cat, const Vec &cut) {
  double a = cut(0), b = cut(n);
  std::vector<N> x;
  for (int i = 0; i < n; i++)
    switch (op) {
    case MUL: x.push_back(g.leaf(i == (right ? n - 1 : 0) ? codom : 1, a, b)); break;
    case COMP: x.push_back(i + 1 == n ? g.leaf(n == 1 ? codom : 1, a, b) : g.leaf(i == 0 ? codom : 1, -1000, 1000)); break;
    case CAT: x.push_back(g.leaf(codom, cut(i), cut(i + 1))); break;
    default: x.push_back(g.leaf(codom, a, b));
    }
  auto join = [&](N l, N r) {
    N k = std::make_shared<Node>();
    k->op = op;
    k->l = l;
    k->r = r;
    k->cat = cat;
    k->codom = op == COMP ? l->codom : std::max(l->codom, r->codom);
    k->a = op == COMP ? r->a : l->a;
    k->b = r->b;
    return k;
  };
  N acc = right ? x.back() : x[0];
  if (right)
    for (int i = n - 2; i >= 0; i--)
      acc = join(x[i], acc);
  else
    for (int i = 1; i < n; i++)
      acc = join(acc, x[i]);
  return acc;
}
static Vec cuts(double a, int n) {
  Vec d = sym::vars("len", n, 0.25, 3), c(n + 1);
  c(0) = a;
  for (int i = 0; i < n; i++)
    c(i + 1) = c(i) + d(i);
  return c;
}
// derivatives 0..K of every component at t
using Jet = std::vector<std::vector<double>>;
inline Jet jet(const N &n, double t, int K) {
  Jet r(n->codom, std::vector<double>(K + 1, 0.0));
  if (n->op == LEAF) {
    for (int j = 0; j < n->codom; j++)
      for (int k = 0; k <= K; k++)
        r[j][k] = sym::uf(Opaque::comp(n->name + std::string(k, '\''), j), t);
    return r;
  }
  if (n->op == CAT) {
    return t < n->l->b ? jet(n->l, t, K) : jet(n->r, t, K);
  }
  if (n->op == COMP) {
    Jet g = jet(n->r, t, K);
    Jet f = jet(n->l, g[0][0], K);
    const auto &q = g[0];
    for (int j = 0; j < n->codom; j++) {
      const auto &p = f[j];
      r[j][0] = p[0];
      if (K > 0) r[j][1] = p[1] * q[1];
      if (K > 1) r[j][2] = p[2] * q[1] * q[1] + p[1] * q[2];
      if (K > 2) r[j][3] = p[3] * q[1] * q[1] * q[1] + 3 * p[2] * q[1] * q[2] + p[1] * q[3];
    }
    return r;
  }
  Jet x = jet(n->l, t, K), y;
  if (n->r)
    y = jet(n->r, t, K);
  for (int j = 0; j < n->codom; j++)
    for (int k = 0; k <= K; k++)
      switch (n->op) {
      case NEG: r[j][k] = -x[j][k]; break;
      case ADD: r[j][k] = x[j][k] + y[j][k]; break;
      case SUB: r[j][k] = x[j][k] - y[j][k]; break;
      default: { // MUL: one side may be scalar
        double c = 1;
        for (int i = 0; i <= k; i++) {
          r[j][k] += c * x[x.size() > 1 ? j : 0][i] * y[y.size() > 1 ? j : 0][k - i];
          c = c * (k - i) / (i + 1);
        }
      }
      }
  return r;
}
// any point of [a,b]; the right end is a branch of its own
inline double point_in(double a, double b, double hi = 10) {
  double t = sym::var("t", -4, hi);
  if (sym::var("at_end", 0, 1) > 0.5)
    return b;
  sym::assume(t >= a);
  sym::assume(t < b);
  return t;
}
