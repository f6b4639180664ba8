// Symbolic runtime.  A symbolic double is a NaN-boxed node id.  Nodes are kept
// as a DAG and lazily normalised to Laurent polynomials with exact rational
// coefficients over "atoms" (inputs and transcendental/inverse/abs terms).
// Branches on symbolic comparisons fork the process; feasibility and all
// assertions are decided by z3.
#include "sym.hpp"
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <gmpxx.h>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <Eigen/Dense>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <z3++.h>

typedef std::vector<std::pair<int, int>> Mono; // (atom, exponent), sorted
struct MonoHash {
  size_t operator()(const Mono &m) const {
    size_t h = 1469598103934665603ull;
    for (auto &p : m) {
      h = (h ^ (size_t)p.first) * 1099511628211ull;
      h = (h ^ (size_t)(p.second + 1000)) * 1099511628211ull;
    }
    return h;
  }
};
typedef std::unordered_map<Mono, mpq_class, MonoHash> PolyMap;
struct Poly {
  PolyMap t;
};
typedef std::shared_ptr<const Poly> PP;
struct Iv {
  double lo, hi;
};
enum Kind { VAR, INV, EXP, SIN, COS, SQRT, POW, ABS, MAXA, MINA, LOG, UF, LU };
struct Atom {
  Kind k;
  std::string name;
  PP a, b;
  double r = 0;
  Iv iv;
};
enum Op { N_CONST, N_POLY, N_ADD, N_SUB, N_MUL, N_DIV, N_NEG };
struct Node {
  Op op;
  uint64_t a, b; // raw double bits of the operands
  PP p;
};
enum Rel { LT, LE, EQ, NE }; // poly REL 0
struct Con {
  PP p;
  Rel r;
};

// a linear system met by the code: row i is sum A(i,j) y_j = b_i; the solution
// components are atoms of kind LU constrained by exactly these rows
struct LuSys {
  int n;
  std::vector<std::vector<std::pair<int, PP>>> row;
  std::vector<PP> b;
  std::vector<int> y;
};
static std::vector<LuSys> lusys;
static std::map<std::string, int> lukey;
static double LU_BOUND = 1e4;
struct Unsupported {
  std::string what;
};

static std::vector<Atom> atoms;
static std::vector<Node> nodes;
static std::vector<Con> pc;
static std::vector<Con> eqs; // assume_eq
static std::map<std::string, int> varid;
static std::map<std::string, int> atomkey;
static int outfd = 1;
static std::set<std::string> fnset;
static bool running = false;
static std::map<std::string, int> occ;
static std::vector<std::string> obs; // json of predicted observations (lazy)
static std::vector<std::tuple<std::string, double, double>> obsv;
static std::mt19937_64 rng(12345);
struct Shared {
  volatile long paths, queries, unsat, sat, unknown, forks, viol, nfn, lra, nra;
  volatile double solver_s;
  volatile long terms;
};
static Shared *sh;
static long max_paths = 4000;
static unsigned q_timeout_ms = 4000, v_timeout_ms = 20000;
static const size_t MAXTERMS = 300000;
static double deadline = 0;

static double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}
static std::string esc(const std::string &s) {
  std::string r;
  for (char c : s)
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n')
      r += ' ';
    else
      r += c;
  return r;
}
static void emit(const std::string &s) {
  std::string l = s + "\n";
  ssize_t k = write(outfd, l.data(), l.size());
  (void)k;
}
static std::string num(double x) {
  char b[64];
  if (std::isnan(x))
    return "\"nan\"";
  if (std::isinf(x))
    return "\"inf\"";
  snprintf(b, 64, "%.17g", x);
  return b;
}

// ------------------------------------------------------------------ boxing
static inline uint64_t bits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
static inline double unbits(uint64_t u) {
  double d;
  memcpy(&d, &u, 8);
  return d;
}
static const uint64_t TAG = 0x7FFCull;
static inline bool boxed(double d) { return (bits(d) >> 48) == TAG; }
static const uint64_t UNINIT = (TAG << 48) | 0xFFFFFFFFFFFFull;
static double mkbox(uint64_t id) { return unbits((TAG << 48) | id); }

// ------------------------------------------------------------------ interval
static double dn(double x) {
  return std::isinf(x) ? x : std::nextafter(x, -INFINITY);
}
static double up(double x) {
  return std::isinf(x) ? x : std::nextafter(x, INFINITY);
}
static double m0(double a, double b) { // 0*inf = 0
  if (a == 0 || b == 0)
    return 0;
  return a * b;
}
static Iv imul(Iv a, Iv b) {
  double c[4] = {m0(a.lo, b.lo), m0(a.lo, b.hi), m0(a.hi, b.lo), m0(a.hi, b.hi)};
  Iv r{c[0], c[0]};
  for (double x : c) {
    r.lo = std::min(r.lo, x);
    r.hi = std::max(r.hi, x);
  }
  return {dn(r.lo), up(r.hi)};
}
static Iv ipow(Iv a, int e) {
  if (e < 0) {
    if (a.lo <= 0 && a.hi >= 0)
      return {-INFINITY, INFINITY};
    Iv i{dn(1 / a.hi), up(1 / a.lo)};
    return ipow(i, -e);
  }
  if (e % 2 == 0) {
    Iv r{1, 1};
    double m = std::max(std::fabs(a.lo), std::fabs(a.hi));
    double l = (a.lo <= 0 && a.hi >= 0) ? 0 : std::min(std::fabs(a.lo), std::fabs(a.hi));
    r.lo = 1;
    r.hi = 1;
    for (int i = 0; i < e; i++) {
      r.lo = dn(r.lo * l);
      r.hi = up(r.hi * m);
    }
    if (r.lo < 0)
      r.lo = 0;
    return r;
  }
  Iv r{1, 1};
  // odd: monotone
  double lo = 1, hi = 1;
  for (int i = 0; i < e; i++) {
    lo *= a.lo;
    hi *= a.hi;
    if (i) {
      lo = dn(lo);
      hi = up(hi);
    }
  }
  r.lo = lo;
  r.hi = hi;
  return r;
}
static Iv mono_iv(const Mono &m) {
  Iv r{1, 1};
  for (auto &p : m)
    r = imul(r, ipow(atoms[p.first].iv, p.second));
  return r;
}
static Iv q_iv(const mpq_class &q) {
  double d = q.get_d(); // truncates
  return {dn(d), up(d)};
}
static Iv poly_iv(const Poly &p) {
  Iv r{0, 0};
  for (auto &t : p.t) {
    Iv x = imul(q_iv(t.second), mono_iv(t.first));
    r.lo = dn(r.lo + x.lo);
    r.hi = up(r.hi + x.hi);
  }
  if (std::isnan(r.lo))
    r.lo = -INFINITY;
  if (std::isnan(r.hi))
    r.hi = INFINITY;
  return r;
}

// ------------------------------------------------------------------ poly
static PP pconst(const mpq_class &q) {
  auto p = std::make_shared<Poly>();
  if (q != 0)
    p->t[Mono()] = q;
  return p;
}
static bool is_const(const Poly &p, mpq_class &c) {
  if (p.t.empty()) {
    c = 0;
    return true;
  }
  if (p.t.size() == 1 && p.t.begin()->first.empty()) {
    c = p.t.begin()->second;
    return true;
  }
  return false;
}
static void addto(PolyMap &r, const Mono &m, const mpq_class &c) {
  if (c == 0)
    return;
  auto it = r.find(m);
  if (it == r.end())
    r.emplace(m, c);
  else {
    it->second += c;
    if (it->second == 0)
      r.erase(it);
  }
  if (r.size() > MAXTERMS)
    throw Unsupported{"term too large"};
}
static PP padd(const Poly &a, const Poly &b, int s) {
  auto r = std::make_shared<Poly>();
  r->t = a.t;
  for (auto &t : b.t)
    addto(r->t, t.first, s > 0 ? t.second : mpq_class(-t.second));
  return r;
}
static PP pscale(const Poly &a, const mpq_class &c) {
  auto r = std::make_shared<Poly>();
  if (c == 0)
    return r;
  for (auto &t : a.t)
    r->t.emplace(t.first, t.second * c);
  return r;
}
static PP pmul(const Poly &a, const Poly &b);
static PP ppow(PP a, int e);
static std::string pkey(const Poly &p) {
  std::map<Mono, mpq_class> s(p.t.begin(), p.t.end());
  std::string k;
  for (auto &t : s) {
    k += t.second.get_str();
    for (auto &f : t.first)
      k += "*" + std::to_string(f.first) + "^" + std::to_string(f.second);
    k += ";";
  }
  return k;
}
static int mkatom(Kind k, const std::string &name, PP a, PP b, double r) {
  std::string key = std::to_string(k) + ":" + name + ":" +
                    (a ? pkey(*a) : "") + "|" + (b ? pkey(*b) : "") + "|" +
                    num(r);
  auto it = atomkey.find(key);
  if (it != atomkey.end())
    return it->second;
  Atom x;
  x.k = k;
  x.name = name;
  x.a = a;
  x.b = b;
  x.r = r;
  Iv i = a ? poly_iv(*a) : Iv{-INFINITY, INFINITY};
  Iv j = b ? poly_iv(*b) : Iv{-INFINITY, INFINITY};
  switch (k) {
  case INV:
    x.iv = ipow(i, -1);
    break;
  case EXP:
    x.iv = {std::max(0.0, dn(dn(std::exp(i.lo)))), up(up(std::exp(i.hi)))};
    break;
  case SIN:
  case COS:
    x.iv = {-1, 1};
    break;
  case SQRT:
    x.iv = {std::max(0.0, dn(dn(std::sqrt(std::max(0.0, i.lo))))), up(up(std::sqrt(std::max(0.0, i.hi))))};
    break;
  case POW:
    if (i.lo > 0) {
      double u = std::pow(i.lo, r), v = std::pow(i.hi, r);
      x.iv = {std::max(0.0, std::min(u, v) * (1 - 1e-14)), std::max(u, v) * (1 + 1e-14)};
    } else
      x.iv = {0, INFINITY};
    break;
  case ABS:
    x.iv = {0, std::max(std::fabs(i.lo), std::fabs(i.hi))};
    if (i.lo > 0)
      x.iv.lo = i.lo;
    if (i.hi < 0)
      x.iv.lo = -i.hi;
    break;
  case MAXA:
    x.iv = {std::max(i.lo, j.lo), std::max(i.hi, j.hi)};
    break;
  case MINA:
    x.iv = {std::min(i.lo, j.lo), std::min(i.hi, j.hi)};
    break;
  default:
    x.iv = {-INFINITY, INFINITY};
    if (!name.empty() && name[0] == '$') x.iv = {-16, 16};
  }
  atoms.push_back(x);
  atomkey[key] = (int)atoms.size() - 1;
  return (int)atoms.size() - 1;
}
static PP patom(int a, int e = 1) {
  auto p = std::make_shared<Poly>();
  if (e == 0)
    p->t[Mono()] = 1;
  else
    p->t[Mono{{a, e}}] = 1;
  return p;
}
// Coefficients of exp/sin/cos arguments that differ only by rounding (relative
// 1e-12: the same constant computed in two ways) are identified, so that equal
// functions get equal atoms. Terms below 1e-12 next to others are rounding too.
static std::map<Mono, std::vector<mpq_class>> argcoefs;
static PP snaparg(PP a) {
  PP r;
  {
    mpq_class top = 0, eps(1, 1000000000000L);
    for (auto &t : a->t)
      if (abs(t.second) > top) top = abs(t.second);
    auto p = std::make_shared<Poly>();
    for (auto &t : a->t)
      if (abs(t.second) > eps || top <= 1000 * eps) p->t[t.first] = t.second;
    if (p->t.size() != a->t.size()) a = p;
  }
  for (auto &t : a->t) {
    auto &v = argcoefs[t.first];
    bool hit = false;
    for (auto &q : v) {
      if (t.second == q || t.second == -q) { hit = true; break; }
      mpq_class d = abs(t.second) - q;
      if (abs(d) <= q * mpq_class(1, 1000000000000L)) {
        if (!r) r = std::make_shared<Poly>(*a);
        std::const_pointer_cast<Poly>(r)->t[t.first] = t.second < 0 ? mpq_class(-q) : q;
        hit = true;
        break;
      }
    }
    if (!hit) v.push_back(abs(t.second));
  }
  return r ? r : a;
}
static PP pexp(PP a) {
  mpq_class c;
  if (is_const(*a, c)) {
    if (c == 0)
      return pconst(1);
    return pconst(mpq_class(std::exp(c.get_d())));
  }
  return patom(mkatom(EXP, "", snaparg(a), nullptr, 0));
}
// canonical sign: is the (map-ordered) first coefficient negative?
static bool neg_lead(const Poly &p) {
  std::map<Mono, mpq_class> s(p.t.begin(), p.t.end());
  return !s.empty() && s.begin()->second < 0;
}
// multiple-angle expansion when the argument is m times one already in use
static std::vector<PP> trigargs;
static bool sameargs(const Poly &a, const Poly &b, int m) {
  if (a.t.size() != b.t.size()) return false;
  for (auto &t : a.t) {
    auto i = b.t.find(t.first);
    if (i == b.t.end()) return false;
    mpq_class d = t.second - i->second * m;
    if (abs(d) > abs(t.second) * mpq_class(1, 1000000000000L)) return false;
  }
  return true;
}
static void trig(PP a, PP &sn, PP &cs) { // canonical sign
  PP arg = snaparg(a);
  for (int m = 1; m <= 8; m++)
    for (auto &q : trigargs)
      if (sameargs(*arg, *q, m)) {
        PP s1 = patom(mkatom(SIN, "", q, nullptr, 0)), c1 = patom(mkatom(COS, "", q, nullptr, 0));
        sn = s1;
        cs = c1;
        for (int i = 1; i < m; i++) {
          PP s2 = padd(*pmul(*sn, *c1), *pmul(*cs, *s1), 1);
          cs = padd(*pmul(*cs, *c1), *pmul(*sn, *s1), -1);
          sn = s2;
        }
        return;
      }
  trigargs.push_back(arg);
  sn = patom(mkatom(SIN, "", arg, nullptr, 0));
  cs = patom(mkatom(COS, "", arg, nullptr, 0));
}
static PP psin(PP a) {
  mpq_class c;
  if (is_const(*a, c))
    return pconst(mpq_class(std::sin(c.get_d())));
  PP sn, cs;
  a = snaparg(a);
  bool n = neg_lead(*a);
  trig(n ? pscale(*a, -1) : a, sn, cs);
  return n ? pscale(*sn, -1) : sn;
}
static PP pcos(PP a) {
  mpq_class c;
  if (is_const(*a, c))
    return pconst(mpq_class(std::cos(c.get_d())));
  PP sn, cs;
  a = snaparg(a);
  trig(neg_lead(*a) ? pscale(*a, -1) : a, sn, cs);
  return cs;
}
static PP pinv(PP b);
static bool special(Kind k) { return k == EXP || k == SIN || k == SQRT || k == POW; }
// multiply monomials, normalising special atoms; result appended into r
static void mulmono(PolyMap &r, const Mono &x, const Mono &y, const mpq_class &c) {
  Mono m;
  m.reserve(x.size() + y.size());
  bool sp = false;
  size_t i = 0, j = 0;
  int nexp = 0;
  while (i < x.size() || j < y.size()) {
    std::pair<int, int> f;
    if (j >= y.size() || (i < x.size() && x[i].first < y[j].first))
      f = x[i++];
    else if (i >= x.size() || y[j].first < x[i].first)
      f = y[j++];
    else {
      f = {x[i].first, x[i].second + y[j].second};
      i++;
      j++;
    }
    if (f.second == 0)
      continue;
    Kind k = atoms[f.first].k;
    if (k == EXP) {
      nexp++;
      if (f.second != 1)
        sp = true;
    } else if (k == SIN && f.second > 1)
      sp = true;
    else if (k == SQRT && (f.second > 1 || f.second < 0))
      sp = true;
    else if (k == POW && std::fabs(f.second * atoms[f.first].r) >= 1)
      sp = true;
    else if (k == INV && f.second < 0)
      sp = true;
    m.push_back(f);
  }
  if (nexp > 1)
    sp = true;
  if (!sp) {
    addto(r, m, c);
    return;
  }
  // slow path
  Mono base;
  PP acc = pconst(c);
  PP earg;
  for (auto &f : m) {
    Atom at = atoms[f.first];
    if (at.k == EXP) {
      PP s = pscale(*at.a, f.second);
      earg = earg ? padd(*earg, *s, 1) : s;
    } else if (at.k == SIN && f.second > 1) {
      PP cs = patom(mkatom(COS, "", at.a, nullptr, 0));
      PP one = pconst(1);
      PP q = padd(*one, *pmul(*cs, *cs), -1);
      acc = pmul(*acc, *ppow(q, f.second / 2));
      if (f.second % 2)
        base.push_back({f.first, 1});
    } else if (at.k == SQRT && (f.second > 1 || f.second < 0)) {
      int e = f.second;
      int h = (e >= 0) ? e / 2 : -((-e + 1) / 2);
      int rem = e - 2 * h;
      acc = pmul(*acc, *ppow(at.a, h));
      if (rem)
        base.push_back({f.first, rem});
    } else if (at.k == POW && std::fabs(f.second * at.r) >= 1) {
      double er = f.second * at.r;
      double fl = std::trunc(er);
      if (std::fabs(er - std::round(er)) < 1e-12) {
        acc = pmul(*acc, *ppow(at.a, (int)std::lround(er)));
      } else {
        // keep fractional part as a power of the same atom if possible
        double rest = (er - fl) / at.r;
        if (std::fabs(rest - std::round(rest)) < 1e-9) {
          acc = pmul(*acc, *ppow(at.a, (int)fl));
          base.push_back({f.first, (int)std::lround(rest)});
        } else
          base.push_back(f);
      }
    } else if (at.k == INV && f.second < 0) {
      acc = pmul(*acc, *ppow(at.a, -f.second));
    } else
      base.push_back(f);
  }
  auto bp = std::make_shared<Poly>();
  bp->t[base] = 1;
  PP res;
  if (earg) {
    PP e = pexp(earg);
    // attach exp atom to base directly (no recursion through pmul special)
    mpq_class ec;
    if (is_const(*e, ec))
      res = pscale(*bp, ec);
    else {
      Mono b2 = base;
      int ea = e->t.begin()->first[0].first;
      b2.push_back({ea, 1});
      std::sort(b2.begin(), b2.end());
      auto q = std::make_shared<Poly>();
      q->t[b2] = 1;
      res = q;
    }
  } else
    res = bp;
  mpq_class ac;
  if (is_const(*acc, ac)) {
    for (auto &t : res->t)
      addto(r, t.first, t.second * ac);
  } else {
    PP z = pmul(*acc, *res);
    for (auto &t : z->t)
      addto(r, t.first, t.second);
  }
}
static PP pmul(const Poly &a, const Poly &b) {
  auto r = std::make_shared<Poly>();
  if ((double)a.t.size() * b.t.size() > 4e7)
    throw Unsupported{"product too large"};
  for (auto &x : a.t)
    for (auto &y : b.t)
      mulmono(r->t, x.first, y.first, x.second * y.second);
  return r;
}
static PP ppow(PP a, int e) {
  if (e < 0)
    return ppow(pinv(a), -e);
  PP r = pconst(1);
  PP base = a;
  while (e) {
    if (e & 1)
      r = pmul(*r, *base);
    e >>= 1;
    if (e)
      base = pmul(*base, *base);
  }
  return r;
}
static PP pinv(PP b) {
  mpq_class c;
  if (is_const(*b, c)) {
    if (c == 0)
      throw Unsupported{"division by constant zero"};
    return pconst(1 / c);
  }
  if (b->t.size() == 1) {
    auto &t = *b->t.begin();
    Mono m;
    bool plain = true;
    for (auto &f : t.first) {
      if (atoms[f.first].k == INV || special(atoms[f.first].k))
        plain = false;
      m.push_back({f.first, -f.second});
    }
    auto r = std::make_shared<Poly>();
    if (plain) {
      r->t[m] = 1 / t.second;
      return r;
    }
    mulmono(r->t, m, Mono(), 1 / t.second);
    return r;
  }
  // pull out the monomial content (gcd of Laurent exponents), then normalise
  std::map<Mono, mpq_class> s(b->t.begin(), b->t.end());
  std::map<int, int> mn;
  bool first = true;
  for (auto &t : s) {
    std::map<int, int> cur(t.first.begin(), t.first.end());
    if (first) {
      mn = cur;
      first = false;
    } else {
      for (auto &kv : mn) {
        int e = cur.count(kv.first) ? cur[kv.first] : 0;
        kv.second = std::min(kv.second, e);
      }
      for (auto &kv : cur)
        if (!mn.count(kv.first))
          mn[kv.first] = std::min(0, kv.second);
    }
  }
  Mono content, icontent;
  for (auto &kv : mn)
    if (kv.second != 0 && !special(atoms[kv.first].k) && atoms[kv.first].k != INV) {
      content.push_back({kv.first, kv.second});
      icontent.push_back({kv.first, -kv.second});
    }
  PP q = b;
  if (!content.empty()) {
    auto ic = std::make_shared<Poly>();
    ic->t[icontent] = 1;
    q = pmul(*b, *ic);
  }
  std::map<Mono, mpq_class> s2(q->t.begin(), q->t.end());
  mpq_class lead = s2.begin()->second;
  PP n = pscale(*q, 1 / lead);
  PP inv = pscale(*patom(mkatom(INV, "", n, nullptr, 0)), 1 / lead);
  if (!content.empty()) {
    auto ic = std::make_shared<Poly>();
    ic->t[icontent] = 1;
    inv = pmul(*inv, *ic);
  }
  return inv;
}
// if a == c*b for a constant c
static bool proportional(const Poly &a, const Poly &b, mpq_class &c) {
  if (a.t.size() != b.t.size() || a.t.empty())
    return false;
  bool first = true;
  for (auto &t : a.t) {
    auto it = b.t.find(t.first);
    if (it == b.t.end())
      return false;
    mpq_class q = t.second / it->second;
    if (first) {
      c = q;
      first = false;
    } else if (q != c)
      return false;
  }
  return true;
}

// ------------------------------------------------------------------ nodes
static PP poly_of_bits(uint64_t u);
static int uninit_atom = -1;
static double mkpoly(PP p) {
  mpq_class c;
  if (is_const(*p, c)) {
    double d = c.get_d();
    if (mpq_class(d) == c)
      return d;
  }
  Node n{N_POLY, 0, 0, p};
  nodes.push_back(n);
  return mkbox(nodes.size() - 1);
}
static double mknode(Op op, double a, double b) {
  Node n{op, bits(a), bits(b), nullptr};
  nodes.push_back(n);
  return mkbox(nodes.size() - 1);
}
static int get_var(const std::string &n, double lo, double hi) {
  auto it = varid.find(n);
  if (it != varid.end())
    return it->second;
  Atom a;
  a.k = VAR;
  a.name = n;
  a.iv = {lo, hi};
  atoms.push_back(a);
  return varid[n] = (int)atoms.size() - 1;
}
static PP node_poly(uint64_t id);
static PP poly_of_bits(uint64_t u) {
  if ((u >> 48) == TAG) {
    if (u == UNINIT) {
      return patom(get_var("uninit", -1000, 1000));
    }
    return node_poly(u & 0xFFFFFFFFFFFFull);
  }
  double d = unbits(u);
  if (std::isnan(d) || std::isinf(d))
    throw Unsupported{"non-finite constant in symbolic arithmetic"};
  return pconst(mpq_class(d));
}
static PP poly(double d) { return poly_of_bits(bits(d)); }
static bool feasible(const std::vector<Con> &extra);
static PP node_poly(uint64_t id0) {
  // iterative post-order
  std::vector<uint64_t> st{id0};
  while (!st.empty()) {
    uint64_t id = st.back();
    if (id >= nodes.size())
      throw Unsupported{"corrupted symbolic value"};
    if (nodes[id].p) {
      st.pop_back();
      continue;
    }
    bool ready = true;
    for (uint64_t u : {nodes[id].a, nodes[id].b})
      if ((u >> 48) == TAG && u != UNINIT) {
        uint64_t k = u & 0xFFFFFFFFFFFFull;
        if (k >= nodes.size())
          throw Unsupported{"corrupted symbolic value"};
        if (!nodes[k].p) {
          st.push_back(k);
          ready = false;
        }
      }
    if (!ready)
      continue;
    PP a = poly_of_bits(nodes[id].a), b = poly_of_bits(nodes[id].b), r;
    switch (nodes[id].op) {
    case N_ADD:
      r = padd(*a, *b, 1);
      break;
    case N_SUB:
      r = padd(*a, *b, -1);
      break;
    case N_MUL:
      r = pmul(*a, *b);
      break;
    case N_DIV: {
      mpq_class c;
      if (proportional(*a, *b, c))
        r = pconst(c);
      else
        r = pmul(*a, *pinv(b));
      break;
    }
    case N_NEG:
      r = pscale(*a, -1);
      break;
    default:
      throw Unsupported{"node"};
    }
    nodes[id].p = r;
    st.pop_back();
  }
  return nodes[id0].p;
}

// ------------------------------------------------------------------ numeric
static double eval_poly(const Poly &p, std::map<int, double> &val);
// solves system k at a concrete point; false if it is numerically singular there
static bool eval_lu(int k, std::map<int, double> &val) {
  LuSys L = lusys[k];
  Eigen::MatrixXd A = Eigen::MatrixXd::Zero(L.n, L.n);
  Eigen::VectorXd b(L.n);
  for (int i = 0; i < L.n; i++) {
    for (auto &e : L.row[i]) A(i, e.first) = eval_poly(*e.second, val);
    b(i) = eval_poly(*L.b[i], val);
  }
  Eigen::FullPivLU<Eigen::MatrixXd> f(A);
  f.setThreshold(1e-12);
  bool ok = A.allFinite() && b.allFinite() && f.isInvertible();
  Eigen::VectorXd y = ok ? Eigen::VectorXd(f.solve(b)) : Eigen::VectorXd::Constant(L.n, NAN);
  for (int i = 0; i < L.n; i++) val[L.y[i]] = y(i);
  return ok;
}
static double eval_atom(int a, std::map<int, double> &val) {
  auto it = val.find(a);
  if (it != val.end())
    return it->second;
  if (atoms[a].k == LU) {
    eval_lu((int)atoms[a].r, val);
    return val[a];
  }
  Atom at = atoms[a];
  double x = at.a ? eval_poly(*at.a, val) : 0, y = at.b ? eval_poly(*at.b, val) : 0, r;
  switch (at.k) {
  case VAR:
    r = (at.iv.lo + at.iv.hi) / 2;
    break;
  case INV: r = 1 / x; break;
  case EXP: r = std::exp(x); break;
  case SIN: r = std::sin(x); break;
  case COS: r = std::cos(x); break;
  case SQRT: r = std::sqrt(x); break;
  case POW: r = std::pow(x, at.r); break;
  case ABS: r = std::fabs(x); break;
  case MAXA: r = std::max(x, y); break;
  case MINA: r = std::min(x, y); break;
  case LOG: r = std::log(x); break;
  default:
    if (at.name == "floor") r = std::floor(x);
    else if (at.name == "ceil") r = std::ceil(x);
    else if (at.name == "trunc") r = std::trunc(x);
    else if (at.name == "round") r = std::round(x);
    else if (at.name == "rint" || at.name == "nearbyint") r = std::rint(x);
    else if (at.name == "tan") r = std::tan(x);
    else if (at.name == "atan") r = std::atan(x);
    else if (at.name == "cbrt") r = std::cbrt(x);
    else if (at.name == "sinh") r = std::sinh(x);
    else if (at.name == "cosh") r = std::cosh(x);
    else if (at.name == "tanh") r = std::tanh(x);
    else if (at.name == "asin") r = std::asin(x);
    else if (at.name == "acos") r = std::acos(x);
    else if (at.name == "fmod") r = std::fmod(x, y);
    else if (at.name == "atan2") r = std::atan2(x, y);
    else if (at.name == "powf") r = std::pow(x, y);
    else if (at.name[0] == '$') r = sym::uf_num(at.name.substr(1), x);
    else r = NAN;
  }
  val[a] = r;
  return r;
}
static double eval_poly(const Poly &p, std::map<int, double> &val) {
  // long double accumulation to limit noise
  long double s = 0;
  for (auto &t : p.t) {
    long double m = 1;
    for (auto &f : t.first) {
      long double v = eval_atom(f.first, val);
      long double w = 1;
      for (int i = 0; i < std::abs(f.second); i++)
        w *= v;
      m *= f.second > 0 ? w : 1 / w;
    }
    s += (long double)t.second.get_d() * m;
  }
  return (double)s;
}
static bool holds_num(const std::vector<Con> &cs, std::map<int, double> &val, double margin) {
  for (auto &c : cs) {
    double v = eval_poly(*c.p, val);
    if (std::isnan(v))
      return false;
    switch (c.r) {
    case LT: if (!(v < -margin)) return false; break;
    case LE: if (!(v <= -margin) && !(margin > 0 && v == 0)) return false; break;
    case EQ: if (std::fabs(v) > 1e-12) return false; break;
    case NE: if (std::fabs(v) <= margin) return false; break;
    }
  }
  return true;
}

// ------------------------------------------------------------------ solver
static z3::context *zc() {
  static z3::context *c = new z3::context();
  return c;
}
struct Enc {
  z3::context &c;
  z3::solver s;
  std::map<int, z3::expr> av, iv; // atom -> const, inverse const
  std::set<int> doneax;
  bool lra;
  std::unordered_map<Mono, z3::expr, MonoHash> mv;
  int cnt = 0;
  Enc(z3::context &cc, bool l, unsigned to) : c(cc), s(l ? z3::solver(cc, "QF_LRA") : z3::solver(cc)), lra(l) {
    z3::params p(c);
    p.set("timeout", to);
    s.set(p);
  }
  z3::expr q(const mpq_class &v) { return c.real_val(v.get_str().c_str()); }
  z3::expr qd(double d) { return q(mpq_class(d)); }
  void bound(z3::expr e, Iv b) {
    if (!std::isinf(b.lo))
      s.add(e >= qd(b.lo));
    if (!std::isinf(b.hi))
      s.add(e <= qd(b.hi));
  }
  z3::expr atom(int a) {
    auto it = av.find(a);
    if (it != av.end())
      return it->second;
    z3::expr e = c.real_const(("a" + std::to_string(a)).c_str());
    av.emplace(a, e);
    bound(e, atoms[a].iv);
    Atom at = atoms[a];
    switch (at.k) {
    case INV:
      if (!lra)
        s.add(e * enc(*at.a) == c.real_val(1));
      break;
    case SQRT:
      if (!lra)
        s.add(e * e == enc(*at.a));
      break;
    case ABS: {
      z3::expr x = enc(*at.a);
      s.add(e >= x && e >= -x && (e == x || e == -x));
      break;
    }
    case MAXA: {
      z3::expr x = enc(*at.a), y = enc(*at.b);
      s.add(e >= x && e >= y && (e == x || e == y));
      break;
    }
    case MINA: {
      z3::expr x = enc(*at.a), y = enc(*at.b);
      s.add(e <= x && e <= y && (e == x || e == y));
      break;
    }
    case EXP:
      s.add(e > c.real_val(0));
      if (!lra) s.add(e >= enc(*at.a) + 1);
      break;
    case SIN:
    case COS: {
      if (!lra) {
        std::string key = std::to_string(at.k == SIN ? COS : SIN) + "::" + pkey(*at.a) + "||" + num(0);
        auto k = atomkey.find(key);
        if (k != atomkey.end() && av.count(k->second)) {
          z3::expr o = av.at(k->second);
          s.add(e * e + o * o == c.real_val(1));
        }
      }
      break;
    }
    case LU:
      lu_todo.insert((int)at.r);
      break;
    default:
      break;
    }
    return e;
  }
  std::set<int> lu_todo, lu_done;
  z3::expr inv(int a) {
    auto it = iv.find(a);
    if (it != iv.end())
      return it->second;
    z3::expr x = atom(a);
    z3::expr e = c.real_const(("i" + std::to_string(a)).c_str());
    iv.emplace(a, e);
    bound(e, ipow(atoms[a].iv, -1));
    if (!lra)
      s.add(e * x == c.real_val(1));
    return e;
  }
  z3::expr mono(const Mono &m) {
    if (m.empty())
      return c.real_val(1);
    if (m.size() == 1 && m[0].second == 1)
      return atom(m[0].first);
    if (lra) {
      auto it = mv.find(m);
      if (it != mv.end())
        return it->second;
      z3::expr e = c.real_const(("m" + std::to_string(cnt++)).c_str());
      bound(e, mono_iv(m));
      mv.emplace(m, e);
      for (auto &f : m)
        if (atoms[f.first].k == LU) lu_todo.insert((int)atoms[f.first].r);
      return e;
    }
    z3::expr r = c.real_val(1);
    bool f0 = true;
    for (auto &f : m) {
      z3::expr b = f.second > 0 ? atom(f.first) : inv(f.first);
      for (int i = 0; i < std::abs(f.second); i++) {
        r = f0 ? b : r * b;
        f0 = false;
      }
    }
    return r;
  }
  z3::expr enc(const Poly &p) {
    if (p.t.empty())
      return c.real_val(0);
    z3::expr_vector v(c);
    for (auto &t : p.t) {
      if (t.first.empty())
        v.push_back(q(t.second));
      else if (t.second == 1)
        v.push_back(mono(t.first));
      else
        v.push_back(q(t.second) * mono(t.first));
    }
    if (v.size() == 1)
      return v[0];
    return z3::sum(v);
  }
  z3::expr con(const Con &k) {
    z3::expr e = enc(*k.p), z = c.real_val(0);
    switch (k.r) {
    case LT: return e < z;
    case LE: return e <= z;
    case EQ: return e == z;
    default: return e != z;
    }
  }
  z3::check_result check() {
    double t0 = now();
    for (bool more = true; more;) {
      more = false;
      for (int k : std::set<int>(lu_todo))
        if (lu_done.insert(k).second) {
          more = true;
          for (int i = 0; i < lusys[k].n; i++) {
            PP r = pscale(*lusys[k].b[i], -1);
            for (auto &en : lusys[k].row[i]) r = padd(*r, *pmul(*en.second, *patom(lusys[k].y[en.first])), 1);
            s.add(enc(*r) == c.real_val(0));
          }
        }
    }
    z3::check_result r;
    try {
      r = s.check();
    } catch (z3::exception &) {
      r = z3::unknown;
    }
    sh->solver_s += now() - t0;
    sh->queries++;
    if (lra) sh->lra++; else sh->nra++;
    if (r == z3::unsat) sh->unsat++;
    else if (r == z3::sat) sh->sat++;
    else sh->unknown++;
    return r;
  }
};
static double qtod(z3::expr e) {
  if (e.is_numeral()) {
    std::string s = e.to_string();
    double d;
    Z3_string ns = Z3_get_numeral_string(e.ctx(), e);
    std::string n(ns);
    mpq_class q;
    try {
      q = mpq_class(n);
      q.canonicalize();
      d = q.get_d();
      return d;
    } catch (...) {
    }
    return strtod(n.c_str(), 0);
  }
  if (e.is_algebraic()) {
    Z3_string ns = Z3_get_numeral_decimal_string(e.ctx(), e, 20);
    return strtod(ns, 0);
  }
  return 0;
}
typedef std::map<int, double> Val;
static Val model_vals(Enc &e) {
  Val v;
  z3::model m = e.s.get_model();
  for (auto &kv : e.av)
    if (atoms[kv.first].k == VAR)
      v[kv.first] = qtod(m.eval(kv.second, true));
  for (auto &kv : varid)
    if (!v.count(kv.second)) {
      Iv b = atoms[kv.second].iv;
      std::uniform_real_distribution<double> d(b.lo, b.hi);
      double x = std::ldexp(std::round(std::ldexp(d(rng), 12)), -12);
      v[kv.second] = std::min(b.hi, std::max(b.lo, x));
    }
  return v;
}
static void vars_of(const Poly &p, std::set<int> &s) {
  for (auto &t : p.t)
    for (auto &f : t.first) {
      if (!s.insert(f.first).second)
        continue;
      if (atoms[f.first].k == LU) {
        LuSys &L = lusys[(int)atoms[f.first].r];
        for (int i = 0; i < L.n; i++) {
          vars_of(*L.b[i], s);
          for (auto &e : L.row[i]) vars_of(*e.second, s);
        }
      }
      if (atoms[f.first].a) vars_of(*atoms[f.first].a, s);
      if (atoms[f.first].b) vars_of(*atoms[f.first].b, s);
    }
}
static Val random_vals() {
  Val v;
  for (auto &kv : varid) {
    Iv b = atoms[kv.second].iv;
    std::uniform_real_distribution<double> d(b.lo, b.hi);
    double x = std::ldexp(std::round(std::ldexp(d(rng), 12)), -12);
    v[kv.second] = std::min(b.hi, std::max(b.lo, x));
  }
  return v;
}
static std::string vals_json(const Val &v) {
  std::string s = "{";
  bool f = true;
  for (auto &kv : varid) {
    auto it = v.find(kv.second);
    if (it == v.end())
      continue;
    if (!f)
      s += ",";
    f = false;
    s += "\"" + esc(kv.first) + "\":" + num(it->second);
  }
  return s + "}";
}
static std::vector<Con> allpc() {
  std::vector<Con> r = pc;
  r.insert(r.end(), eqs.begin(), eqs.end());
  return r;
}
// a model of the path condition: a random interior point if one is found,
// otherwise the solver's.  returns 1 ok, 0 infeasible, -1 unknown
static int pc_model(Val &v) {
  std::vector<Con> all = allpc();
  for (int i = 0; i < 60; i++) {
    Val w = random_vals();
    Val w2 = w;
    if (holds_num(all, w2, 1e-6)) {
      v = w;
      return 1;
    }
  }
  Enc e(*zc(), false, q_timeout_ms);
  for (auto &c : all)
    e.s.add(e.con(c));
  z3::check_result r = e.check();
  if (r == z3::unsat)
    return 0;
  if (r == z3::sat) {
    v = model_vals(e);
    return 1;
  }
  for (int i = 0; i < 3000; i++) {
    Val w = random_vals();
    Val w2 = w;
    if (holds_num(all, w2, 0)) {
      v = w;
      return 1;
    }
  }
  v = random_vals();
  return -1;
}
// witnesses of the current path condition
static std::vector<Val> pool;
static void fill(Val &v) {
  for (auto &kv : varid)
    if (!v.count(kv.second)) {
      Iv b = atoms[kv.second].iv;
      std::uniform_real_distribution<double> d(b.lo, b.hi);
      double x = std::ldexp(std::round(std::ldexp(d(rng), 12)), -12);
      v[kv.second] = std::min(b.hi, std::max(b.lo, x));
    }
}
static bool by_lra; // the last negative answer came from the linear query
static bool feasible(const std::vector<Con> &extra) {
  std::vector<Con> all = pc;
  all.insert(all.end(), extra.begin(), extra.end());
  by_lra = false;
  if (eqs.empty())
    for (auto &w0 : pool) {
      fill(w0);
      Val w = w0;
      if (holds_num(all, w, 1e-9)) return true;
    }
  // quick numeric witnesses
  for (int i = 0; i < 8; i++) {
    Val w = random_vals();
    Val w0 = w;
    if (eqs.empty() && holds_num(all, w, 1e-9)) {
      pool.insert(pool.begin(), w0);
      if (pool.size() > 6) pool.pop_back();
      return true;
    }
  }
  {
    Enc e(*zc(), true, q_timeout_ms);
    for (auto &c : all) e.s.add(e.con(c));
    for (auto &c : eqs) e.s.add(e.con(c));
    if (e.check() == z3::unsat) { by_lra = true; return false; }
    bool nonlin = !e.mv.empty();
    for (auto &kv : e.av) if (atoms[kv.first].k != VAR && atoms[kv.first].k != ABS && atoms[kv.first].k != MAXA && atoms[kv.first].k != MINA) nonlin = true;
    if (!nonlin) return true;
  }
  Enc e(*zc(), false, q_timeout_ms);
  for (auto &c : all) e.s.add(e.con(c));
  for (auto &c : eqs) e.s.add(e.con(c));
  z3::check_result r = e.check();
  if (r == z3::sat && eqs.empty()) {
    Val w0 = model_vals(e), w = w0;
    if (holds_num(all, w, 1e-9)) {
      pool.insert(pool.begin(), w0);
      if (pool.size() > 6) pool.pop_back();
    }
  }
  return r != z3::unsat;
}

// ------------------------------------------------------------------ paths
static void flush_fns() {
  std::string s = "{\"k\":\"fns\",\"v\":[";
  bool f = true;
  for (auto &n : fnset) {
    if (!f) s += ",";
    f = false;
    s += "\"" + esc(n) + "\"";
  }
  emit(s + "]}");
}
static std::string pc_note() { return std::to_string(pc.size()); }
[[noreturn]] static void finish(const char *why, const std::string &extra = "") {
  running = false;
  Val v;
  int r = -1;
  try {
    r = pc_model(v);
    if (r == 1) {
      // a model that interprets uninterpreted functions in a way no run of the
      // native build does is no sample for the comparison with it
      std::vector<Con> ineq;
      for (auto &c : allpc())
        if (c.r == LT || c.r == LE) ineq.push_back(c);
      Val w = v;
      if (!holds_num(ineq, w, -1e-6)) r = 2;
    }
  } catch (...) {}
  if (r != 0) {
    std::string o = "{";
    bool f = true;
    int k = 0;
    for (auto &t : obsv) {
      if (k++ > 400) break;
      double x, y;
      try {
        Val w = v, w2 = v;
        x = eval_poly(*poly(std::get<1>(t)), w);
        y = eval_poly(*poly(std::get<2>(t)), w2);
      } catch (...) { continue; }
      if (!f) o += ",";
      f = false;
      o += "\"" + esc(std::get<0>(t)) + "\":[" + num(x) + "," + num(y) + "]";
    }
    o += "}";
    sh->paths++;
    emit(std::string("{\"k\":\"path\",\"why\":\"") + why + "\",\"sat\":" + std::to_string(r) + ",\"pc\":" + pc_note() + ",\"model\":" + vals_json(v) + ",\"obs\":" + o + extra + "}");
  } else
    emit(std::string("{\"k\":\"infeasible\"}"));
  flush_fns();
  _exit(0);
}
[[noreturn]] static void unsupported(const std::string &w) {
  running = false;
  emit("{\"k\":\"unsupported\",\"what\":\"" + esc(w) + "\"}");
  flush_fns();
  _exit(0);
}
static void onsig(int s) {
  if (!running) _exit(41);
  running = false;
  // crash of the code under test
  Val v;
  int r = -1;
  try { r = pc_model(v); } catch (...) {}
  if (r != 0) {
    sh->viol++;
    sh->paths++;
    emit("{\"k\":\"violation\",\"type\":\"crash\",\"label\":\"crash\",\"sig\":" + std::to_string(s) + ",\"sat\":" + std::to_string(r) + ",\"model\":" + vals_json(v) + "}");
  }
  flush_fns();
  _exit(42);
}
static Con negate(const Con &c) {
  Con n;
  switch (c.r) {
  case LT: n.r = LE; n.p = pscale(*c.p, -1); break;
  case LE: n.r = LT; n.p = pscale(*c.p, -1); break;
  case EQ: n.r = NE; n.p = c.p; break;
  default: n.r = EQ; n.p = c.p; break;
  }
  return n;
}
static bool decide(const Con &c) {
  mpq_class k;
  if (is_const(*c.p, k)) {
    switch (c.r) {
    case LT: return k < 0;
    case LE: return k <= 0;
    case EQ: return k == 0;
    default: return k != 0;
    }
  }
  Iv v = poly_iv(*c.p);
  switch (c.r) {
  case LT: if (v.hi < 0) return true; if (v.lo >= 0) return false; break;
  case LE: if (v.hi <= 0) return true; if (v.lo > 0) return false; break;
  case EQ: if (v.lo > 0 || v.hi < 0) return false; break;
  default: if (v.lo > 0 || v.hi < 0) return true; break;
  }
  Con n = negate(c);
  static std::map<std::string, bool> memo; // the path condition only grows
  std::string kc = std::to_string(c.r) + pkey(*c.p), kn = std::to_string(n.r) + pkey(*n.p);
  auto it = memo.find(kc);
  if (it != memo.end()) return it->second;
  auto learn = [&](bool v) { memo[kc] = v; memo[kn] = !v; return v; };
  bool ft = feasible({c}), lt = by_lra;
  bool ff = feasible({n}), lf = by_lra;
  if (ft && !ff) { if (!lf) pc.push_back(c); return learn(true); }
  if (!ft && ff) { if (!lt) pc.push_back(n); return learn(false); }
  if (!ft && !ff) { emit("{\"k\":\"infeasible\"}"); flush_fns(); _exit(0); }
  sh->forks++;
  if (sh->paths > max_paths || (deadline > 0 && now() > deadline)) {
    emit("{\"k\":\"budget\"}");
    flush_fns();
    _exit(0);
  }
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    rng.seed(rng() ^ 0x9e37);
    pc.push_back(c);
    return learn(true);
  }
  if (p < 0) unsupported("fork failed");
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) emit("{\"k\":\"unsupported\",\"what\":\"child killed by signal " + std::to_string(WTERMSIG(st)) + "\"}");
  pc.push_back(n);
  return learn(false);
}
struct Guard { // code in the runtime must not be mistaken for a crash of the code under test
  bool o;
  Guard() : o(running) { running = false; }
  ~Guard() { running = o; }
};
#define RT(...)                                                                \
  try { Guard g_; __VA_ARGS__; } catch (Unsupported & u_) { unsupported(u_.what); }   \
  catch (z3::exception & u_) { unsupported(std::string("z3: ") + u_.msg()); }  \
  catch (std::bad_alloc &) { unsupported("memory"); }

// ------------------------------------------------------------------ entry points
extern "C" {
double __sym_add(double a, double b) {
  bool ba = boxed(a), bb = boxed(b);
  if (!ba && !bb) return a + b;
  if (!ba && a == 0) return b;
  if (!bb && b == 0) return a;
  return mknode(N_ADD, a, b);
}
double __sym_sub(double a, double b) {
  bool ba = boxed(a), bb = boxed(b);
  if (!ba && !bb) return a - b;
  if (!bb && b == 0) return a;
  if (!ba && a == 0) return mknode(N_NEG, b, 0);
  return mknode(N_SUB, a, b);
}
double __sym_mul(double a, double b) {
  bool ba = boxed(a), bb = boxed(b);
  if (!ba && !bb) return a * b;
  if ((!ba && a == 0) || (!bb && b == 0)) return 0;
  if (!ba && a == 1) return b;
  if (!bb && b == 1) return a;
  return mknode(N_MUL, a, b);
}
double __sym_div(double a, double b) {
  bool ba = boxed(a), bb = boxed(b);
  if (!ba && !bb) return a / b;
  if (!bb && b == 1) return a;
  if (!bb && b == 0) unsupported("division of a symbolic value by zero");
  if (bb) {
    // exclude b == 0 (IEEE inf/nan is outside the real-number model)
    RT({
      PP p = poly(b);
      Iv v = poly_iv(*p);
      if (v.lo <= 0 && v.hi >= 0) {
        mpq_class c;
        if (is_const(*p, c)) {
          if (c == 0) throw Unsupported{"division by zero"};
        } else {
          static std::set<std::string> nz; // known to be nonzero on this path
          bool z = nz.insert(pkey(*p)).second && feasible({Con{p, EQ}});
          if (z) {
            emit("{\"k\":\"note\",\"what\":\"division by zero excluded\"}");
            if (!feasible({Con{p, NE}})) { emit("{\"k\":\"unsupported\",\"what\":\"division by zero\"}"); flush_fns(); _exit(0); }
            pc.push_back(Con{p, NE});
          }
        }
      }
    });
  }
  if (!ba && a == 0) return 0;
  return mknode(N_DIV, a, b);
}
double __sym_neg(double a) { return boxed(a) ? mknode(N_NEG, a, 0) : -a; }
int __sym_fcmp(int pred, double a, double b) {
  if (!boxed(a) && !boxed(b)) {
    bool un = std::isnan(a) || std::isnan(b);
    bool r = false;
    switch (pred & 7) {
    case 0: r = false; break;
    case 1: r = a == b; break;
    case 2: r = a > b; break;
    case 3: r = a >= b; break;
    case 4: r = a < b; break;
    case 5: r = a <= b; break;
    case 6: r = !un && a != b; break;
    case 7: r = !un; break;
    }
    if (un) return (pred & 8) ? 1 : 0;
    return r;
  }
  for (int i = 0; i < 2; i++) {
    double x = i ? a : b;
    if (!boxed(x) && std::isnan(x)) return (pred & 8) ? 1 : 0;
    if (!boxed(x) && std::isinf(x)) {
      double l = i ? x : 0, r = i ? 0 : x;
      return __sym_fcmp(pred, l, r);
    }
  }
  int p = pred & 7;
  if (p == 7) return 1;
  if (p == 0) return 0;
  int res = 0;
  RT({
    PP x = poly(a), y = poly(b);
    PP d = padd(*x, *y, -1);
    Con c;
    switch (p) {
    case 1: c = Con{d, EQ}; break;
    case 2: c = Con{pscale(*d, -1), LT}; break;
    case 3: c = Con{pscale(*d, -1), LE}; break;
    case 4: c = Con{d, LT}; break;
    case 5: c = Con{d, LE}; break;
    default: c = Con{d, NE}; break;
    }
    res = decide(c);
  });
  return res;
}
long __sym_fptosi(double a) {
  if (!boxed(a)) return (long)a;
  long res = 0;
  RT({
    PP p = poly(a);
    Iv v = poly_iv(*p);
    if (std::isinf(v.lo) || std::isinf(v.hi) || v.hi - v.lo > 4096) throw Unsupported{"float to int: range too wide"};
    long lo = (long)std::floor(v.lo), hi = (long)std::floor(v.hi);
    res = hi;
    for (long k = lo; k < hi; k++) {
      // p < k+1 ?
      PP d = padd(*p, *pconst(mpq_class((double)(k + 1))), -1);
      if (k < 0) { // truncation towards zero
        // value in (k, k+1] -> k+1
        if (decide(Con{d, LE})) { res = k + 1; break; }
      } else if (decide(Con{d, LT})) { res = k; break; }
    }
  });
  return res;
}
unsigned long __sym_fptoui(double a) {
  if (!boxed(a)) return (unsigned long)a;
  return (unsigned long)__sym_fptosi(a);
}
double __sym_concretize(double a) {
  if (boxed(a)) unsupported("symbolic value converted to long double");
  return a;
}
static int neps = 0;
float __sym_fptrunc(double a) {
  if (!boxed(a)) return (float)a;
  double e = mkpoly(patom(get_var("float_eps" + std::to_string(neps++), -6e-8, 6e-8)));
  double v = __sym_mul(a, __sym_add(1.0, e));
  uint64_t id = bits(v) & 0xFFFFFFFFFFFFull;
  if (id >= (1u << 21)) unsupported("too many single precision values");
  uint32_t u = 0x7FE00000u | (uint32_t)id;
  float f;
  memcpy(&f, &u, 4);
  return f;
}
double __sym_fpext(float f) {
  uint32_t u;
  memcpy(&u, &f, 4);
  if ((u & 0xFFE00000u) == 0x7FE00000u) return mkbox(u & 0x1FFFFF);
  return (double)f;
}
int __sym_fpclass(double a, int mask) {
  if (!boxed(a)) {
    int c = 0;
    bool s = std::signbit(a);
    if (std::isnan(a)) c = 3;
    else if (std::isinf(a)) c = s ? 4 : 512;
    else if (a == 0) c = s ? 32 : 64;
    else if (std::fpclassify(a) == FP_SUBNORMAL) c = s ? 16 : 128;
    else c = s ? 8 : 256;
    return (c & mask) != 0;
  }
  bool z = mask & 96, n = mask & 24, p = mask & 384;
  if (z == n && n == p) return z;
  if (__sym_fcmp(1, a, 0)) return z;
  if (__sym_fcmp(4, a, 0)) return n;
  return p;
}
double __sym_fabs(double a) {
  if (!boxed(a)) return std::fabs(a);
  double res = 0;
  RT({
    PP p = poly(a);
    Iv v = poly_iv(*p);
    mpq_class c;
    if (is_const(*p, c)) res = mkpoly(pconst(abs(c)));
    else if (v.lo >= 0) res = a;
    else if (v.hi <= 0) res = mkpoly(pscale(*p, -1));
    else {
      if (neg_lead(*p)) p = pscale(*p, -1);
      res = mkpoly(patom(mkatom(ABS, "", p, nullptr, 0)));
    }
  });
  return res;
}
static double un_uf(const char *n, double a) {
  double res = 0;
  RT({ res = mkpoly(patom(mkatom(UF, n, poly(a), nullptr, 0))); });
  return res;
}
#define UN(name, fn)                                                           \
  double __sym_##name(double a) { return boxed(a) ? un_uf(#name, a) : fn(a); }
UN(tan, std::tan) UN(atan, std::atan) UN(asin, std::asin) UN(acos, std::acos)
UN(cbrt, std::cbrt) UN(sinh, std::sinh) UN(cosh, std::cosh) UN(tanh, std::tanh)
UN(log10, std::log10) UN(log2, std::log2) UN(exp2, std::exp2)
UN(expm1, std::expm1) UN(log1p, std::log1p) UN(tgamma, std::tgamma)
UN(lgamma, std::lgamma)
static double roundlike(double a, double (*f)(double)) {
  // enumerate by forking
  double res = 0;
  RT({
    PP p = poly(a);
    Iv v = poly_iv(*p);
    if (std::isinf(v.lo) || std::isinf(v.hi) || v.hi - v.lo > 512) throw Unsupported{"rounding: range too wide"};
    long lo = (long)std::floor(v.lo), hi = (long)std::floor(v.hi);
    double k = hi;
    for (long i = lo; i < hi; i++) {
      PP d = padd(*p, *pconst(mpq_class((double)(i + 1))), -1);
      if (decide(Con{d, LT})) { k = i; break; }
    }
    if (f == (double (*)(double))std::floor) res = k;
    else {
      PP d = padd(*p, *pconst(mpq_class(k)), -1);
      bool eq = decide(Con{d, EQ});
      if (eq) res = k;
      else if (f == (double (*)(double))std::ceil) res = k + 1;
      else if (f == (double (*)(double))std::trunc) res = k >= 0 ? k : k + 1;
      else { // round half away from zero
        PP h = padd(*p, *pconst(mpq_class(k + 0.5)), -1);
        bool less = decide(Con{h, LT});
        if (less) res = k;
        else if (decide(Con{h, EQ})) res = k >= 0 ? k + 1 : k;
        else res = k + 1;
      }
    }
  });
  return res;
}
double __sym_floor(double a) { return boxed(a) ? roundlike(a, std::floor) : std::floor(a); }
double __sym_ceil(double a) { return boxed(a) ? roundlike(a, std::ceil) : std::ceil(a); }
double __sym_trunc(double a) { return boxed(a) ? roundlike(a, std::trunc) : std::trunc(a); }
double __sym_round(double a) { return boxed(a) ? roundlike(a, std::round) : std::round(a); }
double __sym_rint(double a) { return boxed(a) ? roundlike(a, std::round) : std::rint(a); }
double __sym_nearbyint(double a) { return boxed(a) ? roundlike(a, std::round) : std::nearbyint(a); }
double __sym_exp(double a) {
  if (!boxed(a)) return std::exp(a);
  double res = 0;
  RT({ res = mkpoly(pexp(poly(a))); });
  return res;
}
double __sym_sin(double a) {
  if (!boxed(a)) return std::sin(a);
  double res = 0;
  RT({ res = mkpoly(psin(poly(a))); });
  return res;
}
double __sym_cos(double a) {
  if (!boxed(a)) return std::cos(a);
  double res = 0;
  RT({ res = mkpoly(pcos(poly(a))); });
  return res;
}
double __sym_log(double a) {
  if (!boxed(a)) return std::log(a);
  double res = 0;
  RT({ res = mkpoly(patom(mkatom(LOG, "", poly(a), nullptr, 0))); });
  return res;
}
double __sym_sqrt(double a) {
  if (!boxed(a)) return std::sqrt(a);
  double res = 0;
  {
    mpq_class c;
    if (is_const(*poly(a), c)) return std::sqrt(c.get_d());
  }
  RT({
    PP p = poly(a);
    Iv v = poly_iv(*p);
    if (v.lo < 0) {
      Con neg{p, LT};
      if (feasible({neg})) {
        emit("{\"k\":\"note\",\"what\":\"sqrt of negative excluded\"}");
        pc.push_back(Con{pscale(*p, -1), LE});
      }
    }
    res = mkpoly(patom(mkatom(SQRT, "", p, nullptr, 0)));
  });
  return res;
}
double __sym_pow(double a, double b) {
  if (!boxed(a) && !boxed(b)) return std::pow(a, b);
  double res = 0;
  RT({
    if (!boxed(b)) {
      if (b == std::round(b) && std::fabs(b) <= 64) {
        if (b < 0) { PP q = poly(a); Iv v = poly_iv(*q); if (v.lo <= 0 && v.hi >= 0 && feasible({Con{q, EQ}})) pc.push_back(Con{q, NE}); }
        res = mkpoly(ppow(poly(a), (int)b));
      }
      else {
        mpq_class c;
        if (is_const(*poly(a), c)) res = std::pow(c.get_d(), b);
        else res = mkpoly(patom(mkatom(POW, "", poly(a), nullptr, b)));
      }
    } else
      res = mkpoly(patom(mkatom(UF, "powf", poly(a), poly(b), 0)));
  });
  return res;
}
double __sym_fmax(double a, double b) {
  if (!boxed(a) && !boxed(b)) return std::fmax(a, b);
  double res = 0;
  RT({
    PP x = poly(a); PP y = poly(b);
    Iv i = poly_iv(*x), j = poly_iv(*y);
    if (i.lo >= j.hi) res = a;
    else if (j.lo >= i.hi) res = b;
    else res = mkpoly(patom(mkatom(MAXA, "", x, y, 0)));
  });
  return res;
}
double __sym_fmin(double a, double b) {
  if (!boxed(a) && !boxed(b)) return std::fmin(a, b);
  double res = 0;
  RT({
    PP x = poly(a); PP y = poly(b);
    Iv i = poly_iv(*x), j = poly_iv(*y);
    if (i.hi <= j.lo) res = a;
    else if (j.hi <= i.lo) res = b;
    else res = mkpoly(patom(mkatom(MINA, "", x, y, 0)));
  });
  return res;
}
static double bin_uf(const char *n, double a, double b) {
  double res = 0;
  RT({ res = mkpoly(patom(mkatom(UF, n, poly(a), poly(b), 0))); });
  return res;
}
double __sym_fmod(double a, double b) {
  if (!boxed(a) && !boxed(b)) return std::fmod(a, b);
  double q = __sym_trunc(__sym_div(a, b));
  return __sym_sub(a, __sym_mul(q, b));
}
double __sym_hypot(double a, double b) {
  if (!boxed(a) && !boxed(b)) return std::hypot(a, b);
  return __sym_sqrt(__sym_add(__sym_mul(a, a), __sym_mul(b, b)));
}
double __sym_atan2(double a, double b) { return (!boxed(a) && !boxed(b)) ? std::atan2(a, b) : bin_uf("atan2", a, b); }
double __sym_copysign(double a, double b) {
  if (!boxed(a) && !boxed(b)) return std::copysign(a, b);
  double m = __sym_fabs(a);
  if (!boxed(b)) return std::signbit(b) ? __sym_neg(m) : m;
  return __sym_fcmp(4, b, 0) ? __sym_neg(m) : m;
}
// y = A^-1 b for a symbolic column-major A: the contract of a linear solver
void __sym_lusolve(int n, const double *A, const double *b, double *y) {
  RT({
    LuSys L;
    L.n = n;
    std::string k = std::to_string(n) + ";";
    for (int i = 0; i < n; i++) {
      L.row.emplace_back();
      for (int j = 0; j < n; j++) {
        double a = A[i + (size_t)j * n];
        if (!boxed(a) && a == 0) continue;
        PP p = poly(a);
        if (p->t.empty()) continue;
        L.row.back().push_back({j, p});
        k += std::to_string(j) + ":" + pkey(*p) + ";";
      }
      L.b.push_back(poly(b[i]));
      k += "=" + pkey(*L.b.back()) + ";";
    }
    auto it = lukey.find(k);
    int id;
    if (it != lukey.end()) id = it->second;
    else {
      id = (int)lusys.size();
      for (int i = 0; i < n; i++) {
        Atom x;
        x.k = LU;
        x.name = "lu" + std::to_string(id) + "_" + std::to_string(i);
        x.r = id;
        x.iv = {-LU_BOUND, LU_BOUND};
        atoms.push_back(x);
        L.y.push_back((int)atoms.size() - 1);
      }
      lusys.push_back(L);
      lukey[k] = id;
      int good = 0;
      for (int t = 0; t < 40 && good < 3; t++) {
        Val v = random_vals();
        Val w = v;
        if (t < 30 && !holds_num(pc, w, 0)) continue;
        if (eval_lu(id, v)) good++;
      }
      if (good < 3) throw Unsupported{"singular linear system"};
    }
    for (int i = 0; i < n; i++) y[i] = mkpoly(patom(lusys[id].y[i]));
  });
}
void __sym_enter(const char *n, int *flag) {
  if (*flag) return;
  *flag = 1;
  Guard g;
  fnset.insert(n);
}
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  if (p)
    for (size_t i = 0; i + 8 <= n; i += 8)
      memcpy((char *)p + i, &UNINIT, 8);
  return p;
}
}

// ------------------------------------------------------------------ calculus
static PP pD(const Poly &p, int x);
static PP atomD(int a, int x) {
  Atom at = atoms[a];
  if (at.k == VAR) return pconst(a == x ? 1 : 0);
  if (at.k == LU) throw Unsupported{"derivative of a linear solve"};
  PP da = at.a ? pD(*at.a, x) : pconst(0);
  PP db = at.b ? pD(*at.b, x) : pconst(0);
  if (da->t.empty() && db->t.empty()) return pconst(0);
  switch (at.k) {
  case INV: return pscale(*pmul(*pmul(*patom(a), *patom(a)), *da), -1);
  case EXP: return pmul(*patom(a), *da);
  case SIN: return pmul(*pcos(at.a), *da);
  case COS: return pscale(*pmul(*psin(at.a), *da), -1);
  case SQRT: return pscale(*pmul(*pmul(*patom(a), *pinv(at.a)), *da), mpq_class(1, 2));
  case POW: return pscale(*pmul(*pmul(*patom(a), *pinv(at.a)), *da), mpq_class(at.r));
  case LOG: return pmul(*pinv(at.a), *da);
  default:
    if (at.k == UF && at.name[0] == '$') return pmul(*patom(mkatom(UF, at.name + "'", at.a, nullptr, 0)), *da);
    throw Unsupported{"derivative of non-smooth term"};
  }
}
static PP pD(const Poly &p, int x) {
  PP r = pconst(0);
  std::map<int, PP> memo;
  for (auto &t : p.t)
    for (size_t i = 0; i < t.first.size(); i++) {
      int a = t.first[i].first, e = t.first[i].second;
      if (!memo.count(a)) memo[a] = atomD(a, x);
      PP d = memo[a];
      if (d->t.empty()) continue;
      Mono rest = t.first;
      if (e == 1) rest.erase(rest.begin() + i);
      else rest[i].second = e - 1;
      auto q = std::make_shared<Poly>();
      mulmono(q->t, rest, Mono(), t.second * e);
      r = padd(*r, *pmul(*q, *d), 1);
    }
  return r;
}
static bool depends(const Poly &p, int x) {
  std::set<int> s;
  vars_of(p, s);
  return s.count(x) > 0;
}
static PP psubst(const Poly &p, int x, PP v) {
  PP r = pconst(0);
  auto acc = std::make_shared<Poly>();
  std::map<int, PP> memo;
  for (auto &t : p.t) {
    PP m = pconst(t.second);
    for (auto &f : t.first) {
      int a = f.first;
      Atom at = atoms[a];
      PP b;
      if (a == x) b = v;
      else if ((at.a && depends(*at.a, x)) || (at.b && depends(*at.b, x))) {
        if (memo.count(a)) b = memo[a];
        else {
          PP na = at.a ? psubst(*at.a, x, v) : nullptr;
          PP nb = at.b ? psubst(*at.b, x, v) : nullptr;
          switch (at.k) {
          case EXP: b = pexp(na); break;
          case SIN: b = psin(na); break;
          case COS: b = pcos(na); break;
          case INV: b = pinv(na); break;
          default: b = patom(mkatom(at.k, at.name, na, nb, at.r));
          }
          memo[a] = b;
        }
      } else b = patom(a);
      m = pmul(*m, *ppow(b, f.second));
    }
    for (auto &t2 : m->t) addto(acc->t, t2.first, t2.second);
  }
  return acc;
}
static PP x_poly(int x, int n) { return patom(x, n); }
// antiderivative of coef * x^n * exp(ax+c) * {1, cos(bx+d), sin(bx+d)} ; general
// products of sin/cos are first linearised.
struct Tr { PP coef; int n; PP ea; int trig; PP ta; }; // trig: 0 none 1 cos 2 sin
static PP linpart(const Poly &p, int x) { return pD(p, x); }
static PP antideriv(const Tr &t, int x) {
  PP one = pconst(1);
  PP a = t.ea ? linpart(*t.ea, x) : pconst(0);
  PP b = t.trig ? linpart(*t.ta, x) : pconst(0);
  if (depends(*a, x) || depends(*b, x)) throw Unsupported{"integral: nonlinear exponent"};
  PP E = t.ea ? pexp(t.ea) : one;
  if (a->t.empty() && b->t.empty()) {
    PP tr = t.trig == 1 ? pcos(t.ta) : t.trig == 2 ? psin(t.ta) : one;
    return pscale(*pmul(*pmul(*t.coef, *x_poly(x, t.n + 1)), *pmul(*E, *tr)), mpq_class(1, t.n + 1));
  }
  // F0 = antiderivative for n = 0;  integral x^n f = x^n F - n * integral x^(n-1) F
  PP den = pinv(padd(*pmul(*a, *a), *pmul(*b, *b), 1));
  if (!t.trig) {
    // e^{ax}/a
    PP ia = pinv(a);
    PP F = pmul(*pmul(*t.coef, *x_poly(x, t.n)), *pmul(*E, *ia));
    if (t.n == 0) return F;
    Tr u = t;
    u.coef = pmul(*pscale(*t.coef, -t.n), *ia);
    u.n = t.n - 1;
    return padd(*F, *antideriv(u, x), 1);
  }
  PP C = pcos(t.ta), S = psin(t.ta);
  PP xn = x_poly(x, t.n);
  // cos: e^{ax}(a cos + b sin)/(a2+b2) ; sin: e^{ax}(a sin - b cos)/(a2+b2)
  PP ca = pmul(*pmul(*t.coef, *a), *den), cb = pmul(*pmul(*t.coef, *b), *den);
  PP F;
  if (t.trig == 1) F = padd(*pmul(*ca, *C), *pmul(*cb, *S), 1);
  else F = padd(*pmul(*ca, *S), *pmul(*cb, *C), -1);
  F = pmul(*pmul(*F, *E), *xn);
  if (t.n == 0) return F;
  Tr u = t, v = t;
  u.n = v.n = t.n - 1;
  u.coef = pscale(*ca, -t.n);
  u.trig = t.trig;
  v.coef = pscale(*cb, t.trig == 1 ? -t.n : t.n);
  v.trig = t.trig == 1 ? 2 : 1;
  return padd(*F, *padd(*antideriv(u, x), *antideriv(v, x), 1), 1);
}
static PP pintegral(const Poly &p, int x, PP lo, PP hi) {
  PP F = pconst(0);
  for (auto &t : p.t) {
    std::vector<Tr> cur;
    Tr b;
    b.coef = pconst(t.second);
    b.n = 0;
    b.ea = nullptr;
    b.trig = 0;
    b.ta = nullptr;
    cur.push_back(b);
    for (auto &f : t.first) {
      Atom at = atoms[f.first];
      if (f.first == x) {
        if (f.second < 0) throw Unsupported{"integral: negative power"};
        for (auto &c : cur) c.n += f.second;
      } else if (at.k == VAR || !((at.a && depends(*at.a, x)) || (at.b && depends(*at.b, x)))) {
        for (auto &c : cur) c.coef = pmul(*c.coef, *patom(f.first, f.second));
      } else if (at.k == EXP) {
        PP e = pscale(*at.a, f.second);
        for (auto &c : cur) c.ea = c.ea ? padd(*c.ea, *e, 1) : e;
      } else if ((at.k == SIN || at.k == COS) && f.second > 0) {
        int tt = at.k == COS ? 1 : 2;
        for (int q = 0; q < f.second; q++) {
          std::vector<Tr> nx;
          for (auto &c : cur) {
            if (!c.trig) {
              Tr d = c;
              d.trig = tt;
              d.ta = at.a;
              nx.push_back(d);
              continue;
            }
            PP sm = padd(*c.ta, *at.a, 1), df = padd(*c.ta, *at.a, -1);
            Tr u = c, v = c;
            u.ta = sm;
            v.ta = df;
            PP h = pscale(*c.coef, mpq_class(1, 2)), nh = pscale(*c.coef, mpq_class(-1, 2));
            if (c.trig == 1 && tt == 1) { u.trig = 1; v.trig = 1; u.coef = h; v.coef = h; }
            else if (c.trig == 2 && tt == 2) { u.trig = 1; v.trig = 1; u.coef = nh; v.coef = h; }
            else if (c.trig == 2) { u.trig = 2; v.trig = 2; u.coef = h; v.coef = h; }        // sin a cos b
            else { u.trig = 2; v.trig = 2; u.coef = h; v.coef = nh; }                          // cos a sin b
            nx.push_back(u);
            nx.push_back(v);
          }
          cur = nx;
        }
      } else throw Unsupported{"integral: unsupported term"};
    }
    for (auto &c : cur) F = padd(*F, *antideriv(c, x), 1);
  }
  return padd(*psubst(*F, x, hi), *psubst(*F, x, lo), -1);
}

// ------------------------------------------------------------------ assertions
// A term as N * prod F^e with N and every F free of INV atoms; common factors
// (such as the node factors of a barycentric formula) cancel symbolically.
struct Frac {
  PP n;
  std::map<std::string, std::pair<PP, int>> f;
};
static PP monic(PP p, mpq_class &lead) {
  std::map<Mono, mpq_class> s(p->t.begin(), p->t.end());
  lead = s.begin()->second;
  return pscale(*p, 1 / lead);
}
static const Frac &frac_of_atom(int a);
static Frac frac_of(const Poly &p) {
  struct T { PP m; std::map<std::string, std::pair<PP, int>> f; };
  std::vector<T> ts;
  std::map<std::string, std::pair<PP, int>> mn;
  bool first = true;
  std::map<std::string, T> grp;
  for (auto &t : p.t) {
    T x;
    Mono m;
    PP extra = pconst(1);
    for (auto &f : t.first) {
      if (atoms[f.first].k != INV) { m.push_back(f); continue; }
      const Frac &q = frac_of_atom(f.first); // fraction of the INV's argument
      mpq_class c;
      if (is_const(*q.n, c)) extra = pscale(*extra, c == 0 ? throw Unsupported{"zero denominator"} : 1 / mpq_class(f.second > 0 ? c : 1 / c));
      else {
        PP mo = monic(q.n, c);
        mpq_class k = 1;
        for (int i = 0; i < std::abs(f.second); i++) k *= c;
        extra = pscale(*extra, f.second > 0 ? 1 / k : k);
        auto &e = x.f[pkey(*mo)];
        e.first = mo;
        e.second -= f.second;
      }
      if (is_const(*q.n, c) && std::abs(f.second) > 1) throw Unsupported{"power of constant denominator"};
      for (auto &g : q.f) { auto &e = x.f[g.first]; e.first = g.second.first; e.second -= g.second.second * f.second; }
    }
    auto mp = std::make_shared<Poly>();
    mp->t[m] = t.second;
    x.m = pmul(*mp, *extra);
    std::string key;
    for (auto it = x.f.begin(); it != x.f.end();)
      if (it->second.second == 0) it = x.f.erase(it); else { key += it->first + "^" + std::to_string(it->second.second) + ";"; ++it; }
    auto g = grp.find(key);
    if (g == grp.end()) grp[key] = x;
    else g->second.m = padd(*g->second.m, *x.m, 1);
  }
  for (auto &kv : grp) ts.push_back(kv.second);
  for (auto &x : ts) {
    if (first) { mn = x.f; first = false; continue; }
    for (auto &kv : mn) { auto it = x.f.find(kv.first); kv.second.second = std::min(kv.second.second, it == x.f.end() ? 0 : it->second.second); }
    for (auto &kv : x.f) if (!mn.count(kv.first)) { mn[kv.first] = {kv.second.first, std::min(0, kv.second.second)}; }
  }
  Frac r;
  r.n = pconst(0);
  for (auto &x : ts) {
    PP z = x.m;
    for (auto &kv : mn) {
      auto it = x.f.find(kv.first);
      int e = (it == x.f.end() ? 0 : it->second.second) - kv.second.second;
      if (e > 0) z = pmul(*z, *ppow(kv.second.first, e));
      if (z->t.size() > MAXTERMS) throw Unsupported{"fraction too large"};
    }
    r.n = padd(*r.n, *z, 1);
  }
  for (auto &kv : mn) if (kv.second.second != 0) r.f[kv.first] = kv.second;
  return r;
}
static const Frac &frac_of_atom(int a) {
  static std::map<int, Frac> memo;
  auto it = memo.find(a);
  if (it != memo.end()) return it->second;
  Frac f = frac_of(*atoms[a].a);
  return memo[a] = f;
}
// intervals of variables that the path condition narrows drastically
static std::map<int, Iv> tight_vars(const std::vector<Con> &all) {
  std::map<int, std::pair<mpq_class, mpq_class>> b;
  std::map<int, Iv> r;
  for (auto &c : all) {
    if (c.r == NE || c.p->t.size() > 2) continue;
    int x = -1;
    mpq_class k, c0 = 0;
    bool ok = true;
    for (auto &t : c.p->t) {
      if (t.first.empty()) c0 = t.second;
      else if (t.first.size() == 1 && t.first[0].second == 1 && atoms[t.first[0].first].k == VAR && x < 0) { x = t.first[0].first; k = t.second; }
      else ok = false;
    }
    if (!ok || x < 0) continue;
    mpq_class v = -c0 / k;
    if (!b.count(x)) {
      if (std::isinf(atoms[x].iv.lo) || std::isinf(atoms[x].iv.hi)) continue;
      b[x] = {mpq_class(atoms[x].iv.lo), mpq_class(atoms[x].iv.hi)};
    }
    auto &q = b[x];
    if (c.r == EQ) { q.first = q.second = v; }
    else if (k > 0) { if (v < q.second) q.second = v; }
    else if (v > q.first) q.first = v;
  }
  for (auto &kv : b) {
    Iv d = atoms[kv.first].iv;
    mpq_class w = kv.second.second - kv.second.first;
    if (w < 0 || w.get_d() > 1e-3 * (d.hi - d.lo)) continue;
    r[kv.first] = {kv.second.first.get_d(), kv.second.second.get_d()};
  }
  return r;
}
static PP recentre(PP d, const std::map<int, Iv> &tv) {
  for (auto &kv : tv) {
    if (!depends(*d, kv.first)) continue;
    double mid = kv.second.lo + (kv.second.hi - kv.second.lo) / 2;
    double w = up(up(std::max(kv.second.hi - mid, mid - kv.second.lo))) + 1e-300;
    std::string nm = "~" + atoms[kv.first].name + "@" + num(mid) + "/" + num(w);
    Atom x;
    x.k = VAR; x.name = nm; x.iv = {-w, w};
    int id;
    auto it = atomkey.find("~c" + nm);
    if (it != atomkey.end()) id = it->second;
    else { atoms.push_back(x); id = (int)atoms.size() - 1; atomkey["~c" + nm] = id; }
    d = psubst(*d, kv.first, padd(*patom(id), *pconst(mpq_class(mid)), 1));
  }
  return d;
}
// |d| <= T by the solver over the linear abstraction of an INV-free quotient
static bool prove_frac(PP d, const mpq_class &T, std::string &how) {
  Frac f = frac_of(*d);
  if (f.n->t.empty()) { how = "zero"; return true; }
  double m = 1;
  for (auto &kv : f.f) {
    Iv b = ipow(poly_iv(*kv.second.first), kv.second.second);
    double q = std::max(std::fabs(b.lo), std::fabs(b.hi));
    if (std::isinf(q) || std::isnan(q)) return false;
    m = up(m * q);
  }
  if (!(m > 0) || std::isinf(m)) return false;
  Enc e(*zc(), true, v_timeout_ms);
  z3::expr x = e.enc(*f.n), t = e.q(T / mpq_class(m));
  e.s.add(x > t || x < -t);
  if (e.check() == z3::unsat) { how = "lra-frac"; return true; }
  return false;
}
// 1 proved, 0 violated (v filled), -1 unknown
static int decide_bound(PP d, double tol, Val &v, std::string &how) {
  mpq_class c, T(tol);
  if (is_const(*d, c)) {
    if (abs(c) <= T) { how = "const"; sh->terms++; // still ask the solver, on the constant term
      Enc e(*zc(), true, q_timeout_ms);
      z3::expr x = e.enc(*d), t = e.q(T);
      e.s.add(x > t || x < -t);
      e.check();
      return 1; }
  }
  std::vector<Con> all = allpc();
  bool hasinv = false, fracdone = false;
  for (auto &t : d->t) for (auto &f : t.first) if (atoms[f.first].k == INV) hasinv = true;
  if (hasinv) {
    fracdone = true;
    try { if (prove_frac(d, T, how)) return 1; } catch (Unsupported &) {}
  }
  // 1. linear abstraction over monomials
  {
    Enc e(*zc(), true, v_timeout_ms);
    z3::expr x = e.enc(*d), t = e.q(T);
    e.s.add(x > t || x < -t);
    for (auto &k : all) e.s.add(e.con(k));
    // products of the assumed equalities with monomials of the goal
    if (!eqs.empty()) {
      std::set<std::pair<size_t, Mono>> done;
      size_t n = 0;
      std::vector<PP> frontier{d};
      for (int round = 0; round < 2; round++) {
        std::vector<PP> nf;
        for (auto &fp : frontier)
          for (auto &t1 : fp->t)
            for (size_t i = 0; i < eqs.size(); i++)
              for (auto &t2 : eqs[i].p->t) {
                Mono neg;
                bool okk = true;
                for (auto &f : t2.first) {
                  if (atoms[f.first].k != VAR && atoms[f.first].k != LU) okk = false;
                  neg.push_back({f.first, -f.second});
                }
                if (!okk) continue;
                PolyMap tmp;
                mulmono(tmp, t1.first, neg, 1);
                if (tmp.size() != 1) continue;
                Mono mm = tmp.begin()->first;
                // only multipliers that leave no negative power of a non-interval-bounded atom
                int deg = 0;
                for (auto &f : mm) {
                  Iv b = atoms[f.first].iv;
                  if (f.second < 0 && b.lo <= 0 && b.hi >= 0) okk = false;
                  deg += std::abs(f.second);
                }
                if (!okk || deg > 10) continue;
                if (!done.insert({i, mm}).second) continue;
                if (++n > 4000) continue;
                auto mp = std::make_shared<Poly>();
                mp->t[mm] = 1;
                PP prod = pmul(*eqs[i].p, *mp);
                e.s.add(e.enc(*prod) == e.c.real_val(0));
                nf.push_back(prod);
              }
        frontier = nf;
      }
    }
    if (e.check() == z3::unsat) { how = "lra"; return 1; }
  }
  // 2. clear denominators; recentre variables confined to a sliver
  try {
    if (!fracdone && prove_frac(d, T, how)) return 1;
    std::map<int, Iv> tv = tight_vars(all);
    if (!tv.empty()) {
      PP d2 = recentre(d, tv);
      if (prove_frac(d2, T, how)) { how += "-local"; return 1; }
    }
  } catch (Unsupported &) {}
  // 3. concrete candidate, confirmed by the solver
  double best = 0;
  bool found = false;
  for (int i = 0; i < 400 && eqs.empty(); i++) {
    Val w = random_vals(), w2 = w;
    if (!holds_num(pc, w2, 1e-6)) continue;
    double x = std::fabs(eval_poly(*d, w2));
    if (!std::isnan(x) && x > 2 * tol && x > best) { best = x; v = w; found = true; if (i > 60) break; }
  }
  if (found) {
    Enc e(*zc(), false, q_timeout_ms);
    z3::expr x = e.enc(*d), t = e.q(T);
    e.s.add(x > t || x < -t);
    for (auto &k : all) e.s.add(e.con(k));
    for (auto &kv : v) { auto it = e.av.find(kv.first); if (it != e.av.end()) e.s.add(it->second == e.qd(kv.second)); }
    z3::check_result r = e.check();
    if (r != z3::unsat) { how = r == z3::sat ? "sat-pinned" : "numeric"; return 0; }
  }
  // 4. full nonlinear query
  {
    Enc e(*zc(), false, v_timeout_ms);
    z3::expr x = e.enc(*d), t = e.q(T);
    e.s.add(x > t || x < -t);
    for (auto &k : all) e.s.add(e.con(k));
    z3::check_result r = e.check();
    if (r == z3::unsat) { how = "nra"; return 1; }
    if (r == z3::sat) { v = model_vals(e); how = "sat"; return 0; }
  }
  // 5. boundary candidates (equality constrained paths)
  v = random_vals();
  return -1;
}
static void violation(const std::string &type, const std::string &label, const Val &v, double ip, double sp, double tol, const std::string &how) {
  sh->viol++;
  emit("{\"k\":\"violation\",\"type\":\"" + type + "\",\"label\":\"" + esc(label) + "\",\"how\":\"" + how + "\",\"impl\":" + num(ip) + ",\"spec\":" + num(sp) + ",\"tol\":" + num(tol) + ",\"model\":" + vals_json(v) + "}");
}
static int nviol = 0;
namespace sym {
bool symbolic() { return true; }
std::vector<Case> &cases() { static std::vector<Case> c; return c; }
double var(const std::string &name, double lo, double hi) {
  Guard g;
  int a = get_var(name, lo, hi);
  return mkpoly(patom(a));
}
double uf(const std::string &name, double a) {
  double res = 0;
  RT({ res = mkpoly(patom(mkatom(UF, "$" + name, poly(a), nullptr, 0))); });
  return res;
}
void assume(bool c) {
  if (!c) { Guard g; emit("{\"k\":\"assume_false\"}"); flush_fns(); _exit(0); }
}
void assume_eq(double a, double b) {
  RT({
    PP d = padd(*poly(a), *poly(b), -1);
    if (!d->t.empty()) eqs.push_back(Con{d, EQ});
  });
}
static std::string key(const std::string &l) { return l + "#" + std::to_string(occ[l]++); }
void check_eq(const std::string &l, double a, double b, double tol) {
  if (boxed(tol)) unsupported("symbolic tolerance");
  RT({
    std::string k = key(l);
    if ((!boxed(a) && !std::isfinite(a)) || (!boxed(b) && !std::isfinite(b))) {
      bool same = !boxed(a) && !boxed(b) && a == b;
      if (!same) {
        Val v;
        if (pc_model(v) != 0) violation("eq", k, v, boxed(a) ? 0 : a, boxed(b) ? 0 : b, tol, "non-finite");
      }
      return;
    }
    PP x = poly(a); PP y = poly(b);
    obsv.push_back(std::make_tuple(k, a, b));
    PP d = padd(*x, *y, -1);
    Val v;
    std::string how;
    double t0 = now();
    if (nviol > 6) return;
    int r = decide_bound(d, tol, v, how);
    if (r == 1) emit("{\"k\":\"proved\",\"label\":\"" + esc(k) + "\",\"how\":\"" + how + "\",\"terms\":" + std::to_string(x->t.size() + y->t.size()) + "}");
    else {
      Val w = v, w2 = v;
      double ip = eval_poly(*x, w), sp = eval_poly(*y, w2);
      if (r == 0) { nviol++; violation("eq", k, v, ip, sp, tol, how); }
      else emit("{\"k\":\"inconclusive\",\"label\":\"" + esc(k) + "\",\"t\":" + num(now() - t0) + ",\"terms\":" + std::to_string(d->t.size()) + "}");
    }
  });
}
void check_same(const std::string &l, double a, double b) {
  if (!boxed(a) && !boxed(b)) { check_true(l, bits(a) == bits(b) || a == b); return; }
  check_eq(l, a, b, 0);
}
void check_true(const std::string &l, bool c) {
  RT({
    std::string k = key(l);
    // the path condition is the solver-decided part: c is a constant on this path
    if (c) { emit("{\"k\":\"proved\",\"label\":\"" + esc(k) + "\",\"how\":\"path\",\"terms\":0}"); return; }
    Val v;
    int r = pc_model(v);
    if (r != 0) { nviol++; violation("true", k, v, 0, 1, 0, r > 0 ? "path-sat" : "path-unknown"); }
  });
}
void lu_bound(double b) { LU_BOUND = b; }
void fail(const std::string &l) { check_true(l, false); }
void mark(const std::string &l) {
  Guard g;
  emit("{\"k\":\"mark\",\"l\":\"" + esc(l) + "\"}");
}
static int xvar(double x) {
  PP p = poly(x);
  if (p->t.size() == 1 && p->t.begin()->first.size() == 1 && p->t.begin()->second == 1 && p->t.begin()->first[0].second == 1 && atoms[p->t.begin()->first[0].first].k == VAR)
    return p->t.begin()->first[0].first;
  throw Unsupported{"not a variable"};
}
double D(double e, double x, int n) {
  double res = 0;
  RT({
    int xv = xvar(x);
    PP p = poly(e);
    for (int i = 0; i < n; i++) p = pD(*p, xv);
    res = mkpoly(p);
  });
  return res;
}
double integral(double e, double x, double lo, double hi) {
  double res = 0;
  RT({ res = mkpoly(pintegral(*poly(e), xvar(x), poly(lo), poly(hi))); });
  return res;
}
double subst(double e, double x, double v) {
  double res = 0;
  RT({ res = mkpoly(psubst(*poly(e), xvar(x), poly(v))); });
  return res;
}
} // namespace sym

int main(int argc, char **argv) {
  std::string cs;
  bool list = false;
  double limit = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--list") list = true;
    else if (a == "--case") cs = argv[++i];
    else if (a == "--out") outfd = open(argv[++i], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    else if (a == "--max-paths") max_paths = atol(argv[++i]);
    else if (a == "--limit") limit = atof(argv[++i]);
    else if (a == "--qt") v_timeout_ms = atoi(argv[++i]);
    else if (a == "--seed") rng.seed(strtoull(argv[++i], 0, 10));
  }
  if (list) {
    for (auto &c : sym::cases()) printf("%s\t%d\n", c.name.c_str(), c.tier);
    return 0;
  }
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof(Shared));
  if (limit > 0) deadline = now() + limit;
  srand(1);
  for (auto &c : sym::cases())
    if (c.name == cs) {
      pid_t p = fork();
      if (p == 0) {
        static char stk[1 << 18];
        stack_t ss;
        ss.ss_sp = stk; ss.ss_size = sizeof stk; ss.ss_flags = 0;
        sigaltstack(&ss, 0);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = onsig;
        sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, 0);
        running = true;
        try { c.fn(); }
        catch (const std::exception &e) {
          running = false;
          Val v;
          int r = -1;
          try { r = pc_model(v); } catch (...) {}
          if (r != 0) {
            sh->viol++; sh->paths++;
            emit("{\"k\":\"violation\",\"type\":\"exception\",\"label\":\"exception\",\"what\":\"" + esc(e.what()) + "\",\"model\":" + vals_json(v) + "}");
          }
          flush_fns();
          _exit(0);
        }
        finish("end");
      }
      int st;
      while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
      char b[600];
      snprintf(b, 600, "{\"k\":\"stats\",\"paths\":%ld,\"forks\":%ld,\"queries\":%ld,\"lra\":%ld,\"nra\":%ld,\"unsat\":%ld,\"sat\":%ld,\"unknown\":%ld,\"solver_s\":%.4f,\"viol\":%ld,\"status\":%d}",
               sh->paths, sh->forks, sh->queries, sh->lra, sh->nra, sh->unsat, sh->sat, sh->unknown, sh->solver_s, sh->viol, st);
      emit(b);
      return 0;
    }
  fprintf(stderr, "no case %s\n", cs.c_str());
  return 2;
}
