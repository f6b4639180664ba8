// Native counterpart of runtime.cpp: inputs come from a model file, every
// observed value is printed, nothing is instrumented.
#include "sym.hpp"
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <random>
#include <unistd.h>
#include <exception>
#include <typeinfo>

namespace {
std::map<std::string, double> model;
std::map<std::string, int> occ;
FILE *out;
bool rnd = false;
std::mt19937_64 rng;
std::string esc(const std::string &s) {
  std::string r;
  for (char c : s)
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += ' ';
    else r += c;
  return r;
}
std::string key(const std::string &l) {
  int k = occ[l]++;
  return l + "#" + std::to_string(k);
}
void onsig(int s) {
  fprintf(out, "{\"k\":\"crash\",\"sig\":%d}\n", s);
  fflush(out);
  _exit(40);
}
} // namespace
extern "C" {
double verif_uninit = 12345.678;
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  if (p)
    for (size_t i = 0; i + 8 <= n; i += 8)
      memcpy((char *)p + i, &verif_uninit, 8);
  return p;
}
}
namespace sym {
void lu_bound(double) {}
bool symbolic() { return false; }
double var(const std::string &name, double lo, double hi) {
  auto it = model.find(name);
  if (it != model.end())
    return it->second;
  double v = (lo + hi) / 2;
  if (rnd)
    v = std::uniform_real_distribution<double>(lo, hi)(rng);
  model[name] = v;
  return v;
}
void assume(bool c) {
  if (!c) {
    fprintf(out, "{\"k\":\"assume_false\"}\n");
    fflush(out);
    _exit(0);
  }
}
void assume_eq(double, double) {}
static std::string num(double x) {
  char b[64];
  if (std::isnan(x)) return "\"nan\"";
  if (std::isinf(x)) return "\"inf\"";
  snprintf(b, 64, "%.17g", x);
  return b;
}
void check_eq(const std::string &l, double a, double b, double tol) {
  fprintf(out, "{\"k\":\"eq\",\"l\":\"%s\",\"a\":%s,\"b\":%s,\"tol\":%s}\n", esc(key(l)).c_str(), num(a).c_str(), num(b).c_str(), num(tol).c_str());
  fflush(out);
}
void check_same(const std::string &l, double a, double b) { check_eq(l, a, b, 0); }
void check_true(const std::string &l, bool c) {
  fprintf(out, "{\"k\":\"true\",\"l\":\"%s\",\"c\":%d}\n", esc(key(l)).c_str(), (int)c);
  fflush(out);
}
void fail(const std::string &l) { check_true(l, false); }
void mark(const std::string &l) {
  fprintf(out, "{\"k\":\"mark\",\"l\":\"%s\"}\n", esc(l).c_str());
  fflush(out);
}
double uf(const std::string &n, double x) { return uf_num(n, x); }
double D(double, double, int) { return NAN; }
double integral(double, double, double, double) { return NAN; }
double subst(double, double, double) { return NAN; }
std::vector<Case> &cases() { static std::vector<Case> c; return c; }
} // namespace sym
int main(int argc, char **argv) {
  out = stdout;
  std::string cs;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--list") {
      for (auto &c : sym::cases()) printf("%s\t%d\n", c.name.c_str(), c.tier);
      return 0;
    } else if (a == "--case") cs = argv[++i];
    else if (a == "--out") out = fopen(argv[++i], "w");
    else if (a == "--random") { rnd = true; rng.seed(strtoull(argv[++i], 0, 10)); }
    else if (a == "--model") {
      std::ifstream f(argv[++i]);
      std::string n, v;
      while (f >> n >> v) model[n] = strtod(v.c_str(), 0);
      if (model.count("uninit")) verif_uninit = model["uninit"];
    }
  }
  signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig);
  srand(1);
  for (auto &c : sym::cases())
    if (c.name == cs) {
      try { c.fn(); }
      catch (const std::exception &e) {
        fprintf(out, "{\"k\":\"exception\",\"what\":\"%s\"}\n", esc(e.what()).c_str());
        fflush(out);
        return 0;
      }
      fprintf(out, "{\"k\":\"end\"}\n");
      fflush(out);
      return 0;
    }
  fprintf(stderr, "no case %s\n", cs.c_str());
  return 2;
}
