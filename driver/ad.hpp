// Driver for programs over tracked variables (values with derivatives).
#ifndef ETR_VERIF_AD_HPP
#define ETR_VERIF_AD_HPP
#define STANDALONE_ETR
#include "etr.hpp"
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
using namespace etr;

typedef AllVars<3, 2, 0, 12> AV;

// what a variable looks like through the public interface
struct Snap {
  bool m = false;
  long r = 0, c = 0;
  std::vector<double> v;
  bool same(const Snap &o) const {
    if (m != o.m || v.size() != o.v.size()) return false;
    if (m && (r != o.r || c != o.c)) return false;
    for (size_t i = 0; i < v.size(); i++)
      if (!(v[i] == o.v[i] || (v[i] != v[i] && o.v[i] != o.v[i]))) return false;
    return true;
  }
};

static const int NV = 5;
static const int CAP = 40;

struct E {
  AV av;
  Vec<double, VarPointer<AV, 0, 0>, VariableTypeTrait> a0;
  Vec<double, VarPointer<AV, 1, 0>, VariableTypeTrait> a1;
  Vec<double, VarPointer<AV, 2, 0>, VariableTypeTrait> a2;
  Vec<double, VarPointer<AV, 0, 1>, VariableTypeTrait> w0;
  Vec<double, VarPointer<AV, 1, 1>, VariableTypeTrait> w1;
  double mem[2][CAP + 8]; // the memory lent starts at cell 4
  size_t lent[2];
  Snap out; // what the last statement reported
  std::string text;
  bool hasOut = false, hasText = false;
  E(int iv, const Snap *init);
  E(const E &) = delete;

  template <typename V> void value(const V &x) {
    out = Snap();
    out.m = x.im();
    if (out.m) {
      out.r = x.nr();
      out.c = x.nc();
    }
    for (size_t i = 0; i < x.size(); i++) out.v.push_back(static_cast<double>(x[i]));
    hasOut = true;
  }
  void numbers(std::initializer_list<double> l) {
    out = Snap();
    out.v = l;
    hasOut = true;
  }
  template <typename V> void query(const V &x) {
    const bool m = x.im();
    numbers({double(x.size()), double(m), m ? double(x.nr()) : 0, m ? double(x.nc()) : 0});
  }
  template <typename V> void data(V &x) {
    double *p = nullptr;
    x.d.getPtr(av, &p);
    out = Snap();
    for (size_t i = 0; i < x.size(); i++) out.v.push_back(p[i]);
    hasOut = true;
  }
  template <typename F> void printed(F f) {
    std::ostringstream os;
    struct Redirect {
      std::streambuf *old;
      Redirect(std::streambuf *b) : old(std::cout.rdbuf(b)) {}
      ~Redirect() { std::cout.rdbuf(old); }
    } redirect(os.rdbuf());
    f();
    text = os.str();
    hasText = true;
  }
};

// plain vectors as arguments of constants
template <typename T> Vec<T> plain(std::initializer_list<T> l) {
  Vec<T> r;
  r.resize(l.size());
  size_t i = 0;
  for (T x : l) r[i++] = x;
  return r;
}

typedef void (*StmtFn)(E &);
struct Entry {
  int id;
  StmtFn fn;
};
void addStmts(const Entry *list, int n);

#define a0 e.a0
#define a1 e.a1
#define a2 e.a2
#define w0 e.w0
#define w1 e.w1
#define av e.av
#endif
