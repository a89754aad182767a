// Driver for programs over ordinary variables: executes statements of the
// generated library on the real code and logs the resulting state.
#ifndef ETR_VERIF_PROG_HPP
#define ETR_VERIF_PROG_HPP
#define STANDALONE_ETR
#include "etr.hpp"
#include <cstdio>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
using namespace etr;

typedef Vec<double, Borrow<double>> BVec;

// what a variable looks like through the public interface
struct Snap {
  char t = '-';
  bool m = false;
  long r = 0, c = 0;
  std::vector<double> v;
  bool same(const Snap &o) const {
    if (t != o.t || m != o.m || v.size() != o.v.size()) return false;
    if (m && (r != o.r || c != o.c)) return false;
    for (size_t i = 0; i < v.size(); i++)
      if (!(v[i] == o.v[i] || (v[i] != v[i] && o.v[i] != o.v[i]))) return false;
    return true;
  }
};

template <typename V> Snap snapOf(char t, const V &x) {
  Snap s;
  s.t = t;
  s.m = x.im();
  if (s.m) {
    s.r = x.nr();
    s.c = x.nc();
  }
  for (std::size_t i = 0; i < x.size(); i++) s.v.push_back(static_cast<double>(x[i]));
  return s;
}

// an lvalue as the constant right value which matrix() takes
template <typename T> const T &&MV(const T &x) { return static_cast<const T &&>(x); }

template <typename T> T byvalue(T x) { return x; }

template <typename T> constexpr char letter() {
  return std::is_same_v<T, bool> ? 'b' : std::is_integral_v<T> ? 'i' : std::is_floating_point_v<T> ? 'd' : '?';
}

template <typename T> T *cells(std::initializer_list<double> l) {
  static T room[64];
  int i = 0;
  for (double v : l) room[i++] = static_cast<T>(v);
  return room;
}

struct E {
  static constexpr int CAP = 640;
  double mem[CAP + 8];           // the memory lent to b1 starts at cell 4
  double mem2[CAP + 8];          // and to b2
  size_t lent1 = 0, lent2 = 0;
  Vec<double> *p_d1 = nullptr, *p_d2 = nullptr, *p_d3 = nullptr;
  Vec<int> *p_i1 = nullptr, *p_i2 = nullptr;
  Vec<bool> *p_l1 = nullptr, *p_l2 = nullptr;
  BVec *p_b1 = nullptr;
  BVec *p_b2 = nullptr;
  void poke1(size_t j, double v) { mem[4 + (j - 1) % lent1] = v; }
  void poke2(size_t j, double v) { mem2[4 + (j - 1) % lent2] = v; }
  double *cell1() { return mem + 4; }
  double *cell2() { return mem2 + 4; }
  // the caller lends the first cells of its memory anew
  template <int W> void lend(size_t r, size_t c, int how) {
    double *m = (W == 1 ? mem : mem2) + 4;
    size_t &n = W == 1 ? lent1 : lent2;
    BVec *&p = W == 1 ? p_b1 : p_b2;
    const size_t want = c == 0 ? r : r * c;
    if (want > n) throw std::runtime_error("not that much memory");
    for (size_t i = want; i < n; i++) m[i] = -77.5;
    n = want;
    BVec *fresh = nullptr;
    if (c > 0) {
      fresh = new BVec(m, r, c);
    } else if (how == 0) {
      fresh = new BVec(m, want);
    } else {
      Borrow<double> b(m, want);
      fresh = new BVec(b);
    }
    delete p;
    p = fresh;
  }
  Snap out;
  std::string text;
  bool hasOut = false, hasText = false;

  void begin(char t) { out = Snap(); out.t = t; hasOut = true; }
  template <typename T> void visit(const T &x) { out.v.push_back(static_cast<double>(x)); }
  void end() {}
  template <typename T> void scalar(char t, const T &x) { begin(t); visit(x); }
  // the element type is the one the value itself claims to have
  template <typename V> void value(char, const V &x) {
    out = snapOf(letter<typename V::Type>(), x);
    hasOut = true;
  }
  template <typename F> void printed(F f, char t) {
    std::ostringstream os;
    struct Redirect {
      std::streambuf *old;
      Redirect(std::streambuf *b) : old(std::cout.rdbuf(b)) {}
      ~Redirect() { std::cout.rdbuf(old); }
    } redirect(os.rdbuf());
    f();
    text = os.str();
    out = Snap();
    out.t = t;
    hasText = true;
  }
};

template <typename T, typename F> void reinit(T *&p, F make) {
  T *fresh = make();
  delete p;
  p = fresh;
}

typedef void (*StmtFn)(E &);
struct Entry {
  int id;
  StmtFn fn;
};
void addStmts(const Entry *list, int n);

#define d1 (*e.p_d1)
#define d2 (*e.p_d2)
#define d3 (*e.p_d3)
#define i1 (*e.p_i1)
#define i2 (*e.p_i2)
#define l1 (*e.p_l1)
#define l2 (*e.p_l2)
#define b1 (*e.p_b1)
#define b2 (*e.p_b2)
#endif
