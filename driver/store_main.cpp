// Driver for owning storage: executes histories of operations (interpreted)
// on the real storage classes and logs the resulting contents.  The log has
// the format of the program driver.
#define STANDALONE_ETR
#include "etr.hpp"
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
using namespace etr;

static long live = 0;
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void onMalloc(const volatile void *p, size_t) { if (p) live++; }
static void onFree(const volatile void *p) { if (p) live--; }
#endif

struct Snap {
  char t = '-';
  std::vector<double> v;
  bool bad = false;
  bool same(const Snap &o) const {
    if (bad || o.bad || v.size() != o.v.size()) return false;
    for (size_t i = 0; i < v.size(); i++)
      if (!(v[i] == o.v[i] || (v[i] != v[i] && o.v[i] != o.v[i]))) return false;
    return true;
  }
};

struct Op {
  std::string name;
  int slot = 0;
  std::vector<int> a;
};

static const int NS = 9;
static const char *NAMES[] = {"a1", "a2", "a3", "n1", "n2", "f1", "f2", "q1", "q2"};
static const char TYPES[] = "dddiibbii";

struct E {
  Buffer<double> *a1 = new Buffer<double>();
  Vec<double> *a2 = new Vec<double>();
  Vec<double> *a3 = new Vec<double>();
  Buffer<int> *n1 = new Buffer<int>(), *n2 = new Buffer<int>();
  Buffer<bool> *f1 = new Buffer<bool>(), *f2 = new Buffer<bool>();
  Indices *q1 = new Indices(), *q2 = new Indices();
  ~E() {
    delete a1; delete a2; delete a3; delete n1; delete n2; delete f1; delete f2; delete q1; delete q2;
  }
};

// calls f with the storage of a slot
template <typename F> void withSlot(E &e, int x, F f) {
  switch (x) {
  case 0: f(*e.a1); break;
  case 1: f(e.a2->d); break;
  case 2: f(e.a3->d); break;
  case 3: f(*e.n1); break;
  case 4: f(*e.n2); break;
  case 5: f(*e.f1); break;
  case 6: f(*e.f2); break;
  case 7: f(*e.q1); break;
  default: f(*e.q2); break;
  }
}

template <typename S, typename T> struct SameStore { static constexpr bool value = std::is_same_v<S, T>; };

// the owner of a storage which can be created anew
template <typename F> void withOwner(E &e, int x, F f) {
  switch (x) {
  case 0: f(e.a1); break;
  case 3: f(e.n1); break;
  case 4: f(e.n2); break;
  case 5: f(e.f1); break;
  case 6: f(e.f2); break;
  case 7: f(e.q1); break;
  case 8: f(e.q2); break;
  default: fprintf(stderr, "no owner\n"); exit(3);
  }
}

static bool hasOut;
static Snap out;

template <typename P> void renew(P *&p, P *fresh) {
  delete p;
  p = fresh;
}

static Vec<double> *vecOf(E &e, int x) { return x == 1 ? e.a2 : e.a3; }

template <typename S> void fillWith(S &s, int kind, int n, int base) {
  Vec<double> v(SI{static_cast<size_t>(n > 0 ? n : 1)});
  Vec<int> w(SI{static_cast<size_t>(n > 0 ? n : 1)});
  for (int i = 0; i < n; i++) {
    v[i] = base + i;
    w[i] = base + i;
  }
  switch (kind) {
  case 0: s.fill(v); break;
  case 1: s.fill(w); break;
  case 2: s.fill(colon(static_cast<double>(base), static_cast<double>(base + n - 1))); break;
  case 3: s.fill(colon(base, base + n - 1)); break;
  case 4: { const Vec<double> cv = v; s.fill(cv); break; }
  default: s.fill(subset(v, colon(1, n))); break;
  }
}

static void exec(E &e, const Op &op) {
  const int x = op.slot;
  const std::string &o = op.name;
  auto arg = [&](size_t i) { return op.a.at(i); };
  auto num = [&](size_t i) { return static_cast<double>(arg(i)) / arg(i + 1); };
  if (o == "new") withOwner(e, x, [&](auto *&p) { renew(p, new std::remove_reference_t<decltype(*p)>()); });
  else if (o == "size") withOwner(e, x, [&](auto *&p) {
    using S = std::remove_reference_t<decltype(*p)>;
    if constexpr (!std::is_same_v<S, Indices>) renew(p, new S(static_cast<std::size_t>(arg(0))));
  });
  else if (o == "isize") withOwner(e, x, [&](auto *&p) {
    using S = std::remove_reference_t<decltype(*p)>;
    if constexpr (!std::is_same_v<S, Indices>) renew(p, new S(arg(0)));
  });
  else if (o == "copy") withOwner(e, x, [&](auto *&p) {
    using S = std::remove_reference_t<decltype(*p)>;
    withSlot(e, arg(0), [&](auto &src) {
      if constexpr (std::is_same_v<S, std::remove_reference_t<decltype(src)>>)
        renew(p, new S(static_cast<const S &>(src)));
    });
  });
  else if (o == "move") withOwner(e, x, [&](auto *&p) {
    using S = std::remove_reference_t<decltype(*p)>;
    withSlot(e, arg(0), [&](auto &src) {
      if constexpr (std::is_same_v<S, std::remove_reference_t<decltype(src)>>)
        renew(p, new S(std::move(src)));
    });
  });
  else if (o == "swap" || o == "assign") withSlot(e, x, [&](auto &s) {
    using S = std::remove_reference_t<decltype(s)>;
    withSlot(e, arg(0), [&](auto &t) {
      if constexpr (std::is_same_v<S, std::remove_reference_t<decltype(t)>>) {
        if (o == "swap") s.moveit(t);
        else s = static_cast<const S &>(t);
      }
    });
  });
  else if (o == "init") withSlot(e, x, [&](auto &s) { s.init(arg(0)); });
  else if (o == "resize") withSlot(e, x, [&](auto &s) { s.resize(arg(0)); });
  else if (o == "realloc") withSlot(e, x, [&](auto &s) { s.realloc(arg(0)); });
  else if (o == "push") withSlot(e, x, [&](auto &s) {
    using T = typename std::remove_reference_t<decltype(s)>::RetType;
    s.push_back(static_cast<T>(num(0)));
  });
  else if (o == "fill") withSlot(e, x, [&](auto &s) {
    using T = typename std::remove_reference_t<decltype(s)>::RetType;
    if constexpr (std::is_same_v<T, double>) s.fill(num(0));
    else if (arg(1) == 1 && !std::is_same_v<T, std::size_t>) s.fill(arg(0));
    else s.fill(static_cast<T>(num(0)));
  });
  else if (o == "fillv") withSlot(e, x, [&](auto &s) {
    using T = typename std::remove_reference_t<decltype(s)>::RetType;
    if constexpr (std::is_same_v<T, double> || std::is_same_v<T, int>) fillWith(s, arg(0), arg(1), arg(2));
  });
  else if (o == "set") withSlot(e, x, [&](auto &s) {
    using T = typename std::remove_reference_t<decltype(s)>::RetType;
    s[static_cast<std::size_t>(arg(0))] = static_cast<T>(num(1));
  });
  else if (o == "get") withSlot(e, x, [&](const auto &s) {
    double d = static_cast<double>(s[static_cast<std::size_t>(arg(0))]);
    out.v.push_back(d);
    hasOut = true;
  });
  else if (o == "back") withSlot(e, x, [&](auto &s) {
    if (s.size() == 0) return;
    out.v.push_back(static_cast<double>(s.back()));
    hasOut = true;
  });
  else if (o == "iter") withSlot(e, x, [&](auto &s) {
    for (auto v : s) out.v.push_back(static_cast<double>(v));
    hasOut = true;
  });
  else if (o == "vassign") *vecOf(e, x) = static_cast<const Vec<double> &>(*vecOf(e, arg(0)));
  else if (o == "vscalar") *vecOf(e, x) = num(0);
  else if (o == "vplus") *vecOf(e, x) = *vecOf(e, x) + num(0);
  else if (o == "vcoca") *vecOf(e, x) = coca(*vecOf(e, x), num(0));
  else if (o == "vsub") *vecOf(e, x) = subset(*vecOf(e, x), colon(1, arg(0)));
  else {
    fprintf(stderr, "unknown operation %s\n", o.c_str());
    exit(3);
  }
}

static FILE *logf_;
static const bool eager = getenv("ETR_EAGER") != nullptr;

static Snap snap(E &e, int x) {
  Snap r;
  r.t = TYPES[x];
  withSlot(e, x, [&](const auto &s) {
    try {
      size_t n = s.size();
      if (n > 100000) { r.bad = true; return; }
      for (size_t i = 0; i < n; i++) r.v.push_back(static_cast<double>(s[i]));
    } catch (std::exception &) {
      r.bad = true;
    }
  });
  return r;
}

static const void *addr(E &e, int x) {
  const void *p = nullptr;
  withSlot(e, x, [&](auto &s) { p = s.data(); });
  return p;
}

static void show(const char *tag, const char *name, const Snap &s) {
  fprintf(logf_, "%s %s %c %d 0 0 %zu", tag, name, s.t, s.bad ? 1 : 0, s.v.size());
  for (double d : s.v) fprintf(logf_, " %.17g", d);
  fprintf(logf_, "\n");
}

static void step(E &e, Snap *shadow, const std::vector<Op> &ops, int k) {
  fprintf(logf_, "B %d\n", k);
  if (eager) fflush(logf_);
  hasOut = false;
  out = Snap();
  out.t = TYPES[ops[k - 1].slot];
  const char *st = "ok";
  std::string what;
  try {
    exec(e, ops[k - 1]);
  } catch (std::runtime_error &) {
    st = "err";
  } catch (std::exception &x) {
    st = "exc";
    what = x.what();
  }
  fprintf(logf_, "R %d %s %s\n", k, st, what.c_str());
  for (int x = 0; x < NS; x++) {
    Snap s = snap(e, x);
    if (!s.same(shadow[x])) {
      show("V", NAMES[x], s);
      shadow[x] = s;
    }
  }
  for (int x = 0; x < NS; x++)
    for (int y = 0; y < x; y++)
      if (addr(e, x) != nullptr && addr(e, x) == addr(e, y)) fprintf(logf_, "G %s %s\n", NAMES[x], NAMES[y]);
  if (hasOut) show("O", "-", out);
}

struct Rng {
  unsigned long long s;
  unsigned next() {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return static_cast<unsigned>(s >> 20);
  }
};

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  std::ifstream in(argv[1]);
  logf_ = fopen(argv[2], "w");
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
  std::vector<Op> ops;
  std::vector<std::vector<int>> pools;
  size_t maxLen = 40;
  std::string cmd;
  while (in >> cmd) {
    if (cmd == "ops") {
      size_t n;
      in >> n;
      ops.resize(n);
      for (auto &o : ops) {
        size_t m;
        in >> o.name >> o.slot >> m;
        o.a.resize(m);
        for (auto &x : o.a) in >> x;
      }
    } else if (cmd == "pool") {
      size_t n;
      in >> n;
      pools.emplace_back(n);
      for (auto &k : pools.back()) in >> k;
    } else if (cmd == "limit") {
      in >> maxLen;
    } else if (cmd == "run" || cmd == "history") {
      fprintf(logf_, "X\n");
      fflush(logf_);
      out = Snap();
      long before = live;
      {
        std::vector<int> ks;
        size_t n;
        Rng g{1};
        if (cmd == "run") {
          in >> n;
          ks.resize(n);
          for (auto &k : ks) in >> k;
        } else {
          unsigned long long seed;
          in >> seed >> n;
          g.s = seed * 2654435761ULL + 88172645463325252ULL;
          for (int i = 0; i < 20; i++) g.next();
        }
        E e;
        Snap shadow[NS];
        for (int x = 0; x < NS; x++) {
          shadow[x].t = TYPES[x];
        }
        const std::vector<int> *pool = pools.empty() ? nullptr : &pools[g.next() % pools.size()];
        for (size_t i = 0; i < n; i++) {
          int k;
          if (cmd == "run") k = ks[i];
          else {
            for (int tries = 0;; tries++) {  // storages are kept short
              k = (*pool)[g.next() % pool->size()];
              const Op &o = ops[k - 1];
              size_t len = 0;
              bool known = true;
              withSlot(e, o.slot, [&](auto &s) { len = s.size(); });
              if ((o.name == "push" || o.name == "vcoca") && len >= maxLen) known = false;
              if (o.name == "vplus") {   // and their values small
                for (double d : shadow[o.slot].v) if (!(d >= -500 && d <= 500)) known = false;
              }
              // filling with as many elements as there are, mostly
              if (o.name == "fillv" && o.a[1] != static_cast<int>(len) && g.next() % 8 != 0) known = false;
              if (known || tries > 50) break;
            }
          }
          step(e, shadow, ops, k);
        }
      }
      out = Snap();
      if (live != before) fprintf(logf_, "L %ld\n", live - before);
    } else {
      fprintf(stderr, "unknown command %s\n", cmd.c_str());
      return 3;
    }
  }
  fprintf(logf_, "END\n");
  fclose(logf_);
  return 0;
}
