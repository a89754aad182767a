#include "prog.hpp"
#undef d1
#undef d2
#undef d3
#undef i1
#undef i2
#undef l1
#undef l2
#undef b1
#undef b2
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
static long live = 0;
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void onMalloc(const volatile void *p, size_t) { if (p) live++; }
static void onFree(const volatile void *p) { if (p) live--; }
#endif

static std::map<int, StmtFn> &table() {
  static std::map<int, StmtFn> t;
  return t;
}
void addStmts(const Entry *list, int n) {
  for (int i = 0; i < n; i++) table()[list[i].id] = list[i].fn;
}

static FILE *logf_;
static const char *NAMES[] = {"d1", "d2", "d3", "i1", "i2", "l1", "l2", "b1", "b2", "m1", "m2"};
static const int NV = 9;         // variables
static const int NS = 11;        // with the memory behind the views

struct Rng {
  unsigned long long s;
  unsigned next() {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return static_cast<unsigned>(s >> 20);
  }
  int in(int lo, int hi) { return lo + static_cast<int>(next() % static_cast<unsigned>(hi - lo + 1)); }
};

template <typename T> void put(Vec<T> *&p, const Snap &s) {
  Vec<T> *v = new Vec<T>(SI{s.v.size()});
  for (size_t i = 0; i < s.v.size(); i++) (*v)[i] = static_cast<T>(s.v[i]);
  if (s.m) v->d.setMatrix(true, s.r, s.c);
  delete p;
  p = v;
}

static void setVar(E &e, int x, const Snap &s) {
  switch (x) {
  case 0: put(e.p_d1, s); break;
  case 1: put(e.p_d2, s); break;
  case 2: put(e.p_d3, s); break;
  case 3: put(e.p_i1, s); break;
  case 4: put(e.p_i2, s); break;
  case 5: put(e.p_l1, s); break;
  case 6: put(e.p_l2, s); break;
  case 7:
    delete e.p_b1;
    for (int i = 0; i < E::CAP + 8; i++) e.mem[i] = -77.5;
    for (size_t i = 0; i < s.v.size(); i++) e.mem[4 + i] = s.v[i];
    e.lent1 = s.v.size();
    e.p_b1 = new BVec(e.mem + 4, s.v.size());
    if (s.m) e.p_b1->d.setMatrix(true, s.r, s.c);
    break;
  case 8:
    delete e.p_b2;
    for (int i = 0; i < E::CAP + 8; i++) e.mem2[i] = -77.5;
    for (size_t i = 0; i < s.v.size(); i++) e.mem2[4 + i] = s.v[i];
    e.lent2 = s.v.size();
    e.p_b2 = new BVec(e.mem2 + 4, s.v.size());
    if (s.m) e.p_b2->d.setMatrix(true, s.r, s.c);
    break;
  }
}

static Snap getVar(const E &e, int x) {
  switch (x) {
  case 0: return snapOf('d', *e.p_d1);
  case 1: return snapOf('d', *e.p_d2);
  case 2: return snapOf('d', *e.p_d3);
  case 3: return snapOf('i', *e.p_i1);
  case 4: return snapOf('i', *e.p_i2);
  case 5: return snapOf('b', *e.p_l1);
  case 6: return snapOf('b', *e.p_l2);
  case 7: return snapOf('d', *e.p_b1);
  case 8: return snapOf('d', *e.p_b2);
  default: break;
  }
  Snap s;
  s.t = 'd';
  if (x == 9) s.v.assign(e.mem + 4, e.mem + 4 + e.lent1);
  else s.v.assign(e.mem2 + 4, e.mem2 + 4 + e.lent2);
  return s;
}

static void drop(E &e) {
  delete e.p_d1; delete e.p_d2; delete e.p_d3;
  delete e.p_i1; delete e.p_i2; delete e.p_l1; delete e.p_l2; delete e.p_b1; delete e.p_b2;
  e.p_d1 = e.p_d2 = e.p_d3 = nullptr;
  e.p_i1 = e.p_i2 = nullptr;
  e.p_l1 = e.p_l2 = nullptr;
  e.p_b1 = nullptr;
  e.p_b2 = nullptr;
}

static void showSnap(const char *tag, const char *name, const Snap &s) {
  fprintf(logf_, "%s %s %c %d %ld %ld %zu", tag, name, s.t, s.m ? 1 : 0, s.r, s.c, s.v.size());
  for (double d : s.v) fprintf(logf_, " %.17g", d);
  fprintf(logf_, "\n");
}

static const char TYPES[] = "dddiibbdddd";

struct Range { int lmin, lmax, vmin, vmax, den, mprob; };
static int maxLen = 12, maxAbs = 60;   // larger values are replaced
static int bigLen = 0;                 // > 0: this history uses long vectors

static Snap randomSnap(Rng &g, int x, const Range &r) {
  Snap s;
  s.t = TYPES[x];
  size_t n;
  if (g.in(1, 100) <= r.mprob) {
    s.m = true;
    if (g.in(0, 1)) {
      s.r = 2;
      s.c = 3;
    } else {
      s.r = g.in(1, 4);
      s.c = g.in(1, 4);
    }
    if (bigLen > 0 && g.in(0, 1)) {
      s.r = g.in(1, bigLen / 6);
      s.c = g.in(1, 6);
    }
    n = s.r * s.c;
  } else {
    n = g.in(r.lmin, r.lmax);
    if (bigLen > 0 && g.in(0, 1)) n = g.in(1, bigLen);
  }
  for (size_t i = 0; i < n; i++) {
    double v = g.in(r.vmin, r.vmax);
    if (s.t == 'd' && r.den > 1) v = g.in(r.vmin * r.den, r.vmax * r.den) / static_cast<double>(r.den);
    // close to a whole number: differences around the tolerance of ==
    if (s.t == 'd' && r.den < 0) v += g.in(-4, 4) / static_cast<double>(-r.den);
    if (s.t == 'b') v = g.in(0, 1);
    s.v.push_back(v);
  }
  if (s.t == 'b') {            // rarely all false
    bool any = false;
    for (double d : s.v) any = any || d != 0;
    if (!any && g.in(0, 9) > 0) s.v[g.in(0, static_cast<int>(s.v.size()) - 1)] = 1;
  }
  return s;
}

// data for interpolation: d2 holds increasing nodes, d3 as many values, d1 an
// evaluation point
static bool interp = false;
static Snap interpSnap(Rng &g, int x, const Snap *shadow) {
  Snap s;
  s.t = 'd';
  const std::vector<double> &ts = shadow[1].v;
  if (x == 1) {
    double at = g.in(-24, 24) / 8.0;
    int n = g.in(1, 12) == 1 ? g.in(1, 3) : g.in(4, 11);
    for (int i = 0; i < n; i++) {
      s.v.push_back(at);
      at += g.in(1, 16) / 8.0;
    }
  } else if (x == 2) {
    int n = static_cast<int>(ts.size());
    if (g.in(1, 12) == 1) n = g.in(1, 11);
    for (int i = 0; i < n; i++) s.v.push_back(g.in(-20, 20) / 4.0);
  } else {
    int n = g.in(1, 20) == 1 ? 2 : 1, k = g.in(0, static_cast<int>(ts.size()) - 1), how = g.in(0, 9);
    double v = ts[k];
    if (how < 3) v += g.in(1, 7) / 8.0;
    else if (how < 5 && k > 0) v = (ts[k] + ts[k - 1]) / 2;
    else if (how == 5) v = ts[0] - g.in(1, 8) / 8.0;
    else if (how == 6) v = ts.back() + g.in(0, 8) / 8.0;
    else if (how == 7) v = ts.back() - g.in(0, 8) / 32.0;
    for (int i = 0; i < n; i++) s.v.push_back(v);
  }
  return s;
}

static bool rising(const std::vector<double> &v) {
  for (size_t i = 0; i + 1 < v.size(); i++)
    if (!(v[i] < v[i + 1])) return false;
  return !v.empty();
}

static bool tame(const Snap &s) {
  if (s.v.size() > static_cast<size_t>(bigLen > 0 ? bigLen + 20 : maxLen)) return false;
  if (s.v.empty() || (s.m && s.r * s.c != static_cast<long>(s.v.size()))) return false;
  for (double d : s.v) {
    const double m = s.t == 'i' && maxAbs > 60 ? 60 : maxAbs;
    if (!(d >= -m && d <= m)) return false;
    if (d * 64 != static_cast<long>(d * 64)) return false;
  }
  return true;
}

static Snap readSnap(std::istream &in, int &x, const char *what) {
  std::string name;
  Snap s;
  int m;
  size_t n;
  in >> name >> s.t >> m >> s.r >> s.c >> n;
  s.m = m != 0;
  for (size_t i = 0; i < n; i++) {
    std::string w;
    in >> w;
    s.v.push_back(strtod(w.c_str(), nullptr));
  }
  x = -1;
  for (int i = 0; i < NV; i++)
    if (name == NAMES[i]) x = i;
  if (x < 0) { fprintf(stderr, "bad variable in %s\n", what); exit(3); }
  return s;
}

// has memory around the lent region changed?
static bool guardBroken(const E &e) {
  for (size_t i = 0; i < E::CAP + 8; i++) {
    if ((i < 4 || i >= 4 + e.lent1) && e.mem[i] != -77.5) return true;
    if ((i < 4 || i >= 4 + e.lent2) && e.mem2[i] != -77.5) return true;
  }
  return false;
}

static void run(E &e, Snap *shadow, int k) {
  fprintf(logf_, "B %d\n", k);
  fflush(logf_);
  e.hasOut = e.hasText = false;
  const char *st = "ok";
  std::string what;
  try {
    table().at(k)(e);
  } catch (std::runtime_error &x) {
    st = "err";
  } catch (std::exception &x) {
    st = "exc";
    what = x.what();
  } catch (...) {
    st = "exc";
  }
  fprintf(logf_, "R %d %s %s\n", k, st, what.c_str());
  for (int x = 0; x < NS; x++) {
    Snap s;
    try {
      s = getVar(e, x);
    } catch (std::exception &ex) {   // a variable that cannot be read any more
      s = Snap();
      s.t = TYPES[x];
      s.m = true;
      s.r = s.c = -1;
    }
    if (!s.same(shadow[x])) {
      showSnap("V", NAMES[x], s);
      shadow[x] = s;
    }
  }
  if (guardBroken(e)) fprintf(logf_, "G\n");
  if (e.hasOut) showSnap("O", "-", e.out);
  if (e.hasText) {
    std::string t;
    for (char ch : e.text) {
      if (ch == '\n') t += "\\n";
      else if (ch == '\t') t += "\\t";
      else t += ch;
    }
    fprintf(logf_, "T %c %s\n", e.out.t, t.c_str());
  }
}

static void assignVar(E &e, Snap *shadow, int x, const Snap &s, const char *tag) {
  setVar(e, x, s);
  shadow[x] = s;
  showSnap(tag, NAMES[x], s);
  if (x == 7 || x == 8) {        // the memory that goes with the view
    Snap m = s;
    m.m = false;
    m.r = m.c = 0;
    shadow[x + 2] = m;
    showSnap("M", NAMES[x + 2], m);
  }
}

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  std::ifstream in(argv[1]);
  logf_ = fopen(argv[2], "w");
  std::cout << std::boolalpha;
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
  std::string cmd;
  std::vector<int> pool;
  Range ranges[NV];
  while (in >> cmd) {
    if (cmd == "pool") {
      size_t n;
      in >> n;
      pool.resize(n);
      for (auto &k : pool) in >> k;
    } else if (cmd == "range") {
      int x;
      in >> x;
      Range &r = ranges[x];
      in >> r.lmin >> r.lmax >> r.vmin >> r.vmax >> r.den >> r.mprob;
    } else if (cmd == "interp") {
      interp = true;
    } else if (cmd == "limit") {
      in >> maxLen >> maxAbs >> bigLen;
    } else if (cmd == "run") {   // run <nvars> (snap)* <nstmts> ids
      fprintf(logf_, "X\n");
      long before = live;
      {
        E e;
        Snap shadow[NS];
        int nv, ns;
        in >> nv;
        for (int i = 0; i < nv; i++) {
          int x;
          Snap s = readSnap(in, x, "run");
          assignVar(e, shadow, x, s, "I");
        }
        in >> ns;
        for (int i = 0; i < ns; i++) {
          int k;
          in >> k;
          run(e, shadow, k);
        }
        drop(e);
      }
      if (live != before) fprintf(logf_, "L %ld\n", live - before);
    } else if (cmd == "history") { // history <seed> <steps>
      unsigned long long seed;
      int steps;
      in >> seed >> steps;
      fprintf(logf_, "X\n");
      Rng g{seed * 2654435761ULL + 88172645463325252ULL};
      for (int i = 0; i < 20; i++) g.next();
      long before = live;
      {
        E e;
        Snap shadow[NS];
        for (int x = 0; x < NV; x++) assignVar(e, shadow, x, randomSnap(g, x, ranges[x]), "I");
        bool fresh = true;
        for (int i = 0; i < steps; i++) {
          for (int x = 0; x < NV; x++)
            if (!tame(shadow[x]) || (g.in(1, 100) <= 6 && !(interp && x < 3)))
              assignVar(e, shadow, x, randomSnap(g, x, ranges[x]), "W");
          if (interp) {
            bool nodes = fresh || g.in(1, 12) == 1 || !rising(shadow[1].v);
            if (nodes) assignVar(e, shadow, 1, interpSnap(g, 1, shadow), "W");
            if (nodes || g.in(1, 12) == 1) assignVar(e, shadow, 2, interpSnap(g, 2, shadow), "W");
            if (nodes || g.in(1, 2) == 1) assignVar(e, shadow, 0, interpSnap(g, 0, shadow), "W");
            fresh = false;
          }
          run(e, shadow, pool[g.next() % pool.size()]);
        }
        drop(e);
      }
      if (live != before) fprintf(logf_, "L %ld\n", live - before);
    } else {
      fprintf(stderr, "unknown command %s\n", cmd.c_str());
      return 3;
    }
    fflush(logf_);
  }
  fprintf(logf_, "END\n");
  fclose(logf_);
  return 0;
}
