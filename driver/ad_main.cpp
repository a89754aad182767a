// Executes programs over tracked variables on the real code.  A state is
// looked at only in an execution of its own: reading derivatives completes
// them lazily, which must not influence anything.
#include "ad.hpp"
#undef a0
#undef a1
#undef a2
#undef w0
#undef w1
#undef av
#include <map>
#include <memory>

static FILE *logf_;
static const char *NAMES[NV] = {"a0", "a1", "a2", "w0", "w1"};

static std::map<int, StmtFn> &table() {
  static std::map<int, StmtFn> t;
  return t;
}
void addStmts(const Entry *list, int n) {
  for (int i = 0; i < n; i++) table()[list[i].id] = list[i].fn;
}

E::E(int iv, const Snap *init)
    : av(iv < 3 ? iv : iv - 3, iv < 3 ? 0 : 1), a0(av), a1(av), a2(av), w0(av), w1(av) {
  Vec<double> x[3];
  for (int i = 0; i < 3; i++) {
    x[i].resize(init[i].v.size());
    for (size_t j = 0; j < init[i].v.size(); j++) x[i][j] = init[i].v[j];
    if (init[i].m) x[i].d.setMatrix(true, init[i].r, init[i].c);
  }
  av.initBuffer(x[0], x[1], x[2]);
  for (int i = 0; i < 2; i++) {
    for (double &d : mem[i]) d = -77.5;
    const Snap &s = init[3 + i];
    lent[i] = s.v.size();
    for (size_t j = 0; j < lent[i]; j++) mem[i][4 + j] = s.v[j];
  }
  Vec<double, Borrow<double>> y[2] = {{mem[0] + 4, lent[0]}, {mem[1] + 4, lent[1]}};
  for (int i = 0; i < 2; i++)
    if (init[3 + i].m) y[i].d.setMatrix(true, init[3 + i].r, init[3 + i].c);
  av.initBorrow(y[0], y[1]);
}

template <typename V> static Snap valueOf(const V &x) {
  Snap s;
  s.m = x.im();
  if (s.m) {
    s.r = x.nr();
    s.c = x.nc();
  }
  for (size_t i = 0; i < x.size(); i++) s.v.push_back(x[i]);
  return s;
}
template <typename V> static Snap derivOf(V &x) {
  Snap s;
  auto d = get_derivs(x);
  const auto &cd = d;
  for (size_t i = 0; i < d.size(); i++) s.v.push_back(cd[i]);
  return s;
}

struct State {
  Snap x[2 * NV];
  bool readable = true;
};
static State look(E &e) {
  State s;
  try {
    s.x[0] = valueOf(e.a0.d.get()); s.x[1] = valueOf(e.a1.d.get()); s.x[2] = valueOf(e.a2.d.get());
    s.x[3] = valueOf(e.w0.d.get()); s.x[4] = valueOf(e.w1.d.get());
    s.x[5] = derivOf(e.a0); s.x[6] = derivOf(e.a1); s.x[7] = derivOf(e.a2);
    s.x[8] = derivOf(e.w0); s.x[9] = derivOf(e.w1);
  } catch (std::exception &) {
    s.readable = false;
  }
  return s;
}

static void show(const char *tag, int x, const Snap &s) {
  fprintf(logf_, "%s %s%s d %d %ld %ld %zu", tag, x < NV ? "" : "D", NAMES[x % NV], s.m ? 1 : 0, s.m ? s.r : 0, s.m ? s.c : 0, s.v.size());
  for (double d : s.v) fprintf(logf_, " %.17g", d);
  fprintf(logf_, "\n");
}

static const char *exec(E &e, int k) {
  e.hasOut = e.hasText = false;
  try {
    table().at(k)(e);
  } catch (std::runtime_error &x) {
    return "err";
  } catch (...) {
    return "exc";
  }
  return "ok";
}

static void memory(const E &e, const State &s) {
  for (int b = 0; b < 2; b++) {
    for (size_t i = 0; i < CAP + 8; i++)
      if ((i < 4 || i >= 4 + e.lent[b]) && e.mem[b][i] != -77.5) { fprintf(logf_, "N memory next to the lent region changed\n"); return; }
    if (!s.readable) continue;
    const Snap &w = s.x[3 + b];
    if (w.v.size() > e.lent[b]) { fprintf(logf_, "N a borrowed variable is longer than its memory\n"); return; }
    for (size_t i = 0; i < w.v.size(); i++)
      if (!(e.mem[b][4 + i] == w.v[i]) && w.v[i] == w.v[i]) { fprintf(logf_, "N the lent memory does not hold the value\n"); return; }
  }
}

// runs the program ks[0..n) silently, returns the state after it
struct Report {
  bool hasOut = false, hasText = false;
  Snap out;
  std::string text;
  void take(const E &e, bool ok) {
    hasOut = ok && e.hasOut;
    hasText = ok && e.hasText;
    out = e.out;
    text = e.text;
  }
  bool same(const Report &o) const {
    return hasOut == o.hasOut && hasText == o.hasText && (!hasOut || out.same(o.out)) && (!hasText || text == o.text);
  }
  void show() const {
    if (hasOut) {
      fprintf(logf_, "O - d %d %ld %ld %zu", out.m ? 1 : 0, out.r, out.c, out.v.size());
      for (double d : out.v) fprintf(logf_, " %.17g", d);
      fprintf(logf_, "\n");
    }
    if (hasText) {
      std::string t;
      for (char c : text) {
        if (c == '\n') t += "\\n";
        else if (c == '\t') t += "\\t";
        else t += c;
      }
      fprintf(logf_, "T d %s\n", t.c_str());
    }
  }
};

static State silent(int iv, const Snap *init, const std::vector<int> &ks, size_t n, const char **st, Report *rep = nullptr) {
  E e(iv, init);
  for (size_t i = 0; i < n; i++) *st = exec(e, ks[i]);
  if (rep) rep->take(e, std::string(*st) == "ok");
  State s = look(e);
  memory(e, s);
  return s;
}

static void logState(const State &s, State &shadow) {
  if (!s.readable) { fprintf(logf_, "N a variable cannot be read\n"); return; }
  for (int x = 0; x < 2 * NV; x++)
    if (!s.x[x].same(shadow.x[x])) show("V", x, s.x[x]);
  shadow = s;
}

struct Rng {
  unsigned long long s;
  unsigned next() {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return static_cast<unsigned>(s >> 20);
  }
  int in(int lo, int hi) { return lo + static_cast<int>(next() % static_cast<unsigned>(hi - lo + 1)); }
};

static bool tame(const State &s, double maxAbs) {
  if (!s.readable) return false;
  for (int x = 0; x < 2 * NV; x++)
    for (double d : s.x[x].v)
      if (!(d >= -maxAbs && d <= maxAbs) || (d != 0 && d < 1e-6 && d > -1e-6)) return false;
  return true;
}

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  std::ifstream in(argv[1]);
  logf_ = fopen(argv[2], "w");
  std::string cmd;
  std::vector<int> pool;
  double maxAbs = 3000;
  int maxLen = 6;
  while (in >> cmd) {
    if (cmd == "pool") {
      size_t n;
      in >> n;
      pool.resize(n);
      for (auto &k : pool) in >> k;
      continue;
    }
    if (cmd == "limit") {
      in >> maxAbs >> maxLen;
      continue;
    }
    if (cmd != "run" && cmd != "history") {
      fprintf(stderr, "unknown command %s\n", cmd.c_str());
      return 3;
    }
    fprintf(logf_, "X\n");
    int iv;
    Snap init[NV];
    std::vector<int> ks;
    size_t n;
    Rng g{1};
    if (cmd == "run") { // run <iv> (m r c n values){5} <nstmts> ids
      in >> iv;
      for (Snap &s : init) {
        int m;
        size_t len;
        in >> m >> s.r >> s.c >> len;
        s.m = m != 0;
        s.v.resize(len);
        for (double &d : s.v) in >> d;
      }
      in >> n;
      ks.resize(n);
      for (auto &k : ks) in >> k;
    } else { // history <seed> <steps>
      unsigned long long seed;
      in >> seed >> n;
      g.s = seed * 2654435761ULL + 88172645463325252ULL;
      for (int i = 0; i < 20; i++) g.next();
      iv = g.in(0, NV - 1);
      const int rr = g.in(1, 3), cc = g.in(2, 3);
      const bool mats = g.in(0, 3) == 0;
      for (Snap &s : init) {
        int len = g.in(1, maxLen);
        if (mats && g.in(0, 1)) {
          s.m = true;
          s.r = rr;
          s.c = cc;
          len = rr * cc;
        }
        for (int i = 0; i < len; i++) {
          int num = g.in(-14, 14);
          s.v.push_back((num == 0 ? 3 : num) / 4.0);
        }
      }
    }
    fprintf(logf_, "Y %s\n", NAMES[iv]);
    const char *st = "ok";
    State shadow = silent(iv, init, ks, 0, &st);
    if (!shadow.readable) { fprintf(logf_, "N a variable cannot be read\n"); continue; }
    for (int x = 0; x < 2 * NV; x++) show("I", x, shadow.x[x]);
    std::unique_ptr<E> watched(new E(iv, init)); // looked at after every step
    State ws = look(*watched);
    std::vector<int> done;
    for (size_t i = 0; i < n; i++) {
      int k;
      if (cmd == "run") k = ks[i];
      else k = pool[g.next() % pool.size()];
      fprintf(logf_, "B %d\n", k);
      if (getenv("ETR_EAGER")) fflush(logf_);
      done.push_back(k);
      Report rep, wrep;
      State s = silent(iv, init, done, done.size(), &st, &rep);
      if (cmd == "history" && std::string(st) == "ok" && !tame(s, maxAbs)) break; // ends before
      fprintf(logf_, "R %d %s\n", k, st);
      rep.show();
      logState(s, shadow);
      const char *wst = exec(*watched, k);
      wrep.take(*watched, std::string(wst) == "ok");
      ws = look(*watched);
      bool same = std::string(wst) == st && ws.readable == s.readable && wrep.same(rep);
      for (int x = 0; x < 2 * NV && same; x++) same = ws.x[x].same(s.x[x]);
      if (!same) fprintf(logf_, "N looking at a state changed what follows\n");
    }
  }
  fprintf(logf_, "END\n");
  fclose(logf_);
  return 0;
}
