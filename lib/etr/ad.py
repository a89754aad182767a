"""C15, C16: tracked variables and their derivatives, decided with the
specification EtrAD."""
import json, os, random, time
from . import engine, prog, build, tlc

NAMES = ["a0", "a1", "a2", "w0", "w1"]
OPS = ["+", "-", "*", "/"]
CMP = ["==", "!=", "<", "<=", ">", ">="]


def var(x): return ["var", x]
def const(*vals, how=""): return ["const", 0, [list(frac(v)) for v in vals], how]
def colon(a, b, how="double"): return ["colon", 0, list(frac(a)), list(frac(b)), how]
def numeric(n, how="numeric"): return ["numeric", 0, list(frac(n)), how]
CONSTS = ("const", "scal", "colon", "numeric")
def plain(v): return ["scal", 0, *frac(v), "plain"]     # a number itself, only as whole right side
def scal(v, how="double"): return ["scal", 0, *frac(v), how]
def bin_(op, l, r): return ["bin", op, l, r]
def sin(e): return ["sin", e]
def assign(x, e): return ["assign", x, e]


def frac(v):
    from fractions import Fraction
    f = Fraction(v)
    return f.numerator, f.denominator


def is_const(e):
    return e[0] in CONSTS or (e[0] == "bin" and is_const(e[2]) and is_const(e[3])) or (e[0] == "sin" and is_const(e[1]))


def cxx(e, n):
    """n: counter of the constants, which need places of their own"""
    h = e[0]
    if h == "var": return e[1]
    num = lambda a, b: (str(a) if b == 1 else repr(a / b)) if a >= 0 else "(" + (str(a) if b == 1 else repr(a / b)) + ")"
    if h == "const":
        k = n[0]; n[0] += 1
        vals = [num(a, b) for a, b in e[2]]
        if e[3] == "vec": vals = [f"plain<double>({{{', '.join(vals)}}})"]
        elif e[3] == "ints": vals = [f"plain<int>({{{', '.join(vals)}}})"]
        elif e[3] == "vec first": vals = [f"plain<double>({{{', '.join(vals[:-1])}}})", vals[-1]]
        elif e[3] == "vec last": vals = [vals[0], f"plain<double>({{{', '.join(vals[1:])}}})"]
        return f"coca<{k}>(av, {', '.join(vals)})"
    if h == "colon":
        k = n[0]; n[0] += 1
        a, b = num(*e[2]), num(*e[3])
        if e[4] == "vec": a, b = f"plain<double>({{{a}}})", f"plain<double>({{{b}}})"
        elif e[4] == "vec to": a = f"plain<double>({{{a}}})"
        elif e[4] == "to vec": b = f"plain<double>({{{b}}})"
        elif e[4] == "double": a, b = (repr(x[0] / x[1]) if x[0] >= 0 else f"({x[0] / x[1]!r})" for x in (e[2], e[3]))
        return f"colon<{k}>(av, {a}, {b})"
    if h == "numeric":                  # places of its own: its content is never written
        a = num(*e[2])
        how, _, arg = e[3].partition(" ")
        if arg == "vec": a = f"plain<double>({{{a}}})"
        elif arg == "size": a = f"std::size_t{{{a}}}"
        return f"vector_{how}<{10 + (how != 'numeric')}>(av, {a})"
    if h == "scal" and e[4] == "plain": return num(e[2], e[3])
    if h == "scal":
        k = n[0]; n[0] += 1
        v = repr(e[2] / e[3]) if e[4] == "double" else str(e[2])
        return f"scalarDeriv<{k}>(av, {v})"
    if h == "bin": return f"({cxx(e[2], n)} {e[1]} {cxx(e[3], n)})"
    return f"sinus({cxx(e[1], n)})"


def stmt(s):
    if s[0] == "report": return f"{{ Vec<{'bool' if ty(s[1]) == 'b' else 'double'}> p{'; p' if s[1][0] == 'sin' else ''} = {cxx(s[1], [0])}; e.value(p); }}"
    if s[0] == "test": return f"{{ bool yes = false; if ({cxx(s[1], [0])}) yes = true; e.numbers({{yes ? 1.0 : 0.0}}); }}"
    if s[0] == "print": return f"e.printed([&] {{ print({s[1]}, av); }});"
    if s[0] in ("query", "data"): return f"e.{s[0]}({s[1]});"
    return f"{s[1]} = {cxx(s[2], [0])};"


def strip(e):
    if e[0] == "scal": return e[:4]
    if e[0] == "bin": return ["bin", e[1], strip(e[2]), strip(e[3])]
    if e[0] == "sin": return ["sin", strip(e[1])]
    if e[0] == "const": return e[:3]
    if e[0] == "colon": return e[:4]
    if e[0] == "numeric": return e[:3]
    if e[0] in ("report", "test"): return [e[0], strip(e[1])]
    if e[0] == "assign": return ["assign", e[1], strip(e[2])]
    return e


def reads(e, acc=None):
    acc = set() if acc is None else acc
    if e[0] == "var": acc.add(e[1])
    elif e[0] == "bin": reads(e[2], acc); reads(e[3], acc)
    elif e[0] == "sin": reads(e[1], acc)
    return acc


def used_by(s):
    if s[0] == "assign": return reads(s[2])
    return reads(s[1]) if s[0] in ("report", "test") else {s[1]}


def target(s): return {s[1]} if s[0] == "assign" else set()


def ty(e):
    if e[0] == "bin": return "b" if e[1] in CMP else "d"
    return "b" if e[0] == "numeric" and e[3].startswith("logical") else "d"


def ok(e):
    """arithmetic of two truth values is outside the language"""
    if e[0] == "bin":
        if e[1] not in CMP and ty(e[2]) == "b" and ty(e[3]) == "b": return False
        if e[1] in CMP and "b" in (ty(e[2]), ty(e[3])): return False
        return ok(e[2]) and ok(e[3])
    return ok(e[1]) if e[0] == "sin" else True


def nconst(e):
    return 1 if e[0] in CONSTS else 0 if e[0] == "var" else sum(nconst(x) for x in e[1:] if isinstance(x, list))


def rand_expr(rng, depth, leafs):
    if depth == 0 or rng.random() < 0.12: return rng.choice(leafs)()
    r = rng.random()
    if r < 0.16: return sin(rand_expr(rng, depth - 1, leafs))
    if r < 0.26: return bin_(rng.choice(CMP), rand_expr(rng, depth - 1, leafs), rand_expr(rng, depth - 1, leafs))
    return bin_(rng.choice(OPS), rand_expr(rng, depth - 1, leafs), rand_expr(rng, depth - 1, leafs))


def leaf_makers(rng):
    vals = [2, -3, 0.5, 1.25, -0.75, 4, 3, 1.5, -2]
    def c(): return const(*[rng.choice(vals) for _ in range(rng.choice([1, 2, 2, 3, 4, 5]))])
    def s():
        return scal(rng.choice(vals)) if rng.random() < 0.6 else scal(rng.choice([2, 3, -4, 5]), "int")
    def v(): return var(rng.choice(NAMES))
    return [v, v, v, v, c, s]


def library15(tier, seed):
    rng = random.Random(seed * 31 + 15)
    A, B, C, W, X = (var(x) for x in NAMES)
    k2, k3, s, i = const(2, -0.5), const(1.5, -2, 3), scal(2.5), scal(3, "int")
    lib = []
    def put(x, e):
        if e[0] == "var" and e[1] == x or not ok(e) or nconst(e) > 10: return
        t = assign(x, e)
        if t not in lib: lib.append(t)
    ops = OPS + ["<", "=="]
    # one operation over every kind of operand
    kinds = [A, B, W, k2, k3, s, i, sin(A), sin(W)]
    for op in OPS:
        for l in kinds:
            for r in kinds:
                if is_const(l) and is_const(r) and (l[0] == "scal" or r[0] == "scal") and rng.random() < 0.5: continue
                put(rng.choice(NAMES), bin_(op, l, r))
    for op in CMP:
        for l, r in ((A, B), (A, k3), (s, W), (sin(A), s), (W, B)): put("a2", bin_(op, l, r))
    # two operations, operands of different length inside and outside
    for op1 in OPS:
        for op2 in OPS:
            put("a2", bin_(op2, bin_(op1, A, B), C)); put("a2", bin_(op2, C, bin_(op1, A, B)))
            put("a1", bin_(op2, bin_(op1, A, k2), k3)); put("a0", bin_(op2, k3, bin_(op1, W, k2)))
            put("w0", bin_(op2, bin_(op1, A, A), A))
            put("a2", sin(bin_(op1, A, bin_(op2, B, A))))
            put("a2", bin_(op1, sin(B), sin(bin_(op2, A, k2))))
            put("a0", bin_(op1, bin_(op2, A, s), bin_(op2, B, i)))
    for op in OPS:
        for cm in CMP:
            if op != "/": put(rng.choice(NAMES), bin_(op, C, bin_(cm, A, A)))
            if op == "*": put(rng.choice(NAMES), bin_(op, bin_(cm, A, bin_("+", A, scal(1 / 2048))), C)); put(rng.choice(NAMES), bin_(op, bin_(cm, bin_("+", A, scal(1 / 512)), A), C))
            put("a2", bin_(op, A, bin_(cm, A, B))); put("a2", bin_(op, bin_(cm, B, k2), A))
            put("a2", bin_(op, sin(bin_(cm, A, B)), A)); put("a1", bin_(op, A, sin(bin_(cm, k2, W))))
    for e in (sin(A), sin(sin(A)), sin(k3), sin(s), sin(bin_("+", k2, k3)), bin_("+", k2, s), bin_("/", k3, k2), sin(bin_("/", A, B)),
              bin_("/", bin_("/", A, B), C), bin_("/", A, bin_("/", B, C)), bin_("-", A, A), bin_("*", A, bin_("*", A, A))):
        put("a2", e); put("w1", e)
    # every way to make a constant
    more = [colon(1, 3, "ints"), colon(3, 1, "vec"), colon(0.5, 3.25), colon(-1, 2, "vec to"), colon(2.5, -1, "to vec"), colon(2, 2, "ints"),
            const(1, -2, how="vec"), const(2, 3, how="ints"), const(0.5, 2, -1, how="vec first"), const(4, -0.5, 1.5, how="vec last")]
    zero = [numeric(3), numeric(2, "integer"), numeric(2, "logical"), numeric(1, "numeric vec"), numeric(4, "numeric size"), numeric(2.5)]
    for c in more:
        put("a2", bin_(rng.choice(OPS), A, c)); put("a0", bin_(rng.choice(OPS), c, W)); put("w0", bin_(rng.choice(["+", "-", "*"]), bin_("*", c, A), B))
        put("a1", sin(bin_("*", c, B))); put("a2", bin_("/", sin(A), bin_("+", c, const(5.25))))
    for c in zero:
        put("a2", bin_("+", A, c)); put("a0", bin_("-", c, W)); put("a1", bin_("*", bin_("+", c, B), A))
    for e in (bin_("+", A, B), bin_("*", A, k3), sin(A), bin_("<", A, B), bin_("/", bin_("-", A, W), C), bin_("*", more[0], A), bin_("==", A, A)):
        lib.append(["report", e]); lib.append(["test", e]) if ty(e) == "b" else None
    leafs = leaf_makers(rng)
    n = 90 if tier == "quick" else 900
    while n > 0:
        m = len(lib)
        put(rng.choice(NAMES), rand_expr(rng, rng.choice([2, 3, 3, 4]), leafs))
        n -= len(lib) - m
    return lib


def library16(tier, seed):
    rng = random.Random(seed * 37 + 16)
    lib = []
    def put(x, e):
        if e[0] == "var" and e[1] == x or not ok(e): return
        t = assign(x, e)
        if t not in lib: lib.append(t)
    vals = [2, -3, 0.5, 1.25, -0.75, 4, 3, 1.5, -2]
    for x in NAMES:
        for n in (1, 2, 3, 4, 5, 7): put(x, const(*[rng.choice(vals) for _ in range(n)]))
        put(x, plain(2.5)); put(x, plain(-3)); put(x, scal(rng.choice(vals))); put(x, scal(3, "int"))
        for y in NAMES: put(x, var(y))
        X = var(x)
        for e in (bin_("*", X, X), bin_("+", X, const(1, 2, 3, 4)), bin_("-", const(0.5, -2), X), sin(X), bin_("/", X, scal(2)),
                  bin_("/", scal(1.5), X), bin_("*", X, const(-1, 0.5, 2, 1.5, 3, 1))): put(x, e)
        for y in NAMES:
            if y == x: continue
            Y, Z = var(y), var(rng.choice(NAMES))
            put(x, bin_(rng.choice(OPS), X, Y)); put(x, bin_(rng.choice(OPS), Y, Z))
            put(x, bin_(rng.choice(OPS), bin_(rng.choice(OPS), X, Y), Z)); put(x, sin(Y))
            put(x, bin_("*", Y, scal(rng.choice(vals)))); put(x, bin_("+", bin_("*", X, Y), X))
        put(x, bin_("+", const(1, 2), scal(0.5))); put(x, bin_("<", X, var(rng.choice(NAMES))))
        put(x, bin_("*", X, bin_(">", var(rng.choice(NAMES)), const(0.5))))
    for x in NAMES:
        lib.extend([["print", x], ["query", x], ["data", x], ["report", bin_("+", var(x), const(0.5))], ["report", bin_("*", var(x), var(rng.choice(NAMES)))],
                    ["report", sin(var(x))], ["test", bin_(rng.choice(CMP), var(x), var(rng.choice(NAMES)))], ["report", bin_(rng.choice(CMP), var(x), const(0.5))]])
        for e in rng.sample([colon(1, 3, "ints"), colon(3, 1, "vec"), colon(0.5, 3.25), colon(-1, 2, "vec to"), colon(2.5, -1, "to vec"),
                             const(1, -2, how="vec"), const(2, 3, how="ints"), const(0.5, 2, -1, how="vec first"), const(4, -0.5, 1.5, how="vec last"),
                             numeric(3), numeric(2, "integer"), numeric(2, "logical"), numeric(1, "numeric vec"), numeric(4, "numeric size"),
                             numeric(0), numeric(-2, "integer"), numeric(2.5)], 5 if tier == "quick" else 17):
            put(x, e)
            put(x, bin_(rng.choice(["+", "-"]), e, var(rng.choice(NAMES))))
    leafs = leaf_makers(rng)
    for _ in range(30 if tier == "quick" else 400):
        put(rng.choice(NAMES), rand_expr(rng, rng.choice([1, 2, 2, 3]), leafs))
    return lib


def V(v, r=0, c=0): return {"t": "d", "v": list(v), "m": bool(r), "r": r, "c": c}


LISTS = [V([1.5]), V([-2.0, 0.25]), V([3.0, -1.0, 0.5]), V([0.5, 2.5, -3.5, 4.0]), V([2.0, 1.0, 3.0, 1.5, 2.5]), V([-0.75, 2.0]),
         V([1.0, -2.5, 3.0, 4.0], 2, 2), V([0.25]), V([2.0, 0.5, -1.0, 1.5, 4.0, -3.0], 2, 3), V([4.0, -0.5, 1.0, 0.75, 2.0, 1.25], 2, 3),
         V([0.5, 2.0, -1.5, 3.0], 2, 2), V([1.25, -4.0, 2.0])]


class ADCheck(engine.Check):
    TRACE = "EtrADTrace"
    AMP = True

    def show(self, k): return stmt(self.tree[k])
    def reads(self, k): return used_by(self.tree[k])
    def tolerance(self, k): return 2e-5 if k and self.tree[k][0] == "print" else 1e-11
    def compare(self): return engine.Compare(self.raw, {}, False, amp=True)
    def alterable(self, e): return e["k"] and e["st"] == "ok"

    def load(self, lib):
        self.lib = list(enumerate(lib, 1))
        self.tree = dict(self.lib)
        self.stats["statements"] = len(lib)
        t0 = time.time()
        self.exe, bad = prog.compile_lib(self.work, self.lib, build.ASAN, text=stmt, header="ad.hpp", main="ad_main.cpp")
        self.clock("compile", t0)
        for k in sorted(bad)[:3]:
            self.violation(what="a program that is part of the specified language does not compile any more",
                           statement=self.show(k), compiler=bad[k])
        self.lib = [(k, s) for k, s in self.lib if k not in bad]
        if bad: self.notes.append(f"{len(bad)} statements do not compile")
        self.stripped = [strip(s) for _, s in sorted(self.tree.items())]

    def spec_runs(self, runs, per):
        """runs: [statement ids]"""
        rng = random.Random(self.seed * 77 + 5)
        domains, specs = {}, []
        for n, ids in enumerate(runs):
            used = set()
            for k in ids: used |= used_by(self.tree[k])
            # first statement first: the derivatives it gives are read next
            dom = {}
            width = max(1, int(round(per ** (1.0 / max(1, len(used))))))
            for x in NAMES:
                w = width if x in used else 1
                off = rng.randrange(len(LISTS))
                dom[x] = f"{off}.{w}"
                domains.setdefault(dom[x], [LISTS[(off + i) % len(LISTS)] for i in range(w)])
            ivs = sorted(used | set().union(*(target(self.tree[k]) for k in ids)))
            for iv in (ivs if per > 2 else rng.sample(ivs, min(2, len(ivs)))):
                specs.append({"k": list(ids), "iv": iv, "dom": dom})
        def ev(v): return {"t": "d", "v": [prog.elem(float(x), self.raw) for x in v["v"]], "m": v["m"], "r": v["r"], "c": v["c"]}
        path = os.path.join(self.work, "ad.json")
        with open(path, "w") as f:
            json.dump({"lib": self.stripped, "runs": specs, "domains": {k: [ev(v) for v in vs] for k, vs in domains.items()}}, f)
        t0 = time.time()
        out, st = tlc.run("EtrADRun", "EtrADRun.cfg", self.work, env={"ETR_AD": path})
        self.clock("tlc spec", t0)
        self.stats["states"] += st["distinct"]
        self.stats["transitions"] += st["generated"]
        trs = {}
        for run, choice, pos, o in tlc.lines(out, "TR"): trs.setdefault((run, tuple(choice)), {})[pos] = o
        keys = sorted(trs)
        cmds = []
        for run, choice in keys:
            r = specs[run - 1]
            vs = [domains[r["dom"][x]][i - 1] for x, i in zip(NAMES, choice)]
            c = " ".join(f"{1 if v['m'] else 0} {v['r']} {v['c']} {len(v['v'])} " + " ".join(map(repr, v["v"])) for v in vs)
            cmds.append(f"run {NAMES.index(r['iv'])} {c} {len(r['k'])} " + " ".join(map(str, r["k"])))
        self.replay(trs, keys, cmds)


def plan(pid, tier, seed, work):
    q = tier == "quick"
    c = ADCheck(pid, tier, seed, work)
    lib = (library15 if pid == "C15" else library16)(tier, seed)
    c.load(lib)
    ids = [k for k, _ in c.lib]
    rng = random.Random(seed * 5 + 3)
    runs = [(k,) for k in ids]
    if pid == "C15":
        # derivatives other than zero and one in front of every statement
        for k in ids:
            used = used_by(c.tree[k])
            pre = [j for j in ids if target(c.tree[j]) & used]
            for _ in range(1 if q else 4):
                if pre: runs.append((rng.choice(pre), k))
        c.spec_runs(runs, 5 if q else 40)
        c.run_histories([f"pool {len(ids)} " + " ".join(map(str, ids)), "limit 3000 6"], 1200 if q else 12000, 6)
    else:
        for _ in range(900 if q else 9000): runs.append(tuple(rng.choice(ids) for _ in range(rng.choice([2, 3, 4]))))
        c.spec_runs(runs, 3 if q else 8)
        c.run_histories([f"pool {len(ids)} " + " ".join(map(str, ids)), "limit 3000 6"], 1200 if q else 12000, 10)
        c.run_histories([f"pool {len(ids)} " + " ".join(map(str, ids)), "limit 3000 14"], 150 if q else 1500, 10, tag="long", first=100000)
    return c
