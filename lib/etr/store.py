"""C14: owning storage, decided with the specification EtrStore."""
import json, os
from . import engine, prog, build, tlc

SLOTS = ["a1", "a2", "a3", "n1", "n2", "f1", "f2", "q1", "q2"]
TYPES = {"a1": "d", "a2": "d", "a3": "d", "n1": "i", "n2": "i", "f1": "b", "f2": "b", "q1": "i", "q2": "i"}
VEC = ("a2", "a3")          # storage inside a vector
TWO = ("copy", "move", "swap", "assign", "vassign")
KINDS = ["a vector", "a vector of integers", "a numeric range", "an integer range", "a constant vector", "a selection"]


def show(op):
    name, x, a = op[0], op[1], op[2:]
    num = lambda i: str(a[i]) if a[i + 1] == 1 else f"{a[i]}/{a[i + 1]}"
    if name in TWO: return f"{name}({x}, {a[0]})"
    if name in ("push", "fill", "vscalar", "vplus", "vcoca"): return f"{x}.{name}({num(0)})"
    if name == "set": return f"{x}[{a[0]}] = {num(1)}"
    if name == "fillv": return f"{x}.fill({KINDS[a[0]]} of {a[1]} elements from {a[2]})"
    return f"{x}.{name}({', '.join(map(str, a))})"


def groups():
    return [["a1", "a2", "a3"], ["n1", "n2"], ["f1", "f2"], ["q1", "q2"]]


def all_ops(tier):
    """every operation, over sizes around the growth steps"""
    sizes = [1, 2, 3, 6, 7, 8, 9, 13, 14, 15] + ([4, 5, 10, 16, 20, 27, 28] if tier != "quick" else [])
    ops = []
    for g in groups():
        for x in g:
            t = TYPES[x]
            own = x not in VEC
            if own:
                ops.append(["new", x])
                if x[0] != "q":
                    for n in sizes + [0]: ops.append(["size", x, n]); ops.append(["isize", x, n])
                    ops.append(["isize", x, -2])
            for y in g:
                if own and (x[0] != "a" or y == x or True):
                    ops.append(["copy", x, y])
                    if x != y: ops.append(["move", x, y])
                ops.append(["assign", x, y])
                ops.append(["swap", x, y])
                if x in VEC and y in VEC: ops.append(["vassign", x, y])
            for n in sizes:
                ops.append(["init", x, n]); ops.append(["resize", x, n]); ops.append(["realloc", x, n])
            ops.append(["resize", x, 0])
            vals = {"a": [(3, 2), (-2, 1), (5, 1)], "n": [(4, 1), (-3, 1)], "f": [(1, 1), (0, 1)], "q": [(3, 1), (7, 1)]}[x[0]]
            for v in vals:
                ops.append(["push", x, *v]); ops.append(["push", x, *v]); ops.append(["push", x, *v])
                ops.append(["fill", x, *v])
            if x[0] == "f": ops.append(["fill", x, 2, 1])
            if x[0] == "n": ops.append(["fill", x, 7, 2])
            if x[0] in "an":
                for kind in range(6):
                    for n in sizes[:6] + [8]: ops.append(["fillv", x, kind, n, -3 + kind])
            for i in [0, 1, 2, 6, 7, 8, 14, -1]:
                ops.append(["set", x, i, *vals[0]]); ops.append(["get", x, i])
            ops += [["back", x], ["iter", x]]
            if x in VEC:
                for v in vals: ops += [["vcoca", x, *v], ["vplus", x, *v]]
                ops.append(["vscalar", x, 9, 4])
                for n in (1, 2, 5, 7, 8): ops.append(["vsub", x, n])
    return ops


def alphabets(tier):
    """small alphabets explored completely: [prefix], [ops], depth"""
    out = []
    P = lambda x, v=(3, 2): ["push", x, *v]
    for x, y in (("a1", "a2"), ("n1", "n2"), ("f1", "f2"), ("q1", "q2"), ("a2", "a1"), ("a2", "a3")):
        v, w = ((3, 2), (-2, 1)) if x[0] == "a" else ((1, 1), (0, 1)) if x[0] == "f" else ((4, 1), (2, 1))
        # lengths 6, 7, 8: the first ones with room to spare
        for n in (1, 2, 7, 8):
            pre = [["init", x, n], ["fill", x, *v]]
            ops = [["push", x, *w], ["resize", x, n + 1], ["resize", x, max(1, n - 1)], ["realloc", x, n + 1],
                   ["realloc", x, max(1, n - 1)], ["swap", x, y], ["assign", y, x], ["assign", x, y], ["set", x, n - 1, *w],
                   ["get", x, n], ["push", y, *v], ["init", y, n], ["fill", x, *w], ["iter", x]]
            if x not in VEC: ops += [["copy", x, y], ["move", x, y]]
            if x in VEC: ops += [["vcoca", x, *v], ["vplus", x, *w], ["vsub", x, 1]] + ([["vassign", x, y]] if y in VEC else [])
            if x[0] in "an": ops += [["fillv", x, 0, n, 1], ["fillv", x, 2, n, 5], ["fillv", x, 3, n, 2]]
            out.append((pre, ops))
        # from nothing
        ops = [["push", x, *v], ["resize", x, 2], ["realloc", x, 2], ["init", x, 1], ["swap", x, y], ["assign", x, y], ["set", x, 0, *w],
               ["get", x, 0], ["fill", x, *v], ["resize", x, 0], ["push", y, *w], ["back", x]]
        if x not in VEC: ops += [["copy", x, y], ["move", x, y], ["new", x]] + ([["size", x, 3], ["isize", x, 2], ["size", x, 0]] if x[0] != "q" else [])
        out.append(([], ops))
    return out


class StoreCheck(engine.Check):
    TRACE = "EtrStoreTrace"
    blank = {x: {"t": TYPES[x], "v": [], "m": False, "r": 0, "c": 0} for x in SLOTS}

    def show(self, k): return show(self.ops[k - 1])
    def reads(self, k): return [w for w in self.ops[k - 1] if w in TYPES]
    def tolerance(self, k): return 1e-11
    def compare(self): return engine.Compare(self.raw, {}, True)
    def alterable(self, e): return e["k"] and e["st"] == "ok" and self.ops[e["k"] - 1][0] in ("push", "realloc", "assign", "fill")

    def build(self):
        import time
        t0 = time.time()
        src = os.path.join(self.work, "store.cpp")
        with open(src, "w") as f: f.write('#include "store_main.cpp"\n')
        self.exe = os.path.join(self.work, "driver")
        try: build.build([src], self.exe, build.ASAN)
        except build.CompileError as e:
            self.violation(what="the storage classes can no longer be used as before", statement="driver/store_main.cpp", compiler=e.log[:2000])
            return False
        self.clock("compile", t0)
        return True

    def prepare(self, ops):
        self.ops = ops
        self.stripped = ops
        self.stats["statements"] = len(ops)
        self.setup = [f"ops {len(ops)} " + " ".join(f"{o[0]} {SLOTS.index(o[1])} {len(o) - 2} " +
                      " ".join(str(SLOTS.index(a) if o[0] in TWO else a) for a in o[2:]) for o in ops)]

    def explore(self, alphs, depth):
        import time
        idx = {}
        for i, o in enumerate(self.ops, 1): idx.setdefault(tuple(o), i)
        path = os.path.join(self.work, "store.json")
        with open(path, "w") as f:
            json.dump({"ops": self.ops, "init": self.blank,
                       "alphs": [{"prefix": [idx[tuple(o)] for o in p], "ops": [idx[tuple(o)] for o in a], "depth": len(p) + depth}
                                 for p, a in alphs]}, f)
        t0 = time.time()
        out, st = tlc.run("EtrStoreRun", "EtrStoreRun.cfg", self.work, env={"ETR_STORE": path})
        self.clock("tlc spec", t0)
        self.stats["states"] += st["distinct"]
        self.stats["transitions"] += st["generated"]
        by = {}
        for a, h, o in tlc.lines(out, "TR"): by[(a, tuple(h))] = o
        del out
        keys = sorted((a, h) for a, h in by if len(h) == len(alphs[a - 1][0]) + depth)
        trs = {(a, h): {i: by[(a, h[:i])] for i in range(1, len(h) + 1)} for a, h in keys}
        self.replay(trs, keys, [f"run {len(h)} " + " ".join(map(str, h)) for _, h in keys], self.setup)

    def random(self, n, steps):
        pools = []
        for g in groups() + [["a1"], ["n1"], ["a2", "a3"], ["a2", "a1"]]:   # few storages at a time: they meet more often
            ks = [i for i, o in enumerate(self.ops, 1) if o[1] in g and not (o[0] in TWO and o[2] not in g)]
            ks += [i for i in ks if self.ops[i - 1][0] in ("push", "swap", "realloc", "resize", "assign")] * 2
            pools.append(ks)
        setup = self.setup + ["limit 40"] + [f"pool {len(p)} " + " ".join(map(str, p)) for p in pools]
        self.run_histories(setup, n, steps)


def plan(tier, seed, work):
    q = tier == "quick"
    c = StoreCheck("C14", tier, seed, work, leaks=True)
    if not c.build(): return c
    ops = all_ops(tier)
    alphs = alphabets(tier)
    have = {tuple(o) for o in ops}
    for p, a in alphs:
        for o in p + a:
            if tuple(o) not in have:
                have.add(tuple(o)); ops.append(o)
    c.prepare(ops)
    c.explore(alphs, 3)
    if not q:
        c.explore(alphs[1::2], 4)
    c.random(400 if q else 5000, 60)
    return c
