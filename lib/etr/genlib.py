"""Statement libraries per property: systematic products over operand kinds,
index kinds, targets and functions, plus random nested programs."""
import random
from .lang import *

# ---------------------------------------------------------------- operands

def num_kinds():
    """every way to hold a numeric operand"""
    return {
        "Vd": var("d1"), "Vi": var("i1"), "Bd": var("b1"), "Bi": var("b2"),
        "Rd": coca(var("d2")), "Ri": coca(var("i2")),
        "Sd": sub(var("d2"), var("i2")), "Si": sub(var("i2"), I(1)),
        "Ed": bin_("+", var("d2"), D(3, 2)), "Ei": bin_("*", var("i2"), I(2)),
        "Ud": un("-", var("d2")), "Ui": un("-", var("i2")),
        "Kd": D(5, 2), "Ki": I(2),
    }


def bool_kinds():
    return {
        "Vb": var("l1"), "Rb": rep(var("l2"), I(1)), "Sb": sub(var("l2"), var("i2")),
        "Eb": bin_("<", var("d1"), var("d2")), "Kb": L(True),
    }


def all_kinds():
    k = num_kinds(); k.update(bool_kinds()); return k


def second(e):
    """the same tree over other variables, so operands differ"""
    m = {"d1": "d3", "d2": "d3", "d3": "d1", "i1": "i2", "i2": "i1", "l1": "l2", "l2": "l1",
         "b1": "b1", "b2": "b2"}
    def go(t):
        if isinstance(t, list):
            if len(t) == 2 and t[0] == "var": return ["var", m[t[1]]]
            return [go(x) for x in t]
        return t
    return go(e)


def indices(n=3):
    """every kind of one-dimensional index"""
    return {
        "T": L(True), "Ki": I(2), "Kd": D(5, 2), "Vi": var("i2"), "Vd": var("d3"), "Vl": var("l2"),
        "Ri": coca(I(2), I(1)), "Rc": colon(I(1), I(2)), "Rr": rep(I(2), I(2)), "Rd": coca(D(11, 10), D(29, 10)),
        "Rl": coca(L(True), L(False)), "Si": sub(var("i2"), I(1)), "Sl": sub(var("l2"), coca(I(1), I(1))),
        "Ei": bin_("+", var("i2"), I(0)), "Ed": bin_("*", var("i2"), D(1)), "El": bin_(">", var("d2"), D(0)),
        "Ui": un("-", un("-", var("i2"))), "Bd": var("b1"), "Bi": var("b2"),
        "Re": coca(bin_(">", var("d2"), D(0))), "Rx": coca(bin_("+", var("i2"), I(0)), sub(var("i2"), I(1))),
    }


def subjects():
    """every kind of value that can be subsetted"""
    return {
        "Vd": var("d1"), "Vi": var("i1"), "Vl": var("l1"), "Bd": var("b1"), "Bi": var("b2"),
        "Rd": coca(var("d1"), var("d2")), "Ri": rep(var("i1"), I(2)), "Ed": bin_("+", var("d1"), var("d2")),
        "Ei": bin_("-", var("i1"), I(1)), "El": bin_("<", var("d1"), D(1)), "Ud": un("-", var("d1")),
        "Sd": sub(var("d1"), coca(I(1), I(2))), "Sl": sub(var("l1"), L(True)),
        "Rm": matrix(colon(D(1), D(6)), I(2), I(3)), "Mid": bin_("*", var("i1"), D(5, 2)), "Mbd": bin_("-", D(1, 2), var("l1")),
    }


def mat_subjects():
    return {
        "Vd": var("d1"), "Vi": var("i1"), "Vl": var("l1"), "Bd": var("b1"),
        "Rm": matrix(colon(D(1), D(6)), I(2), I(3)), "Ri": matrix(colon(I(1), I(4)), I(2), I(2)),
        "Ed": bin_("+", var("d1"), D(1)), "Ud": un("-", var("d1")), "El": bin_("<", var("d1"), D(1)),
        "Sd": sub2(var("d1"), L(True), L(True)),
    }


def indices2():
    """indices along one dimension of a matrix"""
    return {
        "T": L(True), "Ki": I(2), "Kd": D(3, 2), "Vi": var("i2"), "Vd": var("d3"), "Vl": var("l2"),
        "Ri": coca(I(2), I(1)), "Rl": coca(L(True), L(False)), "Rd": coca(D(11, 10), D(5, 2)),
        "El": bin_(">", var("d3"), D(0)), "Ei": bin_("+", var("i2"), I(0)),
        "Si": sub(var("i2"), I(1)), "Sl": sub(var("l2"), I(1)), "Bd": var("b1"),
        "Re": coca(bin_(">", var("d3"), D(0))), "Rx": coca(sub(var("i2"), I(1)), I(1)),
    }


# ------------------------------------------------------------ random trees

class Gen:
    def __init__(self, rng, math=False, views=True):
        self.r, self.math, self.views = rng, math, views

    def pick(self, *fs):
        return self.r.choice(fs)

    def var(self, t):
        c = {"d": ["d1", "d2", "d3"], "i": ["i1", "i2"], "b": ["l1", "l2"]}[t]
        if self.views and t == "d" and self.r.random() < .15: return var(self.r.choice(["b1", "b2"]))
        return var(self.r.choice(c))

    def num(self, t):
        r = self.r
        if t == "d": return D(*r.choice([(1, 1), (2, 1), (-3, 1), (1, 2), (5, 2), (-3, 4), (7, 1), (3, 1)]))
        if t == "i": return I(r.choice([1, 2, 3, -1, -2, 5]))
        return L(r.random() < .7)

    def index(self, depth):
        r = self.r
        c = r.randrange(14)
        if c == 0: return L(True)
        if c == 1: return I(r.choice([1, 1, 2, 2, 3]))
        if c == 2: return D(r.choice([3, 5, 4]), 2)
        if c in (3, 4, 5): return var("i2")
        if c in (6, 7): return var("l2")
        if c == 8: return coca(I(1), I(r.choice([1, 2, 3])))
        if c == 9: return colon(I(r.choice([1, 2])), I(r.choice([1, 2, 3])))
        if c == 10 and depth > 0: return bin_(r.choice(CMP), self.vec("d", depth - 1), self.num("d"))
        if c == 11: return sub(var("i2"), I(1))
        if c == 12: return rep(var("i2"), I(r.choice([1, 2])))
        return var("i2")

    def sub(self, t, depth):
        return sub(self.vec(t, depth - 1) if self.r.random() < .6 else self.var(t), self.index(depth - 1))

    def arith(self, t, depth):
        r = self.r
        if t == "d":
            op = r.choice("+-*+-*+-*/^")
            ta, tb = r.choice([("d", "d"), ("d", "d"), ("d", "i"), ("i", "d"), ("d", "b"), ("b", "d")])
            if op == "^": return bin_("^", self.vec(ta, depth - 1), self.pick(I(2), I(3), D(2)))
            if op == "/": return bin_("/", self.vec(r.choice("di"), depth - 1),
                                      self.pick(I(2), D(4), D(1, 2), I(-4), self.vec("i", 0)))
        else:
            op = r.choice("+-*")
            ta, tb = r.choice([("i", "i"), ("i", "i"), ("i", "b"), ("b", "i")])
        x = r.random()
        if x < .2: return bin_(op, self.vec(ta, depth - 1), self.num(tb))
        if x < .4: return bin_(op, self.num(ta), self.vec(tb, depth - 1))
        return bin_(op, self.vec(ta, depth - 1), self.vec(tb, depth - 1))

    def vec(self, t, depth):
        """a vector valued tree of element type t"""
        while True:
            e = self.vec_(t, depth)
            if supported(e): return e

    def vec_(self, t, depth):
        r = self.r
        if depth <= 0: return self.var(t)
        x = r.random()
        if t == "b":
            if x < .55:
                ta, tb = r.choice(["dd", "di", "id", "ii", "bb", "db"])
                op = r.choice(CMP)
                if r.random() < .3: return bin_(op, self.vec(ta, depth - 1), self.num(tb if tb != "b" else "i"))
                return bin_(op, self.vec(ta, depth - 1), self.vec(tb, depth - 1))
            if x < .7: return sub(self.var("b"), self.index(depth - 1))
            if x < .8: return rep(self.var("b"), I(r.choice([1, 2])))
            return self.var("b")
        if x < .5: return self.arith(t, depth)
        if x < .6: return un("-", self.vec(t, depth - 1))
        if x < .72: return self.sub(t, depth)
        if x < .80:
            a = [self.leaf(r.choice([t, t, "i" if t == "d" else "b"]), depth - 1) for _ in range(r.choice([1, 2, 2, 3]))]
            if not any(typ(y) == t for y in a): a[0] = self.var(t)
            return coca(*a)
        if x < .86: return rep(self.leaf(t, depth - 1, True), I(r.choice([1, 2])))
        if x < .90 and self.math and t == "d": return un(r.choice(["sin", "exp", "cos", "atan"]), self.vec(t, depth - 1))
        if x < .93 and t == "i": return colon(I(1), I(r.choice([2, 3, 4])))
        return self.var(t)

    def leaf(self, t, depth, vec=False):
        """an argument of a variadic function"""
        r = self.r
        if not vec and r.random() < .3: return self.num(t)
        if t == "b" or r.random() < .4 or depth <= 0: return self.var(t)
        if t == "i": return self.pick(self.var("i"), rep(self.var("i"), I(2)), colon(I(2), I(1)))
        return self.pick(bin_("+", self.vec("d", depth - 1), self.num("d")),
                         self.var("d"), rep(self.var("d"), I(2)), coca(self.var("d"), D(1)))

    def target(self):
        return self.r.choice(["d1", "d2", "d3", "d1", "i1", "l1", "d2"])


# ------------------------------------------------------------ statements

def assign(x, e): return ["assign", x, e]
def value(e): return ["show", "value", e]


def shuffles():
    """statements that move state around: lengths, shapes and ownership vary"""
    return [
        assign("d1", coca(var("d2"), var("d3"))), assign("d2", sub(var("d1"), coca(I(1), I(1)))),
        assign("d3", bin_("+", var("d1"), var("d2"))), assign("d1", D(7, 2)), assign("d2", var("d1")),
        assign("d1", matrix(colon(D(1), D(6)), I(2), I(3))), assign("d2", matrix(colon(D(1), D(4)), I(2), I(2))),
        assign("d3", var("d2")), assign("i1", colon(I(1), I(4))), assign("i2", coca(I(2), I(1))),
        assign("l1", bin_(">", var("d1"), D(0))), assign("l2", coca(L(True), L(False), L(True))),
        assign("i1", var("i2")), assign("l1", var("l2")), assign("d3", var("b1")), assign("d1", rep(var("d2"), I(2))),
        ["swap", "d1", "d2"], ["swap", "d2", "d3"], ["swap", "i1", "i2"], ["swap", "l1", "l2"],
        ["init", "d1", var("d2"), "brace"], ["init", "d3", var("d1"), "eq"], ["init", "i1", var("i2"), "brace"],
    ]


def randoms(seed, n, depth, math=False):
    g = Gen(random.Random(seed), math)
    out = []
    for _ in range(n):
        x = g.target()
        t = {"d": g.r.choice("dddi"), "i": g.r.choice("iid"), "b": g.r.choice("bbd")}[VARS[x][0]]
        out.append(assign(x, g.vec(t, depth)))
    return out


# base ranges per variable: lmin lmax vmin vmax den matrix%
def ranges(**kw):
    r = {"d1": [1, 6, -4, 4, 4, 20], "d2": [1, 6, -4, 4, 2, 20], "d3": [1, 6, -4, 4, 4, 20],
         "i1": [1, 6, -4, 6, 1, 20], "i2": [1, 4, 1, 3, 1, 0], "l1": [1, 6, 0, 1, 1, 20], "l2": [1, 4, 0, 1, 1, 0],
         "b1": [1, 6, -3, 4, 2, 15], "b2": [1, 5, 1, 4, 1, 10]}
    r.update(kw)
    return r


INDEX3 = [1, 4, 1, 3, 4, 0]    # d3 as an index


# ------------------------------------------------------------ per property

def c01(tier, seed):
    K, out = all_kinds(), []
    tgt = ["d3", "d3", "d1", "d2"]
    for a in K:
        for b in K:
            x, y = K[a], second(K[b])
            if scalar(x) and scalar(y): continue
            if typ(x) == "b" and typ(y) == "b": continue
            for op in ARITH: out.append(assign(tgt[len(out) % 4], bin_(op, x, y)) if hash_(a + b + op) % 7 else value(bin_(op, x, y)))
    for a in num_kinds().values():
        if not scalar(a): out += [assign("d3", un("-", a)), assign("i1", un("-", a)), assign("d1", un("-", un("-", a)))]
    return out + randoms(seed, 100 if tier == "quick" else 400, 3), ranges()


def c02(tier, seed):
    K, out = all_kinds(), []
    for a in K:
        for b in K:
            x, y = K[a], second(K[b])
            if scalar(x) and scalar(y): continue
            for op in CMP: out.append(assign(["l1", "l2", "l1", "d3"][len(out) % 4], bin_(op, x, y)) if hash_(a + b + op) % 7 else value(bin_(op, x, y)))
    g = Gen(random.Random(seed))
    for _ in range(80 if tier == "quick" else 300):
        out.append(assign("l1", bin_(g.r.choice(CMP), g.vec(g.r.choice("ddi"), 2), g.vec(g.r.choice("ddi"), 2))))
    return out, ranges()


# values around the tolerance of == and !=: whole numbers and a few 1/2048 more or less
TOLR = dict(d1=[1, 6, 0, 3, -2048, 10], d2=[1, 6, 0, 3, -2048, 10], d3=[1, 4, 1, 2, -2048, 10],
            b1=[1, 5, 0, 3, -2048, 0], i1=[1, 5, -1, 3, 1, 10], i2=[1, 4, 1, 2, 1, 0])


def c02_near():
    """small-scope values which differ by less or little more than the tolerance"""
    e = 1 / 2048.0
    A = [[1, 1 + e, 2, 2 - 3 * e, 0], [1 + 2 * e, 2 + e, 1 - e, 3 * e, 2], [1.5, 1.5 + e, 1.5 - e, 1.5 + 3 * e, 1.5 - 3 * e], [2.5 - e, 2.5 + 2 * e, 2.5], [e]]
    B = [[1 + e, 1, 2 - 3 * e, 2, e], [1, 2, 1, 0, 2 + 3 * e], [1.5 - e, 1.5, 1.5 + 2 * e, 1.5, 1.5 - e], [2.5, 2.5 + e, 2.5 - 3 * e], [0]]
    V = lambda xs: [("d", x) for x in xs]
    return {"d1": V(A), "d2": V(B), "d3": V(A[1:3] + B[:2]), "b1": V(B[:3]), "i1": [("i", [1, 1, 2, 2, 0])], "i2": [("i", [1, 2, 1, 2])], "b2": V([[1, 2, 1, 2, 0]])}


def extremes():
    """very small, very large and barely different values"""
    A = [[1e-18, 1e-9, -1e-7], [1e8, -1e15, 1e300], [0.9999999, 1.0000001, -0.99999999999, 1 + 1e-15], [700.0, -1e-300, 3e-5], [16777217.0, 2147483653.0, -1e10, 1e-12],
         [-1e-18, 0.5, 1e-4], [123456.789, -98765.4321, 1.0]]
    B = [[1e-15, -1e-9, 2e-7], [1e8 + 1, -1e15, 1e299], [1.0, 1.0000002, 1 - 1e-11, 1.0], [-700.0, 1e-300, 4e-5], [16777216.0, 2147483653.5, -1e10, 2e-12],
         [1e-18, 0.5 + 1e-9, -1e-4], [123456.789, -98765.4325, 1.0000001]]
    I_ = [[2000000000, -2000000000], [16777217, -123456789, 46341], [2147483647], [-2000000000, 2000000000, 7]]
    J_ = [[-2000000000, 2000000000], [16777216, 123456789, 46341], [2147483646, 1], [-1999999999]]
    V = lambda t, xs: [(t, x) for x in xs]
    M = [("d", [1e-18, 1e15, -1e-9, 16777217.0], 2, 2)]
    return {"d1": V("d", A) + M, "d2": V("d", B), "d3": V("d", B[2:4] + A[:2]), "b1": V("d", A[:5]), "b2": V("d", B[1:4]), "i1": V("i", I_), "i2": V("i", J_)}


def longs():
    """vectors and matrices of many elements"""
    import random
    def vals(t, n, k):
        r = random.Random(n * 10 + k)
        return [{"d": r.randint(-40, 40) / 4, "i": r.randint(-9, 9), "b": r.randint(0, 1)}[t] for _ in range(n)]
    def V(t, k, ns): return [(t, vals(t, n, k)) if isinstance(n, int) else (t, vals(t, n[0] * n[1], k), *n) for n in ns]
    def P(t, ns): return [(t, [1 + (7 * i + n) % 9 for i in range(n)]) for n in ns]
    return {"d1": V("d", 1, [33, (8, 9), 100, 17, 65, 9, (12, 3), 260]), "d2": V("d", 2, [72, 33, 9, (8, 9), 40, 66, 130]),
            "d3": P("d", [20, 9, 36, 70]), "i1": V("i", 3, [36, 72, (8, 9), 11, 129]), "i2": P("i", [18, 9, 40, 66]),
            "l1": V("b", 4, [33, 72, 10, (8, 9), 65]), "l2": V("b", 5, [9, 8, 33, 12]), "b1": V("d", 6, [35, (8, 9), 60, 12, 9]), "b2": P("d", [30, 12, 9, 60])}


def calm(t):
    """no variable decides how long a vector becomes"""
    if not isinstance(t, list) or not t: return True
    var_in = lambda x: isinstance(x, list) and (x[:1] in (["var"], ["lv"]) or any(var_in(y) for y in x))
    if t[0] in ("rep", "alloc") and var_in(t[2]): return False
    if t[0] in ("matrix", "colon") and (any(var_in(x) for x in t[2:4]) or t[0] == "colon" and var_in(t[1])): return False
    return t[0] != "while" and all(calm(x) for x in t if isinstance(x, list))


def contexts():
    """one-hole contexts: every operation that takes a vector operand"""
    c = []
    for op in "+-*": c += [lambda h, op=op: bin_(op, h, var("d3")), lambda h, op=op: bin_(op, D(3, 2), h)]
    c += [lambda h: bin_("/", h, D(2)), lambda h: bin_("^", h, I(2)), lambda h: bin_("<", h, var("d3")),
          lambda h: bin_("==", var("i1"), h), lambda h: un("-", h), lambda h: un("sin", h),
          lambda h: un("exp", h), lambda h: sub(h, var("i2")), lambda h: sub(h, var("l2")), lambda h: sub(h, I(1)),
          lambda h: sub(h, L(True)), lambda h: coca(h, var("d3")), lambda h: coca(D(1), h), lambda h: rep(h, I(2)),
          lambda h: bin_("+", bin_("*", h, h), h), lambda h: sub(bin_("-", h, D(1)), I(1)),
          lambda h: sub2(h, I(1), L(True)), lambda h: sub2(h, L(True), coca(I(1), I(2))), lambda h: matrix(h, I(2), I(2)),
          lambda h: sub(var("d3"), h)]
    return c


def storages():
    """one value held in every possible way (d1, i1 or l1 and their copies)"""
    d = var("d1")
    return {
        "var": d, "view": var("b1"), "coca": coca(d), "rep": rep(d, I(1)), "sub": sub(d, L(True)),
        "expr": bin_("+", d, D(0)), "un": un("-", un("-", d)), "subres": sub(coca(d), L(True)),
        "tmp": ["id", "Vec<double>", d], "byvalue": ["id", "byvalue", d], "subsub": sub(sub(d, L(True)), L(True)),
        "subexpr": sub(bin_("*", d, D(1)), L(True)), "neg": un("-", bin_("*", d, I(-1))),
        "ivar": var("i1"), "iview": var("b2"), "ires": coca(var("i1")), "isub": sub(var("i1"), L(True)),
        "iexpr": bin_("+", var("i1"), I(0)), "iun": un("-", var("i1")),
        "mixid": bin_("*", var("i1"), D(5, 2)), "mixdi": bin_("*", D(5, 2), var("i1")), "mixis": bin_("+", var("i1"), D(1, 2)),
        "mixsi": bin_("-", D(1, 2), var("i1")), "mixii": bin_("/", var("i1"), I(2)), "mixbd": bin_("*", var("l1"), D(5, 2)),
        "mixbi": bin_("*", var("l1"), I(3)), "mixib": bin_("+", I(3), var("l1")), "mixvd": bin_("*", var("i1"), var("d2")),
        "mixdv": bin_("-", var("d2"), var("i1")), "mixp": bin_("^", var("i1"), D(2)), "mixq": bin_("/", D(3), var("i1")),
        "mixb": bin_("+", var("i1"), var("l1")), "mixview": bin_("*", var("i1"), var("b1")), "mixd": bin_("/", var("i1"), D(2)),
        "mixdb": bin_("-", D(1, 2), var("l1")), "mixvb": bin_("-", var("d1"), var("l1")),
        "mat": matrix(d, I(2), I(2)), "submat": sub2(d, L(True), L(True)), "col": colon(D(1), D(3)),
    }


def c03(tier, seed):
    out = []
    for name, h in storages().items():
        for k, c in enumerate(contexts()):
            e = c(h)
            out.append(assign(["d2", "d3", "d1"][len(out) % 3] if typ(e) != "b" else "l1", e))
        out += [value(h)] if h[0] not in ("var",) or True else []
    out += randoms(seed, 260 if tier == "quick" else 900, 4)
    return out, ranges(d1=[1, 6, -4, 4, 4, 40])


def rhs_kinds():
    K = all_kinds()
    K.update({
        "V2": var("d2"), "Vi2": var("i2"), "Vl2": var("l2"), "Rrep": rep(var("d1"), I(2)), "Rcol": colon(D(3, 2), D(4)),
        "Rm": matrix(colon(D(1), D(6)), I(2), I(3)), "Ra": alloc("d", I(3)), "Ral": alloc("b", I(2)), "Rai": alloc("i", I(4)),
        "Sm": sub2(var("d2"), I(1), L(True)), "Sm2": sub2(var("d1"), L(True), coca(I(1), I(2))), "Ss": sub(sub(var("d1"), var("i2")), I(1)),
        "Se": sub(bin_("+", var("d1"), D(1)), var("i2")), "Ee": bin_("*", bin_("+", var("d1"), var("d2")), var("d1")),
        "Es": bin_("+", sub(var("d1"), L(True)), var("d1")), "Er": bin_("-", coca(var("d1")), var("d1")),
        "Um": un("sin", var("d1")), "Tmp": ["id", "Vec<double>", var("d1")], "Bv": ["id", "byvalue", var("d1")],
        "Tmi": ["id", "Vec<int>", var("i1")], "Tml": ["id", "Vec<bool>", var("l1")], "Cd": bin_("<", var("d1"), var("d2")),
        "K0": D(0), "K3": D(-15, 4), "Kf": L(False), "At": at(var("d1"), I(1)), "Ln": ["length", var("d1")],
        "Lm": ["dim", var("d1")], "Na": ["test", "isNA", var("d1")],
    })
    return K


TARGETS = ["d1", "i1", "l1", "b1", "b2", "d2"]


def c04(tier, seed):
    out = []
    for x in TARGETS:
        for k, e in rhs_kinds().items():
            if x == "d2" and k[0] in "KLN": continue
            out.append(assign(x, e))
        t = VARS[x][0]
        v = var(x)
        if t != "b":
            out += [assign(x, bin_("+", v, v)), assign(x, bin_("*", bin_("-", v, I(1)), v)), assign(x, un("-", v)),
                    assign(x, bin_("-", sub(v, L(True)), v)), assign(x, sub(v, var("i2"))), assign(x, rep(v, I(2))),
                    assign(x, coca(v, v)), assign(x, bin_("+", rep(v, I(2)), v)), assign(x, bin_("+", v, sub(v, I(1)))),
                    assign(x, sub(v, bin_(">", v, I(0)))), assign(x, bin_("+", sub(v, coca(I(2), I(1))), v))]
        else:
            out += [assign(x, bin_("==", v, var("l2"))), assign(x, sub(v, var("i2"))), assign(x, bin_("<", v, var("d1"))),
                    assign(x, bin_("!=", v, v)), assign(x, rep(v, I(2))), assign(x, sub(v, v))]
    n = 200 if tier == "quick" else 700
    out += randoms(seed, n, 3) + shuffles()
    g = Gen(random.Random(seed + 7))
    for _ in range(60 if tier == "quick" else 200):      # reads its own target in many orders
        x = g.r.choice(["d1", "d2", "i1"])
        t = VARS[x][0]
        out.append(assign(x, bin_(g.r.choice("+-*"), g.vec(t, 2), bin_(g.r.choice("+-*"), var(x), g.sub(t, 2)))))
    out += items(("d1", "i1", "l1"))[::2]
    for x in ("d1", "i1", "l1", "b1"):
        out += [["fillv", x, D(-7, 4)], ["fillv", x, I(3)], ["backset", x, D(5, 2)], ["fillv", x, first(var("d2"))]]
    for k, e in enumerate(ctors()): out.append(assign(TARGETS[k % 6], e))
    for _ in range(30):
        out.append(["block", [assign(g.target(), g.vec("d", 2)), assign(g.target(), g.vec("i", 1)), assign(g.target(), g.vec("d", 2))]])
    return out, ranges()


def c05(tier, seed):
    out = []
    srcs = {"d1": ["Vd", "Bd", "Rd", "Ed", "Ud", "Rm", "Tmp", "Bv", "V2", "Sd", "Vi", "Ri", "Ei"],
            "i1": ["Vi", "Ri", "Ei", "Ui", "Bi", "Tmi", "Vd", "Rd"],
            "l1": ["Vb", "Rb", "Eb", "Tml", "Vd", "Vi"]}
    K = rhs_kinds()
    for x, ks in srcs.items():
        for k in ks:
            if k in ("Sd",): continue
            for how in ("brace", "eq", "heap", "ret", "move"): out.append(["init", x, K[k], how])
    for x, y in (("d1", "d2"), ("d2", "d3"), ("i1", "i2"), ("l1", "l2"), ("d3", "d1")):
        for how in ("brace", "eq", "heap", "ret", "move"): out.append(["init", x, var(y), how])
        out += [assign(x, var(y)), assign(x, ["id", "byvalue", var(y)]), ["swap", x, y]]
    # changing one of them afterwards
    for x in ("d1", "d2", "d3", "i1", "i2", "l1", "l2"):
        t = VARS[x][0]
        c = {"d": D(9, 2), "i": I(9), "b": L(False)}[t]
        out += [["sassign", x, I(1), c], ["atset", x, I(1), c], ["sassign", x, L(True), c], assign(x, c),
                ["eachset", x, "+", I(1)] if t != "b" else ["sassign", x, I(2), c], assign(x, rep(var(x), I(2))),
                assign(x, sub(var(x), I(1)))]
        # copy, change the copy, look at both
        for y in ("d1", "d2", "i1", "l1"):
            if y != x and VARS[y][0] == t:
                for how in ("brace", "eq", "heap"):
                    out.append(["block", [["init", y, var(x), how], ["sassign", y, I(1), c], ["init", x, var(y), how],
                                          ["sassign", x, I(1), {"d": D(-3), "i": I(-3), "b": L(True)}[t]]]])
    for e in ctors():                     # from sizes, numbers, memory
        x = {"d": "d1", "i": "i1", "b": "l1"}[e[1]]
        if e[2][:3] in ("mem", "arr") or hash_(str(e)) % 3 == 0: out += [["init", x, e, how] for how in ("brace", "eq", "heap", "ret", "move")]
    # a copy does not share capacity either
    for x, y in (("d1", "d2"), ("d2", "d3"), ("i1", "i2"), ("l1", "l2"), ("d3", "d1"), ("i2", "i1")):
        for k in (-2, -1, 0, 1, 2, 5, 9):
            c, w = ["refill", x, k, D(3) if typ(var(x)) == "d" else I(1)], D(7) if typ(var(x)) == "d" else I(0)
            out += [c, ["block", [["init", x, var(y), "brace"], c]], ["block", [assign(x, var(y)), c]],
                    ["block", [["init", x, var(y), "ret"], ["refill", y, k, w], c]]]
            if k > 0: out.append(["let", "@" + typ(var(x)) + "a", typ(var(x)), var(x), [["refill", "@" + typ(var(x)) + "a", k, w], assign(y, var("@" + typ(var(x)) + "a"))], "local"])
    for m in (1, 2):
        out += [["block", [assign("d1", ctor("d", "mem", m, 1)), ["poke", f"b{m}", 1, 9, 2], ["sassign", "d1", I(1), D(-3)]]],
                ["block", [["init", "d2", ctor("d", "mem2", m, 1, 2), "brace"], ["poke", f"b{m}", 2, 7, 2], ["sassign", f"b{m}", I(1), D(-3)]]]]
    out += [assign("d1", matrix(colon(D(1), D(4)), I(2), I(2))), assign("d2", matrix(colon(D(1), D(6)), I(3), I(2))),
            assign("i1", matrix(colon(I(1), I(4)), I(2), I(2)))]
    return out + shuffles() + randoms(seed, 40, 2), ranges(d1=[1, 6, -4, 4, 4, 40], d2=[1, 6, -4, 4, 4, 40], i1=[1, 6, -4, 6, 1, 40], l1=[1, 6, 0, 1, 1, 40])


def mats():
    return {"Vd": var("d1"), "Vd2": var("d2"), "Vi": var("i1"), "Bd": var("b1"), "Rm": matrix(colon(D(1), D(6)), I(2), I(3)),
            "Ri": matrix(colon(I(1), I(6)), I(2), I(3)), "Ed": bin_("+", var("d1"), D(1)), "Ud": un("-", var("d2")),
            "Sm": sub2(var("d1"), L(True), L(True)), "Kd": D(3, 2), "Ki": I(2), "Vec": sub(var("d3"), coca(I(1), I(1))),
            "Rv": coca(D(1), D(2)), "El": bin_("<", var("d1"), D(1)), "Vl": var("l1")}


def c06(tier, seed):
    M, out = mats(), []
    for a in M:
        for b in M:
            if scalar(M[a]) and scalar(M[b]): continue
            for op in ("+", "*", "-", "/", "^", "<", "==", ">=", "!="):
                if op in ARITH and typ(M[a]) == "b" and typ(M[b]) == "b": continue
                if op in "-/^>=!=" and len(out) % 3: out.append(None); continue
                e = bin_(op, M[a], M[b])
                out.append(assign({"b": ["l1", "d3"], "i": ["i1", "d3"], "d": ["d3", "d1", "d2"]}[typ(e)][len(out) % 2], e))
    out = [s for s in out if s]
    for a, e in M.items():
        if scalar(e): continue
        if typ(e) != "b":
            out += [assign("d3", un("-", e)), assign("i1", un("-", e)), assign("d3", un("-", bin_("+", un("-", e), D(1))))]
        if typ(e) == "d": out += [assign("d2", un(f, e)) for f in ("sin", "exp", "log", "sqrt", "tanh")]
        for x in ("d1", "d2", "i1", "l1"): out.append(assign(x, e))
        out.append(value(e))
        for how in ("brace", "eq", "heap", "ret", "move"): out.append(["init", "d2", e, how]) if a not in ("Sm", "Vec") else None
    for x in ("d1", "i1", "l1", "d2"):
        out += [assign(x, D(1)), assign(x, I(2)), assign(x, L(True)), assign(x, coca(D(1), D(2))), assign(x, var("d3")),
                assign(x, sub(var("d1"), L(True))), assign(x, coca(var("d1"))), assign(x, rep(var("d1"), I(1))),
                assign(x, matrix(colon(D(1), D(6)), I(3), I(2)))]
        out.append(["show", "value", var(x)])
    return out + shuffles() + randoms(seed, 60, 3), ranges(
        d1=[1, 6, -4, 4, 4, 75], d2=[1, 6, -4, 4, 2, 75], d3=[1, 2, -4, 4, 2, 30], i1=[1, 4, 1, 4, 1, 75],
        b1=[1, 6, -3, 4, 2, 70], l1=[1, 6, 0, 1, 1, 75])


def c07(tier, seed):
    out = []
    for sname, s in subjects().items():
        for iname, i in indices().items():
            e = sub(s, i)
            out.append(assign("l1" if typ(s) == "b" else "i1" if (typ(s) == "i" and len(out) % 2) else "d3" if "d3" not in reads(e) else "d2", e))
            if s[0] == "var" and len(out) % 2: out[-1][2] = sub(s, i) + ["call"]
    I3 = [L(True), I(1), var("i2"), var("l2"), coca(I(2), I(1)), D(3, 2)]
    for a in I3:
        for b in I3: out.append(assign("d3", sub(sub(var("d1"), a), b)))
    out += [value(sub(s, var("i2"))) for s in subjects().values()]
    g = Gen(random.Random(seed))
    for _ in range(120 if tier == "quick" else 400):
        out.append(assign(g.r.choice(["d2", "d3", "d1"]), sub(g.vec(g.r.choice("di"), 2), g.index(2))))
    return out + shuffles(), ranges(d3=INDEX3, b1=[1, 4, 1, 3, 2, 0], b2=[1, 4, 1, 3, 1, 0], d1=[1, 6, -4, 4, 4, 25])


def c08(tier, seed):
    out = []
    S, X = mat_subjects(), indices2()
    k = 0
    for sname, s in S.items():
        for a, i in X.items():
            for b, j in X.items():
                k += 1
                if tier == "quick" and sname not in ("Vd", "Rm") and (k * 7 + len(sname)) % 4: continue
                j2 = second(j) if j[0] in ("var", "bin") and b in ("Vl", "Vi") and k % 2 else j
                if b == "Vi" and k % 2: j2 = var("i2")
                e = sub2(s, i, j2)
                out.append(assign("l1" if typ(s) == "b" else "d2" if k % 3 else "i1", e))
                if s[0] == "var" and k % 2: out[-1][2] = e + ["call"]
    out += [value(sub2(s, L(True), I(1))) for s in S.values()] + [value(sub2(s, L(True), coca(I(2), I(1)))) for s in S.values()]
    out += [assign("d1", matrix(colon(D(1), D(6)), I(2), I(3))), assign("i1", matrix(colon(I(1), I(6)), I(3), I(2))),
            assign("d1", bin_("*", var("d1"), var("d1"))), assign("l1", bin_("<", var("d1"), D(1))), ["swap", "d1", "d2"],
            assign("d2", sub2(sub2(var("d1"), L(True), coca(I(1), I(2))), coca(I(2), I(1)), L(True))),
            assign("d2", sub(sub2(var("d1"), L(True), L(True)), var("i2"))),
            assign("d2", bin_("+", sub2(var("d1"), L(True), coca(I(1), I(2))), D(1)))]
    return out, ranges(d1=[4, 6, -4, 4, 4, 92], i1=[1, 4, -3, 3, 1, 90], l1=[1, 2, 0, 1, 1, 90], b1=[1, 2, 1, 2, 1, 92],
                       d3=[1, 3, 1, 2, 4, 0], i2=[1, 3, 1, 2, 1, 0], l2=[1, 2, 0, 1, 1, 0])


def c09(tier, seed):
    out = []
    rhs = {"Kd": D(9, 2), "Ki": I(-7), "Kb": L(True), "Vd": var("d2"), "Vi": var("i1"), "Vl": var("l1"), "Rd": coca(D(8), D(-9)),
           "Ri": colon(I(7), I(8)), "Sd": sub(var("d2"), coca(I(1), I(1))), "Ed": bin_("+", var("d2"), D(1)),
           "Eb": bin_("<", var("d2"), D(1)), "Ud": un("-", var("d2")), "Bd": var("b1"), "Self": sub(var("d1"), coca(I(2), I(1))),
           "SelfE": bin_("*", var("d1"), D(2)), "Dup": coca(D(1), D(2), D(3))}
    for x in ("d1", "i1", "l1", "b1", "b2"):
        for iname, i in indices().items():
            for rname, r in rhs.items():
                n = len(out)
                if tier == "quick" and x != "d1" and (hash_(x + iname + rname) % 3): continue
                if rname in ("Self", "SelfE") and x != "d1": r = second(r) if False else r
                out.append(["sassign", x, i, r])
                if hash_(iname + rname) % 2 == 0: out[-1].append("call")
    X = indices2()
    r2 = {"Kd": D(9, 2), "Ki": I(-7), "Vd": var("d2"), "Rd": coca(D(8), D(-9)), "Sm": sub2(var("d1"), L(True), L(True)), "Ed": bin_("+", var("d1"), D(1)),
          "Vi": var("i2"), "Rev": coca(D(5), D(6), D(7), D(8))}
    for x in ("d1", "i1", "l1", "b1"):
        for a, i in X.items():
            for b, j in X.items():
                for rname, r in r2.items():
                    if hash_(x + a + b + rname) % (5 if x == "d1" else 11) and tier == "quick": continue
                    out.append(["sassign2", x, i, j, r])
                    if hash_(a + b) % 2: out[-1].append("call")
        for r in (D(5, 2), I(3), L(True)):
            for p in (I(1), D(5, 2), I(2)):
                out.append(["atset", x, p, r])
                for q in (I(2), D(3, 2)): out.append(["atset2", x, p, q, r])
    g = Gen(random.Random(seed))
    for _ in range(60 if tier == "quick" else 250):
        x = g.r.choice(["d1", "d2", "i1"])
        i = g.index(1)
        out.append(["sassign", x, i, g.pick(g.num("d"), sub(g.vec("d", 2), i), sub(var(x), i), bin_("+", sub(var(x), i), g.num("i")))])
    # pairs that fit: read modify write through the same index
    for x in ("d1", "i1", "b1"):
        for i in indices().values():
            out.append(["sassign", x, i, bin_("+", sub(var(x), i), I(1))])
            out.append(["sassign", x, i, sub(var("d2"), i)])
    for i in X.values():
        for j in list(X.values())[:8]: out.append(["sassign2", "d1", i, j, bin_("*", sub2(var("d1"), i, j), D(2))])
    return out + shuffles(), ranges(d1=[2, 6, -4, 4, 4, 55], i1=[2, 6, -3, 3, 1, 45], l1=[1, 4, 0, 1, 1, 40], d3=[1, 3, 1, 2, 4, 0],
                                    d2=[1, 4, -4, 4, 2, 25], b1=[1, 6, 1, 3, 2, 40], b2=[1, 4, 1, 3, 1, 20], i2=[1, 3, 1, 2, 1, 0], l2=[1, 3, 0, 1, 1, 0])


def items(xs=("d1", "i1", "l1", "b1", "b2"), far=False):
    """plain indexing, counting from 0: reading and writing"""
    out = []
    for x in xs:
        t = VARS[x][0]
        for p in (I(0), I(1), I(2), I(4)) + ((I(-1), I(5), I(6), I(40)) if far else ()):
            out += [assign("d3", item(x, p)), ["itemset", x, p, D(-7, 4)], ["itemset", x, p, item("d2", I(0))]]
            if t != "b": out += [["itemset", x, p, bin_("+", item(x, I(0)), D(1, 2))], assign("d2", bin_("*", var("d2"), item(x, p))), ["show", "scalar", item(x, p)]]
            if not far: out.append(["itemset", x, p, {"d": first(var("i1")), "i": first(var("d1")), "b": first(var("i2"))}[t]])
        out += [["for", "@i", colon(I(0), bin_("-", ["length", var(x)], I(0 if far else 1))), [["itemset", x, ["lv", "@i", "i"], bin_("+", item(x, ["lv", "@i", "i"]), D(1)) if t != "b" else L(True)]]],
                ["for", "@i", colon(I(0), bin_("-", ["length", var(x)], I(0 if far else 1))), [assign("d3", bin_("+", bin_("*", var("d3"), D(1, 2)), item(x, ["lv", "@i", "i"])))]]]
    return out


def ctors():
    """vectors and matrices made from sizes, numbers and memory"""
    out = []
    for t in "dib":
        for r, c in ((2, 3), (3, 2), (1, 1), (1, 4), (4, 1), (3, 3)): out.append(ctor(t, "mat", r, c))
        for r, c in ((2, 3), (1, 2), (3, 3), (4, 1)):
            for v in (D(5, 2), D(-1), D(1, 4), D(0)): out.append(ctor(t, "fill", r, c, v))
        for n in (1, 2, 3, 7, 20): out.append(ctor(t, "si", n))
        for v in (D(5, 2), D(0), D(-7, 4), I(3), I(0), I(-2), L(True), L(False), I(2) + ["size"]): out.append(ctor(t, "one", v))
        if t != "b":
            for n in (1, 2, 5): out.append(ctor(t, "arr", n, [D(k - 2, 2) if t == "d" else D(7 - 2 * k, 2) for k in range(n)]))
            for r, c in ((2, 3), (3, 1), (1, 2)): out.append(ctor(t, "arr2", r, c, [D(2 * k - 3, 4) if t == "d" else D(3 * k - 5, 2) for k in range(r * c)]))
    for w in (1, 2):
        for n in (1, 2, 3): out.append(ctor("d", "mem", w, n))
        for r, c in ((1, 2), (2, 1), (2, 2), (1, 1), (2, 3)): out.append(ctor("d", "mem2", w, r, c))
    return out


def vias(x):
    """statements performed through another view of the same memory"""
    v, out = var(x), []
    inner = [assign(x, D(5, 2)), assign(x, bin_("+", v, D(1))), assign(x, coca(v, D(9))), assign(x, colon(I(1), I(3))), assign(x, colon(I(4), I(1))), assign(x, var("d1")),
             assign(x, var("i1")), assign(x, un("-", v)), assign(x, matrix(colon(D(1), D(4)), I(2), I(2))), ["sassign", x, I(1), D(-3)], ["sassign", x, coca(I(2), I(1)), coca(D(1), D(2))],
             ["sassign", x, L(True), D(4)], ["sassign", x, var("l2"), D(1, 2)], ["atset", x, I(2), D(8)], ["atset", x, I(9), D(8)], ["itemset", x, I(1), D(-8)], ["itemset", x, I(0), I(3)],
             ["backset", x, D(6)], ["fillv", x, D(3, 4)], ["eachset", x, "*", I(2)], ["sassign2", x, I(1), L(True), D(7)]]
    for k, s in enumerate(inner):
        for how in ("copy", "eq", "buf"): out.append(["viaview", x, how, s])
        if k % 3 == 0: out.append(["block", [["viaview", x, "copy", s], assign("d1", bin_("+", v, D(1))), ["viaview", x, "buf", inner[(k + 5) % len(inner)]]]])
    return out


def lends(x):
    out = []
    for n in range(1, 7):
        for how in ("ptr", "borrow"): out.append(["lend", x, n, 0, how])
    for r, c in ((2, 2), (1, 2), (2, 1), (2, 3), (3, 2), (1, 1)): out.append(["lend", x, r, c, "ptr2"])
    return out


def firsts():
    d1, d2, i1, l1 = var("d1"), var("d2"), var("i1"), var("l1")
    return [d1, i1, l1, var("b1"), var("b2"), coca(d1, d2), coca(i1), rep(d1, I(2)), bin_("+", d1, d2), bin_("*", i1, I(2)), bin_("<", d1, d2), un("-", d1), un("-", i1), sub(d1, var("i2")), sub(i1, I(1)), sub(l1, var("l2")),
            bin_("/", i1, I(2)), un("sin", d1), colon(I(2), I(1)), bin_("==", i1, I(1)), sub2(d1, L(True), I(1)), alloc("d", I(3)), bin_("-", sub(d1, coca(I(2), I(1))), D(1))]


def numbers():
    """vectors used where a plain number is expected"""
    out = []
    for e in firsts():
        out += [["show", "scalar", first(e)], assign("d3", first(e)), assign("d3", bin_("+", var("d2"), first(e)) if typ(e) != "b" else bin_("<", var("d2"), first(e)))]
        for t in "dib":
            v = ["lv", "@n" + t, t]
            out.append(["letnum", "@n" + t, t, e, [assign("d3", v), assign("i1" if t != "i" else "d2", bin_("+", var("i2"), v))]])
    return out


def hash_(s):
    h = 7
    for ch in s: h = (h * 131 + ord(ch)) % 1000003
    return h


def bad_positions():
    return {"0": I(0), "-1": I(-1), "9": I(9), "D0": D(1, 2), "Dneg": D(-5, 2), "D9": D(19, 2), "Vi": var("i2"), "Vd": var("d3"),
            "R": coca(I(1), I(0)), "R9": coca(I(1), I(9)), "Rd": coca(D(1), D(37, 4)), "Rneg": coca(I(-2), I(1)), "Bi": var("b2"),
            "E": bin_("-", var("i2"), I(1)), "Ed": bin_("*", var("i2"), D(3, 2)), "S": sub(var("i1"), I(1)), "F": L(False),
            "Vl": var("l2"), "U": un("-", var("i2")), "ok": I(1), "T": L(True), "Lon": coca(I(2), I(1), I(1), I(3)),
            "Far": far("4294967297.0"), "FarN": far("(-4294967295.0)", -1), "Fmax": I(2147483647), "Fmin": I(-2147483647), "NA": NA_, "Inf": INF_,
            "FarV": coca(D(1), far("8589934593.0")), "NAV": coca(D(1), NA_)}


def c10(tier, seed):
    out = []
    P = bad_positions()
    for sname, s in subjects().items():
        for p, i in P.items(): out.append(assign("l1" if typ(s) == "b" else "d2", sub(s, i)))
    for x in ("d1", "i1", "l1", "b1", "b2"):
        for p, i in P.items():
            for r in (D(9, 2), coca(D(1), D(2)), var("d2")):
                out.append(["sassign", x, i, r])
        for p in (I(0), I(-1), I(9), D(1, 2), D(-1, 2), D(19, 2), I(3), I(1), D(7, 2), P["Far"], P["FarN"], P["Fmax"], P["NA"], P["Inf"]):
            out += [["atset", x, p, D(2)], assign("d2", at(var(x), p))]
            for q in (I(1), I(0), I(7), D(5, 2), I(-1), P["Far"], P["NA"]):
                out += [["atset2", x, p, q, D(2)], assign("d2", at2(var(x), p, q)), ["atset2", x, q, p, I(3)]]
    out += items(far=True)
    for sname, s in mat_subjects().items():
        for p, i in P.items():
            for q, j in (("1", I(1)), ("T", L(True)), ("0", I(0)), ("9", I(9)), ("V", var("i2")), ("L", var("l2"))):
                if tier == "quick" and hash_(sname + p + q) % 3: continue
                out.append(assign("l1" if typ(s) == "b" else "d2", sub2(s, i, j)))
                out.append(assign("l1" if typ(s) == "b" else "d2", sub2(s, j, i)))
    for x in ("d1", "i1", "b1", "l1"):
        for p, i in P.items():
            for j in (I(1), L(True), I(0), var("l2"), I(8), var("i2")):
                if tier == "quick" and hash_(x + p + str(j)) % 3: continue
                out += [["sassign2", x, i, j, D(7, 2)], ["sassign2", x, j, i, coca(D(1), D(2))]]
    for e in (matrix(colon(D(1), D(6)), I(2), I(3)), bin_("+", var("d1"), D(1)), un("-", var("d1"))):
        for p in (I(0), I(1), I(2), I(3), D(5, 2), D(1, 2), I(-1)):
            for q in (I(0), I(1), I(3), I(4), D(9, 2)): out.append(assign("d2", at2(e, p, q)))
    return out + shuffles(), ranges(d1=[1, 6, -4, 4, 4, 50], i1=[1, 5, -1, 5, 1, 40], l1=[1, 4, 0, 1, 1, 40], d3=[1, 3, -1, 5, 2, 0],
                                    b1=[1, 5, 0, 3, 2, 40], b2=[1, 3, 0, 5, 1, 30], i2=[1, 3, 0, 6, 1, 0], l2=[1, 3, 0, 1, 1, 0])


def c11(tier, seed):
    out = []
    ends = {"Ki": I(1), "K3": I(3), "Kn": I(-2), "K0": I(0), "Kd": D(3, 2), "Kd4": D(17, 4), "Kdn": D(-7, 4), "Vi": var("i1"), "Vd": var("d1"), "Bd": var("b1"),
            "Bi": var("b2"), "Rd": coca(var("d2")), "Ri": coca(var("i2")), "Sd": sub(var("d2"), I(1)), "Si": sub(var("i2"), I(1)), "Ed": bin_("+", var("d2"), D(1)),
            "Ei": bin_("*", var("i2"), I(2)), "Ud": un("-", var("d2")), "Ln": ["length", var("d1")], "At": at(var("d1"), I(1)), "Kb": L(True), "Vl": var("l1")}
    tenths = [D(3, 10), D(23, 10), D(-17, 10), D(33, 10), D(1, 3), D(7, 3), coca(D(3, 10), D(1)), coca(D(43, 10)), I(2), I(0), D(1, 10), D(-9, 10)]
    for a in tenths:
        for b in tenths: out.append((value if len(out) % 3 else lambda e: assign("d3", e))(colon(a, b)))
    for a in ends:
        for b in ends:
            if typ(ends[a]) == "b" and typ(ends[b]) == "b": continue
            out.append(assign(["d3", "i1", "d3"][len(out) % 3], colon(ends[a], ends[b])))
    what = {"Vd": var("d1"), "Vi": var("i1"), "Vl": var("l1"), "Bd": var("b1"), "Rd": coca(var("d2"), D(1)), "Ri": colon(I(1), I(3)), "Sd": sub(var("d2"), var("i2")),
            "Ed": bin_("+", var("d2"), D(1)), "El": bin_("<", var("d1"), var("d2")), "Ud": un("-", var("d1")), "Kd": D(5, 2), "Ki": I(4), "Kb": L(True), "Sl": sub(var("l1"), I(1)), "Bi": var("b2"),
            "Mid": bin_("*", var("i1"), D(5, 2)), "Mbd": bin_("+", D(1, 2), var("l1")), "Mib": bin_("-", var("i1"), var("l1"))}
    cnt = {"1": I(1), "3": I(3), "D": D(27, 10), "0": I(0), "n": I(-1), "Dz": D(3, 4), "Vi": var("i2"), "Vd": var("d3"), "R": coca(I(2)), "S": sub(var("i2"), I(1)),
           "E": bin_("+", var("i2"), I(1)), "L": L(True), "Ln": ["length", var("d1")], "B": var("b2"), "Lf": L(False)}
    for w in what:
        for c in cnt: out.append(assign("l2" if typ(what[w]) == "b" else ["d3", "i1", "d2"][len(out) % 3], rep(what[w], cnt[c])))
    args = dict(what)
    args.update({"Un": un("sin", var("d2")), "Ui": un("-", var("i1")), "Sm": sub2(var("d1"), L(True), I(1)), "Ei": bin_("+", var("i1"), I(1)), "Eb": bin_("==", var("i1"), I(1)),
                 "Eq": bin_("/", var("i1"), I(2)), "Ss": sub(sub(var("i1"), var("i2")), I(1)), "Sx": sub(bin_("*", var("i1"), I(2)), I(1)), "Na": ["test", "isNA", var("d1")], "Rm": matrix(colon(I(1), I(4)), I(2), I(2))})
    names = list(args)
    for a in names:
        out.append(assign("d3", coca(args[a]))); out.append(assign("i1", coca(args[a])))
        for b in names:
            out.append(assign(["d3", "i1", "d2"][len(out) % 3], coca(args[a], args[b])))
            if hash_(a + b) % 4 == 0: out.append(value(coca(args[a], args[b])))
        if hash_(a) % 2: out.append(value(rep(args[a], I(2))))
    for a in ends:
        for b in ends:
            if not (typ(ends[a]) == "b" and typ(ends[b]) == "b") and hash_(a + "-" + b) % 5 == 0: out.append(value(colon(ends[a], ends[b])))
    rng = random.Random(seed)
    for _ in range(150 if tier == "quick" else 500):
        out.append(assign(rng.choice(["d3", "i1", "d1", "l1"]), coca(*[args[rng.choice(names)] for _ in range(rng.choice([3, 3, 4, 5]))])))
    for _ in range(40):
        out.append(assign("d3", bin_("+", coca(args[rng.choice(names)], args[rng.choice(names)]), rep(var("d1"), I(rng.choice([1, 2]))))))
    return out + shuffles(), ranges(i2=[1, 3, 1, 4, 1, 0], d3=[1, 3, 0, 3, 4, 10], b2=[1, 3, 0, 4, 1, 0])


def c12(tier, seed):
    out = []
    what = {"Kd": D(5, 2), "Ki": I(4), "Kb": L(True), "Vd": var("d1"), "Vi": var("i1"), "Vl": var("l1"), "Bd": var("b1"), "Rc": colon(D(1), D(6)), "Ri": colon(I(1), I(4)),
            "Rr": rep(D(3, 2), I(6)), "Rl": coca(L(True), L(False), L(True), L(True)), "Sd": sub(var("d1"), coca(I(1), I(2), I(1), I(1))), "Ed": bin_("+", var("d1"), D(1)),
            "Ud": un("-", var("d1")), "El": bin_("<", var("d1"), D(1)), "Rm": matrix(colon(D(1), D(6)), I(2), I(3)), "Ei": bin_("+", var("i1"), I(1)),
            "Si": sub(var("i1"), L(True))}
    sizes = {"2": I(2), "3": I(3), "1": I(1), "D2": D(5, 2), "D3": D(3), "0": I(0), "n": I(-2), "Vi": var("i2"), "Vd": var("d3"), "R": coca(I(2)), "S": sub(var("i2"), I(1)),
             "E": bin_("+", var("i2"), I(0)), "L": ["length", var("d2")], "B": var("b2"), "Dz": D(1, 2)}
    for w in what:
        for a in sizes:
            for b in sizes:
                if tier == "quick" and hash_(w + a + b) % (2 if a in "23" and b in "23" else 5): continue
                out.append(assign("l2" if typ(what[w]) == "b" else ["d2", "i1", "d1"][len(out) % 3], matrix(what[w], sizes[a], sizes[b])))
    asz = {"Ki": I(3), "K1": I(1), "Kd": D(29, 10), "K0": I(0), "Kn": I(-3), "Kz": D(3, 4), "Vi": var("i2"), "Vd": var("d3"), "Bi": var("b2"), "R": coca(I(4)), "Rd": coca(D(7, 2)),
           "S": sub(var("i2"), I(1)), "Sd": sub(var("d3"), I(1)), "E": bin_("+", var("i2"), I(1)), "Ed": bin_("*", var("d3"), D(2)), "Ln": ["length", var("d1")], "Kb": L(True), "Vl": var("l1"),
           "Big": I(40)}
    for t in "dib":
        for a in asz: out += [assign(x, alloc(t, asz[a])) for x in ("d1", "i1", "l1")] + [value(alloc(t, asz[a]))]
        out += [assign("d1", bin_("+", alloc(t, I(3)), D(1))), assign("d2", coca(alloc(t, I(2)), var("d1"))),
                value(coca(alloc(t, I(2)), L(True))), value(rep(alloc(t, I(2)), I(2))), assign("d2", sub(var("d1"), coca(alloc(t, I(1)), L(True)))),
                assign("d2", sub(var("d1"), alloc(t, I(2)))), value(bin_("+", alloc(t, I(2)), I(1))), value(bin_("==", alloc(t, I(2)), I(0))),
                value(sub(alloc(t, I(3)), coca(I(3), I(1)))), ["init", "d1", alloc(t, I(3)), "brace"], ["init", "i1", alloc(t, I(3)), "eq"], ["init", "l1", alloc(t, I(3)), "brace"]]
    for k, e in enumerate(ctors()):
        out += [value(e), assign(["d1", "i1", "l1", "d2"][k % 4], e)]
        if typ(e) != "b": out += [assign("d2", bin_("+", e, D(1, 2))), assign("i1", bin_("*", var("i2"), e))] if k % 2 else [assign("d3", un("-", e))]
        x = {"d": "d1", "i": "i1", "b": "l1"}[e[1]]
        out.append(["init", x, e, ["brace", "eq", "move"][k % 3]])
    for k in what: out.append(value(matrix(what[k], I(2), I(3))) if not scalar(what[k]) else value(matrix(what[k], I(1), I(2))))
    return out + shuffles(), ranges(d1=[1, 6, -4, 4, 4, 25], i1=[1, 6, -4, 4, 1, 25], i2=[1, 2, 1, 4, 1, 0], d3=[1, 2, 0, 4, 4, 0], b2=[1, 2, 1, 3, 1, 0],
                                    d2=[2, 3, -3, 3, 1, 30])


def c13(tier, seed):
    out = []
    K = rhs_kinds()
    for x in ("b1", "b2"):
        v = var(x)
        for e in K.values(): out.append(assign(x, e))
        out += [assign(x, bin_("+", v, v)), assign(x, un("-", v)), assign(x, sub(v, coca(I(2), I(1)))), assign(x, bin_("*", v, I(2))), assign(x, rep(v, I(2))),
                assign(x, coca(v, D(1))), assign(x, sub(v, L(True))), assign(x, coca(v)), assign(x, bin_("+", sub(v, L(True)), v))]
        for i in list(indices().values()):
            out += [["sassign", x, i, D(9, 2)], ["sassign", x, i, bin_("+", sub(v, i), I(1))], assign("d1", sub(v, i))]
        for p in (I(1), I(2), I(0), I(9), D(5, 2), I(5)):
            out += [["atset", x, p, I(7)], assign("d1", at(v, p)), ["atset2", x, p, I(1), I(6)], ["sassign2", x, p, L(True), I(4)]]
        for j in range(1, 8): out.append(["poke", x, j, 2 * j - 9, 2])
        out += [["eachset", x, "+", I(1)], ["eachset", x, "*", I(2)], ["show", "range", v], ["show", "print", v], value(v), ["show", "scalar", ["length", v]],
                assign("d1", v), assign("i1", v), assign("l1", v), ["init", "d1", v, "brace"], ["init", "d2", v, "eq"],
                assign("d1", bin_("+", v, var("d2"))), assign("d2", bin_("/", var("d1"), v)), assign("d1", coca(v, v)), assign("d1", un("-", v)),
                ["sassign", "d1", I(1), v], assign(x, D(1)), assign(x, matrix(colon(D(1), D(4)), I(2), I(2)))]
        for j in (1, 2, 4):
            out.append(["block", [["poke", x, j, 11, 1], assign("d1", v), assign(x, bin_("+", v, I(1)))]])
    out += items(("b1", "b2")) + vias("b1") + vias("b2") + lends("b1") + lends("b2")
    for x in ("b1", "b2"):
        out += [["fillv", x, D(5, 4)], ["fillv", x, I(2)], ["backset", x, D(1, 2)], ["backset", x, first(var("d1"))], assign("d1", back(x)), ["show", "scalar", back(x)], assign("d2", first(var(x))),
                ["show", "stream", var(x)], ["letnum", "@nd", "d", var(x), [assign("d2", bin_("+", var("d1"), ["lv", "@nd", "d"]))]]]
        for n in (1, 2, 3): out += [["block", [assign(x, D(3)), ["viaview", x, "copy", assign(x, colon(I(1), I(n)))], assign(x, colon(I(n), I(1)))]],
                                    ["block", [["lend", x, n, 0, "borrow"], assign(x, rep(D(1, 2), I(n))), assign(x, rep(D(1, 2), I(n + 1)))]],
                                    ["block", [["lend", x, 1, n, "ptr2"], assign(x, bin_("*", var(x), D(2))), ["poke", x, n, 3, 1], ["sassign2", x, I(1), I(n), D(9)], assign("d1", var(x))]]]
    out += [assign("b1", var("b2")), assign("b2", var("b1")), assign("b1", bin_("+", var("b1"), var("b2")))]
    for n in range(1, 8): out += [assign("b1", colon(I(1), I(n))), assign("b2", colon(I(n), I(1))), assign("b1", rep(D(3, 2), I(n)))]
    g = Gen(random.Random(seed))
    for _ in range(60 if tier == "quick" else 250):
        out.append(assign(g.r.choice(["b1", "b2"]), g.vec(g.r.choice("di"), 2)))
        x = g.r.choice(["b1", "b2"])
        out.append(assign(x, bin_(g.r.choice("+-*"), var(x), sub(g.vec("d", 1), g.index(1)))))
    return out + shuffles(), ranges(b1=[1, 6, -3, 4, 2, 30], b2=[1, 5, -3, 4, 1, 30])


def c17(tier, seed):
    return None


def c18(tier, seed):
    out = []
    A = {"Vd": var("d1"), "Vi": var("i1"), "Bd": var("b1"), "Bi": var("b2"), "Rd": coca(var("d2")), "Ri": coca(var("i2")), "Rc": colon(D(1, 2), D(5, 2)), "Sd": sub(var("d2"), var("i2")),
         "Si": sub(var("i2"), I(1)), "Ed": bin_("*", var("d2"), D(1, 2)), "Ei": bin_("+", var("i2"), I(1)), "Ud": un("-", var("d2")), "Ui": un("-", var("i1")),
         "Vl": var("l1"), "El": bin_("<", var("d1"), var("d2")), "Rm": matrix(colon(D(1), D(4)), I(2), I(2)), "Kd": D(1, 2), "Kn": D(-3, 4), "K2": D(2), "Ki": I(1), "K0": D(0), "K9": D(700),
         "Big": bin_("*", var("d1"), D(400)), "Nan": bin_("/", var("d1"), D(0)) if False else bin_("*", var("d1"), D(1, 16)), "At": at(var("d1"), I(1)), "Kb": L(True)}
    for f in MATH:
        for a in A.values():
            out.append(assign(["d3", "d1", "d2"][len(out) % 3] if not scalar(a) else "d3", un(f, a)))
        out += [assign("i1", un(f, var("d1"))), value(un(f, var("d1"))), assign("d3", bin_("+", un(f, var("d1")), var("d2"))), assign("d3", bin_("*", D(2), un(f, var("d1")))),
                assign("d3", un("-", un(f, var("d1")))), assign("d3", sub(un(f, var("d1")), var("i2"))), assign("l1", bin_("<", un(f, var("d1")), D(1, 2))),
                assign("d3", coca(coca(un(f, D(1, 2))), var("d1"))), ["sassign", "d1", I(1), un(f, D(1, 4))], assign("d3", un(f, bin_("+", var("d1"), var("i1")))),
                assign("d1", un(f, var("d1"))), assign("d3", rep(un(f, D(1, 2)), I(2)))]
        for h in MATH: out.append(assign("d3", un(f, un(h, var("d1")))))
    out += randoms(seed, 40 if tier == "quick" else 300, 3, math=True)
    for _ in ():
        pass
    # special values
    for e in (coca(D(0, 0), D(1, 0), D(-1, 0), D(1, 2)),):
        for f in MATH: out.append(assign("d3", un(f, e)))
    return out + shuffles(), ranges(d1=[1, 6, -2, 2, 8, 25], d2=[1, 6, -2, 3, 4, 20])


def c19(tier, seed):
    out = []
    V = {"d1": var("d1"), "i1": var("i1"), "l1": var("l1"), "b1": var("b1"), "b2": var("b2")}
    F = {"Rd": coca(var("d1"), var("d2")), "Ri": rep(var("i1"), I(2)), "Rl": rep(var("l1"), I(1)), "Rc": colon(I(3), I(1)), "Rm": matrix(colon(D(1), D(6)), I(2), I(3)), "Rmi": matrix(colon(I(1), I(6)), I(3), I(2)),
         "Ra": alloc("d", I(3)), "Rb": matrix(L(True), I(2), I(2)), "Li": coca(D(1), I(2), L(True))}
    O = {"Ed": bin_("+", var("d1"), var("d2")), "El": bin_("<", var("d1"), var("d2")), "Ud": un("-", var("d1")), "Um": un("exp", var("d1")), "Sd": sub(var("d1"), var("i2")), "Ei": bin_("*", var("i1"), I(2)),
         "Sm": sub2(var("d1"), L(True), coca(I(1), I(2))), "Eb": bin_("==", var("i1"), var("i2"))}
    allk = dict(V); allk.update(F); allk.update(O)
    for e in allk.values():
        out += [["show", "value", ["dim", e]], value(e), ["show", "print", e]]
    for e in V.values():
        out += [["show", "scalar", ["length", e]], ["show", "range", e], ["show", "value", ["test", "isNA", e]], ["show", "value", ["test", "isInf", e]],
                ["for", "@a", e, [assign("d3", bin_("+", var("d3"), ["lv", "@a", typ(e)]))]],
                ["block", [assign("d2", I(0)), ["for", "@a", e, [assign("d2", bin_("-", bin_("*", var("d2"), I(2)), ["lv", "@a", typ(e)]))]]]]]
    for x in ("d1", "i1", "b1", "b2", "d2"):
        for op in "+-*": out += [["eachset", x, op, I(2)], ["eachset", x, op, D(3, 2)]]
    for e in F.values():
        out += [["show", "range", e], ["for", "@b", e, [assign("d3", bin_("+", bin_("*", var("d3"), I(2)), ["lv", "@b", typ(e)]))]], ["show", "scalar", ["length", e]]]
    for i in (L(True), var("i2"), var("l2"), coca(I(2), I(1)), I(1)):
        for x in ("d1", "i1", "l1"): out += [["show", "range", sub(var(x), i)]]
        out.append(["for", "@c", sub(var("d1"), i), [assign("d3", bin_("+", bin_("*", var("d3"), I(2)), ["lv", "@c", "d"]))]])
    out += [["for", "@c", sub2(var("d1"), L(True), I(1)), [assign("d3", bin_("+", bin_("*", var("d3"), I(2)), ["lv", "@c", "d"]))]]]
    for c in (var("l1"), bin_("<", var("d1"), var("d2")), rep(var("l1"), I(1)), bin_("==", var("i1"), I(1)), ["test", "isNA", var("d2")]):
        out += [["show", "cond", c], ["if", c, [assign("d3", D(1))], [assign("d3", D(2))]]]
    for k in (D(5, 2), I(3), L(True), L(False), I(-1), D(0, 0), D(1, 0)):
        out += [["show", "scalar", ["test", "isNA", k]], ["show", "scalar", ["test", "isInf", k]], ["show", "scalar", ["length", k]]]
        if k[3] != 0: out.append(["show", "print", k])
    for x in ("d1", "i1", "l1", "b1", "b2", "d2"):
        out += [["show", "scalar", back(x)], assign("d3", back(x)), ["backset", x, I(1)], ["fillv", x, L(True)]]
    out += items() + numbers()[::2]
    for k, e in list(V.items()) + [(k, e) for k, e in F.items() if k != "Rb"]: out.append(["show", "stream", e])
    # values with NaN and infinities
    for e in (D(0, 0), D(1, 0), D(-1, 0)):
        for y in (var("d1"), var("d2")):
            out += [["block", [assign("d2", coca(y, e, D(1))), ["show", "value", ["test", "isNA", var("d2")]]]],
                    ["block", [assign("d2", coca(e, y)), ["show", "value", ["test", "isInf", var("d2")]]]],
                    ["block", [["sassign", "d2", I(1), e], ["show", "value", ["test", "isInf", var("d2")]]]],
                    ["block", [["sassign", "d2", I(1), e], ["show", "value", ["test", "isNA", var("d2")]]]]]
    out += [["show", "value", ["test", "isNA", coca(D(0, 0), D(1), D(1, 0))]], ["show", "value", ["test", "isInf", coca(D(0, 0), D(1), D(-1, 0))]]]
    return out + shuffles() + [["sassign", "d1", I(1), D(9)], assign("i1", matrix(colon(I(1), I(4)), I(2), I(2)))], ranges(d1=[1, 6, -4, 4, 4, 40], i1=[1, 6, -4, 6, 1, 35], l1=[1, 6, 0, 1, 1, 35], b1=[1, 6, -3, 4, 2, 35])


def c20(tier, seed):
    out = []
    src = {}
    src.update(rhs_kinds())
    src.update({"Dh": bin_("*", var("d1"), D(1, 2)), "Dn": D(-7, 4), "D9": D(1, 8), "Dz": D(0), "Im": I(-3), "Rdh": coca(D(-5, 2), D(1, 4), D(0)), "Mix": coca(var("l1"), var("i1"), D(1, 2)),
                "Mi": coca(var("l1"), var("i1")), "Sh": sub(var("d1"), coca(I(1), I(2))), "At": at(var("d1"), I(1)), "Ati": at(var("i1"), I(1)), "Atl": at(var("l1"), I(1)), "Ie": bin_("+", var("i1"), var("l1")),
                "Id": bin_("/", var("i1"), var("i2")), "Ip": bin_("^", var("i1"), I(2)), "Le": bin_("*", var("l1"), var("d1")), "Lie": bin_("-", var("l1"), I(3)), "Lde": bin_("+", var("l1"), D(1, 2))})
    for x in ("d3", "i1", "l1", "b1", "b2", "i2", "l2"):
        for k, e in src.items(): out.append(assign(x, e))
    wr = {"Kd": D(-7, 4), "Ks": D(1, 4), "Kz": D(0), "Ki": I(-3), "Kb": L(True), "Vd": var("d1"), "Vi": var("i1"), "Vl": var("l1"), "R": coca(D(-5, 2), D(1, 4)), "Ri": coca(I(0), I(7)), "Rl": coca(L(True), L(False)), "E": bin_("*", sub(var("d1"), coca(I(1), I(2))), D(1, 2)), "S": sub(var("d1"), coca(I(2), I(1))), "U": un("-", sub(var("d1"), coca(I(2), I(1)))), "B": sub(var("b1"), coca(I(1), I(1)))}
    for x in ("d2", "i1", "l1", "b1", "b2", "i2", "l2"):
        for r in wr.values():
            for i in (L(True), coca(I(2), I(1)), I(1), bin_(">", var(x), I(-100)) if VARS[x][0] != "b" else coca(L(True), L(True))): out.append(["sassign", x, i, r])
            for i, j in ((L(True), L(True)), (I(1), L(True)), (coca(I(2), I(1)), I(1))): out.append(["sassign2", x, i, j, r])
            if scalar(r): out += [["atset", x, I(2), r], ["atset2", x, I(1), I(2), r]]
        for how in ("brace", "eq"):
            if x in ("d3", "i1", "l1"): out += [["init", x, e, how] for e in (var("d1"), var("i2"), var("l2"), coca(D(3, 2), D(-1, 2)), colon(I(0), I(2)), bin_("*", var("d1"), D(1, 2)), bin_("<", var("d1"), D(1)))]
    for op in ["+", "-", "*"] + CMP:
        for a in (var("i1"), var("l1"), var("d1"), var("b2")):
            for b in (var("i2"), var("l2"), var("d2"), var("b1"), I(3), D(1, 2), L(True)):
                if op in ARITH and typ(a) == "b" and typ(b) == "b": continue
                out.append(assign(["d3", "i1", "l1"][len(out) % 3], bin_(op, a, b)))
                if len(out) % 2: out.append(value(bin_(op, a, b)))
    out += numbers() + items(("d1", "i1", "l1", "b1"))
    for x in ("d1", "i1", "l1", "b1"):
        for e in (D(-7, 4), D(1, 4), D(0), I(-3), I(0), L(True)): out += [["fillv", x, e], ["backset", x, e]]
        for e in (var("d1"), var("i1"), var("l1"), var("b1")): out += [["fillv", x, first(e)], ["backset", x, first(e)], ["itemset", x, I(0), first(e)]]
    # the element type which a value itself claims to have
    for e in src.values():
        if not scalar(e): out += [value(e), value(sub(e, I(1))), value(un("-", e)) if typ(e) != "b" else value(rep(e, I(2))), value(coca(e, L(True)))]
    g = Gen(random.Random(seed))
    for _ in range(60 if tier == "quick" else 300):
        t = g.r.choice("dib")
        out.append(value(g.vec(t, 3)))
    for _ in range(60 if tier == "quick" else 300):
        out.append(assign(g.r.choice(["i1", "l1", "i1", "i2", "d1"]), g.vec("d", 3)))
    return out + shuffles(), ranges(i1=[1, 6, -4, 6, 1, 25], d1=[1, 6, -4, 4, 8, 25], i2=[1, 4, -2, 3, 1, 20], l1=[1, 6, 0, 1, 1, 25])


def li(t, x, y): return ["li", t, x, y]
def cmr(t, x, y): return ["cmr", t, x, y]


def c17(tier, seed):
    T, X, Y = var("d1"), var("d2"), var("d3")
    out = [["show", "scalar", li(T, X, Y)], ["show", "scalar", cmr(T, X, Y)]]
    # time points of every kind
    for t in (at(T, I(1)), bin_("+", T, D(1, 4)), bin_("*", T, D(1)), un("-", un("-", T)), sub(T, I(1)), sub(T, L(True)), coca(T), coca(T, D(1)), var("b1"), D(1, 2),
              D(3), D(-1), I(1), I(0), I(2), I(-2), sub(X, I(1)), sub(X, I(2)), sub(X, I(3)), at(X, I(3)), at(X, I(2)), at(X, I(1)), sub(X, ["length", X]), bin_("+", at(X, I(2)), D(1, 8)),
              bin_("-", at(X, I(4)), D(1, 8)), bin_("+", sub(X, I(4)), D(1, 16))):
        out.append(["show", "scalar", cmr(t, X, Y)])
    # nodes and values of every kind
    ys = (bin_("*", Y, D(2)), bin_("+", Y, X), un("-", Y), coca(Y), sub(Y, L(True)), sub(Y, colon(I(1), I(4))), var("b1"), un("sin", Y), rep(Y, I(1)), var("b2"), bin_("-", var("i1"), Y), X)
    xs = (coca(X), var("b2"), coca(X, bin_("+", sub(X, ["length", X]), D(1))), rep(X, I(1)), coca(D(0), D(1), D(5, 2), D(3)))
    for y in ys: out.append(["show", "scalar", cmr(T, X, y)])
    for x in xs:
        out.append(["show", "scalar", cmr(T, x, Y)])
        for y in ys[:6]: out.append(["show", "scalar", cmr(at(T, I(1)), x, y)])
    for x in (X,):
        for y in (Y, X, var("i1")): out.append(["show", "scalar", li(T, x, y)])
    out += [["show", "scalar", li(T, var("i1"), Y)], ["show", "scalar", li(var("i2"), X, Y)], ["show", "scalar", li(var("i2"), var("i1"), Y)]]
    # used in programs
    for e in (cmr(T, X, Y), li(T, X, Y)):
        out += [assign("d1", e), assign("d3", bin_("+", Y, e)), assign("d1", bin_("-", D(1), e)), assign("d3", bin_("*", Y, e)), ["sassign", "d3", I(2), e], assign("i2", e),
                assign("d1", coca(e)), ["block", [assign("d1", at(X, I(2))), assign("d1", e)]], ["block", [["sassign", "d3", I(3), D(5)], assign("d1", e)]],
                ["if", bin_("<", e, D(1)), [assign("d1", e)], [assign("d1", D(0))]]]
    out += [["for", "@v", X, [assign("d1", cmr(["lv", "@v", "d"], X, Y))]], assign("d2", bin_("+", X, D(1))), assign("d2", bin_("*", X, D(1, 2))), assign("d3", un("-", Y)), assign("d1", bin_("+", T, D(1, 4))), assign("d1", bin_("-", T, D(1, 2))),
            assign("d2", bin_("-", X, at(X, I(1)))), assign("d1", at(X, I(1))), assign("d1", sub(X, I(4)))]
    return out, ranges(i1=[1, 6, -4, 6, 1, 0], b1=[1, 8, -3, 4, 4, 0], i2=[1, 1, -2, 5, 1, 0], b2=[1, 8, -3, 4, 4, 0])


def c17_custom(tier):
    """nodes, values and evaluation points of the small-scope exploration"""
    V = lambda x: ("d", [float(a) for a in x])
    T = [[0, 1, 2, 3], [1, 2.5, 3, 5, 5.5], [-2, -1, 0.5, 2], [0.25, 1, 4, 4.5, 6, 8], [0, 1, 2], [1, 2], [3], [-3, -2.5, -1, -0.5, 0, 1.5, 3]]
    Y = [[1, 3, -2, 4], [2, 0.5, -1, 3, 7], [5, 5, 1, -4.5, 2, 0], [1, 2, 3], [4, 2], [1.5], [1, -1, 2, -2, 3, -3, 4]]
    P = sorted({x for t in T for x in t} | {(a + b) / 2 for t in T for a, b in zip(t, t[1:])} | {-4, 9, 2.9, 0.1, 5.25, 7.5, 7.99, -2.75})
    if tier == "quick":
        T = [T[i] for i in (0, 1, 2, 4, 7)]
        Y = [Y[i] for i in (0, 1, 3, 6)]
        P = [-4, -2, -1, -0.75, 0, 0.5, 1, 1.75, 2, 2.75, 3, 5.25, 5.5, 9]
    return {"d1": [V([p]) for p in P] + [V([1, 2])], "d2": [V(t) for t in T], "d3": [V(y) for y in Y]}


def unsigned(t):
    """does the value have elements of type std::size_t?"""
    h = t[0]
    if h == "num": return len(t) > 4
    if h == "length": return True
    if h in ("sub", "sub2", "rep", "matrix", "at", "at2"): return unsigned(t[1])
    if h == "colon": return typ(t) == "i" and any(unsigned(x) for x in t[1:])
    return False


def supported(t):
    """False for programs which the library does not accept at compile time,
    and for those which mix signed and unsigned whole numbers"""
    if not isinstance(t, list) or not t: return True
    h = t[0]
    if h == "bin" and "d" not in (typ(t[2]), typ(t[3])) and any(unsigned(x) and "size" in str(x) for x in t[2:4]): return False
    if h == "un" and unsigned(t[2]): return False
    if h == "coca" and typ(t) != "d" and any("size" in str(x) and unsigned(x) for x in t[1]): return False
    if h == "coca":
        if any(a[0] in ("id", "ctor") for a in t[1]): return False
        return all(supported(a) for a in t[1])
    if h == "colon" and any(a[0] in ("sub", "sub2") for a in t[1:]): return False
    if h == "alloc" and t[2][0] in ("sub", "sub2", "un"): return False
    if h == "cmr" and t[2][0] not in ("var", "coca", "rep"): return False
    if h == "un" and t[1] != "-" and scalar(t[2]) and typ(t[2]) != "d": return False
    if h in ("sub", "sub2") and t[1][0] in ("id", "dim", "ctor"): return False
    if h == "test" and t[2][0] not in ("var", "num"): return False
    if h == "length" and t[1][0] not in ("var", "num", "bin"): return False
    if h == "init":
        x, e = t[1], t[2]
        if e[0] in ("un", "sub", "sub2", "num", "at", "test"): return False
        if e[0] == "var" and VARS[e[1]] != VARS[x]: return False
        if e[0] in ("id", "ctor") and typ(e) != VARS[x][0]: return False
    if h == "let" and (t[5:] or ["local"])[0] != "later":
        e = t[3]
        if e[0] in ("un", "sub", "sub2", "num", "at", "test"): return False
        if e[0] == "var" and (e[1] in ("b1", "b2") or typ(e) != t[2]): return False
        if e[0] in ("id", "ctor") and typ(e) != t[2]: return False
    return all(supported(x) for x in t if isinstance(x, list))


def sized(t):
    """the tree with std::size_t for the whole numbers where the library takes counts and positions"""
    if not isinstance(t, list) or not t: return t
    def z(x):
        if x[0] == "num" and x[1] == "i" and x[2] >= 0 and len(x) == 4: return x + ["size"]
        if x[0] == "length" and len(x) == 2 and x[1][0] == "var": return x + ["size"]
        return x                  # no vectors of std::size_t as positions
    h = t[0]
    if h in ("sub", "rep", "at"): return [h, sized(t[1]), z(t[2])] + t[3:]
    if h == "alloc": return [h, t[1], z(t[2])]
    if h in ("matrix", "at2"): return [h, sized(t[1]), z(t[2]), z(t[3])]
    if h == "colon": return [h, z(t[1]), z(t[2])] if all(x[0] == "length" or x[0] == "num" and x[2] >= 0 for x in t[1:]) else t
    if h == "assign": return [h, t[1], z(t[2]) if t[2][0] in ("num", "length") else sized(t[2])]
    if h == "sassign": return [h, t[1], z(t[2]), z(t[3])] + t[4:]
    if h == "sassign2": return t[:4] + [z(t[4])] + t[5:]
    if h == "atset": return [h, t[1], z(t[2]), z(t[3])]
    if h == "atset2": return [h, t[1], z(t[2]), z(t[3]), z(t[4])]
    if h == "bin" and t[1] in "+-*/" and "d" in (typ(t[2]), typ(t[3])): return [h, t[1], z(t[2]) if typ(t[3]) == "d" and not scalar(t[3]) else sized(t[2]), z(t[3]) if typ(t[2]) == "d" and not scalar(t[2]) else sized(t[3])]
    if h in ("show", "bin", "un", "coca", "sub2", "for", "if", "block"): return [sized(x) if isinstance(x, list) and x and isinstance(x[0], str) else [sized(y) for y in x] if isinstance(x, list) else x for x in t]
    return t


def c21(tier, seed):
    from . import progs
    return progs.library(tier, seed), ranges(i2=[1, 4, 1, 4, 1, 0])


LIBS = {"C21": c21, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C17": c17, "C18": c18, "C19": c19, "C20": c20}


def library(pid, tier, seed):
    out, rg = LIBS[pid](tier, seed)
    seen, lib = set(), []
    rng = random.Random(seed + 17)
    for s in out:
        if s is None or not supported(s): continue
        k = stmt(s)
        if k in seen: continue
        seen.add(k)
        lib.append(s)
        if pid in SIZED:
            s = sized(s)
            if supported(s) and stmt(s) not in seen and rng.random() < SIZED[pid]:
                seen.add(stmt(s))
                lib.append(s)
    return lib, rg


# properties about counts and positions: how often to use std::size_t, too
SIZED = {"C04": .3, "C05": .3, "C06": .1, "C07": .3, "C08": .2, "C10": .2, "C11": .4, "C12": .4, "C01": .05, "C03": .05, "C20": .1, "C13": .1}
