"""Whole programs: algorithms written with loops, branches, local variables
and functions, and random programs of that kind."""
import json, random
from .lang import *

d1, d2, d3, i1, i2, l1, l2 = (var(x) for x in ("d1", "d2", "d3", "i1", "i2", "l1", "l2"))


def A(x, e): return ["assign", x, e]
def at_(x, k): return at(var(x) if isinstance(x, str) else x, k)
def put(x, k, e): return ["atset", x, k, e]
def put2(x, i, j, e): return ["atset2", x, i, j, e]
def for_(v, seq, *body): return ["for", v, seq, list(body)]
def if_(c, a, b=()): return ["if", c, list(a), list(b)]
def while_(c, body, n=12): return ["while", c, list(body), n]
def do(*ss): return ["block", list(ss)]
def back_(v): return ["back", v]
def let(x, e, body, how="local"): return ["let", x, x[1], e, list(body), how]
def ln(x): return ["length", var(x)]
def lv(x, t="i"): return ["lv", x, t]
def upto(x): return colon(I(1), ln(x))
def add(a, b): return bin_("+", a, b)
def sb(a, b): return bin_("-", a, b)
def mul(a, b): return bin_("*", a, b)
def lt(a, b): return bin_("<", a, b)
def gt(a, b): return bin_(">", a, b)


a, b, c = lv("@a"), lv("@b"), lv("@c")
x, y, z = lv("@x", "d"), lv("@y", "d"), lv("@z", "d")


def algorithms():
    """(goal, program); the goal is checked on the specification"""
    P = []
    def p(goal, *ss): P.append((goal, do(*ss) if len(ss) > 1 else ss[0]))
    # sums and running values
    p("cumsum", A("d2", d1), for_("@a", colon(I(2), ln("d1")), put("d2", a, add(at_("d2", a), at_("d2", sb(a, I(1)))))))
    p("sum", A("d2", D(0)), for_("@x", d1, A("d2", add(d2, x))))
    p("sum", let("@ds", coca(D(0)), [for_("@a", upto("d1"), put("@ds", I(1), add(at_("@ds", I(1)), at_("d1", a)))), A("d2", var("@ds"))]))
    p("sum", let("@dv", d1, [let("@ds", coca(D(0)), [for_("@x", var("@dv"), A("@ds", add(var("@ds"), x))), A("d2", var("@ds"))])], "fun"))
    p("dot", A("d3", D(0)), for_("@a", upto("d1"), A("d3", add(d3, mul(at_("d1", a), at_("d2", a))))))
    p("", A("d2", D(1)), for_("@x", d1, A("d2", mul(d2, x))))
    p("max", A("d2", at_("d1", I(1))), for_("@x", d1, if_(gt(x, at_("d2", I(1))), [A("d2", x)])))
    p("", A("i1", I(0)), for_("@x", d1, if_(gt(x, D(0)), [A("i1", add(i1, I(1)))], [A("i1", sb(i1, I(1)))])))
    # sorting
    sortBody = [for_("@a", upto("d1"), for_("@b", colon(I(1), sb(ln("d1"), I(1))), if_(gt(at_("d1", b), at_("d1", add(b, I(1)))), [
        A("d2", at_("d1", b)), put("d1", b, at_("d1", add(b, I(1)))), put("d1", add(b, I(1)), at_("d2", I(1)))])))]
    p("sort", if_(gt(ln("d1"), I(1)), sortBody))
    p("sort", if_(gt(ln("d1"), I(1)), [for_("@a", upto("d1"), for_("@b", upto("d1"), if_(lt(at_("d1", a), at_("d1", b)), [
        ["sassign", "d1", coca(a, b), sub(d1, coca(b, a))]])))]))
    # insertion sort with while loops; i1 is the position
    p("sort", for_("@a", upto("d1"), A("i1", a), while_(gt(at_("i1", I(1)), I(1)), [
        if_(lt(at_("d1", at_("i1", I(1))), at_("d1", sb(at_("i1", I(1)), I(1)))), [
            let("@dk", d1, [put("d1", at_("i1", I(1)), at_("@dk", sb(at_("i1", I(1)), I(1)))),
                            put("d1", sb(at_("i1", I(1)), I(1)), at_("@dk", at_("i1", I(1))))])]), A("i1", sb(i1, I(1)))])))
    p("sort", let("@dv", d1, [for_("@a", upto("d1"), for_("@b", upto("d1"), if_(lt(at_("@dv", a), at_("@dv", b)), [
        ["sassign", "@dv", coca(a, b), sub(var("@dv"), coca(b, a))]]))), A("d1", var("@dv"))], "fun"))
    # building and taking apart
    p("reverse", A("d2", sub(d1, colon(ln("d1"), I(1)))))
    p("reverse", A("d2", d1), for_("@a", upto("d1"), put("d2", a, at_("d1", sb(add(ln("d1"), I(1)), a)))))
    p("reverse", A("d2", at_("d1", I(1))), for_("@a", colon(I(2), ln("d1")), A("d2", coca(at_("d1", a), d2))))
    p("", A("d3", D(0)), for_("@x", d1, if_(gt(x, D(0)), [A("d3", coca(d3, x))])))
    p("", A("d2", sub(d1, gt(d1, D(0)))), for_("@x", d2, A("d3", add(d3, x))))
    p("", A("d3", rep(D(0), ln("d1"))), for_("@a", upto("d1"), put("d3", a, mul(at_("d1", a), D(2)))))
    p("", for_("@a", colon(I(1), I(4)), A("d1", coca(d1, at_("d1", I(1)))), A("d1", sub(d1, colon(I(2), ln("d1"))))))
    p("", A("d2", rep(D(1), I(6))), for_("@a", colon(I(3), I(6)), put("d2", a, add(at_("d2", sb(a, I(1))), at_("d2", sb(a, I(2)))))))
    p("", A("l1", rep(L(True), I(12))), for_("@a", colon(I(2), I(6)), if_(at_("l1", a), [A("i1", mul(a, coca(I(2)))),
        while_(lt(at_("i1", I(1)), I(13)), [put("l1", at_("i1", I(1)), L(False)), A("i1", add(i1, a))])])), A("i1", sub(colon(I(1), I(12)), l1)))
    # numbers
    p("gcd", A("i1", coca(at_("i2", I(1)))), A("d3", I(12)), A("d2", i1), while_(bin_("!=", d2, d3), [if_(gt(d2, d3), [A("d2", sb(d2, d3))], [A("d3", sb(d3, d2))])], 30))
    p("", A("i1", coca(I(6))), A("d2", D(0)), while_(gt(i1, I(1)), [A("i2", bin_("/", i1, I(2))), if_(bin_("==", mul(i2, I(2)), i1), [A("i1", i2)], [A("i1", add(mul(i1, I(3)), I(1)))]), A("d2", add(d2, D(1)))], 12))
    p("", A("d2", D(2)), for_("@a", colon(I(1), I(3)), A("d2", mul(add(d2, bin_("/", D(2), d2)), D(1, 2)))))
    p("", A("d2", D(0)), for_("@x", d1, A("d2", add(mul(d2, D(1, 2)), x))))
    p("", A("d2", D(1)), while_(lt(d2, D(100)), [A("d2", mul(d2, D(2))), A("i1", add(i1, I(1)))], 9))
    p("", A("d2", D(1)), while_(gt(d2, D(0)), [A("d2", add(d2, D(1)))], 5))          # does not end
    # bisection for a root of x^2 = 2: d2 holds the bracket
    p("", A("d2", coca(D(1), D(2))), for_("@a", colon(I(1), I(5)), A("d3", mul(add(at_("d2", I(1)), sub(d2, I(2))), D(1, 2))),
        if_(lt(mul(d3, d3), D(2)), [put("d2", I(1), at_("d3", I(1)))], [put("d2", I(2), at_("d3", I(1)))])))
    # matrices
    p("transpose", A("d1", matrix(colon(D(1), D(6)), I(2), I(3))), A("d2", matrix(rep(D(0), I(6)), I(3), I(2))),
      for_("@a", colon(I(1), I(2)), for_("@b", colon(I(1), I(3)), put2("d2", b, a, at2(d1, a, b)))))
    p("matmul", A("d1", matrix(colon(D(1), D(6)), I(2), I(3))), A("d2", matrix(coca(D(1), D(-1), D(2), D(3), D(0), D(1, 2)), I(3), I(2))), A("d3", matrix(D(0), I(2), I(2))),
      for_("@a", colon(I(1), I(2)), for_("@b", colon(I(1), I(2)), for_("@c", colon(I(1), I(3)),
           put2("d3", a, b, add(at2(d3, a, b), mul(at2(d1, a, c), at2(d2, c, b))))))))
    p("", A("d1", matrix(colon(D(1), D(6)), I(2), I(3))), A("d2", D(0)), for_("@a", colon(I(1), I(2)), A("d3", sub2(d1, a, L(True))), for_("@x", d3, A("d2", add(d2, x)))))
    p("", A("d1", matrix(colon(D(1), D(9)), I(3), I(3))), for_("@a", colon(I(1), I(3)), ["sassign2", "d1", a, L(True), mul(sub2(d1, a, L(True)), D(2))], put2("d1", a, a, D(0))))
    p("", A("d1", matrix(colon(D(1), D(6)), I(2), I(3))), for_("@x", d1, A("d2", add(d2, x))), A("d3", mul(d1, d1)))
    p("", A("d1", matrix(d1, ln("d1"), I(1))), for_("@a", colon(I(1), sub(["dim", d1], I(1))), put2("d1", a, I(1), mul(at2(d1, a, I(1)), at2(d1, I(1), I(1))))))
    # views and functions
    b1 = var("b1")
    p("", for_("@a", upto("b1"), put("b1", a, add(at_("b1", a), D(1)))), A("d1", b1))
    p("", for_("@x", d1, A("b1", add(b1, x))))
    p("", A("b1", mul(b1, D(2))), let("@dv", d1, [A("@dv", add(var("@dv"), b1)), ["sassign", "b1", I(1), at_("@dv", I(1))], A("d2", var("@dv"))]))
    p("", let("@dp", d1, [A("@dp", add(var("@dp"), D(1))), ["sassign", "@dp", I(1), D(0)], A("d2", var("@dp"))], "fun"))
    p("", let("@dp", d1, [let("@dq", d2, [["swap", "@dp", "@dq"], A("d1", var("@dp")), A("d2", var("@dq"))], "fun")], "fun"))
    p("", let("@dp", d1, [["swap", "@dp", "d2"], A("d3", add(var("@dp"), d2))]))
    p("", let("@ip", coca(I(0)), [for_("@x", d1, if_(bin_(">=", x, D(1)), [A("@ip", coca(var("@ip"), I(1)))], [A("@ip", coca(var("@ip"), I(-1)))])), A("i1", var("@ip"))]))
    p("", let("@bm", gt(d1, D(0)), [["sassign", "d1", var("@bm"), D(0)], A("l1", var("@bm")), A("d2", add(d1, var("@bm")))]))
    p("", let("@dm", matrix(colon(D(1), D(4)), I(2), I(2)), [["sassign2", "@dm", I(1), L(True), D(9)], A("d1", var("@dm")), A("d2", sub2(var("@dm"), L(True), I(1)))], "fun"))
    p("", for_("@x", d1, let("@dp", coca(x, x), [A("@dp", mul(var("@dp"), x)), A("d3", add(d3, var("@dp")))])))
    p("", for_("@a", colon(I(1), I(3)), let("@dp", d1, [A("@dp", coca(var("@dp"), D(1))), A("d1", sub(var("@dp"), colon(I(2), ln("@dp"))))], "fun")))
    # Euler steps, data in and out of loops
    p("", A("d3", coca(D(1))), for_("@a", colon(I(1), I(4)), A("d3", coca(d3, add(at_("d3", a), mul(at_("d3", a), D(1, 4)))))))
    p("", A("d1", coca(D(8), D(4))), A("d2", d1), for_("@a", colon(I(1), I(3)), A("d3", coca(sb(mul(sub(d1, I(1)), D(1, 2)), sub(d1, I(2))), add(sub(d1, I(1)), D(-1)))), A("d1", d3)))
    # plain numbers and plain indexing
    def idx(x, k): return item(x, k)
    z0 = lambda x: colon(I(0), sb(ln(x), I(1)))
    p("sum", ["letnum", "@s", "d", D(0), [A("d2", D(0)), for_("@a", z0("d1"), A("d2", add(d2, idx("d1", a))))]])
    p("reverse", A("d2", d1), for_("@a", z0("d1"), ["itemset", "d2", a, idx("d1", sb(sb(ln("d1"), I(1)), a))]))
    p("cumsum", A("d2", d1),
      for_("@a", colon(I(2), ln("d1")), ["itemset", "d2", sb(a, I(1)), add(idx("d2", sb(a, I(1))), idx("d2", sb(a, I(2))))]))
    p("sort", if_(gt(ln("d1"), I(1)), [for_("@a", z0("d1"), for_("@b", z0("d1"), if_(lt(idx("d1", a), idx("d1", b)), [
        ["letnum", "@t", "d", idx("d1", a), [["itemset", "d1", a, idx("d1", b)], ["itemset", "d1", b, lv("@t", "d")]]]])))]))
    p("max", ["letnum", "@m", "d", d1, [A("d2", lv("@m", "d")), for_("@x", d1, if_(gt(x, idx("d2", I(0))), [["itemset", "d2", I(0), x]]))]])
    p("", ["letnum", "@m", "d", d1, [["letnum", "@k", "i", ln("d1"), [A("d2", mul(rep(lv("@m", "d"), lv("@k")), D(2)))]]]])
    p("", ["letnum", "@m", "i", mul(d1, D(3)), [A("i1", lv("@m")), for_("@a", colon(I(1), lv("@m")), A("d2", add(d2, a)))]])
    p("", ["fillv", "d1", D(2)], ["backset", "d1", D(5)], A("d2", mul(d1, ["back", d1])))
    p("", let("@dp", ctor("d", "fill", 2, 3, D(1, 2)), [["itemset", "@dp", I(4), D(3)], A("d1", var("@dp")), A("d2", sub2(var("@dp"), L(True), I(3)))]))
    # rejected inside
    p("", A("d2", d1), for_("@a", colon(I(1), I(9)), put("d2", a, D(0))))
    p("", for_("@a", i1, ["sassign", "d1", a, D(5)], A("d2", add(d2, D(1)))))
    p("", let("@dp", d1, [put("@dp", I(3), D(1)), ["swap", "@dp", "d1"]]))
    p("", while_(gt(d1, D(0)), [A("d1", sub(d1, coca(I(2), I(3), I(4)))), A("d2", d1)]))
    return P


# ------------------------------------------------------------ random programs

class Programs:
    def __init__(self, rng):
        from .genlib import supported
        self.r, self.ok, self.n = rng, supported, 0

    def fresh(self, t):
        self.n += 1
        return f"@{t}{self.n}"

    def var(self, t):
        own = [x for x in self.locals if x[1] == t]
        if own and self.r.random() < .5: return var(self.r.choice(own))
        c = {"d": ["d1", "d2", "d3", "d1", "b1"], "i": ["i1", "i2"], "b": ["l1", "l2"]}[t]
        return var(self.r.choice(c))

    def num(self, t):
        own = [v for v in self.lvs if v[2] == t]
        if own and self.r.random() < .6: return self.r.choice(own)
        if t != "b" and self.r.random() < .12: return self.r.choice([first(self.var(t)), item(self.var(t), I(self.r.choice([0, 0, 1]))), back_(self.var(t))])
        if t == "d": return D(*self.r.choice([(1, 1), (2, 1), (-1, 1), (1, 2), (3, 2), (-1, 2), (0, 1)]))
        return I(self.r.choice([1, 2, 3, -1, 0]))

    def index(self):
        r = self.r
        own = [v for v in self.lvs if v[2] == "i"]
        if own and r.random() < .5: return r.choice(own)
        return r.choice([I(1), I(2), L(True), var("i2"), var("l2"), coca(I(2), I(1)), coca(I(1), I(1)), bin_(">", self.var("d"), D(0)), colon(I(1), I(2))])

    def vec(self, t, depth):
        r = self.r
        if depth <= 0: return self.var(t)
        k = r.random()
        if t == "b":
            return bin_(r.choice(["<", ">", "<=", ">=", "==", "!="]), self.vec(r.choice("ddi"), depth - 1), self.num("d") if r.random() < .5 else self.vec("d", depth - 1))
        if k < .22: return bin_(r.choice("+-"), self.vec(t, depth - 1), self.vec(r.choice([t, "i"]), depth - 1))
        if k < .34: return bin_(r.choice("+-"), self.vec(t, depth - 1), self.num(t))
        if k < .40: return bin_("-", self.num(t), self.vec(t, depth - 1))
        if k < .50: return bin_("*", self.vec(t, depth - 1), self.r.choice([D(1, 2), D(-1), D(2)]) if t == "d" else I(r.choice([-1, 2])))
        if k < .54 and not self.loops: return bin_("*", self.vec(t, depth - 1), self.vec(t, depth - 1))
        if k < .70: return sub(self.vec(t, depth - 1), self.index())
        if k < .78: return un("-", self.vec(t, depth - 1))
        if k < .86: return coca(*[r.choice([sub(self.var(t), I(r.choice([1, 2]))), self.num(t)]) for _ in range(r.choice([1, 2, 3]))][:-1], sub(self.var(t), I(1)))
        if k < .92 and not self.loops: return coca(self.var(t), self.var(t))
        return self.var(t)

    def expr(self, t, depth):
        while True:
            e = self.vec(t, depth)
            if self.ok(e): return e

    def cond(self):
        r = self.r
        if r.random() < .3: return bin_(r.choice(["<", ">", "<=", ">="]), at(self.var("d") if r.random() < .7 else var("d1"), I(1)), self.num("d"))
        if r.random() < .2: return self.var("b")
        return bin_(r.choice(["<", ">", "<=", ">="]), self.expr("d", 1), D(r.choice([0, 1, 2, -1])))

    def target(self):
        own = [x for x in self.locals if x not in self.fixed]
        if own and self.r.random() < .45: return self.r.choice(own)
        c = [x for x in ("d1", "d2", "d3", "i1", "l1", "i2", "b1") if x not in self.fixed]
        return self.r.choice(c)

    def stmt(self, depth):
        r = self.r
        k = r.random()
        if depth > 0:
            if k < .16:
                v = self.fresh("v")
                how = r.random()
                if how < .35: seq, t = colon(I(1), I(r.choice([2, 3]))), "i"
                elif how < .55: seq, t = colon(I(1), ["length", var("d1")]), "i"
                else:
                    t = r.choice("dddi")
                    own = self.var(t)
                    seq = own if r.random() < .6 else coca(own) if r.random() < .5 else sub(own, self.index())
                keep = reads_all(seq)
                self.lvs.append(["lv", v, t]); self.loops += 1; self.fixed += keep
                body = self.block(depth - 1)
                self.lvs.pop(); self.loops -= 1
                for _ in keep: self.fixed.pop()
                return ["for", v, seq, body]
            if k < .32: return ["if", self.cond(), self.block(depth - 1), self.block(depth - 1) if r.random() < .6 else []]
            if k < .42:
                self.loops += 1
                body = self.block(depth - 1)
                self.loops -= 1
                return ["while", self.cond(), body, r.choice([2, 3, 4])]
            if k < .46:
                t = r.choice("ddi")
                e = self.expr(t, r.choice([0, 1]))
                v = self.fresh("n")
                self.lvs.append(["lv", v, t])
                body = self.block(depth - 1)
                self.lvs.pop()
                return ["letnum", v, t, e, body]
            if k < .58:
                t = r.choice("dddib")
                e = self.expr(t, r.choice([0, 1]))
                x_ = self.fresh(t)
                how = r.choice(["local", "fun", "later"])
                self.locals.append(x_)
                body = self.block(depth - 1)
                if r.random() < .6: body.append(["assign", r.choice([y for y in ("d1", "d2", "d3") if y not in self.fixed] or ["d3"]), var(x_)])
                self.locals.remove(x_)
                return ["let", x_, t, e, body, how]
        k = r.random()
        x_ = self.target()
        t = x_[1] if x_[0] == "@" else VARS[x_][0]
        if x_ in ("b1",) and k < .5: return ["sassign", x_, self.index(), self.num("d")]
        if k < .5: return ["assign", x_, self.expr(t if r.random() < .8 else r.choice("di"), 2)]
        if k < .72:
            i = self.index()
            return ["sassign", x_, i, r.choice([self.num("d"), sub(self.expr("d", 1), i), bin_("+", sub(var(x_), i), I(1))])]
        if k < .75: return ["itemset", x_, r.choice([I(0), I(1)] + [bin_("-", v, I(1)) for v in self.lvs if v[2] == "i"]), self.num("d")]
        if k < .77: return ["backset", x_, self.num("d")]
        if k < .79: return ["fillv", x_, self.num("d")]
        if k < .84: return ["atset", x_, r.choice([I(1), I(2)] + [v for v in self.lvs if v[2] == "i"]), self.num("d")]
        if k < .92:
            same = [y for y in ["d1", "d2", "d3"] + self.locals if (y[1] if y[0] == "@" else "d") == "d" and y not in self.fixed]
            if t == "d" and len(same) > 1 and x_ != "b1":
                p_, q_ = r.sample(same, 2)
                return ["swap", p_, q_]
        if t != "b": return ["eachset", x_, r.choice("+-"), I(1)] if r.random() < .5 else ["assign", x_, self.num(t)]
        return ["assign", x_, self.expr("b", 1)]

    def block(self, depth):
        out = []
        while len(out) < 1 or (len(out) < 4 and self.r.random() < .55):
            s = self.stmt(depth)
            if self.ok(s): out.append(s)
        return out

    def program(self, depth):
        self.locals, self.lvs, self.loops, self.fixed, self.n = [], [], 0, [], 0
        return ["block", self.block(depth) + self.block(depth - 1)]


def reads_all(t):
    """every variable (locals too) occurring in a tree"""
    out = []
    if isinstance(t, list):
        if len(t) == 2 and t[0] == "var": out.append(t[1])
        for u in t: out += reads_all(u)
    return out


def library(tier, seed):
    out = [s for _, s in algorithms()]
    g = Programs(random.Random(seed * 31 + 7))
    for i in range(260 if tier == "quick" else 1200): out.append(g.program(2 if i % 3 else 3))
    return out


def goals():
    return {json.dumps(strip(s)): g for g, s in algorithms() if g}
