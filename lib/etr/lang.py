"""The statement language shared by the specification and the C++ driver.

A syntax tree is a nested list (exactly what EtrSem.tla interprets).  This
module knows the static facts of a tree (element type, how C++ holds it) and
how to write it as C++ against the library's public interface.
"""
import math

VARS = {  # name: (element type, storage)
    "d1": ("d", "vec"), "d2": ("d", "vec"), "d3": ("d", "vec"),
    "i1": ("i", "vec"), "i2": ("i", "vec"),
    "l1": ("b", "vec"), "l2": ("b", "vec"),
    "b1": ("d", "borrow"), "b2": ("d", "borrow"),
}
CTYPE = {"d": "double", "i": "int", "b": "bool"}
MATH = {"sin": "sinus", "cos": "cosinus", "tan": "tangens", "asin": "asinus",
        "acos": "acosinus", "atan": "atangens", "sinh": "sinush",
        "cosh": "cosinush", "tanh": "tangensh", "exp": "exp", "log": "ln",
        "sqrt": "sqroot"}
ARITH = ["+", "-", "*", "/", "^"]
CMP = ["==", "!=", "<", "<=", ">", ">="]


def vtype(x):
    """element type of a variable; locals are called @t..., t the type"""
    return x[1] if x[0] == "@" else VARS[x][0]


def name(x): return x.replace("@", "lv")


def var(x): return ["var", x]
def D(n, d=1):
    g = math.gcd(n, d) if d else 1
    return ["num", "d", n // g, d // g]
def I(n): return ["num", "i", n, 1]
def L(b): return ["num", "b", 1 if b else 0, 1]
NA_, INF_ = ["num", "d", 0, 0], ["num", "d", 1, 0]
# positions which fit no int; the specification sees one it can represent
def far(text, sign=1): return ["num", "i" if "size_t" in text else "d", sign * 2000000011, 1, text]
def bin_(op, a, b): return ["bin", op, a, b]
def un(f, a): return ["un", f, a]
def sub(x, i): return ["sub", x, i]
def sub2(x, i, j): return ["sub2", x, i, j]
def coca(*a): return ["coca", list(a)]
def colon(a, b): return ["colon", a, b]
def rep(x, n): return ["rep", x, n]
def matrix(x, r, c): return ["matrix", x, r, c]
def alloc(t, n): return ["alloc", t, n]
def at(x, i): return ["at", x, i]
def at2(x, i, j): return ["at2", x, i, j]


def item(x, k): return ["item", var(x) if isinstance(x, str) else x, k]
def first(e): return ["first", e]
def back(x): return ["back", var(x)]
def ctor(t, kind, *a): return ["ctor", t, kind, *a]


def common(a, b):
    return "d" if "d" in (a, b) else "i" if "i" in (a, b) else "b"


def typ(e):
    """static element type"""
    h = e[0]
    if h == "var": return vtype(e[1])
    if h == "lv": return e[2]
    if h == "num": return e[1]
    if h == "bin":
        if e[1] in CMP: return "b"
        if e[1] in "/^": return "d"
        return common(typ(e[2]), typ(e[3]))
    if h == "un": return typ(e[2]) if e[1] == "-" else "d"
    if h in ("sub", "sub2", "rep", "matrix", "at", "at2", "item", "first", "back"): return typ(e[1])
    if h == "ctor": return e[1]
    if h == "coca":
        t = "b"
        for a in e[1]: t = common(t, typ(a))
        return t
    if h == "colon": return common(typ(e[1]), typ(e[2]))
    if h == "alloc": return e[1]
    if h == "test": return "b"
    if h in ("dim", "length"): return "i"
    if h in ("li", "cmr"): return "d"
    if h == "id": return typ(e[2])
    raise ValueError(h)


def scalar(e):
    h = e[0]
    if h in ("num", "lv", "at", "at2", "length", "li", "cmr", "item", "first", "back"): return True
    if h == "bin": return scalar(e[2]) and scalar(e[3])
    if h == "un": return scalar(e[2])
    if h == "test": return scalar(e[2])
    return False


def num(e):
    t, n, d = e[1:4]
    if len(e) > 4: return e[4] if e[4] != "size" else f"std::size_t{{{n}}}"
    if t == "b": return "true" if n else "false"
    if t == "i": return str(n) if n >= 0 else f"({n})"
    if d == 0: return {0: "NA", 1: "Inf", -1: "(-Inf)"}[n]
    v = repr(n / d)
    return v if n >= 0 else f"({v})"


def cxx(e):
    h = e[0]
    if h == "var": return name(e[1])
    if h == "lv": return e[1].replace("@", "lv")
    if h == "num": return num(e)
    if h == "bin": return f"({cxx(e[2])} {e[1]} {cxx(e[3])})"
    if h == "un":
        return f"(-{cxx(e[2])})" if e[1] == "-" else f"{MATH[e[1]]}({cxx(e[2])})"
    if h == "sub":
        if e[1][0] == "var" and len(e) > 3:      # call syntax
            return f"{name(e[1][1])}({cxx(e[2])})"
        return f"subset({cxx(e[1])}, {cxx(e[2])})"
    if h == "sub2":
        if e[1][0] == "var" and len(e) > 4:
            return f"{name(e[1][1])}({cxx(e[2])}, {cxx(e[3])})"
        return f"subset({cxx(e[1])}, {cxx(e[2])}, {cxx(e[3])})"
    if h == "coca": return "coca(" + ", ".join(cxx(a) for a in e[1]) + ")"
    if h == "colon": return f"colon({cxx(e[1])}, {cxx(e[2])})"
    if h == "rep": return f"rep({cxx(e[1])}, {cxx(e[2])})"
    if h == "matrix":
        a = [("MV(%s)" if x[0] == "var" else "%s") % cxx(x) for x in e[1:4]]
        return f"matrix({', '.join(a)})"
    if h == "alloc":
        f = {"d": "vector_numeric", "i": "vector_integer", "b": "vector_logical"}[e[1]]
        return f"{f}({cxx(e[2])})"
    if h == "at": return f"at({cxx(e[1])}, {cxx(e[2])})"
    if h == "at2": return f"at({cxx(e[1])}, {cxx(e[2])}, {cxx(e[3])})"
    if h == "test": return f"{e[1]}({cxx(e[2])})"
    if h == "dim": return f"dim({cxx(e[1])})"
    if h == "length": return f"{cxx(e[1])}.size()" if len(e) > 2 else f"length({cxx(e[1])})"
    if h == "li": return f"li({cxx(e[1])}, {cxx(e[2])}, {cxx(e[3])})"
    if h == "cmr": return f"cmr({cxx(e[1])}, {cxx(e[2])}, {cxx(e[3])})"
    if h == "id": return f"{e[1]}({cxx(e[2])})"
    if h == "item": return f"{cxx(e[1])}[{cxx(e[2])}]"
    if h == "first": return f"static_cast<{CTYPE[typ(e)]}>({cxx(e[1])})"
    if h == "back": return f"{cxx(e[1])}.back()"
    if h == "ctor":
        t, kind, a = CTYPE[e[1]], e[2], e[3:]
        if kind == "mat": return f"Vec<{t}>({a[0]}, {a[1]})"
        if kind == "fill": return f"Vec<{t}>({a[0]}, {a[1]}, {num(a[2])})"
        if kind == "si": return f"Vec<{t}>(SI{{{a[0]}}})"
        if kind == "one": return f"Vec<{t}>({num(a[0])})"
        if kind == "arr": return f"Vec<{t}>(cells<double>({{{', '.join(map(num, a[1]))}}}), {a[0]})"
        if kind == "arr2": return f"Vec<{t}>(cells<double>({{{', '.join(map(num, a[2]))}}}), {a[0]}, {a[1]})"
        if kind == "mem": return f"Vec<{t}>(e.cell{a[0]}(), {a[1]})"
        if kind == "mem2": return f"Vec<{t}>(e.cell{a[0]}(), {a[1]}, {a[2]})"
    raise ValueError(h)


def stmt(s):
    h = s[0]
    if h == "assign": return f"{name(s[1])} = {cxx(s[2])};"
    if h == "init":      # a new variable initialised from the value
        t = CTYPE[VARS[s[1]][0]]
        how = s[3]
        x, v = s[1], cxx(s[2])
        if how == "brace": return f"reinit(e.p_{x}, [&]{{ return new Vec<{t}>({v}); }});"
        if how == "eq": return (f"reinit(e.p_{x}, [&]{{ Vec<{t}> fresh = {v}; "
                                f"return new Vec<{t}>(fresh); }});")
        if how == "heap": return (f"reinit(e.p_{x}, [&]{{ std::vector<Vec<{t}>> box; "
                                  f"Vec<{t}> first({v}); box.push_back(first); box.push_back(box[0]); box.push_back(box[1]); "
                                  f"return new Vec<{t}>(box[2]); }});")
        if how == "ret": return (f"reinit(e.p_{x}, [&]{{ auto f = [&](Vec<{t}> p) {{ return p; }}; "
                                 f"return new Vec<{t}>(f({v})); }});")
        if how == "move": return (f"reinit(e.p_{x}, [&]{{ Vec<{t}> a({v}); Vec<{t}> b(std::move(a)); "
                                  f"return new Vec<{t}>(std::move(b)); }});")
        raise ValueError(how)
    if h in ("sassign", "sassign2", "atset", "atset2", "eachset"): s = [h, name(s[1])] + s[2:]
    if h == "sassign":
        if len(s) > 4: return f"{s[1]}({cxx(s[2])}) = {cxx(s[3])};"
        return f"subset({s[1]}, {cxx(s[2])}) = {cxx(s[3])};"
    if h == "sassign2":
        if len(s) > 5: return f"{s[1]}({cxx(s[2])}, {cxx(s[3])}) = {cxx(s[4])};"
        return f"subset({s[1]}, {cxx(s[2])}, {cxx(s[3])}) = {cxx(s[4])};"
    if h == "atset": return f"at({s[1]}, {cxx(s[2])}) = {cxx(s[3])};"
    if h == "atset2": return f"at({s[1]}, {cxx(s[2])}, {cxx(s[3])}) = {cxx(s[4])};"
    if h == "show":
        how, x = s[1], s[2]
        if how == "stream": return f"e.printed([&]{{ std::cout << {cxx(x)}; }}, '{typ(x)}');"
        if how == "print": return f"e.printed([&]{{ print({cxx(x)}); }}, '{typ(x)}');"
        if how == "range":
            return (f"{{ e.begin('{typ(x)}'); auto&& rng = {cxx(x)}; for (auto&& el : rng) e.visit(el); e.end(); }}")
        if how == "scalar": return f"e.scalar('{typ(x)}', {cxx(x)});"
        if how == "value": return f"e.value('{typ(x)}', {cxx(x)});"
        if how == "cond": return f"e.scalar('b', static_cast<bool>({cxx(x)}));"
        raise ValueError(how)
    if h == "swap": return f"std::swap({name(s[1])}, {name(s[2])});"
    if h == "eachset":
        return f"for (auto&& el : {s[1]}) el = el {s[2]} {cxx(s[3])};"
    if h == "for":
        body = " ".join(stmt(b) for b in s[3])
        return f"for (auto&& {s[1].replace('@', 'lv')} : {cxx(s[2])}) {{ {body} }}"
    if h == "if":
        a = " ".join(stmt(b) for b in s[2])
        b = " ".join(stmt(b) for b in s[3])
        return f"if ({cxx(s[1])}) {{ {a} }} else {{ {b} }}"
    if h == "while":
        body = " ".join(stmt(b) for b in s[2])
        return f"{{ int rounds = 0; while ({cxx(s[1])}) {{ if (rounds++ >= {s[3]}) throw std::runtime_error(\"rounds\"); {body} }} }}"
    if h == "let":
        _, x, t, v, body = s[:5]
        how = s[5] if len(s) > 5 else "local"
        decl, last = f"Vec<{CTYPE[t]}> {name(x)}", body[-1]
        if how == "fun":            # a function called with the value
            if last[0] == "assign" and last[1][0] != "@" and last[2] == ["var", x]:
                inner = " ".join(stmt(b) for b in body[:-1])
                return f"{last[1]} = [&]({decl}) {{ {inner} return {name(x)}; }}({cxx(v)});"
            return f"[&]({decl}) {{ {' '.join(stmt(b) for b in body)} }}({cxx(v)});"
        inner = " ".join(stmt(b) for b in body)
        if how == "later": return f"{{ {decl}; {name(x)} = {cxx(v)}; {inner} }}"
        return f"{{ {decl} = {cxx(v)}; {inner} }}"
    if h == "itemset": return f"{name(s[1])}[{cxx(s[2])}] = {cxx(s[3])};"
    if h == "backset": return f"{name(s[1])}.back() = {cxx(s[2])};"
    if h == "refill":
        x = name(s[1])
        return f"{{ int n_ = static_cast<int>({x}.size()) + ({s[2]}); {x}.resize(n_ < 1 ? 1 : n_); {x}.d.setMatrix(false, 0, 0); {x}.fill({cxx(s[3])}); }}"
    if h == "fillv": return f"{name(s[1])}.fill({cxx(s[2])});"
    if h == "letnum":
        _, x, t, v, body = s
        return f"{{ {CTYPE[t]} {name(x)} = {cxx(v)}; {' '.join(stmt(b) for b in body)} }}"
    if h == "viaview":
        _, x, how, inner = s
        t = stmt(inner)
        assert inner[1] == x
        mk = {"copy": "BVec lvw(%s);", "eq": "BVec lvw = %s;", "buf": "BVec lvw(%s.d);"}[how] % x
        return f"{{ {mk} auto perform = [&](BVec &{x}w) {{ {via(inner, x)} }}; perform(lvw); }}"
    if h == "lend": return f"e.lend<{s[1][1]}>({s[2]}, {s[3]}, {dict(ptr=0, ptr2=1, borrow=2)[s[4]]});"
    if h == "poke": return f"e.poke{s[1][1]}({s[2]}, {s[3]} / {s[4]}.0);"
    if h == "block": return " ".join(stmt(b) for b in s[1])
    raise ValueError(h)


def via(s, x):
    """statement s with another view of the same memory as its target"""
    t = stmt([s[0], "@dVIEW"] + s[2:]).replace("lvdVIEW", x + "w")
    return t


def strip(t):
    """the tree without annotations only the C++ emission needs"""
    if not isinstance(t, list) or not t or not isinstance(t[0], str):
        return [strip(x) for x in t] if isinstance(t, list) else t
    h = t[0]
    if h == "sub": t = t[:3]
    elif h == "sub2": t = t[:4]
    elif h == "sassign": t = t[:4]
    elif h == "sassign2": t = t[:5]
    elif h == "init": t = t[:3]
    elif h == "lv": t = t[:2]
    elif h == "let": t = t[:5]
    elif h == "num": t = t[:4]
    elif h == "length": t = t[:2]
    elif h == "viaview": t = [h, t[1], t[3]]
    elif h == "lend": t = t[:4]
    return [t[0]] + [strip(x) for x in t[1:]]


def reads(t, acc=None):
    """names of the variables occurring in a tree"""
    acc = set() if acc is None else acc
    if isinstance(t, list):
        if len(t) == 2 and t[0] == "var": acc.add(t[1])
        for x in t: reads(x, acc)
    elif isinstance(t, str) and t in VARS:
        acc.add(t)
    return acc
