"""Running TLC and reading its answers."""
import json, math, os, re, subprocess, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.normpath(os.path.join(HERE, "..", "..", "spec"))
JARS = "/opt/veriftools/tla/tla2tools.jar"


class TLCError(Exception):
    pass


def run(module, cfg, workdir, env=None, workers=8, args=(), timeout=800, heap="6g", ok=(0,)):
    meta = tempfile.mkdtemp(prefix="meta", dir=workdir)
    cmd = ["tlc", "-config", os.path.join(SPEC, cfg), "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-nowarning", *args, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ, **(env or {}))
    e["JAVA_TOOL_OPTIONS"] = f"-Xss64m -Xmx{heap}"
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=workdir)
    shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    if p.returncode not in ok:
        i = out.find("Error:")
        raise TLCError(f"tlc {module} ended with {p.returncode}\n" + out[max(0, i):i + 3000] + "\n...\n" + out[-1500:] + p.stderr[-1000:])
    st = {}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m: st = {"generated": int(m.group(1)), "distinct": int(m.group(2))}
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m: st["depth"] = int(m.group(1))
    st["rc"] = p.returncode
    return out, st


def lines(out, tag):
    """the ToJson payloads printed with PrintT(tag \\o ToJson(x))"""
    res = []
    for ln in out.splitlines():
        if ln.startswith('"' + tag + " "):
            body = ln[1:-1][len(tag) + 1:]
            body = body.replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(body))
    return res


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a: return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def fpow(a, b):
    try:
        r = math.pow(a, b)
    except OverflowError:
        r = math.inf if not (a < 0 and float(b).is_integer() and b % 2) else -math.inf
    except ValueError:
        r = math.inf if a == 0 else math.nan
    return r


def guarded(f, dom=lambda x: True):
    def g(x):
        if x != x: return math.nan
        try:
            return f(x) if dom(x) else math.nan
        except ValueError: return math.nan
        except OverflowError: return math.inf if x > 0 or f is math.cosh else -math.inf
    return g


def flog(x):
    if x != x or x < 0: return math.nan
    return -math.inf if x == 0 else math.log(x)


FN = {"sin": guarded(math.sin), "cos": guarded(math.cos), "tan": guarded(math.tan),
      "asin": guarded(math.asin), "acos": guarded(math.acos), "atan": guarded(math.atan),
      "sinh": guarded(math.sinh), "cosh": guarded(math.cosh), "tanh": guarded(math.tanh),
      "exp": guarded(math.exp), "log": flog, "sqrt": guarded(math.sqrt), "neg": lambda x: -x}


class Vague(Exception):
    """the numeric value of a term depends on rounding"""


def numeric(t, raw):
    """value of a term with IEEE doubles; the primitive operations are libm's"""
    n, d = t[0], t[1]
    if d > 0: return n / d
    if d == 0: return math.nan if n == 0 else math.copysign(math.inf, n)
    if d == -2: return raw[n]
    if d == -3:
        a = [numeric(x, raw) for x in t[3]]
        op = t[2]
        if op == "+": return a[0] + a[1]
        if op == "-": return a[0] - a[1]
        if op == "*": return a[0] * a[1]
        if op == "/":
            if a[1] == 0: raise Vague
            return fdiv(a[0], a[1])
        if op == "^": return fpow(a[0], a[1])
        if op == "int":
            if a[0] != a[0] or abs(a[0]) > 2e9: raise Vague
            if a[0] != int(a[0]) and abs(a[0] - round(a[0])) < 1e-6 * max(1, abs(a[0])): raise Vague
            return float(int(a[0]))
        if op == "bool":
            if a[0] != 0 and abs(a[0]) < 1e-9: raise Vague
            return 1.0 if a[0] != 0 else 0.0
        if op in CMP: return 1.0 if compare(op, a[0], a[1], all(leaf(x) for x in t[3]), max(scale(x, raw) for x in t[3])) else 0.0
        return FN[op](a[0])
    raise Vague


CMP = {"==", "!=", "<", "<=", ">", ">="}


def leaf(t):
    """a number known exactly"""
    return t[1] == -2 or t[1] > 0 and t[1] & (t[1] - 1) == 0


def compare(op, a, b, exact, sc):
    if not (math.isfinite(a) and math.isfinite(b)): raise Vague
    d = abs(a - b)
    if op in ("==", "!="):
        if abs(d - 1e-3) <= 1e-9 * max(1.0, sc if not exact else 0.0): raise Vague
        return (d < 1e-3) == (op == "==")
    if not exact and d <= 1e-9 * max(1.0, sc): raise Vague
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


def scale(t, raw):
    """largest magnitude inside a term: the yardstick for rounding errors"""
    if t[1] != -3: 
        try: v = abs(numeric(t, raw))
        except Vague: return 0.0
        return v if v == v and v != math.inf else 0.0
    m = max([scale(x, raw) for x in t[3]] + [0.0])
    try: v = abs(numeric(t, raw))
    except Vague: v = 0.0
    return max(m, v if v == v and v != math.inf else 0.0)


def close(want, got, sc, rel=1e-11):
    if want != want: return got != got
    if got != got: return False
    if want in (math.inf, -math.inf) or got in (math.inf, -math.inf):
        return want == got
    return abs(want - got) <= rel * max(abs(want), abs(got), sc, 1e-3)


def amplify(t, raw):
    """(value, error in units of the last place it can have inherited)"""
    n, d = t[0], t[1]
    if d != -3:
        v = numeric(t, raw)
        return v, abs(v) if v == v and abs(v) != math.inf else 0.0
    a = [amplify(x, raw) for x in t[3]]
    v, op = numeric(t, raw), t[2]
    if v != v or abs(v) == math.inf: return v, 0.0
    (x, ex), (y, ey) = a[0], a[-1]
    if op in "+-": e = ex + ey
    elif op == "*": e = abs(x) * ey + abs(y) * ex
    elif op == "/": e = ex / abs(y) + abs(x) * ey / (y * y)
    elif op in ("sin", "cos"): e = ex
    else: e = max(scale(u, raw) for u in t[3])
    return v, e + abs(v)


def discharge(ob, raw, rel=1e-11, amp=False):
    """one obligation [loc, specified, observed]: True if it holds; None if
    rounding decides it"""
    _, s, o = ob
    if s[1] == -2 and rel < 1e-6: return numeric(s, raw) == numeric(o, raw)      # copied, not printed
    if not amp and s[1] == -3 and all(leaf(x) for x in s[3]):
        try: w, g = numeric(s, raw), numeric(o, raw)       # one operation on known numbers
        except Vague: return None
        if w == g or w != w and g != g: return True
        if not (math.isfinite(w) and math.isfinite(g)): return False
        return abs(w - g) <= rel * max(abs(w), abs(g))
    try:
        w = numeric(s, raw)
    except Vague:
        return None
    return close(w, numeric(o, raw), amplify(s, raw)[1] if amp else scale(s, raw), rel)
