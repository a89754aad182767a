"""Runs statement libraries on the real code and reads back what happened."""
import json, math, os, subprocess
from fractions import Fraction
from . import lang, build

ORDER = ["d1", "d2", "d3", "i1", "i2", "l1", "l2", "b1", "b2"]


class Raw:
    """observed numbers that are no small rationals, addressed by index"""
    def __init__(self):
        self.vals, self.idx = [], {}

    def of(self, x):
        k = self.idx.get(x)
        if k is None:
            k = self.idx[x] = len(self.vals)
            self.vals.append(x)
        return [k, -2]


def elem(x, raw):
    if x != x: return [0, 0]
    if x in (math.inf, -math.inf): return [1 if x > 0 else -1, 0]
    if x == int(x): return [int(x), 1] if abs(x) <= 20000 else raw.of(x)
    f = Fraction(x)
    if f.denominator <= 16384:
        return [f.numerator, f.denominator] if abs(f.numerator) <= 20000 else raw.of(x)
    g = f.limit_denominator(3000)
    if abs(g.numerator) <= 20000 and g.denominator > 1 and g.numerator / g.denominator == x:
        return [g.numerator, g.denominator]
    return raw.of(x)


def write_part(path, part, text=lang.stmt, header="prog.hpp"):
    with open(path, "w") as f:
        f.write(f'#include "{header}"\n')
        for k, s in part:                       # one statement per line
            f.write(f"static void s{k}(E &e) {{ {text(s)} }}\n")
        f.write("static const Entry list[] = {" + ", ".join(f"{{{k}, s{k}}}" for k, _ in part) + "};\n")
        f.write(f"static const bool registered = (addStmts(list, {len(part)}), true);\n")


def compile_lib(workdir, lib, flags, per=90, text=lang.stmt, header="prog.hpp", main="prog_main.cpp"):
    """Compiles the library [(id, tree)].  Returns (executable, {id: compiler
    message} of the statements which do not compile)."""
    n = max(1, min(24, (len(lib) + per - 1) // per))
    if n > 8: n = ((n + 7) // 8) * 8
    n = min(n, max(1, len(lib)))
    parts = {}
    for j in range(n):
        parts[os.path.join(workdir, f"part{j}.cpp")] = lib[j::n]
    body, main = main, os.path.join(workdir, "main.cpp")
    with open(main, "w") as f: f.write(f'#include "{body}"\n')
    for path, part in parts.items(): write_part(path, part, text, header)
    bad, todo = {}, [main] + list(parts)
    for attempt in range(14):
        failed = []
        for src, rc, log in build.compile_all(todo, flags):
            if not rc: continue
            if src == main: raise build.CompileError(src, log)
            lines = build.error_lines(src, log)
            part = parts[src]
            culprits = [part[l - 2] for l in sorted(lines) if 2 <= l < 2 + len(part)]
            if not culprits: raise build.CompileError(src, log)
            for k, s in culprits: bad[k] = log[:2000]
            parts[src] = [(k, s) for k, s in part if k not in bad]
            write_part(src, parts[src], text, header)
            failed.append(src)
        todo = failed
        if not todo: break
    for src in todo:                    # too many culprits to find them all
        for k, s in parts[src]: bad.setdefault(k, "does not compile together with others")
        parts[src] = []
    srcs = [main] + [p for p in parts if parts[p]]
    return build.link(srcs, os.path.join(workdir, "driver"), flags), bad


def snap_line(name, s):
    """s: dict t, v (floats), m, r, c"""
    return f"{name} {s['t']} {1 if s['m'] else 0} {s['r']} {s['c']} {len(s['v'])} " + \
        " ".join(repr(float(x)) for x in s["v"])


def V(t, v, r=0, c=0):
    return {"t": t, "v": list(v), "m": bool(r), "r": r, "c": c}


class Outcome:
    pass


def run_driver(exe, cmds, workdir, tag="run", timeout=300):
    """returns (log lines, crash info or None)"""
    fin, fout = os.path.join(workdir, tag + ".in"), os.path.join(workdir, tag + ".log")
    with open(fin, "w") as f: f.write("\n".join(cmds) + "\n")
    crash = None
    try:
        p = subprocess.run([exe, fin, fout], capture_output=True, timeout=timeout, env=build.ENV)
        if p.returncode != 0:
            err = p.stderr.decode(errors="replace")
            crash = {"exit": p.returncode,
                     "stderr": "\n".join(l for l in err.splitlines() if not l.startswith("Warning"))[:3000]}
    except subprocess.TimeoutExpired:
        crash = {"exit": "timeout", "stderr": f"no end after {timeout} s"}
    text = open(fout, errors="replace").read() if os.path.exists(fout) else ""
    lines = text[:text.rfind("\n") + 1].splitlines()       # a crash can cut the last line short
    if crash is None and (not lines or lines[-1] != "END"):
        crash = {"exit": "incomplete", "stderr": "log ends early"}
    return lines, crash


def parse_print(t, text, raw):
    """what was printed, as a value: rows of tabs are a matrix"""
    if text.startswith("Vec [ ") and text.endswith("]"): text = text[6:-1]     # operator<<
    rows = [r for r in text.replace("\\t", "\t").split("\\n") if r.strip()]
    def tok(w):
        if w in ("true", "false"): return [1 if w == "true" else 0, 1]
        try: return elem(float(w), raw)
        except ValueError: return raw.of(-987654.321)
    mat = any("\t" in r for r in rows)
    cells = [[tok(w) for w in r.split()] for r in rows]
    if not mat:
        return {"t": t, "v": [x for r in cells for x in r], "m": False, "r": 0, "c": 0} if len(cells) <= 1 \
            else {"t": t, "v": [], "m": False, "r": 0, "c": 0}
    if len({len(r) for r in cells}) != 1:
        return {"t": t, "v": [], "m": True, "r": 0, "c": 0}
    nr, nc = len(cells), len(cells[0])
    return {"t": t, "v": [cells[i][j] for j in range(nc) for i in range(nr)], "m": True, "r": nr, "c": nc}


def parse(lines, raw):
    """log -> executions [{init, ev:[{k,st,post,out?}]}], plus anomalies"""
    execs, odd = [], []
    cur = None
    ev = None
    def val(w):
        return {"t": w[2], "m": w[3] == "1", "r": int(w[4]), "c": int(w[5]),
                "v": [elem(float(x), raw) for x in w[7:]]}
    pending = None
    def line(ln):
        nonlocal cur, ev, pending
        if ln.startswith("T "):
            _, t, text = (ln.split(" ", 2) + [""])[:3]
            ev["out"] = parse_print(t, text, raw)
            return
        w = ln.split()
        if not w: return
        h = w[0]
        if h == "X":
            cur = {"init": {}, "ev": []}
            execs.append(cur)
        elif h == "I":
            cur["init"][w[1]] = val(w)
        elif h == "W":
            cur["ev"].append({"k": 0, "x": w[1], "st": "ok", "post": {w[1]: val(w)}})
        elif h == "M":
            if cur["ev"]: cur["ev"][-1]["post"][w[1]] = val(w)
            else: cur["init"][w[1]] = val(w)
        elif h == "B":
            pending = int(w[1])
        elif h == "R":
            ev = {"k": int(w[1]), "st": w[2], "post": {}}
            if w[2] == "exc": odd.append(("exception " + " ".join(w[3:]), len(execs), len(cur["ev"]) + 1))
            cur["ev"].append(ev)
            pending = None
        elif h == "V":
            ev["post"][w[1]] = val(w)
        elif h == "O":
            ev["out"] = val(w)
        elif h == "Y":
            cur["iv"] = w[1]
        elif h == "N":
            odd.append(("note: " + " ".join(w[1:]), len(execs), len(cur["ev"])))
        elif h == "G":
            odd.append(("memory next to the lent region changed", len(execs), len(cur["ev"])))
        elif h == "L":
            odd.append(("leak " + w[1], len(execs), 0))
    for ln in lines:
        try: line(ln)
        except (IndexError, KeyError, ValueError, AttributeError, TypeError):
            odd.append(("note: the log is damaged", max(1, len(execs)), len(cur["ev"]) if cur else 0))
            break
    return execs, odd, pending
