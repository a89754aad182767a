"""Decides a property about programs over ordinary variables:

 A  TLC explores the specification (EtrProg) over the property's statement
    library and small-scope initial environments, checks the specification's
    own properties, and every transition it finds is replayed into the real
    library and compared;
 B  random histories executed by the real library are validated by TLC
    against the specification (EtrTrace).
"""
import concurrent.futures as cf, copy, json, os, random, re, shutil, time
from . import lang, genlib, prog, build, tlc

NAMES = prog.ORDER
MEM = {"b1": "m1", "b2": "m2"}
TYPES = {"d1": "d", "d2": "d", "d3": "d", "i1": "i", "i2": "i", "l1": "b", "l2": "b",
         "b1": "d", "b2": "d", "m1": "d", "m2": "d"}


class Violation(Exception):
    def __init__(self, info):
        super().__init__(info.get("what", ""))
        self.info = info


# ------------------------------------------------------------ small scopes

def value_lists(t, role, rich):
    """small-scope values of one variable; role 'x' operand, 'p' position"""
    M, V = [], []
    if t == "d" and role == "x":
        V = [[1.5], [-2.0, 0.25], [3.0, -1.0, 0.5], [0.0, 2.5, -3.5, 4.0], [2.0, 1.0, 3.0, 1.0, 2.5], [-0.75]]
        M = [([1.0, 2.5, -3.0, 4.0], 2, 2), ([0.5, -1.0, 2.0, 3.0, -4.0, 5.5], 2, 3), ([2.0, 3.0, 1.0, -2.0, 6.0, 0.0], 3, 2), ([7.0, -1.5], 1, 2)]
    elif t == "d":
        V = [[1.0], [2.75, 1.0], [3.0, 1.5, 1.0], [0.5], [1.0, 9.25], [-1.5, 2.0], [2.0, 2.0]]
    elif t == "i" and role == "x":
        V = [[2], [-3, 1], [4, 0, -2], [1, 2, 3, 4], [5, 4, 3, 2, 1]]
        M = [([1, -2, 3, 4], 2, 2), ([6, 5, 4, -3, 2, 1], 2, 3)]
    elif t == "i":
        V = [[1], [2, 1], [3, 3, 1], [0], [1, 7], [-1, 2], [2], [2, 2, 1, 1, 3]]
    elif t == "b":
        V = [[1], [1, 0], [0, 1, 1], [0, 0, 1, 0, 1], [0], [0, 1]]
        if role == "x": M = [([1, 0, 0, 1], 2, 2), ([0, 1, 1, 0, 1, 1], 2, 3)]
    out = []
    for i in range(max(len(V), len(M))):        # vectors and matrices mixed
        if i < len(V): out.append(prog.V(t, V[i]))
        if i < len(M): out.append(prog.V(t, M[i][0], M[i][1], M[i][2]))
    return out


DEFAULTS = {"d1": [1.5, -2.0, 3.0], "d2": [2.0, 4.0], "d3": [1.0, 2.0], "i1": [3, -1], "i2": [1, 2], "l1": [1, 0],
            "l2": [1, 0, 1], "b1": [1.0, 2.0, 3.5], "b2": [1.0, 2.0]}


def positions(t, inside=False, acc=None):
    """variables which occur (only) inside index positions"""
    acc = {"in": set(), "out": set()} if acc is None else acc
    if not isinstance(t, list) or not t: return acc
    h = t[0]
    if h == "var":
        (acc["in"] if inside else acc["out"]).add(t[1])
        return acc
    if h == "sub": positions(t[1], inside, acc); positions(t[2], True, acc)
    elif h == "sub2": positions(t[1], inside, acc); [positions(x, True, acc) for x in t[2:4]]
    elif h in ("rep", "at", "item"): positions(t[1], inside, acc); positions(t[2], True, acc)
    elif h in ("at2", "matrix"): positions(t[1], inside, acc); [positions(x, True, acc) for x in t[2:4]]
    elif h == "alloc": positions(t[2], True, acc)
    elif h == "sassign": acc["out"].add(t[1]); positions(t[2], True, acc); positions(t[3], inside, acc)
    elif h == "sassign2": acc["out"].add(t[1]); [positions(x, True, acc) for x in t[2:4]]; positions(t[4], inside, acc)
    elif h in ("assign", "init"): acc["out"].add(t[1]); positions(t[2], inside, acc)
    elif h in ("poke", "lend"): acc["out"].add(t[1])
    elif h == "viaview": positions(t[3], inside, acc)
    elif h in ("atset", "eachset", "itemset", "backset", "fillv", "refill"): acc["out"].add(t[1]); [positions(x, inside, acc) for x in t[2:]]
    elif h == "atset2": acc["out"].add(t[1]); [positions(x, inside, acc) for x in t[2:]]
    elif h == "swap": acc["out"] |= {t[1], t[2]}
    else:
        for x in t[1:]:
            if isinstance(x, list):
                if x and isinstance(x[0], list): [positions(y, inside, acc) for y in x]
                else: positions(x, inside, acc)
    return acc


def scopes(lib, cap, rng, chains=(), custom=None, few=False):
    """runs and domains for EtrProg; lib [(id, tree)] with ids 1..n in order"""
    domains, runs = {}, []
    trees = dict(lib)

    def dom_for(x, role, off, n):
        t = TYPES[x]
        if custom and x in custom:
            allv = [prog.V(*v) for v in custom[x]]
            if n > 1 and not few: n = len(allv)
        else: allv = value_lists(t, role, True)
        n = min(n, len(allv))
        vals = [allv[(off + i) % len(allv)] for i in range(n)]
        key = f"{x if custom and x in custom else t}{role}{off % len(allv)}.{n}" + ("v" if x in MEM else "")
        if key not in domains: domains[key] = vals
        return key

    for ids in [(k,) for k, _ in lib] + list(chains):
        acc = {"in": set(), "out": set()}
        target = set()
        for k in ids:
            positions(trees[k], False, acc)
            if trees[k][0] in ("assign", "init"): target.add(trees[k][1])
        only_in = acc["in"] - acc["out"]
        used = [x for x in NAMES if x in acc["in"] | acc["out"]]
        read = [x for x in used if not (x in target and all(x not in reads_rhs(trees[k]) for k in ids))]
        most = max(1, cap.bit_length() - 1)       # with two values each
        vary = read if len(read) <= most else rng.sample(read, most)
        n = max(1, len(vary))
        per = max(2, int(round(cap ** (1.0 / n))))
        dom = {}
        for x in NAMES:
            if x in vary: dom[x] = dom_for(x, "p" if x in only_in else "x", rng.randrange(40), per)
            elif x in used: dom[x] = dom_for(x, "x", rng.randrange(40), 1)
            else:
                key = "def_" + x
                if key not in domains: domains[key] = [prog.V(TYPES[x], DEFAULTS[x])]
                dom[x] = key
        runs.append({"k": list(ids), "dom": dom})
    return runs, domains


def reads_rhs(t):
    if t[0] in ("assign", "init"): return lang.reads(t[2])
    return lang.reads(t)


# ------------------------------------------------------------ comparison

class Compare:
    """compares one observed step with the outcome the specification prints"""
    def __init__(self, raw, mem=MEM, empty=False, amp=False):
        self.raw, self.checked, self.vague, self.obligations = raw, 0, 0, 0
        self.mem, self.empty, self.amp = mem, empty, amp

    def elem(self, s, o, rel=1e-11):
        if s[1] == -1 or s == o: return True
        if s[1] == -3 or s[1] == -2 and rel > 1e-6 or (o[1] == -2 and s[1] > 0):
            self.obligations += 1
            r = tlc.discharge([None, s, o], self.raw.vals, rel, self.amp)
            if r is None: self.vague += 1
            return r is not False
        return False

    def val(self, s, o, rel=1e-11):
        return (s["m"] == o["m"] and (not s["m"] or (s["r"] == o["r"] and s["c"] == o["c"]))
                and len(s["v"]) == len(o["v"]) and all(self.elem(a, b, rel) for a, b in zip(s["v"], o["v"])))

    def part(self, old, o, news):
        return (old["m"] == o["m"] and old["r"] == o["r"] and old["c"] == o["c"] and len(old["v"]) == len(o["v"])
                and all(a == b or b in ns or any(n[1] <= 0 for n in ns)
                        for a, b, ns in zip(old["v"], o["v"], news)))

    def step(self, o, before, ev, rel=1e-11):
        """None if the observed event agrees with outcome o, else a text"""
        post, st = ev["post"], ev["st"]
        if o["s"] == "und":
            return "exception that is no runtime_error" if st == "exc" else None
        self.checked += 1
        after = dict(before); after.update(post)
        for b, m in self.mem.items():
            n = len(after[b]["v"])
            if after[m]["v"][:n] != after[b]["v"]: return f"view {b} does not show the memory behind it"
        anything = o["ch"] if o["par"]["x"] == "*" else ()
        for x, v in after.items():
            if x in anything: continue
            if not v["v"] and not self.empty: return f"{x} became empty"
            if v["m"] and v["r"] * v["c"] != len(v["v"]): return f"{x} has rows times columns different from its length"
        ch = o["ch"] if isinstance(o["ch"], dict) else {}
        if o["s"] == "any" and st == "err": return None if not post else "rejected, but state changed"
        want = "ok" if o["s"] == "any" else o["s"]
        if st != want: return f"ended with {st}, specified {want}"
        par = o["par"]["x"]
        for x in after:
            if par == "*" and x in ch: continue
            if x == par:
                if not self.part(ch.get(x, before[x]), after[x], o["par"]["n"]): return f"{x} changed outside the addressed positions"
            elif par in self.mem and x == self.mem[par]:
                tail = len(after[par]["v"])
                if after[x]["v"][tail:] != ch.get(x, before[x])["v"][tail:]: return f"memory behind {par} changed beyond it"
            elif x in ch:
                if not self.val(ch[x], after[x], rel): return f"{x} got another value"
            elif x in post: return f"{x} changed"
        g = o.get("grow")
        if g and g["x"]:
            new = after[g["x"]]["v"]
            if not (all(a == b or a[1] == -1 for a, b in zip(g["old"], new)) or all(b == [0, 1] for b in new)):
                return f"{g['x']} neither kept its elements nor was zeroed when it grew"
        if o["out"]["t"] != "-":
            if "out" not in ev: return "nothing reported"
            if not self.val(o["out"], ev["out"], rel): return "reported another value"
            if ev["out"]["t"] != o["out"]["t"]: return "reported a value of another element type"
        return None


def text(v, raw):
    def f(e):
        if e[1] == -2: return repr(raw.vals[e[0]])
        if e[1] == -1: return "?"
        if e[1] == -3: return f"{e[2]}({', '.join(f(x) for x in e[3])})"
        if e[1] == 0: return {0: "NaN", 1: "Inf", -1: "-Inf"}[e[0]]
        if e[1] == -4: return "ERR"
        return str(e[0]) if e[1] == 1 else f"{e[0]}/{e[1]}"
    s = "[" + ", ".join(f(e) for e in v["v"]) + "]"
    return s + (f" ({v['r']}x{v['c']})" if v.get("m") else "")


# ------------------------------------------------------------ running

def chunks(xs, n):
    k = max(1, (len(xs) + n - 1) // n)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


class Check:
    TRACE = "EtrTrace"
    AMP = False
    blank = {}                      # initial state of executions which log none

    def __init__(self, pid, tier, seed, work, leaks=False, quiet=False):
        self.pid, self.tier, self.seed, self.work, self.leaks = pid, tier, seed, work, leaks
        self.raw = prog.Raw()
        self.stats = {"states": 0, "transitions": 0, "traces": 0, "steps": 0, "und": 0, "obligations": 0, "vague": 0,
                      "spec_transitions_replayed": 0, "statements": 0}
        self.samples, self.violations, self.notes = [], [], []
        self.times = {}

    def compare(self): return Compare(self.raw)
    def show(self, k): return lang.stmt(self.tree[k])
    def reads(self, k): return lang.reads(self.tree[k])

    def clock(self, what, t0):
        self.times[what] = round(self.times.get(what, 0) + time.time() - t0, 1)

    def violation(self, **info):
        self.violations.append(info)

    # -- library

    def load(self, lib, ranges):
        self.lib = list(enumerate(lib, 1))
        self.tree = dict(self.lib)
        self.ranges = ranges
        self.stats["statements"] = len(lib)
        t0 = time.time()
        self.exe, bad = prog.compile_lib(self.work, self.lib, build.ASAN)
        self.clock("compile", t0)
        if bad:
            again = {k for k in bad}
            for k in sorted(again)[:3]:
                self.violation(what="a program that is part of the specified language does not compile any more",
                               statement=self.show(k), compiler=bad[k])
            self.lib = [(k, s) for k, s in self.lib if k not in bad]
            self.notes.append(f"{len(bad)} statements do not compile")
        self.stripped = [lang.strip(s) for _, s in sorted(self.tree.items())]

    # -- mode A

    def spec_runs(self, cap, chains=(), custom=None, only=lambda t: True, few=False):
        rng = random.Random(self.seed * 77 + 5)
        lib = [(k, t) for k, t in self.lib if only(t)]
        if not lib: return
        runs, domains = scopes(lib, cap, rng, chains, custom, few)
        t0 = time.time()
        def ev(v): return {"t": v["t"], "v": [prog.elem(float(x), self.raw) for x in v["v"]], "m": v["m"], "r": v["r"], "c": v["c"]}
        path = os.path.join(self.work, "prog.json")
        with open(path, "w") as f:
            goals = getattr(self, "goals", {})
            json.dump({"lib": self.stripped, "runs": runs, "types": TYPES, "goals": [goals.get(json.dumps(t), "") for t in self.stripped],
                       "domains": {k: [ev(v) for v in vs] for k, vs in domains.items()}}, f)
        out, st = tlc.run("EtrProg", "EtrProg.cfg", self.work, env={"ETR_PROG": path})
        self.clock("tlc spec", t0)
        self.stats["states"] += st["distinct"]
        self.stats["transitions"] += st["generated"]
        trs = {}
        for run, choice, pos, o in tlc.lines(out, "TR"):
            trs.setdefault((run, tuple(choice)), {})[pos] = o
        keys = sorted(trs)
        cmds = []
        for run, choice in keys:
            r = runs[run - 1]
            c = " ".join(prog.snap_line(x, domains[r["dom"][x]][i - 1]) for x, i in zip(NAMES, choice))
            cmds.append(f"run {len(NAMES)} {c} {len(r['k'])} " + " ".join(map(str, r["k"])))
        self.replay(trs, keys, cmds)

    def replay(self, trs, keys, cmds, setup=()):
        """runs what the specification did on the real code; trs[key][pos]
        is the specified outcome of step pos of command key"""
        t0 = time.time()
        execs = self.execute(cmds, "spec", setup)
        self.clock("replay", t0)
        t0 = time.time()
        cmp_ = self.compare()
        for key, cmd, ex in zip(keys, cmds, execs):
            if ex is None: continue
            before = ex["init"]
            for pos, ev_ in enumerate(ex["ev"], 1):
                o = trs[key].get(pos)
                if o is None: break
                self.stats["spec_transitions_replayed"] += 1
                rel = self.tolerance(ev_["k"])
                why = cmp_.step(o, before, ev_, rel)
                if why:
                    self.mismatch_spec(cmd, pos, o, before, ev_, why, setup)
                    break
                if o["s"] == "und": self.stats["und"] += 1; break
                # where the specification leaves the state open, the rest of the run started from another state
                if o["s"] != "ok" and o["s"] != "any" and ev_["post"] or o["s"] == "any" and ev_["st"] == "err": break
                before = dict(before); before.update(ev_["post"])
            self.stats["traces"] += 1
        self.stats["obligations"] += cmp_.obligations
        self.stats["vague"] += cmp_.vague
        self.clock("compare", t0)
        for key, ex in list(zip(keys, execs))[:: max(1, len(keys) // 3)][:3]:
            if ex and ex["ev"]:
                self.samples.append({"kind": "spec transition replayed", "program": [self.show(e["k"]) for e in ex["ev"]],
                                     "before": {x: text(v, self.raw) for x, v in ex["init"].items() if x in self.reads(ex["ev"][0]["k"])},
                                     "observed": [{"status": e["st"], "changed": {x: text(v, self.raw) for x, v in e["post"].items()}} for e in ex["ev"]]})
        # self test: a wrong expectation has to be noticed
        self.self_test_spec(keys, trs, execs)

    def tolerance(self, k):
        return 2e-5 if k and self.tree[k][0] == "show" and self.tree[k][1] in ("print", "stream") else 1e-11

    def self_test_spec(self, keys, trs, execs):
        done = 0
        cmp_ = self.compare()
        for key, ex in zip(keys, execs):
            if ex is None or not ex["ev"]: continue
            o = copy.deepcopy(trs[key].get(1))
            if not o or o["s"] != "ok" or not isinstance(o["ch"], dict) or not o["ch"]: continue
            x = sorted(o["ch"])[0]
            v = o["ch"][x]["v"]
            if not v or v[0][1] <= 0: continue
            if cmp_.step(o, ex["init"], ex["ev"][0]): continue
            v[0] = [v[0][0] + 1, v[0][1]]
            if not cmp_.step(o, ex["init"], ex["ev"][0]): raise RuntimeError("self test: a wrong value was accepted")
            done += 1
            if done >= 20: break
        self.stats["corrupted_expectations_rejected"] = done
        if done == 0 and any(execs) and not self.violations: self.notes.append("no step suited for the self test")

    def execute(self, cmds, tag, setup=()):
        """runs the commands in parallel; one execution (or None) each"""
        parts = chunks(list(range(len(cmds))), 8)
        results = [None] * len(cmds)

        def work(j):
            todo, got, round_ = list(parts[j]), [], 0
            while todo and round_ < 4:
                lines, crash = prog.run_driver(self.exe, list(setup) + [cmds[i] for i in todo], self.work, f"{tag}{j}",
                                               timeout=120 if self.tier == "quick" else 600)
                got.append((list(todo), lines, crash))
                if not crash: break
                n = sum(1 for l in lines if l == "X")
                todo = todo[max(1, n):]
                round_ += 1
            return got
        with cf.ThreadPoolExecutor(8) as ex: done = list(ex.map(work, range(len(parts))))
        for got in done:
            for idx, lines, crash in got:
                execs, odd, pending = prog.parse(lines, self.raw)
                for n, e in enumerate(execs):
                    if not e["init"]: e["init"] = self.blank
                    results[idx[n]] = e
                for what, n, _ in odd:
                    if what.startswith("leak"):
                        if self.leaks: self.anomaly(what, cmds[idx[n - 1]], setup, execs[n - 1])
                    elif what.startswith(("memory", "note:")): self.anomaly(what, cmds[idx[n - 1]], setup, execs[n - 1] if n <= len(execs) else {"ev": []})
                if crash:
                    i = idx[max(0, len(execs) - 1)]
                    self.crash(cmds[i], setup, crash, pending, execs[-1] if execs else None)
        return results

    def crash(self, cmd, setup, crash, pending, ex):
        build.ENV["ETR_EAGER"] = "1"
        lines, again = prog.run_driver(self.exe, list(setup) + [cmd], self.work, "again", timeout=120)
        del build.ENV["ETR_EAGER"]
        if not again:
            self.notes.append(f"a crash did not repeat: {crash['exit']}")
            return
        _, _, pending = prog.parse(lines, self.raw)
        self.violation(what=f"crash or endless loop: {again['exit']}", statement=self.show(pending) if pending else "(at the end)",
                       command=cmd, details=again["stderr"])

    def anomaly(self, what, cmd, setup, ex):
        self.anomalies = getattr(self, "anomalies", 0) + 1
        if self.anomalies > 30: return
        lines, crash = prog.run_driver(self.exe, list(setup) + [cmd, cmd], self.work, "again", timeout=120)
        _, odd, _ = prog.parse(lines, self.raw)
        if sum(1 for w, *_ in odd if w.split()[0] == what.split()[0]) >= 2:
            self.violation(what=what, command=cmd, program=[self.show(e["k"]) for e in ex["ev"] if e["k"]][:40])

    def mismatch_spec(self, cmd, pos, o, before, ev, why, setup=()):
        if len(self.violations) > 20: return
        lines, crash = prog.run_driver(self.exe, list(setup) + [cmd], self.work, "again", timeout=120)
        execs, _, _ = prog.parse(lines, self.raw)
        same = execs and len(execs[0]["ev"]) >= pos and execs[0]["ev"][pos - 1] == ev
        if not same and not crash:
            cmp2 = self.compare()
            if not (execs and len(execs[0]["ev"]) >= pos and cmp2.step(o, before, execs[0]["ev"][pos - 1])):
                self.notes.append("a mismatch did not repeat"); return
        self.violation(what=why, statement=self.show(ev["k"]), command=cmd,
                       before={x: text(v, self.raw) for x, v in before.items() if x in self.reads(ev["k"]) or x in ev["post"]},
                       specified=self.show_outcome(o), observed={"status": ev["st"], "changed": {x: text(v, self.raw) for x, v in ev["post"].items()},
                       "reported": text(ev["out"], self.raw) if "out" in ev else None})

    def show_outcome(self, o):
        ch = o["ch"] if isinstance(o["ch"], dict) else {}
        return {"status": o["s"], "changed": {x: text(v, self.raw) for x, v in ch.items()},
                "reported": text(o["out"], self.raw) if o["out"]["t"] != "-" else None}

    # -- mode B

    def histories(self, n, steps, pool=None, limit=(12, 60, 0), tag="hist", first=0, more=()):
        pool = pool or [k for k, _ in self.lib]
        setup = [f"limit {limit[0]} {limit[1]} {limit[2]}", f"pool {len(pool)} " + " ".join(map(str, pool)), *more]
        for i, x in enumerate(NAMES): setup.append(f"range {i} " + " ".join(map(str, self.ranges[x])))
        self.run_histories(setup, n, steps, tag, first)

    def run_histories(self, setup, n, steps, tag="hist", first=0):
        t0 = time.time()
        cmds = [f"history {self.seed * 100003 + first + i + 1} {steps}" for i in range(n)]
        execs = self.execute(cmds, tag, setup)
        self.clock("histories", t0)
        t0 = time.time()
        have = [(c, e) for c, e in zip(cmds, execs) if e is not None]
        rej, out = self.validate([e for _, e in have], tag)
        self.clock("tlc trace", t0)
        for e, p, k, o in rej[:5]:
            self.mismatch_trace(setup, have[e - 1][0], have[e - 1][1], p, k, o)
        self.stats["traces"] += len(have)
        self.stats["steps"] += sum(len(e["ev"]) for _, e in have)
        for c, e in have[:1]:
            self.samples.append({"kind": "history validated by TLC", "command": c, "first steps": [
                (self.show(v["k"]) if v["k"] else "(environment)", v["st"], {x: text(y, self.raw) for x, y in v["post"].items()}) for v in e["ev"][:4]]})
        if not rej: self.self_test_trace([e for _, e in have])

    def validate(self, execs, tag, count=True):
        path = os.path.join(self.work, tag + ".json")
        with open(path, "w") as f: json.dump({"lib": self.stripped, "execs": execs}, f)
        out, st = tlc.run(self.TRACE, self.TRACE + ".cfg", self.work, env={"ETR_TRACE": path})
        rej = tlc.lines(out, "REJECT")
        if count:
            self.stats["states"] += st["distinct"]
            self.stats["transitions"] += st["generated"]
            self.stats["und"] += len(tlc.lines(out, "UND"))
        need = sum(len(e["ev"]) + 1 for e in execs)
        if st["distinct"] != need: raise RuntimeError(f"trace validation visited {st['distinct']} of {need} states")
        for ob in tlc.lines(out, "OB"):
            (e, p), s, o = ob
            k = execs[e - 1]["ev"][p]["k"]
            r = tlc.discharge(ob, self.raw.vals, self.tolerance(k), self.AMP)
            if count: self.stats["obligations"] += 1
            if r is None: self.stats["vague"] += 1
            if r is False: rej.append([e, p + 1, k, {"term": s, "observed": o}])
        return rej, out

    def mismatch_trace(self, setup, cmd, ex, p, k, o):
        lines, crash = prog.run_driver(self.exe, list(setup) + [cmd], self.work, "again", timeout=120)
        again, _, _ = prog.parse(lines, self.raw)
        if not again or len(again[0]["ev"]) < p or again[0]["ev"][:p] != ex["ev"][:p]:
            self.notes.append("a rejected history did not repeat"); return
        before = dict(ex["init"])
        for e in ex["ev"][:p - 1]: before.update(e["post"])
        ev = ex["ev"][p - 1]
        if "term" in o:
            v = o["observed"]
            want = {"an element": text({"v": [o["term"]]}, self.raw), "observed": text({"v": [v]}, self.raw)}
        else: want = self.show_outcome(o)
        self.violation(what="history rejected by the specification", statement=self.show(k), command=cmd, setup=setup, step=p,
                       before={x: text(v, self.raw) for x, v in before.items() if x in self.reads(k) or x in ev["post"]}, specified=want,
                       observed={"status": ev["st"], "changed": {x: text(v, self.raw) for x, v in ev["post"].items()},
                                 "reported": text(ev["out"], self.raw) if "out" in ev else None},
                       history=[self.show(e["k"]) if e["k"] else "(environment)" for e in ex["ev"][max(0, p - 12):p]])

    def alterable(self, e):
        return e["k"] and e["st"] == "ok" and self.tree[e["k"]][0] in ("assign", "sassign", "itemset", "fillv")

    def self_test_trace(self, execs):
        """TLC has to reject traces in which one recorded value was altered"""
        rng = random.Random(self.seed)
        bad = []
        for ex in execs[:40]:
            c = copy.deepcopy({**ex, "ev": ex["ev"][:60]})
            spots = [(i, x) for i, e in enumerate(c["ev"]) if self.alterable(e)
                     for x in e["post"] if x[0] in "da" and e["post"][x]["v"] and e["post"][x]["v"][0][1] > 0]
            if not spots: continue
            i, x = rng.choice(spots)
            v = c["ev"][i]["post"][x]["v"]
            v[0] = [v[0][0] + v[0][1], v[0][1]]
            c["ev"] = c["ev"][:i + 1]
            bad.append((c, i + 1))
            if len(bad) >= 6: break
        if not bad: return
        rej, out = self.validate([b for b, _ in bad], "corrupt", count=False)
        und = {(e, p) for e, p in tlc.lines(out, "UND")}
        for n, (b, p) in enumerate(bad, 1):
            if not any(r[0] == n and r[1] == p for r in rej) and (n, p) not in und and (n, p - 1) not in und:
                raise RuntimeError(f"self test: an altered trace was accepted: {b['ev'][p-1]}, {self.show(b['ev'][p-1]['k'])}")
        self.stats["altered_traces_rejected"] = self.stats.get("altered_traces_rejected", 0) + len(bad)
