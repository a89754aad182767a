"""What is run for each property."""
import random
from . import genlib, engine, lang, store, ad, progs


def finish(c, assumptions=()):
    cov = {"states": c.stats["states"], "transitions": c.stats["transitions"],
           "traces_validated_against_impl": c.stats["traces"], "samples": c.samples or ["none"], "seconds": c.times}
    for k, v in c.stats.items():
        if k not in ("states", "transitions", "traces"): cov[k] = v
    return {"violations": c.violations, "coverage": cov, "notes": c.notes, "assumptions": list(assumptions)}


BASE = ["values up to small rationals are exact in the specification; larger or transcendental ones are compared with a rounding tolerance",
        "g++ -O0 with AddressSanitizer, STANDALONE_ETR"]


# how many combinations of extreme values a statement is tried with
EXTREME = {"C01": 8, "C02": 8, "C03": 4, "C04": 6, "C05": 6, "C09": 2, "C11": 4, "C12": 4, "C13": 4, "C18": 16, "C19": 8, "C20": 8}


def prog_plan(pid, tier, seed, work):
    q = tier == "quick"
    c = engine.Check(pid, tier, seed, work, leaks=pid in ("C05", "C13", "C21"))
    lib, ranges = genlib.library(pid, tier, seed)
    if pid == "C21": c.goals = progs.goals()
    c.load(lib, ranges)
    budget = 24000 if q else 160000
    if pid == "C21": budget //= 3
    cap = max(6, budget // max(1, len(lib)))
    rng = random.Random(seed)
    ids = [k for k, _ in c.lib]
    chains = [tuple(rng.choice(ids) for _ in range(rng.choice([2, 3]))) for _ in range(300 if q else 2500)]
    c.spec_runs(min(cap, 200 if q else 800), chains)
    n = (8000 if q else 60000) // 40
    c.histories(n, 40)
    c.histories(max(8, n // 25), 40, limit=(12, 60, 20 if pid == "C21" else 70), tag="long", first=100000)
    if pid == "C21": return finish(c, BASE)      # nested loops over long vectors take too long
    # few very long vectors; large numbers
    c.histories(3 if q else 24, 25, limit=(12, 60, 400), tag="huge", first=300000)
    kept = c.ranges
    c.ranges = {x: [r[0], r[1], r[2] * 250, r[3] * 250, r[4], r[5]] if x in ("d1", "d2", "d3") and r[2] <= 0 else r for x, r in kept.items()}
    c.histories(max(8, n // 12), 40, limit=(12, 15000, 0), tag="wide", first=400000)
    c.ranges = kept
    # every statement with long vectors
    c.spec_runs(4 if q else 25, (), genlib.longs(), few=True)
    if pid in EXTREME: c.spec_runs(EXTREME[pid] * (1 if q else 4), (), genlib.extremes(), genlib.calm)
    if pid == "C02":
        c.spec_runs(12 if q else 40, (), genlib.c02_near())
        c.ranges = genlib.ranges(**genlib.TOLR)
        c.histories(max(10, n // 4), 40, tag="tol", first=200000, limit=(12, 60, 0))
    return finish(c, BASE)


def interp_plan(pid, tier, seed, work):
    """C17: nodes and values are drawn from matching domains"""
    q = tier == "quick"
    c = engine.Check(pid, tier, seed, work)
    lib, ranges = genlib.library(pid, tier, seed)
    c.load(lib, ranges)
    # every statement over all nodes, values and points
    c.spec_runs(60, (), genlib.c17_custom(tier))
    c.histories(250 if q else 2500, 40, more=("interp",))
    return finish(c, BASE)


def run(pid, tier, seed, work):
    if pid == "C14": return finish(store.plan(tier, seed, work), BASE)
    if pid in ("C15", "C16"): return finish(ad.plan(pid, tier, seed, work), BASE)
    if pid == "C17": return interp_plan(pid, tier, seed, work)
    return prog_plan(pid, tier, seed, work)
