#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property for the
code in /repo.  Exit 0: it held on everything explored; 1: a violation."""
import argparse, json, os, re, shutil, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from etr import plans  # noqa: E402


def known(pid):
    """open entries of the known-findings file for this property"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    for ln in open(path) if os.path.exists(path) else []:
        m = re.match(r"finding: property=(\S+) statement=`(.*)` (.*)", ln.strip())
        if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"etr_{a.property}_")
    try:
        r = plans.run(a.property, a.tier, seed, work)
    finally:
        if a.keep: print("work in", work)
        else: shutil.rmtree(work, ignore_errors=True)
    findings = known(a.property)
    open_, fresh = [], []
    for v in r["violations"]:
        hit = [f for f in findings if f[0] == v.get("statement")]
        (open_ if hit else fresh).append(v)
    wall = round(time.time() - t0, 1)
    ev = {"property": a.property, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": r["coverage"],
          "assumptions": r.get("assumptions", []), "wall_s": wall, "violations": len(fresh)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for st, what in findings: print(f"KNOWN-FINDING: property={a.property} {what}")
    cov = r["coverage"]
    print(f"{a.property} {a.tier} seed={seed}: states={cov.get('states')} transitions={cov.get('transitions')} "
          f"traces={cov.get('traces_validated_against_impl')} {wall}s {cov.get('seconds')}")
    for n in r.get("notes", []): print("note:", n)
    if fresh:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{a.property}-{a.tier}-{seed}.json")
        with open(path, "w") as f: json.dump(fresh[:20], f, indent=1)
        for v in fresh[:3]:
            print(json.dumps({k: v[k] for k in v if k not in ("command", "setup", "compiler", "details")}, indent=None)[:1500])
            if "details" in v: print(v["details"][:800])
            if "compiler" in v: print(v["compiler"][:800])
        print(f"VIOLATION property={a.property} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
