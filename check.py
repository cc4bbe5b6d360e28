#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current source.

exit 0: holds (known findings are printed), 1: VIOLATION line(s), 2: the analysis could not be carried out."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine")); sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)
import agx


class Result:
    def __init__(s, pid):
        s.pid = pid; s.viol = {}; s.counts = {}; s.explain = ""; s.assume = []; s.listing = {}; s.und = {}; s.groups = {}; s.broken = []

    def bad(s, key, where, msg, group=None):
        """group: a name for the finding that survives renaming and moving code within a file; known findings are listed by it"""
        s.viol.setdefault(key, (where, msg))
        if group: s.groups[key] = group

    def undecided(s, key, where, msg):
        """a site the rule cannot decide: no verdict is given for it; evidence lists it"""
        s.und.setdefault(key, (where, msg))

    def count(s, name, n): s.counts[name] = n

    def need(s, name, n, least):
        """an anchor: the analysis is meaningless when fewer instances than this exist"""
        s.counts[name] = n
        if n < least: s.broken.append("%s: only %d %s found, at least %d expected (vanished anchor)" % (s.pid, n, name, least))


def known(pid):
    out = {}
    p = os.path.join(HERE, "known-findings.json")
    for e in json.load(open(p)).get("findings", []):
        if e["property"] == pid: out[e["key"]] = e
    return out


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    r = Result(pid); P = None
    try:
        mod = importlib.import_module(pid.lower())
        P = agx.load() if getattr(mod, "NEEDS_PROGRAM", True) else None
        mod.run(P, r, tier)
    except agx.Broken as e:
        r.broken.append(str(e))
    except Exception:
        traceback.print_exc(); r.broken.append("internal error")
    kn = known(pid)
    name = lambda k: k if k in kn else r.groups.get(k)
    new = {k: v for k, v in r.viol.items() if name(k) not in kn}
    old = {}
    for k, v in sorted(r.viol.items()):
        if name(k) in kn: old.setdefault(name(k), v)
    # what was found wrong is reported even where the rest of the analysis could not be carried out
    for e in r.broken: print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
    if r.broken and not new: return 2
    ev = os.path.join(HERE, "evidence"); os.makedirs(ev, exist_ok=True)
    if P is not None:
        r.counts.setdefault("translation units", P.units); r.counts.setdefault("functions in the program model", len(P.funcs))
    json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
               "coverage": {"explanation": r.explain, "counts": r.counts, "listing": r.listing,
                            "known_findings": sorted(old), "undecided": ["%s at %s: %s" % (k, w, m) for k, (w, m) in sorted(r.und.items())]},
               "wall_s": round(time.time() - t0, 2), "violations": len(new), "assumptions": r.assume},
              open(os.path.join(ev, pid + ".json"), "w"), indent=1, sort_keys=True)
    for k, v in sorted(r.counts.items()): print("  %-46s %s" % (k, v))
    for k, (w, m) in sorted(r.und.items()): print("  undecided at %s: %s" % (w, m))
    for k, (w, m) in sorted(old.items()): print("KNOWN-FINDING: property=%s %s [%s]" % (pid, kn[k]["what"], w))
    if new:
        rp = os.path.join(ev, pid + ".violations.txt")
        with open(rp, "w") as o:
            for k, (w, m) in sorted(new.items()): o.write("%s\n  at %s\n  %s\n" % (k, w, m))
        for k, (w, m) in sorted(new.items()): print("  at %s: %s\n    key: %s" % (w, m, k))
        for k, (w, m) in sorted(new.items())[:20]: print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s (%.1f s)" % (pid, time.time() - t0))
    return 0


if __name__ == "__main__": sys.exit(main())
