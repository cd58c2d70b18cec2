"""Runs one check: python3 -m omh.run P01 quick|thorough"""
import importlib, json, os, re, sys, time, traceback
from . import db
from .db import Broken, VERIF
from .core import Program, Result


def load_known():
    """known_findings.txt: 'open: property=<id> key=<key> :: <what fails>' and
    'fixed: property=<id> <commit> <what failed>' (the latter suppress nothing)."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for l in open(p):
        m = re.match(r"open: property=(\S+) key=(.*?) :: (.*)$", l.rstrip("\n"))
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        mod = importlib.import_module("omh." + pid.lower())
        R = Result()
        variants = [()]
        if tier == "thorough":
            variants += list(getattr(mod, "VARIANTS", db.VARIANTS))
        units = 0
        nfn = 0
        for v in variants:
            P = Program(v) if getattr(mod, "NEEDS_PROGRAM", True) else None
            if P:
                units += len(P.units)
                nfn += len(P.fns)
            r = mod.check(P) if not getattr(mod, "TIERED", False) else mod.check(P, tier)
            tag = "" if not v else "[%s] " % " ".join(v)
            for x in r.v:
                R.bad(x.rule, x.key.split("|", 1)[1], x.where, tag + x.msg, x.trace)
            for k, c in r.counts.items():
                R.counts[tag + k] = R.counts.get(tag + k, 0) + c
            R.notes += [tag + n for n in r.notes]
            if not v:
                R.samples += r.samples
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        return 3
    known = load_known()
    fresh, found = [], []
    for v in R.v:
        (found if (pid, v.key) in known else fresh).append(v)
    print("%s (%s): %d units, %d functions" % (pid, tier, units, nfn))
    for k in sorted(R.counts):
        print("  %-60s %d" % (k, R.counts[k]))
    for n in R.notes:
        print("  note: " + n)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    total = sum(R.counts.values())
    cov = {
        "explanation": getattr(mod, "RULE", (mod.__doc__ or "").strip()),
        "analysed": {"translation_units": units, "functions": nfn},
        "counts": R.counts,
        "samples": (R.samples or sorted(R.counts))[:12],
        "notes": R.notes,
        "known_findings": [v.key for v in found],
    }
    level = getattr(mod, "LEVEL", "other")
    if level == "proof":
        cov["obligations"] = R.counts.get("obligations", total)
        cov["discharged"] = cov["obligations"] - len(R.v)
        cov["checker_cmd"] = "python3 -m omh.run %s %s" % (pid, tier)
        cov["trusted_base"] = getattr(mod, "TRUSTED", ["clang 18 constant evaluation", "the oracle in /verif/omh/%s.py" % pid.lower()])
    evd = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
           "wall_s": round(time.time() - t0, 2)}
    if fresh:
        rp = os.path.join(ev, "%s.violation.txt" % pid)
        with open(rp, "w") as f:
            for v in fresh:
                f.write("%s\n  key: %s\n\n" % (v, v.key))
        cov["violation_list"] = [{"key": v.key, "where": v.where, "message": v.msg} for v in fresh]
    evd["violations"] = len(fresh)
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    for v in found:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, v.key)]))
    if fresh:
        for v in fresh[:40]:
            print(str(v))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s: holds (%.1f s)" % (pid, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
