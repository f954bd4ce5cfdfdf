#!/usr/bin/env python3
"""check.py ID : decide one property on /repo's current tree by static analysis.

exit 0: no obligation of the property is violated; exit 1: `VIOLATION property=<id> replay=<report>`; 2: tool error."""
import json, os, re, signal, sys, time, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(200000)
import threading

LIMIT = 700  # seconds; whatever is not decided by then is reported as undecided


class Timeout(BaseException):
    pass


def known():
    """entries of the known-findings file: (property, key) -> text"""
    out = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def run(pid, tier):
    t0 = time.time()
    from rules import base, registry
    rep = base.Report(pid, tier)
    err = None

    def group(f):
        try:
            f(rep)
        except base.Missing as e:
            # renamed or restructured: nothing can be concluded from that alone
            rep.undecided(getattr(f, "what", f.__name__), "", "missing: %s" % e)
        except (base.Undecided, base.Unsupported) as e:
            rep.undecided(getattr(f, "what", f.__name__), "", "%s: %s" % (type(e).__name__, e))
        except base.tm.Budget as e:
            rep.undecided(getattr(f, "what", f.__name__), "", "budget: %s" % e)
        except RecursionError as e:
            rep.undecided(getattr(f, "what", f.__name__), "", "terms too deep")
        except Timeout:
            raise
        except Exception as e:
            # the analysis met a shape of code it was not written for
            rep.undecided(getattr(f, "what", f.__name__), "", "%s: %s" % (type(e).__name__, traceback.format_exc()[-1500:]))
    base.facts()
    for f in registry.CHECKS[pid]:
        try:
            group(f)
        except Timeout:
            rep.undecided(f.__name__, "", "not decided within the time limit")
            break
    return finish(rep, t0)


def finish(rep, t0):
    pid = rep.pid
    kn = known()
    bad = [o for o in rep.obs if o["status"] == "VIOLATED"]
    und = [o for o in rep.obs if o["status"] == "undecided"]
    ok = [o for o in rep.obs if o["status"] == "holds"]
    news, olds = [], {}
    for o in bad:
        k = re.sub(r"\s+", "_", o["key"])
        if (pid, k) in kn:
            olds[k] = kn[(pid, k)]
        else:
            news.append(o)
    ev = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    report = os.path.join(ev, pid + ".report.json")
    agg = {}
    for o in ok:
        a = agg.setdefault((o["obligation"], o["where"]), {"obligation": o["obligation"], "where": o["where"], "decided": 0})
        a["decided"] += o["n"]
    body = {
        "property": pid,
        "rule": "each obligation compares a term computed from the compiled source (MIR) of /repo with the term the property requires, or queries the type-checked program",
        "violations": news, "known_findings": [{"key": k, "what": w} for k, w in olds.items()],
        "undecided": und, "held": list(agg.values()),
        "functions_analysed": sorted(rep.fns), "notes": rep.notes,
    }
    json.dump(body, open(report, "w"), indent=1)
    n = sum(o["n"] for o in rep.obs)
    d = sum(o["n"] for o in ok)
    samples = [dict(obligation=o["obligation"], where=o["where"], status=o["status"]) for o in (ok[:4] + und[:2] + bad[:2])]
    evd = {
        "property": pid, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis of the MIR rustc produces for /repo's current tree (nothing is executed). "
                           "%d obligations: %d hold, %d undecided (no conclusion), %d violated. Obligations, the functions and paths they "
                           "were decided on, and the undecided ones are listed in evidence/%s.report.json." % (n, d, len(und), len(bad), pid),
            "obligations": n, "discharged": d, "undecided": len(und), "distinct_obligations": len(agg),
            "functions_analysed": len(rep.fns), "samples": samples,
            "undecided_list": [o["obligation"] + ": " + o["detail"][:200] for o in und][:20],
        },
        "assumptions": rep.assumptions if hasattr(rep, "assumptions") else [],
        "wall_s": round(time.time() - t0, 2), "violations": len(news),
    }
    json.dump(evd, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    print("%s: %d obligations hold, %d undecided, %d violated (%.1f s)" % (pid, d, len(und), len(bad), time.time() - t0))
    for o in und:
        print("  undecided: %s [%s] %s" % (o["obligation"], o["where"], o["detail"].splitlines()[-1][:200] if o["detail"] else ""))
    for k, w in sorted(olds.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for o in news:
        print("  violated: %s [%s] key=%s" % (o["obligation"], o["where"], o["key"]))
        print("    " + o["detail"][:1500].replace("\n", "\n    "))
    if n == 0 and not os.environ.get("VERIF_ALLOW_EMPTY"):
        print("no obligation was generated")
        return 2
    if news:
        print("VIOLATION property=%s replay=%s" % (pid, report))
        return 1
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a.startswith("--tier="):
            tier = a[7:]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return run(sys.argv[1], tier)


if __name__ == "__main__":
    def alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT)
    try:
        rc = main()
    except Timeout:
        print("time limit")
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
