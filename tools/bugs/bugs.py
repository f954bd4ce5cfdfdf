#!/usr/bin/env python3
"""Builds and confirms planted bugs.  bugs.py [names...]: writes ../../seeded/<name>/ after confirming each in a scratch copy
of /repo: it compiles, the existing tests pass, the demonstration passes without and fails with the change."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
SEED = os.path.join(ROOT, "seeded")
W = "/tmp/bugwork"
TG = W + "/target"
BUGS = {}


def bug(name, prop, edits, needs, breaks, demo):
    BUGS[name] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


def sh(cmd, cwd, env=None, t=600):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def main(names):
    os.makedirs(W, exist_ok=True)
    wt = W + "/repo"
    if not os.path.exists(wt):
        sh("git clone -q /repo " + wt, "/")
    sh("git fetch -q origin && git reset -q --hard origin/HEAD && git clean -qfd -e target", wt)
    sh("git checkout -q -f $(git -C /repo rev-parse HEAD)", wt)
    for n in names:
        b = BUGS[n]
        sh("git checkout -q -f .", wt)
        bad = None
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = "%s: %d matches of %r" % (f, s.count(old), old[:60])
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            print(n, "BAD EDIT", bad)
            continue
        d = os.path.join(SEED, n)
        tmp = W + "/seed/" + n
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        rc, diff = sh("git diff", wt)
        open(tmp + "/patch.diff", "w").write(diff)
        shutil.copy(HERE + "/demo.sh", tmp)
        shutil.copy(HERE + "/rec.rs", tmp)
        open(tmp + "/demo.rs", "w").write("mod rec;\nuse rec::*;\n" + b["demo"].strip("\n") + "\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
        rc, o = sh("cargo test -p velato --all-features --offline --locked -q", wt, {"CARGO_TARGET_DIR": TG})
        if rc:
            print(n, "TESTS FAIL / NO BUILD\n", o[-2500:])
            continue
        rc, o = sh("bash %s/demo.sh" % tmp, wt, {"DEMO_TARGET": TG + "/demo"})
        if rc == 0:
            print(n, "DEMO PASSES WITH BUG")
            continue
        if "error[" in o or "error: " in o and "could not compile" in o:
            print(n, "DEMO DOES NOT COMPILE\n", o[-2500:])
            continue
        why = [l for l in o.splitlines() if "panicked" in l or "assert" in l][:2] or o.splitlines()[-1:]
        sh("git checkout -q -f .", wt)
        rc, o = sh("bash %s/demo.sh" % tmp, wt, {"DEMO_TARGET": TG + "/demo"})
        if rc:
            print(n, "DEMO FAILS WITHOUT BUG\n", o[-2500:])
            continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        print(n, "ok:", why)
        sys.stdout.flush()
    sh("git checkout -q -f .", wt)


if __name__ == "__main__":
    for f in sorted(os.listdir(HERE)):
        if f.startswith("set_") and f.endswith(".py"):
            exec(open(os.path.join(HERE, f)).read())
    a = sys.argv[1:]
    main([n for n in BUGS if not a or n in a or any(n.startswith(x) for x in a)])
