"""Builds /verif/seeded from tools/plant/*.py and, with --eval, confirms each planted bug.

usage: plant.py make [id ...]      write seeded/<id>/
       plant.py eval [id ...]      apply to /repo, run the stable tests, the demo and the property's check, undo
Each spec file defines BUGS = [dict(id, property, edits=[(file, anchor, old, new)], needs, what, demo)].
"""
import glob
import json
import os
import runpy
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", "plant", "*.py"))):
        for b in runpy.run_path(f)["BUGS"]:
            if b["id"] in open(os.path.join(V, "tools", "plant_dropped.txt")).read().split():
                continue  # fails the repository's tests or its own demonstration
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def clean():
    assert not sh(f"git -C {R} status --porcelain --untracked-files=no").stdout.strip(), "repo not clean"


def make(b):
    clean()
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    try:
        for file, anchor, old, new in b["edits"]:
            p = os.path.join(R, file)
            s = open(p).read()
            i = s.index(anchor) if anchor else 0
            j = s.index(old, i)
            if not anchor:
                assert s.count(old) == 1, (b["id"], file, old, s.count(old))
            s = s[:j] + new + s[j + len(old):]
            open(p, "w").write(s)
        diff = sh(f"git -C {R} diff").stdout
        assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        sh(f"git -C {R} checkout -- .")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\n. /opt/vp/env.sh\nexport MPLBACKEND=Agg\nexec python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def stable():
    out = "/tmp/plant_tests.json"
    sh(f"bash /opt/vp/test.sh {out}")
    got = set(json.load(open(out))["passed"])
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got)


def evaluate(b, others):
    clean()
    d = os.path.join(V, "seeded", b["id"])
    res = {"id": b["id"], "property": b["property"]}
    native = any(e[0].endswith((".pyx", ".cpp", ".h")) for e in b["edits"])
    r = sh(f"bash {d}/demo.sh", cwd=R)
    res["demo_clean"] = r.returncode
    if r.returncode:
        res["demo_out"] = (r.stdout + r.stderr)[-400:]
    try:
        a = sh(f"git -C {R} apply {d}/patch.diff")
        assert a.returncode == 0, a.stderr
        if native:
            r = sh("bash /opt/vp/build.sh")
            res["build"] = r.returncode
        r = sh(f"bash {d}/demo.sh", cwd=R)
        res["demo_patched"] = r.returncode
        res["missing_tests"] = stable()[:5]
        for p in [b["property"]] + others:
            t = time.time()
            r = sh(f"bash {V}/run.sh {p}", env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            line = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            res[p] = [r.returncode, round(time.time() - t), (line or [""])[0][:160]]
    finally:
        sh(f"git -C {R} checkout -- .")
        if native:
            sh("bash /opt/vp/build.sh")
    ok = not res["demo_clean"] and res["demo_patched"] and not res["missing_tests"]
    res["verdict"] = ("valid " if ok else "INVALID ") + ("caught" if res[b["property"]][0] == 1 else "MISSED")
    print(json.dumps(res), flush=True)
    return res


if __name__ == "__main__":
    S = specs()
    args = sys.argv[2:]
    others = [a for a in args if a[0] == "P"]
    ids = [a for a in args if a[0] != "P"] or list(S)
    for i in ids:
        if sys.argv[1] == "make":
            make(S[i])
        else:
            make(S[i])
            evaluate(S[i], others)
