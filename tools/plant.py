#!/usr/bin/env python3
"""plant.py ID...   confirm a planted change (applies, builds, stable tests pass, demo passes without and fails with it)
and show which checks report it.  Works on /repo and always restores it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded/"
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
def stable():
    for k in ("passed", "stable", "tests"):
        if isinstance(base, dict) and k in base: return set(base[k])
    return set(base)
allc = "--all" in sys.argv
notest = "--notest" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(S))
for i in ids:
    d = S + i
    meta = json.load(open(d + "/meta.json"))
    res = {}
    assert not run("git -C /repo status --porcelain --untracked-files=no").stdout, "repo not clean"
    if not notest:
        r = run("bash %s/demo.sh" % d, cwd="/repo"); res["demo_clean"] = r.returncode
        if r.returncode: print(r.stdout[-800:], r.stderr[-1500:])
    r = run("git -C /repo apply %s/patch.diff" % d)
    if r.returncode: print(i, "DOES NOT APPLY", r.stderr); continue
    try:
        if not notest:
            r = run("bash /opt/vp/test.sh /tmp/plant.json"); o = json.load(open("/tmp/plant.json"))
            miss = stable() - set(o["passed"])
            res["tests_lost"] = len(miss)
            if not o["passed"]: print(r.stdout[-1500:])
            if miss: print(sorted(miss)[:5])
            r = run("bash %s/demo.sh" % d, cwd="/repo"); res["demo_patched"] = r.returncode
        man = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        props = man if allc else [p for p in [meta["property"]] if p in man]
        for p in props:
            r = run("python3 check.py %s" % p, cwd=V)
            res[p] = r.returncode
            if p == meta["property"]: msg = "\n".join(r.stdout.split("\n")[:3])[:500] + r.stderr[-300:]
    finally:
        run("git -C /repo checkout -- .")
    ok = notest or (res["demo_clean"] == 0 and res["demo_patched"] != 0 and res["tests_lost"] == 0)
    print("%-28s %s %s caught=%s" % (i, "VALID" if ok else "INVALID", meta["property"], [p for p in props if res[p] == 1]), {k: v for k, v in res.items() if v not in (0, 1) or k.startswith("demo") or k.startswith("tests")})
    if "-v" in sys.argv and props: print(msg)
