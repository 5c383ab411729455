#!/usr/bin/env python3
"""Applies behaviour-preserving edits of refactab.py to /repo's working tree one at a time and runs the checks, which
have to stay quiet; undoes each edit.  Not used by any check.  usage: refac.py [ids...] [-p C01,C08] [-t]"""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import refactab
REPO = os.environ.get("KDL_REPO", "/repo")
V = os.path.dirname(here)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


props = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
ids = [a for a in sys.argv[1:] if not a.startswith("-") and "," not in a and a not in props]
for a in sys.argv[1:]:
    if a.startswith("C") and (a in props or "," in a):
        props = a.split(",")
for id, edits in refactab.REFAC.items():
    if ids and not any(id.startswith(i) for i in ids):
        continue
    assert sh("git -C %s status --porcelain -uno" % REPO).stdout == "", "dirty /repo"
    bad = None
    for f, es in edits.items():
        p = os.path.join(REPO, f)
        s = open(p).read()
        for old, new in es:
            if s.count(old) < 1:
                bad = "no match in %s: %r" % (f, old[:60])
                break
            s = s.replace(old, new)
        if bad:
            break
        open(p, "w").write(s)
    try:
        if bad:
            print(id, "BAD", bad)
            continue
        r = sh("cargo check --offline --all-features -q --lib 2>&1 | grep -A5 '^error' | head -20", cwd=REPO)
        if r.stdout.strip():
            print(id, "DOES NOT COMPILE", r.stdout)
            continue
        out = []
        if "-t" in sys.argv:
            sh("bash /opt/vp/test.sh /tmp/refac.json")
            j = json.load(open("/tmp/refac.json"))
            out.append("tests %d/%d" % (len(j["passed"]), len(j["failed"])))

        def one(p):
            r = sh("./check %s" % p, cwd=V)
            if r.returncode or "VIOLATION" in r.stdout:
                return "%s ALARM: %s" % (p, "\n      ".join([l for l in r.stdout.splitlines() if not l.startswith('KNOWN')][:4])[:700])
        r0 = one(props[0])
        with ThreadPoolExecutor(6) as ex:
            res = [r0] + list(ex.map(one, props[1:]))
        out += [x for x in res if x]
        print(id, "quiet" if not any(res) else "", *out, flush=True)
    finally:
        sh("git -C %s checkout -- ." % REPO)
