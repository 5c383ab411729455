#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in seedtab.py and, with `try`, applies each planted bug to /repo's
working tree, runs the tests, its demonstration and the checks, and undoes it.  Not used by any check."""
import json, os, subprocess, sys, difflib
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
REPO = "/repo"
OUT = os.path.join(os.path.dirname(here), "seeded")
DEMO = '''#!/bin/bash
# builds a small program against the crate in the current directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'find "$d" -depth -delete' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f "$PWD/Cargo.lock" ] && cp "$PWD/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
kdl = { path = "$PWD", default-features = false, features = [@FEATURES@] }
@DEPS@
[workspace]
E
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def write(id, s):
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    patch = ""
    for f, edits in s["edits"].items():
        src = open(os.path.join(REPO, f)).read()
        new = src
        for old, nw in edits:
            assert new.count(old) == 1, (id, f, new.count(old), old)
            new = new.replace(old, nw)
        patch += "".join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    if "demo" in s:
        open(os.path.join(d, "demo.sh"), "w").write(s["demo"])
    else:
        feats = ", ".join('"%s"' % x for x in s.get("features", ["span"]))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@FEATURES@", feats).replace("@DEPS@", s.get("deps", "")))
        open(os.path.join(d, "main.rs"), "w").write(s["main"].strip() + "\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return d


def main():
    import seedtab
    a = [x for x in sys.argv[2:] if not x.startswith("-")]
    ids = [i for i in seedtab.SEEDS if not a or any(i.startswith(x) for x in a)]
    for id in ids:
        s = seedtab.SEEDS[id]
        d = write(id, s)
        if sys.argv[1] != "try":
            continue
        assert sh("git -C /repo status --porcelain -uno").stdout == "", "dirty /repo"
        msgs = [id]
        if "-nodemo" not in sys.argv:
            r = sh("bash %s/demo.sh" % d, cwd=REPO)
            msgs.append("clean demo=%d" % r.returncode)
            if r.returncode:
                print(r.stdout[-1500:], r.stderr[-1500:])
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            print(id, "APPLY FAILED", r.stderr)
            continue
        try:
            if "-nodemo" not in sys.argv:
                r = sh("bash /opt/vp/test.sh /tmp/seed.json")
                try:
                    j = json.load(open("/tmp/seed.json"))
                    base = set(json.load(open("/opt/vp/BASELINE.json"))["passed"]) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) and "passed" in json.load(open("/opt/vp/BASELINE.json")) else None
                    msgs.append("tests passed=%d failed=%s" % (len(j["passed"]), j["failed"]))
                except Exception as e:
                    msgs.append("TESTS BROKEN %s %s" % (e, r.stdout[-500:]))
                r = sh("bash %s/demo.sh" % d, cwd=REPO)
                msgs.append("patched demo=%d" % r.returncode)
                msgs.append((r.stderr.strip().splitlines() or [""])[-1][:100] if r.returncode == 0 or "error" in r.stderr else "")
            props = [s["property"]] if "-all" not in sys.argv else [c["property"] for c in json.load(open(os.path.join(os.path.dirname(here), "MANIFEST.json")))["checks"]]
            for p in props:
                r = sh("./check %s" % p, cwd=os.path.dirname(here))
                hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                if hit or r.returncode or "-all" not in sys.argv:
                    msgs.append("%s:%s rc=%d" % (p, "CAUGHT" if hit else "missed", r.returncode))
                    if hit:
                        msgs.append(r.stdout.splitlines()[0][:150])
        finally:
            sh("git -C /repo checkout -- .")
        print(" | ".join(m for m in msgs if m), flush=True)


main()
