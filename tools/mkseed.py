#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in tools/seed_defs.py.

Each definition is applied to a scratch clone of /repo; it is kept only if the
clone builds, the baseline tests pass, the demonstration fails with the change
and passes without it, and the changed lines are lines of the original tree.
usage: mkseed.py [id...]
"""
import json, os, subprocess, sys, shutil, tempfile, re

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seed_defs import SEEDS

ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
BASE = "517c1f4"

DEMO_TEST = r'''#!/bin/bash
# Runs the demonstration as a test of ./%(pkg)s, added through an overlay.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=/root PATH=/usr/local/go/bin:$PATH
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(cwd):
    r = run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "./..."], cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(re.sub(r"0x[0-9a-f]{8,}", "0xPTR", e["Package"] + "/" + e["Test"]))
    return ok


def main():
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    want = sys.argv[1:]
    work = tempfile.mkdtemp(prefix="/tmp/seed.")
    repo = work + "/repo"
    subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    bad = 0
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        subprocess.check_call(["git", "reset", "-q", "--hard"], cwd=repo)
        subprocess.check_call(["git", "clean", "-fdq"], cwd=repo)
        dst = f"/verif/seeded/{s['id']}"
        tmp = work + "/" + s["id"]
        os.makedirs(tmp)
        demo = s.get("script")
        if demo is None:
            demo = DEMO_TEST % {"pkg": s.get("pkg", "proto")}
            open(tmp + "/demo_test.go.txt", "w").write(s["demo"].lstrip())
        open(tmp + "/demo.sh", "w").write(demo)
        os.chmod(tmp + "/demo.sh", 0o755)
        for name, text in s.get("files", {}).items():
            open(tmp + "/" + name, "w").write(text)

        def fail(msg, out=""):
            nonlocal bad
            bad += 1
            print(f"{s['id']}: {msg}\n{out[-1500:]}")

        r = run(["bash", tmp + "/demo.sh"], repo)
        if r.returncode != 0:
            fail("demo fails on the unchanged tree", r.stdout)
            continue
        ok = True
        for f, old, new in s["edits"]:
            t = open(f"{repo}/{f}").read()
            if t.count(old) != 1:
                fail(f"{f}: {t.count(old)} matches for {old!r}")
                ok = False
                break
            open(f"{repo}/{f}", "w").write(t.replace(old, new))
        if not ok:
            continue
        r = run(["gofmt", "-l", "proto"], repo)
        if r.stdout.strip():
            fail("not gofmt clean: " + r.stdout)
        r = run(["go", "build", "./..."], repo)
        if r.returncode:
            fail("does not build", r.stdout)
            continue
        miss = stable - tests(repo)
        if miss:
            fail("breaks tests: " + ", ".join(sorted(miss)[:4]))
            continue
        r = run(["bash", tmp + "/demo.sh"], repo)
        if r.returncode == 0:
            fail("demo passes with the change")
            continue
        why = [l for l in r.stdout.splitlines() if "zz_demo" in l or "panic" in l or "demo:" in l][:1]
        # the removed lines must stem from the original tree
        d = subprocess.check_output(["git", "diff", "-U0"], cwd=repo, text=True)
        orig = 0
        for f in subprocess.check_output(["git", "diff", "--name-only"], cwd=repo, text=True).split():
            o = set(subprocess.run(["git", "show", f"{BASE}:{f}"], cwd=repo, capture_output=True, text=True).stdout.splitlines())
            df = subprocess.check_output(["git", "diff", "-U0", f], cwd=repo, text=True)
            for l in df.splitlines():
                if l.startswith("-") and not l.startswith("---"):
                    if l[1:] in o:
                        orig += 1
                    else:
                        print(f"{s['id']}: note: changes a line of ours: {l}")
        if orig == 0:
            fail("changes no line of the original tree")
            continue
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(tmp, dst)
        open(dst + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=repo, text=True))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=2)
        print(f"{s['id']}: ok  {why[0].strip()[:150] if why else ''}")
    shutil.rmtree(work)
    return bad != 0


sys.exit(main())
