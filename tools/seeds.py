#!/usr/bin/env python3
"""Builds and confirms planted bugs: python3 seeds.py SPEC.py [ID...].

SPEC.py defines SEEDS, a list of dicts: id, property, needs, breaks, edits
[(file, old, new), ...] and demo (a Go main program, or a shell fragment when
it starts with #!sh); race=True runs the Go program under the race detector.
Each one is kept in seeded/<id>/ only if it builds, passes the stable tests,
and its demonstration passes on /repo and fails with the change.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV = ". /opt/vp/env.sh; "

HEAD = """#!/bin/bash
# Run with the repository as the working directory: exits 0 if the guarantee
# holds for the demonstrated case.
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
"""
GO = HEAD + """cp "$here/main.go.txt" "$tmp/main.go"
cat > "$tmp/go.mod" <<EOF
module demo

go 1.16

require github.com/mmcloughlin/ssarules v0.0.0

replace github.com/mmcloughlin/ssarules => $repo
EOF
cd "$tmp" || exit 2
%s
"""


def sh(cmd, cwd, timeout=900):
    return subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)


def tests(cwd, out):
    r = sh("go test -json -vet=off -count=1 -timeout 10m ./... > %s" % out, cwd)
    ok, bad = set(), set()
    for l in open(out):
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("Test") and d.get("Action") in ("pass", "fail"):
            (ok if d["Action"] == "pass" else bad).add(d["Package"] + "/" + d["Test"])
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(want - ok)


def build(s, only):
    if only and s["id"] not in only:
        return
    work = tempfile.mkdtemp(prefix="seed-")
    try:
        copy = work + "/repo"
        subprocess.check_call(["cp", "-a", REPO, copy])
        for f, old, new in s["edits"]:
            p = os.path.join(copy, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT matches", t.count(old), "times in", f, repr(old[:60]))
                return
            open(p, "w").write(t.replace(old, new))
        files = [os.path.join(copy, f) for f, _, _ in s["edits"]]
        r = sh("gofmt -l " + " ".join(files), copy)
        if r.stdout.strip():
            sh("gofmt -w " + " ".join(files), copy)
        diff = subprocess.check_output(["git", "diff"], cwd=copy, text=True)
        r = sh("go build ./...", copy)
        if r.returncode:
            print(s["id"], "BUILD", r.stderr[:1000])
            return
        missing = tests(copy, work + "/out.json")
        if missing:
            print(s["id"], "TESTS", missing[:5])
            return
        d = work + "/demo"
        os.makedirs(d)
        if s["demo"].startswith("#!sh"):
            open(d + "/demo.sh", "w").write(HEAD + s["demo"].split("\n", 1)[1])
        else:
            open(d + "/main.go.txt", "w").write(s["demo"].lstrip())
            run = "CGO_ENABLED=1 go run -race ." if s.get("race") else "go run ."
            open(d + "/demo.sh", "w").write(GO % run)
        a = sh("bash %s/demo.sh" % d, REPO)
        b = sh("bash %s/demo.sh" % d, copy)
        if a.returncode != 0 or b.returncode == 0:
            print(s["id"], "DEMO clean", a.returncode, "patched", b.returncode, (a.stdout + a.stderr)[-800:], "|", (b.stdout + b.stderr)[-800:])
            return
        dst = os.path.join(ROOT, "seeded", s["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        open(dst + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        print(s["id"], "kept;", (b.stdout + b.stderr).strip().replace("\n", " | ")[:150])
    finally:
        shutil.rmtree(work)


spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    list(ex.map(lambda s: build(s, sys.argv[2:]), m.SEEDS))
