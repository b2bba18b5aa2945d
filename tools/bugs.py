#!/usr/bin/env python3
"""Development aid: makes, confirms and measures the planted changes of seeded/.

  bugs.py confirm ID...      in a scratch copy: applies, builds, passes the
                             stable tests, demo passes without and fails with
  bugs.py catch ID... [-- PROP...]  runs checks (default: the bug's property)
                             against a scratch copy with the change
No registered check uses this file.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

SEEDED = "/verif/seeded"
REPO = os.environ.get("BUGS_REPO", "/repo")
HARNESS = os.environ.get("BUGS_HARNESS", "/verif/harness")
ENV = dict(os.environ, PATH="/usr/local/go/bin:" + os.environ["PATH"], HOME="/root", GOTOOLCHAIN="local",
           GOPROXY="off", GOWORK="off", GOSUMDB="off")

DEMO = r'''#!/bin/bash
# run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 9
trap 'rm -rf -- "${tmp:?}"' EXIT
export PATH=/usr/local/go/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off
printf '{"Replace":{"%s/zz_demo/main.go":"%s/demo.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 9
timeout 120 "$tmp/demo"
'''


def sh(cmd, cwd=None, env=ENV, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)


def copy():
    d = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", REPO, r])
    return d, r


def make(id, prop, needs, what, edits, demo, confirm_it=True):
    """Creates seeded/<id> from edits [(file, old, new)]."""
    out = os.path.join(SEEDED, id)
    d, r = copy()
    try:
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit("%s: %d matches in %s of %r" % (id, s.count(old), f, old))
            open(p, "w").write(s.replace(old, new))
        fmt = sh("gofmt -l " + " ".join(f for f, _, _ in edits), r)
        if fmt.stdout.strip():
            print("%s: gofmt %s" % (id, fmt.stdout))
        diff = subprocess.check_output(["git", "diff"], cwd=r, text=True)
    finally:
        shutil.rmtree(d)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.go"), "w").write(demo.lstrip())
    open(os.path.join(out, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    with open(os.path.join(out, "meta.json"), "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, f, indent=1, ensure_ascii=False)
        f.write("\n")
    return confirm(id) if confirm_it else True


def stable(r, d):
    """Runs the stable tests of the copy."""
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["stable"])
    p = sh("go test -json -count=1 ./... > %s/t.json 2>&1" % d, r)
    res = {}
    for line in open(d + "/t.json"):
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("Action") in ("pass", "fail") and e.get("Test"):
            res[e["Package"] + "/" + e["Test"]] = e["Action"]
    bad = [t for t in want if res.get(t) != "pass"]
    return bad, len(want)


def confirm(id):
    out = os.path.join(SEEDED, id)
    d, r = copy()
    try:
        x = sh("bash %s/demo.sh" % out, r)
        if x.returncode != 0:
            print(id, "BAD: demo fails on the unchanged tree:", x.stdout[-800:])
            return False
        x = sh("git apply %s/patch.diff" % out, r)
        if x.returncode != 0:
            print(id, "BAD: does not apply", x.stdout)
            return False
        x = sh("go build ./... && go vet ./...", r)
        if x.returncode != 0 and "build" in x.stdout:
            print(id, "BAD: build", x.stdout[-800:])
            return False
        bad, n = stable(r, d)
        if bad:
            print(id, "BAD: tests fail", bad[:8])
            return False
        x = sh("bash %s/demo.sh" % out, r)
        if x.returncode in (0, 9):
            print(id, "BAD: demo does not fail with the change", x.returncode, x.stdout[-500:])
            return False
        print(id, "ok (%d tests) demo says: %s" % (n, x.stdout.strip()[-200:]))
        return True
    finally:
        shutil.rmtree(d)


def catch(id, props, tier="quick"):
    out = os.path.join(SEEDED, id)
    meta = json.load(open(out + "/meta.json"))
    props = props or [meta["property"]]
    d, r = copy()
    found = []
    try:
        if sh("git apply %s/patch.diff" % out, r).returncode:
            print(id, "does not apply")
            return
        shutil.copytree(HARNESS, d + "/harness")
        mod = open(d + "/harness/go.mod").read().replace("=> /repo", "=> " + r)
        open(d + "/harness/go.mod", "w").write(mod)
        env = dict(ENV, GOFLAGS="-mod=mod", VERIF_ROOT=d, VERIF_SEED="1", VERIF_TIER=tier)
        built = {}
        for p in props:
            race = "-race" if p.startswith("X") else ""
            if race not in built:
                x = sh("go build %s -o %s/vmon%s ." % (race, d, race), d + "/harness", env)
                if x.returncode:
                    print(id, "harness does not build", x.stdout[-500:])
                    return
                built[race] = True
            x = sh("%s/vmon%s run %s" % (d, race, p), d, env, 1200)
            if x.returncode == 1:
                found.append(p)
            elif x.returncode != 0:
                print(id, p, "exit", x.returncode, x.stdout[-300:])
            if len(props) == 1:
                print("   ", x.stdout.strip().replace("\n", " | ")[:260])
    finally:
        shutil.rmtree(d)
    print(id, "target", meta["property"], "CAUGHT by" if meta["property"] in found else "MISSED, others:", " ".join(found))
    return found


if __name__ == "__main__":
    args = sys.argv[2:]
    props = []
    if "--" in args:
        k = args.index("--")
        args, props = args[:k], args[k + 1:]
    if not args:
        args = sorted(os.listdir(SEEDED))
    if props == ["all"]:
        props = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
    for a in args:
        if sys.argv[1] == "confirm":
            confirm(a)
        else:
            catch(a, props)
