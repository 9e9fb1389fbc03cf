#!/usr/bin/env python3
"""Makes and confirms planted bugs: mkseed.py FILE.py [ID...]

FILE.py defines BUGS, a list of dicts: id, property, needs, breaks, edits (list
of (file, old, new)), demo (Go test source), tags (list of build tag strings
the demo runs with), race (bool), args.
Each one is built and confirmed in a scratch copy of /repo: it compiles and
passes the stable tests, and its demonstration fails with the change and passes
without it. It is then written in /verif/seeded/ID.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile

REPO, OUT = "/repo", "/verif/seeded"
ORACLE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "oracle.go.txt")
DEMO = '''#!/bin/bash
# Runs demo_test.go.txt in the package at the current directory, by an overlay.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=%(cgo)s
cat > "$tmp/o.json" <<EOT
{"Replace": {"$PWD/zz_demo_test.go": "$here/demo_test.go.txt", "$PWD/zz_oracle_test.go": "$here/oracle.go.txt"}}
EOT
for tags in %(tags)s; do
    [ "$tags" = default ] && tags=
    go test -vet=off %(race)s -tags "$tags" -overlay "$tmp/o.json" -run '^TestDemo$' -count=1 -timeout 250s . > "$tmp/out" 2>&1 || { tail -n 30 "$tmp/out"; exit 1; }
done
exit 0
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


STABLE = ". /opt/vp/env.sh; go build ./... && go build -tags buddy ./... && go test -vet=off -count=1 ./... && go test -vet=off -count=1 -tags buddy ./..."


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = sys.argv[2:]
    for bug in m.BUGS:
        if want and bug["id"] not in want:
            continue
        tmp = tempfile.mkdtemp(prefix="seed-")
        wt = os.path.join(tmp, "repo")
        try:
            shutil.copytree(REPO, wt, symlinks=True)
            sh("git checkout -q -- . && git clean -fdq", wt)
            d = os.path.join(tmp, "s")
            os.makedirs(d)
            race = bug.get("race", False)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"cgo": 1 if race else 0, "race": "-race" if race else "",
                                                            "tags": " ".join(t or "default" for t in bug.get("tags", ["", "buddy"]))})
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo_test.go.txt"), "w").write(bug["demo"])
            shutil.copy(ORACLE, os.path.join(d, "oracle.go.txt"))
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            p = sh("bash %s/demo.sh" % d, wt)
            if p.returncode != 0:
                print(bug["id"], "DEMO FAILS ON CLEAN TREE", p.stdout[-2500:])
                continue
            bad = False
            for f, old, new in bug["edits"]:
                path = os.path.join(wt, f)
                s = open(path).read()
                if s.count(old) != 1:
                    print(bug["id"], "edit matches", s.count(old), "times:", f, repr(old[:60]))
                    bad = True
                    break
                open(path, "w").write(s.replace(old, new))
            if bad:
                continue
            p = sh("gofmt -l *.go | grep -v example; " + STABLE, wt)
            if p.returncode != 0:
                print(bug["id"], "TESTS CATCH IT", p.stdout[-1500:])
                continue
            p = sh("bash %s/demo.sh" % d, wt)
            if p.returncode == 0:
                print(bug["id"], "DEMO PASSES WITH THE BUG")
                continue
            diff = sh("git diff", wt).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            dst = os.path.join(OUT, bug["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            print(bug["id"], "ok:", p.stdout.strip().splitlines()[:3] and [l for l in p.stdout.splitlines() if "demo" in l or "panic" in l or "fatal" in l or "RACE" in l][:2])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
