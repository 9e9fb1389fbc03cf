#!/usr/bin/env python3
"""Runs the checks against planted bugs in scratch copies of /repo.

usage: measure.py [-p PROP] [ID...]      results are appended to /tmp/measure.txt
"""
import json, os, shutil, subprocess, sys, tempfile, time

args = sys.argv[1:]
props = None
if args[:1] == ["-p"]:
    props, args = args[1].split(","), args[2:]
SEEDED = "/verif/seeded"
for bug in args or sorted(os.listdir(SEEDED)):
    meta = json.load(open(os.path.join(SEEDED, bug, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="measure-")
    wt = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", wt, symlinks=True)
        r = subprocess.run(["git", "apply", os.path.join(SEEDED, bug, "patch.diff")], cwd=wt)
        if r.returncode:
            print(bug, "DOES NOT APPLY")
            continue
        for prop in props or [meta["property"]]:
            t0 = time.time()
            p = subprocess.run(["/verif/bin/check", prop, "quick"], env=dict(os.environ, VERIF_REPO=wt), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            how = [l.strip()[:160] for l in p.stdout.splitlines() if "rejected" in l or "ERROR" in l][:2]
            line = "%-24s %s %s %.0fs %s" % (bug, prop, {0: "MISSED", 1: "caught", 2: "ERROR"}.get(p.returncode, p.returncode), time.time() - t0, how)
            print(line, flush=True)
            open("/tmp/measure.txt", "a").write(line + "\n")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
