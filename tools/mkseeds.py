#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the specifications in tools/seeds/*.py (against /repo's HEAD).

Each specification module defines SEEDS: a list of dicts with id, property, needs, what_it_breaks,
edits [(file, old, new)], demo (C++ source) and optionally flags (compiler flags of the demo).
  mkseeds.py [ids...]          regenerate
  mkseeds.py --test [ids...]   also run the demonstrations on the unchanged and on the changed tree (in /tmp/vp_seedwt)
"""
import sys, os, json, subprocess, glob, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/vp_seedwt"
PRE = open(os.path.join(ROOT, "tools/seeds/demo.h")).read()
DEMO = """#!/bin/bash
# %(id)s: exit 0 when the property holds, non-zero when it is broken. Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/vp_demo.XXXXXX) || exit 9
trap 'find "$T" -delete' EXIT
%(cxx)s -std=c++17 -O1 -g -DNDEBUG -DVEIGAR_STATIC -w -pthread %(flags)s -Iinclude -iquote src -I "$D" "$D/demo.cpp" src/*.cpp -lrt -o "$T/demo" || exit 8
timeout -k 5 %(timeout)d "$T/demo"
rc=$?
echo "demo of %(id)s: exit $rc"
exit $rc
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def specs():
    r = []
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/seeds/*.py"))):
        r += runpy.run_path(f)["SEEDS"]
    ids = [s["id"] for s in r]
    assert len(set(ids)) == len(ids), "duplicate ids"
    return r


def main():
    args = sys.argv[1:]
    test = "--test" in args
    args = [a for a in args if a != "--test"]
    sh("git -C /repo worktree prune; rm -rf /tmp/vp_seedwt; mkdir -p /tmp/vp_seedwt; git -C /repo archive HEAD | tar x -C /tmp/vp_seedwt; cd /tmp/vp_seedwt && git init -q && git add -Af && git -c user.name=x -c user.email=x commit -qm base")
    bad = 0
    for s in specs():
        if args and s["id"] not in args:
            continue
        sh("git checkout -q -- .", cwd=WT)
        for f, old, new in s["edits"]:
            p = os.path.join(WT, f)
            t = open(p, newline="").read()
            if "\r\n" in t:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = s.get("count", 1)
            if t.count(old) < 1 or (n == 1 and t.count(old) != 1):
                print("%s: %d matches of the text to replace in %s:\n%s" % (s["id"], t.count(old), f, old))
                bad += 1
                continue
            open(p, "w", newline="").write(t.replace(old, new))
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "diff", "--no-color"], cwd=WT, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(PRE + s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(id=s["id"], flags=s.get("flags", ""), cxx=s.get("cxx", "g++"), timeout=s.get("timeout", 200)))
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what_it_breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        if test:
            b = sh("bash %s/demo.sh" % d, cwd=WT)
            sh("git stash -q", cwd=WT)
            a = sh("bash %s/demo.sh" % d, cwd=WT)
            sh("git stash drop -q", cwd=WT)
            ok = a.returncode == 0 and b.returncode not in (0, 8, 9)
            print("%s %s: unchanged %d, changed %d | %s" % ("ok " if ok else "BAD", s["id"], a.returncode, b.returncode, (b.stdout if a.returncode == 0 else a.stdout)[-700:]))
            bad += not ok
    sh("rm -rf /tmp/vp_seedwt")
    return bad


sys.exit(main())
