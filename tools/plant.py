#!/usr/bin/env python3
"""Turns bug descriptions into seeded/<id>/ after confirming each in a scratch
copy: it must apply, build, pass the existing tests and make its demonstration
fail, while the demonstration passes on the unchanged tree.  Then runs the
property's check on the scratch copy and reports whether it raises an alarm.

usage: plant.py WORKDIR SPEC.py [ID...]     (SPEC.py defines BUGS = [...])
       plant.py WORKDIR --recheck [ID...]   (run the checks on what is planted)

A bug is a dict with id, property, needs, breaks, edits = [(file, old, new)]
and one of
  cli  = [(args, stdin), ...]   output compared with that of the clean tree
  prog = C++ text               exit status of a program linked with the tree
  sh   = shell text             own demonstration, $here = its folder
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
WORKERS = int(os.environ.get("PLANT_WORKERS", "3"))


def sh(cmd, cwd=None, timeout=1200, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, env=env)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def copy_scripts(w):
    for n in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + n).read()
        t = t.replace("/opt/vp/build.sh", w + "/build.sh")
        t = t.replace("'trs:/repo", "'trs:%s/repo" % w)
        t = re.sub(r"cd /repo", "cd %s/repo" % w, t)
        open(w + "/" + n, "w").write(t)


def setup(work, i):
    w = "%s/w%d" % (work, i)
    if not os.path.isdir(w + "/repo"):
        os.makedirs(w, exist_ok=True)
        sh(["cp", "-a", "/repo", w + "/repo"])
        copy_scripts(w)
    sh(["git", "-C", w + "/repo", "checkout", "-q", "--", "."])
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"])[1].strip()
    if sh(["git", "-C", w + "/repo", "rev-parse", "HEAD"])[1].strip() != head:
        sh(["git", "-C", w + "/repo", "fetch", "-q", "/repo", "HEAD"])
        sh(["git", "-C", w + "/repo", "reset", "-q", "--hard", head])
    # the checks run from a copy, so that evidence and build output stay apart
    sh(["rsync", "-a", "--delete", "--exclude", "seeded", "--exclude", "build",
        "--exclude", "evidence", VERIF + "/", w + "/verif/"])
    if not os.path.isdir(w + "/verif"):
        shutil.copytree(VERIF, w + "/verif")
    return w


DEMO_HEAD = """#!/bin/bash
# run in the root of the source tree after the build
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
"""


def shq(s):
    return "'" + s.replace("'", "'\\''") + "'"


def make_demo(b, d):
    os.makedirs(d, exist_ok=True)
    t = DEMO_HEAD
    if "cli" in b:
        for a, inp in b["cli"]:
            if inp is None:
                t += "_build/thpronun/thpronun %s >>$tmp/out 2>&1 </dev/null\n" % a
            else:
                t += "printf %s | _build/thpronun/thpronun %s >>$tmp/out 2>&1\n" % (shq(inp), a)
            t += "echo \"status $?\" >>$tmp/out\n"
        t += "diff \"$here/expected.txt\" $tmp/out\n"
        open(d + "/demo.sh", "w").write(t)
        exp = subprocess.run(["bash", "-c", t.replace("diff \"$here/expected.txt\" $tmp/out", "cat $tmp/out")],
                             cwd="/repo", stdout=subprocess.PIPE).stdout
        open(d + "/expected.txt", "wb").write(exp)
    elif "prog" in b:
        open(d + "/demo.cc", "w").write(b["prog"])
        san = b.get("san")
        if san:
            t += ("g++ -std=gnu++14 -w -g -O1 -fsanitize=address,undefined -I. -D_GLIBCXX_ASSERTIONS "
                  "\"$here/demo.cc\" parser/parser.cxx dict/dict.cxx lattice/*.cxx output/*.cxx "
                  "sylstring/*.cxx thortho/*.cxx -lthai -ldatrie -o $tmp/demo || exit 2\n"
                  "ASAN_OPTIONS=detect_leaks=0 timeout 60 $tmp/demo\n")
        else:
            t += ("g++ -std=gnu++14 -w -O1 -I. \"$here/demo.cc\" _build/parser/.libs/libparser.a "
                  "_build/output/.libs/*.a _build/lattice/.libs/*.a _build/sylstring/.libs/*.a "
                  "_build/thortho/.libs/*.a _build/dict/.libs/*.a -lthai -ldatrie -o $tmp/demo || exit 2\n"
                  "timeout 60 $tmp/demo\n")
        open(d + "/demo.sh", "w").write(t)
    else:
        open(d + "/demo.sh", "w").write(t + b["sh"])
    for n, c in b.get("files", {}).items():
        open(d + "/" + n, "w").write(c)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)


def run_check(w, prop, tier="quick", seed="1"):
    env = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED=seed, VERIF_TIER=tier)
    rc, out = sh(["python3", "harness/run.py", prop, tier], cwd=w + "/verif", env=env, timeout=1500)
    line = [l for l in out.splitlines() if l.startswith("VIOLATION property=" + prop)]
    if rc == 1 and line:
        return "CAUGHT"
    if rc == 0:
        return "missed"
    return "ERROR rc=%d %s" % (rc, out[-300:])


def plant(w, b):
    bid = b["id"]
    repo = w + "/repo"
    sh(["git", "-C", repo, "checkout", "-q", "--", "."])
    for f, old, new in b["edits"]:
        p = repo + "/" + f
        t = open(p).read()
        if t.count(old) != 1:
            return bid, "BAD edit: %d occurrences in %s" % (t.count(old), f)
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "-C", repo, "diff"])[1]
    rc, out = sh(["bash", w + "/build.sh"])
    if rc:
        return bid, "BAD build " + out[-600:]
    rc, out = sh(["bash", w + "/test.sh", w + "/t.json"])
    r = json.load(open(w + "/t.json"))
    if r["failed"] or len(r["passed"]) < 16:
        return bid, "BAD tests fail %s" % r["failed"]
    d = w + "/seed-" + bid
    shutil.rmtree(d, ignore_errors=True)
    make_demo(b, d)
    open(d + "/patch.diff", "w").write(diff)
    rc, out = sh(["bash", d + "/demo.sh"], cwd="/repo", timeout=300)
    if rc:
        return bid, "BAD demo fails on clean tree " + out[-400:]
    rc, out = sh(["bash", d + "/demo.sh"], cwd=repo, timeout=300)
    if rc == 0:
        return bid, "BAD demo passes with the bug"
    dst = SEEDED + "/" + bid
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    return bid, run_check(w, b["property"])


def recheck(w, bid, props=None):
    repo = w + "/repo"
    sh(["git", "-C", repo, "checkout", "-q", "--", "."])
    rc, out = sh(["git", "-C", repo, "apply", "%s/%s/patch.diff" % (SEEDED, bid)])
    if rc:
        return bid, "BAD apply " + out
    prop = json.load(open("%s/%s/meta.json" % (SEEDED, bid)))["property"]
    if props:
        return bid, " ".join("%s=%s" % (p, run_check(w, p)[:7]) for p in props)
    return bid, prop + " " + run_check(w, prop)


def main():
    work, spec, ids = sys.argv[1], sys.argv[2], sys.argv[3:]
    ws = [setup(work, i) for i in range(WORKERS)]
    free = list(ws)

    def go(fn, *a):
        w = free.pop()
        try:
            return fn(w, *a)
        except Exception as e:
            return a[0] if isinstance(a[0], str) else a[0]["id"], "BAD %r" % e
        finally:
            sh(["git", "-C", w + "/repo", "checkout", "-q", "--", "."])
            free.append(w)

    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        if spec in ("--recheck", "--matrix"):
            props = ["P%02d" % i for i in range(1, 28)] if spec == "--matrix" else None
            todo = ids or sorted(os.listdir(SEEDED))
            fs = [ex.submit(go, recheck, i, props) for i in todo]
        else:
            ns = {}
            exec(open(spec).read(), ns)
            fs = [ex.submit(go, plant, b) for b in ns["BUGS"] if not ids or b["id"] in ids]
        for f in concurrent.futures.as_completed(fs):
            print("%s\t%s" % f.result(), flush=True)


main()
