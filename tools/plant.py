#!/usr/bin/env python3
"""plant.py verify <id>... : apply seeded/<id>/patch.diff in a scratch copy of /repo, build, run tests and the demonstration.
   plant.py make <file.py> : writes seeded/<id>/ from PLANTS of a file (edits of /repo, demonstration, meta).
   plant.py check <id> <property>... : run checks with the change applied to /repo, and undo it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def sh(cmd, cwd=None, timeout=900, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)


def make(f):
    ns = {}
    exec(open(f).read(), ns)
    made = []
    for p in ns["PLANTS"]:
        d = os.path.join(SEEDED, p["id"])
        if os.path.exists(d):
            continue
        scratch = tempfile.mkdtemp(prefix="plant", dir="/tmp")
        sh("git -C /repo worktree prune; git clone -q /repo %s/r" % scratch)
        r = scratch + "/r"
        ok = True
        for file, old, new in p["edits"]:
            full = os.path.join(r, file)
            s = open(full).read()
            if s.count(old) != 1:
                print(p["id"], "pattern occurs", s.count(old), "times:", old[:60])
                ok = False
                continue
            open(full, "w").write(s.replace(old, new))
        if ok:
            diff = sh("git diff", r).stdout
            os.makedirs(d)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            if p.get("node"):
                shutil.copy(os.path.join(HERE, "tools", "demo_node.js"), os.path.join(d, "node.js"))
                open(os.path.join(d, "demo.js"), "w").write(p["demo"].lstrip())
                open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec timeout 120 node "$(dirname "$0")/demo.js"\n')
            else:
                shutil.copy(os.path.join(HERE, "tools", "demo_client.py"), os.path.join(d, "client.py"))
                open(os.path.join(d, "demo.py"), "w").write(
                    "import os, sys, time\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom client import *\n\n"
                    + p["demo"].lstrip() + "\nprint('fine')\n")
                open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec timeout 200 python3 "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            made.append(p["id"])
        shutil.rmtree(scratch)
    return made


def original(r):
    """are the lines a patch removes those of the original repository?"""
    base = sh("git -C /repo log --format=%h --reverse | head -1").stdout.strip()
    out = []
    diff = sh("git diff -U0", r).stdout
    file = None
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            file = line[6:]
        elif line.startswith("@@"):
            a = line.split()[1][1:].split(",")
            n = int(a[1]) if len(a) > 1 else 1
            if n:
                b = sh("git -C /repo blame -s -L %s,+%d HEAD -- %s" % (a[0], n, file)).stdout
                out += [x.split()[0].lstrip("^")[:7] == base[:7] for x in b.splitlines()]
    return out


def verify(ids):
    import concurrent.futures

    def one(i, slot):
        scratch = "/tmp/plant-verify-%d" % slot
        r = scratch + "/repo"
        if not os.path.isdir(r):
            os.makedirs(scratch, exist_ok=True)
            sh("cp -a /repo %s" % r)
        sh("git checkout -q -- . ; git clean -fdq; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", r)
        if sh("git apply %s/%s/patch.diff" % (SEEDED, i), r).returncode:
            return i, "does not apply"
        orig = original(r)
        b = sh("CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%s/target cargo build --offline --workspace" % r, r)
        if b.returncode:
            return i, "does not build\n" + b.stderr[-2500:]
        t = sh("CARGO_TARGET_DIR=%s/target cargo test --offline --workspace 2>&1 | grep -E '^test .*(FAILED|ok)$|^error'" % r, r)
        failed = [x for x in t.stdout.splitlines() if not x.endswith("ok")]
        demo = sh("bash %s/%s/demo.sh" % (SEEDED, i), r, 300)
        clean = sh("bash %s/%s/demo.sh" % (SEEDED, i), "/repo", 300)
        res = []
        if not orig or not any(orig):
            res.append("NO ORIGINAL LINES %s" % orig)
        elif not all(orig):
            res.append("partly own lines %s" % orig)
        if failed or t.stdout.count(" ok") < 13:
            res.append("tests: %s (%d ok)" % (failed, t.stdout.count(" ok")))
        if demo.returncode == 0:
            res.append("demo passes with the patch")
        if clean.returncode:
            res.append("demo fails on the clean tree: " + clean.stdout[-300:] + clean.stderr[-600:])
        return i, ("; ".join(res) or "fine") + "   [%s]" % (demo.stdout.strip() + demo.stderr[-300:])[:160]

    slots = int(os.environ.get("SLOTS", "4"))
    with concurrent.futures.ThreadPoolExecutor(slots) as ex:
        parts = [ids[k::slots] for k in range(slots)]
        for fu in [ex.submit(lambda k=k: [print(*one(i, k), sep=": ", flush=True) for i in parts[k]]) for k in range(slots)]:
            fu.result()


def check(jobs):
    """run checks against copies of /repo with the change, from copies of /verif; jobs: (plant, property)"""
    import concurrent.futures
    import queue
    import shutil
    import time
    slots = queue.Queue()

    def slot(k):
        base = "/tmp/plant-check-%d" % k
        if not os.path.isdir(base + "/repo"):
            os.makedirs(base, exist_ok=True)
            sh("cp -a /repo %s/repo" % base)
        sh("git checkout -q -- . ; git clean -fdq; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", base + "/repo")
        shutil.rmtree(base + "/verif", ignore_errors=True)
        shutil.copytree(HERE, base + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        p = base + "/verif/lib/common.py"
        text = open(p).read().replace('REPO = "/repo"', 'REPO = "%s/repo"' % base)
        open(p, "w").write(text)
        slots.put(base)

    for k in range(int(os.environ.get("SLOTS", "2"))):
        slot(k)

    def one(job):
        i, p = job
        base = slots.get()
        r = base + "/repo"
        try:
            sh("git checkout -q -- . ; git clean -fdq", r)
            if sh("git apply %s/%s/patch.diff" % (SEEDED, i), r).returncode:
                print(i, "does not apply", flush=True)
                return
            t = time.time()
            x = sh("VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s quick" % p, base + "/verif")
            lines = [y for y in (x.stdout + x.stderr).splitlines() if "VIOLATION" in y] or (x.stdout + x.stderr).splitlines()[-2:]
            print("%-34s %s -> %d %3ds %s" % (i, p, x.returncode, time.time() - t, lines[0][:150] if lines else ""), flush=True)
            if os.environ.get("SHOW"):
                print((x.stdout + x.stderr)[-3000:], flush=True)
        finally:
            sh("git checkout -q -- .", r)
            slots.put(base)

    with concurrent.futures.ThreadPoolExecutor(slots.qsize()) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()


def prop_of(i):
    return json.load(open("%s/%s/meta.json" % (SEEDED, i)))["property"]


if __name__ == "__main__":
    cmd, rest = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        made = make(rest[0])
        print("made", made)
        verify(made)
    elif cmd == "verify":
        verify(rest or sorted(os.listdir(SEEDED)))
    elif cmd == "check":
        check([(rest[0], p) for p in rest[1:] or [prop_of(rest[0])]])
    elif cmd == "checkall":
        check([(i, prop_of(i)) for i in rest or sorted(os.listdir(SEEDED))])
