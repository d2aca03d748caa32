#!/usr/bin/env python3
"""plant.py ID PROP NEEDS BREAKS  with edits file /tmp/pl/ID.edit (python: list E of (path, old, new)) and demo /tmp/pl/ID.c (or ID.sh)
Verifies in scratch copy, runs the check with VERIF_REPO, saves to /verif/seeded/ID."""
import sys, os, subprocess, shutil, json
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def plant(ID, prop, needs, breaks, edits, demo, extra=(), checks=None, shdemo=None, nocheck=False):
    S = "/tmp/scr-" + ID
    shutil.rmtree(S, ignore_errors=True); sh("cp -a /repo " + S)
    D = "/verif/seeded/" + ID
    shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    if demo is not None: open(D + "/demo.c", "w").write(demo)
    for n, t in extra: open(D + "/" + n, "w").write(t)
    open(D + "/demo.sh", "w").write(shdemo or """#!/bin/bash
# exit 0: the property holds in this demonstration; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=gnu11 -w -g -I. "$D/demo.c" libharbol.a -lm -ldl -o "$T/demo" || exit 2
cd "$T" && timeout 60 ./demo
""")
    os.chmod(D + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(D + "/meta.json", "w"), indent=1)
    for t in ("build.sh", "test.sh"):
        open(S + "/../pl/" + ID + t, "w").write(open("/opt/vp/" + t).read().replace("/repo", S))
    def demo_rc(): 
        r = sh("bash %s/demo.sh" % D, cwd=S); return r.returncode, r.stdout[-300:]
    ok = True
    r = sh("bash /tmp/pl/%sbuild.sh" % ID)
    if r.returncode: print(ID, "clean build fails", r.stdout[-500:]); return
    a = demo_rc()
    for p, old, new in edits:
        s = open(S + "/" + p).read()
        if s.count(old) != 1: shutil.rmtree(D); print(ID, "EDIT COUNT", s.count(old), old[:60]); shutil.rmtree(S); return
        open(S + "/" + p, "w").write(s.replace(old, new))
    # originality of changed lines
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()
    first = sh("git -C /repo log --format=%H --reverse --grep='^fix:'").stdout.split()[0]
    orig = sh("git -C /repo rev-parse %s^" % first).stdout.strip()
    d = sh("git -C %s diff -- . ':!libharbol.a'" % S).stdout
    open(D + "/patch.diff", "w").write(d)
    nonorig = []; kept = 0
    for l in d.splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:].strip():
            p = None
            if not any(l[1:] in sh("git -C /repo show %s:%s" % (orig, p)).stdout.splitlines() for p, _, _ in edits): nonorig.append(l)
            else: kept += 1
    r = sh("bash /tmp/pl/%sbuild.sh" % ID)
    if r.returncode: print(ID, "BUG build fails", r.stdout[-500:]); ok = False
    b = demo_rc()
    sh("bash /tmp/pl/%stest.sh /tmp/pl/%s.json" % (ID, ID))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); t = json.load(open("/tmp/pl/%s.json" % ID)); miss = base - set(t.get("passed", []))
    res = []
    for c in ([] if nocheck else (checks or [prop])):
        shutil.rmtree(S + "/.x", ignore_errors=True)
        r = sh("cd /verif && VERIF_REPO=%s VERIF_SEED=1 python3 check.py %s" % (S, c))
        res.append((c, r.returncode)); 
        if r.returncode not in (0, 1): print(r.stdout[-1500:])
        elif r.returncode == 1: print("   ", [x for x in r.stdout.splitlines() if "rejected event" in x][:1][0][:300])
    print("%-28s clean demo %s bug demo %s tests missing %s nonorig %s kept %d CHECKS %s" % (ID, a[0], b[0], sorted(miss), nonorig, kept, res), flush=True)
    if a[0] != 0: print("   clean:", a[1])
    if a[0] != 0 or b[0] == 0 or miss or not kept or nonorig:
        print("   !!! not usable"); 
        shutil.rmtree(D)
    shutil.rmtree(S)
    for t in ("build.sh", "test.sh", ".json"): 
        try: os.unlink("/tmp/pl/" + ID + t)
        except OSError: pass
