#!/usr/bin/env python3
"""Make and confirm a planted bug in a scratch copy.
   seed.py new ID PROP NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...]   write seeded/ID (demo.sh and its files must be there or be added)
   seed.py try ID...                                                    confirm: builds, stable tests, demo clean/patched, checks
The scratch copy is /tmp/sr with build scripts in /tmp/d/vp."""
import json, os, subprocess, sys
SR = os.environ.get("SEED_DIR", "/tmp/sr"); SD = "/verif/seeded"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def reset(): sh("git -C %s checkout -q -- ." % SR)
def sync():
    sh("git -C %s fetch -q /repo main && git -C %s reset -q --hard FETCH_HEAD" % (SR, SR))
def new(a):
    id, prop, needs, breaks = a[:4]; t = a[4:]; sync()
    for f, o, n in zip(t[::3], t[1::3], t[2::3]):
        p = SR + "/src/" + f; s = open(p).read()
        o = o.replace("\\n", "\n"); n = n.replace("\\n", "\n")
        if s.count(o) < 1: sys.exit("not found in %s: %r" % (f, o))
        s = s.replace(o, n, 1); open(p, "w").write(s)
    d = SD + "/" + id; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % SR).stdout)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    reset()
def demo(id):
    r = subprocess.run("D=$(mktemp -d); cp %s/%s/* $D; rm -f $D/*.diff $D/meta.json; cd %s; timeout 300 bash $D/demo.sh; rc=$?; rm -rf $D; exit $rc" % (SD, id, SR), shell=True, capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-300:]
def tryit(ids, quick):
    sync(); b = sh("bash /tmp/d/vp/build.sh")
    if b.returncode: sys.exit("clean build fails " + b.stdout[-500:] + b.stderr[-500:])
    clean = {i: demo(i) for i in ids}
    for i in ids:
        m = json.load(open("%s/%s/meta.json" % (SD, i)))
        out = [i, m["property"], "clean=%d" % clean[i][0]]
        if clean[i][0]: out.append("CLEAN DEMO FAILS " + clean[i][1])
        r = sh("git -C %s apply %s/%s/patch.diff" % (SR, SD, i))
        if r.returncode: print(*out, "PATCH DOES NOT APPLY", r.stderr); continue
        if quick:
            r = sh("bash /tmp/d/vp/build.sh")
            if r.returncode: print(*out, "BUILD FAILS", r.stderr[-600:]); reset(); continue
        else:
            r = sh("bash /tmp/d/vp/test.sh /tmp/d/o.json")
            o = json.load(open("/tmp/d/o.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            miss = st - set(o["passed"])
            if miss: out.append("TESTS FAIL %s %s" % (sorted(miss)[:3], r.stdout[-300:]))
        rc, txt = demo(i); out.append("patched=%d" % rc)
        if rc == 0: out.append("DEMO DOES NOT FAIL")
        c = subprocess.run(["python3", "/verif/check.py", m["property"]], env=dict(os.environ, AS_REPO=SR), capture_output=True, text=True)
        ok = c.returncode == 1 and ("VIOLATION property=%s " % m["property"]) in c.stdout
        out.append("CAUGHT" if ok else "missed rc=%d" % c.returncode)
        l = [x.strip() for x in c.stdout.splitlines() if x.strip().startswith("at ")]
        if l: out.append("| " + l[0][:160])
        reset(); print(*out, flush=True)
    sh("bash /tmp/d/vp/build.sh")
if sys.argv[1] == "new": new(sys.argv[2:])
elif sys.argv[1] in ("try", "qtry"): tryit(sys.argv[2:], sys.argv[1] == "qtry")
