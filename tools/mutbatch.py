#!/usr/bin/env python3
"""mutbatch.py CHECK < mutations: development aid. Each mutation: a line 'bad|good: title', then 'F file', '<<<' old '===' new '>>>' blocks.
Reports which mutations the check alarms on."""
import sys, os, shutil, subprocess, tempfile, concurrent.futures as cf
chk = sys.argv[1]
muts = []; cur = None; mode = None; buf = []
for l in sys.stdin.read().split("\n"):
    if mode is None and (l.startswith("bad:") or l.startswith("good:")): cur = [l, [], None]; muts.append(cur)
    elif mode is None and l.startswith("F "): cur[2] = l[2:].strip()
    elif l == "<<<": mode = "o"; buf = []
    elif l == "===" and mode == "o": old = "\n".join(buf); mode = "n"; buf = []
    elif l == ">>>" and mode == "n": cur[1].append((cur[2], old, "\n".join(buf))); mode = None
    elif mode: buf.append(l)
def go(m):
    d = tempfile.mkdtemp(prefix="mut."); os.makedirs(d + "/src")
    try:
        for f in os.listdir("/repo/src"):
            if f.endswith((".cpp", ".c", ".h", ".in")): shutil.copy("/repo/src/" + f, d + "/src")
        for f, o, n in m[1]:
            p = d + "/src/" + f; s = open(p).read()
            if o not in s: return "NOTFOUND in " + f + ": " + o[:80]
            open(p, "w").write(s.replace(o, n, 1))
        r = subprocess.run(["python3", "/verif/check.py", chk], env=dict(os.environ, AS_REPO=d, AS_EVID=d, AS_NOCACHE="1"), capture_output=True, text=True)
        return (r.returncode, [l[:260] for l in (r.stdout + r.stderr[-1800:]).splitlines() if "VIOLATION" not in l])
    finally: shutil.rmtree(d)
with cf.ThreadPoolExecutor(4) as ex:
    for m, r in zip(muts, ex.map(go, muts)):
        if isinstance(r, str): print("??", m[0], r); continue
        want = 1 if m[0].startswith("bad") else 0
        print("ok  " if r[0] == want else "FAIL", m[0], "rc=%d" % r[0])
        for l in r[1][:-1][:3] if r[0] in (0, 1) else r[1]: print("       ", l)
