"""Build the whole-program IR of /repo/src and run one property check on it."""
import json, os, subprocess, sys, tempfile, time, shutil, hashlib, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("AS_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.path.insert(0, HERE)
from absint import *
import models

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def toolchain(tmp):
    """the IR exporter, compiled from engine/irdump.cpp (cached by content in /verif/build)"""
    src = os.path.join(HERE, "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(VERIF, "build", "irdump-" + h)
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cx = sh(["llvm-config-18", "--cxxflags"]).stdout.split()
    ld = sh(["llvm-config-18", "--ldflags"]).stdout.split()
    t = out + ".%d" % os.getpid()
    r = sh(["clang++", "-O1", *cx, "-frtti", "-fexceptions", "-o", t, src, *ld, "-lLLVM-18"])
    if r.returncode: raise SystemExit("cannot build irdump:\n" + r.stderr)
    os.replace(t, out)
    return out

def pgversion():
    """PGSQL_VERSION as Makefile.pg derives it"""
    v = sh(["pg_config", "--version"]).stdout
    import re
    m = re.search(r"(\d+)\.(\d+)", v)
    if m:
        return "%d%02d" % (int(m.group(1)), int(m.group(2))) if int(m.group(1)) >= 10 else m.group(1) + m.group(2)
    return "1615"

def pgvar(name, default):
    return default

def compile_one(args):
    src, out, tmp = args
    if src.endswith(".cpp"):
        cmd = ["clang++", "-std=c++0x", "-O0", "-g", "-w", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-emit-llvm", "-I", SRC, "-c", src, "-o", out]
    else:
        inc = sh(["pg_config", "--includedir-server"]).stdout.strip() or "/usr/include/postgresql/16/server"
        cmd = ["clang", "-std=gnu17", "-O0", "-g", "-w", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-DPGSQL_VERSION=" + pgversion(), "-I", inc, "-I", SRC, "-emit-llvm", "-c", src, "-o", out]
    r = sh(cmd)
    return src, r.returncode, r.stderr

def sources():
    """translation units of the engine and of the PostgreSQL extension"""
    return sorted(glob.glob(SRC + "/*.cpp")) + sorted(glob.glob(SRC + "/*.c"))

def build_program():
    tmp = tempfile.mkdtemp(prefix="asv.")
    try:
        # cache across checks of one session, keyed by everything that enters the IR
        h = hashlib.sha256()
        for f in sorted(glob.glob(SRC + "/*.cpp") + glob.glob(SRC + "/*.c") + glob.glob(SRC + "/*.h")):
            h.update(os.path.basename(f).encode()); h.update(open(f, "rb").read())
        for f in ("irdump.cpp", "lib.py"): h.update(open(os.path.join(HERE, f), "rb").read())
        h.update(SRC.encode())
        cdir = os.path.join(VERIF, "build")
        cache = os.path.join(cdir, "ir-%s.json" % h.hexdigest()[:24])
        if os.path.exists(cache) and not os.environ.get("AS_NOCACHE"):
            return Program(cache)
        srcs = sources()
        with cf.ThreadPoolExecutor(9) as ex:
            tool = ex.submit(toolchain, tmp)
            jobs = [(s, os.path.join(tmp, os.path.basename(s) + ".bc"), tmp) for s in srcs]
            res = list(ex.map(compile_one, jobs))
            tool = tool.result()
        bad = [r for r in res if r[1]]
        if bad:
            for s, rc, e in bad: sys.stderr.write("%s does not compile:\n%s\n" % (s, e[-2000:]))
            raise SystemExit(3)
        out = os.path.join(tmp, "all.json")
        r = sh([tool, SRC, out, *[j[1] for j in jobs]])
        if r.returncode:
            sys.stderr.write(r.stderr[-3000:]); raise SystemExit(3)
        if os.environ.get("AS_NOCACHE"): return Program(out)
        try:
            os.makedirs(cdir, exist_ok=True)
            for old in glob.glob(cdir + "/ir-*.json"):
                if time.time() - os.path.getmtime(old) > 3600: os.unlink(old)
            shutil.copy(out, cache + ".%d" % os.getpid()); os.replace(cache + ".%d" % os.getpid(), cache)
        except OSError: pass
        return Program(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

class Report:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.viols = []; self.counts = {}; self.functions = set(); self.notes = []; self.samples = []
        self.assumptions = []; self.rule = ""
    def ob(self, kind, n=1): self.counts[kind] = self.counts.get(kind, 0) + n
    def sample(self, s):
        if len(self.samples) < 40: self.samples.append(s)
    def viol(self, key, where, what):
        """key identifies the finding independently of line numbers"""
        if all(v["key"] != key for v in self.viols):
            self.viols.append({"key": key, "where": where, "what": what})
    def eng(self, e):
        self.functions |= {e.p.funcs[n].dem for n in e.analysed if n in e.p.funcs}
        self.ob("abstract_steps", e.steps); self.ob("basic_blocks_covered", len(e.blocks_seen)); self.ob("call_sites_visited", len(e.callsites))

def loc(fn, ins=None):
    l = (ins or {}).get("l", 0) if ins else fn.line
    return "%s:%s in %s" % (os.path.basename(fn.file or "?"), l or fn.line, fn.dem)

def known():
    p = os.path.join(VERIF, "known-findings.txt"); r = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = dict(x.split("=", 1) for x in line[8:].split(" | ") if "=" in x)
                r.setdefault(d["property"].strip(), {})[d["key"].strip()] = d.get("what", "").strip()
    return r

def finish(rep, level_note=""):
    ev = os.environ.get("AS_EVID") or os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
    kn = known().get(rep.pid, {})
    new = [v for v in rep.viols if v["key"] not in kn]
    old = [v for v in rep.viols if v["key"] in kn]
    rdir = os.path.join(ev, "replay"); 
    lines = []
    for v in old: lines.append("KNOWN-FINDING: property=%s %s" % (rep.pid, v["what"]))
    for k, v in enumerate(new):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (rep.pid, k))
        json.dump(v, open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (rep.pid, path))
        lines.append("  at %s: %s" % (v["where"], v["what"]))
    cov = {"explanation": "Static analysis; nothing is executed. Rule: " + rep.rule,
           "functions_analysed": len(rep.functions), "functions": sorted(rep.functions)[:80]}
    cov.update(rep.counts)
    if rep.samples: cov["obligation_samples"] = rep.samples
    obs = sum(v for k, v in rep.counts.items() if k.startswith("obligation"))
    cov["obligations_total"] = obs
    doc = {"property": rep.pid, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
           "coverage": cov, "assumptions": rep.assumptions, "wall_s": round(time.time() - rep.t0, 2),
           "violations": [{"key": v["key"], "where": v["where"], "what": v["what"]} for v in new]}
    json.dump(doc, open(os.path.join(ev, rep.pid + ".json"), "w"), indent=1)
    for l in lines: print(l)
    print("%s: %d obligations, %d functions, %d new violations, %d known findings, %.1fs" % (rep.pid, obs, len(rep.functions), len(new), len(old), time.time() - rep.t0))
    return 1 if new else 0
