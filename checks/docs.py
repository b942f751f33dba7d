"""Constant propagation of a document's text through the grammar and lexicon loaders."""
from text import *
import os, pickle

class Doc(Text):
    """the Unicode services leave printable ASCII text as it is, apart from its case"""
    def __init__(self, skip=()): self.skip = skip
    def inline(self, fn): return not any(s in fn.q for s in self.skip)
    def wild(self, eng, st, p): raise Giveup("write through an unknown pointer: " + str(p)[:200])
    def call(self, eng, st, info):
        q = info.q; m = q.split("::")[-1]
        if m in ("normalizeUTF8", "upperCaseUTF8") and info.repo is not None:
            s, a = models.sret(info)
            k = [j for j, t in enumerate(info.params) if t.startswith("std::string")]
            off = len(a) - len(info.params)
            c = eng.facted(st, eng.get_content(st, a[k[0] + off])) if k else TOP
            if c.op == "s" and text_of(c.n) is not None: return models.give(eng, st, info, S(text_of(c.n).upper().encode()) if m.startswith("upper") else c)
        if (m == "md5" or m.startswith("md5")) and info.inst.get("sret"): return models.give(eng, st, info, mk("md5", *[eng.get_content(st, x) for x in models.sret(info)[1][-1:]]))
        return Text.call(self, eng, st, info)

def ctor(p, cls):
    """the constructor of a class that reads a stream"""
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.q == cls + "::" + cls and any("istream" in (a.get("di") or "") for a in f.args) and "C2" in f.name: return f
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.q == cls + "::" + cls and any("istream" in (a.get("di") or "") for a in f.args): return f
    return None

def load(p, f, text, client=None, limit=400000):
    """(engine, exits) of loading the text with constructor f"""
    c = client or Doc(); e = Engine(p, c, models.models); e.limit = limit
    st = State(); a = params(f)
    for j, x in enumerate(f.args):
        di = x.get("di") or ""
        if "istream" in di: setstream(st, a[j].a[0], S(text))
        elif "string" in di and x["name"] != "this" and a[j].op == "p": e.set_content(st, a[j], S(b"test"))
    return e, e.run(f, a, st)

def verdict(xs):
    k = {x.kind for x in xs}
    if k == {"ret"}: return "accepted"
    if k == {"throw"}: return "rejected"
    return None

def parallel(jobs, fn, n=8, secs=150):
    """[fn(job)] over forked workers; a job that fails yields None"""
    jobs = list(jobs)
    n = min(n, os.cpu_count() or 1, max(1, len(jobs)))
    if n == 1: return [guard(fn, j) for j in jobs]
    pipes = []
    for w in range(n):
        r, wr = os.pipe(); pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                import signal
                def late(*a): raise Giveup("job time limit")
                signal.signal(signal.SIGALRM, late)
                out = []
                for i in range(w, len(jobs), n):
                    signal.alarm(secs)
                    try: out.append((i, guard(fn, jobs[i])))
                    except Giveup: out.append((i, None))
                    signal.alarm(0)
                with os.fdopen(wr, "wb") as f: pickle.dump(out, f)
            except BaseException:
                if os.environ.get("AS_DEBUG"): import traceback; traceback.print_exc()
            os._exit(0)
        os.close(wr); pipes.append((pid, r))
    res = [None] * len(jobs)
    try:
        for pid, r in pipes:
            with os.fdopen(r, "rb") as f: b = f.read()
            if b:
                for i, v in pickle.loads(b): res[i] = v
    finally:
        for pid, r in pipes:
            try: os.kill(pid, 9)
            except OSError: pass
            try: os.waitpid(pid, 0)
            except OSError: pass
    return res

def guard(fn, j):
    if os.environ.get("AS_DEBUG"): return fn(j)
    try: return fn(j)
    except (Giveup, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError): return None

# -- reading loaded objects back from the abstract memory
def sub(e, st, obj, off):
    """objects of the elements of the container at (obj, off); None when it is not known element by element"""
    c = e.facted(st, e.get_content(st, P(obj, off)))
    return [("E", (obj, off), I(i)) for i in range(len(c.a[0]))] if c.op == "seq" else None

class Unknown(Exception): pass
def val(e, st, obj, off):
    v = e.facted(st, e.read(st, obj, off))
    v = flat(e, st, v)
    if v.op == "s": return v.n.decode("latin1")
    if v.op == "i": return v.n
    if v.op == "f": return fnum(v)
    if v.op == "seq" and all(x.op in ("i", "s") for x in v.a[0]): return tuple(x.n if x.op == "i" else x.n.decode("latin1") for x in v.a[0])
    if v is NULL: return None
    raise Unknown(str(v)[:200])
def flat(e, st, v):
    return v
def elems(e, st, obj, off):
    r = sub(e, st, obj, off)
    if r is None: raise Unknown(str(e.get_content(st, P(obj, off)))[:200])
    return r
