"""The backend around the SQL functions: memory contexts, the backend hash table, native allocations."""
from pg import *

CMC = ("G", "CurrentMemoryContext")
NATIVE = ("strdup", "malloc", "calloc", "strndup", "realloc", "emsg", "enginestr")

class Sim(PG):
    """flags: freed = objects released, live = native objects owned, hash = keys present, cbs = (context, callback object)"""
    exact = True; fld = True
    def __init__(self, p, rep):
        PG.__init__(self, p, rep)
        self.frees = all_frees(p)
    def key(self, st):
        return (PG.key(self, st), st.flags.get("freed"), st.flags.get("live"), st.flags.get("hash"), st.flags.get("cbs"))
    def own(self, st, obj): st.flags["live"] = st.flags.get("live", frozenset()) | {obj}
    def is_freed(self, st, obj): return obj in st.flags.get("freed", frozenset())
    def release(self, eng, st, v, info, how):
        for q in alts(v):
            q = eng.facted(st, q)
            if q is NULL: continue
            if q.op != "p":
                if q is UNDEF: self.flag("free-unset:" + info.q, info.fn, info.inst, "%s releases an unset pointer" % info.q)
                if q.op != "ld" or not self.fld: continue
                o = ("FLD", q)
            else: o = q.a[0]
            if self.is_freed(st, o):
                if len(alts(v)) == 1: self.flag("double:" + info.q, info.fn, info.inst, "%s releases memory that was already released" % info.q)
                continue
            if q.op == "p" and isinstance(q.a[1], int) and q.a[1] and o[0] in ("H", "ENG"): self.flag("interior:" + info.q, info.fn, info.inst, "%s is given a pointer into the middle of an allocation" % info.q)
            self.mismatch(eng, st, o, info, how)
            if o[0] in ("H", "ENG", "FLD"):
                st.flags["freed"] = st.flags.get("freed", frozenset()) | {o}
                st.flags["live"] = st.flags.get("live", frozenset()) - {o}
                self.released(eng, st, o)
    def mismatch(self, eng, st, o, info, how): pass
    def released(self, eng, st, o): pass
    def load(self, eng, st, obj, off, val, inst, fn):
        if obj[0] in ("H", "ENG") and self.is_freed(st, obj): self.flag("use", fn, inst, "memory is read after it was released")
        self.bounds(eng, obj, off, fn, inst)
        return None
    def bounds(self, eng, obj, off, fn, inst):
        n = eng.objsize.get(obj)
        if n is not None and isinstance(off, int) and not 0 <= off < n: self.flag("bounds", fn, inst, "memory outside the %d bytes allocated is accessed" % n)
    def store(self, eng, st, obj, off, val, inst, fn):
        if inst is not None: self.bounds(eng, obj, off, fn, inst)
        if inst is not None and obj[0] in ("H", "ENG") and self.is_freed(st, obj): self.flag("use", fn, inst, "memory is written after it was released")
    def use(self, eng, st, v, info):
        for q in alts(v):
            if q.op == "p" and q.a[0][0] in ("H", "ENG") and self.is_freed(st, q.a[0]) and len(alts(v)) == 1:
                self.flag("use:" + info.q, info.fn, info.inst, "%s is given memory that was already released" % info.q)
    def textargs(self, eng, st, info, ts):
        for v in ts: self.use(eng, st, v, info)
    def curctx(self, eng, st): return eng.read(st, CMC, 0)
    def pobj(self, eng, st, info, kind, ctx):
        o = ("H", (info.ctx, models.site(info)), kind, ctx)
        if (o, "R") in st.mem:
            for k in range(24):
                o = ("H", (info.ctx, models.site(info)), kind, ctx, k)
                if (o, "R") not in st.mem: break
        st.mem[(o, "R")] = ()
        return o
    def delete_context(self, eng, st, c, info):
        """MemoryContextDelete: reset callbacks run, then everything allocated in the context is gone"""
        outs = [st]
        cbs = st.flags.get("cbs", frozenset())
        for cc, cb in sorted(cbs, key=lambda x: (x[0].id, str(x[1]))):
            if cc is not c: continue
            st.flags["cbs"] = st.flags["cbs"] - {(cc, cb)}
            fv = st.mem.get((cb, 0)); av = st.mem.get((cb, 8))
            nm = fv.a[0][1] if fv is not None and fv.op == "p" and fv.a[0][0] == "G" else (fv.a[0] if fv is not None and fv.op == "f" else None)
            fn = self.p.funcs.get(nm)
            if fn is None: self.rep.ob("undecided"); continue
            nxt = []
            for s in outs:
                for x in eng.run(fn, [av if av is not None else TOP], s, info.ctx):
                    if x.kind == "ret": nxt.append(x.st)
                    elif x.kind == "noret": self.flag("callback", fn, None, "the cleanup callback raises an error")
            outs = nxt
        for s in outs:
            objs = {o for o, k in s.mem if o[0] == "H" and len(o) > 3 and o[3] is c}
            s.flags["freed"] = s.flags.get("freed", frozenset()) | objs | ({c.a[0]} if c.op == "p" else set())
        return [("ret", s, False) for s in outs]
    def sql(self, eng, st, info):
        q = info.q; a = info.args
        if q == "MemoryContextSwitchTo":
            old = self.curctx(eng, st); st.mem[(CMC, 0)] = a[0]
            return old
        if q in ("palloc", "palloc0", "palloc_extended", "MemoryContextAlloc", "MemoryContextAllocZero", "SPI_palloc"):
            c = a[0] if q.startswith("MemoryContext") else self.curctx(eng, st)
            o = self.pobj(eng, st, info, "calloc" if q in ("palloc0", "MemoryContextAllocZero") else "palloc", c)
            n = a[1] if q.startswith("MemoryContext") else a[0]
            if n.op == "i": eng.objsize[o] = n.n
            return P(o, 0)
        if q in ("pstrdup", "MemoryContextStrdup", "cstring_to_text", "text_to_cstring", "cstring_to_text_with_len"):
            x = a[1] if q.startswith("MemoryContext") else a[0]
            self.use(eng, st, x, info); self.textargs(eng, st, info, [x])
            c = a[0] if q.startswith("MemoryContext") else self.curctx(eng, st)
            v = eng.strval(st, x)
            o = self.pobj(eng, st, info, "palloc", c); st.mem[(o, 0)] = v if q != "cstring_to_text" else mk("text", v)
            return P(o, 0)
        if q == "pfree":
            self.release(eng, st, a[0], info, "pfree"); return False
        if q == "free":
            self.release(eng, st, a[0], info, "free"); return False
        if q in ("strdup", "malloc", "calloc", "strndup"):
            self.use(eng, st, a[0], info)
            if q in ("strdup",): self.textargs(eng, st, info, a[:1])
            r = models.models(eng, st, info)
            if r is None: r = models.alloc(eng, st, info, q)
            if isinstance(r, T) and r.op == "p": self.own(st, r.a[0])
            return r
        if q in ("AllocSetContextCreateInternal", "AllocSetContextCreate", "MemoryContextCreate", "GenerationContextCreate", "SlabContextCreate"):
            o = ("H", (info.ctx, models.site(info)), "mcxt", a[0])
            st.mem[(o, "R")] = ()
            return P(o, 0)
        if q == "MemoryContextRegisterResetCallback":
            for x in alts(a[1]):
                if x.op == "p": st.flags["cbs"] = st.flags.get("cbs", frozenset()) | {(a[0], x.a[0])}
            return False
        if q == "MemoryContextDelete":
            self.use(eng, st, a[0], info)
            return self.delete_context(eng, st, a[0], info)
        if q == "hash_search" and len(a) == 4 and a[2].op == "i":
            k = eng.snapshot(st, a[1]) if a[1].op == "p" else TOP
            if a[1].op == "p": k = eng.read(st, a[1].a[0], a[1].a[1])
            here = k in st.flags.get("hash", frozenset())
            o = ("HE", k)
            def found(b):
                for x in alts(a[3]):
                    if x.op == "p": st.mem[(x.a[0], x.a[1])] = I(int(b), 8)
            if a[2].n in (1, 3):
                st.flags["hash"] = st.flags.get("hash", frozenset()) | {k}; found(here)
                if not here: st.mem[(o, 0)] = k
                return P(o, 0)
            found(here)
            if a[2].n == 2: st.flags["hash"] = st.flags.get("hash", frozenset()) - {k}
            return P(o, 0) if here else NULL
        if info.name in self.entries: return None
        return None
    def call(self, eng, st, info):
        n = info.name
        if n in self.frees and self.frees[n] is not None:
            self.entry_args(eng, st, info)
            for k in self.frees[n]:
                if k < len(info.args): self.release(eng, st, info.args[k], info, n)
            return False
        if n in self.entries:
            for v in info.args: self.use(eng, st, v, info)
            r = PG.call(self, eng, st, info)
            if isinstance(r, list):
                for kind, s, v in r:
                    if isinstance(v, T) and v.op == "p": self.own(s, v.a[0])
                    for k in range(len(info.args)):
                        if is_err_arg(self.entries[n].args[k]):
                            for x in alts(info.args[k]):
                                if x.op == "p":
                                    m = s.mem.get((x.a[0], x.a[1]))
                                    if m is not None and m.op == "p" and m.a[0][0] == "H" and m.a[0][2] == "emsg" and m.a[0][1] == (info.ctx, models.site(info)): self.own(s, m.a[0])
            elif isinstance(r, T) and r.op == "p": self.own(st, r.a[0])
            return r
        return PG.call(self, eng, st, info)

_fr = {}
def all_frees(p):
    if id(p) not in _fr:
        _fr[id(p)] = {n: releases(p, f) for n, f in c_entries(p).items() if (f.d.get("rettype") or "").replace(" ", "") in ("void", "")}
    return _fr[id(p)]

def releases(p, f):
    """indices of the pointer parameters that a void engine entry releases"""
    names = {a["name"]: k for k, a in enumerate(f.args)}
    hit = set()
    class R(Client):
        def inline(self, fn): return fn.file == f.file
        def call(self, eng, st, info):
            if info.q in ("free", "operator delete", "operator delete[]") or info.q.split("::")[-1].startswith("~"):
                for q in alts(info.args[0]):
                    if q.op == "p" and q.a[0][0] == "P" and q.a[0][1] in names and q.a[1] == 0: hit.add(names[q.a[0][1]])
            return None
    Engine(p, R(), models.models).run(f, params(f), State())
    return sorted(hit) if hit else None
