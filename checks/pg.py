"""The PostgreSQL side: outcomes of engine entries, error exits, the set-returning call context."""
from common import *
import C02

def outcomes(p, f):
    """how an engine entry may return: set of (result 'ptr'/'null'/'void', slot 'unset'/'null'/'msg', int out parameter written)"""
    errs = [a["name"] for a in f.args if is_err_arg(a)]
    if len(errs) != 1: return None, []
    ints = [a["name"] for a in f.args if (a.get("di") or "").replace(" ", "") == "int*"]
    c = C02.Client02(wrapper_file(p), errs[0]); e = Engine(p, c, models.models)
    out = set()
    for x in e.run(f, params(f), State()):
        if x.kind != "ret": continue
        ev = x.st.mem.get((("P", errs[0]), 0)); iv = any((("P", n), 0) in x.st.mem for n in ints)
        for r in alts(x.val if x.val is not None else TOP):
            for v in (alts(ev) if ev is not None else (None,)):
                out.add(("null" if r is NULL else "ptr", "unset" if v is None else "null" if v is NULL else "msg", iv))
    return e, sorted(out)

_oc = {}
def all_outcomes(p):
    if id(p) not in _oc:
        d = {}
        for n, f in c_entries(p).items():
            e, o = outcomes(p, f)
            if o: d[n] = o
        _oc[id(p)] = d
    return _oc[id(p)]

def depth(t):
    """how many loads from the call information deep"""
    n = 0
    while t.op == "ld":
        n += 1; o = t.a[0]
        if o[0] == "X": t = o[1]
        elif o[0] == "P": return n
        else: return 99
        if t.op == "p":
            if t.a[0][0] == "P": return n
            if t.a[0][0] != "X": return 99
            t = t.a[0][1]
    return 99

class PG(Client):
    """walks one SQL function or cache function; engine entries are replaced by their outcomes"""
    def __init__(self, p, rep):
        self.p = p; self.rep = rep; self.entries = c_entries(p); self.bad = []; self.oc = {}
        self.oc = all_outcomes(p)
    def inline(self, fn): return (fn.file or "").endswith(".c")
    def key(self, st):
        nul = frozenset((k.a[0], v.n) for k, v in st.facts.items() if k.op == "eq" and k.a[1] is NULL and depth(k.a[0]) <= 2 and v.op == "i")
        return (st.flags.get("calls", ()), st.flags.get("lvl"), nul)
    def flag(self, key, fn, ins, what):
        if all(b[0] != key or b[1] is not fn for b in self.bad): self.bad.append((key, fn, ins, what))
    # -- engine entries
    def engine(self, eng, st, info):
        n = info.name; f = self.entries[n]; a = info.args; sid = models.site(info)
        tag = (n, info.inst.get("l", 0))
        ei = [k for k, x in enumerate(f.args) if is_err_arg(x)]
        ii = [k for k, x in enumerate(f.args) if (x.get("di") or "").replace(" ", "") == "int*"]
        if n not in self.oc:
            if f.d.get("rettype", "").replace(" ", "") in ("void", "") or "r" not in info.inst: return False
            o = ("H", (info.ctx, sid), "enginestr"); st.mem[(o, 0)] = mk("ret", n, tuple(eng.argterm(st, v) for v in a))
            return P(o, 0)
        out = []
        for r, slot, iv in self.oc[n]:
            s = st.copy()
            s.flags["calls"] = s.flags.get("calls", ()) + ((tag, r, slot),)
            for k in ei:
                for q in alts(a[k]):
                    if q.op == "p":
                        if slot == "null": s.mem[(q.a[0], q.a[1])] = NULL
                        elif slot == "msg":
                            o = ("H", (info.ctx, sid), "emsg"); s.mem[(o, 0)] = mk("emsg", n, sid)
                            s.mem[(q.a[0], q.a[1])] = P(o, 0)
            for k in ii:
                for q in alts(a[k]):
                    if q.op == "p" and iv: s.mem[(q.a[0], q.a[1])] = mk("nrec", n, sid)
            if r == "null": v = NULL
            else: v = P(("ENG", n, (info.ctx, sid), tuple(eng.argterm(st, x) for x in a)), 0)
            out.append(("ret", s, v))
        return out
    def call(self, eng, st, info):
        n = info.name
        if n in self.entries:
            self.entry_args(eng, st, info)
            return self.engine(eng, st, info)
        r = self.sql(eng, st, info)
        if r is not None: return r
        q = info.q; a = info.args
        if q in ("errstart", "errstart_cold"):
            st.flags["lvl"] = a[0].n if a[0].op == "i" else None; st.flags["msg"] = ()
            return I(1, 1)
        if q in ("errmsg_internal", "errmsg", "errdetail", "errdetail_internal", "errhint"):
            self.textargs(eng, st, info, a)
            st.flags["msg"] = st.flags.get("msg", ()) + tuple(eng.strval(st, x) if x.op in ("p", "J") else x for x in a)
            return I(0, 32)
        if q == "errfinish":
            lvl = st.flags.pop("lvl", None)
            if lvl is None or lvl >= 21: return [("noret", st, mk("elog", tuple(st.flags.get("msg", ()))))]
            return False
        if info.repo is None and q not in models.TABLE and not q.startswith("llvm."):
            r = mk("ret", q, tuple(eng.argterm(st, v) for v in a))
            for k, v in enumerate(a):          # library calls only write through pointers to locals
                for x in alts(v):
                    if x.op == "p" and x.a[0][0] == "A": eng.clobber(st, x.a[0], x.a[1], mk("mut", q, k, (r,)))
            if info.inst.get("nr"): return [("noret", st, None)]
            if q not in ("cstring_to_text", "text_to_cstring", "memcpy"): return r if "r" in info.inst else False
        if q in ("pstrdup", "strdup", "strlen", "cstring_to_text", "strcmp", "memcpy", "text_to_cstring", "strncmp"):
            self.textargs(eng, st, info, a[:2] if q in ("strcmp", "strncmp") else a[:1])
        return None
    def sql(self, eng, st, info): return None
    def entry_args(self, eng, st, info): pass
    def textargs(self, eng, st, info, ts): pass
    def join_flag(self, k, x, y): return x
