"""Whole call sequences of the SQL functions, with the per-call, multi-call and call-site memory simulated."""
from sim import *

FC, FL, RSI, FX = ("P", "fcinfo"), ("P", "flinfo"), ("P", "rsinfo"), ("P", "funcctx")
MULTI = P(("P", "multicall"), 0)

def evaluates(f):
    """an engine entry that evaluates an address"""
    return any((x.get("di") or "").replace(" ", "") == "int*" for x in f.args) or "STDADDR" in (f.d.get("rettype") or "")

class Seq(Sim):
    """one SQL function; N = rows the engine delivers; only = engine outcome to follow ('ptr', 'null' or None for both)"""
    def __init__(self, p, rep, n=None, only=None):
        Sim.__init__(self, p, rep); self.n = n; self.only = only
        self.field = lambda t, f: p.field(t, f)
    def key(self, st):
        return (Sim.key(self, st), len(st.flags.get("rows", ())), st.mem.get((RSI, self.field("ReturnSetInfo", "isDone"))), st.flags.get("ended"), len(st.flags.get("eng", ())))
    def engine(self, eng, st, info):
        r = Sim.engine(self, eng, st, info)
        if not isinstance(r, list): return r
        main = evaluates(self.entries[info.name])
        out = []
        for kind, s, v in r:
            slot = s.flags["calls"][-1][2]
            if self.only is not None and (("ptr" if v is not NULL else "null") != self.only): 
                if self.only == "ptr" or main: continue
            if self.n is not None and v is not NULL:
                for k, x in enumerate(self.entries[info.name].args):
                    if (x.get("di") or "").replace(" ", "") == "int*":
                        for q in alts(info.args[k]):
                            if q.op == "p" and s.mem.get((q.a[0], q.a[1]), UNDEF).op == "nrec": s.mem[(q.a[0], q.a[1])] = I(self.n, 32)
            if main:
                s.flags["eng"] = s.flags.get("eng", ()) + ((info.name, v, tuple(eng.argterm(st, a) for a in info.args), info.inst.get("l", 0)),)
            out.append((kind, s, v))
        return out
    full = True; missing = None
    def load(self, eng, st, obj, off, val, inst, fn):
        # members of a delivered row record are never null (obligation of C22); those of a standardized record are taken as
        # all present, all absent, or one of them absent, case by case
        if obj[0] == "ENG" and val is not None and val.op == "ld" and isinstance(off, int):
            rows = any((x.get("di") or "").replace(" ", "") == "int*" for x in self.entries[obj[1]].args)
            st.facts[mk("eq", val, NULL)] = I(1 if not rows and (self.missing == off or not self.full) else 0, 1)
        return Sim.load(self, eng, st, obj, off, val, inst, fn)
    def sql(self, eng, st, info):
        q = info.q; a = info.args
        if q == "init_MultiFuncCall":
            for f, v in (("call_cntr", I(0)), ("max_calls", I(0)), ("user_fctx", NULL), ("attinmeta", NULL), ("multi_call_memory_ctx", MULTI), ("tuple_desc", NULL)):
                st.mem[(FX, self.field("FuncCallContext", f))] = v
            st.mem[(FL, self.field("FmgrInfo", "fn_extra"))] = P(FX, 0)
            st.flags["inits"] = st.flags.get("inits", 0) + 1
            return P(FX, 0)
        if q == "per_MultiFuncCall": return eng.read(st, FL, self.field("FmgrInfo", "fn_extra"))
        if q == "end_MultiFuncCall":
            st.flags["ended"] = True
            st.mem[(FL, self.field("FmgrInfo", "fn_extra"))] = NULL
            objs = {o for o, k in st.mem if o[0] == "H" and len(o) > 3 and o[3] is MULTI}
            st.flags["freed"] = st.flags.get("freed", frozenset()) | objs
            return False if "r" not in info.inst else TOP
        if q == "get_call_result_type":
            o = self.pobj(eng, st, info, "tupdesc", self.curctx(eng, st))
            for x in alts(a[2]):
                if x.op == "p": st.mem[(x.a[0], x.a[1])] = P(o, 0)
            return I(1, 32)
        if q == "BlessTupleDesc": self.use(eng, st, a[0], info); return a[0]
        if q == "TupleDescGetAttInMetadata":
            self.use(eng, st, a[0], info); return P(self.pobj(eng, st, info, "attinmeta", self.curctx(eng, st)), 0)
        if q in ("heap_form_tuple", "BuildTupleFromCStrings"):
            self.use(eng, st, a[0], info); self.use(eng, st, a[1], info)
            vals = {}; nulls = {}
            for k in range(40):
                v = None
                for x in alts(a[1]):
                    if x.op == "p":
                        n = eng.objsize.get(x.a[0])
                        if n is not None and isinstance(x.a[1], int) and x.a[1] + 8 * k + 8 > n: continue
                        if (x.a[0], off_add(x.a[1], 8 * k)) not in st.mem and n is None: continue
                        v = join(v, eng.read(st, x.a[0], off_add(x.a[1], 8 * k)))
                if v is None: break
                for y in alts(v): self.use(eng, st, y, info)
                vals[k] = self.datum(eng, st, v)
                if q == "heap_form_tuple" and len(a) > 2:
                    for x in alts(a[2]):
                        if x.op == "p": nulls[k] = join(nulls.get(k), eng.read(st, x.a[0], off_add(x.a[1], k)))
            st.flags["rows"] = st.flags.get("rows", ()) + ((q, tuple(sorted(vals.items())), tuple(sorted(nulls.items())), (info.fn, info.inst)),)
            return P(self.pobj(eng, st, info, "tuple", self.curctx(eng, st)), 0)
        return Sim.sql(self, eng, st, info)
    def datum(self, eng, st, v):
        r = None
        for x in alts(v):
            if x.op == "p" and x.a[0][0] == "H": r = join(r, mk("ptr", eng.strval(st, x)))
            else: r = join(r, x)
        return r

def start(p, nargs):
    st = State()
    st.mem[(FC, p.field("FunctionCallInfoBaseData", "flinfo"))] = P(FL, 0)
    st.mem[(FC, p.field("FunctionCallInfoBaseData", "resultinfo"))] = P(RSI, 0)
    st.mem[(FL, p.field("FmgrInfo", "fn_extra"))] = NULL
    ao = p.field("FunctionCallInfoBaseData", "args"); sz = p.types["NullableDatum"]["size"]
    for k in range(nargs + 3):
        st.mem[(FC, ao + sz * k)] = P(("P", "arg%d" % k), 0) if k < nargs else UNDEF
    for k in ("freed", "live", "hash", "cbs"): st.flags[k] = frozenset()
    return st

class Step:
    """one call of a sequence: state before, exit"""
    __slots__ = ("n", "before", "x", "rows", "done", "client", "engine")

def sequence(p, rep, f, nargs, n, only, maxcalls, cls=Seq, skip=None):
    """all paths of the call sequence; yields lists of Step (one list per path); the sequence ends with DONE, an error or maxcalls"""
    isdone = p.field("ReturnSetInfo", "isDone")
    clients = []
    work = [(start(p, nargs), [])]
    out = []
    while work:
        st, hist = work.pop()
        k = len(hist)
        if k >= maxcalls: out.append(hist); continue
        s = st.copy(); s.flags = dict(s.flags); s.flags["calls"] = (); s.flags["rows"] = (); s.flags["eng"] = ()
        s.mem[(CMC, 0)] = P(("P", "percall%d" % k), 0)
        s.mem[(RSI, isdone)] = I(77, 32)
        s.facts = {}; s.ne = {}
        c = cls(p, rep, n, only); c.fld = not skip; e = Engine(p, c, models.models); clients.append((c, e))
        for x in e.run(f, [P(FC, 0)], s, ctx=("call%d" % (k + 1),)):
            t = Step(); t.n = k + 1; t.before = st; t.x = x; t.client = c
            t.rows = x.st.flags.get("rows", ()); t.done = x.st.mem.get((RSI, isdone)); t.engine = x.st.flags.get("eng", ())
            h = hist + [t]
            if x.kind != "ret" or (t.done is not None and t.done.op == "i" and t.done.n == 2) or x.st.flags.get("ended"): out.append(h); continue
            y = x.st.copy(); pc = P(("P", "percall%d" % k), 0)
            y.flags["freed"] = y.flags.get("freed", frozenset()) | {o for o, kk in y.mem if o[0] == "H" and len(o) > 3 and o[3] is pc}
            for q in [q for q in y.mem if q[0][0] == "A"]: del y.mem[q]
            if skip and k == 0: y.mem[(FX, p.field("FuncCallContext", "call_cntr"))] = I(skip)
            work.append((y, h))
            if len(out) + len(work) > 200: raise Giveup("too many paths in the call sequence of " + f.name)
    return out, clients

def persistent(p, st):
    """what one call leaves for the next, apart from the row counter"""
    cc = (FX, p.field("FuncCallContext", "call_cntr"))
    return {q: v for q, v in st.mem.items() if q != cc and (q[0] in (FX, FL) or q[0][0] == "G" and q != (CMC, 0) or q[0][0] == "H" and len(q[0]) > 3 and q[0][3] is MULTI)}
def counter_only(p, paths):
    """do successive rows differ only by the row counter of the call context"""
    for h in paths:
        a = [s for s in h if s.x.kind == "ret"]
        for s, t in zip(a, a[1:-1]):
            if persistent(p, s.x.st) != persistent(p, t.x.st): return False
    return True

def is_srf(p, f):
    """does the function, or something it calls, use the set-returning protocol"""
    seen = set(); wl = [f.name]
    while wl:
        n = wl.pop()
        if n in seen or n not in p.funcs: continue
        seen.add(n)
        for b in p.funcs[n].blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and i["f"][0] == "g":
                    if i["f"][1] in ("init_MultiFuncCall", "per_MultiFuncCall"): return True
                    wl.append(i["f"][1])
    return False

def records(v):
    """(engine object, constant offset) pairs a value is computed from"""
    r = set(); wl = [v]
    while wl:
        t = wl.pop()
        if isinstance(t, (tuple, frozenset)): wl.extend(t); continue
        if not isinstance(t, T): continue
        if t.op == "ld" and isinstance(t.a[0], tuple) and t.a[0][0] == "ENG": r.add((t.a[0], t.a[1])); continue
        # an object mentioned inside another term (what the engine was called with) is no source of the value
        wl.extend(x for x in t.a if isinstance(x, T) or isinstance(x, (tuple, frozenset)) and not (x and next(iter(x)) in ("ENG", "H", "A", "G", "P")))
    return r
def elemtype(p, name):
    t = (p.funcs[name].d.get("rettype") or "").replace("*", "").strip()
    return t if t in p.types else None
