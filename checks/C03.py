"""SQL functions: engine failures are reported or lead to an empty result; nothing undelivered is dereferenced."""
from pg import *
import sqldecl, srf

LOADERS = lambda p: {n for n, f in c_entries(p).items() if any(is_err_arg(a) for a in f.args) and (f.d.get("rettype") or "").replace(" ", "") in ("void*", "char*")}

class C3(PG):
    def maybe_null(self, eng, st, v):
        """alternatives of a pointer value that are null, unset, or a record field that may be null"""
        for q in alts(v):
            q = eng.facted(st, q)
            if q is UNDEF: return "an unset pointer"
            if q is NULL: return "a null pointer"
            if q.op == "ld" and isinstance(q.a[0], tuple) and q.a[0][0] == "ENG" and "standardize" in q.a[0][1]:
                if NULL not in st.ne.get(q, ()): return "a component of the result that may be missing"
        return None
    def textargs(self, eng, st, info, ts):
        self.rep.ob("obligation_pointer_argument", len(ts))
        for v in ts:
            w = self.maybe_null(eng, st, v)
            if w: self.flag("%s<-%s" % (info.q, w), info.fn, info.inst, "%s is given %s" % (info.q, w))
    def entry_args(self, eng, st, info):
        f = self.entries[info.name]
        if info.name.startswith("free"): 
            for v in info.args:
                if any(q is UNDEF for q in alts(v)): self.flag(info.name + ":undef", info.fn, info.inst, "%s is given an unset pointer" % info.name)
            return
        for k, v in enumerate(info.args):
            if f.args[k]["ty"] != "ptr": continue
            self.rep.ob("obligation_engine_argument")
            w = self.maybe_null(eng, st, v)
            if w: self.flag("%s(%s)<-%s" % (info.name, f.args[k]["name"], w), info.fn, info.inst, "engine entry %s is given %s for %s" % (info.name, w, f.args[k]["name"]))
    def nullderef(self, eng, fn, ins, st):
        self.flag("deref", fn, ins, "a null or unset pointer is dereferenced")

def sql_entries(p):
    return [f for f in p.funcs.values() if (f.file or "").endswith(".c") and not f.d["internal"] and f.name + "" in {g[len("pg_finfo_"):] for g in p.funcs if g.startswith("pg_finfo_")}]

def run(p, rep):
    rep.rule = ("each engine entry is first interpreted to find how it can return (result, error slot); every SQL function is then interpreted with every such outcome at every call: "
                "the message or result it uses must have been delivered in that outcome, and a rejected lexicon or grammar must end in elog(ERROR) whose arguments contain the engine's message")
    rep.assumptions.append("memory exhaustion aside: palloc/malloc deliver, and text copies and checksums made by the engine are not null")
    es = sql_entries(p)
    if not es: rep.viol("anchor", "src/address_standardizer.c", "no SQL function found"); return
    lo = LOADERS(p)
    for f in sorted(es, key=lambda f: f.name):
        c = C3(p, rep); e = Engine(p, c, models.models)
        ex = e.run(f, params(f), State()); rep.eng(e); rep.ob("sql_functions")
        for key, fn, ins, what in c.bad: rep.viol("%s:%s:%s" % (f.name, fn.q, key), loc(fn, ins), "%s: %s" % (f.name, what))
        for x in ex:
            for tag, r, slot in x.st.flags.get("calls", ()):
                if tag[0] in lo and slot == "msg":
                    rep.ob("obligation_rejection_reported")
                    rep.sample("%s: %s rejected -> %s" % (f.name, tag[0], "error" if x.kind == "noret" else "returns"))
                    ok = x.kind == "noret" and x.val is not None and any(contains(m, lambda t: t.op == "emsg" and t.a[0] == tag[0]) for m in x.val.a[0])
                    if not ok:
                        rep.viol("%s:%s:unreported" % (f.name, tag[0]), loc(*x.where), "%s %s although %s rejected its input" % (f.name, "returns normally" if x.kind == "ret" else "raises an error without the engine's message", tag[0]))
    # set-returning functions: whole call sequence after a failure, with what the first call left behind
    for f in sorted(es, key=lambda f: f.name):
        if not srf.is_srf(p, f): continue
        d = sqldecl.decl(f.name); rep.ob("failing_sequences")
        paths, clients = srf.sequence(p, rep, f, len(d["ins"]) if d else 5, None, "null", 4, cls=failing())
        for c, e in clients:
            rep.eng(e)
            for key, fn, ins, what in c.bad:
                if key == "deref" or "<-" in key: rep.viol("%s:%s:%s" % (f.name, fn.q, key), loc(fn, ins), "%s after a failed evaluation: %s" % (f.name, what))

def failing():
    class F(srf.Seq):
        maybe_null = C3.maybe_null; nullderef = C3.nullderef
    return F
