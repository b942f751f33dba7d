"""Outcome contract of the engine's C interface: result xor heap-owned error message."""
from common import *

STD_TI = {"_ZTISt13runtime_error", "_ZTISt9exception", "_ZTISt11logic_error"}

class Client02(Client):
    def __init__(self, files, err):
        self.files = files; self.err = err
    def inline(self, fn):
        return fn.file in self.files
    def follow_unwind(self, info): return True
    def key(self, st):
        v = st.mem.get((("P", self.err), 0))
        sh = "unset" if v is None else ("null" if v is NULL else "msg" if v.op == "p" else "x" + v.op)
        return (sh, st.flags.get("exc"), st.flags.get("hand"), frozenset((k, v) for k, v in st.facts.items() if k.op == "fcmp"))
    def call(self, eng, st, info):
        if info.q == "__cxa_begin_catch":
            p = info.args[0]
            E = p.a[0][1] if p.op == "p" and p.a[0][0] == "EXC" else mk("E", "any", None)
            st.flags["exc"] = E
            h = "..."
            for k, v in st.facts.items():
                if v is TRUE and k.op == "eq":
                    for x, y in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                        if x.op == "sel" and x.a[0] is E and y.op == "tid" and y.a[0] in STD_TI: h = "std"
            if E.a[0] in STD_TI: h = "std"
            st.flags["hand"] = h
            st.facts = {k: v for k, v in st.facts.items() if not (k.op == "eq" and any(x.op == "sel" for x in k.a))}
            st.ne = {k: v for k, v in st.ne.items() if k.op != "sel"}
            return None
        if info.repo is not None and info.q.startswith("Lexicon::") and st.flags.get("exc") is not None and st.caught:
            st.flags.pop("exc", None); st.flags.pop("hand", None)
        if info.q == "calloc":
            s2 = st.copy()
            return [("ret", st, P(("H", (info.ctx, models.site(info)), "calloc"), 0)), ("ret", s2, NULL)]
        return None

def heap(v): return v.op == "p" and v.a[0][0] == "H" and v.a[0][2] in ("strdup", "malloc", "calloc", "strndup", "realloc", "__strdup") and v.a[1] == 0

def run(p, rep):
    rep.rule = ("abstract interpretation of every engine entry with an error slot, following the unwind edge of every call that may throw; "
                "each exit must be (non-null result, cleared slot), (null, heap message taken from the caught exception) or, for standardising only, (null, cleared slot) without a caught exception")
    files = wrapper_file(p); n = 0
    for f in sorted(c_entries(p).values(), key=lambda f: f.name):
        errs = [a for a in f.args if is_err_arg(a)]
        if len(errs) != 1: continue
        n += 1
        c = Client02(files, errs[0]["name"])
        e = Engine(p, c, models.models)
        ex = e.run(f, params(f), State())
        rep.eng(e)
        nomatch_ok = "STDADDR" in (f.d.get("rettype") or "")
        getter = (f.d.get("rettype") or "").replace(" ", "") == "void*"
        seen = set()
        kinds = {r is NULL for x in ex if x.kind == "ret" and x.st.flags.get("exc") is None and x.st.mem.get((("P", errs[0]["name"]), 0)) is NULL for r in alts(x.val if x.val is not None else TOP)}
        for x in ex:
            if x.kind != "ret": continue
            rep.ob("obligation_exit_outcome")
            err = x.st.mem.get((("P", errs[0]["name"]), 0))
            exc = x.st.flags.get("exc"); hand = x.st.flags.get("hand")
            for r in alts(x.val if x.val is not None else TOP):
                for ev in (alts(err) if err is not None else (None,)):
                    msg = None
                    isnull = r is NULL; isptr = r.op == "p" or (r.op not in ("null", "i"))
                    if ev is not None and ev is not NULL:
                        if not heap(ev):
                            msg = "reports an error through a message that is not heap-owned (%s)" % show(ev)
                        else:
                            t = eng_content(e, x.st, ev)
                            if not isnull: msg = "returns a result together with an error message"
                            elif exc is not None and hand == "std" and not contains(t, lambda q: (q.op == "what" and q.a[0] is exc) or (exc.a[1] is not None and q is exc.a[1])):
                                msg = "reports %s instead of the caught exception's message" % show(t)[:80]
                            elif t.op == "s" and t.n == b"": msg = "reports an empty error message"
                    elif exc is not None:
                        msg = "swallows an exception: returns without an error message"
                    elif isnull:
                        if not (nomatch_ok and ev is NULL): msg = "returns no result and no error message" if not nomatch_ok or ev is None else None
                        if nomatch_ok and ev is None: msg = "returns without writing the error slot"
                    elif ev is None and not getter:
                        msg = "returns a result without clearing the error slot"
                    if msg is None and nomatch_ok and exc is None and (ev is NULL):
                        rep.ob("obligation_match_decision")
                        fs = [(k, v) for k, v in x.st.facts.items() if k.op == "fcmp" and contains(k, lambda q: q.op == "mut" and "Search::" in q.a[0])]
                        def ok(val):
                            for k, v in fs:
                                t = cmpf(k, val)
                                if t is not None and t != bool(v.n): return False
                            return True
                        # the outcome depends on something else than the score (an empty list of tokens, say): not read here
                        if not fs and kinds == {True, False}: rep.ob("undecided_match_decision"); continue
                        if isptr and not isnull and (ok(-1.0) or ok(-2.0)): msg = "returns a standardized record although the search reported no match"
                        if isnull and any(ok(x) for x in (1e-6, 0.01, 0.25, 0.5, 1.0)): msg = "returns no record and no error although the search may have matched"
                    rep.sample("%s: ret=%s err=%s exc=%s" % (f.dem, r.op, "unset" if ev is None else ev.op, hand if exc is not None else "-"))
                    if msg: rep.viol("%s:%s" % (f.q, msg.split(" (")[0][:60]), loc(*x.where) if x.where else loc(f), "%s %s" % (f.dem, msg))
            if not any(True for _ in alts(x.val)): pass
        rep.ob("entries")
    if n == 0: rep.viol("anchor", "src/address_standardizer.h", "no engine entry with an error slot was found")
    rep.assumptions.append("strdup and calloc(…,1)-style allocations are modelled; only calloc is assumed able to fail")

def eng_content(e, st, v):
    return st.mem.get((v.a[0], 0), mk("cstr", v.a[0], 0))

def cmpf(k, val):
    """truth of an ordered comparison of the search score with a constant"""
    def ev(t):
        if t.op == "f":
            try: return float(t.a[0])
            except Exception: return None
        if t.op == "i" and t.n == 0: return 0.0
        if t.op in ("mut", "ret"): return val
        if t.op in ("fpext", "fptrunc"): return ev(t.a[0])
        return None
    a, b = ev(k.a[1]), ev(k.a[2])
    if a is None or b is None: return None
    return {"gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b}.get(k.a[0][1:])
