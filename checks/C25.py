"""Set-returning SQL functions: one evaluation, each row once in order, data released at the end and not before."""
from srf import *
from C03 import sql_entries
import sqldecl

def run(p, rep):
    rep.rule = ("every set-returning SQL function is interpreted over its whole call sequence with PostgreSQL's per-call, multi-call and call-site memory simulated, for engine results of 0, 1 and 3 records and for every failing outcome; "
                "the engine must be entered exactly once, on the first call; call n must build its row from record n alone; call N+1 must end the set and the records must be released by then, not earlier; a failing engine must give no row; "
                "nothing released, and nothing allocated for a single call, may be used by a later call")
    fs = [f for f in sql_entries(p) if is_srf(p, f)]
    if not fs: rep.viol("anchor", "src/address_standardizer.c", "no set-returning SQL function found"); return
    for f in sorted(fs, key=lambda f: f.name):
        d = sqldecl.decl(f.name); nargs = len(d["ins"]) if d else 5
        for n, only in ((0, "ptr"), (1, "ptr"), (3, "ptr"), (70, "ptr"), (None, "null")):
            paths = one(p, rep, f, nargs, n, only)
            if n == 3: plain = counter_only(p, paths)
        # rows depend on the row counter alone: the end of a long set is reached by advancing the counter
        if plain:
            for n in (300, 70000): one(p, rep, f, nargs, n, "ptr", n - 1)
        else: rep.ob("undecided")

def one(p, rep, f, nargs, n, only, skip=None):
    paths, clients = sequence(p, rep, f, nargs, n, only, (n or 0) + 2 if not skip else 4, skip=skip)
    for c, e in clients:
        rep.eng(e)
        for key, fn, ins, what in c.bad:
            if key.startswith(("use", "double", "bounds", "callback")): rep.viol("%s:%s:%s" % (f.name, fn.q, key), loc(fn, ins), "%s: %s" % (f.name, what))
    V = lambda key, x, what: rep.viol("%s:%s" % (f.name, key), loc(*x.where), "%s: %s" % (f.name, what))
    for h in paths:
        rep.ob("call_sequences")
        last = h[-1]; stop = False
        if last.x.kind != "ret":
            rep.ob("obligation_error_exit"); continue
        obj = None
        for s in h:
            rep.ob("obligation_call")
            nth = s.n if not skip or s.n == 1 else skip + s.n - 1
            if s.engine and s.n > 1: V("again", s.x, "the address is evaluated again on call %d" % s.n)
            if len(s.engine) > 1: V("twice", s.x, "the address is evaluated %d times on one call" % len(s.engine))
            if s.n == 1 and not s.engine: V("noeval", s.x, "the first call does not evaluate the address")
            if s.engine and s.engine[0][1].op == "p": obj = s.engine[0][1].a[0]
            isdone = s.done.n if s.done is not None and s.done.op == "i" else None
            want_row = only == "ptr" and n is not None and nth <= n
            if isdone is None: rep.ob("undecided"); continue
            if isdone == 77: V("protocol", s.x, "call %d returns without saying whether the set continues or ends" % s.n); continue
            if isdone == 1 and not want_row: V("extra", s.x, "call %d delivers a row although the engine %s" % (nth, "reported %d" % n if only == "ptr" else "failed"))
            if isdone == 2 and want_row: V("early", s.x, "the set ends on call %d although the engine reported %d rows" % (nth, n)); stop = True
            if isdone == 1 and want_row:
                if len(s.rows) != 1: V("rows", s.x, "call %d builds %d rows" % (s.n, len(s.rows)))
                for q, vals, nulls, (fn, ins) in s.rows[:1]:
                    rep.ob("obligation_row")
                    ty = elemtype(p, s.engine[0][0] if s.engine else h[0].engine[0][0]) if h[0].engine else None
                    sz = p.types[ty]["size"] if ty else None
                    for k, v in vals:
                        rec = records(v)
                        if not rec:
                            if v is TOP or v.op in ("w",): rep.ob("undecided")
                            elif v is UNDEF: rep.viol("%s:unset" % f.name, loc(fn, ins), "%s: value %d of the row is never set" % (f.name, k + 1))
                            continue
                        for o, off in rec:
                            if o != obj: rep.viol("%s:other" % f.name, loc(fn, ins), "%s: value %d comes from another result" % (f.name, k + 1))
                            elif sz and isinstance(off, int):
                                rep.ob("obligation_row_value")
                                if off // sz != nth - 1: rep.viol("%s:row" % f.name, loc(fn, ins), "%s: row %d takes value %d from record %d" % (f.name, nth, k + 1, off // sz + 1))
                            else: rep.ob("undecided")
                    rep.sample("%s N=%s call %d: row from record %s" % (f.name, n, nth, sorted({off // sz for _, v in vals for o, off in records(v) if sz and isinstance(off, int)})))
            if obj is not None:
                fr = obj in s.x.st.flags.get("freed", ())
                if fr and isdone == 1: V("freed-early", s.x, "the records are released on call %d, before the set ends" % s.n)
                if isdone == 2 and not fr: V("not-released", s.x, "the set ends without the records being released")
        if len(h) >= ((n or 0) + 2 if not skip else 4) or (last.done is not None and last.done.op == "i" and last.done.n == 1):
            if not stop: V("endless", last.x, "the set does not end after %s rows" % n)
    return paths
