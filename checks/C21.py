"""The SQL declarations and the C functions behind them agree."""
from srf import *
from C03 import sql_entries
import sqldecl

# argument name in the SQL declaration -> what it is called in the engine's interface
PURPOSE = ("address", "grammar", "lexicon", "locale", "filter")

def purpose(name):
    for q in PURPOSE:
        if name and name.lower().startswith(q): return q
    return None

class S21(Seq):
    """records reads beyond the declared arguments and what the engine is given"""
    def __init__(self, p, rep, n=None, only=None):
        Seq.__init__(self, p, rep, n, only); self.given = {}; self.beyond = []
        self.ao = p.field("FunctionCallInfoBaseData", "args"); self.sz = p.types["NullableDatum"]["size"]
    def load(self, eng, st, obj, off, val, inst, fn):
        if obj == FC and isinstance(off, int) and off >= self.ao + self.sz * self.nargs:
            self.beyond.append((fn, inst, (off - self.ao) // self.sz))
        return Seq.load(self, eng, st, obj, off, val, inst, fn)
    def entry_args(self, eng, st, info):
        f = self.entries[info.name]
        for k, a in enumerate(f.args):
            w = purpose(a.get("name"))
            if w is None or k >= len(info.args) or (a.get("di") or "").replace(" ", "") not in ("char*",): continue
            self.given.setdefault((info.name, w), []).append((eng.argterm(st, info.args[k]), info.fn, info.inst))
        Seq.entry_args(self, eng, st, info)

def argsof(t):
    """the SQL arguments a term is made of"""
    return {int(u.a[0][1][3:]) for u in subterms(t) if u.op in ("ld", "cstr", "p", "text") and isinstance(u.a[0], tuple) and u.a[0][0] == "P" and u.a[0][1].startswith("arg") and u.a[0][1][3:].isdigit()}

def run(p, rep):
    rep.rule = ("the SQL script is parsed; every C symbol it names must exist with its call-convention record and be declared strict; the C function is interpreted with exactly the declared arguments: it may read no other, each declared argument must reach the engine parameter of that name and nothing else, "
                "and the row or value it builds must hold, for every declared output column in order, the record member of that name in the representation of the declared type")
    ds = [d for d in sqldecl.all_decls() if (d["lang"] or "").lower() == "c"]
    if not ds: rep.viol("anchor", "src/*.sql.in", "no C function is declared in the SQL script"); return
    have = {g[len("pg_finfo_"):] for g in p.funcs if g.startswith("pg_finfo_")}
    declared = {d["symbol"] for d in ds}
    for d in ds:
        n = d["name"]; sy = d["symbol"]; where = "src/*.sql.in: function %s" % n
        rep.ob("obligation_symbol")
        if sy not in p.funcs or p.funcs[sy].d["internal"]: rep.viol("symbol:" + n, where, "%s is declared with the C symbol %s, which does not exist" % (n, sy)); continue
        if sy not in have: rep.viol("finfo:" + n, where, "the C symbol %s of %s has no PG_FUNCTION_INFO_V1 record" % (sy, n)); continue
        rep.ob("obligation_strict")
        if not d["strict"]: rep.viol("strict:" + n, where, "%s is not declared strict although its C function reads its arguments unconditionally" % n)
        if [x for x in ds if x["symbol"] == sy][0] is d or True: one(p, rep, d, p.funcs[sy])
    for sy in sorted(have - declared): rep.ob("undeclared_symbol")
    for sy in ("as_standardize", "as_parse", "as_match", "as_compile_lexicon"):
        if sy not in {d["name"] for d in ds}: rep.viol("missing:" + sy, "src/*.sql.in", "the documented function %s is not declared" % sy)

def one(p, rep, d, f):
    nargs = len(d["ins"]); n = d["name"]
    V = lambda key, where, what: rep.viol("%s:%s" % (n, key), where, "%s: %s" % (n, what))
    class K(S21): pass
    K.nargs = nargs
    rows = []; clients = []; exits = []
    if is_srf(p, f):
        for cnt in (1, 3):
            paths, cl = sequence(p, rep, f, nargs, cnt, "ptr", cnt + 2, cls=K); clients += cl
            for h in paths:
                for s in h: rows += [(r, s.n, h[0].engine) for r in s.rows]; exits.append(s.x)
        if "setof" not in d["returns"]: V("setof", "src/*.sql.in: function %s" % n, "the C function returns a set but the declaration does not")
    else:
        if "setof" in d["returns"]: V("setof", "src/*.sql.in: function %s" % n, "declared to return a set but the C function returns one value")
        ty = elemtype(p, next((x for x in sorted(c_entries(p)) if "STDADDR" in (c_entries(p)[x].d.get("rettype") or "")), "")) or ""
        absent = [p.field(ty, nm) for nm, _ in d["outs"]] if ty else []
        for full, missing in [(True, None), (False, None)] + [(True, m) for m in absent if m is not None]:
            c = K(p, rep); c.full = full; c.missing = missing; e = Engine(p, c, models.models); clients.append((c, e))
            st = start(p, nargs); st.mem[(CMC, 0)] = P(("P", "percall"), 0); st.flags.update(calls=(), rows=(), eng=())
            for x in e.run(f, [P(FC, 0)], st):
                exits.append(x)
                if missing is not None:
                    for q, vals, nulls, (fn, ins) in x.st.flags.get("rows", ()):
                        if not x.st.flags.get("eng") or x.st.flags["eng"][-1][1].op != "p": continue
                        for k, v in vals:
                            if k >= len(d["outs"]): continue
                            nm = d["outs"][k][0]; rep.ob("obligation_absent_member")
                            if p.field(ty, nm) == missing: continue
                            if v is NULL: V("lost:" + nm, loc(fn, ins), "output column %s is null whenever the record has no %s" % (nm, p.fieldname(ty, missing)))
                elif full: rows += [(r, 1, x.st.flags.get("eng", ())) for r in x.st.flags.get("rows", ()) if x.st.flags.get("eng") and x.st.flags["eng"][-1][1].op == "p"]
    reached = set()
    for c, e in clients:
        rep.eng(e)
        for fn, ins, k in c.beyond: V("arg%d" % (k + 1), loc(fn, ins), "the C function reads argument %d but %d are declared" % (k + 1, nargs))
        for (entry, w), ts in c.given.items():
            for t, fn, ins in ts:
                a = argsof(t)
                rep.ob("obligation_argument_purpose")
                if not a:
                    if t is TOP or t.op in ("w", "J"): rep.ob("undecided")
                    elif t is NULL or t.op in ("s",): V("const:%s:%s" % (entry, w), loc(fn, ins), "%s is given a constant for %s" % (entry, w))
                    else: rep.ob("undecided")
                    continue
                reached |= a
                bad = [k for k in a if k < nargs and purpose(d["ins"][k][0]) != w]
                for k in bad: V("purpose:%s:%s" % (entry, w), loc(fn, ins), "the engine's %s (%s) is given SQL argument %d, which is declared as %s" % (w, entry, k + 1, d["ins"][k][0]))
                rep.sample("%s: %s.%s <- argument %s" % (n, entry, w, sorted(k + 1 for k in a)))
    for k, (nm, ty) in enumerate(d["ins"]):
        rep.ob("obligation_argument_used")
        if k not in reached: V("unused:" + nm, loc(f), "argument %d (%s) never reaches the engine" % (k + 1, nm))
        if ty not in ("text",): V("type:" + nm, "src/*.sql.in", "argument %s is declared %s but read as text" % (nm, ty))
    cols = d["outs"]
    if not cols:
        # one value
        rep.ob("obligation_scalar")
        if d["returns"] != "text": V("returns", "src/*.sql.in", "declared to return %s but the C function returns text" % d["returns"])
        for x in exits:
            if x.kind != "ret": continue
            v = x.val
            for q in alts(v):
                t = clients[0][1].strval(x.st, q) if q.op == "p" else q
                if q.op == "p" and t.op != "text" and t is not TOP: V("value", loc(*x.where), "returns something that is not a text value")
                if q is NULL or q is UNDEF: V("value", loc(*x.where), "returns an unset value")
        return
    if not rows: V("norow", loc(f), "builds no result row"); return
    for (q, vals, nulls, (fn, ins)), k, eng in rows:
        vs = dict(vals); ns = dict(nulls)
        ty = elemtype(p, eng[-1][0]) if eng else None
        for c, (nm, sqlty) in enumerate(cols):
            rep.ob("obligation_column")
            v = vs.get(c)
            if v is NULL and q == "BuildTupleFromCStrings": V("column:" + nm, loc(fn, ins), "output column %d (%s) is null although the record has a value" % (c + 1, nm)); continue
            if v is None or v is UNDEF: V("column:" + nm, loc(fn, ins), "output column %d (%s) is never filled" % (c + 1, nm)); continue
            if q == "heap_form_tuple":
                b = ns.get(c)
                if b is None or b is UNDEF: V("null:" + nm, loc(fn, ins), "the null flag of output column %s is never set" % nm)
                elif b.op == "i" and b.n & 1: V("null:" + nm, loc(fn, ins), "output column %s is always null" % nm)
            off = p.field(ty, nm) if ty else None
            if off is None: V("member:" + nm, loc(fn, ins), "output column %s has no member of that name in the engine's record" % nm); continue
            sz = p.types[ty]["size"]
            rec = records(v)
            if not rec: rep.ob("undecided"); continue
            for o, of in rec:
                if isinstance(of, int) and of % sz != off: V("from:" + nm, loc(fn, ins), "output column %s is filled from the member %s" % (nm, p.fieldname(ty, of % sz)))
            rt = repr_of(v)
            if q == "BuildTupleFromCStrings":
                if rt not in ("cstring", None): V("repr:" + nm, loc(fn, ins), "output column %s is given a %s where a C string is expected" % (nm, rt))
                continue
            want = {"text": "text", "integer": "int", "int": "int", "int4": "int", "float": "double", "float8": "double", "double precision": "double", "real": "single", "float4": "single", "bigint": "int", "int8": "int"}.get(sqlty)
            if want is None: rep.ob("undecided"); continue
            mt = next((str(m.get("type")) for m in p.types[ty]["members"] if m.get("off") == off), "")
            if rt is None and "char" in mt: rt = "cstring"
            if rt is None: rt = {"int": "int", "double": "double", "float": "single"}.get(mt.strip())
            if rt is not None and rt != want: V("repr:" + nm, loc(fn, ins), "output column %s is declared %s but filled with a %s value" % (nm, sqlty, rt))
            if nm in ("pat", "seq"):
                for t in alts(v):
                    base = t.op == "add" and [x for x in t.a if isinstance(x, T) and x.op == "i"]
                    if (t.op == "ld") or (base and base[0].n != 1): V("count:" + nm, loc(fn, ins), "%s does not count from one" % nm)
    rep.ob("functions_with_rows")

def repr_of(v):
    """text, cstring, int, double or single; None if the value is the member's own representation"""
    for t in alts(v):
        if t.op == "ptr":
            x = t.a[0]
            return "text" if x.op == "text" else "cstring" if x.op in ("cstr", "s", "cat") else None
        ops = {u.op for u in top_ops(t)}
        if ops & {"fptosi", "fptoui", "trunc", "sext", "zext"}: return "int"
        if "fptrunc" in ops: return "single"
        if ops & {"fpext", "sitofp", "uitofp"}: return "double"
        if t.op == "ld": return None
    return None
def top_ops(t):
    yield t
    for x in t.a:
        if isinstance(x, T) and t.op != "ld": yield from top_ops(x)
