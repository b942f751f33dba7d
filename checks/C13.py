"""Native memory: freed exactly once, with its record, never used afterwards, never lost."""
from own import *
from srf import *
from C03 import sql_entries
import sqldecl

def run(p, rep):
    rep.rule = ("ownership is tracked through every engine entry (every unwind edge that something other than exhausted memory can take is followed) and through whole call histories of every SQL function with PostgreSQL's memory contexts, cleanup callbacks and hash table simulated up to the end of the query: "
                "each allocation must be reachable from what is handed to the caller or released exactly once by its own deallocator; record members are released with their record; nothing released is read, written, passed on or returned")
    rep.assumptions += ["memory exhaustion aside: only exceptions that something else than exhausted memory can cause are followed",
                        "a set-returning function is called until it ends the set (PostgreSQL offers no hook before that)"]
    made, drops = engine(p, rep)
    nodes(p, rep)
    for f in sorted(sql_entries(p), key=lambda f: f.name):
        (sets if is_srf(p, f) else plain)(p, rep, f, made, drops)

# ---- engine entries
def engine(p, rep):
    files = wrapper_file(p); made = {}; drops = {}
    for f in sorted(c_entries(p).values(), key=lambda f: f.name):
        c = Own(p, files, f.name); e = Engine(p, c, models.models)
        ex = e.run(f, params(f), State()); rep.eng(e); rep.ob("engine_entries")
        for key, fn, ins, what in c.bad: rep.viol("%s:%s:%s" % (f.name, fn.q, key), loc(fn, ins), "%s: %s" % (f.name, what))
        rt = (f.d.get("rettype") or "").replace(" ", "")
        for x in ex:
            if x.kind not in ("ret", "throw"): continue
            rep.ob("obligation_engine_exit")
            live = x.st.flags.get("live", frozenset()); freed = x.st.flags.get("freed", frozenset())
            roots = []
            val = x.val if x.kind == "ret" and x.val is not None else NULL
            outs = [("result", q) for q in alts(val) if q.op == "p"]
            for a in f.args:
                if a["ty"] != "ptr": continue
                for (o, k), v in x.st.mem.items():
                    if o == ("P", a["name"]) and k != "R": outs += [("argument " + a["name"], q) for q in alts(v) if q.op == "p"]
            for what, q in outs:
                roots.append(q.a[0])
                if q.a[0] in freed and q.a[0][0] == "H": rep.viol("%s:dangling" % f.name, loc(*x.where), "%s hands out memory it has released (%s)" % (f.name, what))
                if what == "result" and q.a[0][0] in ("A", "E"): rep.viol("%s:local" % f.name, loc(*x.where), "%s returns memory that ends with the call" % f.name)
            r = reach(x.st, roots)
            for o in live - r:
                rep.viol("%s:leak:%s" % (f.name, o[2]), loc(*x.where), "%s %s without releasing memory from %s" % (f.name, "returns" if x.kind == "ret" else "raises an exception", o[2]))
            for o in r & freed:
                if o[0] == "H": rep.viol("%s:dangling" % f.name, loc(*x.where), "%s hands out memory it has released" % f.name)
            for what, q in outs:
                if what != "result" or q.a[0][0] != "H": continue
                made.setdefault(f.name, set()).add((q.a[0][2], c.made.get(q.a[0])))
                if q.a[0][2] in ("calloc", "malloc"): members(p, rep, f, x, q.a[0], getattr(e, "repeated", ()))
            rep.sample("%s: exit with %d allocations handed out" % (f.name, len(live)))
            if rt in ("void", "") and (rel := all_frees(p).get(f.name)) and x.kind == "ret":
                for k in rel:
                    o = ("P", f.args[k]["name"]); rep.ob("obligation_deallocator")
                    if o not in freed: rep.viol("%s:keeps" % f.name, loc(*x.where), "%s ends without releasing the memory it was given" % f.name)
        for o in {q for q in c.made if q[0] == "~"}:
            if o[1][0] == "P": drops.setdefault(f.name, set()).add(c.made[o])
    return made, drops

def members(p, rep, f, x, o, repeated=()):
    """every pointer stored in a record handed to the C side is its own heap memory"""
    seen = {}
    for (ob, k), v in x.st.mem.items():
        if ob != o or k == "R": continue
        for q in alts(v):
            if q.op != "p": continue
            rep.ob("obligation_record_member")
            if q.a[0][0] in ("STR", "A", "E", "G"): rep.viol("%s:member" % f.name, loc(f), "%s stores memory in the result that its caller cannot release" % f.name)
            elif q.a[0][0] == "H":
                if q.a[0] in repeated: continue
                if q.a[0] in seen and seen[q.a[0]] != k and isinstance(k, int) and isinstance(seen[q.a[0]], int): rep.viol("%s:shared" % f.name, loc(f), "%s stores one allocation in two members of the result" % f.name)
                seen[q.a[0]] = k

# ---- classes whose destructor releases what their members point to
class Node(Own):
    """one method of a class that makes nodes, or its destructor"""
    def __init__(self, p, files, name): Own.__init__(self, p, files, name); self.deleted = 0
    def release(self, eng, st, v, info, how):
        for q in alts(v):
            if q.op != "p" or q.a[0][0] not in ("P", "A"): self.deleted += 1
        Own.release(self, eng, st, v, info, how)

def repo_file(f): return (f.file or "").startswith("src/") and f.file.endswith((".cpp", ".h"))
def calls_dem(p, f, pre):
    for b in f.blocks:
        for i in b:
            if i["op"] in ("call", "invoke") and i["f"][0] == "g":
                d = p.dem(i["f"][1])
                if d.startswith(pre): yield i

def nodes(p, rep):
    wf = wrapper_file(p); makers = []
    for f in p.funcs.values():
        if repo_file(f) and f.file not in wf and any(True for _ in calls_dem(p, f, "operator new")) and not f.q.startswith("std::"): makers.append(f)
    owners = set()
    for f in sorted(makers, key=lambda f: f.dem):
        c = Node(p, {f.file}, f.name); e = Engine(p, c, models.models)
        for x in e.run(f, params(f), State()):
            rep.ob("obligation_node_exit")
            live = x.st.flags.get("live", frozenset())
            roots = {q.a[0] for q in alts(x.val) if q.op == "p"} if x.kind == "ret" and x.val is not None else set()
            for (o, k), v in x.st.mem.items():
                if k != "R" and o[0] in ("P", "E", "G", "X") and isinstance(v, T):
                    for q in subterms(v):
                        if q.op == "p": roots.add(q.a[0])
            r = reach(x.st, roots)
            for o in live - r: rep.viol("node:%s" % f.q, loc(*x.where), "%s can end without storing or releasing an object it created" % f.dem)
            if live & r and x.kind == "ret": owners.add("::".join(f.q.split("::")[:-1]))
        rep.eng(e)
        for key, fn, ins, what in c.bad: rep.viol("%s:%s:%s" % (f.q, fn.q, key), loc(fn, ins), "%s: %s" % (f.dem, what))
    for cls in sorted(owners):
        T0 = p.types.get(cls)
        if not T0 or any("_ptr<" in str(m.get("type", "")) for m in T0["members"]): continue
        rep.ob("obligation_owning_class")
        d = [f for f in p.funcs.values() if f.q == cls + "::~" + cls.split("::")[-1]]
        if not d and not any(True for g in p.funcs.values() if not g.q.startswith(cls + "::") for _ in calls_dem(p, g, cls + "::" + cls.split("::")[-1] + "(")): continue   # never instantiated
        if not d:
            # no destructor of its own although it stores what it creates
            rep.viol("nodes:%s" % cls, "%s:%s" % (T0.get("file"), T0.get("line")), "%s stores objects it creates but has no destructor that releases them" % cls); continue
        c = Node(p, {d[0].file}, d[0].name); e = Engine(p, c, models.models)
        e.run(d[0], params(d[0]), State()); rep.eng(e)
        if not c.deleted: rep.viol("nodes:%s" % cls, loc(d[0]), "%s stores objects it creates but its destructor releases none of them" % cls)
        n = cls.split("::")[-1]
        cp = {"%s::%s(%s const&)" % (cls, n, cls), "%s::operator=(%s const&)" % (cls, cls), "%s::%s(%s&&)" % (cls, n, cls), "%s::operator=(%s&&)" % (cls, cls)}
        for g in p.funcs.values():
            for b in g.blocks:
                for i in b:
                    if i["op"] in ("call", "invoke") and i["f"][0] == "g" and p.dem(i["f"][1]) in cp and not (i["f"][1] in p.funcs and deep(p, p.funcs[i["f"][1]])):
                        rep.viol("copy:%s" % cls, loc(g, i), "%s releases what its plain pointers designate but is copied: both copies release it" % cls)

def deep(p, f):
    """a written-out copy operation creates new objects"""
    return any(True for _ in calls_dem(p, f, "operator new"))

# ---- SQL functions
class Own13(Seq):
    def mismatch(self, eng, st, o, info, how):
        if o[0] == "H":
            ctx = len(o) > 3
            if o[2] in ("palloc",) or ctx: ok = how == "pfree"
            elif o[2] in NATIVE_KINDS: ok = how == "free"
            else: return
            if not ok: self.flag("mismatch:" + info.q, info.fn, info.inst, "memory from %s is released with %s" % ("the backend's allocator" if ctx else "the C allocator", how))
        elif o[0] == "ENG":
            kinds = self.made.get(o[1], set())
            for k, cls in kinds:
                if k in NATIVE_KINDS: ok = how == "free"
                elif k == "new": ok = cls is None or how in self.drops and cls in self.drops[how]
                else: continue
                if not ok: self.flag("mismatch:" + info.q, info.fn, info.inst, "the result of %s is released with %s" % (o[1], how))
        elif o[0] == "FLD" and how != "free": self.flag("mismatch:" + info.q, info.fn, info.inst, "a member of an engine result is released with %s" % how)
NATIVE_KINDS = ("strdup", "malloc", "calloc", "strndup", "realloc", "emsg", "enginestr")

def pmembers(p, ty):
    T0 = p.types.get(ty)
    return [(m["name"], m["off"]) for m in T0["members"] if "*" in str(m.get("type", m.get("ty", "")))] if T0 else []

def queryend(p, rep, c, e, st, f, where):
    """PostgreSQL deletes the memory of the query: nested contexts first, with their callbacks"""
    outs = [st]
    for _ in range(40):
        nxt = []; more = False
        for s in outs:
            cbs = s.flags.get("cbs", frozenset())
            if not cbs: nxt.append(s); continue
            more = True
            cc = sorted(cbs, key=lambda x: (x[0].id, str(x[1])))[0][0]
            info = Info(); info.fn = f; info.inst = None; info.ctx = ("end",); info.q = "MemoryContextDelete"; info.name = info.q; info.args = [cc]
            nxt += [q[1] for q in c.delete_context(e, s, cc, info)]
        outs = nxt[:8]
        if not more: break
    return outs

def judge_end(p, rep, f, c, e, st, where, how, n):
    V = lambda key, what: rep.viol("%s:%s" % (f.name, key), where, "%s: %s" % (f.name, what))
    for s in queryend(p, rep, c, e, st.copy(), f, where):
        rep.ob("obligation_query_end")
        for o in s.flags.get("live", frozenset()):
            V("leak:%s" % (o[1] if o[0] == "ENG" else o[2]), "%s leaves %s unreleased" % (how, "the result of " + o[1] if o[0] == "ENG" else "memory from " + ("an engine error message" if o[2] == "emsg" else o[2])))
        freed = s.flags.get("freed", frozenset())
        for o in freed:
            if o[0] != "ENG": continue
            ty = elemtype(p, o[1])
            if not ty: continue
            sz = p.types[ty]["size"]
            rows = n if any((x.get("di") or "").replace(" ", "") == "int*" for x in c.entries[o[1]].args) else 1
            for k in range(rows or 0):
                for name, off in pmembers(p, ty):
                    rep.ob("obligation_member_released")
                    v = mk("ld", o, off + sz * k)
                    if ("FLD", v) not in freed and c.full and c.missing != off + sz * k:
                        V("member:" + name, "the member %s of %s is not released with its record%s" % (name, ty, "" if rows == 1 else " (record %d of %d)" % (k + 1, rows)))

def report(p, rep, f, c, e):
    rep.eng(e)
    for key, fn, ins, what in c.bad:
        rep.viol("%s:%s:%s" % (f.name, fn.q, key), loc(fn, ins), "%s: %s" % (f.name, what))

def mkcls(made, drops, full=True, missing=None):
    class K(Own13): pass
    K.made = made; K.drops = drops; K.full = full; K.missing = missing
    return K

def sets(p, rep, f, made, drops):
    d = sqldecl.decl(f.name); nargs = len(d["ins"]) if d else 5
    for n, only in ((0, "ptr"), (1, "ptr"), (3, "ptr"), (70 if rep.tier == "quick" else 300, "ptr"), (None, "null")):
        paths, clients = sequence(p, rep, f, nargs, n, only, (n or 0) + 2, cls=mkcls(made, drops))
        for c, e in clients: report(p, rep, f, c, e)
        for h in paths:
            t = h[-1]
            if t.x.kind == "throw": continue
            if t.x.kind == "ret" and t.done is not None and t.done.op == "i" and t.done.n == 1: continue
            rep.ob("call_sequences")
            judge_end(p, rep, f, clients[-1][0], clients[-1][1], t.x.st, loc(*t.x.where), "a set of %s rows that %s" % (n or 0, "ended" if t.x.kind == "ret" else "failed"), n or 0)

def plain(p, rep, f, made, drops):
    d = sqldecl.decl(f.name); nargs = len(d["ins"]) if d else 5
    ty = None
    modes = [(True, None, 6), (False, None, 1)]
    for n, g in c_entries(p).items():
        if "STDADDR" in (g.d.get("rettype") or ""): ty = "STDADDR"
    if ty and calls_entry(p, f, ty): modes += [(True, off, 1) for _, off in pmembers(p, ty)]
    for full, missing, calls in modes:
        K = mkcls(made, drops, full, missing)
        states = [start(p, nargs)]
        for k in range(calls):
            nxt = []; seen = set()
            for st0 in states[:4]:
                s = st0.copy(); s.flags = dict(s.flags); s.flags["calls"] = (); s.flags["rows"] = (); s.flags["eng"] = ()
                pc = P(("P", "percall%d" % k), 0); s.mem[(CMC, 0)] = pc; s.facts = {}; s.ne = {}
                ao = p.field("FunctionCallInfoBaseData", "args"); sz = p.types["NullableDatum"]["size"]
                for q in range(nargs): s.mem[(FC, ao + sz * q)] = P(("P", "arg%d_%d" % (q, k)), 0)
                c = K(p, rep); e = Engine(p, c, models.models)
                ex = e.run(f, [P(FC, 0)], s, ctx=("call%d" % (k + 1),)); report(p, rep, f, c, e)
                for x in ex:
                    if x.kind == "throw": continue
                    rep.ob("obligation_call_exit")
                    y = x.st.copy()
                    y.flags["freed"] = y.flags.get("freed", frozenset()) | {o for o, kk in y.mem if o[0] == "H" and len(o) > 3 and o[3] is pc}
                    failed = x.kind == "noret"
                    judge_end(p, rep, f, c, e, y, loc(*x.where), "a call that %s" % ("raises an error" if failed else "returns"), 1)
                    rep.sample("%s call %d: %s, %d native objects kept for the query" % (f.name, k + 1, "error" if failed else "returns", len(y.flags.get("live", ()))))
                    if failed: continue
                    for q in [q for q in y.mem if q[0][0] == "A"]: del y.mem[q]
                    sg = (len(y.flags.get("live", ())), len(y.flags.get("cbs", ())))
                    if sg not in seen: seen.add(sg); nxt.append(y)
            states = nxt
            if not states: break

def calls_entry(p, f, ty):
    ns = {n for n, g in c_entries(p).items() if ty in (g.d.get("rettype") or "")}
    seen = set(); wl = [f.name]
    while wl:
        n = wl.pop()
        if n in ns: return True
        if n in seen or n not in p.funcs: continue
        seen.add(n)
        for b in p.funcs[n].blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and i["f"][0] == "g": wl.append(i["f"][1])
    return False
