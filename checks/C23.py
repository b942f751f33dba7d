"""Nothing is read before it was set: locals, members of new objects, records and slots handed on."""
from common import *
import effects, re, sqldecl
from srf import *
from C03 import sql_entries
from absint import prepare, Giveup
SCALAR = re.compile(r"^(const )?(unsigned |signed |long |short )*(int|char|long|short|bool|float|double|size_t|UErrorCode|[\w:]*::\w*Type|[\w:]*Lang\w*|[\w:]*Status)( ?[*&])+$")
ARITH = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "icmp", "fcmp", "fadd", "fsub", "fmul", "fdiv", "udiv", "sdiv", "urem", "srem", "zext", "sext", "trunc", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "not", "cmp", "eq", "ne", "lt"}
def undef(t, d=0):
    """is the value made of something never set?"""
    if t is UNDEF: return True
    if not isinstance(t, T) or d > 12: return False
    if t.op in ARITH: return any(undef(x, d + 1) for x in t.a if isinstance(x, T))
    return False

def scalar(m):
    return m.get("name") and m.get("size") in (1, 2, 4, 8) and not re.search(r"std::|basic_string|&$|\[", m.get("type") or "")
def p_type(p, info):
    """the class of the element given to a container"""
    for q in reversed(info.params or []):
        q = re.sub(r"\bconst\b|&", "", q).strip()
        if q in p.types: return p.types[q]
    m = re.search(r"std::(?:vector|list|deque|set|multiset|stack|queue)<\s*([\w:]+)", p_dem(p, info))
    return p.types.get(m.group(1)) if m else None
def p_dem(p, info): return p.dem(info.name) if info.name else ""

class E23(Engine):
    def default0(self, st, obj, off):
        v = Engine.default0(self, st, obj, off)
        if v is UNDEF:
            # memory some call was free to fill
            for (o, k), w in st.mem.items():
                if o == obj and k != "R" and isinstance(w, T) and w.op in ("mut", "ret", "w", "wp") and (not isinstance(k, int) or not isinstance(off, int) or k <= off) and not self.elsewhere(obj, k, off, w): return mk("ld", obj, off)
        return v
    def elsewhere(self, obj, k, off, w):
        """the value at k fills one member of the object, and off lies outside that member"""
        if obj[0] != "A" or not isinstance(off, int) or not isinstance(k, int): return False
        f = self.p.funcs.get(obj[1][-1] if isinstance(obj[1], tuple) and obj[1] and isinstance(obj[1][-1], str) else None)
        if f is None: return False
        if not hasattr(f, "allocas"): f.allocas = {i["r"]: i.get("di") for i in f.blocks[0] if i["op"] == "alloca"}
        a = f.allocas.get(obj[2]); t = self.p.types.get((a or "").replace("const ", ""))
        if not t: return False
        m = next((m for m in t["members"] if m["off"] == k), None)
        if m is None or not m.get("size") or off < k + m["size"]: return False
        if k > 0: return True
        if w.op != "ret": return False
        rs = {g.d.get("rettype") for g in self.p.fn(w.a[0], all=True)}
        return len(rs) == 1 and None not in rs and a not in rs and (next(iter(rs)).startswith("std::") and next(iter(rs)).rstrip("&* ").replace("const ", "") not in self.p.types)

class U(Client):
    def __init__(self, p, ef, f, track=()): self.p = p; self.ef = ef; self.f = f; self.track = track; self.eng = None; self.maybe = {}; self.bad = {}; self.n = {"branch": 0, "argument": 0, "result": 0, "store": 0}
    def key(self, st):
        # states in which a tracked location is set and unset are kept apart
        return tuple(self.eng.read(st, o, off) is UNDEF for o, off in self.track) if self.track else ()
    def unset(self, kind, key, where, what, v, locs):
        """definitely unset: report; unset on some joined path: look again with the paths kept apart"""
        if v is UNDEF: self.bad.setdefault((kind,) + key, where + (what,))
        elif v is not None and v.op == "J" and UNDEF in alts(v): self.maybe.setdefault((kind,) + key, set()).update(locs)
    def inline(self, fn):
        n = fn.q.split("::")
        if len(n) > 1 and n[-1].split("[")[0] == n[-2] and not re.search("Lexicon|Grammar|Search$|Tokenizer", n[-1]): return True
        return any(r[0] == "p" and r[1] < len(fn.args) and SCALAR.match(fn.args[r[1]].get("di") or "") for r in self.ef.writes[fn.name]) or any(a["ty"] == "ptr" and SCALAR.match(a.get("di") or "") and (a.get("di") or "").endswith("&") for a in fn.args)
    def viol(self, kind, fn, ins, what): self.bad.setdefault((kind, fn.q, ins.get("l") if ins else 0), (fn, ins, what))
    def branch(self, eng, st, cond, inst, fn):
        self.n["branch"] += 1
        if undef(cond): self.viol("branch", fn, inst, "a decision depends on a value that was never set")
        return None
    def call(self, eng, st, info):
        if info.q.startswith("llvm."): return None
        for k, v in enumerate(info.args):
            if v is UNDEF or undef(v):
                ty = None
                self.n["argument"] += 1
                if info.repo is not None and k < len(info.repo.args) and info.repo.args[k]["ty"] not in ("ptr",) or info.repo is None and not (info.q.endswith("allocator") or "::" in info.q and info.inst["a"][k][0] == "undef"):
                    self.viol("argument", info.fn, info.inst, "argument %d of %s was never set" % (k + 1, info.q))
        last = info.q.split("::")[-1]
        if info.q.startswith("std::") and last in ("push_back", "emplace_back", "insert", "emplace", "push", "push_front") and len(info.args) > 1:
            o = info.args[-1]
            t = p_type(self.p, info)
            if t and o.op == "p" and o.a[0][0] == "A" and isinstance(o.a[1], int):
                for m in t["members"]:
                    if not scalar(m): continue
                    self.n["element"] = self.n.get("element", 0) + 1
                    at = (o.a[0], o.a[1] + m["off"])
                    self.unset("element", (info.fn.q, m["name"]), (info.fn, info.inst), "a record whose member %s was never set is added to a list" % m["name"], eng.read(st, *at), [at])
        if info.q in ("heap_form_tuple", "BuildTupleFromCStrings") and len(info.args) > 1 and info.args[1].op == "p":
            d = sqldecl.decl(self.f.q); nul = info.args[2] if len(info.args) > 2 else None
            for k in range(len(d["outs"]) if d else 0):
                o, off = info.args[1].a
                if not isinstance(off, int): break
                self.n["store"] += 1
                b = eng.read(st, nul.a[0], nul.a[1] + k) if nul is not None and nul.op == "p" and isinstance(nul.a[1], int) else None
                if b is not None and (b is UNDEF or b.op == "J" and UNDEF in alts(b)): self.unset("null", (info.fn.q, k), (info.fn, info.inst), "the null flag of column %d (%s) was never set when the row is built" % (k + 1, d["outs"][k][0]), b, [(nul.a[0], nul.a[1] + k)]); continue
                if b is not None and b.op == "i" and b.n & 1: continue
                self.unset("column", (info.fn.q, k), (info.fn, info.inst), "the value of column %d (%s) was never set when the row is built" % (k + 1, d["outs"][k][0]), eng.read(st, o, off + 8 * k), [(o, off + 8 * k)])
        return None

# ---- locals that are set on some paths only: paths along which an unset value is used, decisions on equal conditions kept consistent
PURE_OPS = {"icmp", "fcmp", "add", "sub", "mul", "and", "or", "xor", "zext", "sext", "trunc", "shl", "lshr", "udiv", "urem", "sdiv", "srem", "getelementptr", "load", "select", "call"}
def unset_paths(p, f):
    r, n = unset_search(p, f, False)
    if r:                                   # confirm with consistent decisions
        r, m = unset_search(p, f, True); n += m
    return r, n
def unset_search(p, f, corr):
    prepare(f); ids = {}
    def number(x): return ids.setdefault(x, len(ids))
    phis = [i for b in f.blocks for i in b if i["op"] == "phi" and any(v == ["undef"] for _, v in i["in"])]
    if not phis: return [], 0
    found = {}; steps = 0
    # state: block, predecessor, environment of undefined registers and known values, decisions by value number
    work = [(0, None, {}, {}, {})]; seen = set()
    nonrep = set()
    while work and steps < 20000:
        b, pr, env, vn, dec = work.pop()
        env = dict(env); vn = dict(vn); dec = dict(dec)
        steps += 1
        def val(v):
            if v is None: return None
            if v[0] == "undef": return "U"
            if v[0] == "c": return ("c", v[1])
            if v[0] == "r": return env.get(v[1])
            return None
        def num(v):
            if not corr: return 0
            if v and v[0] == "r": return vn[v[1]] if v[1] in vn else number(("r", v[1]))
            if v and v[0] == "gep": return number(("gep", num(v[1][0]), repr(v[1][1:])))
            return number(repr(v))
        ins = f.blocks[b]; phv = {}
        for i in ins:
            if i["op"] != "phi": break
            for q, v in i["in"]:
                if q == pr: phv[i["r"]] = (val(v), num(v))
        for r, (v, n) in phv.items():
            env[r] = v; vn[r] = n if v != "U" else number(("u", r))
        dead = False
        for i in ins:
            op = i["op"]
            if op == "phi": continue
            ops = i.get("a", [])
            u = any(val(v) == "U" for v in ops if v)
            if op in ("landingpad", "resume"): dead = True; break
            if op in ("call", "invoke"):
                if u and not (i["f"][0] == "g" and i["f"][1].startswith("llvm.")): found.setdefault((i.get("l"), "an argument of %s was never set on some path" % p.dem(i["f"][1]).split("(")[0] if i["f"][0] == "g" else "an argument"), i)
            elif op == "ret":
                if u: found.setdefault((i.get("l"), "the returned value was never set on some path"), i)
            elif op == "store":
                if val(ops[0]) == "U": found.setdefault((i.get("l"), "a value that was never set on some path is stored"), i)
            if "r" in i and op not in ("alloca",):
                if op == "select":
                    c = val(ops[0])
                    x = val(ops[1]) if c == ("c", 1) else val(ops[2]) if c == ("c", 0) else ("U" if c == "U" else None)
                    env[i["r"]] = x
                elif op in PURE_OPS and u and op != "load" and op != "call": env[i["r"]] = "U"
                elif op == "icmp" and len(ops) == 2 and all(isinstance(val(v), tuple) for v in ops) and i["p"] in ("eq", "ne"):
                    r = val(ops[0])[1] == val(ops[1])[1]; env[i["r"]] = ("c", int(r == (i["p"] == "eq")))
                elif op in ("zext", "trunc", "sext") and isinstance(val(ops[0]), tuple): env[i["r"]] = val(ops[0]) if op != "trunc" else ("c", val(ops[0])[1] & 1) if i.get("ty") == "i1" else val(ops[0])
                elif op == "xor" and all(isinstance(val(v), tuple) for v in ops): env[i["r"]] = ("c", (val(ops[0])[1] ^ val(ops[1])[1]) & 1) if i.get("ty") == "i1" else None
                else: env[i["r"]] = None
                # the same computation on the same operands is taken to give the same answer
                if not corr: pass
                elif op == "getelementptr": vn[i["r"]] = number(("gep", num(i["gep"][0]), repr(i["gep"][1:])))
                elif op in PURE_OPS or op == "invoke": vn[i["r"]] = number((op, i.get("p"), repr(i.get("f")), tuple(num(v) for v in ops)))
        if dead: continue
        t = ins[-1]
        if t["op"] == "br" and "c" in t:
            c = t["c"]; v = val(c)
            if v == "U": found.setdefault((t.get("l"), "a decision depends on a value that was never set on some path"), t); continue
            k = num(c) if corr else None
            outs = [(t["t"], 1), (t["e"], 0)]
            if isinstance(v, tuple): outs = [o for o in outs if o[1] == (v[1] & 1)]
            elif k in dec: outs = [o for o in outs if o[1] == dec[k]]
        elif t["op"] == "br": outs = [(t["t"], None)]; k = None
        elif t["op"] == "switch":
            v = val(t["c"]); k = None
            if v == "U": found.setdefault((t.get("l"), "a decision depends on a value that was never set on some path"), t); continue
            outs = [(c[1], None) for c in t["cases"] if not isinstance(v, tuple) or c[0] == v[1]]
            if not isinstance(v, tuple) or not outs: outs = outs + [(t["d"], None)]
        elif t["op"] == "invoke": outs = [(t["n"], None)]; k = None
        else: continue
        for nb, d in outs:
            dd = dict(dec)
            if d is not None and k is not None : dd[k] = d
            key = (nb, b, tuple(sorted((r, v) for r, v in env.items() if v is not None)), tuple(sorted(dd.items())))
            if key in seen: continue
            seen.add(key); work.append((nb, b, env, vn, dd))
    return [(i, what) for (l, what), i in found.items()], steps

def run(p, rep):
    rep.rule = ("every function is interpreted path by path with fresh memory undefined: no branch, call argument, returned value or member of a record handed out may be, or be computed from, an undefined value; "
                "after every constructor each scalar member of the object must be set, or be set by every method before that reads it; clang's own flow analysis must find no local variable used before it is set on some branch")
    ef = effects.Effects(p)
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not (f.file or "").startswith("src/"): continue
        ups, steps = unset_paths(p, f)
        if steps: rep.ob("obligation_partly_set_locals"); rep.ob("paths_searched", steps)
        for i, what in ups: rep.viol("path:%s:%s" % (f.q, what), loc(f, i), what)
        c = interpret(p, rep, ef, f, ())
        if c is None: rep.ob("undecided"); continue
        rep.ob("obligation_function")
        bad = dict(c.bad)
        for k, locs in sorted(c.maybe.items(), key=str):
            if k in bad: continue
            rep.ob("obligation_set_on_every_path")
            d = interpret(p, rep, ef, f, tuple(sorted(locs, key=str))[:4]) if locs else None
            if d is None: rep.ob("undecided"); continue
            if k in d.bad: bad[k] = d.bad[k]
        for k, (fn, ins, what) in bad.items(): rep.viol(":".join(str(x) for x in k[:2]), loc(fn, ins), what)
    members(p, rep, ef)
    # whole call sequences of the set-returning functions, the engine delivering rows or failing: what a failed engine call leaves unset must not be used
    for f in sorted((f for f in sql_entries(p) if is_srf(p, f)), key=lambda f: f.name):
        d = sqldecl.decl(f.name)
        for only in ("ptr", "null"):
            paths, clients = sequence(p, rep, f, len(d["ins"]) if d else 5, 1, only, 3, cls=S23)
            rep.ob("obligation_call_sequences", len(paths))
            for c, e in clients:
                rep.eng(e)
                for (q, l), (fn, ins) in c.unset.items(): rep.viol("sequence:%s:%s" % (f.name, q), loc(fn, ins), "%s%s: a decision depends on a value that was never set" % (f.name, "" if only == "ptr" else " after a failed evaluation"))

class S23(Seq):
    def __init__(self, *a): Seq.__init__(self, *a); self.unset = {}
    def branch(self, eng, st, cond, inst, fn):
        if undef(cond): self.unset.setdefault((fn.q, inst.get("l")), (fn, inst))
        return Seq.branch(self, eng, st, cond, inst, fn)

def interpret(p, rep, ef, f, track):
    c = U(p, ef, f, track); e = E23(p, c, models.models); e.effects = ef; e.limit = 150000; c.eng = e
    try: xs = e.run(f, params(f), State())
    except Giveup: return None
    rep.eng(e)
    ty = elemtype(p, f.name)
    for x in xs:
        if x.kind != "ret" or x.val is None: continue
        if undef(x.val): c.viol("result", x.where[0], x.where[1], "the returned value was never set")
        for v in alts(x.val) if ty else ():
            if v.op == "p" and v.a[0][0] == "H" and v.a[1] == 0:
                for m in p.types[ty]["members"]:
                    rep.ob("obligation_record_member")
                    c.unset("record", (f.q, m["name"]), tuple(x.where), "the record is handed out with its member %s unset" % m["name"], e.read(x.st, v.a[0], m["off"]), [(v.a[0], m["off"])])
    return c

class Ctor(Client):
    def __init__(self, p, ef, pre, track): self.p = p; self.ef = ef; self.pre = pre; self.track = track; self.eng = None
    def key(self, st): return tuple(self.eng.read(st, o, k) is UNDEF for o, k in self.track) if self.track else ()
    def inline(self, fn):
        return fn.q.split("::")[-1] == (fn.q.split("::") + [""])[-2] or fn.q.startswith(self.pre) and any(r == ("p", 0) for r in self.ef.writes[fn.name]) and len(fn.blocks) < 40
def construct(p, rep, ef, f, pre, O, track):
    c = Ctor(p, ef, pre, track); e = Engine(p, c, models.models); e.effects = ef; e.limit = 60000; c.eng = e
    a = params(f); a[0] = P(O, 0)
    try: xs = e.run(f, a, State())
    except Giveup: return None, None
    rep.eng(e)
    return e, [x for x in xs if x.kind == "ret"]
def members(p, rep, ef):
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        n = f.q.split("::"); 
        if len(n) < 2 or n[-1].split("[")[0] != n[-2] or not (f.file or "").startswith("src/") or not f.args or f.args[0]["name"] != "this": continue
        if any((a.get("di") or "").replace("const ", "").rstrip("& ") == n[-2] for a in f.args[1:]): continue
        t = p.types.get("::".join(n[:-1])) or p.types.get(n[-2])
        if not t: continue
        rep.ob("obligation_constructor")
        O = ("A", "new", "this"); pre = "::".join(n[:-1]) + "::"
        e, xs = construct(p, rep, ef, f, pre, O, ())
        if xs is None: rep.ob("undecided"); continue
        for x in xs:
            for m in t["members"]:
                ty = m.get("type") or ""
                if not m.get("name"): continue
                if re.match(r"^(unsigned |signed )?(int|char|long|bool|float|double|uint\d|unsigned int|uint4|uint1)( int)?\[", ty):
                    vs = [e.read(x.st, O, m["off"] + k) is UNDEF for k in range(0, min(m.get("size") or 0, 64), 4)]
                    if any(vs) and not all(vs): rep.viol("member:%s:%s" % (f.q, m["name"]), loc(f), "%s leaves part of member %s unset" % (f.q, m["name"]))
                    continue
                if not scalar(m): continue
                rep.ob("obligation_scalar_member")
                v = e.read(x.st, O, m["off"]); unset = v is UNDEF
                if v.op == "J" and UNDEF in alts(v):
                    # set on some paths: look at the others apart
                    e2, xs2 = construct(p, rep, ef, f, pre, O, ((O, m["off"]),))
                    unset = any(e2.read(y.st, O, m["off"]) is UNDEF for y in xs2 or ())
                if unset:
                    r = reader(p, ef, f, "::".join(n[:-1]), m["off"])
                    if r: rep.viol("member:%s:%s" % (f.q, m["name"]), loc(f), "%s leaves member %s unset, and %s reads it" % (f.q, m["name"], r))
                    else: rep.ob("unset_members_no_method_reads_first")

class R(Client):
    def __init__(self, off): self.off = off; self.hit = None
    def load(self, eng, st, obj, off, v, ins, fn):
        if obj == ("P", "this") and off == self.off and v.op == "ld" and v.a == (obj, off): self.hit = self.hit or fn
        return None
def reader(p, ef, ctor, cls, off):
    """a method that uses the member before setting it"""
    for g in sorted(p.funcs.values(), key=lambda g: g.name):
        if not g.q.startswith(cls + "::") or g is ctor: continue
        l = g.q.split("::")[-1].split("[")[0]
        if l == cls.split("::")[-1] or l.startswith("~") or l == "operator=": continue
        k = next((k for k, a in enumerate(g.args[:2]) if a["name"] == "this"), None)
        if k is None: continue
        c = R(off); e = Engine(p, c, models.models); e.effects = ef; e.limit = 60000
        c.inline = lambda fn: fn.q.startswith(cls + "::") and len(fn.blocks) < 40
        try: e.run(g, params(g), State())
        except Giveup: pass
        if c.hit: return g.q
    return None
