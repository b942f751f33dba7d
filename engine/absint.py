"""Flow- and path-sensitive abstract interpreter over the JSON IR of irdump.

States are merged at control-flow joins (unless the client's property key keeps
them apart) and widened at loop heads until a fixpoint is reached; calls to
repository functions are inlined (bounded context sensitivity), calls to
library functions are modelled by name.  Values are interned provenance terms.
"""
import json, re, sys
sys.setrecursionlimit(20000)

# --------------------------------------------------------------------- values
class T:
    __slots__ = ("op", "a", "d", "id", "old", "ws")
    _tab = {}
    def __repr__(self):
        return show(self)
    @property
    def n(self):
        return self.a[0]

MAXD = 4000
NOWS = frozenset()
def mk(op, *a):
    k = (op, a)
    t = T._tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.id = len(T._tab)
        d = 0; old = op == "wp"; ws = NOWS
        st = [a]
        while st:
            for x in st.pop():
                if isinstance(x, T):
                    if x.d > d: d = x.d
                    if x.old: old = True
                    if x.ws is not ws and x.ws: ws = ws | x.ws if ws else x.ws
                elif isinstance(x, (tuple, frozenset)): st.append(x)
        if op == "bag": old = a[0].old   # which elements a bag may hold does not decide which bag it is
        if op == "w" and isinstance(a[0], tuple) and len(a[0]) == 3: ws = ws | {a[0][:2]}
        t.d = d + 1; t.old = old; t.ws = ws
        T._tab[k] = t
    return t

TOP = mk("top"); NULL = mk("null"); UNDEF = mk("undef")
def I(n, w=64): return mk("i", n & ((1 << w) - 1))
def S(b): return mk("s", b if isinstance(b, bytes) else b.encode())
def P(obj, off=0): return mk("p", obj, off)
TRUE = I(1, 1); FALSE = I(0, 1)

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple): return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        if isinstance(t, frozenset): return "{" + ",".join(sorted(show(x, d + 1) for x in t)) + "}"
        return str(t)
    if d > 12: return "…"
    if t.op == "i": return str(t.a[0])
    if t.op == "s": return repr(t.a[0].decode("latin1"))
    if t.op in ("null", "top", "undef"): return t.op
    return t.op + "(" + ",".join(show(x, d + 1) for x in t.a) + ")"

def subterms(t, seen=None):
    """All distinct sub-terms (through tuples and sets)."""
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen: continue
            seen.add(x)
            yield x
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)

def contains(t, pred):
    return any(pred(x) for x in subterms(t))

# offsets: int, or ('v', const, frozenset((term,stride)))
def off_add(o, k, var=()):
    if isinstance(o, int) and not var: return o + k
    if isinstance(o, int): c, s = o, {}
    else: c, s = o[1], dict(o[2])
    c += k
    for t, st in var:
        s[t] = s.get(t, 0) + st
    s = {t: st for t, st in s.items() if st}
    if not s: return c
    return ("v", c, frozenset(s.items()))

def off_const(o): return o if isinstance(o, int) else None

# --------------------------------------------------------------------- program
def strip_templates(s):
    s = re.sub(r"operator<<(?=[^\s(<])", "operator@LT<", s)
    for a, b in (("operator<<", "operator@SHL"), ("operator>>", "operator@SHR"), ("operator->", "operator@ARROW"),
                 ("operator<=", "operator@LE"), ("operator>=", "operator@GE"), ("operator<", "operator@LT"), ("operator>", "operator@GT")):
        s = s.replace(a, b)
    out = []; dep = 0
    for ch in s:
        if ch == "<": dep += 1
        elif ch == ">": dep -= 1
        elif dep == 0: out.append(ch)
    return "".join(out)

_name_cache = {}
def split_dem(dem):
    """demangled -> (qualified name without templates, [param strings], is_const)"""
    r = _name_cache.get(dem)
    if r: return r
    s = dem.replace("std::__cxx11::", "std::").replace("[abi:cxx11]", "").replace("(anonymous namespace)", "anon")
    full = s
    st = strip_templates(s)
    const = st.rstrip().endswith(" const")
    t = st.replace("operator()", "operator@CALL")
    # parameter list: last balanced paren group
    name, params = t, None
    i = t.rfind(")")
    if i >= 0:
        d = 0
        for j in range(i, -1, -1):
            if t[j] == ")": d += 1
            elif t[j] == "(":
                d -= 1
                if d == 0: break
        name, params = t[:j], t[j + 1:i]
    # return type: drop everything before the last space at depth 0 (keep 'operator X')
    m = re.search(r"(\S*operator)\s+(\S.*)$", name)
    if m and not re.search(r"operator\s*(new|delete)", name):
        name = m.group(1).split(" ")[-1] + " " + m.group(2)
    elif re.search(r"operator\s+(new|delete)", name):
        name = re.search(r"operator\s+(new|delete)(\[\])?", name).group(0)
    else:
        # return type of template functions
        name = name.strip().split(" ")[-1]
    name = name.lstrip("*&")
    # parameters split from the un-stripped string is hard; use the stripped one
    ps = []
    if params is not None and params.strip() not in ("", "void"):
        d = 0; cur = ""
        for ch in params:
            if ch == "(": d += 1
            if ch == ")": d -= 1
            if ch == "," and d == 0: ps.append(cur.strip()); cur = ""
            else: cur += ch
        ps.append(cur.strip())
    name = name.replace("std::basic_string::basic_string", "std::string::string").replace("::~basic_string", "::~string").replace("std::basic_string", "std::string")
    ps = [x.replace("std::basic_string", "std::string") for x in ps]
    r = (name, ps, const)
    _name_cache[dem] = r
    return r

class Fn:
    pass

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.funcs = {}
        self.globals = d["globals"]; self.types = d["types"]; self.enums = d["enums"]; self.decls = d["decls"]
        for n, f in d["funcs"].items():
            fn = Fn(); fn.name = n; fn.d = f; fn.dem = f["dem"]; fn.blocks = f["blocks"]; fn.args = f["args"]
            fn.file = f["file"]; fn.line = f["line"]
            fn.q, fn.params, fn.const = split_dem(f["dem"]) if f["dem"] != n else (n, [], False)
            self.funcs[n] = fn
            fn.ready = False
    def fn(self, q, nargs=None, all=False, pred=None):
        """repository function(s) by template-free qualified name"""
        r = [f for f in self.funcs.values() if f.q == q and (nargs is None or len(f.params) == nargs) and (pred is None or pred(f))]
        if all: return r
        if len(r) == 1: return r[0]
        return None
    def dem(self, g):
        if g in self.funcs: return self.funcs[g].dem
        if g in self.decls: return self.decls[g]["dem"]
        return g
    def frozen(self, name):
        """a variable of one file that is never the target of a store and is handed on only as pointer to const: it keeps its initial value"""
        if not hasattr(self, "_frozen"):
            mut = set(); used = {}
            for f in self.funcs.values():
                der = {}
                def root(v):
                    if v and v[0] == "g" and v[1] in self.globals: return {v[1]}
                    if v and v[0] == "r": return der.get(v[1], set())
                    if v and v[0] == "gep": return root(v[1][0])
                    return set()
                for _ in range(2):
                    for b in f.blocks:
                        for i in b:
                            if "r" in i:
                                src = []
                                if "gep" in i: src = [i["gep"][0]]
                                elif i["op"] in ("phi",): src = [v for _, v in i["in"]]
                                elif i["op"] in ("select", "inttoptr", "ptrtoint", "freeze"): src = i.get("a", [])
                                s = set()
                                for v in src: s |= root(v)
                                if s: der[i["r"]] = der.get(i["r"], set()) | s
                for b in f.blocks:
                    for i in b:
                        if i["op"] == "store": mut |= root(i["a"][0]) | root(i["a"][1])
                        elif i["op"] == "ret": 
                            for v in i.get("a", []): mut |= root(v)
                        elif i["op"] in ("call", "invoke"):
                            g = i["f"][1] if i["f"][0] == "g" else None
                            t = self.funcs.get(g)
                            for k, v in enumerate(i["a"]):
                                r = root(v)
                                if not r: continue
                                di = (t.args[k].get("di") or "") if t and k < len(t.args) else ""
                                if di.startswith("const ") or g and g.startswith(("llvm.memcpy", "llvm.memmove")) and k == 1: continue
                                mut |= r
                        elif i["op"] not in ("load", "getelementptr", "phi", "select", "icmp", "br"):
                            for v in i.get("a", []): mut |= root(v)
            self._frozen = {n for n, g in self.globals.items() if g.get("internal") and "init" in g and n not in mut and not re.search(r"::|\bstring\b|regex", g.get("di") or "")}
        return name in self._frozen
    def fieldname(self, typ, off):
        t = self.types.get(typ)
        if not t: return None
        for m in t["members"]:
            if "name" in m and m["off"] == off: return m["name"]
        for m in t["members"]:
            if "base" in m:
                r = self.fieldname(m["base"], off - m["off"])
                if r: return r
        return None
    def field(self, typ, name):
        t = self.types.get(typ)
        if not t: return None
        for m in t["members"]:
            if m.get("name") == name: return m["off"]
            if "base" in m:
                r = self.field(m["base"], name)
                if r is not None: return m["off"] + r
        return None

def prepare(fn):
    if fn.ready: return
    fn.ready = True
    n = 0
    for insts in fn.blocks:
        for i in insts: i["id"] = n; n += 1
    nb = len(fn.blocks)
    succ = [[] for _ in range(nb)]
    for b, insts in enumerate(fn.blocks):
        t = insts[-1]
        op = t["op"]
        if op == "br":
            succ[b] = [t["t"]] + ([t["e"]] if "e" in t else [])
        elif op == "switch":
            succ[b] = [t["d"]] + [c[1] for c in t["cases"]]
        elif op == "invoke":
            succ[b] = [t["n"], t["u"]]
    fn.succ = succ
    # RPO
    seen = set(); order = []
    st = [(0, iter(succ[0]))]; seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succ[s]))); break
        else:
            order.append(b); st.pop()
    order.reverse()
    fn.rpo = {b: i for i, b in enumerate(order)}
    pred = [[] for _ in range(nb)]
    for b in order:
        for s in succ[b]: pred[s].append(b)
    fn.pred = pred
    # dominators
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps: continue
            n = ps[0]
            for p in ps[1:]:
                a, c = p, n
                while a != c:
                    while fn.rpo[a] > fn.rpo[c]: a = idom[a]
                    while fn.rpo[c] > fn.rpo[a]: c = idom[c]
                n = a
            if idom.get(b) != n: idom[b] = n; ch = True
    fn.idom = idom
    def dom(a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = idom[b]
    fn.dominates = dom
    loops = {}
    for b in order:
        for s in succ[b]:
            if s in idom and dom(s, b):
                body = loops.setdefault(s, {s})
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x in body: continue
                    body.add(x); wl.extend(pred[x])
    fn.loops = loops
    fn.inloops = {b: [h for h, body in loops.items() if b in body] for b in order}
    # liveness of registers
    use = [set() for _ in range(nb)]; dfn = [set() for _ in range(nb)]
    phiuse = [set() for _ in range(nb)]   # used on the edge out of predecessor
    def regs(o, acc):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == "r" and isinstance(o[1], int): acc.add(o[1])
            else:
                for x in o: regs(x, acc)
    for b, insts in enumerate(fn.blocks):
        for i in insts:
            if i["op"] == "phi":
                for pb, v in i["in"]:
                    if v[0] == "r": phiuse[pb].add(v[1])
                dfn[b].add(i["r"]); continue
            u = set()
            for k in ("a", "f", "gep", "c"):
                if k in i: regs(i[k], u)
            use[b] |= (u - dfn[b])
            if "r" in i: dfn[b].add(i["r"])
    livein = [set() for _ in range(nb)]
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            out = set(phiuse[b])
            for s in succ[b]: out |= livein[s]
            n = use[b] | (out - dfn[b])
            if n != livein[b]: livein[b] = n; ch = True
    fn.livein = livein
    fn.phidefs = [[i["r"] for i in insts if i["op"] == "phi"] for insts in fn.blocks]
    fn.rty = {}
    for k, a in enumerate(fn.args): fn.rty[k] = a["ty"]
    for insts in fn.blocks:
        for i in insts:
            if "r" in i: fn.rty[i["r"]] = i["ty"]

# --------------------------------------------------------------------- state
class State:
    __slots__ = ("mem", "facts", "ne", "flags", "caught", "events")
    def __init__(self):
        self.mem = {}; self.facts = {}; self.ne = {}; self.flags = {}; self.caught = (); self.events = ()
    def copy(self):
        s = State(); s.mem = dict(self.mem); s.facts = dict(self.facts); s.ne = dict(self.ne)
        s.flags = dict(self.flags); s.caught = self.caught; s.events = self.events
        return s

class Exit:
    __slots__ = ("kind", "st", "val", "where")
    def __init__(self, kind, st, val, where):
        self.kind = kind; self.st = st; self.val = val; self.where = where

def fnum(v):
    """a known floating-point number"""
    if v.op != "f": return None
    x = v.a[0] if v.a else v.n
    if isinstance(x, float): return x
    try:
        if isinstance(x, str):
            if x.startswith("0x") and len(x) == 18:
                import struct
                return struct.unpack(">d", bytes.fromhex(x[2:]))[0]
            return float(x)
        return float(x)
    except (ValueError, TypeError): return None

def fround(x):
    import struct
    try: return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError: return float("inf") if x > 0 else float("-inf")

def minlen(c):
    """a text's length is at least that of its known parts"""
    if c.op == "s": return len(c.n)
    if c.op == "cat": return sum(len(x.n) for x in c.a[0] if x.op == "s")
    return 0

class Giveup(Exception):
    pass

JMAX = 12
def join(a, b):
    if a is b: return a
    if a is None: return b
    if b is None: return a
    if a is TOP or b is TOP: return TOP
    # bags
    for x, y in ((a, b), (b, a)):
        if x.op == "bag":
            if y is x.a[0]: return x
            if y.op == "bag" and y.a[0] is x.a[0]: return mk("bag", x.a[0], x.a[1] | y.a[1])
    if a.op == "seq" or b.op == "seq":
        def parts(x):
            if x.op == "seq": return x.a[0], frozenset()
            if x.op == "bag" and x.a[0].op == "seq": return x.a[0].a[0], x.a[1]
            return None, None
        (pa, sa), (pb, sb) = parts(a), parts(b)
        if pa is not None and pb is not None:
            k = 0
            while k < len(pa) and k < len(pb) and pa[k] is pb[k]: k += 1
            return mk("bag", mk("seq", pa[:k]), sa | sb | frozenset(pa[k:]) | frozenset(pb[k:]))
    if a.op == "bag" and b.op == "bag" and a.a[0].op == "seq" and b.a[0].op == "seq":
        pa, pb = a.a[0].a[0], b.a[0].a[0]
        k = 0
        while k < len(pa) and k < len(pb) and pa[k] is pb[k]: k += 1
        return mk("bag", mk("seq", pa[:k]), a.a[1] | b.a[1] | frozenset(pa[k:]) | frozenset(pb[k:]))
    if a.op == "bag" and b.op == "cat" or b.op == "bag" and a.op == "cat":
        x, y = (a, b) if a.op == "bag" else (b, a)
        base = x.a[0].a[0] if x.a[0].op == "cat" else (() if x.a[0].op == "s" and x.a[0].n == b"" else (x.a[0],))
        ps = y.a[0]
        if ps[:len(base)] == base: return mk("bag", x.a[0], x.a[1] | frozenset(ps[len(base):]))
    if a.op == "s" and b.op == "cat" and a.n == b"" or b.op == "s" and a.op == "cat" and b.n == b"":
        y = b if b.op == "cat" else a
        return mk("bag", S(b""), frozenset(y.a[0]))
    if a.op == "cat" or b.op == "cat":
        pa = a.a[0] if a.op == "cat" else (a,)
        pb = b.a[0] if b.op == "cat" else (b,)
        k = 0
        while k < len(pa) and k < len(pb) and pa[k] is pb[k]: k += 1
        base = cat(pa[:k])
        if k == len(pa) or k == len(pb):
            return mk("bag", base, frozenset(pa[k:]) | frozenset(pb[k:]))
    sa = a.a[0] if a.op == "J" else frozenset([a])
    sb = b.a[0] if b.op == "J" else frozenset([b])
    s = sa | sb
    if len(s) > JMAX: return TOP
    return mk("J", s)

def alts(v):
    return v.a[0] if v.op == "J" else (v,)

def cat(parts):
    out = []
    for p in parts:
        if p.op == "cat": ps = p.a[0]
        else: ps = (p,)
        for q in ps:
            if q.op == "s":
                if q.a[0] == b"": continue
                if out and out[-1].op == "s": out[-1] = S(out[-1].a[0] + q.a[0]); continue
            out.append(q)
    if not out: return S(b"")
    if len(out) == 1: return out[0]
    return mk("cat", tuple(out))

class Client:
    max_depth = 14
    def key(self, st): return ()
    def call(self, eng, st, info): return None
    def wild(self, eng, st, p): pass      # a write through a pointer whose object is not known
    def store(self, eng, st, obj, off, val, inst, fn): pass
    def load(self, eng, st, obj, off, val, inst, fn): return None
    def follow_unwind(self, info): return False
    def inline(self, fn): return True
    def recurse(self, fn): return False
    def branch(self, eng, st, cond, inst, fn): return None

class Info:
    """one call site, as seen by models and clients"""
    __slots__ = ("fn", "inst", "ctx", "name", "q", "params", "const", "args", "repo", "site", "env")

def base_typ(di):
    s = di.strip()
    while s.endswith("*") or s.endswith("&"): s = s[:-1].strip()
    if s.startswith("const "): s = s[6:]
    return s

def within(o, c):
    """object o lies in an element of the container c = (object, offset)"""
    while o[0] == "E":
        if o[1] == c: return True
        o = o[1][0]
    return False

class Engine:
    def __init__(self, prog, client, models):
        self.p = prog; self.c = client; self.models = models
        self.steps = 0; self.limit = 3000000; self.effects = None
        self.analysed = set(); self.callsites = set(); self.blocks_seen = set()
        self.objsize = {}
        self.loop_unroll = 300

    # ------------------------------------------------------------- memory
    def ginit(self, name, off):
        g = self.p.globals.get(name)
        if not g or "init" not in g: return None
        return self._ci(g["init"], off)
    def _ci(self, c, off):
        k = c[0]
        if k == "bytes":
            if 0 <= off < len(c[1]): return I(c[1][off], 8)
            return None
        if k == "zero": return I(0)
        if k == "struct":
            best = None
            for o, v in c[1]:
                if o <= off: best = (o, v)
            return self._ci(best[1], off - best[0]) if best else None
        if k == "arr":
            if not c[1]: return None
            ix = off // c[1]
            if 0 <= ix < len(c[2]): return self._ci(c[2][ix], off - ix * c[1])
            return None
        if off == 0: return self.const(c)
        return None
    def gstring(self, name, off=0):
        """constant C string at a global"""
        g = self.p.globals.get(name)
        if not g or "init" not in g or not g["const"]: return None
        c = g["init"]
        if c[0] == "zero": return b""
        if c[0] != "bytes": return None
        b = bytes(c[1])[off:]
        i = b.find(b"\0")
        return b[:i] if i >= 0 else None

    def default(self, st, obj, off):
        # region copies
        if isinstance(off, int):
            regs = st.mem.get((obj, "R"))
            if regs:
                for (start, size, kind, so, soff) in reversed(regs):
                    if isinstance(start, int) and off >= start and (size is None or off < start + size):
                        if kind == "zero": return I(0)
                        if kind == "undef": return UNDEF
                        if kind == "alias":
                            return self.default0(st, so, off_add(soff, off - start))
        return self.default0(st, obj, off)
    def default0(self, st, obj, off):
        k = obj[0]
        if k in ("A",): return UNDEF
        if k == "H":
            return I(0) if obj[2] in ("calloc",) else UNDEF
        if k == "G":
            g = self.p.globals.get(obj[1])
            if g and isinstance(off, int) and (g["const"] or self.p.frozen(obj[1])):
                v = self.ginit(obj[1], off)
                if v is not None: return v
            return mk("ld", obj, off)
        if k == "STR" and isinstance(off, int):
            v = self.elem_default(obj[1], I(off), 0)
            if v.op == "i": return v
        if k == "E":
            c = self.content(st, obj[1][0], obj[1][1])
            v = self.elem_default(c, obj[2], off)
            # other elements written through a different, possibly equal, index
            for (o, k), w in st.mem.items():
                if k == off and o[0] == "E" and o[1] == obj[1] and o is not obj and o != obj:
                    a, b = o[2], obj[2]
                    if a.op == "i" and b.op == "i": continue
                    if a.op in ("found",) and b.op == "found" and a.a[0].op in ("s", "i") and b.a[0].op in ("s", "i"): continue
                    if contains(a, lambda x: x.op == "wp") and not contains(b, lambda x: x.op == "wp"): 
                        continue
                    v = join(v, w)
            return v
        return mk("ld", obj, off)
    def read(self, st, obj, off):
        v = st.mem.get((obj, off))
        if v is not None: return v
        return self.default(st, obj, off)
    def content(self, st, obj, off): return self.read(st, obj, off)
    def write(self, st, obj, off, v, inst=None, fn=None):
        if not isinstance(off, int):
            # weak for overlapping symbolic/constant offsets with the same residue
            strides = [s for _, s in off[2]]
            for (o, k) in list(st.mem):
                if o == obj and k != "R" and k != off:
                    kc = k if isinstance(k, int) else k[1]
                    g = strides[0]
                    if g and (kc - off[1]) % g == 0:
                        st.mem[(o, k)] = join(st.mem[(o, k)], v)
        else:
            for (o, k) in list(st.mem):
                if o == obj and isinstance(k, tuple) and k and k[0] == "v":
                    g = [s for _, s in k[2]][0]
                    if g and (k[1] - off) % g == 0:
                        st.mem[(o, k)] = join(st.mem[(o, k)], v)
        st.mem[(obj, off)] = v
        if obj[0] == "X": self.c.wild(self, st, P(obj, off))
        self.c.store(self, st, obj, off, v, inst, fn)
    def drop_elems(self, st, obj, off):
        c = (obj, off)
        for k in [k for k in st.mem if k[0][0] == "E" and within(k[0], c)]: del st.mem[k]
    def set_content(self, st, p, v):
        """assign the content of a library object at pointer value p"""
        for q in alts(p):
            if q.op == "p":
                obj, off = q.a
                self.drop_elems(st, obj, off)
                if p.op == "J": st.mem[(obj, off)] = join(self.content(st, obj, off), v)
                else:
                    st.mem[(obj, off)] = v
                if obj[0] == "X": self.c.wild(self, st, q)
                self.c.store(self, st, obj, off, st.mem[(obj, off)], None, None)
            elif q is not NULL: self.c.wild(self, st, q)
    def get_content(self, st, p):
        r = None
        for q in alts(p):
            if q.op == "p": r = join(r, self.content(st, q.a[0], q.a[1]))
            elif q is NULL: r = join(r, NULL)
            elif q is UNDEF: r = join(r, UNDEF)
            elif q is TOP: return TOP
            else: r = join(r, mk("ld", ("X", q), 0))
        return r if r is not None else TOP
    def clobber(self, st, obj, off, v):
        for k in [k for k in st.mem if k[0] == obj and (k[1] == "R" or not isinstance(k[1], int) or not isinstance(off, int) or k[1] >= off)]:
            del st.mem[k]
        st.mem[(obj, off)] = v
        self.drop_elems(st, obj, off)
    def copy_region(self, st, dobj, doff, sobj, soff, size):
        if not isinstance(doff, int) or not isinstance(soff, int):
            st.mem[(dobj, doff)] = self.read(st, sobj, soff); return
        ents = []
        for (o, k), v in list(st.mem.items()):
            if o == sobj and isinstance(k, int) and k >= soff and (size is None or k < soff + size): ents.append((k, v))
        if sobj[0] == "E" and sobj[2].op == "i":     # known fields of an element: copied now, since the sequence may change later
            have = {k for k, _ in ents}; c = self.content(st, sobj[1][0], sobj[1][1])
            if c.op == "seq" and sobj[2].n < len(c.a[0]) and c.a[0][sobj[2].n].op == "agg":
                ents += [(k, v) for k, v in c.a[0][sobj[2].n].a[0] if k not in have and k >= soff and (size is None or k < soff + size)]
        regs = st.mem.get((sobj, "R")) or ()
        nregs = [(doff, size, "alias", sobj, soff)]
        for (start, sz, kind, so, so2) in regs:
            if isinstance(start, int): nregs.append((start - soff + doff, sz, kind, so, so2))
        if size is None or size > 0:
            for k in [k for k in st.mem if k[0] == dobj and isinstance(k[1], int) and k[1] >= doff and (size is None or k[1] < doff + size)]: del st.mem[k]
        st.mem[(dobj, "R")] = (tuple(st.mem.get((dobj, "R")) or ()) + tuple(nregs))[-6:]
        for k, v in ents: st.mem[(dobj, k - soff + doff)] = v
    def zero_region(self, st, obj, off, size):
        if not isinstance(off, int): return
        for k in [k for k in st.mem if k[0] == obj and isinstance(k[1], int) and k[1] >= off and (size is None or k[1] < off + size)]: del st.mem[k]
        st.mem[(obj, "R")] = tuple(st.mem.get((obj, "R")) or ()) + ((off, size, "zero", None, 0),)
    def snapshot(self, st, p):
        """value of the object a pointer designates, as a term"""
        if p.op == "J":
            r = None
            for q in alts(p): r = join(r, self.snapshot(st, q))
            return r
        if p.op != "p":
            if p is NULL or p is UNDEF or p is TOP: return p
            return mk("ld", ("X", p), 0)
        obj, off = p.a
        if obj[0] == "G":
            s = self.gstring(obj[1], off) if isinstance(off, int) else None
            if s is not None: return S(s)
            return p
        if obj[0] == "STR": return obj[1]
        size = self.objsize.get(obj)
        ents = []
        for (o, k), v in st.mem.items():
            if o == obj and isinstance(k, int) and isinstance(off, int) and k >= off: ents.append((k - off, v))
        if obj[0] == "E" and off == 0 and obj[2].op == "i":     # an element of a known sequence: its value with the fields written since
            c = self.content(st, obj[1][0], obj[1][1])
            if c.op == "seq" and obj[2].n < len(c.a[0]) and c.a[0][obj[2].n].op == "agg":
                return self.fold(c.a[0][obj[2].n], ents) if ents else c.a[0][obj[2].n]
        if not ents: return self.content(st, obj, off)
        if len(ents) == 1 and ents[0][0] == 0: return ents[0][1]
        ents.sort(key=lambda e: e[0])
        return mk("agg", tuple(ents), self.default(st, obj, off) if not any(e[0] == 0 for e in ents) else NULL)
    def snapshot_content(self, st, p):
        """content of a container including element writes"""
        r = None
        for q in alts(p):
            if q.op != "p":
                r = join(r, self.get_content(st, q)); continue
            c = self.content(st, q.a[0], q.a[1])
            upd = []; deep = set(); qq = (q.a[0], q.a[1])
            for (o, k), v in st.mem.items():
                if o[0] != "E" or k == "R": continue
                if o[1] == qq: upd.append((o[2], k, v))
                elif o[1][0][0] == "E":
                    while o[0] == "E" and o[1][0][0] == "E" and o[1][0][1] != qq: o = o[1][0]
                    if o[0] == "E" and o[1][0][0] == "E": deep.add((o[1][0], o[1][1]))
            for o, k in deep:
                upd = [u for u in upd if u[0] is not o[2] or u[1] != k]
                upd.append((o[2], k, self.snapshot_content(st, P(o, k))))
            if upd:
                if c.op == "seq":
                    es = list(c.a[0]); rest = []; by = {}
                    for i, k, v in upd:
                        if i.op == "i" and i.n < len(es): by.setdefault(i.n, []).append((k, v))
                        else: rest.append((i, k, v))
                    for i, kv in by.items():
                        if len(kv) == 1 and kv[0][0] == 0: es[i] = kv[0][1]
                        else: es[i] = self.fold(es[i], kv)
                    c = mk("seq", tuple(es)); upd = rest
                if upd: c = mk("upd", c, frozenset(upd))
            r = join(r, c)
        return r if r is not None else TOP
    def fold(self, e, kv):
        d = {}
        base = e
        if e.op == "agg": d = dict(e.a[0]); base = e.a[1]
        for k, v in kv:
            if isinstance(k, int): d[k] = v
        return mk("agg", tuple(sorted(d.items(), key=lambda x: x[0])), base)
    def field_of(self, e, off):
        """field at byte offset off of element value e"""
        if e.op == "agg":
            for k, v in e.a[0]:
                if k == off: return v
            b = e.a[1]
            if b is NULL or b is UNDEF: return UNDEF
            return self.field_of(b, off)
        if e.op == "ld":
            o2 = off_add(e.a[1], off) if isinstance(off, int) and not isinstance(e.a[1], str) else off
            return mk("ld", e.a[0], o2)
        if e.op == "J":
            r = None
            for x in e.a[0]: r = join(r, self.field_of(x, off))
            return r
        if off == 0: return e
        if e is TOP or e is UNDEF: return e
        return mk("ld", ("V", e), off)
    def elem_default(self, c, idx, off):
        if c.op == "seq" and idx.op == "i" and idx.n < len(c.a[0]): return self.field_of(c.a[0][idx.n], off)
        if c.op == "vecn": return self.field_of(c.a[1], off)
        if off == 0 and idx.op == "i" and (c.op == "s" or c.op == "cat" and c.a[0][0].op == "s"):
            b = c.n if c.op == "s" else c.a[0][0].n
            if idx.n < len(b): return I(b[idx.n], 8)
            if c.op == "s" and idx.n == len(b): return I(0, 8)
        if c.op == "bag" and c.a[0].op == "seq":
            # an element of the bag: any of them
            es = frozenset(c.a[0].a[0]) | c.a[1]
            if len(es) == 1: return self.field_of(next(iter(es)), off)
        if c.op == "upd":
            hit = [v for i, k, v in c.a[1] if i is idx and k == off]
            if hit and idx.op == "i": return hit[0]
        return mk("ld", ("el", c, idx), off)
    def strval(self, st, p):
        """content of a C string"""
        if p.op == "J":
            r = None
            for q in alts(p): r = join(r, self.strval(st, q))
            return r
        if p.op == "p":
            obj, off = p.a
            if obj[0] == "STR": return obj[1] if off == 0 else mk("substr", obj[1], off)
            if obj[0] == "G" and isinstance(off, int):
                s = self.gstring(obj[1], off)
                if s is not None: return S(s)
            if (obj, off) in st.mem and st.mem[(obj, off)].op != "i": return st.mem[(obj, off)]
            return mk("cstr", obj, off)
        return mk("cstr", ("X", p), 0)

    # ------------------------------------------------------------- operands
    def const(self, o, w=None):
        k = o[0]
        if k == "c": return I(o[1], o[2])
        if k == "null": return NULL
        if k == "undef": return UNDEF
        if k == "g": return P(("G", o[1]), 0)
        if k == "f": return mk("f", o[1])
        if k == "gep":
            b, off, vs = o[1][0], o[1][1], o[1][2]
            p = self.const(b)
            if p.op == "p" and not vs: return P(p.a[0], off_add(p.a[1], off))
            return TOP
        if k == "cast": return self.const(o[2])
        if k == "zero": return I(0)
        return TOP
    def val(self, env, o):
        if o[0] == "r":
            v = env.get(o[1])
            return v if v is not None else UNDEF
        return self.const(o)

    # ------------------------------------------------------------- arithmetic
    def facted(self, st, v):
        f = st.facts.get(v)
        return f if f is not None else v
    def width(self, fn, o):
        if o[0] == "c": return o[2]
        if o[0] == "r":
            t = fn.rty.get(o[1], "i64")
            if t[0] == "i" and t[1:].isdigit(): return int(t[1:])
        return 64
    def binop(self, op, w, a, b):
        if a.op == "i" and b.op == "i":
            x, y = a.n, b.n
            m = (1 << w) - 1
            sx = x - (1 << w) if x >> (w - 1) & 1 else x
            sy = y - (1 << w) if y >> (w - 1) & 1 else y
            if op == "add": return I(x + y, w)
            if op == "sub": return I(x - y, w)
            if op == "mul": return I(x * y, w)
            if op == "and": return I(x & y, w)
            if op == "or": return I(x | y, w)
            if op == "xor": return I(x ^ y, w)
            if op == "shl": return I(x << y, w) if y < w else UNDEF
            if op == "lshr": return I(x >> y, w) if y < w else UNDEF
            if op == "ashr": return I(sx >> y, w) if y < w else UNDEF
            if y:
                if op == "udiv": return I(x // y, w)
                if op == "urem": return I(x % y, w)
                if op == "sdiv": return I(int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1), w)
                if op == "srem": return I((abs(sx) % abs(sy)) * (-1 if sx < 0 else 1), w)
        if a is UNDEF or b is UNDEF: return UNDEF
        if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr") and b.op == "i" and b.n == 0: return a
        if op in ("add", "or", "xor") and a.op == "i" and a.n == 0: return b
        if op == "mul" and b.op == "i" and b.n == 1: return a
        if op == "and" and w == 1:
            for x, y in ((a, b), (b, a)):
                if x is FALSE: return FALSE
                if x is TRUE: return y
        if op == "xor" and w == 1:
            if b is TRUE: return self.bnot(a)
            if a is TRUE: return self.bnot(b)
        if op == "sub" and a is b: return I(0, w)
        if a.op == "J" and b.op == "i":
            r = None
            for q in a.a[0]: r = join(r, self.binop(op, w, q, b))
            return r
        if op in ("add", "mul", "and", "or", "xor") and a.op == "i": a, b = b, a
        if op == "add" and b.op == "i" and a.op == "add" and a.a[0] == w and a.a[2].op == "i":
            return self.binop("add", w, a.a[1], I(a.a[2].n + b.n, w))
        if op == "sub" and b.op == "i": return self.binop("add", w, a, I(-b.n, w))
        return mk(op, w, a, b)
    def bnot(self, c):
        if c.op == "i": return I(1 - (c.n & 1), 1)
        if c.op == "not": return c.a[0]
        if c is TOP or c is UNDEF: return c
        if c.op == "J":
            r = None
            for q in c.a[0]: r = join(r, self.bnot(q))
            return r
        return mk("not", c)
    def emptyp(self, st, c):
        """is the container/string content term empty: TRUE / FALSE / symbolic"""
        if c.op == "s": return I(int(c.n == b""), 1)
        if c.op == "seq": return I(int(not c.a[0]), 1)
        if c.op == "vecn" and c.a[0].op == "i": return I(int(c.a[0].n == 0), 1)
        if c.op == "cat" and any(x.op in ("s", "chr") and x.a[0] != b"" for x in c.a[0]): return FALSE
        if c is TOP or c is UNDEF: return TOP
        if c.op == "J":
            rs = {self.emptyp(st, x) for x in c.a[0]}
            if len(rs) == 1:
                r = rs.pop()
                if r.op == "i": return r
        f = st.facts.get(c)
        if f is not None and f is not c: return self.emptyp(st, f)
        nes = st.ne.get(c)
        if nes and S(b"") in nes: return FALSE
        e = mk("empty", c)
        return self.facted(st, e)
    def nonnull(self, p):
        return p.op == "p" or p.op == "s"
    def cmp_eq(self, st, a, b):
        if a is b:
            if a in (TOP, UNDEF) or a.op == "J" or a.old: return TOP
            return TRUE
        if a is TOP or b is TOP: return TOP
        if a.op == b.op and a.op in ("i", "s"): return FALSE
        if a.op == "seq" and b.op == "seq":
            if len(a.a[0]) != len(b.a[0]): return FALSE
            es = [self.cmp_eq(st, x, y) for x, y in zip(a.a[0], b.a[0])]
            if FALSE in es: return FALSE
            if all(x is TRUE for x in es): return TRUE
        for x, y in ((a, b), (b, a)):
            if y.op == "i" and y.n == 0:
                if x.op == "cmp3": return self.cmp_eq(st, x.a[0], x.a[1])
                if x.op == "len": return self.emptyp(st, x.a[0])
            if y is NULL and x.op == "i" and x.n == 0: return TRUE
            if y is NULL and self.nonnull(x): return FALSE
            if y.op == "i" and y.n == 0 and self.nonnull(x): return FALSE
            if x.op == "sel" and y.op == "tid":
                r = self.exc_match(x.a[0], y.a[0])
                if r is not None: return I(int(r), 1)
                return mk("eq", x, y)
        if a.op == "p" and b.op == "p":
            if a.a[0] == b.a[0] and isinstance(a.a[1], int) and isinstance(b.a[1], int): return FALSE
            if a.a[0] != b.a[0] and a.a[0][0] == b.a[0][0] == "E" and a.a[0][1] == b.a[0][1] and a.a[1] == b.a[1] and getattr(a.a[0][2], "op", None) == getattr(b.a[0][2], "op", None) == "i": return FALSE
            if a.a[0] != b.a[0] and a.a[0][0] in ("A", "H", "G") and b.a[0][0] in ("A", "H", "G", "P"): return FALSE
        if a.op == "J" or b.op == "J":
            r = None
            for x in alts(a):
                for y in alts(b): r = join(r, self.cmp_eq(st, x, y))
            if r is not None and r.op == "i": return r
            if a.op == "J" and b.op != "J": return mk("eq", a, b)
            if b.op == "J" and a.op != "J": return mk("eq", b, a)
            return TOP
        for x, y in ((a, b), (b, a)):
            nes = st.ne.get(x)
            if nes and y in nes: return FALSE
            if x.op == "s" and y.op == "cat":
                if y.a[0][0].op == "s" and not x.n.startswith(y.a[0][0].n): return FALSE
                if y.a[0][-1].op == "s" and not x.n.endswith(y.a[0][-1].n): return FALSE
        if a.op in ("i", "null", "s") : a, b = b, a
        elif b.op not in ("i", "null", "s") and b.id < a.id: a, b = b, a
        return mk("eq", a, b)
    def icmp(self, st, p, a, b, w):
        a = self.facted(st, a); b = self.facted(st, b)
        if p == "eq": return self.cmp_eq(st, a, b)
        if p == "ne": return self.bnot(self.cmp_eq(st, a, b))
        if p in ("ugt", "sgt"): return self.icmp(st, p[0] + "lt", b, a, w)
        if p in ("uge", "sge"): return self.bnot(self.icmp(st, p[0] + "lt", a, b, w))
        if p in ("ule", "sle"): return self.bnot(self.icmp(st, p[0] + "lt", b, a, w))
        if a.op == "i" and b.op == "i":
            x, y = a.n, b.n
            if p == "slt":
                if x >> (w - 1) & 1: x -= 1 << w
                if y >> (w - 1) & 1: y -= 1 << w
            return I(int(x < y), 1)
        if a is UNDEF or b is UNDEF: return UNDEF
        if a is TOP or b is TOP: return TOP
        if p == "ult" and b.op == "i" and b.n == 0: return FALSE
        if p == "ult" and a.op == "i" and b.op == "len" and a.n < minlen(b.a[0]): return TRUE
        if p == "ult" and b.op == "i" and a.op == "len" and b.n <= minlen(a.a[0]): return FALSE
        if p == "ult" and b.op == "i" and b.n == 1: return self.cmp_eq(st, a, I(0, w))
        if p == "ult" and a.op == "i" and a.n == 0: return self.bnot(self.cmp_eq(st, b, I(0, w)))
        return mk(p, a, b)

    # ------------------------------------------------------------- facts
    def assume(self, st, c, truth):
        """record that condition c has the given truth value; False if contradictory"""
        while c.op == "not":
            c = c.a[0]; truth = not truth
        if c.op == "i": return bool(c.n & 1) == truth
        if c is TOP or c is UNDEF: return True
        if c.old: return True
        if c.op == "J":
            return any((q.op != "i") or (bool(q.n & 1) == truth) for q in c.a[0])
        old = st.facts.get(c)
        if old is not None and old.op == "i": return bool(old.n) == truth
        st.facts[c] = I(int(truth), 1)
        if c.op == "eq":
            x, y = c.a
            if x.op == "J":
                # refine nothing, but reject impossible
                return True
            if truth:
                if y.op in ("i", "null", "s") or (y.op == "p"): st.facts[x] = y
            else:
                st.ne[x] = st.ne.get(x, frozenset()) | {y}
        if c.op == "and" and truth:
            return self.assume(st, c.a[1], True) and self.assume(st, c.a[2], True)
        if c.op == "or" and not truth:
            return self.assume(st, c.a[1], False) and self.assume(st, c.a[2], False)
        return True

    # ------------------------------------------------------------- exceptions
    BASES = {"_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
             "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt12out_of_range": ["_ZTISt11logic_error", "_ZTISt9exception"],
             "_ZTIN5boost7archive17archive_exceptionE": ["_ZTISt9exception"]}
    def exc_match(self, E, tname):
        """does exception E = ('E', type, what) match a handler for typeinfo tname"""
        if E.op == "J":
            rs = {self.exc_match(x, tname) for x in E.a[0]}
            return rs.pop() if len(rs) == 1 else None
        ty = E.a[0]
        if ty == "any": return None
        if ty == "other": return False
        if ty == tname: return True
        bases = list(self.BASES.get(ty, []))
        g = self.p.globals.get(ty)
        if tname in bases: return True
        return False

    # ------------------------------------------------------------- running
    def run(self, fn, args, st, ctx=()):
        """abstractly execute fn from state st; returns list of Exit"""
        prepare(fn)
        if isinstance(fn, Fn): self.analysed.add(fn.name)
        env0 = {k: v for k, v in enumerate(args)}
        me = ctx + (fn.name,)
        pend = {}
        hist = {}   # (block,key) -> (state, env) last processed, for widening
        exits = {}
        def lkey(st): return self.c.key(st)
        def push(b, st, env, frm, it):
            # phis
            nenv = {}
            live = fn.livein[b]
            for r in live:
                if r in env: nenv[r] = env[r]
            for i in fn.blocks[b]:
                if i["op"] != "phi": break
                for pb, v in i["in"]:
                    if pb == frm: nenv[i["r"]] = self.val(env, v); break
            loops = fn.inloops[b]
            it = {h: x for h, x in it.items() if h in loops}
            isback = b in fn.loops and frm is not None and frm in fn.loops[b]
            mode = "join"
            if b in fn.loops:
                if isback:
                    n, decided, und = it.get(b, (0, False, False))
                    lim = self.loop_unroll if not und else 20
                    if decided and not isinstance(n, str) and n < lim:
                        it[b] = (n + 1, False, False)
                    else:
                        it[b] = ("w", False, False)
                else: it[b] = (0, False, False)
                if not isback or isinstance(it[b][0], str): st, nenv = self.age(st, nenv, me, b)
            k = (fn.rpo[b], b, lkey(st), tuple(sorted((h, x[0]) for h, x in it.items() if not isinstance(x[0], str))), tuple(sorted(h for h, x in it.items() if isinstance(x[0], str))))
            old = pend.get(k)
            if old is None: pend[k] = (st, nenv, it)
            else: pend[k] = (self.join_states(old[0], st), self.join_env(old[1], nenv), self.join_it(old[2], it))
        push(0, st, env0, None, {})
        while pend:
            k = min(pend, key=lambda q: q[0])
            st, env, it = pend.pop(k)
            b = k[1]
            if b in fn.loops and isinstance(it.get(b, (0,))[0], str):
                h = hist.get(k)
                if h is not None:
                    st, env, same = self.widen(h, (st, env), me, b)
                    if same: continue
                hist[k] = (st, dict(env))
                st = st.copy(); env = dict(env)
                self.drop_widened_facts(st, me, b)
            self.steps += 1
            if self.steps > self.limit: raise Giveup("step limit in " + fn.dem)
            self.blocks_seen.add((fn.name, b))
            self.block(fn, b, st, env, it, me, push, exits)
        return list(exits.values())

    def age(self, st, env, me, b):
        """values of the previous iteration must not be confused with the current one"""
        memo = {}
        key = (me, b)
        def sub(t):
            if isinstance(t, T):
                if key not in t.ws: return t
                r = memo.get(t)
                if r is None:
                    if t.op == "w" and t.a[0][0] == me and t.a[0][1] == b: r = mk("wp", *t.a)
                    elif t.op in ("i", "s", "null", "top", "undef", "w", "wp", "f", "tid"): r = t
                    else:
                        na = tuple(sub(x) for x in t.a)
                        r = t if all(x is y for x, y in zip(na, t.a)) else mk(t.op, *na)
                    memo[t] = r
                return r
            if isinstance(t, tuple):
                n = tuple(sub(x) for x in t)
                return t if all(x is y for x, y in zip(n, t)) else n
            if isinstance(t, frozenset):
                n = frozenset(sub(x) for x in t)
                return t if n == t else n
            return t
        ch = False
        mem = {}
        for k, v in st.mem.items():
            k2 = sub(k) if k[0][0] in ("E", "X", "V", "el", "EXC", "HE") or isinstance(k[1], tuple) else k
            v2 = sub(v)
            if k2 is not k or v2 is not v: ch = True
            if k2 in mem and k2[1] != "R": mem[k2] = join(mem[k2], v2)
            else: mem[k2] = v2
        env = {k: (sub(v) if isinstance(v, T) else v) for k, v in env.items()}
        st = st.copy()
        st.mem = mem
        for d in (st.facts, st.ne):
            for k in list(d):
                k2 = sub(k)
                if k2 is not k: del d[k]
        return st, env
    def join_it(self, a, b):
        r = {}
        for h in a:
            if h in b:
                x, y = a[h], b[h]
                r[h] = (x[0], x[1] and y[1], x[2] or y[2])
        return r
    def join_env(self, a, b):
        r = dict(a)
        for k, v in b.items():
            o = r.get(k)
            if o is None: r[k] = v
            elif o is not v: r[k] = join(o, v)
        return r
    def join_states(self, a, b):
        if a is b: return a
        r = State()
        mem = r.mem
        am, bm = a.mem, b.mem
        ao = {q for q, _ in am}; bo = {q for q, _ in bm}
        for k, v in am.items():
            w = bm.get(k)
            if w is v: mem[k] = v
            elif k[1] == "R":
                if w is None:
                    if k[0][0] in ("A", "H"): mem[k] = v
                else: mem[k] = tuple(x for x in v if x in w) or v
            elif w is None:
                if k[0][0] == "A" and k[0] not in bo: mem[k] = v
                elif k[0][0] == "H" and (k[0], "R") in am and k[0] not in bo: mem[k] = v
                else: mem[k] = join(v, self.default(b, *k))
            else: mem[k] = join(v, w)
        for k, w in bm.items():
            if k not in am:
                if k[1] == "R":
                    if k[0][0] in ("A", "H"): mem[k] = w
                    continue
                if k[0][0] == "A" and k[0] not in ao: mem[k] = w
                elif k[0][0] == "H" and (k[0], "R") in bm and k[0] not in ao: mem[k] = w
                else: mem[k] = join(self.default(a, *k), w)
        for k, v in a.facts.items():
            if b.facts.get(k) is v: r.facts[k] = v
        for k, v in a.ne.items():
            w = b.ne.get(k)
            if w is not None:
                x = v & w
                if x: r.ne[k] = x
            elif k in b.facts and b.facts[k].op == "i":
                x = frozenset(q for q in v if q is not b.facts[k])
                if x: r.ne[k] = x
        for k, w in b.ne.items():
            if k not in a.ne and k in a.facts and a.facts[k].op == "i":
                x = frozenset(q for q in w if q is not a.facts[k])
                if x: r.ne[k] = x
        for k in set(a.flags) | set(b.flags):
            x, y = a.flags.get(k), b.flags.get(k)
            if x == y: r.flags[k] = x
            elif isinstance(x, frozenset) or isinstance(y, frozenset):
                r.flags[k] = (x or frozenset()) | (y or frozenset())
            else: r.flags[k] = self.join_flag(k, x, y)
        r.caught = a.caught if a.caught == b.caught else (a.caught if len(a.caught) > len(b.caught) else b.caught)
        r.events = a.events if a.events == b.events else ()
        return r
    def join_flag(self, k, x, y):
        f = getattr(self.c, "join_flag", None)
        if f: return f(k, x, y)
        return x if x is not None else y

    def widen(self, old, new, me, b):
        ost, oenv = old; nst, nenv = new
        same = True
        env = {}
        for k in set(oenv) | set(nenv):
            o, n = oenv.get(k), nenv.get(k)
            if o is n or n is None: env[k] = o; continue
            if o is None: env[k] = n; same = False; continue
            v = self.widen_val(o, n, (me, b, k))
            if v is not o: same = False
            env[k] = v
        j = self.join_states(ost, nst)
        for k, v in list(j.mem.items()):
            if k[1] == "R": continue
            o = ost.mem.get(k)
            if o is None:
                if k[0][0] == "A" and not any(q == k[0] for q, _ in ost.mem): same = False; continue
                o = self.default(ost, *k)
            if v is o: continue
            v = self.widen_val(o, v, (me, b, k))
            if v is not o: same = False
            j.mem[k] = v
        if set(j.mem) - set(ost.mem): same = False
        if j.flags != ost.flags: same = False
        if len(j.facts) != len(ost.facts) or len(j.ne) != len(ost.ne): same = False
        return j, env, same
    def widen_val(self, o, n, key):
        v = join(o, n)
        if v is o: return o
        if v.op == "bag" and len(v.a[1]) < 40 and v.d < 60: return v
        if o.op in ("w",): return o
        its = alts(v)
        if v.op == "J" and all(q.op == "it" for q in its) and len({q.a[0] for q in its}) == 1:
            c = next(iter(its)).a[0]
            if o.op == "it" and o.a[1].op == "w": return o
            return mk("it", c, mk("w", key))
        # pointers advancing within one object keep the object
        if o.op == "p" and n.op == "p" and o.a[0] == n.a[0]:
            if isinstance(o.a[1], tuple) and any(t.op == "w" for t, _ in o.a[1][2]): return o
            return P(o.a[0], ("v", o.a[1] if isinstance(o.a[1], int) else o.a[1][1], frozenset([(mk("w", key), 1)])))
        if all(q.op in ("i", "null", "s", "p", "undef", "f") for q in alts(v)) and v.op == "J" and o.op not in ("i",) : return v
        if v.op == "J" and all(q.op in ("null", "p", "undef", "s") for q in alts(v)): return v
        if v.op == "J" and o.op == "i" and len(alts(v)) <= 2 and all(q.op == "i" and q.n in (0, 1, (1 << 32) - 1, (1 << 64) - 1) for q in alts(v)): return v
        if o.op == "J" and any(q.op == "w" for q in alts(o)): return [q for q in alts(o) if q.op == "w"][0]
        if v.op == "J" and UNDEF in alts(v): return mk("J", frozenset([UNDEF, mk("w", key)]))
        return mk("w", key)
    def drop_widened_facts(self, st, me, b):
        def dead(t): return (me, b) in t.ws
        for d in (st.facts, st.ne):
            for k in [k for k in d if dead(k)]: del d[k]

    def add_exit(self, exits, kind, st, val, where, me):
        # drop this frame's locals
        for k in [k for k in st.mem if k[0][0] == "A" and k[0][1] == me]: del st.mem[k]
        for k in [k for k in st.mem if k[0][0] == "E" and k[0][1][0][0] == "A" and k[0][1][0][1] == me]: del st.mem[k]
        sh = None
        if kind == "ret" and val is not None:
            if val.op == "i": sh = val.n
            elif val is NULL: sh = "null"
            elif val.op == "p": sh = "p"
            else: sh = "t"
        elif kind == "throw": sh = val
        k = (kind, self.c.key(st), sh)
        o = exits.get(k)
        if o is None: exits[k] = Exit(kind, st, val, where)
        else:
            o.st = self.join_states(o.st, st)
            if isinstance(val, T) and isinstance(o.val, T): o.val = join(o.val, val)

    def block(self, fn, b, st, env, it, me, push, exits):
        insts = fn.blocks[b]
        work = [(0, st, env)]
        while work:
            i, st, env = work.pop()
            while i < len(insts):
                ins = insts[i]
                op = ins["op"]
                if op == "phi": i += 1; continue
                if op in ("call", "invoke"):
                    res = self.docall(fn, ins, st, env, me)
                    first = True
                    cont = []
                    for (kind, s2, v) in res:
                        if kind == "ret":
                            e2 = dict(env) if len(res) > 1 else env
                            if "r" in ins: e2[ins["r"]] = v if v is not None else TOP
                            cont.append((s2, e2))
                        elif kind == "throw":
                            if op == "invoke":
                                e2 = dict(env); e2["exc"] = v
                                self.cur_exc = v
                                push_exc(push, fn, ins["u"], s2, e2, b, it, v)
                            else: self.add_exit(exits, "throw", s2, v, (fn, ins), me)
                        elif kind == "noret":
                            self.add_exit(exits, "noret", s2, v, (fn, ins), me)
                    if op == "invoke":
                        # merge continuations
                        for s2, e2 in cont: push(ins["n"], s2, e2, b, it)
                        break
                    if not cont: break
                    if len(cont) > 1:
                        groups = {}
                        for s2, e2 in cont:
                            r = e2.get(ins.get("r"))
                            sh = (self.c.key(s2), (r.n if r.op == "i" else r.op) if isinstance(r, T) else None)
                            if sh in groups: groups[sh] = (self.join_states(groups[sh][0], s2), self.join_env(groups[sh][1], e2))
                            else: groups[sh] = (s2, e2)
                        cont = list(groups.values())
                    for s2, e2 in cont[1:]: work.append((i + 1, s2, e2))
                    st, env = cont[0]
                    i += 1; continue
                if op == "br":
                    if "c" not in ins: push(ins["t"], st, env, b, it); break
                    c = self.facted(st, self.val(env, ins["c"]))
                    c0 = c
                    neg = False
                    if c.op == "not":
                        f = st.facts.get(c.a[0])
                        if f is not None: c = self.bnot(f)
                    o = self.c.branch(self, st, c, ins, fn)
                    if o is not None: c = o
                    decided = c.op == "i"
                    it = self.mark_loops(fn, b, ins, it, decided)
                    if decided:
                        push(ins["t"] if c.n & 1 else ins["e"], st, env, b, it)
                    else:
                        src = self.tested(fn, insts, i, ins, st, env)
                        s1 = st.copy(); s2 = st; e1 = dict(env)
                        if self.assume(s1, c, True) and self.refine(s1, e1, src, True): push(ins["t"], s1, e1, b, it)
                        if self.assume(s2, c, False) and self.refine(s2, env, src, False): push(ins["e"], s2, env, b, it)
                    break
                if op == "switch":
                    v = self.facted(st, self.val(env, ins["c"]))
                    w = self.width(fn, ins["c"])
                    decided = v.op == "i"
                    it = self.mark_loops(fn, b, ins, it, decided)
                    if decided:
                        for cv, t in ins["cases"]:
                            if (cv & ((1 << w) - 1)) == v.n: push(t, st, env, b, it); break
                        else: push(ins["d"], st, env, b, it)
                    else:
                        sd = st.copy(); dead = v.op == "J" and {x.n for x in alts(v) if x.op == "i"} <= {cv & ((1 << w) - 1) for cv, t in ins["cases"]} and all(x.op == "i" for x in alts(v))
                        for cv, t in ins["cases"]:
                            k = I(cv, w)
                            e = self.cmp_eq(st, v, k)
                            if e is FALSE: continue
                            s1 = st.copy()
                            if self.assume(s1, e, True): push(t, s1, dict(env), b, it)
                            if not dead and not self.assume(sd, e, False): dead = True
                        if not dead: push(ins["d"], sd, env, b, it)
                    break
                if op == "ret":
                    v = self.val(env, ins["a"][0]) if ins.get("a") else None
                    if v is not None: v = self.facted(st, v)
                    self.add_exit(exits, "ret", st, v, (fn, ins), me); break
                if op == "resume":
                    v = self.val(env, ins["a"][0])
                    E = v.a[0] if v.op == "exc" else mk("E", "any", None)
                    self.add_exit(exits, "throw", st, E, (fn, ins), me); break
                if op == "unreachable":
                    self.add_exit(exits, "noret", st, None, (fn, ins), me); break
                x = self.simple(fn, ins, st, env, me)
                if "r" in ins: env[ins["r"]] = x
                i += 1

    def tested(self, fn, insts, i, ins, st, env):
        """the register, and the memory cell it was just loaded from, that this branch compares with a constant"""
        c = ins["c"]
        if c[0] != "r": return None
        d = {x["r"]: (k, x) for k, x in enumerate(insts[:i]) if "r" in x}
        if c[1] not in d: return None
        k, x = d[c[1]]
        if x["op"] != "icmp": return None
        for y, o in ((0, 1), (1, 0)):
            a, b = x["a"][y], x["a"][o]
            if a[0] != "r" or b[0] == "r" or a[1] not in env: continue
            v = env[a[1]]
            if not isinstance(v, T) or v.op != "J": continue
            cell = None
            if a[1] in d:
                j, l = d[a[1]]
                if l["op"] == "load" and not any(z["op"] in ("store", "call") for z in insts[j + 1:i]):
                    q = self.facted(st, self.val(env, l["a"][0]))
                    if q.op == "p" and st.mem.get((q.a[0], q.a[1])) is v: cell = (q.a[0], q.a[1])
            return (a[1], cell, x["p"], self.val(env, b), y, max(self.width(fn, a), 1))
        return None
    def refine(self, st, env, src, truth):
        """keep only the alternatives of the tested value that agree with the branch taken; False if none"""
        if src is None: return True
        reg, cell, p, o, y, w = src
        r = None
        for q in alts(env[reg]):
            c = self.icmp(st, p, q, o, w) if y == 0 else self.icmp(st, p, o, q, w)
            if c.op == "i" and bool(c.n & 1) != truth: continue
            r = join(r, q)
        if r is None: return False
        env[reg] = r
        if cell is not None: st.mem[cell] = r
        return True

    def mark_loops(self, fn, b, ins, it, decided):
        if not it: return it
        succ = fn.succ[b]
        r = dict(it)
        for h, x in it.items():
            body = fn.loops[h]
            if any(s not in body for s in succ):
                if decided: r[h] = (x[0], True, x[2])
                else: r[h] = (x[0], x[1], True)
        return r

    def simple(self, fn, ins, st, env, me):
        op = ins["op"]
        if op == "alloca":
            o = ("A", me, ins["r"])
            for k in [k for k in st.mem if k[0] == o or (k[0][0] == "E" and k[0][1][0] == o)]: del st.mem[k]
            self.objsize[o] = ins["size"]
            return P(o, 0)
        if op == "load":
            p = self.val(env, ins["a"][0]); p = self.facted(st, p)
            r = None
            for q in alts(p):
                if q.op == "p":
                    v = self.read(st, q.a[0], q.a[1])
                    x = self.c.load(self, st, q.a[0], q.a[1], v, ins, fn)
                    if x is not None: v = x
                elif q is TOP or q is UNDEF: v = TOP
                elif q is NULL or q.op == "nulloff":
                    self.nullderef(fn, ins, st); continue
                else: v = mk("ld", ("X", q), 0)
                r = join(r, v)
            if r is None: r = TOP
            if ins["ty"] == "ptr" and r.op == "i" and r.n == 0: r = NULL
            if r is NULL and ins["ty"][0] == "i": r = I(0)
            return self.facted(st, r)
        if op == "store":
            v = self.val(env, ins["a"][0]); p = self.facted(st, self.val(env, ins["a"][1]))
            if v.op == "i" and v.n == 0 and ins.get("vty") == "ptr": v = NULL
            ps = alts(p)
            for q in ps:
                if q.op == "p":
                    if len(ps) > 1: self.write(st, q.a[0], q.a[1], join(self.read(st, q.a[0], q.a[1]), v), ins, fn)
                    else: self.write(st, q.a[0], q.a[1], v, ins, fn)
                elif q is NULL or q.op == "nulloff": self.nullderef(fn, ins, st)
                elif q.op not in ("top", "undef"): self.write(st, ("X", q), 0, v, ins, fn)
            return None
        if op == "getelementptr":
            g = ins["gep"]
            if not g: return TOP
            b = self.facted(st, self.val(env, g[0])); off = g[1]; vs = []
            for v, stride in g[2]:
                x = self.facted(st, self.val(env, v))
                if x.op == "i":
                    w = self.width(fn, v); n = x.n
                    if n >> (w - 1) & 1: n -= 1 << w
                    off += n * stride
                elif x.op in ("sext", "zext") and x.a[1].op == "i": off += x.a[1].n * stride
                else:
                    if x.op == "add" and x.a[2].op == "i":
                        n = x.a[2].n; w = x.a[0]
                        if n >> (w - 1) & 1: n -= 1 << w
                        off += n * stride; x = x.a[1]
                    vs.append((x, stride))
            r = None
            for q in alts(b):
                if q.op == "p": n = P(q.a[0], off_add(q.a[1], off, vs))
                elif q is TOP or q is UNDEF: n = TOP
                elif q is NULL: n = NULL if off == 0 else mk("nulloff", off)
                else: n = P(("X", q), off_add(0, off, vs))
                r = join(r, n)
            return r if r is not None else TOP
        if op == "icmp":
            a, b = (self.val(env, o) for o in ins["a"])
            w = max(self.width(fn, ins["a"][0]), 1)
            c = self.icmp(st, ins["p"], a, b, w)
            return self.facted(st, c)
        if op == "fcmp":
            a, b = (self.val(env, o) for o in ins["a"])
            p = ins["p"]
            if p[1:] in ("lt", "le"):
                a, b = b, a; p = p[0] + {"lt": "gt", "le": "ge"}[p[1:]]
            x, y = fnum(a), fnum(b)
            if x is not None and y is not None and x == x and y == y and p[0] in "ou" and p[1:] in ("gt", "ge", "eq", "ne"):
                return I(int({"gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[p[1:]]), 1)
            return self.facted(st, mk("fcmp", p, a, b))
        if op == "select":
            c = self.facted(st, self.val(env, ins["a"][0]))
            a, b = self.val(env, ins["a"][1]), self.val(env, ins["a"][2])
            if c.op == "i": return a if c.n & 1 else b
            return join(a, b)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "freeze"):
            v = self.facted(st, self.val(env, ins["a"][0]))
            ws = self.width(fn, ins["a"][0])
            t = ins["ty"]; wd = int(t[1:]) if t[0] == "i" and t[1:].isdigit() else 64
            def cv(q):
                if q.op == "i":
                    n = q.n
                    if op == "sext" and n >> (ws - 1) & 1: n -= 1 << ws
                    return I(n, wd)
                if q is TOP or q is UNDEF or op in ("ptrtoint", "inttoptr", "bitcast", "freeze"): return q
                if ws == 1 or wd == 1 or (ws == 8 and wd == 1): return q
                if ws == 8 and q.op in ("eq", "not", "ult", "slt", "fcmp", "pred"): return q
                if op == "trunc" and q.op in ("zext", "sext") and q.a[0] == wd: return q.a[1]
                return mk(op, ws if op != "trunc" else wd, q)
            r = None
            for q in alts(v): r = join(r, cv(q))
            return r
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = (self.facted(st, self.val(env, o)) for o in ins["a"])
            w = int(ins["ty"][1:]) if ins["ty"][1:].isdigit() else 64
            return self.facted(st, self.binop(op, w, a, b))
        if op == "landingpad":
            return mk("exc", env.get("exc") or mk("E", "any", None))
        if op == "extractvalue":
            v = self.val(env, ins["a"][0]); ix = ins["ix"]
            if v.op == "exc": return P(("EXC", v.a[0]), 0) if ix == [0] else mk("sel", v.a[0])
            if v.op == "ins":
                x = v
                while x.op == "ins":
                    if x.a[2] == tuple(ix): return x.a[1]
                    x = x.a[0]
            return mk("xv", v, tuple(ix)) if v is not TOP else TOP
        if op == "insertvalue":
            a, b = (self.val(env, o) for o in ins["a"])
            for q in alts(b):
                if q.op == "p" and q.a[0][0] == "EXC": return mk("exc", q.a[0][1])
            if a.op == "exc": return a
            return mk("ins", a, b, tuple(ins["ix"]))
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = (self.val(env, o) for o in ins["a"])
            if TOP in (a, b): return TOP
            x, y = fnum(a), fnum(b)
            if x is not None and y is not None and not (op == "fdiv" and y == 0):
                try:
                    z = {"fadd": x + y, "fsub": x - y, "fmul": x * y, "fdiv": x / y if y else 0.0}[op]
                    return mk("f", fround(z) if ins.get("ty") == "float" else z)
                except OverflowError: pass
            return mk(op, a, b)
        if op in ("fneg", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui"):
            v = self.val(env, ins["a"][0])
            if v is TOP: return TOP
            if op == "fpext" and v.op == "f": return v
            if op in ("sitofp", "uitofp") and v.op == "i":
                w = self.width(fn, ins["a"][0]) or 64; n = v.n & ((1 << w) - 1)
                if op == "sitofp" and n >> (w - 1): n -= 1 << w
                return mk("f", fround(float(n)) if ins.get("ty") == "float" else float(n))
            if op == "fptrunc" and fnum(v) is not None: return mk("f", fround(fnum(v)))
            if op in ("fptosi", "fptoui") and fnum(v) is not None and str(ins.get("ty")).startswith("i"):
                w = int(ins["ty"][1:]); x = fnum(v)
                if abs(x) < 2.0 ** (w - 1) and (op == "fptosi" or x > -1): return I(int(x) & ((1 << w) - 1), w)
            return mk(op, v)
        if "r" in ins: return TOP
        return None
    def nullderef(self, fn, ins, st):
        f = getattr(self.c, "nullderef", None)
        if f: f(self, fn, ins, st)

    # ------------------------------------------------------------- calls
    def docall(self, fn, ins, st, env, me):
        f = ins["f"]
        args = [self.facted(st, self.val(env, a)) for a in ins["a"]]
        info = Info(); info.fn = fn; info.inst = ins; info.ctx = me; info.args = args; info.env = env
        info.site = (fn.name, ins.get("l", 0))
        target = None
        if f[0] == "g": target = f[1]
        elif f[0] == "r":
            v = self.val(env, f)
            if v.op == "p" and v.a[0][0] == "G": target = v.a[0][1]
        info.name = target
        if target is None:
            info.q, info.params, info.const, info.repo = "<indirect>", [], False, None
        else:
            rf = self.p.funcs.get(target)
            info.repo = rf
            if rf: info.q, info.params, info.const = rf.q, rf.params, rf.const
            else: info.q, info.params, info.const = split_dem(self.p.decls.get(target, {}).get("dem", target)) if self.p.decls.get(target, {}).get("dem", target) != target else (re.sub(r"\.\d+$", "", target), [], False)
        self.callsites.add((fn.name, ins.get("r", -1), ins.get("l", 0), target))
        out = []
        # byval copies
        if ins.get("byval"):
            for k in ins["byval"]:
                pass
        if info.repo is None and self.c.follow_unwind(info) and ins.get("mu"):
            out.append(("throw", st.copy(), mk("E", "any", None)))
        r = self.c.call(self, st, info)
        if r is not None:
            if isinstance(r, T) or r is False: return out + [("ret", st, r if r is not False else None)]
            return out + r
        if target and target.startswith("llvm."): return out + [("ret", st, self.intrinsic(info, st))]
        r = self.models(self, st, info)
        if r is not None:
            if isinstance(r, T) or r is False: return out + [("ret", st, r if r is not False else None)]
            return out + r
        if info.repo is not None and self.c.inline(info.repo) and len(me) < 2 * self.c.max_depth and (target not in me or self.c.recurse(info.repo)):
            ex = self.run(info.repo, args, st, me + (("@", ins["id"]),))
            for e in ex: out.append((e.kind, e.st, e.val))
            return out
        if ins.get("nr"):
            return out + [("noret", st, None)]
        if info.repo is not None and self.c.follow_unwind(info) and ins.get("mu"):
            out.append(("throw", st.copy(), mk("E", "any", None)))
        return out + [("ret", st, self.opaque(info, st))]

    def intrinsic(self, info, st):
        n = info.name; a = info.args
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            d, s, l = a[0], a[1], a[2]
            if d.op == "p" and s.op == "p":
                self.copy_region(st, d.a[0], d.a[1], s.a[0], s.a[1], l.n if l.op == "i" else None)
            elif d.op == "p": st.mem[(d.a[0], d.a[1])] = mk("ld", ("X", s), 0)
            return None
        if n.startswith("llvm.memset"):
            d, v, l = a[0], a[1], a[2]
            if d.op == "p":
                if v.op == "i" and v.n == 0: self.zero_region(st, d.a[0], d.a[1], l.n if l.op == "i" else None)
                else: self.clobber(st, d.a[0], d.a[1], v)
            return None
        if n.startswith("llvm.eh.typeid.for"):
            g = a[0]
            return mk("tid", g.a[0][1] if g.op == "p" else "?")
        if n.startswith("llvm.expect"): return a[0]
        if n.startswith("llvm.objectsize"): return TOP
        return TOP

    def argterm(self, st, v):
        if v.op == "p" or v.op == "J": return self.snapshot(st, v)
        return v
    def opaque(self, info, st):
        """default model of a call whose body is not analysed"""
        a = info.args; ins = info.inst
        sret = bool(ins.get("sret"))
        params = list(info.params)
        # which pointer arguments may be written
        n = len(a) - (1 if sret else 0)
        method = n == len(params) + 1
        terms = tuple(self.argterm(st, v) for v in (a[1:] if sret else a))
        q = info.q
        ctor = q.split("::")[-1] == q.split("::")[-2] if q.count("::") >= 1 else False
        for k, v in enumerate(a):
            if sret and k == 0:
                if v.op == "p":
                    self.clobber(st, v.a[0], v.a[1], mk("ret", q, terms))
                continue
            kk = k - (1 if sret else 0)
            if v.op not in ("p", "J"): continue
            if self.effects is not None and info.repo is not None:
                if ("p", k) not in self.effects.writes[info.repo.name]: continue
            elif method and kk == 0:
                if info.const: continue
            else:
                pi = kk - (1 if method else 0)
                pt = params[pi] if pi < len(params) else ""
                if pt and (" const&" in pt or " const*" in pt or pt.startswith("const ")): continue
                if pt and not pt.endswith(("*", "&")): continue
            for p in alts(v):
                if p.op == "p" and p.a[0][0] not in ("G", "STR"):
                    # only mutable memory
                    self.clobber(st, p.a[0], p.a[1], mk("mut", q, kk, terms))
                    self.c.store(self, st, p.a[0], p.a[1], st.mem[(p.a[0], p.a[1])], ins, info.fn)
        if "r" not in ins: return None
        return mk("ret", q, terms)

def push_exc(push, fn, b, st, env, frm, it, E):
    env = dict(env); env["exc"] = E
    # landingpad value needs E: keep through a reserved register
    fn.livein[b].add("exc")
    push(b, st, env, frm, it)
