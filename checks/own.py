"""Ownership of native memory inside the engine's C interface."""
from common import *
from pg import wrapper_file, c_entries, is_err_arg

NATIVE = {"strdup": "c", "strndup": "c", "malloc": "c", "calloc": "c", "realloc": "c", "__strdup": "c", "operator new": "cxx", "operator new[]": "cxx[]"}
FREES = {"free": "c", "operator delete": "cxx", "operator delete[]": "cxx[]"}
# library calls whose only failure is exhausted memory (or which cannot fail at all)
MEMONLY = ("std::string::", "std::vector::", "std::map::", "std::set::", "std::list::", "std::deque::", "std::unordered_map::", "std::unordered_set::", "std::pair::", "std::multimap::", "std::tuple::",
           "std::allocator", "std::operator", "std::basic_ostringstream::", "std::ostringstream::", "std::basic_istringstream::", "std::istringstream::", "std::to_string", "std::sort", "std::initializer_list",
           "std::unique_ptr", "std::shared_ptr", "std::make_", "operator new", "std::function", "std::basic_string", "std::basic_ostream", "std::ostream", "std::copy", "std::swap", "std::move", "std::reverse", "std::iterator")
RANGE = ("::at", "::substr", "::compare", "::replace", "::erase", "::insert")

def lib_throws(q, nothrow):
    """can a library function fail for a reason other than exhausted memory"""
    if nothrow: return False
    if q.startswith(MEMONLY): return q.endswith("::at")
    if q.startswith(("__cxa_", "_Unwind", "__clang", "llvm.")) : return q in ("__cxa_throw", "__cxa_rethrow", "__cxa_bad_cast")
    return True

_pt = {}
def purposeful(p):
    """repository functions that can raise an exception not caused by exhausted memory"""
    if id(p) in _pt: return _pt[id(p)]
    thr = set(); users = {}
    for f in p.funcs.values():
        for b in f.blocks:
            for i in b:
                if i["op"] not in ("call", "invoke"): continue
                if i["op"] == "call" and not i.get("mu") and i["f"][0] == "g" and not i["f"][1].startswith("__cxa_"): continue
                if i["f"][0] != "g": continue
                n = i["f"][1]
                if caught_all(f, i): continue
                if n in p.funcs: users.setdefault(n, set()).add(f.name)
                else:
                    d = p.decls.get(n, {}).get("dem", n); q = split_dem(d)[0] if d != n else n
                    if lib_throws(q, not i.get("mu") and not n.startswith("__cxa_")): thr.add(f.name)
    wl = list(thr)
    while wl:
        for u in users.get(wl.pop(), ()):
            if u not in thr: thr.add(u); wl.append(u)
    _pt[id(p)] = thr
    return thr
def caught_all(f, i):
    if i["op"] != "invoke": return False
    return any(x["op"] == "landingpad" and any(c[0] == "catch" and c[1] == ["null"] for c in x.get("cl", [])) for x in f.blocks[i["u"]])

class Own(Client):
    """flags: live, freed = native objects; cls = class constructed in an object"""
    def __init__(self, p, files, name):
        self.p = p; self.files = files; self.bad = []; self.thr = purposeful(p); self.name = name; self.made = {}
    def inline(self, fn): return fn.file in self.files
    def follow_unwind(self, info):
        if info.repo is not None: return info.repo.name in self.thr
        return lib_throws(info.q, False)
    def key(self, st):
        live = st.flags.get("live", frozenset())
        kept = frozenset(q.a[0] for (o, k), v in st.mem.items() if k != "R" and o[0] != "A" and isinstance(v, T) for q in subterms(v) if q.op == "p" and q.a[0] in live) if live else live
        return (live, kept, st.flags.get("freed", frozenset()), frozenset((k, v) for k, v in st.facts.items() if k.op == "fcmp"))
    def flag(self, key, fn, ins, what):
        if all(b[0] != key or b[1] is not fn for b in self.bad): self.bad.append((key, fn, ins, what))
    def own(self, st, o): st.flags["live"] = st.flags.get("live", frozenset()) | {o}; st.flags["freed"] = st.flags.get("freed", frozenset()) - {o}
    def release(self, eng, st, v, info, how):
        for q in alts(v):
            q = eng.facted(st, q)
            if q.op != "p": continue
            o = q.a[0]
            if o in st.flags.get("freed", ()):
                self.flag("double", info.fn, info.inst, "memory is released twice"); continue
            if o[0] in ("STR", "A", "E", "G"):
                self.flag("nonheap", info.fn, info.inst, "memory that was not allocated by itself is released"); continue
            if isinstance(q.a[1], int) and q.a[1]: self.flag("interior", info.fn, info.inst, "a pointer into the middle of an allocation is released")
            if o[0] == "H":
                k = NATIVE.get(o[2], "cxx" if o[2] == "new" else None)
                if k and how and k != how: self.flag("mismatch", info.fn, info.inst, "memory from %s is released with %s" % (o[2], info.q))
            if o[0] in ("H", "P"):
                st.flags["freed"] = st.flags.get("freed", frozenset()) | {o}
                st.flags["live"] = st.flags.get("live", frozenset()) - {o}
    def smart_free(self, eng, st, v, info): self.release(eng, st, v, info, "cxx")
    def use(self, st, obj, fn, ins):
        if obj in st.flags.get("freed", ()): self.flag("use", fn, ins, "memory is used after it was released")
    def load(self, eng, st, obj, off, val, inst, fn):
        self.use(st, obj, fn, inst); return None
    def store(self, eng, st, obj, off, val, inst, fn):
        if inst is None or inst.get("op") != "store": return
        self.use(st, obj, fn, inst)
        if obj[0] in ("H", "P") and isinstance(off, int):
            old = st.mem.get((obj, off))
            if old is not None:
                for q in alts(eng.facted(st, old)):
                    if q.op == "p" and q.a[0] in st.flags.get("live", ()) and not (val is not None and val.op == "p" and val == q and q.a[0] not in st.flags.get("again", ())):
                        if not self.elsewhere(st, q.a[0], (obj, off)): self.flag("overwrite", fn, inst, "the only pointer to an allocation is overwritten")
    def elsewhere(self, st, o, cell):
        for k, v in st.mem.items():
            if k != cell and k[1] != "R" and any(q.op == "p" and q.a[0] == o for q in alts(v)): return True
        return False
    def call(self, eng, st, info):
        q = info.q; a = info.args
        if q in NATIVE:
            for x in a:
                for y in alts(x):
                    if y.op == "p": self.use(st, y.a[0], info.fn, info.inst)
            r = models.models(eng, st, info)
            if r is None: r = models.alloc(eng, st, info, q)
            if isinstance(r, T) and r.op == "p":
                o = r.a[0]
                if o in st.flags.get("live", ()): st.flags["again"] = st.flags.get("again", frozenset()) | {o}
                self.own(st, o)
            return r
        if q in FREES:
            self.release(eng, st, a[0], info, FREES[q]); return False
        last = q.split("::")[-1]
        if info.repo is not None or info.params is not None:
            for x in a:
                for y in alts(x):
                    if y.op == "p" and y.a[0][0] == "H": self.use(st, y.a[0], info.fn, info.inst)
        if "::" in q and q.split("::")[-2] == last and a and a[0].op == "p" and a[0].a[0][0] == "H" and a[0].a[1] == 0:
            self.made[a[0].a[0]] = q[:-len(last) - 2]
        if last.startswith("~") and a and a[0].op == "p" and a[0].a[0][0] in ("H", "P"): self.made[("~", a[0].a[0])] = q[:-len(last) - 2]
        return None
    def join_flag(self, k, x, y): return (x or frozenset()) | (y or frozenset())

def reach(st, roots):
    seen = set(); wl = list(roots)
    while wl:
        o = wl.pop()
        if o in seen: continue
        seen.add(o)
        for (ob, k), v in st.mem.items():
            if ob == o and k != "R" and isinstance(v, T):
                for q in subterms(v):
                    if q.op == "p" and q.a[0] not in seen: wl.append(q.a[0])
    return seen
