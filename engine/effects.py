"""Write effects by a flow-insensitive fixpoint over the whole program: which parameters and global variables may be written through,
which may be returned. Pointers read from an object count as the object itself (so an effect on anything reachable from it is an effect on it)."""
import re
from absint import split_dem, prepare

ACCESS = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "at", "front", "back", "data", "c_str", "lower_bound", "upper_bound", "equal_range", "operator*", "operator->",
          "size", "empty", "length", "count", "get", "base", "what", "str", "get_allocator", "key_comp", "rdbuf", "compare", "substr"}
ALLOCW = {"operator[]"}

class Effects:
    def __init__(self, p):
        self.p = p
        self.writes = {n: {} for n in p.funcs}     # root -> (line, what)
        self.rets = {n: set() for n in p.funcs}
        self.init = {}                             # function -> [(global, instruction, tainted)]
        callers = {}
        for n, f in p.funcs.items():
            for b in f.blocks:
                for i in b:
                    if i["op"] in ("call", "invoke") and i["f"][0] == "g": callers.setdefault(i["f"][1], set()).add(n)
        work = list(p.funcs); inq = set(work)
        self.regions = {n: self.guarded(f) for n, f in p.funcs.items()}
        while work:
            n = work.pop(); inq.discard(n)
            before = (set(self.writes[n]), set(self.rets[n]))
            self.scan(p.funcs[n])
            if (set(self.writes[n]), set(self.rets[n])) != before:
                for c in callers.get(n, ()):
                    if c not in inq: work.append(c); inq.add(c)
    def guarded(self, f):
        """instructions that run only while a local static is initialised: id(ins) -> guard name"""
        out = {}
        for bi, b in enumerate(f.blocks):
            for i in b:
                if i["op"] in ("call", "invoke") and i["f"][0] == "g" and i["f"][1] == "__cxa_guard_acquire":
                    g = i["a"][0][1]; t = b[-1]
                    # successor taken when acquire returned non-zero: every block on the way to the release
                    starts = [t[k] for k in ("t", "e", "n") if k in t and isinstance(t[k], int)]
                    for s in starts:
                        seen = set(); st = [s]; reach = []; hit = False
                        while st:
                            x = st.pop()
                            if x in seen: continue
                            seen.add(x); reach.append(x)
                            stop = any(j["op"] in ("call", "invoke") and j["f"] == ["g", "__cxa_guard_release"] and j["a"][0][1] == g for j in f.blocks[x])
                            if stop: hit = True; continue
                            u = f.blocks[x][-1]
                            st += [u[k] for k in ("t", "e", "n") if k in u and isinstance(u[k], int)]
                        first = f.blocks[s]
                        if hit and len(reach) <= 40 and not any(j["op"] == "ret" for x in reach for j in f.blocks[x]):
                            for x in reach:
                                for j in f.blocks[x]:
                                    out[id(j)] = g
                                    if j["op"] in ("call", "invoke") and j["f"] == ["g", "__cxa_guard_release"]: break
        return out
    def scan(self, f):
        p = self.p; W = self.writes[f.name]; reg = self.regions[f.name]
        der = {k: {("p", k)} for k in range(len(f.args)) if f.args[k]["ty"] == "ptr"}; slot = {}
        allocas = set()
        def roots(v):
            if not v: return set()
            if v[0] == "g": return {("g", v[1])} if v[1] in p.globals else set()
            if v[0] == "r": return der.get(v[1], set())
            if v[0] == "gep": return roots(v[1][0])
            return set()
        def slotroots(v):
            """what pointers kept in this local object may point to"""
            if v and v[0] == "r" and v[1] in base: return slot.get(base[v[1]], set())
            return set()
        base = {}
        def put(r, s):
            if s - der.get(r, set()): der[r] = der.get(r, set()) | s; return True
            return False
        def keep(v, s):
            if v and v[0] == "r" and v[1] in base and s - slot.get(base[v[1]], set()):
                slot[base[v[1]]] = slot.get(base[v[1]], set()) | s; return True
            return False
        ch = True; rounds = 0
        while ch and rounds < 8:
            ch = False; rounds += 1
            for b in f.blocks:
                for i in b:
                    op = i["op"]
                    if op == "alloca": base[i["r"]] = i["r"]
                    elif op == "getelementptr":
                        v = i["gep"][0]
                        if v and v[0] == "r" and v[1] in base: base[i["r"]] = base[v[1]]
                        ch |= put(i["r"], roots(v))
                    elif op == "phi":
                        for _, v in i["in"]: ch |= put(i["r"], roots(v))
                    elif op in ("select", "freeze", "extractvalue", "insertvalue"):
                        for v in i["a"]: 
                            if isinstance(v, list): ch |= put(i["r"], roots(v))
                    elif op == "load":
                        if i.get("ty") == "ptr" or i.get("ty", "").startswith("{"): ch |= put(i["r"], roots(i["a"][0]) | slotroots(i["a"][0]))
                    elif op == "store":
                        if keep(i["a"][1], roots(i["a"][0])): ch = True
                    elif op in ("call", "invoke"): ch |= self.callsite(f, i, roots, slotroots, put, keep, W, reg, False)
        for b in f.blocks:
            for i in b:
                if i["op"] == "store":
                    for r in roots(i["a"][1]): self.add(f, W, r, i, "is assigned", reg)
                elif i["op"] == "ret":
                    for v in i.get("a", []): self.rets[f.name] |= roots(v)
                elif i["op"] in ("call", "invoke"): self.callsite(f, i, roots, slotroots, put, keep, W, reg, True)
    def add(self, f, W, r, i, what, reg):
        if id(i) in reg and r[0] == "g":
            self.init.setdefault(f.name, {})[r[1]] = i; return
        if r[0] == "p" and self.readonly(f, r[1]): return
        if r not in W: W[r] = (i, what)
    def readonly(self, f, k):
        """a parameter declared const whose type holds no pointers or references: the type system keeps it unchanged"""
        di = (f.args[k].get("di") or "").strip()
        if not di.startswith("const ") or not di.endswith(("&", "*")): return False
        t = di[6:].rstrip("&* ")
        if t.startswith("std::") and "*" not in t and "iterator" not in t or t in ("char", "unsigned char", "int", "unsigned int", "long", "unsigned long", "float", "double"): return True
        m = self.p.types.get(t)
        if not m or f.args[k].get("name") == "this": return False
        return not any((x.get("type") or "").rstrip().endswith(("*", "&")) or "base" in x for x in m["members"])
    def callsite(self, f, i, roots, slotroots, put, keep, W, reg, final):
        p = self.p; g = i["f"][1] if i["f"][0] == "g" else None
        args = i["a"]; rs = [roots(v) | slotroots(v) for v in args]; direct = [roots(v) for v in args]
        t = p.funcs.get(g) if g else None
        ch = False
        if t is not None:
            s = set()
            for r in self.rets[g]:
                if r[0] == "g": s.add(r)
                elif r[1] < len(rs): s |= rs[r[1]]
            if "r" in i: ch |= put(i["r"], s)
            if final:
                if i.get("sret"):
                    for x in direct[0]: self.add(f, W, x, i, "is set by %s" % t.q, reg)
                for r in self.writes[g]:
                    if r[0] == "p" and r[1] < len(rs):
                        for x in rs[r[1]]: self.add(f, W, x, i, "is changed by %s" % t.q, reg)
            # references kept in a local object
            for k, v in enumerate(args):
                s = set().union(*(rs[:k] + rs[k + 1:])) if len(rs) > 1 else set()
                if t.q.split("::")[-1] == (t.q.split("::")[-2] if "::" in t.q else "") and k == 0: ch |= keep(v, s)
            return ch
        if g is None:
            return False
        d = p.dem(g); q, ps, const = split_dem(d) if d != g else (g, None, False)
        last = q.split("::")[-1].split("[")[0]
        if g.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or g in ("memcpy", "strcpy", "strncpy", "strcat", "memset", "sprintf", "snprintf"):
            if final:
                for x in direct[0]: self.add(f, W, x, i, "is overwritten", reg)
            elif len(args) > 1 and "memset" not in g: ch |= keep(args[0], rs[1])
            return ch
        if g.startswith("llvm.") or g.startswith("__cxa_guard") or g == "__cxa_atexit": return False
        method = ps is not None and "::" in q and len(args) == len(ps) + 1 + (1 if i.get("sret") else 0)
        off = 1 if i.get("sret") else 0
        if off and final:
            for x in direct[0]: self.add(f, W, x, i, "is set by %s" % q, reg)
        if ps is not None:
            if method:
                me = rs[off] if off < len(rs) else set(); dme = direct[off] if off < len(direct) else set()
                if not final:
                    if "r" in i: ch |= put(i["r"], me)
                    if off: ch |= keep(args[0], me)
                    if last == (q.split("::")[-2] if "::" in q else "").split("[")[0] or last in ("operator=", "operator++", "operator--", "operator+=", "operator-="):
                        ch |= keep(args[off], set().union(*rs[off + 1:]) if rs[off + 1:] else set())
                elif not const and last not in ACCESS and not (last in ALLOCW and "map" not in q) and not last.startswith("~") and "iterator" not in q:
                    # writing a method of an object that is, or is reached from, a root
                    for x in dme: self.add(f, W, x, i, "is changed by %s" % q, reg)
                plist = args[off + 1:]
            else: plist = args[off:]
            for v, pt in zip(plist, ps):
                if pt.rstrip().endswith(("&", "*")) and not re.search(r"\bconst\b\s*[&*]", pt) and not pt.startswith("const "):
                    if final:
                        if last not in ("move", "forward", "addressof", "get", "begin", "end", "endl", "min", "max"):
                            for x in roots(v): self.add(f, W, x, i, "is changed by %s" % q, reg)
            if not method and not final:
                s = set()
                if last in ("operator<<", "operator>>", "getline", "operator+=", "operator="): s = rs[off] if off < len(rs) else set()
                else: s = set().union(*rs[off:]) if rs[off:] else set()
                if "r" in i: ch |= put(i["r"], s)
                if off: ch |= keep(args[0], s)
        else:
            if not final and "r" in i and g not in ("malloc", "calloc", "strdup", "pstrdup", "palloc", "strlen", "strcmp"): ch |= put(i["r"], set().union(*rs) if rs else set())
        return ch
