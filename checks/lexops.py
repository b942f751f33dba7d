"""Lexicon operations and word tries over known entries."""
from docs import *

class Lex(Doc):
    """every allocation is an object of its own; recursion over known data is followed"""
    max_depth = 60
    def recurse(self, fn): return True
    def call(self, eng, st, info):
        if info.q in ("operator new", "operator new[]"):
            n = st.mem.get((("NEWS",), 0)); n = n.n if n is not None else 0
            st.mem[(("NEWS",), 0)] = I(n + 1)
            return P(("H", ("new", n), "new"), 0)
        if info.q in ("malloc", "calloc", "strdup"):
            n = st.mem.get((("NEWS",), 0)); n = n.n if n is not None else 0
            st.mem[(("NEWS",), 0)] = I(n + 1); o = ("H", ("new", n), info.q)
            if info.q == "strdup": st.mem[(o, 0)] = eng.facted(st, eng.strval(st, info.args[0]))
            return P(o, 0)
        if info.q == "__cxa_guard_acquire": return I(1, 32)
        if info.q == "__cxa_guard_release":
            if info.args[0].op == "p": st.mem[(info.args[0].a[0], info.args[0].a[1])] = I(1)
            return False
        if info.q == "boost::algorithm::join":
            s, a = models.sret(info)
            c = eng.snapshot_content(st, a[0]); d = models.strarg(eng, st, info, a[1], info.params[1])
            if c.op == "seq" and d.op == "s" and all(x.op == "s" for x in c.a[0]): return models.give(eng, st, info, S(d.n.join(x.n for x in c.a[0])))
        if info.q in ("std::sort", "std::stable_sort") and len(info.args) in (2, 3):
            r = self.sort(eng, st, info)
            if r is not None: return r
        return Doc.call(self, eng, st, info)
    def sort(self, eng, st, info):
        """std::sort of a whole known vector with a known comparison: each element goes behind the ones it is not less than"""
        a = info.args
        if not (a[0].op == a[1].op == "it" and a[0].a[0] is a[1].a[0] and a[0].a[1].op == "i" and a[0].a[1].n == 0): return None
        c = eng.snapshot_content(st, a[0].a[0])
        if c.op != "seq" or not (str(a[1].a[1]) == "end()" or a[1].a[1].op == "i" and a[1].a[1].n == len(c.a[0])): return None
        f = None; pre = []
        if len(a) == 3 and a[2].op == "p" and a[2].a[0][0] == "G": f = eng.p.funcs.get(a[2].a[0][1])
        elif len(a) == 3 and a[2].op == "f": f = eng.p.funcs.get(a[2].a[0])
        else:
            q = info.params[-1] if info.params else ""
            c2 = [g for g in eng.p.funcs.values() if g.blocks and g.q.endswith("operator@CALL") and len(g.args) == 3 and info.fn.q in g.q] if len(a) == 3 else []
            if len(c2) == 1: f = c2[0]; pre = [a[2] if a[2].op == "p" else P(("P", "cmp"), 0)]
        if f is None or not f.blocks or len(f.args) != len(pre) + 2: return None
        def less(x, y):
            for n, v in (("x", x), ("y", y)):
                o = ("P", ("sort", n))
                for k in [k for k in st.mem if k[0] == o]: del st.mem[k]
                for k, w in (v.a[0] if v.op == "agg" else ((0, v),)): st.mem[(o, k)] = w
            xs = eng.run(f, pre + [P(("P", ("sort", "x")), 0), P(("P", ("sort", "y")), 0)], st.copy(), ctx=("sort",))
            if len(xs) != 1 or xs[0].kind != "ret" or xs[0].val.op != "i": raise Giveup("comparison in std::sort")
            return xs[0].val.n & 1
        out = []
        for e in c.a[0]:
            i = len(out)
            while i > 0 and less(e, out[i - 1]): i -= 1
            out.insert(i, e)
        eng.set_content(st, a[0].a[0], mk("seq", tuple(out)))
        return False
    def load(self, eng, st, obj, off, v, ins, fn):
        if obj[0] == "G" and str(obj[1]).startswith("_ZGV") and (obj, off) not in st.mem: return I(0)
        return Doc.load(self, eng, st, obj, off, v, ins, fn)

class Thrown(Exception): pass
class Machine:
    """one abstract memory in which functions are run one after another on known objects"""
    def __init__(self, p, limit=600000, client=None):
        self.p = p; self.c = client or Lex(); self.e = Engine(p, self.c, models.models); self.e.limit = limit; self.st = State(); self.k = 0
    def run(self, fn, *args, sret=None):
        """value of fn(args); an exit that is not the only one makes the outcome unknown"""
        self.k += 1
        xs = self.e.run(fn, ([sret] if sret is not None else []) + list(args), self.st, ctx=(("step", self.k),))
        if not xs: raise Unknown("no exit")
        if {x.kind for x in xs} == {"throw"}: raise Thrown(str(xs[0].val)[:200])
        if len(xs) != 1 or xs[0].kind != "ret": raise Unknown("%d exits" % len(xs))
        self.st = xs[0].st
        return xs[0].val
    def s(self, name, text):
        a = P(("P", name), 0); self.e.set_content(self.st, a, S(text)); return a
    def text(self, fn, *args):
        r = P(("P", ("result", self.k)), 0)
        self.run(fn, *args, sret=r)
        v = self.e.facted(self.st, self.e.get_content(self.st, r))
        if v.op != "s": raise Unknown(str(v)[:200])
        return v.n

def pick(p, q, pred):
    """the first definition of q that satisfies pred, by mangled name, complete-object constructors excluded when a base one exists"""
    c = [f for f in sorted(p.funcs.values(), key=lambda f: f.name) if f.q == q and f.blocks and pred(f)]
    return next((f for f in c if "C2E" in f.name), c[0] if c else None)

def di(f, k): return (f.args[k].get("di") or "") if k < len(f.args) else ""

# -- finite languages of Perl patterns
class Infinite(Exception): pass
def language(s, cap=4000):
    """[(text, assertions)] of the pattern in the order of preference; assertions are (position, name)
    raises Infinite when the pattern matches texts without bound or any character at all"""
    pos = 0
    def alt():
        nonlocal pos
        r = [seq()]
        while pos < len(s) and s[pos] == "|":
            pos += 1; r.append(seq())
        return [x for b in r for x in b]
    def seq():
        nonlocal pos
        out = [("", ())]
        while pos < len(s) and s[pos] not in "|)":
            a = atom(); lo = 0
            if pos < len(s) and s[pos] == "?":
                pos += 1; z = [("", ())]; a = a + z
                if pos < len(s) and s[pos] == "?": pos += 1; a = z + a[:-1]
                elif pos < len(s) and s[pos] == "+": pos += 1
            if pos < len(s) and s[pos] in "*+{": raise Infinite(s[pos])
            out = [(x + y, g + tuple((k + len(x), w) for k, w in h)) for x, g in out for y, h in a]
            if len(out) > cap: raise Infinite("too many")
        return out
    def atom():
        nonlocal pos
        c = s[pos]
        if c == "(":
            pos += 1
            if s[pos:pos + 2] == "?:": pos += 2
            elif s[pos:pos + 1] == "?": raise Infinite("(?")
            r = alt()
            if pos >= len(s) or s[pos] != ")": raise Infinite("(")
            pos += 1; return r
        if c == "[": pos += 1; return [(x, ()) for x in cls()]
        if c == "\\": pos += 1; x = esc(); return [x]
        if c in ".*+{}": raise Infinite(c)
        pos += 1
        if c in "^$": return [("", ((0, c),))]
        return [(c, ())]
    def esc():
        nonlocal pos
        if pos >= len(s): raise Infinite("\\")
        c = s[pos]; pos += 1
        if c in "bB": return ("", ((0, "\\" + c),))
        if c.isalnum() and ord(c) < 128 or c in "<>`'": raise Infinite("\\" + c)
        return (c, ())
    def cls():
        nonlocal pos
        if s[pos:pos + 1] == "^": raise Infinite("[^")
        out = []; first = True
        while True:
            if pos >= len(s): raise Infinite("[")
            c = s[pos]
            if c == "]" and not first: pos += 1; return out
            first = False; pos += 1
            if c == "[" and s[pos:pos + 1] in (":", ".", "="): raise Infinite("[" + s[pos])
            if c == "\\":
                if s[pos:pos + 1].isalnum(): raise Infinite("\\" + s[pos])
                c = s[pos]; pos += 1
            if s[pos:pos + 1] == "-" and s[pos + 1:pos + 2] not in ("]", ""):
                pos += 1; d = s[pos]; pos += 1
                if d == "\\": d = s[pos]; pos += 1
                if ord(d) < ord(c) or ord(d) - ord(c) > cap: raise Infinite("range")
                out += [chr(x) for x in range(ord(c), ord(d) + 1)]
            else: out.append(c)
    r = alt()
    if pos != len(s): raise Infinite(")")
    return r
