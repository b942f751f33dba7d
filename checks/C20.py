"""A byte order mark at the very beginning of a lexicon or grammar text is skipped, and nothing else.

The text is an abstract stream of lines, each a known beginning followed by an opaque rest.  The beginning runs over
every combination of present and missing mark bytes; what the readers hand on to their consumers is compared."""
from text import *
import itertools

MARK = b"\xef\xbb\xbf"

class Lines(Text):
    def __init__(self, p, fn, ent):
        self.ent = ent; self.ev = []; self.fn = fn; self.pats = set()
    def inline(self, fn):
        if fn is self.fn: return True
        q = fn.q
        if not (fn.file or "").endswith((".cpp", ".h")): return True
        cl = q.split("::")[0]
        if cl == self.ent or "::" not in q: return q.split("::")[-1].split("[")[0] not in ("insert", "updatePointers", "md5", "check", "isValid")
        return cl == "Utils" and not ("UTF8" in q)
    def read(self, eng, st, a, delim):
        o = sbuf(st, a[0]); c = content(st, o) if o else TOP
        if c.op != "lines": return Text.read(self, eng, st, a, delim)
        f = flags(st, o)
        if f is None or delim is None or delim is not I(10): setstream(st, o, TOP); eng.set_content(st, a[1], TOP); return a[0]
        if f: st.mem[(o, "SE")] = I(f | 2, 8); return a[0]
        ls = c.a[0]
        if not ls: eng.set_content(st, a[1], models.EMPTY); setstream(st, o, c, 3); return a[0]
        eng.set_content(st, a[1], ls[0]); setstream(st, o, mk("lines", ls[1:]), 0 if len(ls) > 1 else 1)
        return a[0]
    def call(self, eng, st, info):
        q = info.q; m = q.split("::")[-1]
        if "istream" in q and "std::" in q and info.args and m in ("peek", "get", "ignore", "unget", "read", "putback", "seekg", "tellg") :
            s, a = models.sret(info)
            o = sbuf(st, a[0]); c = content(st, o) if o else TOP
            if c.op == "lines" and flags(st, o) == 0 and m in ("peek", "get") and len(a) == 1 and c.a[0]:
                l = c.a[0][0]; l = l if l.op == "s" else l.a[0][0] if l.op == "cat" else None
                if l is not None and l.op == "s" and l.n:
                    if m == "get": st.mem[(o, "SB")] = mk("lines", (models.dropbytes(c.a[0][0], 1) if hasattr(models, "dropbytes") else drop(c.a[0][0], 1),) + c.a[0][1:])
                    return I(l.n[0], 32)
            if o and (o, "SB") in st.mem: setstream(st, o, TOP); st.mem.pop((o, "SE"), None)
            return None
        r = Text.call(self, eng, st, info)
        self.seen(eng, st, info)
        return r
    def seen(self, eng, st, info):
        """a consumer of the text: regular expressions, string streams, and repository functions that are not followed"""
        q = info.q; m = q.split("::")[-1]
        if q.startswith("boost::make_u32regex"):
            try: c = models.strarg(eng, st, info, info.args[-len(info.params):][0] if info.params else TOP, info.params[0])
            except Exception: c = TOP
            self.pats.add(c)
            return
        if info.repo is not None:
            if self.inline(info.repo) or m.startswith(("~", "md5", "MD5")) or "MD5" in q: return
        elif not (q.startswith("boost::u32regex") or "stringstream" in m): return
        for k, v in enumerate(info.args):
            if k == 0 and info.inst.get("sret"): continue
            for x in alts(v):
                if x.op != "p" or (x.a[0], "SB") in st.mem: continue
                c = eng.get_content(st, x)
                for y in alts(c):
                    if contains(y, lambda t: t.op == "body"): self.ev.append((q, y, info.fn, info.inst))

def drop(t, n):
    if t.op == "s": return S(t.n[n:])
    return cat((S(t.a[0][0].n[n:]),) + tuple(t.a[0][1:]))

def before(t, k):
    """texts directly before body k in t (None: unknown)"""
    out = []
    def go(x):
        if x.op == "cat":
            pre = b""
            for y in (x.a[0] if x.op == "cat" else x.a):
                if y.op == "s": pre += y.n
                elif y.op == "body" and y.a[0] == k: out.append(pre); pre = None
                else: go(y); pre = None
                if pre is None: pre = b""
            return
        if x.op == "body":
            if x.a[0] == k: out.append(b"")
            return
        # any other operation on the text: what is handed on is not known
    go(t)
    return out

def cases(H, E):
    """(name, lines, {line: text expected directly before its opaque rest}); H and E: how a first and a later line of the format begin"""
    def L(k, pre, h): return cat((S(pre + h), mk("body", k))) if pre + h else mk("body", k)
    yield "no mark", (L(0, b"", H), L(1, b"", E)), {0: H, 1: E}
    yield "mark", (L(0, MARK, H), L(1, b"", E)), {0: H, 1: E}
    yield "mark twice", (L(0, MARK + MARK, H),), {0: MARK + H}
    yield "mark on the second line", (L(0, b"", H), L(1, MARK, E)), {0: H, 1: MARK + E}
    yield "mark on both lines", (L(0, MARK, H), L(1, MARK, E)), {0: H, 1: MARK + E}
    yield "mark behind another byte", (L(0, b"x" + MARK, H),), {0: b"x" + MARK + H}
    for n in range(7):
        pre = bytes(MARK[j] if n >> j & 1 else 0x7a for j in range(3))
        yield "mark bytes %s" % "".join("01"[n >> j & 1] for j in range(3)), (L(0, pre, H),), {0: pre + H}
    yield "one byte of the mark", (L(0, MARK[:1], H),), {0: MARK[:1] + H}
    yield "two bytes of the mark", (L(0, MARK[:2], H),), {0: MARK[:2] + H}
    yield "empty first line, mark on the second", (S(b""), L(1, MARK, H)), {1: MARK + H}
    yield "one byte alone on the first line", (S(MARK[:1]), L(1, b"", H)), {1: H}
    yield "two bytes alone on the first line", (S(MARK[:2]), L(1, b"", H)), {1: H}
    yield "mark alone on the first line", (S(MARK), L(1, b"", H)), {1: H}

def readers(p):
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        q = f.q.split("[")[0]
        if q not in ("Lexicon::initialize", "Grammar::initialize"): continue
        if any("istream" in (a.get("di") or "") for a in f.args): yield q.split("::")[0], f

def run(p, rep):
    rep.rule = "abstract execution of both readers on streams whose first line begins with every combination of mark bytes; the text handed on must be the text read without exactly a leading mark"
    rep.assumptions = ["the opaque rest of a line does not itself begin with a byte of the mark", "std::getline, istream state and std::string models of engine/models.py"]
    n = 0
    for cls, f in readers(p):
        plain = None
        for name, ls, want in cases(*((b"LEXICON:\t", b"LEXENTRY:\t") if cls == "Lexicon" else (b"", b""))):
            rep.ob("obligation_beginning")
            c = Lines(p, f, cls); e = Engine(p, c, models.models)
            e.limit = 400000
            st = State(); a = params(f)
            k = [j for j, x in enumerate(f.args) if "istream" in (x.get("di") or "")][0]
            setstream(st, a[k].a[0], mk("lines", ls))
            try: xs = e.run(f, a, st)
            except Giveup: rep.ob("undecided"); continue
            rep.eng(e)
            special = any(t.op != "s" or b"\xef" in t.n or b"FEFF" in t.n.upper() for t in c.pats)
            bad = None; seen = False
            for k, w in sorted(want.items()):
                sites = {}
                for q, y, fn, ins in c.ev:
                    for b in before(y, k): sites.setdefault((fn.name, ins["id"]), [fn, ins, q, set()])[3].add(b)
                if sites: seen = True
                wrong = [v for v in sites.values() if w not in v[3]]
                if not wrong: continue
                rep.sample("%s: %s: line %d handed on behind %s" % (f.q, name, k, sorted(x.hex() for v in wrong for x in v[3])))
                if len(wrong) == len(sites) or not special:
                    bad = bad or (k, w, wrong[0])
            if plain is None: plain = bool(c.ev)
            if not seen:
                if plain and name == "mark" and not c.ev:
                    rep.viol("mark:%s:rejected" % f.q, loc(f), "%s, text beginning with the mark: nothing of it is read" % f.q)
                else: rep.ob("nothing_read" if plain else "undecided")
                continue
            n += 1
            if bad:
                k, w, (fn, ins, q, bs) = bad
                rep.viol("mark:%s:%s" % (f.q, name), loc(fn, ins), "%s, text beginning with %s: line %d reaches %s behind bytes %s instead of %s" % (
                    f.q, name, k + 1, q, " or ".join(sorted(x.hex() or "none" for x in bs)), w.hex() or "none"))
    rep.ob("readers_seen", n)
