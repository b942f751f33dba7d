"""String streams and keyed maps over known text, for constant propagation through the text functions."""
from common import *
import re as pyre

LET = "A-Za-z\u00c0-\u00d6\u00d8-\u00de\u00e0-\u00f6\u00f8-\u00fe"
PUNCT = "".join("\\" + c for c in "!\"#%&'()*,-./:;?@[\\]_{}") + "\u2014"
def text_of(b):
    """the characters of a byte string when all of them are ones both regular expression engines agree on: printable ASCII, tab, em dash, Latin-1 letters that have both cases"""
    try: t = b.decode("utf8")
    except UnicodeDecodeError: return None
    return t if all(" " <= c < "\x7f" or c == "\t" or c == "\u2014" or "\u00c0" <= c <= "\u00fe" and c not in "\u00d7\u00df\u00f7" for c in t) else None

_rx = {}
def pyregex(pat, icase=False):
    """the same regular expression in Python's notation, or None when it uses anything the two notations may treat differently"""
    if (pat, icase) not in _rx: _rx[(pat, icase)] = translate(pat, icase)
    return _rx[(pat, icase)]
def translate(pat, icase):
    t = text_of(pat)
    if t is None: return None
    out = ""; k = 0; cls = False; start = False
    while k < len(t):
        c = t[k]; two = t[k:k + 2]
        if c == "\\":
            if len(two) < 2: return None
            g = pyre.match(r"\\p\{(L|Nd)\}", t[k:])
            if g: out += ("%s" if cls else "[%s]") % {"L": LET, "Nd": "0-9"}[g.group(1)]; k += g.end(); start = False; continue
            if two[1] in "<>":
                if cls: return None
                out += r"\b(?=\w)" if two[1] == "<" else r"\b(?<=\w)"
            elif two[1].isalnum() and two[1] not in "sSwWdDbBt" or two[1] in "`'": return None
            elif cls and two[1] in "bB": return None
            else: out += two
            k += 2; start = False; continue
        if cls:
            if c == "[":
                g = pyre.match(r"\[:(alpha|digit|punct|alnum|space):\]", t[k:])
                if not g and t[k + 1:k + 2] in (":", ".", "="): return None
                if g: out += {"alpha": LET, "digit": "0-9", "punct": PUNCT, "alnum": LET + "0-9", "space": r"\s"}[g.group(1)]; k += g.end(); start = False; continue
                out += "\\["
            elif c == "]" and not start: cls = False; out += c
            elif c == "]": out += "\\]"
            elif two in ("&&", "||", "~~", "--"): return None
            else: out += c
            start = start and c == "^" and out.endswith("[^")
            k += 1; continue
        if c == "[": cls = start = True
        elif c == "(" and t[k + 1:k + 2] == "?" and t[k + 2:k + 3] not in (":", "=", "!"): return None
        elif c in "*+?}" and t[k + 1:k + 2] == "+": return None
        out += c; k += 1
    if cls: return None
    try: return pyre.compile(out, (pyre.A if t.isascii() else 0) | (pyre.I if icase else 0))
    except pyre.error: return None

class Known:
    """a translated expression applied to the known bytes b; offsets are in bytes"""
    def __init__(self, g): self.g = g
def rxmatch(rx, b, full):
    t = text_of(b)
    if t is None: return None
    if not t.isascii() and rx.flags & pyre.A: rx = pyre.compile(rx.pattern, rx.flags & pyre.I)
    return t, (rx.fullmatch(t) if full else rx.search(t))
def boff(t, k): return len(t.encode()) if k < 0 else len(t[:k].encode())     # an unmatched group lies at the end

def plain(b): return all(32 <= c < 127 or c == 9 for c in b)

def sbuf(st, v):
    for q in alts(v):
        if q.op == "p": return q.a[0]
    return None
def content(st, o): return st.mem.get((o, "SB"), TOP)
def setstream(st, o, c, fl=0): st.mem[(o, "SB")] = c; st.mem[(o, "SE")] = I(fl, 8)
def flags(st, o):
    v = st.mem.get((o, "SE")); return v.n if v is not None and v.op == "i" else None

class Text(Client):
    """streams: content that is a known string is read exactly; anything else reads as an unknown part of it"""
    repo_inline = True
    def call(self, eng, st, info):
        r = self.stream(eng, st, info)
        if r is not None: return r
        if info.q.startswith("boost::"):
            r = self.regex(eng, st, info)
            if r is not None: return r
        if info.q == "atof":
            c = eng.facted(st, eng.strval(st, info.args[0]))
            if c.op == "s":
                g = pyre.match(rb"\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?|inf|nan)?", c.n, pyre.I)
                try: return mk("f", float(g.group(0) or b"0"))
                except ValueError: return mk("f", 0.0)
        if info.q == "atoi":
            c = eng.facted(st, eng.strval(st, info.args[0]))
            if c.op == "s": return I(int(pyre.match(rb"\s*([-+]?\d+)?", c.n).group(1) or 0), 32)
        return self.maps(eng, st, info)
    def regex(self, eng, st, info):
        """regular expressions over known text"""
        q = info.q; s, a = models.sret(info); ps = info.params; m = q.split("::")[-1]
        first = False
        for j, t in enumerate(ps):      # matching flags: only the defaults, match_extra, and first-only replacement are known
            if "match_flag" in t and j < len(a):
                if a[j].op != "i" or a[j].n & ~(0x80000 | 0x8000000): return None
                first = bool(a[j].n & 0x8000000)
        if q == "boost::make_u32regex":
            c = models.strarg(eng, st, info, a[0], ps[0])
            fl = a[1] if len(a) > 1 else I(0)
            return models.give(eng, st, info, mk("re", c, fl) if c.op == "s" and fl.op == "i" and fl.n in (0, 1 << 20) else TOP)
        if q == "boost::basic_regex::operator=" and len(a) == 2:
            c = eng.get_content(st, a[1])
            if c.op == "re": eng.set_content(st, a[0], c); return a[0]
        if q in ("boost::algorithm::is_any_of", "boost::is_any_of"):
            c = models.strarg(eng, st, info, a[0], ps[0])
            if c.op == "s": return models.give(eng, st, info, mk("anyof", c))
        if q == "boost::algorithm::split" and len(a) >= 4 and "is_any_of" in (ps[2] if len(ps) > 2 else ""):
            c = eng.facted(st, eng.get_content(st, a[1])); d = eng.get_content(st, a[2])
            if c.op == "s" and d.op == "anyof" and a[3].op == "i":
                w = pyre.split(b"[" + pyre.escape(d.a[0].n) + b"]" + (b"+" if a[3].n == 0 else b""), c.n)
                eng.set_content(st, a[0], mk("seq", tuple(S(x) for x in w))); return a[0]
        if m in ("u32regex_match", "u32regex_search", "u32regex_replace") and len(a) >= 3 and ps[0].startswith("std::string"):
            k = [j for j, t in enumerate(ps) if "basic_regex" in t and "match_results" not in t]
            c = eng.facted(st, eng.get_content(st, a[0])); r = eng.get_content(st, a[k[0]]) if k else TOP
            w = [a[j] for j, t in enumerate(ps) if "match_results" in t or "smatch" in t]
            for x in w: eng.set_content(st, x, TOP)
            rx = pyregex(r.a[0].n, bool(r.a[1].n)) if r.op == "re" else None
            if rx is None or c.op != "s" or text_of(c.n) is None: return self.unknown(eng, st, info, m, c, r)
            if m == "u32regex_replace":
                f = models.strarg(eng, st, info, a[2], ps[2])
                if f.op != "s" or pyre.search(rb"\$(?![1-9](?!\d))|[\\&()?{:]", f.n): return None
                if not plain(c.n): return None
                def repl(g): return pyre.sub(r"\$(\d)", lambda k: g.group(int(k.group(1))) or "", f.n.decode())
                try: return models.give(eng, st, info, S(rx.sub(repl, c.n.decode(), count=int(first)).encode()))
                except IndexError: return None
            t, g = rxmatch(rx, c.n, m == "u32regex_match")
            for x in w: eng.set_content(st, x, mk("match", (S(g.group(0).encode()),) + tuple(S((y or "").encode()) for y in g.groups())) if g else mk("match", ()))
            return I(int(bool(g)), 1)
        if m in ("u32regex_match", "u32regex_search") and len(a) >= 4 and a[0].op == "it" and a[1].op == "it" and a[0].a[0] is a[1].a[0]:
            k = [j for j, t in enumerate(ps) if "basic_regex" in t and "match_results" not in t]
            w = [a[j] for j, t in enumerate(ps) if "match_results" in t or "smatch" in t]
            c = eng.facted(st, eng.get_content(st, a[0].a[0])); r = eng.get_content(st, a[k[0]]) if k else TOP
            for x in w: eng.set_content(st, x, TOP)
            rx = pyregex(r.a[0].n, bool(r.a[1].n)) if r.op == "re" else None
            i, j = a[0].a[1], a[1].a[1]
            if rx is None or c.op != "s" or text_of(c.n) is None or i.op != "i" or not (j is models.END or j.op == "i"): return None
            b = c.n[i.n:None if j is models.END else j.n]
            if text_of(b) is None: return None
            t, g = rxmatch(rx, b, m == "u32regex_match")
            for x in w: 
                eng.set_content(st, x, mk("match", (S(g.group(0).encode()),) + tuple(S((y or "").encode()) for y in g.groups())) if g else mk("match", ()))
                if g:
                    for n in range(len(g.groups()) + 1):
                        e = models.elem(eng, x, I(n))
                        for off, v in ((0, boff(t, g.start(n))), (8, boff(t, g.end(n)))):
                            st.mem[(e.a[0], off)] = mk("it", a[0].a[0], I(i.n + v))
            return I(int(bool(g)), 1)
        if q.startswith("boost::match_results") and m == "operator[]" and a[1].op == "i":
            c = eng.get_content(st, a[0])
            if c.op == "match" and a[0].op == "p":
                e = models.elem(eng, a[0], a[1])
                if (e.a[0], 0) not in st.mem or st.mem[(e.a[0], 0)].op != "it": eng.set_content(st, e, c.a[0][a[1].n] if a[1].n < len(c.a[0]) else models.EMPTY)
                return e
        if q.startswith("boost::sub_match") and ("operator std::string" in q or m == "str"):
            for x in alts(a[0]):
                if x.op == "p" and x.a[0][0] == "E":
                    v = eng.get_content(st, x)
                    if v.op in ("s", "cat", "part"): return models.give(eng, st, info, v)
        return None
    def unknown(self, eng, st, info, m, c, r): return None
    def stream(self, eng, st, info):
        q = info.q; s, a = models.sret(info); ps = info.params
        m = q.split("::")[-1]
        if q.startswith(("std::stringstream::", "std::istringstream::", "std::ostringstream::", "std::basic_stringstream::", "std::basic_istringstream::", "std::basic_ostringstream::")):
            if m in ("basic_stringstream", "basic_istringstream", "basic_ostringstream", "stringstream", "istringstream", "ostringstream"):
                o = sbuf(st, a[0])
                setstream(st, o, eng.get_content(st, a[1]) if ps and ps[0].startswith("std::string") else models.EMPTY)
                return False
            if m.startswith("~"): return False
            if m == "str":
                o = sbuf(st, a[0])
                if ps: setstream(st, o, eng.get_content(st, a[1]), flags(st, o) or 0); return False
                return models.give(eng, st, info, content(st, o))
        if m in ("eof", "fail", "good", "operator!", "operator bool", "bad", "clear", "rdstate") and "basic_ios" in q:
            o = sbuf(st, a[0]); f = flags(st, o) if o else None
            if m == "clear":
                if o: st.mem[(o, "SE")] = I(0, 8)
                return False
            if f is None: return TOP
            return I({"eof": f & 1, "fail": f >> 1 & 1, "good": not f, "operator!": f >> 1 & 1, "operator bool": not f & 2, "bad": 0, "rdstate": f}[m], 1 if m != "rdstate" else 32)
        if q == "std::getline":
            return self.read(eng, st, a, a[2] if len(a) > 2 else I(10))
        if q == "std::operator@SHR" and ps and "istream" in ps[0] and "std::string" in (ps[1] if len(ps) > 1 else ""):
            return self.read(eng, st, a, None)
        if q in ("std::operator@SHL", "std::ostream::operator@SHL", "std::basic_ostream::operator@SHL") or (m == "operator@SHL" and "ostream" in q):
            o = sbuf(st, a[0])
            if o is None or (o, "SB") not in st.mem: return a[0]
            ty = ps[-1]
            if len(a) > 1 and ("std::string" in ty or "char" in ty): t = models.strarg(eng, st, info, a[1], ty)
            elif "(*)" in ty or "(&)(" in ty: t = models.S(b"\n") if "endl" in str(a[1]) else models.EMPTY
            else: t = models.S(str(signed(a[1]))) if a[1].op == "i" else models.S(("%g" % (a[1].n if a[1].n is not None else a[1].a[0])).encode()) if a[1].op == "f" else mk("fmt", a[1])
            st.mem[(o, "SB")] = models.appended(st, content(st, o), t)
            return a[0]
        return None
    def read(self, eng, st, a, delim):
        o = sbuf(st, a[0]); f = flags(st, o) if o else None
        c = content(st, o) if o else TOP
        if c.op != "s" or f is None or (delim is not None and delim.op != "i"):
            if o: setstream(st, o, TOP); st.mem.pop((o, "SE"), None)
            eng.set_content(st, a[1], mk("line", c) if c is not TOP else TOP)
            return a[0]
        if f: st.mem[(o, "SE")] = I(f | 2, 8); return a[0]
        b = c.n
        if delim is None:
            k = 0
            while k < len(b) and b[k:k + 1].isspace(): k += 1
            j = k
            while j < len(b) and not b[j:j + 1].isspace(): j += 1
            w = b[k:j]; e = (1 if j >= len(b) else 0) | (2 if not w else 0); rest = b[j:]
            if not w: setstream(st, o, S(rest), 3); return a[0]      # the guard object fails before the target is emptied
        else:
            d = bytes([delim.n & 255]); k = b.find(d)
            if not b: eng.set_content(st, a[1], models.EMPTY); setstream(st, o, S(b""), 3); return a[0]
            w, rest, e = (b, b"", 1) if k < 0 else (b[:k], b[k + 1:], 0)
        eng.set_content(st, a[1], S(w)); setstream(st, o, S(rest), e)
        return a[0]
    # -- sets and maps with known keys: the keys in order, the mapped values in cells of their own
    def maps(self, eng, st, info):
        q = info.q; a = info.args; cls = q.split("::")[1] if q.startswith("std::") and q.count("::") >= 2 else ""
        m = q.split("::")[-1]
        if cls in ("_Rb_tree_const_iterator", "_Rb_tree_iterator") and m in ("operator*", "operator@ARROW"):
            x = eng.get_content(st, a[0])
            if x.op != "it" or x.a[0].op != "p": return None
            c = eng.get_content(st, x.a[0]); i = x.a[1]
            if c.op == "seq" and "std::pair<" in demangle(info.name) and (i.op == "i" and i.n < len(c.a[0]) or i.op == "found"):
                k = c.a[0][i.n] if i.op == "i" else i.a[0]
                o = ("E", (x.a[0].a[0], x.a[0].a[1]), mk("found", k)); st.mem.setdefault((o, 0), k)
                return P(o, 0)
            return None
        if cls not in ("map", "set", "unordered_map", "unordered_set"): return None
        p = next((x for x in (a[0],) if x.op == "p"), None) if a else None
        if p is None: return None
        co = (p.a[0], p.a[1])
        def cells(k): return [x for x in st.mem if x[0][0] == "E" and x[0][1] == co and x[0][2] is mk("found", k)]
        def rekey(keys):
            keep = {x: v for x, v in st.mem.items() if x[0][0] == "E" and (x[0][1] == co and x[0][2].op == "found" and x[0][2].a[0] in keys or within(x[0], co) and x[0][1] != co)}
            if cls in ("map", "set"): keys = sorted(keys, key=lambda k: (k.op, k.n))
            eng.set_content(st, p, mk("seq", tuple(keys))); st.mem.update(keep)
        if cls in ("set", "unordered_set"):
            if m in ("insert", "emplace") and len(info.params) == 1:
                c = eng.snapshot_content(st, p); k = models.keyval(eng, st, a[1]) if len(a) > 1 and a[1].op == "p" else (a[1] if len(a) > 1 else TOP)
                if c.op == "seq" and k.op in ("s", "i") and all(x.op in ("s", "i") for x in c.a[0]):
                    if k not in c.a[0]: rekey(list(c.a[0]) + [k])
                    return TOP if "r" in info.inst else False
            if m == "insert" and len(info.params) == 2 and "iterator" in info.params[0]:
                c = eng.snapshot_content(st, p); x, y = a[1], a[2]
                src = eng.snapshot_content(st, x.a[0]) if x.op == "it" and y.op == "it" and x.a[0] is y.a[0] and x.a[1] is models.BEG and y.a[1] is models.END else None
                if src is not None and c.op == "seq" and src.op == "seq" and all(v.op in ("s", "i") for v in c.a[0] + src.a[0]):
                    rekey(list(dict.fromkeys(c.a[0] + src.a[0]))); return False
            if m == cls and info.params and ("iterator" in info.params[0] or "initializer_list" in info.params[0]):
                models.container(eng, st, info, cls, m)
                c = eng.get_content(st, p)
                if c.op == "seq" and all(v.op in ("s", "i") for v in c.a[0]): rekey(list(dict.fromkeys(c.a[0])))
                return False
        if m == "erase" and len(info.params) == 1:
            c = eng.get_content(st, p); x = a[1]
            k = x.a[1].a[0] if x.op == "it" and x.a[1].op == "found" else c.a[0][x.a[1].n] if x.op == "it" and c.op == "seq" and x.a[1].op == "i" and x.a[1].n < len(c.a[0]) else None
            it = x.op == "it"
            if not it: k = models.keyval(eng, st, x) if x.op == "p" else x
            if c.op == "seq" and k is not None and k.op in ("s", "i") and all(v.op in ("s", "i") for v in c.a[0]):
                n = c.a[0].index(k) if k in c.a[0] else None
                if n is not None: rekey([v for v in c.a[0] if v is not k])
                if it: return models.mkit(p, I(n) if n is not None and n < len(c.a[0]) - 1 else models.END)
                return I(0 if n is None else 1)
            return None
        if cls in ("map", "unordered_map"):
            if m in ("operator[]", "try_emplace") and m == "operator[]":
                k = models.keyval(eng, st, a[1]) if a[1].op == "p" else a[1]; c = eng.get_content(st, p)
                if c.op == "seq" and k.op in ("s", "i") and k not in c.a[0] and all(x.op in ("s", "i") for x in c.a[0]):
                    rekey(list(c.a[0]) + [k])
                    o = ("E", co, mk("found", k)); vo = models.mapped_off(info)
                    for x in cells(k): st.mem.pop(x, None)
                    d = default(info.name)
                    if d is not None: st.mem[(o, vo)] = d
                return None
            if (m == cls or m == "operator=") and info.params and info.params[0].startswith("std::" + cls) and a[1].op == "p":
                c = eng.get_content(st, a[1]); so = (a[1].a[0], a[1].a[1])
                if c.op != "seq": return None
                vals = {}
                for x in list(st.mem):
                    if x[0][0] == "E" and x[0][1] == so and x[0][2].op == "found" and x[0][2].a[0] in c.a[0] and isinstance(x[1], int):
                        vals[(x[0][2], x[1])] = eng.snapshot_content(st, P(x[0], x[1])) if st.mem[x].op in ("seq", "bag") else st.mem[x]
                eng.set_content(st, p, c)
                for (f, off), v in vals.items(): st.mem[(("E", co, f), off)] = v
                return p if m == "operator=" else False
        if q in ("std::map::map", "std::unordered_map::unordered_map") and info.params and "initializer_list" in info.params[0]:
            b, n = a[1], a[2]
            sz = eng.objsize.get(b.a[0]) if b.op == "p" else None
            if n.op == "i" and sz and n.n:
                w = sz // n.n; keys = []
                for j in range(n.n):
                    k = eng.snapshot(st, P(b.a[0], off_add(b.a[1], j * w)))
                    keys.append(k)
                eng.set_content(st, p, mk("seq", tuple(keys)))
                for j, k in enumerate(keys):
                    vo = 32 if w >= 40 and k.op == "s" else w // 2
                    st.mem[(("E", co, mk("found", k)), vo)] = eng.read(st, b.a[0], off_add(b.a[1], j * w + vo))
                return False
        return None

def default(name):
    """value a map gives a new element (by its class, from the mangled or demangled name)"""
    if name.startswith("_Z"): name = demangle(name)
    t = name[name.find("<") + 1:]
    d = 0; parts = [""]
    for ch in t:
        if ch in "<(": d += 1
        elif ch in ">)":
            if d == 0: break
            d -= 1
        if ch == "," and d == 0: parts.append(""); continue
        parts[-1] += ch
    if len(parts) < 2: return None
    v = parts[1].strip()
    if v.startswith(("std::vector<", "std::set<", "std::map<")): return models.VEMPTY
    if v.startswith("std::__cxx11::basic_string") or v == "std::string": return models.EMPTY
    if v.endswith("*"): return NULL
    if v in ("int", "unsigned int", "long", "unsigned long", "bool", "char", "short"): return I(0)
    return None

DEM = {}
def demangle(n):
    if n not in DEM:
        import subprocess
        DEM[n] = subprocess.run(["c++filt", n], capture_output=True, text=True).stdout.strip()
    return DEM[n]

def signed(t, w=32):
    n = t.n & ((1 << w) - 1)
    return n - (1 << w) if n >> (w - 1) else n
