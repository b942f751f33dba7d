"""Addresses and lexicon lines pass the Unicode services on every path, whatever these services do."""
from whole import *

# stand-ins for the services: any function will do, these are idempotent, differ by locale and do not commute
def norm(s): return s.replace(b"q7", b"q8").replace(b"Q5", b"Q6")
def upper(s, loc):
    m = {b"en_US": (b"K1", b"K3"), b"fr_CA": (b"K3", b"K4"), b"": (b"K5", b"K7")}.get(loc, (b"K9", b"K8"))
    return s.upper().replace(*m)

class Services(Wide):
    def __init__(self): Wide.__init__(self); self.taken = []
    def call(self, eng, st, info):
        m = info.q.split("::")[-1]
        if m in ("normalizeUTF8", "upperCaseUTF8") and info.repo is not None:
            s, a = models.sret(info); off = len(a) - len(info.params)
            c = [eng.facted(st, eng.get_content(st, a[j + off])) for j, t in enumerate(info.params) if t.startswith("std::string")]
            if m == "normalizeUTF8" and c and c[0].op == "s": return models.give(eng, st, info, S(norm(c[0].n)))
            if m == "upperCaseUTF8" and len(c) > 1 and c[0].op == c[1].op == "s": return models.give(eng, st, info, S(upper(c[0].n, c[1].n)))
            raise Giveup("unknown text is put to the Unicode services")
        if info.q == "Tokenizer::getTokens" and len(info.args) >= 3:
            c = eng.facted(st, eng.get_content(st, info.args[2])); self.taken.append(c.n if c.op == "s" else None)
        return Wide.call(self, eng, st, info)

class Icu(Lex):
    """the library under the services: strings, locales and normalisers as values"""
    def content(self, eng, st, p): return eng.facted(st, eng.get_content(st, p)) if p.op == "p" else TOP
    def call(self, eng, st, info):
        q = info.q; m = q.split("::")[-1]; cl = q.split("::")[-2] if "::" in q else ""; a = info.args
        s, r = models.sret(info)
        if m in ("U_FAILURE", "U_SUCCESS"):
            v = eng.facted(st, a[0])
            return I(int((0 < v.n < 1 << 31) == (m == "U_FAILURE")), 8) if v.op == "i" else TOP
        if not q.startswith("icu"): return Lex.call(self, eng, st, info)
        def text(p):
            c = self.content(eng, st, p)
            if c.op != "s": raise Unknown("%s of %s" % (q, c))
            return c.n
        if m.startswith("~"): return False
        if cl == "StringPiece" and m == "StringPiece":
            c = models.strarg(eng, st, info, a[1], info.params[-1])
            if c.op != "s": raise Unknown("StringPiece")
            st.mem[(a[0].a[0], a[0].a[1])] = P(("STR", c), 0); st.mem[(a[0].a[0], a[0].a[1] + 8)] = I(len(c.n), 32); return False
        if cl == "UnicodeString":
            if m == "fromUTF8":
                c = eng.strval(st, a[1])
                if c.op != "s": raise Unknown("fromUTF8")
                eng.set_content(st, a[0], c); return False
            if m in ("UnicodeString", "operator=", "operator@ASSIGN") and len(a) == 2 and a[1].op == "p": eng.set_content(st, a[0], S(text(a[1]))); return a[0]
            if m == "UnicodeString" and len(a) == 1: eng.set_content(st, a[0], S(b"")); return False
            if m == "toUpper": eng.set_content(st, a[0], S(upper(text(a[0]), text(a[1]) if len(a) > 1 else b"the system's"))); return a[0]
            if m == "toUTF8String":
                c = self.content(eng, st, a[1])
                if c.op != "s": raise Unknown("toUTF8String")
                eng.set_content(st, a[1], S(c.n + text(a[0]))); return a[1]
        if cl == "Locale" and m in ("Locale", "createFromName", "createCanonical", "getDefault"):
            o = a[0]; b = [x for x in a[1:] if x is not NULL]
            if m == "getDefault": o = P(("P", "default locale"), 0); eng.set_content(st, o, S(b"the system's")); return o
            if b and b[0].op == "p" and "Locale" in (info.params[-1] or ""): eng.set_content(st, o, S(text(b[0])))
            else:
                cs = [eng.strval(st, x) for x in b]
                if any(c.op != "s" for c in cs) or b and a[1] is NULL: raise Unknown("Locale")
                eng.set_content(st, o, S(b"_".join(c.n for c in cs if c.n) if cs else b"the system's"))
            return False
        if cl == "Normalizer2":
            if m.startswith("get") and m.endswith("Instance"): return P(("P", m), 0)
            if m == "normalize":
                z = norm if r[0].op == "p" and r[0].a[0] == ("P", "getNFCInstance") else (lambda x: b"(" + x + b")")
                if s is not None: eng.set_content(st, s, S(z(text(r[1])))); return False
                eng.set_content(st, r[2], S(z(text(r[1])))); return r[2]
        raise Unknown(q)

class Served(Entry):
    def __init__(self, p, locale, lines):
        Machine.__init__(self, p, 400000, Services()); self.cl = self.c; self.n = 0
        self.inn = C34.enum(p, "InClass::Type"); self.out = C34.enum(p, "OutClass::Type"); self.code = {v: k for k, v in self.inn.items()}; self.ocode = {v: k for k, v in self.out.items()}
        self.gr = P(("P", "grammar"), 0); self.lx = P(("P", "this"), 0); self.grammar(GRAMMARS["plain"])
        setstream(self.st, ("P", "in"), S(b"LEXICON:\tx\tENGLISH\t" + locale + b"\t1\n" + b"".join(l + b"\n" for l in lines)))
        f = ctor(p, "Lexicon")
        self.run(f, *[P(("P", "in"), 0) if "istream" in di(f, j) else self.lx if x["name"] == "this" else self.s("nm", b"test") for j, x in enumerate(f.args)])

WORDS = [b"street", b"q7", b"Q5", b"k1", b"k3", b"k5", b"k9", b"MAIN", b"new york", b"K1", b"xq7"]
TEXTS = ["11 q7 k1 street", "k3 k5 k9", "Q5 K1", "main q7 Q5", "k1", "11 MAIN STREET", "q7 k3 k1 xq7", "new york k5 k9"]
LOCALES = [b"en_US", b"fr_CA", b"de_DE"]

def run(p, rep):
    rep.rule = "with normalisation and upper-casing taken as given functions of text and locale, addresses are propagated as constants from every entry to the tokenizer and from there to the tokens, and lexicon lines to the entries; what arrives is the text after every step"
    rep.assumptions = ["the Unicode services are functions of their text and locale; the stand-ins are idempotent and keep letters and digits", "models of engine/models.py and checks/text.py", "addresses, lexicons and locales are those enumerated in the check"]
    fn = {n: next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == n and g.blocks), None) for n in ("standardize_addr", "parse_addr", "match_addr", "Tokenizer::getTokens")}
    ini = next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "Lexicon::initialize" and g.blocks), None) or ctor(p, "Lexicon")
    jobs = [("entry", n, a, c, l) for n in ("standardize_addr", "parse_addr", "match_addr") if fn[n] for a in TEXTS for c in LOCALES for l in (LOCALES if rep.tier == "thorough" else LOCALES[:2])]
    jobs += [("tokens", "Tokenizer::getTokens", a, None, l) for a in TEXTS for l in LOCALES + [b""]] if fn["Tokenizer::getTokens"] else []
    jobs += [("lexicon", "", w, None, l) for w in (WORDS[:4], WORDS[4:8], WORDS[8:], WORDS) for l in LOCALES + [b""]]
    ut = {n: next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "Utils::" + n and g.blocks), None) for n in ("upperCaseUTF8", "normalizeUTF8")}
    fn.update(ut)
    jobs += [("service", n, a, c, b"") for n in ut if ut[n] for a in TEXTS + [""] for c in LOCALES + [b"", b"tr"]]
    rep.ob("paths", len(jobs))
    def go(j):
        kind, name, a, c, l = j; bad = []; n = 0
        try:
            lines = [b"LEXENTRY:\t" + w + b"\t" + w + b"\ttype,WORD\t" for w in WORDS]
            if l == b"": lines = [x.replace(b"type", b"TYPE") for x in lines]
            if kind == "service":
                m = Machine(p, 100000, Icu()); f = ut[name]; k = [0]
                def arg(x):
                    if "string" not in (x.get("di") or ""): return P(("P", "code"), 0)
                    k[0] += 1; return m.s(("text", k[0]), [a.encode(), c][k[0] - 1])
                m.st.mem[(("P", "code"), 0)] = I(0, 32)
                own = [arg(x) for x in f.args[1:]]
                got = m.text(f, *own); want = upper(a.encode(), c) if name.startswith("upper") else norm(a.encode())
                if got != want: bad.append(("service", "%s of %r%s is %r, the library's answer is %r" % (name, a, ", locale %r" % c.decode() if name.startswith("upper") else "", got.decode("latin1"), want.decode("latin1"))))
                return bad, 1, sorted(m.e.analysed), m.e.steps
            if kind == "lexicon":
                lines = [b"LEXENTRY:\t" + w + b"\t" + w + b"1\t" + (b"TYPE" if l == b"" else b"type") + b"\t" + (b"" if k % 2 else b"ATT_SUF") for k, w in enumerate(a)]
                m = Served(p, l, lines)
                d = C34.lexicon(p, m.e, m.st, (m.inn, C34.enum(p, "InClass::Lang"), C34.enum(p, "InClass::AttachType")))[2]
                want = [(upper(norm(x), l) if l else norm(x)).split(b"\t")[1:3] for x in lines]
                for w in want:
                    n += 1
                    if not any(x[:2] == (w[0].decode(), w[1].decode()) for x in d.get(w[0].decode(), ())): bad.append(("line", "the line of %r in a lexicon with the locale %r is not stored as %r with %r" % (w[0].decode(), l.decode(), w[0].decode(), w[1].decode())))
                return bad, n, sorted(m.e.analysed), m.e.steps
            m = Served(p, l, lines); m.cl.taken = []
            if kind == "tokens":
                tk = m.tokenizer("SPACE,PUNCT"); v = m.get(tk, a); want = upper(norm(a.encode()), l); n = 1
                got = " ".join(t[0] for t in m.read(v.a[0]) if t[0].strip())
                if "".join(got.split()) != "".join(want.decode().split()): bad.append(("tokens", "the tokenizer makes %r of %r with a lexicon of the locale %r, the normalised and upper-cased text is %r" % (got, a, l.decode(), want.decode())))
            else:
                keep = m.C; m.C = lambda s: P(("STR", S(c if s == "en_US" else s.encode())), 0)
                try: m.entry(name, a, "SPACE,PUNCT")
                except (Unknown, Giveup, KeyError):
                    if not m.cl.taken: raise
                want = upper(norm(a.encode()), c); n = len(m.cl.taken)
                if None in m.cl.taken or not n: raise Unknown("address of the tokenizer")
                for t in m.cl.taken:
                    if t != want: bad.append(("address", "%s hands %r to the tokenizer for the address %r and the locale %r, normalised and upper-cased it is %r" % (name, t.decode("latin1"), a, c.decode(), want.decode())))
        except (Thrown, Unknown, Giveup) as u:
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        return bad, n, sorted(m.e.analysed), m.e.steps
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go, secs=60)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps = r; k += 1
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_texts", n)
        if k % 15 == 1: rep.sample("%s %s %s, caller's locale %s, lexicon's %s" % j)
        for key, what in bad[:2]: rep.viol(key + ":" + name_of(j), loc(fn.get(j[1]) or ini), what)
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}

def name_of(j): return j[1] or "Lexicon"
