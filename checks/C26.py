"""Standard words come from the entry that matches the token's class; lexicon classes are the union over the word's entries."""
from C08 import *

LEX = ["a", "b", "c", "d", "h", "i"]
MORE = {"u": b"LEXENTRY:\tST\tSTATION\tBUILDT\t", "v": b"LEXENTRY:\tN\tNORTH\tDIRECT\t", "w": b"LEXENTRY:\tNEW YORK\tNY\tCITY,PROV\t", "x": b"LEXENTRY:\tZERO\t0\tSTOP\t", "y": b"LEXENTRY:\tN\tNUMERO\tSTOPWORD\t", "z": b"LEXENTRY:\tN\tN\tDIRECT,SINGLE\t", "e": b"LEXENTRY:\tEMPTYSTD\t\tWORD\t"}
MORE["p1"] = b"LEXENTRY:\tLNG\tA STANDARD NAME OF SEVERAL LONG WORDS THAT GOES ON AND ON\tWORD,CITY\t"
MORE["p2"] = b"LEXENTRY:\tLNG\tLANGE\tTYPE,CITY,DIRECT\t"
MORE["p3"] = b"LEXENTRY:\tLNG\tL\tPROV,NUMBER,TYPE\t"
LINES = dict(LINES, **MORE)
LEXICONS = [LEX, ["i", "h", "b", "a"], ["u", "v", "w", "x", "y", "z", "a"], ["z", "y", "v", "b", "u", "e"], ["p1", "p2", "p3", "a"], ["p3", "b", "p1", "p2"], []]
TEXTS = ["LNG", "ST", "STRASSE", "AVE", "N", "NEW YORK", "ZERO", "EMPTYSTD", "MAIN", "S", "STREET", "NEW", "12", "A1", "-", "?", ""]

def token(m, fs, text, inclass=(), inlex=None):
    o = P(("P", ("token", m.k)), 0); F = lambda n: C34.field(m.p, "Token", n)
    m.run(fs["token"], o)
    m.e.set_content(m.st, P(o.a[0], F("text_")), S(text.encode()))
    if inclass: m.e.set_content(m.st, P(o.a[0], F("inclass_")), mk("seq", tuple(I(c, 32) for c in sorted(inclass))))
    if inlex is not None: m.st.mem[(o.a[0], F("inlex_"))] = I(int(inlex), 8)
    return o

def tokfns(p):
    fs = functions(p)
    if not fs: return None
    fs["token"] = pick(p, "Token::Token", lambda f: len(f.args) == 1)
    fs["classify"] = pick(p, "Lexicon::classify", lambda f: True); fs["standardize"] = pick(p, "Lexicon::standardize", lambda f: True)
    return fs if all(v for k, v in fs.items() if k != "init") else None

def run(p, rep):
    rep.rule = "tokens with known text and class are classified and standardized against lexicons with several entries per word, propagated as constants; standard text, classes and the known mark are those of the entries"
    rep.assumptions = ["regular expressions on the token text follow Perl syntax", "stream, string, vector, map models of engine/models.py and checks/text.py"]
    fs = tokfns(p); inn = C34.enum(p, "InClass::Type")
    codes = {v: k for k, v in inn.items()}
    cls = sorted(inn) if rep.tier == "thorough" else [codes[c] for c in ("NUMBER", "WORD", "TYPE", "DIRECT", "CITY", "PROV", "BUILDT", "STOPWORD", "SINGLE", "STOP", "PUNCT") if c in codes]
    jobs = [(l, t) for l in range(len(LEXICONS)) for t in TEXTS] if fs else []
    rep.ob("token_texts", len(jobs))
    def go(j):
        l, t = j; n = 0; bad = []
        mod = Model()
        for k in LEXICONS[l]: mod.insert(parts(LINES[k]))
        F = lambda n: C34.field(p, "Token", n)
        try:
            m = Lexm(p, fs, [LINES[k] for k in LEXICONS[l]])
            es = mod.d.get(t, [])
            for c in cls:
                name = inn[c]
                o = token(m, fs, t, (c,), (None, True, False)[n % 3]); m.run(fs["standardize"], m.this, o); n += 1
                got = val(m.e, m.st, o.a[0], F("stdtext_")); hit = [e for e in es if name in e[2]]
                if hit and hit[0][1] == "": continue
                want = hit[0][1] if hit else t
                if got != want: bad.append(("standardize", "the token %r of class %s gets the standard text %r, expected %r" % (t, name, got, want)))
                if val(m.e, m.st, o.a[0], F("text_")) != t: bad.append(("standardize", "the text of token %r is changed" % t))
            un = {x for e in es for x in e[2]}
            for was in (None, True, False):
                for typ in ("WORD", "PUNCT"):
                    o = token(m, fs, t, (), was); m.run(fs["classify"], m.this, o, I(codes[typ], 32)); n += 1
                    got = {inn[c] for c in val(m.e, m.st, o.a[0], F("inclass_"))}; known = bool(val(m.e, m.st, o.a[0], F("inlex_")))
                    if known != bool(un): bad.append(("known", "the token %r, %s lexicon, is marked as %s" % (t, "in the" if un else "not in the", "known" if known else "unknown")))
                    if un and got != un: bad.append(("classes", "the token %r gets the classes %s, its entries have %s" % (t, ",".join(sorted(got)), ",".join(sorted(un)))))
                    if not un and not got: bad.append(("classes", "the token %r gets no class" % t))
        except Thrown as x: return None
        except Unknown as u:
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        return bad, n, sorted(m.e.analysed), m.e.steps
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps = r
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_tokens", n); k += 1
        if k % 10 == 1: rep.sample("token %r against the entries %s: %d obligations" % (j[1], " | ".join(LINES[x].decode()[10:] for x in LEXICONS[j[0]]), n))
        for key, what in bad[:2]: rep.viol(key, loc(fs["standardize" if key == "standardize" else "classify"]), "%s; entries: %s" % (what, " | ".join(LINES[x].decode()[10:] for x in LEXICONS[j[0]])))
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
