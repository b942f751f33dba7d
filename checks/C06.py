"""What a compiled lexicon stores is what is loaded back, and the patterns are in it."""
from whole import *

LEXM = [("name_", "s"), ("lang_", "i"), ("locale_", "s"), ("lex_", "c"), ("regex_", "s"), ("regexPrefix_", "s"), ("regexSuffix_", "s"), ("md5_", "s")]
ENTM = [("word_", "s"), ("stdword_", "s"), ("type_", "c"), ("attached_", "c")]
SAY = {"name_": "name", "lang_": "language", "locale_": "locale", "lex_": "entries", "regex_": "word pattern", "regexPrefix_": "prefix pattern", "regexSuffix_": "suffix pattern", "md5_": "checksum", "word_": "word", "stdword_": "standard word", "type_": "classes", "attached_": "attachment"}

class Store(Lex):
    """an archive is the list of the values put into it; reading takes them from its front"""
    def kind(self, t):
        for k, w in (("c", ("std::map", "std::set", "std::vector", "std::list")), ("s", ("std::string", "std::basic_string", "std::__cxx11"))):
            if any(x in t.split("<")[0] for x in w): return k
        return "i"
    def call(self, eng, st, info):
        q = info.q; m = q.split("::")[-1]; a = info.args
        if "boost::archive" in q and m in ("operator@SHR", "operator@SHL", "operator&", "operator@AND") and len(a) == 2:
            key = (("STORE",), 0); have = st.mem[key].a[0] if key in st.mem else ()
            if a[1].op != "p": raise Giveup("archive of an unknown place")
            k = self.kind((info.params[-1] if info.params else "").replace("const ", ""))
            loading = "iarchive" in q or "iarchive" in (eng.p.funcs[info.inst["f"][1]].dem if info.inst.get("f", [""])[0] == "g" and info.inst["f"][1] in eng.p.funcs else "") or "_iarchive" in str(info.inst.get("f"))
            if not loading:
                v = eng.snapshot_content(st, a[1]) if k != "i" else eng.facted(st, eng.read(st, a[1].a[0], a[1].a[1]))
                st.mem[key] = mk("seq", have + (mk("agg", (S(k.encode()), v), NULL),)); return a[0]
            if not have: raise Giveup("archive at its end")
            h = have[0].a[0]; st.mem[key] = mk("seq", have[1:])
            v = h[1] if h[0].n.decode() == k else mk("other", h[1])
            if k == "i": st.mem[(a[1].a[0], a[1].a[1])] = v if h[0].n == b"i" else TOP
            else: eng.set_content(st, a[1], v)
            return a[0]
        return Lex.call(self, eng, st, info)

def fns_of(p, cls, mode):
    d = "oarchive" if mode == "save" else "iarchive"
    fs = sorted((f for f in p.funcs.values() if f.blocks and f.q in (cls + "::" + mode, cls + "::serialize") and d in f.dem and len(f.args) == 3), key=lambda f: (f.q.endswith("serialize"), f.name))
    return fs[0] if fs else None

def values(ms):
    """values of the members: all different, and with single members empty or equal"""
    base = {f: (S(("the " + f).encode()) if k == "s" else I(5, 32) if k == "i" else mk("seq", (S(f.encode()), S(b"x")))) for f, k in ms}
    out = [base]
    for f, k in ms:
        d = dict(base); d[f] = S(b"") if k == "s" else I(0, 32) if k == "i" else mk("seq", ()); out.append(d)
        d = dict(base); d[f] = S(b"a b\nc\t1") if k == "s" else I(1, 32) if k == "i" else mk("seq", (S(b"k"),)); out.append(d)
    out.append({f: (S(b"") if k == "s" else I(0, 32) if k == "i" else mk("seq", ())) for f, k in ms})
    return out

class Written(Lex):
    """records the patterns of the lexicon at the moment it is written, and marks the text"""
    def call(self, eng, st, info):
        q = info.q; m = q.split("::")[-1]; a = info.args
        if "boost::archive" in q:
            if m == "text_oarchive" and len(a) > 1 and a[1].op == "p": st.mem[(("ARCH",), 0)] = a[1]; return False
            if m in ("operator@SHL", "operator&", "operator@AND") and len(a) == 2 and a[1].op == "p":
                F = lambda n: C34.field(eng.p, "Lexicon", n)
                st.mem[(("WRITTEN",), 0)] = mk("seq", tuple(eng.facted(st, eng.snapshot_content(st, P(a[1].a[0], a[1].a[1] + F(n)))) for n in ("regex_", "regexPrefix_", "regexSuffix_")))
                s = st.mem.get((("ARCH",), 0))
                if s is None: raise Giveup("archive of no stream")
                st.mem[(s.a[0], "SB")] = models.appended(st, content(st, s.a[0]), S(b"<the archive>"))
                return a[0]
            if m.startswith("~"): return False
        return Lex.call(self, eng, st, info)

LINES = [[b"LEXENTRY:\tST\tSTREET\tTYPE\t", b"LEXENTRY:\tSTRASSE\tSTRASSE\tTYPE\tATT_SUF", b"LEXENTRY:\tSAN\tSAN\tWORD\tATT_PRE"], [b"LEXENTRY:\tNEW YORK\tNEW YORK\tCITY\t"], [b"LEXENTRY:\tALT\tALT\tDIRECT\tATT_PRE,DET_PRE", b"LEXENTRY:\tWEG\tWEG\tTYPE\tATT_SUF,DET_SUF", b"LEXENTRY:\tA\tA\tWORD\tDETACH"]]

def run(p, rep):
    rep.rule = "lexicons and entries with distinguishable members are propagated through the archive's writing and then its reading; every member must come back; a lexicon is propagated through the compiler up to the archive, where its patterns must be the ones it computes"
    rep.assumptions = ["boost stores and restores a string, number, map or set as it is", "values of different kinds in another order are not read as each other"]
    fns = set()
    for cls, ms, ver in (("Lexicon", LEXM, 2), ("LexEntry", ENTM, 0)):
        sv, ld = fns_of(p, cls, "save"), fns_of(p, cls, "load")
        if sv is None or ld is None: rep.ob("undecided"); continue
        for vs in values(ms):
            try:
                m = Machine(p, 60000, Store()); F = lambda n: C34.field(p, cls, n); a, b = ("P", "saved"), ("P", "loaded")
                for o, w in ((a, vs), (b, {f: (S(b"") if k == "s" else I(0, 32) if k == "i" else mk("seq", ())) for f, k in ms})):   # as the constructor leaves them
                    for f, k in ms:
                        if k == "i": m.st.mem[(o, F(f))] = w[f]
                        else: m.e.set_content(m.st, P(o, F(f)), w[f])
                ar = P(("P", "archive"), 0)
                m.run(sv, P(a, 0), ar, I(ver, 32))
                stored = m.st.mem.get((("STORE",), 0)); stored = len(stored.a[0]) if stored is not None else 0
                m.run(ld, P(b, 0), ar, I(ver, 32))
                fns |= m.e.analysed
                for f, k in ms:
                    g = m.e.facted(m.st, m.e.read(m.st, b, F(f)) if k == "i" else m.e.get_content(m.st, P(b, F(f))))
                    rep.ob("obligation_members")
                    if k == "i" and g.op == "i" and vs[f].op == "i" and g.n & 0xffffffff == vs[f].n or g is vs[f]: continue
                    if g in (TOP, UNDEF) or g.op == "J": rep.ob("undecided"); continue
                    rep.viol("%s.%s" % (cls, f), loc(ld if stored >= len(ms) else sv), "the %s of a %s, %s when it is saved, %s when it is loaded" % (SAY[f], "lexicon" if cls == "Lexicon" else "lexicon entry", vs[f], "is left empty" if g.op == "s" and not g.n or g.op == "i" and not g.n or g.op == "seq" and not g.a[0] else "is %s" % g))
                left = m.st.mem.get((("STORE",), 0))
                if left is not None and left.a[0]: rep.ob("obligation_members"); rep.viol("%s.rest" % cls, loc(ld), "the archive of a %s holds %d more values than are read back" % (cls, len(left.a[0])))
            except Giveup as u:
                if "at its end" in str(u): rep.ob("obligation_members"); rep.viol("%s.rest" % cls, loc(ld), "more values are read from the archive of a %s than are stored" % cls)
                else: rep.ob("undecided")
            except (Thrown, Unknown) as u:
                if os.environ.get("AS_DEBUG"): print(cls, u)
                rep.ob("undecided")
    f = next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "serialize_lexicon" and g.blocks), None)
    rep.ob("lexicons", len(LINES))
    def go(k):
        bad = []
        try:
            text = HEAD + b"".join(l + b"\n" for l in LINES[k])
            m = Machine(p, 300000, Written()); err = P(("P", "err"), 0); m.st.mem[(err.a[0], 0)] = NULL
            v = m.run(f, *[err if "**" in di(f, j) else P(("STR", S(text)), 0) for j in range(len(f.args))])
            w = m.st.mem.get((("WRITTEN",), 0))
            if w is None: return [("archive", "no lexicon is written")], 1, sorted(m.e.analysed), m.e.steps
            got = w.a[0]
            m2 = Entry(p, "plain", LINES[k])
            want = [m2.text(next(g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "Lexicon::" + n and g.blocks), m2.lx) for n in ("regex", "regexPrefixAtt", "regexSuffixAtt")]
            for n, g, x in zip(("word", "prefix", "suffix"), got, want):
                if g.op != "s": raise Unknown(str(g)[:100])
                if g.n != x: bad.append(("patterns", "the %s pattern is %r when the lexicon is written, it computes %r" % (n, g.n.decode("latin1")[:60], x.decode("latin1")[:60])))
            r = None if v is NULL else m.e.facted(m.st, m.e.strval(m.st, v))
            if r is None or r.op == "s" and r.n != b"<the archive>": bad.append(("result", "the compiled text is %s, not the archive that was written" % (repr(r.n.decode("latin1")) if r is not None else "missing")))
        except (Thrown, Unknown, Giveup) as u:
            if os.environ.get("AS_DEBUG"): print(k, u)
            return None
        return bad, 4, sorted(m.e.analysed), m.e.steps
    for k, r in enumerate(parallel(range(len(LINES)), go, secs=100) if f is not None else []):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps = r
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_patterns", n); rep.sample("lexicon of %d entries" % len(LINES[k]))
        for key, what in bad[:2]: rep.viol(key, loc(f), "%s; entries %s" % (what, [l.decode() for l in LINES[k]]))
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
