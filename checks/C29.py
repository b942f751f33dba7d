"""Every combination of token classes is tried, once; alternates are every way of splitting."""
from whole import *

PH = [(), ("NUMBER",), ("NUMBER WORD",), ("NUMBER", "WORD"), ("NUMBER WORD", "TYPE WORD"), ("WORD TYPE CITY",), ("WORD TYPE CITY", "NUMBER"), ("NUMBER", "WORD TYPE CITY"), ("NUMBER WORD", "WORD TYPE CITY"), ("WORD TYPE CITY", "NUMBER WORD"), ("WORD TYPE CITY", "NUMBER WORD DIRECT"),
      ("NUMBER WORD", "TYPE", "WORD CITY"), ("NUMBER WORD", "TYPE CITY", "WORD CITY"), ("NUMBER WORD TYPE", "NUMBER WORD", "CITY"), ("NUMBER", "WORD CITY TYPE", "WORD", "PROV CITY"), ("WORD CITY TYPE DIRECT", "WORD CITY TYPE"), ("NUMBER WORD", "WORD CITY", "CITY PROV", "PROV TYPE"),
      ("NUMBER", "NUMBER", "NUMBER"), ("WORD CITY TYPE DIRECT PROV", "NUMBER WORD"), ("NUMBER WORD", "NUMBER WORD", "NUMBER WORD TYPE"), ("NUMBER WORD TYPE", "NUMBER", "NUMBER WORD", "CITY")]
DEEP = [("NUMBER WORD TYPE",) * 4, ("NUMBER WORD",) * 6, ("WORD CITY TYPE DIRECT PROV NUMBER", "NUMBER WORD TYPE", "WORD CITY"), ("NUMBER", "WORD TYPE CITY DIRECT", "WORD CITY PROV", "NUMBER WORD", "NATION PROV")]
TX = [("11", "MAIN"), ("NEW YORK",), ("NEW YORK", "11"), ("11", "NEW YORK", "BROAD WAY"), ("THE TEN ROW", "NEW YORK"), ("NEW YORK", "MAIN", "BROAD WAY", "THE TEN ROW"), ("A B", "C D"), ("A  B", "C"), ("A   B C", "D E"), ("11", "12"), (), ("NEW YORK", "NEW YORK"), ("A B", "C D", "E F", "G H")]

def run(p, rep):
    rep.rule = "token lists with class sets of different sizes, and phrases with words that can and cannot be split, are propagated as constants through enumerate and getAltTokens; the sequences are the product of the class sets and the alternates the non-empty choices of words to split, each once"
    rep.assumptions = ["vector, set and string models of engine/models.py; boost::split cuts at runs of blanks", "lists and phrases are those enumerated in the check"]
    en = next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "Token::enumerate" and g.blocks), None)
    al = next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "Tokenizer::getAltTokens" and g.blocks), None)
    jobs = [("classes", ph) for ph in PH + (DEEP if rep.tier == "thorough" else DEEP[:2]) if en] + [("split", t) for t in TX if al] + [("address", a) for a in ADDRESSES if al and len(a.split()) < 5]
    rep.ob("lists", len(jobs))
    def go(j):
        kind, ph = j; bad = []
        try:
            m = Entry(p); m.e.limit = 300000
            if kind == "classes":
                v = m.phrase("phrase", ph); r = P(("P", "list"), 0); m.run(en, r, v)
                got = [tuple(m.inn.get(c, c) for c in val(m.e, m.st, s, 0)) for s in m.elems(r.a[0], 0)]
                want = list(itertools.product(*[t.split() for t in ph])); n = len(want)
                for g in got:
                    if g not in want: bad.append(("foreign", "the sequence %s is no choice of the classes of the tokens [%s]" % (" ".join(map(str, g)), " | ".join(ph))))
                    elif got.count(g) > 1: bad.append(("twice", "the sequence %s of [%s] is listed %d times" % (" ".join(g), " | ".join(ph), got.count(g))))
                for w in want:
                    if w not in got: bad.append(("missing", "the sequence %s of [%s] is not listed" % (" ".join(w), " | ".join(ph))))
            else:
                tk = m.tokenizer("SPACE" if kind == "address" else "")
                if kind == "address": v = m.get(tk, ph)
                else:
                    v = P(("P", "phrase"), 0); m.e.set_content(m.st, v, mk("seq", tuple(m.token(i, "CITY" if " " in t else "WORD", t) for i, t in enumerate(ph))))
                base = m.read(v.a[0]); r = m.alternates(tk, v); got = m.lists(r)
                texts = [t[0] for t in base]; where = [i for i, t in enumerate(texts) if len(t.split()) > 1]
                if any(t != t.strip() or not t for t in texts): return None
                want = []
                for s in itertools.product((0, 1), repeat=len(where)):
                    if any(s): want.append([w for i, t in enumerate(texts) for w in (t.split() if i in where and s[where.index(i)] else [t])])
                n = len(want) + 1; left = list(want)
                for g in got:
                    t = [x[0] for x in g]
                    if t in left: left.remove(t)
                    else: bad.append(("twice" if t in want else "foreign", "the alternate %s of [%s] %s" % (" | ".join(t), " | ".join(texts), "is given twice" if t in want else "is no way of splitting it")))
                    for x in g:       # an unsplit token keeps what is known about it
                        if x[0] in texts and (" " in x[0] or not any(x[0] in texts[i].split() for i in where)) and x not in base: bad.append(("token", "the unsplit token %r changes in an alternate of [%s]" % (x[0], " | ".join(texts))))
                        if not x[1]: bad.append(("noclass", "the token %r of an alternate of [%s] has no class" % (x[0], " | ".join(texts))))
                for w in left: bad.append(("missing", "the alternate %s of [%s] is missing" % (" | ".join(w), " | ".join(texts))))
        except (Thrown, Unknown) as u:
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        return bad, n, sorted(m.e.analysed), m.e.steps
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go, secs=60)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps = r; k += 1
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_sequences", n)
        if k % 6 == 1: rep.sample("%s: %s, %d expected" % (j[0], list(j[1]) if j[0] != "address" else j[1], n))
        for key, what in bad[:2]: rep.viol(key, loc(en if j[0] == "classes" else al), what)
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
