"""Reclassified tokens pair each token with its own rule position."""
from whole import *

# the same four tokens cut into rules in every way, with a class of the first or the last kind
WAYS = []
for cut in itertools.product((0, 1), repeat=3):
    for cs in (("NUMBER",) * 4, ("WORD",) * 4, ("NUMBER", "WORD", "TYPE", "NUMBER")):
        w, cur = [], []
        for k, c in enumerate(cs):
            cur.append(k)
            if k == 3 or cut[k]: w.append(cur); cur = []
        WAYS.append(" + ".join("%s -> %s" % (" ".join(cs[i] for i in x), " ".join(("HOUSE", "STREET", "SUFTYP", "CITY")[i] for i in x)) for x in w))
# (phrase, rule lists put to it)
MORE = [(("NUMBER", "WORD TYPE"), ["NUMBER WORD -> HOUSE STREET", "NUMBER TYPE -> HOUSE SUFTYP", "NUMBER -> HOUSE + WORD -> CITY", "NUMBER -> HOUSE + TYPE -> SUFTYP", "NUMBER -> HOUSE", "NUMBER CITY -> HOUSE CITY", "WORD NUMBER -> STREET HOUSE", "NUMBER WORD -> HOUSE STREET + TYPE -> SUFTYP", "TYPE -> SUFTYP + NUMBER -> HOUSE"]),
        (("WORD", "WORD", "WORD"), ["WORD -> STREET + WORD WORD -> CITY PROV", "WORD WORD -> PRETYP STREET + WORD -> SUFTYP", "WORD WORD WORD -> CITY PROV POSTAL", "WORD WORD -> STREET CITY", "WORD WORD WORD -> STREET STREET STREET + WORD -> CITY", "WORD -> STREET + WORD -> STREET + WORD -> CITY", "WORD WORD NUMBER -> STREET STREET HOUSE"]),
        (("NUMBER WORD", "DIRECT WORD", "CITY PROV WORD", "NUMBER"), ["NUMBER DIRECT -> HOUSE PREDIR + PROV NUMBER -> PROV POSTAL", "WORD WORD CITY NUMBER -> STREET STREET CITY POSTAL", "NUMBER -> HOUSE + WORD -> STREET + WORD -> CITY + NUMBER -> POSTAL", "NUMBER PROV CITY NUMBER -> HOUSE PROV CITY POSTAL", "NUMBER DIRECT CITY -> HOUSE PREDIR CITY", "NUMBER DIRECT CITY NUMBER -> HOUSE PREDIR CITY POSTAL"]),
        (("NUMBER WORD", "WORD NUMBER", "NUMBER TYPE WORD", "WORD NUMBER"), WAYS),
        ((), ["NUMBER -> HOUSE"]), (("PUNCT",), ["PUNCT -> BADTOKEN", "WORD -> STREET"])]

def rules(t): return tuple((tuple(x.split("->")[0].split()), tuple(x.split("->")[1].split()), 0.5) for x in t.split(" + "))
def fits(ph, rs):
    w = [c for r in rs for c in r[0]]
    return len(w) == len(ph) and all(c in t.split() for c, t in zip(w, ph))

def run(p, rep):
    rep.rule = "rule lists that fit and rule lists that do not are applied to tokens of known classes and unknown texts, propagated as constants; the classes of every token afterwards are those at its own position, and a list that does not fit is refused"
    rep.assumptions = ["vector, set and string models of engine/models.py", "tokens and rule lists are those enumerated in the check and the derivations of checks/whole.py"]
    fn = next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "Search::reclassTokens" and g.blocks and len(g.args) == 3), None)
    al = next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "Search::searchAndReclassAll" and g.blocks), None)
    jobs = [("direct", ph, tuple(rules(r) for r in rs)) for ph, rs in MORE] if fn else []
    for g in GRAMMARS:
        ws = [(ph, r) for ph in PHRASES for _, r, u in outcomes(parse(GRAMMARS[g]), ph)]
        for ph in sorted({w[0] for w in ws}):
            jobs.append(("direct", ph, tuple(sorted({r for h, r in ws if h == ph} | {r for h, r in ws[::7]}))[:12 if rep.tier == "quick" else 60]))
    if al: jobs += [("all", l, gn) for l in LISTS for gn in ("plain", "rules", "best", "deep")]
    rep.ob("token_lists", len(jobs))
    def go(j):
        kind, ph, rs = j; bad = []; n = 0
        try:
            m = Whole(p, GRAMMARS["plain" if kind == "direct" else rs], 400000); s = m.search(); m.cl.depth = 200
            F = lambda n: m.F("Rule", n)
            if kind == "direct":
                for k, r in enumerate(rs):
                    for was in ("BADTOKEN", "POSTAL"):
                        v = m.phrase(("phrase", k, was), ph)
                        c = m.e.get_content(m.st, v); m.e.set_content(m.st, v, mk("seq", tuple(m.e.fold(x, [(m.F("Token", "outclass_"), I(m.ocode[was], 32))]) for x in c.a[0])))
                        o = P(("P", ("path", k, was)), 0)
                        m.e.set_content(m.st, P(o.a[0], m.F("SearchPath", "rules")), mk("seq", tuple(mk("agg", tuple(sorted([(F("inClass_"), mk("seq", tuple(I(m.code[c], 32) for c in x[0]))), (F("outClass_"), mk("seq", tuple(I(m.ocode[c], 32) for c in x[1]))), (F("score_"), mk("f", x[2]))], key=lambda y: y[0])), NULL) for x in r)))
                        for f in ("next", "remaining"): m.e.set_content(m.st, P(o.a[0], m.F("SearchPath", f)), mk("seq", ()))
                        rv = m.run(fn, s, v, o); n += 1
                        if rv.op != "i": raise Unknown(str(rv)[:100])
                        if bool(rv.n & 1) != fits(ph, r): bad.append(("refused" if fits(ph, r) else "accepted", "the rules %s are %s for the tokens [%s]" % (show(r), "accepted" if rv.n & 1 else "refused", " | ".join(ph)))); continue
                        if not rv.n & 1: continue
                        got = m.tokens(v.a[0]); want = [(i, (a,), b) for i, (a, b) in enumerate((a, b) for x in r for a, b in zip(x[0], x[1]))]
                        if got != want: bad.append(("pairing", "the rules %s turn the tokens [%s] into %s" % (show(r), " | ".join(ph), ", ".join("%s as %s" % ("/".join(g[1]), g[2]) for g in got))))
            else:
                g = parse(GRAMMARS[rs]); v = m.phrases("phrases", ph); r = P(("P", "all"), 0)
                m.run(al, r, s, v)
                G = lambda n: m.F("MatchResult", n)
                for e in m.elems(r.a[0], 0):
                    n += 1; t = m.val(e, G("matched")); sc = m.val(e, G("score"))
                    know = any(pattern(x[1]) == t for h in ph for x in outcomes(g, h))
                    if not know and sc >= 0: bad.append(("presented", "%r is presented as a match with the score %s" % (t, sc)))
        except TooDeep: return None
        except (Thrown, Unknown) as u:
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        return bad, n, sorted(m.e.analysed), m.e.steps
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go, secs=60)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps = r; k += 1
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_applications", n)
        if k % 15 == 1: rep.sample("%s: tokens %s, %d applications" % (j[0], list(j[1]), n))
        for key, what in bad[:2]: rep.viol(key, loc(fn if j[0] == "direct" else al), what)
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
