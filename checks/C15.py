"""The best match is the highest-scoring one and its parts belong together."""
from whole import *

def run(p, rep):
    rep.rule = "phrases of known classes and unknown texts are propagated as constants through the search for the best match; tokens, pattern, score and rule count must be those of one match whose average score is the highest over all matches of all phrases in an independent reading of the grammar"
    rep.assumptions = ["vector, set, string and floating-point models of engine/models.py", "phrases and grammars are those enumerated in checks/whole.py; among matches of equal average any one may be reported"]
    fs = [g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "Search::searchAndReclassBest" and g.blocks and len(g.args) == 6]
    one = [g for g in fs if not "vector<std::vector" in di(g, 2).replace("const ", "") and "vector<vector" not in di(g, 2)]
    many = [g for g in fs if g not in one]
    names = ("plain", "rules", "best", "deep", "order")
    jobs = [("one", (ph,), g) for ph in PHRASES for g in names if one] + [("many", l, g) for l in LISTS for g in names if many] + [("many", l[::-1], g) for l in LISTS for g in names if many]
    rep.ob("searches", len(jobs))
    def go(j):
        kind, phs, gn = j; bad = []; g = parse(GRAMMARS[gn]); fn = (one if kind == "one" else many)[0]
        if any(w[2] > max(1, len(ph)) for ph in phs for w in outcomes(g, ph, 3 * len(ph) + 4)): return [], 0, [], 0     # not required to be found, C14
        try:
            m = Whole(p, GRAMMARS[gn], 400000); s = m.search(); m.cl.depth = 300
            v = m.phrase("phrase", phs[0], 0) if kind == "one" else m.phrases("phrases", phs)
            r = P(("P", "tokens"), 0); sc = m.cell("score", mk("f", 77.0)); nr = m.cell("nrules", mk("f", 77.0)); t = m.s("matched", b"stale")
            by = {0: v}
            a = []
            order = iter([x for x in ((sc, nr))])
            for k in range(2, len(fn.args)):
                d = di(fn, k)
                a.append(v if "vector" in d else t if "string" in d else next(order))
            m.run(fn, r, s, *a)
            score, nrules = m.val(sc.a[0], 0), m.val(nr.a[0], 0); text = m.val(t.a[0], 0); toks = m.tokens(r.a[0])
            all = [(k, x) for k, ph in enumerate(phs) for x in outcomes(g, ph)]
            what = None
            if not all:
                if not score < 0: bad.append(("nothing", "nothing matches, but the score is %s" % score))
            else:
                best = max(average(x[1]) for _, x in all)
                got = (score, nrules, text, toks)
                def agrees(k, x):
                    rs = x[1]; ix = lambda i: i if kind == "one" else (k, i)
                    return (near(average(rs), score), near(len(rs), nrules), pattern(rs) == text, toks == [(ix(i), (a,), b) for i, (a, b) in enumerate((a, b) for y in rs for a, b in zip(y[0], y[1]))])
                cand = [agrees(k, x) for k, x in all if near(average(x[1]), best)]
                if not any(c == (True,) * 4 for c in cand):
                    if not near(score, best): bad.append(("score", "the score is %s, the best average is %s" % (score, best)))
                    else: 
                        c = max(cand, key=sum)
                        bad.append(("parts", "the %s of the best match %s" % (" and the ".join(x for x, y in zip(("score", "rule count", "pattern", "tokens"), c) if not y), "are those of another: score %s, %s rules, pattern %r, tokens %s" % (score, nrules, text, ", ".join("%s as %s" % ("/".join(q[1]), q[2]) for q in toks)))))
        except TooDeep: return None
        except (Thrown, Unknown) as u:
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        return bad, 4, sorted(m.e.analysed), m.e.steps
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go, secs=60)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps = r
        if not n: rep.ob("not_required"); continue
        k += 1; fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_parts", n)
        if k % 20 == 1: rep.sample("grammar %s, %s" % (j[2], " or ".join("[%s]" % " | ".join(x) for x in j[1])))
        for key, what in bad[:2]: rep.viol(key, loc((one if j[0] == "one" else many)[0]), "%s; phrases %s, grammar %s" % (what, " or ".join("[%s]" % " | ".join(x) for x in j[1]), " / ".join(GRAMMARS[j[2]].splitlines())))
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
