"""The grammar search is bounded and reports only complete derivations."""
from whole import *

LONG = [("right", ("WORD",) * 9), ("left", ("WORD",) * 6), ("right", ("WORD",) * 24), ("left", ("NUMBER",) * 10), ("right", ("WORD", "NUMBER") * 15), ("right", ("WORD",) * 40)]

def run(p, rep):
    rep.rule = "grammars over the shapes of references (rules only, nested, left, right and endlessly recursive) and phrases of known classes and unknown texts are propagated as constants through the search; what it returns must be the complete derivations of an independent reading of the same grammar and the nesting must not exceed a bound set by the phrase"
    rep.assumptions = ["vector, map and string models of engine/models.py and checks/text.py", "grammars and phrases are those enumerated in checks/whole.py", "derivations that expand more reference sections than the phrase has tokens are not required"]
    f = {n: [g for g in p.funcs.values() if g.q == "Search::search" and g.blocks and len(g.args) == n] for n in (3, 4)}
    fs = (f[3] + f[4])[:1] and {3: f[3], 4: f[4]}
    jobs = [(g, ph) for g in GRAMMARS for ph in PHRASES + ([()] if g == "plain" else [])] + LONG
    rep.ob("searches", len(jobs))
    def go(j):
        gname, ph = j; g = parse(GRAMMARS[gname]); bad = []; n = 0; m = None
        fn = next((x for x in f[3] if "vector<Token" in di(x, 2) or True), None) if f[3] else None
        if fn is None: return None
        try:
            m = Whole(p, GRAMMARS[gname], 100000); s = m.search(); v = m.phrase("phrase", ph); r = P(("P", "paths"), 0)
            m.cl.depth = 40 + 12 * (len(ph) + 3); m.cl.seen = 0
            m.run(fn, r, s, v)
            got = m.paths(r.a[0])
            want = outcomes(g, ph)
            need = [w for w in want if w[2] <= max(1, len(ph))]
            left = list(want)
            for rules, rest in got:
                n += 1
                word = tuple(c for x in rules for c in x[0])
                if rest: bad.append(("leftover", "a match leaves %d tokens over: %s" % (rest, show(rules))))
                elif len(word) != len(ph) or any(c not in t.split() for c, t in zip(word, ph)): bad.append(("classes", "a match applies %s, whose classes are not a choice of the tokens' classes" % show(rules)))
                else:
                    hit = next((w for w in left if same(w[1], rules)), None)
                    if hit: left.remove(hit)
                    elif any(same(w[1], rules) for w in want): bad.append(("repeated", "the derivation %s is reported twice" % show(rules)))
                    elif not any(same(w[1], rules) for w in outcomes(g, ph, 3 * len(ph) + 6)): bad.append(("derivation", "%s is no derivation of the grammar" % show(rules)))
            miss = [w for w in need if any(w is x for x in left)]; n += len(need) + 1
            if miss: bad.append(("missing", "the derivation %s is not found" % show(miss[0][1])))
        except TooDeep as t: bad.append(("depth", "the search nests more than %d calls deep" % m.cl.depth)); n = 1
        except (Thrown, Unknown) as u:
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        return bad, n, sorted(m.e.analysed), m.e.steps, m.cl.seen
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go, secs=40)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps, seen = r; k += 1
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_derivations", n)
        if k % 20 == 1: rep.sample("grammar %s, phrase %s: %d derivations, %d nested calls" % (j[0], list(j[1]), n, seen))
        for key, what in bad[:2]: rep.viol(key, loc(f[3][0]), "%s; phrase [%s], grammar: %s" % (what, " | ".join(j[1]), " / ".join(GRAMMARS[j[0]].splitlines())))
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
