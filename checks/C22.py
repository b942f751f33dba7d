"""as_parse and as_match report every alternative completely and in order."""
from whole import *

def names(p, t, l): return [(C34.field(p, t, f), k) for f, k in l]
def run(p, rep):
    rep.rule = "addresses are propagated as constants through parse_addr and match_addr; the records are exactly the tokens of every tokenization in order, and exactly the matches of every tokenization in an independent reading of the grammar, by falling score"
    rep.assumptions = ["regular expressions on the address follow Perl syntax", "models of engine/models.py and checks/text.py; std::sort orders by the comparison it is given", "addresses, lexicon and grammars are those enumerated in checks/whole.py"]
    f = {n: next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == n and g.blocks), None) for n in ("parse_addr", "match_addr", "Search::searchAndReclassAll", "Tokenizer::getTokens")}
    adr = [a for a in ADDRESSES if len(a) < 34]
    F = ["PUNCT,SPACE,DASH", "SPACE,DIRECT"] if rep.tier == "quick" else ["PUNCT,SPACE,DASH", "SPACE,DIRECT", "SPACE", "SPACE,CITY,STOPWORD"]
    jobs = [("parse", a, fl, "plain") for a in adr for fl in F] + [("match", a, F[0], g) for a in adr for g in ("plain", "best", "rules", "order", "close")] if all(f.values()) else []
    jobs += [("all", l, "", g) for l in LISTS for g in GRAMMARS if g not in ("loop", "left")]
    rep.ob("calls", len(jobs))
    def go(j):
        kind, a, fl, gn = j; bad = []; n = 0; g = parse(GRAMMARS[gn])
        try:
            m = Entry(p, gn); m.e.limit = 300000
            def matches(recs, phs):
                """reported (pattern, score, rules) against every match of the phrases of class sets"""
                want = [(pattern(r), average(r), len(r)) for ph in phs for w, r, u in outcomes(g, ph) if u <= len(ph) + 2]
                opt = [(pattern(r), average(r), len(r)) for ph in phs for w, r, u in outcomes(g, ph) if u > len(ph)]
                left = list(want)
                eq = lambda x, y: x[0] == y[0] and near(x[1], y[1]) and near(x[2], y[2])
                if not want:
                    if any(not r[1] < 0 for r in recs): bad.append(("match", "nothing matches, but %r is reported with the score %s" % (recs[0][0], recs[0][1])))
                    return
                for r in recs:
                    h = next((w for w in left if eq(w, r)), None)
                    if h: left.remove(h)
                    else:
                        t = [w for w in want if w[0] == r[0]]
                        bad.append(("match", "%r is reported with the score %s and %s rules, %s" % (r[0], r[1], r[2], "it matches with %s" % ", ".join("%s and %d" % w[1:] for w in t[:3]) if t else "which is no match")))
                        return
                left = [w for w in left if not any(eq(w, o) for o in opt)]
                if left: bad.append(("match", "the match %r is not reported" % left[0][0]))
            if kind == "all":
                r = P(("P", "all"), 0); s = m.search(); m.run(f["Search::searchAndReclassAll"], r, s, m.phrases("phrases", a)); G = lambda x: m.F("MatchResult", x)
                recs = [(m.val(x, G("matched")), m.val(x, G("score")), m.val(x, G("nrules"))) for x in m.elems(r.a[0], 0)]; n = len(recs) + 1
                matches(recs, a)
            else:
                tk = m.tokenizer(fl); v = m.get(tk, a); lists = [m.read(v.a[0])] + m.lists(m.alternates(tk, v))
                r, cnt, e = m.entry(kind + "_addr", a, fl)
                if kind == "parse":
                    want = [(t[0], set(t[1]), set(t[2]), i) for i, l in enumerate(lists) for t in l]
                    if not want and r is NULL: return bad, 1, sorted(m.e.analysed), m.e.steps
                    if cnt is None or r.op != "p": raise Unknown("parse_addr")
                    att = C34.enum(p, "InClass::AttachType")
                    if cnt != len(want): bad.append(("parse", "%d records are reported for %d tokens" % (cnt, len(want)))); recs = []
                    else: recs = m.records(r, cnt, (32, names(p, "TOKENS", [("word", "s"), ("inclass", "s"), ("attached", "s"), ("pat", "i"), ("seq", "i")])))
                    n = len(want) + 1; last = None
                    pats = {}
                    for k, (x, w) in enumerate(zip(recs, want)):
                        if None in (x[0], x[1], x[2]): bad.append(("parse", "record %d, for the token %r, is not filled" % (k, w[0]))); break
                        x = x[:3] + tuple(y or 0 for y in x[3:])
                        if x[0] != w[0]: bad.append(("parse", "record %d holds %r, the token there is %r" % (k, x[0], w[0]))); break
                        if set(y for y in x[1].split(",") if y) != w[1]: bad.append(("parse", "token %r is reported with the classes %r, it has %s" % (x[0], x[1], ",".join(sorted(w[1]))))); break
                        if {y for y in x[2].split(",") if y} - {"DETACH"} != {att.get(y, str(y)) for y in w[2]} - {"DETACH"}: bad.append(("parse", "token %r is reported with the attachment %r" % (x[0], x[2]))); break
                        if last is not None and (x[3] < last[0] or x[3] == last[0] and x[4] != last[1] + 1): bad.append(("number", "record %d (%r) is numbered %d, %d after %d, %d" % ((k, x[0]) + x[3:] + last))); break
                        if pats.setdefault(x[3], w[3]) != w[3] or sum(1 for q in pats.values() if q == w[3]) > 1: bad.append(("number", "record %d (%r) of tokenization %d is numbered %d" % (k, x[0], w[3], x[3]))); break
                        last = x[3:]
                else:
                    if cnt is None or r.op != "p": bad.append(("match", "no record is reported")); recs = []
                    else: recs = m.records(r, cnt, (24, names(p, "MTOKEN", [("tokens", "s"), ("score", "f"), ("nrules", "f")])))
                    n = len(recs) + 1
                    if any(x[0] is None for x in recs): bad.append(("match", "a record is not filled"))
                    recs = [(x[0],) + tuple(y or 0.0 for y in x[1:]) for x in recs]
                    if not bad:
                        matches(recs, [tuple(" ".join(t[1]) for t in l) for l in lists])
                        for x, y in zip(recs, recs[1:]):
                            if y[1] > x[1] + 1e-9: bad.append(("order", "the score %s comes after %s" % (y[1], x[1])))
        except (Thrown, Unknown) as u:
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        return bad, n, sorted(m.e.analysed), m.e.steps
    fns = set(); k = 0
    where = {"parse": "parse_addr", "match": "match_addr", "all": "Search::searchAndReclassAll"}
    for j, r in zip(jobs, parallel(jobs, go, secs=60)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps = r; k += 1
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_records", n)
        if k % 15 == 1: rep.sample("%s of %s, filter %s, grammar %s: %d records" % (j[0], j[1], j[2], j[3], n))
        for key, what in bad[:2]: rep.viol(key, loc(f[where[j[0]]]), "%s; %s, grammar %s" % (what, "address %r" % j[1] if j[0] != "all" else " or ".join("[%s]" % " | ".join(x) for x in j[1]), " / ".join(GRAMMARS[j[3]].splitlines())))
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
