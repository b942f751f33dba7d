"""Filtered classes never reach the parser's output."""
from whole import *

def run(p, rep):
    rep.rule = "addresses are tokenized under every filter, propagated as constants; what is returned is what the empty filter returns without the tokens that have a filtered class, in the primary and in every alternate tokenization, and the entries use the caller's filter"
    rep.assumptions = ["regular expressions on the address follow Perl syntax", "models of engine/models.py and checks/text.py", "addresses and filters are those enumerated in checks/whole.py"]
    gt = next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "Tokenizer::getTokens" and g.blocks), None)
    al = next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "Tokenizer::getAltTokens" and g.blocks), None)
    pa = next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "parse_addr" and g.blocks), None)
    adr = [a for a in ADDRESSES if a.strip() and len(a) < 30 or rep.tier == "thorough"]
    jobs = [(a, f) for a in adr for f in FILTERS[1:]] if gt else []
    if rep.tier == "quick": jobs = [j for i, j in enumerate(jobs) if i % 3 != 2]
    rep.ob("tokenizations", len(jobs))
    def go(j):
        a, f = j; bad = []; fs = set(f.split(",")); n = 0
        keep = lambda l: [t for t in l if not fs & set(t[1])]
        words = lambda l: " | ".join("%s (%s)" % (t[0], "/".join(t[1])) for t in l)
        def cmp(kind, got, want):
            for t in got:
                if fs & set(t[1]): bad.append((kind, "the token %r of class %s is returned, the filter is %s" % (t[0], "/".join(t[1]), f))); return
            if got != want: bad.append((kind + "-kept", "the tokens are %s, without the filtered ones they are %s" % (words(got), words(want))))
        try:
            m = Entry(p); m.e.limit = 300000
            free, tk = m.tokenizer(""), m.tokenizer(f)
            v0 = m.get(free, a); v = m.get(tk, a); base, got = m.read(v0.a[0]), m.read(v.a[0])
            cmp("primary", got, keep(base)); n += max(1, len(base))
            if al:
                x0, x = m.lists(m.alternates(free, v)), m.lists(m.alternates(tk, v))
                want = [keep(l) for l in x0]; left = [w for w in want if w]
                for l in x:
                    n += 1
                    if l in left: left.remove(l)
                    elif l:
                        k = len(bad); cmp("alternate", l, next((w for w in want if w == l), l))
                        if len(bad) == k: bad.append(("alternate-kept", "the alternate %s is none of the alternates without the filtered tokens" % words(l)))
                if left: bad.append(("alternate-kept", "the alternate %s is missing" % words(left[0])))
            if pa and not bad:
                r, cnt, e = m.entry("parse_addr", a, f); o = lambda x: C34.field(p, "TOKENS", x)
                recs = m.records(r, cnt, (p.types["TOKENS"]["size"] if "size" in p.types["TOKENS"] else 32, [(o("word"), "s"), (o("inclass"), "s")])) if cnt else []
                n += len(recs)
                if any(None in x for x in recs): raise Unknown("record")
                for w, c in recs:
                    if fs & set(c.split(",")): bad.append(("entry", "parse_addr reports the token %r of class %s, the filter is %s" % (w, c, f)))
                every = [t for l in [got] + x for t in l] if al else got
                if not bad and [w for w, c in recs] != [t[0] for t in every]: bad.append(("entry-kept", "parse_addr reports %s, the tokens under the caller's filter %s are %s" % (" | ".join(w for w, c in recs), f, " | ".join(t[0] for t in every))))
        except (Thrown, Unknown) as u:
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        return bad, n, sorted(m.e.analysed), m.e.steps
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go, secs=60)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps = r; k += 1
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_tokens", n)
        if k % 20 == 1: rep.sample("%r under the filter %s: %d tokens and alternates" % (j[0], j[1], n))
        for key, what in bad[:2]: rep.viol(key, loc({"p": gt, "a": al, "e": pa}[key[0]]), "%s; address %r" % (what, j[0]))
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
