"""Addresses whose words have known standard texts, through a rule that gives each word a chosen output class."""
from whole import *
WORDS = [("ALPHA", "AX"), ("CHARLIE", "C"), ("BRAVO", "BX BY"), ("DELTA", "DELTA"), ("ECHO", "EE")]
LEX = [b"LEXENTRY:\t%s\t%s\tTYPE\t" % (w.encode(), s.encode()) for w, s in WORDS]

def rules(classes):
    out = []
    for c in classes: out += [(c,), (c, c), ("STREET" if c != "STREET" else "CITY", c, c, c), (c, "IGNORE", c) if c != "IGNORE" else ("IGNORE", "HOUSE")]
    out += [("BOXT", "BOXH"), ("UNITT", "UNITH"), ("UNITH", "HOUSE", "UNITT"), ("BADTOKEN", "STOP", "EXTRA"), ("EXTRA", "HOUSE", "STOP"), ("SUFDIR", "SUFTYP", "PREDIR", "PRETYP"), ("POSTAL", "PROV", "NATION", "CITY"), ("CITY", "STREET", "CITY", "HOUSE", "CITY"), ("RR", "BOXH", "BOXT", "BLDNG", "QUALIF")]
    return out

def run(p, rep, route, components, where):
    f = next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "standardize_addr" and g.blocks), None)
    known = set(C34.enum(p, "OutClass::Type").values())
    jobs = [r for r in rules([c for c in route if c in known]) if set(r) <= known] if f else []
    for k, r in enumerate(jobs): GRAMMARS["deliver%d" % k] = "[ADDRESS]\n%s -> %s -> 0.01\n" % (" ".join(["TYPE"] * len(r)), " ".join(r))
    # which words carry the classes: one beginning per rule
    rep.ob("addresses", len(jobs))
    def go(k):
        r = jobs[k]; bad = []; ws = [WORDS[(k + i) % len(WORDS)] for i in range(len(r))]
        if len(r) == 1: ws = [WORDS[1]]
        try:
            m = Entry(p, "deliver%d" % k, LEX); m.e.limit = 300000
            v, cnt, e = m.entry("standardize_addr", " ".join(w for w, s in ws), "SPACE,PUNCT")
            if v is NULL: return [("none", "the address matches but no record is returned")], 1, sorted(m.e.analysed), m.e.steps
            names = components + ["pattern"]
            rec = m.records(v, 1, (0, [(C34.field(p, "STDADDR", n), "s") for n in names]))[0]
            for n, got in zip(names, rec):
                want = "%s -> %s" % (" ".join(["TYPE"] * len(r)), " ".join(r)) if n == "pattern" else " ".join(s for (w, s), c in zip(ws, r) if route[c] == n)
                if (got or "") != want: bad.append((n, "%s is %r, it must be %r" % (n, got, want)))
        except (Thrown, Unknown) as u:
            if os.environ.get("AS_DEBUG"): print(r, u)
            return None
        return bad, len(names), sorted(m.e.analysed), m.e.steps
    fns = set()
    for k, x in enumerate(parallel(range(len(jobs)), go, secs=60)):
        if x is None: rep.ob("undecided"); continue
        bad, n, an, steps = x; fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_fields", n)
        if k % 15 == 1: rep.sample("words of the classes %s" % " ".join(jobs[k]))
        for key, what in bad[:2]: rep.viol("whole:" + key, loc(f), "%s; words of the output classes %s" % (what, " ".join(jobs[k])))
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
