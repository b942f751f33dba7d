"""The lexicon holds each entry once, in order of insertion; removal removes only the equal entry; looking up changes nothing."""
from C08 import *

PROBE = ["ST", "AVE", "STRASSE", "SAN", "S", "STREET", ""]
WORDS = ["", "CENTRE", "CENTER", "BOULEVARD", "BOULEVARDS", "ROUTE DE", "ROUTE DU", "A", "B", "AB", "a", "ST", "STR", "STRASSE", "ST.", "S T", "AVE", "É", "E", "ZZ", "ST ", "STS", "10", "1", "9"]

def contents(m, tabs):
    return C34.lexicon(m.p, m.e, m.st, tabs)[2]

def entries(m, obj, tabs):
    inn, lang, att = tabs; F = lambda f: C34.field(m.p, "LexEntry", f)
    return [(val(m.e, m.st, x, F("word_")), val(m.e, m.st, x, F("stdword_")), tuple(sorted(inn.get(c, c) for c in val(m.e, m.st, x, F("type_")))), tuple(sorted(att.get(c, c) for c in val(m.e, m.st, x, F("attached_")))))
            for x in elems(m.e, m.st, obj, 0)]

def jobs_of(deep):
    ops = ["+" + k for k in "abcghi"] + ["-" + k for k in "abcghi"]
    out = []
    for init in ((), ("a", "b", "c", "g"), ("h", "a"), ("g", "b", "a", "i"), ("a",)):
        for n in (1, 2, 3) if deep else (1, 2):
            for w in itertools.product(ops, repeat=n): out.append((init, w))
    if not deep:
        for w in itertools.product(["+a", "+b", "-a", "-b", "+g", "-g"], repeat=3): out.append(((), w)); out.append((("a", "b", "g"), w))
    return out

def run(p, rep):
    rep.rule = "histories of loading, inserting, removing and looking up are propagated as constants; after every step the stored entries and the result of find for present and absent words are exactly the model's; the key order separates distinct words and no others"
    rep.assumptions = ["std::map holds one value per key of its order", "stream, string, vector, map models of engine/models.py and checks/text.py"]
    fs = functions(p); tabs = (C34.enum(p, "InClass::Type"), C34.enum(p, "InClass::Lang"), C34.enum(p, "InClass::AttachType"))
    jobs = jobs_of(rep.tier == "thorough") if fs else []
    rep.ob("histories", len(jobs))
    def go(j):
        init, ws = j
        mod = Model(); done = 0; trace = "load(%s)" % ",".join(init)
        for k in init: mod.insert(parts(LINES[k]))
        try:
            m = Lexm(p, fs, [LINES[k] for k in init])
            for step in ("",) + ws:
                if step:
                    trace += ", %s(%s)" % ({"+": "insert", "-": "remove"}[step[0]], step[1])
                    m.run(fs["insert" if step[0] == "+" else "remove"], m.this, m.entry(step[1], LINES[step[1]]))
                    (mod.insert if step[0] == "+" else mod.remove)(parts(LINES[step[1]]))
                    got = contents(m, tabs); done += 1
                    if got != mod.d: return ("insert" if step[0] == "+" else "remove", "%s leaves %s, expected %s" % (trace, *map(str, C34.diff(got, mod.d)))), done, sorted(m.e.analysed), m.e.steps
                for w in PROBE:
                    r = P(("P", ("found", m.k)), 0)
                    m.run(fs["find"], m.this, m.s("key", w.encode()), sret=r); done += 1
                    got = entries(m, r.a[0], tabs)
                    if got != mod.d.get(w, []): return ("find", "after %s, find(%r) gives %s, expected %s" % (trace, w, got, mod.d.get(w, []))), done, sorted(m.e.analysed), m.e.steps
                if contents(m, tabs) != mod.d: return ("find", "after %s, looking up changed the lexicon" % trace), done, sorted(m.e.analysed), m.e.steps
        except Thrown as t: return ("throws", "after %s: %s" % (trace, t)), done, [], 0
        except Unknown as u:
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        return None, done, sorted(m.e.analysed), m.e.steps
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps = r
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_states", n); k += 1
        if k % 100 == 1: rep.sample("load(%s) %s: %d states and lookups" % (",".join(j[0]), " ".join(j[1]), n))
        if bad: rep.viol(bad[0], loc(fs.get(bad[0], fs["find"])), "%s; entries: %s" % (bad[1], " | ".join("%s=%s" % (k, LINES[k].decode()[10:]) for k in sorted({*j[0], *(w[1] for w in j[1])}))))
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
    order(p, rep)

def order(p, rep):
    f = pick(p, "Lexicon::lexcomp::operator@CALL", lambda f: True)
    if f is None: rep.ob("undecided"); return
    def less(a, b):
        m = Machine(p)
        try: v = m.run(f, P(("P", "cmp"), 0), m.s("l", a.encode()), m.s("r", b.encode()))
        except (Unknown, Thrown): return None
        return v.n if v is not None and v.op == "i" else None
    for a in WORDS:
        for b in WORDS:
            x, y = less(a, b), less(b, a)
            if x is None or y is None: rep.ob("undecided"); continue
            rep.ob("obligation_order")
            if a == b and x: rep.viol("order", loc(f), "%r is ordered before itself" % a)
            if a != b and bool(x) == bool(y): rep.viol("order", loc(f), "the words %r and %r are %s" % (a, b, "each ordered before the other" if x else "the same key"))
    rep.functions.add(f.dem)
