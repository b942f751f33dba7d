"""Text written for an entry, token or rule can be read back to the same value."""
from whole import *

WORDS = ["ST", "NEW YORK", "A-B", "1/2", "O'NEIL", "X,Y", "LEXENTRY", "TOKEN", "->", "12"]
def values(deep, inn, outn, att):
    """members of entries, tokens and rules"""
    I_, O_, A_ = [c for c in sorted(inn) if inn[c] != "BADTOKEN"], sorted(outn), sorted(att)
    sets = [()] + [(c,) for c in I_] + [tuple(I_[k:k + 2]) for k in range(0, len(I_) - 1)] + [tuple(I_[k::9]) for k in range(9)]
    ats = [()] + [s for n in range(1, 5) for s in itertools.combinations([a for a in A_ if att[a] not in ("DETACH",) and "BAD" not in att[a] and "NONE" not in att[a]], n)]
    out = [("LexEntry", (w, s, (I_[1], I_[3]), a)) for w in WORDS for s in ("STREET", w) for a in ats[:3]] + [("LexEntry", ("ST", "STREET", t, ())) for t in sets if t] + [("LexEntry", ("ST", "STREET", (I_[2],), a)) for a in ats]
    out += [("LexEntry", ("ST", "", (I_[2],), a)) for a in ats[:4]]
    tok = lambda w, s, i, o, a, k: out.append(("Token", (w, s, i, o, a, k)))
    for w in WORDS:
        for k in (0, 1): tok(w, "STREET", (I_[1],), O_[2], (), k); tok(w, "", (I_[1], I_[4]), O_[3], ats[2], k)
    for t in sets: tok("ST", "STREET", t, O_[4], ats[len(t) % len(ats)], 1)
    for o in O_: tok("ST", "STREET", (I_[2],), o, (), 0)
    for a in ats: tok("ST", "SAINT", (I_[2], I_[5]), O_[1], a, 1)
    for n in (1, 2, 3, 5):
        for k in range(0, len(I_), 1 if n == 1 or deep else 4):
            out.append(("Rule", (tuple(I_[(k + 3 * j) % len(I_)] for j in range(n)), tuple(O_[1:][(k + 2 * j) % (len(O_) - 1)] for j in range(n)), (0.5, 0.25, 1.0, 0.0625, 0.375, 2.0)[k % 6])))
    for o in O_[1:]: out.append(("Rule", ((I_[1],), (o,), 0.5)))
    return out

PARTS = {"LexEntry": [("word_", "s"), ("stdword_", "s"), ("type_", "c"), ("attached_", "c")], "Token": [("text_", "s"), ("stdtext_", "s"), ("inclass_", "c"), ("outclass_", "i"), ("attached_", "c"), ("inlex_", "b")], "Rule": [("inClass_", "c"), ("outClass_", "c"), ("score_", "f")]}
SAY = {"word_": "word", "stdword_": "standard word", "type_": "classes", "attached_": "attachment", "text_": "text", "stdtext_": "standard text", "inclass_": "classes", "outclass_": "output class", "inlex_": "known mark", "inClass_": "input classes", "outClass_": "output classes", "score_": "score"}

def run(p, rep):
    rep.rule = "values with every class, output class, attachment and kind of word are propagated as constants through the writer, and the text through the reader; every part must come back"
    rep.assumptions = ["numbers are written with the six digits of a default stream", "stream and string models of checks/text.py", "words hold no tab; the words of rules are class names"]
    inn, outn, att = C34.enum(p, "InClass::Type"), C34.enum(p, "OutClass::Type"), C34.enum(p, "InClass::AttachType")
    fs = {}
    for t in PARTS:
        fs[t] = (next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q.split("::")[-1] == "operator@SHL" and g.blocks and len(g.args) == 2 and t + " const" in g.dem.split("(", 1)[1].split(",")[-1].replace("const " + t, t + " const") and "vector" not in g.dem), None),
                 pick(p, t + "::" + t, lambda g: len(g.args) == 2 and "string" in di(g, 1)))
    vs = [v for v in values(rep.tier == "thorough", inn, outn, att) if all(fs[v[0]])]
    jobs = [vs[k:k + 12] for k in range(0, len(vs), 12)]
    rep.ob("values", len(vs))
    def go(j):
        bad = []; n = und = 0; an = set(); steps = 0
        for t, v in j:
            try:
                m = Machine(p, 60000); o = P(("P", "value"), 0); F = lambda f: C34.field(p, t, f)
                for (f, k), x in zip(PARTS[t], v):
                    if k == "s": m.e.set_content(m.st, P(o.a[0], F(f)), S(x.encode()))
                    elif k == "c": m.e.set_content(m.st, P(o.a[0], F(f)), mk("seq", tuple(I(y, 32) for y in (x if t == "Rule" else sorted(x)))))
                    else: m.st.mem[(o.a[0], F(f))] = mk("f", x) if k == "f" else I(x, 8 if k == "b" else 32)
                w = P(("P", "stream"), 0); setstream(m.st, w.a[0], S(b""))
                m.run(fs[t][0], w, o)
                text = m.e.facted(m.st, content(m.st, w.a[0]))
                if text.op != "s": raise Unknown(str(text)[:200])
                r = P(("P", "again"), 0)
                try: m.run(fs[t][1], r, m.s("line", text.n))
                except Thrown as x: bad.append((t, "%r, written for a %s, is rejected by the reader" % (text.n.decode(), t))); continue
                got = {}
                for f, k in PARTS[t]: got[f] = val(m.e, m.st, r.a[0], F(f))
                for (f, k), x in zip(PARTS[t], v):
                    n += 1; g = got[f]; x = tuple(sorted(x)) if k == "c" and t != "Rule" else x; g = tuple(sorted(g)) if isinstance(g, tuple) and t != "Rule" else g
                    if k == "s" and g is None: g = ""
                    if k == "c" and g in ("", None): g = ()
                    if k == "b": g, x = bool(g), bool(x)
                    if t == "LexEntry" and f == "attached_" and att: g = tuple(y for y in g if att.get(y) != "DETACH")
                    if not (near(g, x) if k == "f" else g == x): bad.append((t + "." + f, "the %s of a %s is %r, after writing %r and reading it is %r" % (SAY[f], t, x, text.n.decode(), g)))
            except (Thrown, Unknown, Giveup) as u:
                if os.environ.get("AS_DEBUG"): print(t, v, u)
                und += 1; continue
            an |= set(m.e.analysed); steps += m.e.steps
        return bad, n, und, sorted(an), steps
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go, secs=120)):
        if r is None: rep.ob("undecided", len(j)); continue
        bad, n, und, an, steps = r; k += 1
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_parts", n)
        if und: rep.ob("undecided", und)
        if k % 5 == 1: rep.sample("%s %s" % j[0])
        for key, what in bad[:3]: rep.viol(key, loc(fs[key.split(".")[0]][0]), what)
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
