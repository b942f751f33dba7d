"""A token the lexicon does not know is classified by its shape, as docs/inclass.md describes the classes."""
from C26 import *
import string

def shapes(deep):
    D = {"1": "7", "2": "42", "3": "100", "4": "2016", "5": "90210", "6": "123456", "10": "1234567890"}
    out = []
    for d in D.values(): out.append((d, {"NUMBER"} | ({"QUAD"} if len(d) == 4 else {"QUINT"} if len(d) == 5 else set())))
    for c in string.ascii_uppercase + "qz" + "ÉÜ": out.append((c, {"WORD", "SINGLE"}))
    for w in ("AB", "ZZ", "NE", "IJ", "ÉA", "ÖÜ", "qz"): out.append((w, {"WORD", "DOUBLE"}))
    for w in ("ABC", "MAIN", "BROADWAY", "MÜNCHEN", "ÉTÉ", "ZZZZ", "ABCDE", "main"): out.append((w, {"WORD"}))
    for a, b, c in ("K1A", "M5V", "Z9Z", "A0B"): out += [(a + b + c, {"MIXED", "PCH"})]
    for w in ("0B1", "2H2", "9Z9", "1A0"): out.append((w, {"MIXED", "PCT"}))
    for w in ("W1", "B33", "SW1", "SW1A", "EC10", "B33A", "k1a", "sw1"): out.append((w, {"MIXED", "PCH"}))
    for w in ("1AA", "8TH", "2h2", "8th"): out.append((w, {"MIXED", "PCT"}))
    for w in ("100B", "B1234", "A1B2C3", "1ST2", "7UP7", "ABC1", "1234A", "É12345", "AB123", "12A", "1ABC", "AB1CD"): out.append((w, {"MIXED"}))
    for w in ("1/2", "13/16", "100/3"): out.append((w, {"FRACT"}))
    for w in ("1.5", "12,75", "10.25"): out.append((w, {"NUMBER"}))
    for w, c in (("/", "SLASH"), ("@", "ATSIGN"), ("-", "DASH"), ("&", "AMPERS"), (" ", "SPACE"), ("  ", "SPACE"), ("—", "EMDASH")): out.append((w, {c}))
    for c in ".,;:!?#%'\"()*[]{}\\|": out.append((c, {"PUNCT"}))
    out += [("..", {"PUNCT"}), ("),", {"PUNCT"}), (".,;", {"PUNCT"})]
    if deep:
        for a in string.ascii_uppercase:
            for b in string.ascii_uppercase: out.append((a + b, {"WORD", "DOUBLE"}))
        for n in range(0, 1200, 7): out.append((str(n), {"NUMBER"} | ({"QUAD"} if n > 999 else set())))
        for a in string.ascii_uppercase:
            for d in "0123456789": out += [(a + d + a, {"MIXED", "PCH"}), (d + a + d, {"MIXED", "PCT"})]
    return out

def run(p, rep):
    rep.rule = "tokens of every documented shape, unknown to the lexicon, are propagated as constants through the classification; the classes are exactly the documented ones"
    rep.assumptions = ["regular expressions on the token text follow Perl syntax with Unicode classes"]
    fs = tokfns(p); inn = C34.enum(p, "InClass::Type"); codes = {v: k for k, v in inn.items()}
    jobs = shapes(rep.tier == "thorough") if fs else []
    typs = [t for t in ("WORD", "PUNCT", "BADTOKEN", "STOP") if t in codes]
    def go(j):
        t, want = j; bad = []; n = 0
        F = lambda n: C34.field(p, "Token", n)
        try:
            m = Lexm(p, fs, [LINES["a"], LINES["v"]] if t not in ("ST", "N") else [])
            for typ in typs:
                o = token(m, fs, t, ()); m.run(fs["classify"], m.this, o, I(codes[typ], 32)); n += 1
                got = {inn[c] for c in val(m.e, m.st, o.a[0], F("inclass_"))}
                ok = got == want if None not in want else "MIXED" in got and not got & {"WORD", "NUMBER", "SINGLE", "DOUBLE", typ} - {"MIXED"}
                if not ok: bad.append(("classes", "the token %r gets the classes %s, its shape says %s" % (t, ",".join(sorted(got)) or "none", ",".join(sorted(x or "..." for x in want)))))
            for typ in typs:
                o = token(m, fs, "$", ()); m.run(fs["classify"], m.this, o, I(codes[typ], 32)); n += 1
                got = {inn[c] for c in val(m.e, m.st, o.a[0], F("inclass_"))}
                if got != {typ}: bad.append(("default", "a token of no known shape, to be %s, gets the classes %s" % (typ, ",".join(sorted(got)) or "none")))
        except Thrown as x: return None
        except Unknown as u:
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        return bad, n, sorted(m.e.analysed), m.e.steps
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps = r
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_shapes", n); k += 1
        if k % 10 == 1: rep.sample("token %r: %s" % (j[0], ",".join(sorted(x or "..." for x in j[1]))))
        for key, what in bad[:1]: rep.viol("%s:%s" % (key, "+".join(sorted(x or "other" for x in j[1])) if key == "classes" else "caller"), loc(fs["classify"]), what)
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
