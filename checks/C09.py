"""No character of a lexicon word acts as an operator in the pattern built for it.

Sets of words around every printable character are propagated as constants through the trie that builds the patterns; the
language of the pattern text is then enumerated and must be exactly the set of words."""
import re
from lexops import *
PLAIN = [chr(c) for c in range(32, 127)]
WIDE = ["É", "ß", "—", "名", "\U0001F3E0"]

def sets(deep):
    out = []
    for c in PLAIN + WIDE:
        d = "Z" if c != "Z" else "Y"
        out += [(c,), ("A" + c,), (c + "A", c + "B"), tuple(sorted({c, d})), ("A", "A" + c) if c != "A" else ("A", "AA"), ("Q" + c + "R", "Q" + c + "RS", "T"), tuple(sorted({"A" + c, "A" + d, "AB" + c})), (c + c, c), ("S." + c + "-X",)]
        out += [tuple(sorted({"A", c, "C"})), tuple(sorted({"+", c, "9"})), tuple(sorted({"(", c, "^"}))]
    if deep:
        for c in PLAIN:
            for d in PLAIN:
                if c < d: out += [(c, d), (c + d,), ("M" + c, "M" + d + "X", d)]
    return list(dict.fromkeys(out))

def run(p, rep):
    rep.rule = "constant propagation of word sets around every printable ASCII character (and characters of two, three and four bytes) through addWord and getRegexp; the language of the pattern is exactly the set"
    rep.assumptions = ["patterns are read as Boost's Perl syntax: a backslash before a letter, digit, <, >, ` or ' is an operator, before anything else it quotes"]
    tr = []
    for cls in ("TrieUtf8", "Trie"):
        c = pick(p, cls + "::" + cls, lambda f: len(f.args) == 2); a = pick(p, cls + "::addWord", lambda f: True); g = pick(p, cls + "::getRegexp", lambda f: True)
        if c and a and g: tr.append((cls, c, a, g))
    S0 = sets(rep.tier == "thorough")
    jobs = [(t[0], w) for t in tr for w in S0]
    rep.ob("word_sets", len(jobs))
    fs = {t[0]: t[1:] for t in tr}
    def go(j):
        cls, ws = j; c, a, g = fs[cls]; enc = "utf8" if cls == "TrieUtf8" else "latin1"
        m = Machine(p); this = P(("P", "this"), 0)
        bs = [w.encode("utf8") for w in ws]
        try:
            m.run(c, this, I(0, 1))
            for b in bs: m.run(a, this, m.s("word", b))
            pat = m.text(g, this).decode(enc)
        except Thrown as t: return ("throws", str(t)), sorted(m.e.analysed), m.e.steps, ""
        except Unknown as u:
            # text taken from behind the end of a string constant: known to be no character of the word
            for name, off in re.findall(r"cstr\(\(G,([^()]*)\),(\d+)\)", str(u)):
                b = p.globals.get(name, {}).get("init", [None])
                if b[0] == "bytes" and int(off) >= len(b[1]): return ("outside", "text is read at offset %s of a string constant of %d bytes" % (off, len(b[1]))), sorted(m.e.analysed), m.e.steps, "(of unknown text)"
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        except UnicodeDecodeError: return ("garbled", "the pattern is not valid UTF-8"), sorted(m.e.analysed), m.e.steps, ""
        want = {b.decode(enc) for b in bs}
        bad = None
        try: lang = language(pat)
        except Infinite as i: bad = ("operator", "%r acts as an operator" % str(i))
        else:
            got = {x for x, g in lang}
            if any(g for x, g in lang): bad = ("operator", "%r acts as an assertion" % next(g[0][1] for x, g in lang if g))
            elif got != want: bad = ("other", "it matches %s" % ", ".join(repr(x) for x in sorted(got)[:8]))
        return bad, sorted(m.e.analysed), m.e.steps, pat
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go)):
        if r is None: rep.ob("undecided"); continue
        bad, an, steps, pat = r; cls, ws = j
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_pattern_" + cls); k += 1
        if k % 100 == 1: rep.sample("%s of %s: %s" % (cls, ", ".join(map(repr, ws)), pat))
        if bad: rep.viol("%s:%s" % (cls, bad[0]), loc(fs[cls][2]), "the pattern %r for the words %s does not match exactly these words: %s" % (pat, ", ".join(map(repr, ws)), bad[1]))
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
