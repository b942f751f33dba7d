"""Tokens hold all of an address's text, in its order."""
from whole import *

L = lambda *ws: [b"LEXENTRY:\t" + w + b"\t" + w + b"1\t" + c + b"\t" + a for w, c, a in ws]
LEXICONS = {
 "usual": LEXICON,
 "empty": L((b"ZZZ", b"WORD", b"")),
 "overlap": L((b"ABA", b"WORD", b"ATT_PRE"), (b"BAB", b"TYPE", b"ATT_SUF"), (b"AB", b"WORD", b"ATT_PRE,DET_PRE"), (b"AB", b"TYPE", b"ATT_SUF"), (b"A", b"DIRECT", b"ATT_PRE"), (b"B", b"DIRECT", b"ATT_SUF")),
 "crossing": L((b"ABA", b"WORD", b"ATT_PRE"), (b"BAB", b"TYPE", b"ATT_SUF"), (b"NORD", b"DIRECT", b"ATT_PRE"), (b"DWEG", b"TYPE", b"ATT_SUF")),
 "phrases": L((b"NEW YORK", b"CITY", b""), (b"NEW", b"WORD", b""), (b"NEW YORK CITY", b"CITY", b""), (b"ST.", b"TYPE", b""), (b"1/2", b"FRACT", b""), (b"RUE DE", b"TYPE", b"ATT_PRE"), (b"O'NEIL", b"WORD", b"")),
 "numbers": L((b"1ST", b"ORD", b""), (b"500W", b"WORD", b""), (b"N", b"DIRECT", b"ATT_PRE"), (b"W", b"DIRECT", b"ATT_SUF")),
}
TEXTS = ["", "A", "1", "A1", "1A", "11 MAIN STREET", "11  MAIN   STREET", " 11 MAIN", "11 MAIN ", "11,MAIN,STREET", "11, MAIN. STREET;", "11-13 MAIN", "11 - 13 MAIN", "A-B-C", "1/2 MAIN", "12 1/2 MAIN", "1,5 A", "1.5.7 A", "500W MAIN", "N500 MAIN", "500WE N50S", "A1B2 C3", "ABAB", "ABBA", "ABAAB", "ABXBAB", "ABAXAB", "ABABAB AB", "AB", "AXB", "A B", "NEW YORK CITY", "NEW YORKS", "NEW  YORK", "RUE DE LYON", "RUEDELYON", "ST. PAUL ST", "O'NEIL'S PUB", "A & B", "A|B", "A (B) C", "#", "A #5", "A #5B-6", "1ST 2ND 500W", "X500W 500WX", "HAUPTSTRASSE 5", "ALTHAUPTSTRASSE", "ALTSTRASSE", "STRASSE", "ALT", "NORDWEG", "NORDDWEG", "NORDXDWEG", "ODWEG NORDA", "5/6/7", "1-", "A,,B", "A_B", "MAIN,", "11 MAIN STREET NEW YORK BROAD WAY", "11 BROAD WAY, NEW YORK; THE TEN ROW.", "AAAAAAAAAAAAAAAA 1234567890 B", "1A2B3C", "12 A 34 B 56"]

def run(p, rep):
    rep.rule = "addresses of every arrangement of words, numbers, mixed words, blanks and punctuation are propagated as constants through the tokenizer without a filter; the tokens' texts in order must be the address, blanks aside"
    rep.assumptions = ["regular expressions on the address follow Perl syntax, and a pattern too complex for the library does not occur", "models of engine/models.py and checks/text.py", "addresses and lexicons are those enumerated in the check; they begin with a letter, a digit or a blank"]
    fn = next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == "Tokenizer::getTokens" and g.blocks), None)
    texts = [t for t in TEXTS if not t or t[0].isalnum() or t[0] == " "]
    if rep.tier == "thorough": texts += ["".join(x).strip("-., ") for x in itertools.product(["11", "A", "ABAB", "NEW YORK", "500W"], [" ", "-", ", "], ["N5", "AB", "STREET", "1/2"], [" ", "."], ["", "ABAB", "9"])]
    jobs = [(l, t) for l in LEXICONS for t in texts] if fn else []
    rep.ob("addresses", len(jobs))
    def go(j):
        l, t = j; bad = []
        try:
            m = Entry(p, "plain", LEXICONS[l], 400000)
            tk = m.tokenizer(""); v = m.get(tk, t)
            got = [x[0] or "" for x in m.read(v.a[0])]
            if "".join("".join(got).split()) != "".join(t.split()): bad.append(("text", "the tokens of %r are [%s], entries %s" % (t, " | ".join(got), [x.split(b"\t")[1].decode() for x in LEXICONS[l]])))
        except (Thrown, Unknown, Giveup) as u:
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        return bad, 1, sorted(m.e.analysed), m.e.steps
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go, secs=40)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps = r; k += 1
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_addresses", n)
        if k % 25 == 1: rep.sample("lexicon %s, address %r" % j)
        for key, what in bad[:1]: rep.viol(key, loc(fn), what)
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
