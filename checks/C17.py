"""A grammar or lexicon that breaks the documented format is rejected as a whole.

Documents are words over the line kinds of the format; each word's text is propagated as a constant through the loader
(constructor, section and rule objects, reference check) and the way the constructor ends is compared with the format."""
from docs import *
import itertools

HEAD = b"LEXICON:\ttest\tenglish\t\t9"
LEX = {"H": HEAD, "E": b"LEXENTRY:\tST\tSTREET\tTYPE\tDETACH", "F": b"LEXENTRY:\tAVE\tAVENUE\tTYPE,WORD\tDETACH", "U": b"ENTRY:\tX\tX\tWORD\t",
       "K": b"LEXENTRY:\tX\tX\tNOCLASS\t", "L": b"LEXENTRY:\tX\tX\tWORD,NOCLASS\t", "J": b"# words", "B": b""}
GRM = {"C": b"# comment", "B": b" ", "A": b"[ADDRESS]", "S": b"[one]", "T": b"[two]", "L": b"[lone]", "M": b"@one", "N": b"@one @two", "X": b"@one two", "Y": b"@one @ two",
       "R": b"NUMBER -> HOUSE -> 0.5", "V": b"NUMBER TYPE -> HOUSE -> 0.5", "Z": b"NUMBER -> HOUSE -> 0", "W": b"NUMBER -> HOUSE -> -0.5", "Q": b"NUMBER -> HOUSE"}
NAME = {"A": "ADDRESS", "S": "one", "T": "two", "L": "lone"}
REFS = {"M": ["one"], "N": ["one", "two"]}

def lexicon_defect(w):
    """what is wrong with a lexicon of these lines; None: nothing"""
    head = False
    for k in w:
        if not head:
            if k == "H": head = True
            elif k in "EFKL": return "entry before the header"
        elif k == "U" or k in "JH": return "unknown line"
        elif k in "KL": return "unknown class"
    return None if head else "no header"

def grammar_defect(w):
    """(what is wrong, or None; the document is covered by the statement)"""
    secs = []; cur = None
    for k in w:
        if k in "CB": continue
        if k in NAME:
            if any(n == NAME[k] for n, _ in secs): return "duplicate section", all(l for _, l in secs)
            secs.append((NAME[k], [])); continue
        if not secs: return "rules before the first section", True
        ls = secs[-1][1]; meta = k in "MNXY"
        if ls and (ls[0] in "MNXY") != meta: return "mixed rule kinds", True
        if k in "XY": return "malformed reference line", True
        if k in "VZWQ": return "invalid rule", True
        ls.append(k)
    if not all(l for _, l in secs): return None, False     # a section without lines: not part of the statement
    names = {n for n, _ in secs}
    if "ADDRESS" not in names: return "no ADDRESS section", True
    for n, ls in secs:
        for k in ls:
            if any(r not in names for r in REFS.get(k, ())): return "reference to a missing section", True
    return None, True

def text(kinds, w, end): return b"\n".join(kinds[k] for k in w) + (b"\n" if end else b"")

def words(tier):
    deep = tier == "thorough"
    L = set(); G = set()
    for n in range(0, 5 if deep else 4):
        L.update(itertools.product("HEFUKJB", repeat=n))
        G.update(itertools.product("CASTMNXRV" if n > 2 else "CBASTMNXYRVZWQ", repeat=n))
    good = ["ANSRTR", "AMSR", "ASRTR".replace("AS", "AMS"), "TRANSR", "ANSMRTR".replace("MR", "R"), "AMMSRR", "SRTRAN", "AMSNTR", "AR", "AMSRTR", "CABNSCRTBR", "ANSRTRLM", "ANSRTMLR", "LNANSRTR"]
    for w in good:
        G.add(tuple(w))
        for i in range(len(w) + 1):
            for k in GRM:
                G.add(tuple(w[:i] + k + w[i:]))
            if i < len(w):
                G.add(tuple(w[:i] + w[i + 1:]))
                for k in GRM: G.add(tuple(w[:i] + k + w[i + 1:]))
    # sections in every order, each with every kind of content, present or absent
    for order in itertools.permutations("AST"):
        for cont in itertools.product(("", "M", "N", "R", "MN", "RR"), repeat=3):
            w = "".join(s + c for s, c in zip(order, cont) if c)
            if w: G.add(tuple(w))
    for w in ("HEF", "JHEBF", "HFE", "HEFL", "BHE"):
        L.add(tuple(w))
        for i in range(len(w) + 1):
            for k in LEX: L.add(tuple(w[:i] + k + w[i:]))
    return sorted(L), sorted(G)

def run(p, rep):
    rep.rule = "constant propagation of documents over the format's line kinds through the loaders; every way the constructor can end must agree with the format"
    rep.assumptions = ["boost::u32regex follows Perl syntax on printable ASCII", "Unicode normalisation leaves printable ASCII text as it is", "stream, string, vector, map models of engine/models.py and checks/text.py"]
    L, G = words(rep.tier)
    fg, fl = ctor(p, "Grammar"), ctor(p, "Lexicon")
    jobs = []
    if fl:
        for w in L:
            for end in (0, 1) if len(w) < 3 else (1,): jobs.append(("lexicon", fl, w, end, lexicon_defect(w)))
    if fg:
        for w in G:
            d, cov = grammar_defect(w)
            if cov: jobs.append(("grammar", fg, w, len(w) % 3 != 0, d))
    rep.ob("documents", len(jobs))
    def go(j):
        what, f, w, end, d = j
        e, xs = load(p, f, text(LEX if what == "lexicon" else GRM, w, end))
        v = verdict(xs)
        wh = [loc(*x.where) for x in xs if x.where and x.where[0]]
        ex = sorted({str(x.val.a[1].n.decode("latin1") if x.val is not None and x.val.op == "E" and x.val.a[1] is not None and x.val.a[1].op == "s" else "") for x in xs})
        return v, (wh or [loc(f)])[0], ex[:1], e.steps, sorted(e.analysed)
    out = parallel(jobs, go)
    fns = set(); seen = {}
    for j, r in zip(jobs, out):
        what, f, w, end, d = j
        if r is None or r[0] is None: rep.ob("undecided"); continue
        v, wh, ex, steps, an = r
        fns.update(an); rep.ob("abstract_steps", steps)
        rep.ob("obligation_" + what)
        seen[d] = seen.get(d, 0) + 1
        if seen[d] <= 2: rep.sample("%s %s: %s -> %s %s" % (what, "".join(w), d or "well-formed", v, ex))
        if (d is not None) != (v == "rejected"):
            kinds = LEX if what == "lexicon" else GRM
            rep.viol("%s:%s:%s" % (what, d or "well-formed", v), wh, "a %s %s is %s; lines: %s" % (what, "with a defect (%s)" % d if d else "without a defect", v, " | ".join(kinds[k].decode() for k in w)))
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
