"""A loaded grammar or lexicon holds exactly what its text defines.

Documents over the line kinds of the format are propagated as constants through the loaders; the members of the loaded object
are then compared with an independent reading of the same text."""
from docs import *
import C17
import itertools, re

RULES = {"R": b"NUMBER -> HOUSE -> 0.5", "P": b"NUMBER WORD TYPE -> HOUSE STREET SUFTYP -> 0.25", "O": b"\tWORD  WORD -> STREET \t STREET -> 0.75 ", "D": b"NUMBER -> HOUSE -> 0.5"}
METAS = {"M": b"@one", "N": b"@one @two", "X": b" @two  @ADDRESS\t@one ", "W": b"@two @two", "Y": b"@one@two", "U": b"@one_1 @one"}
SECS = {"A": b"[ADDRESS]", "S": b"[one]", "T": b"[two]", "L": b" [one_1] "}
OTHER = {"C": b"# comment", "B": b" "}
KINDS = dict(RULES, **METAS, **SECS, **OTHER)
HEAD = {"H": b"LEXICON:\ttest\tENGLISH\ten_US\t9", "G": b"LEXICON:\tother\tFRENCH\t\t"}
ENTRY = {"E": b"LEXENTRY:\tST\tSTREET\tTYPE\tDETACH", "F": b"LEXENTRY:\tAVE\tAVENUE\tTYPE, WORD\tATT_PRE, DET_SUF", "K": b"LEXENTRY:\tST\tSAINT\tWORD\t", "I": b"LEXENTRY:\tNEW  YORK   CITY\tNEW  YORK\tCITY\tATT_SUF,DET_PRE",
         "Q": b"LEXENTRY:\tST\tSTREET\tTYPE\tDET_PRE,ATT_SUF,ATT_PRE", "Z": b"LEXENTRY:\tST\tSTREET\tWORD\tDETACH,ATT_SUF", "V": b"LexEntry:\tAVE\tAVENUES\tTYPE\t", "B": b"", "J": b"any"}

def expect_grammar(w):
    m = []; r = []; cur = None; kind = None
    for k in w:
        if k in SECS: cur = (SECS[k].strip()[1:-1].decode(), []); kind = None; continue
        if k in OTHER: continue
        t = KINDS[k].decode()
        if not cur[1]: (m if k in METAS else r).append(cur)
        if k in METAS: cur[1].append(tuple(x.strip() for x in t.split("@")[1:]))
        else:
            i, o, s = t.split("->"); cur[1].append((tuple(i.split()), tuple(o.split()), float(s)))
    return m, r

def field(p, t, f):
    o = p.field(t, f)
    if o is None: raise Unknown("%s::%s" % (t, f))
    return o if isinstance(o, int) else o[0]

def grammar(p, e, st, inn, outn):
    this = ("P", "this"); F = lambda t, f: field(p, t, f)
    m = [(val(e, st, s, F("MetaSection", "name_")), [tuple(val(e, st, x, F("SectionPtr", "name_")) for x in elems(e, st, r, F("MetaRule", "refs_"))) for r in elems(e, st, s, F("MetaSection", "rules_"))])
         for s in elems(e, st, this, F("Grammar", "metas_"))]
    r = [(val(e, st, s, F("RuleSection", "name_")), [(tuple(inn.get(x, x) for x in val(e, st, x, F("Rule", "inClass_"))), tuple(outn.get(y, y) for y in val(e, st, x, F("Rule", "outClass_"))), val(e, st, x, F("Rule", "score_")))
         for x in elems(e, st, s, F("RuleSection", "rules_"))]) for s in elems(e, st, this, F("Grammar", "rules_"))]
    return m, r

def expect_lexicon(w):
    lang = loc = None; d = {}
    for k in w:
        if k in HEAD:
            f = HEAD[k].decode().split("\t"); lang, loc = {"ENGLISH": "ENG", "FRENCH": "FRE"}[f[2]], f[3]
        elif k in ENTRY and k not in "BJ":
            f = re.sub(" +", " ", ENTRY[k].decode()).split("\t")
            # DETACH, or nothing, is the absence of any attachment
            v = (f[1], f[2], tuple(sorted(x.strip() for x in f[3].split(","))), tuple(sorted({x.strip() for x in f[4].split(",")} - {"", "DETACH"})))
            l = d.setdefault(f[1], [])
            if v not in l: l.append(v)
    return lang, loc, d

def lexicon(p, e, st, tabs):
    this = ("P", "this"); F = lambda t, f: field(p, t, f)
    inn, lang, att = tabs
    lo = F("Lexicon", "lex_"); keys = e.facted(st, e.get_content(st, P(this, lo)))
    if keys.op != "seq" or not all(k.op == "s" for k in keys.a[0]): raise Unknown("lex_")
    d = {}
    for k in keys.a[0]:
        o = ("E", (this, lo), mk("found", k))
        d[k.n.decode("latin1")] = [(val(e, st, x, F("LexEntry", "word_")), val(e, st, x, F("LexEntry", "stdword_")), tuple(sorted(inn.get(c, c) for c in val(e, st, x, F("LexEntry", "type_")))),
            tuple(sorted(att.get(c, c) for c in val(e, st, x, F("LexEntry", "attached_"))))) for x in elems(e, st, o, 32)]
    l = val(e, st, this, F("Lexicon", "lang_"))
    return lang.get(l, l), val(e, st, this, F("Lexicon", "locale_")), d

def enum(p, name): return {v & 0xffffffff: k for k, v in p.enums[name].items()}

def words(deep):
    import random
    G = set(); L = set()
    for order in itertools.permutations("AST"):
        for cont in itertools.product(("M", "N", "R", "MX", "RPD", "CW", "BOR"), repeat=3):
            if "A" in order and not any(k in METAS for k in cont[order.index("A")]) and not deep: continue
            G.add("".join(s + c for s, c in zip(order, cont)))
    for w in ("AMSRTP", "ANMXSRTPL", "ASRTR"):
        for k in "MNXWYURPODCB":
            for i in range(len(w) + 1): G.add(w[:i] + k + w[i:])
    G |= {"ANSRTPLO", "ANLPSRTO", "CLANWSRTRLR".replace("CL", "C"), "ANSRPODRTRRRR", "ANNNMSRTR", "AXSRTM", "AYSRTR", "ARSR", "LRAMSR", "AUSRLP", "LPAMUSR", "AMSULP", "LPANSUTR", "AMSMULRP"}
    G = {w for w in G if ok(w)}
    n = 4 if deep else 3
    for h in "HG":
        for k in range(0, n + 1):
            for t in itertools.product("EFKIQZVB" if k < 3 else "EFKQZV", repeat=k): L.add(h + "".join(t))
    L |= {"J" + w for w in sorted(L)[:40]} | {"HEKEQEZEKIFVF", "HFVEKIB", "BHE", "JBHEE"}
    L = {w for w in L if not ("G" in w and "V" in w)}     # without a locale lines are not upper-cased, so the mixed-case marker is not read
    return sorted(G), sorted(L)

def ok(w):
    names = set(); cur = None; kinds = []
    for k in w:
        if k in SECS:
            if SECS[k] in names or cur is not None and not kinds: return False
            names.add(SECS[k]); cur = k; kinds = []
        elif k in OTHER: continue
        else:
            if cur is None or kinds and (kinds[0] in METAS) != (k in METAS): return False
            kinds.append(k)
    if not kinds or SECS["A"] not in names: return False
    for k in w:
        if k in METAS and any(b"[" + r.strip() + b"]" not in {n.strip() for n in names} for r in METAS[k].split(b"@")[1:]): return False
    return True

def run(p, rep):
    rep.rule = "constant propagation of documents over the format's line kinds through the loaders; the loaded members must be those an independent reading of the text gives, in order and once each"
    rep.assumptions = ["boost::u32regex follows Perl syntax on printable ASCII", "Unicode normalisation leaves printable ASCII text as it is", "stream, string, vector, map models of engine/models.py and checks/text.py"]
    G, L = words(rep.tier == "thorough")
    fg, fl = ctor(p, "Grammar"), ctor(p, "Lexicon")
    inn, outn = enum(p, "InClass::Type"), enum(p, "OutClass::Type")
    tabs = (inn, enum(p, "InClass::Lang"), enum(p, "InClass::AttachType"))
    jobs = [("grammar", fg, w) for w in G if fg] + [("lexicon", fl, w) for w in L if fl]
    rep.ob("documents", len(jobs))
    def go(j):
        what, f, w = j
        kinds = KINDS if what == "grammar" else dict(HEAD, **ENTRY)
        text = b"\n".join(kinds[k] for k in w) + (b"\n" if len(w) % 3 else b"")
        e, xs = load(p, f, text)
        bad = None; n = 0
        for x in xs:
            if x.kind != "ret": continue
            n += 1
            try: got = grammar(p, e, x.st, inn, outn) if what == "grammar" else lexicon(p, e, x.st, tabs)
            except Unknown as u:
                if os.environ.get("AS_DEBUG"): print(w, u)
                return None
            want = expect_grammar(w) if what == "grammar" else expect_lexicon(w)
            if got != want: bad = (got, want)
            elif bad: return None
        if verdict(xs) == "rejected":
            why = {str(x.val.a[1].n.decode("latin1")) if x.val is not None and x.val.op == "E" and x.val.a[1] is not None and x.val.a[1].op == "s" else "an error" for x in xs}
            bad = ("rejected with " + min(why), "well-formed"); n = 1
        return bad, n, sorted(e.analysed), e.steps, text
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps, text = r; what, f, w = j
        fns.update(an); rep.ob("abstract_steps", steps)
        if not n:
            rep.ob("not_accepted")
            if os.environ.get("AS_DEBUG"): print("rejected", what, w)
            continue
        rep.ob("obligation_" + what); k += 1
        if k % 200 == 1: rep.sample("%s %s: all members as in the text" % (what, w))
        if bad: rep.viol("%s:%s" % (what, part(what, *bad)), loc(f), "%s of %s is loaded as %s, the text says %s; lines: %s" % (part(what, *bad), what, *map(lambda v: str(v)[:300], diff(*bad)), text.decode().replace("\n", " | ")))
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}

def diff(a, b):
    if isinstance(a, str): return a, b
    for x, y in zip(a, b):
        if x != y: return x, y
    return a, b
def part(what, a, b):
    if isinstance(a, str): return "content"
    names = ("reference sections", "rule sections") if what == "grammar" else ("language", "locale", "entries")
    return next((n for n, x, y in zip(names, a, b) if x != y), "content")
