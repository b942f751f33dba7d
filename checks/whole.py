"""Search over known grammars and phrases of tokens with known classes and unknown texts."""
from C08 import *
import itertools, re, sys
sys.setrecursionlimit(100000)

class TooDeep(Exception): pass
class Wide(Lex):
    """follows recursion as deep as the phrase allows and no deeper"""
    max_depth = 2000
    depth = None; seen = 0; open = 0
    def branch(self, eng, st, c, ins, fn):
        if c.op != "i":
            self.open += 1
            if os.environ.get("AS_DEBUG"): print("UNDEC", fn.q, ins.get("l"), str(c)[:300])
            if self.open > 40: raise Giveup("undecided branches")
        return Lex.branch(self, eng, st, c, ins, fn)
    def call(self, eng, st, info):
        if self.depth and info.q.startswith("Search::"):
            n = sum(1 for c in info.ctx if isinstance(c, str) and "6Search" in c)
            self.seen = max(self.seen, n)
            if n > self.depth: raise TooDeep(info.q)
        return Lex.call(self, eng, st, info)

# -- independent model of grammars
def parse(text):
    """{section: ("meta", [[refs]]) or ("rule", [(in, out, score)])}"""
    g = {}; cur = None
    for l in text.splitlines():
        l = l.strip()
        if l.startswith("["): cur = l[1:-1]; g[cur] = None
        elif l.startswith("@"):
            g[cur] = g[cur] or ("meta", []); g[cur][1].append([x.strip() for x in l.split("@")[1:]])
        elif l:
            i, o, s = l.split("->"); g[cur] = g[cur] or ("rule", []); g[cur][1].append((tuple(i.split()), tuple(o.split()), float(s)))
    return g

def derivations(g, word, limit, start="ADDRESS"):
    """rule lists whose input classes together are the word, with at most limit sections of references expanded on the way"""
    out = []
    def go(stack, rest, rules, used):
        if not stack:
            if not rest: out.append((tuple(rules), used))
            return
        kind, body = g[stack[0]]
        if kind == "meta":
            if used >= limit: return
            for refs in body: go(list(refs) + stack[1:], rest, rules, used + 1)
        else:
            for r in body:
                if rest[:len(r[0])] == r[0]: go(stack[1:], rest[len(r[0]):], rules + [r], used)
    go([start], tuple(word), [], 0)
    return out

GRAMMARS = {
 "plain": "[ADDRESS]\n@main\n@main @city\n[main]\nNUMBER WORD TYPE -> HOUSE STREET SUFTYP -> 0.5\nNUMBER WORD -> HOUSE STREET -> 0.375\nNUMBER DIRECT WORD TYPE -> HOUSE PREDIR STREET SUFTYP -> 0.75\n[city]\nCITY -> CITY -> 0.875\nWORD -> CITY -> 0.25\nWORD TYPE -> CITY CITY -> 0.125\n",
 "rules": "[ADDRESS]\nNUMBER WORD -> HOUSE STREET -> 0.5\nNUMBER CITY -> HOUSE CITY -> 0.75\nNUMBER -> HOUSE -> 0.25\nWORD NUMBER -> STREET HOUSE -> 0.625\n",
 "deep": "[ADDRESS]\n@a @b\n@b @a\n[a]\n@n\n@n @w\n[b]\n@w\n[n]\nNUMBER -> HOUSE -> 0.5\nNUMBER NUMBER -> HOUSE UNITH -> 0.25\n[w]\nWORD -> STREET -> 0.75\nTYPE -> SUFTYP -> 0.25\nWORD TYPE -> STREET SUFTYP -> 0.875\n",
 "right": "[ADDRESS]\n@w @ADDRESS\n@w\n@n @ADDRESS\n[w]\nWORD -> STREET -> 0.75\nTYPE -> SUFTYP -> 0.25\n[n]\nNUMBER -> HOUSE -> 0.5\n",
 "left": "[ADDRESS]\n@list\n[list]\n@list @w\n@w\n[w]\nWORD -> STREET -> 0.75\nNUMBER -> HOUSE -> 0.5\n",
 "loop": "[ADDRESS]\n@a\n[a]\n@b\n[b]\n@a\n",
 "order": "[ADDRESS]\n@a @b\n[a]\n@n @t\n[b]\n@w @n\n[n]\nNUMBER -> HOUSE -> 0.5\n[t]\nTYPE -> SUFTYP -> 0.25\n[w]\nWORD -> STREET -> 0.75\nCITY -> CITY -> 0.5\n",
 "close": "[ADDRESS]\n@a\n@b\n@c\n@d\n[a]\nNUMBER WORD -> HOUSE STREET -> 0.5\nNUMBER WORD TYPE -> HOUSE STREET SUFTYP -> 0.3125\n[b]\nNUMBER WORD -> UNITH STREET -> 0.53125\nNUMBER WORD TYPE -> UNITH STREET SUFTYP -> 0.34375\n[c]\nNUMBER WORD -> BOXH STREET -> 0.515625\nNUMBER WORD TYPE -> BOXH STREET SUFTYP -> 0.328125\n[d]\nNUMBER WORD -> HOUSE CITY -> 0.5625\nNUMBER CITY -> HOUSE CITY -> 0.501953125\n",
 "best": "[ADDRESS]\n@one\n@two @two\n@one @two\n@two @one\n[one]\nNUMBER WORD -> HOUSE STREET -> 0.25\nWORD WORD -> STREET CITY -> 1\nNUMBER -> BOXH -> 0.0625\nWORD -> PROV -> 0.5\n[two]\nNUMBER -> UNITH -> 0.5\nWORD -> CITY -> 0.125\nNUMBER WORD -> BOXH BOXT -> 0.375\n",
}
PHRASES = [("NUMBER",), ("WORD",), ("CITY",), ("NUMBER", "WORD"), ("WORD", "NUMBER"), ("NUMBER", "CITY"), ("NUMBER WORD",), ("NUMBER WORD", "WORD"), ("NUMBER", "WORD TYPE"), ("NUMBER WORD", "NUMBER WORD"), ("NUMBER", "WORD", "TYPE"), ("WORD", "WORD"), ("WORD", "WORD", "WORD"),
           ("NUMBER", "WORD CITY", "TYPE WORD"), ("NUMBER", "WORD", "TYPE", "CITY"), ("NUMBER", "DIRECT WORD", "WORD", "TYPE"), ("NUMBER", "DIRECT", "WORD CITY", "TYPE", "WORD CITY"), ("NUMBER", "NUMBER", "WORD"), ("PUNCT",), ("NUMBER", "PUNCT"), ("NUMBER", "WORD", "WORD"), ("NUMBER", "WORD", "PUNCT"), ("NUMBER", "TYPE", "WORD CITY", "NUMBER"), ("NUMBER", "WORD", "NUMBER", "TYPE")]
# alternatives of one address, as the search gets them
LISTS = [(("NUMBER", "WORD"), ("NUMBER", "WORD", "WORD")), (("WORD", "WORD"), ("NUMBER", "WORD")), (("PUNCT",), ("NUMBER", "WORD")), (("NUMBER", "WORD"), ("PUNCT",)), (("PUNCT",), ("PUNCT", "WORD")), (("NUMBER WORD", "WORD"),), (("NUMBER",), ("WORD",), ("NUMBER", "WORD")), (("NUMBER", "CITY"), ("WORD", "WORD"), ("NUMBER", "WORD TYPE"))]

def near(a, b): return a is not None and b is not None and abs(a - b) < 1e-6
def average(rules): return sum(r[2] for r in rules) / len(rules)
def outcomes(g, phrase, limit=None):
    """every match of the phrase: (classes, rules, expansions)"""
    return [(w, r, u) for w in itertools.product(*[sorted(set(t.split())) for t in phrase]) for r, u in derivations(g, w, limit if limit is not None else len(phrase) + 2)]

class Whole(Machine):
    def __init__(self, p, text, limit=900000):
        self.cl = Wide(); Machine.__init__(self, p, limit, self.cl)
        self.inn = C34.enum(p, "InClass::Type"); self.out = C34.enum(p, "OutClass::Type")
        self.code = {v: k for k, v in self.inn.items()}; self.ocode = {v: k for k, v in self.out.items()}
        self.gr = P(("P", "grammar"), 0)
        self.grammar(text)
        self.n = 0
    def F(self, t, f): return C34.field(self.p, t, f)
    def grammar(self, text):
        setstream(self.st, ("P", "gin"), S(text.encode())); f = ctor(self.p, "Grammar")
        self.run(f, *[P(("P", "gin"), 0) if "istream" in di(f, j) else self.gr if x["name"] == "this" else self.s("gnm", b"g") for j, x in enumerate(f.args)])
        if self.val(self.gr.a[0], self.F("Grammar", "issues_")): raise Unknown("grammar not accepted")
    def val(self, o, off): return val(self.e, self.st, o, off)
    def elems(self, o, off): return elems(self.e, self.st, o, off)
    def search(self):
        f = pick(self.p, "Search::Search", lambda f: len(f.args) == 2 and "Grammar" in di(f, 1))
        if f is None: raise Unknown("Search::Search")
        self.n += 1; o = P(("P", ("search", self.n)), 0); self.run(f, o, self.gr); return o
    def token(self, i, classes, text=None):
        F = lambda n: self.F("Token", n)
        text = S(text.encode()) if text is not None else mk("ld", ("P", ("text", i)), 0)
        return mk("agg", tuple(sorted([(F("text_"), text), (F("stdtext_"), mk("ld", ("P", ("std", i)), 0)), (F("inclass_"), mk("seq", tuple(I(c, 32) for c in sorted(self.code[x] for x in classes.split())))), (F("outclass_"), I(self.ocode.get("BADTOKEN", 0), 32)), (F("attached_"), mk("seq", ())), (F("inlex_"), I(0, 8))], key=lambda x: x[0])), NULL)
    def phrase(self, name, ph, base=0):
        o = P(("P", name), 0); self.e.set_content(self.st, o, mk("seq", tuple(self.token(base + i, t) for i, t in enumerate(ph)))); return o
    def phrases(self, name, phs):
        o = P(("P", name), 0); self.e.set_content(self.st, o, mk("seq", tuple(mk("seq", tuple(self.token((k, i), t) for i, t in enumerate(ph))) for k, ph in enumerate(phs)))); return o
    def rule(self, o):
        F = lambda n: self.F("Rule", n)
        return (tuple(self.inn.get(x, x) for x in self.val(o, F("inClass_"))), tuple(self.out.get(x, x) for x in self.val(o, F("outClass_"))), self.val(o, F("score_")))
    def paths(self, o, off=0):
        """[(rules, number of tokens left over)] of a list of search paths"""
        F = lambda n: self.F("SearchPath", n)
        return [(tuple(self.rule(r) for r in self.elems(s, F("rules"))), len(self.val(s, F("remaining")))) for s in self.elems(o, off)]
    def tokens(self, o, off=0):
        """[(which token, classes, output class)]"""
        F = lambda n: self.F("Token", n); r = []
        for s in self.elems(o, off):
            t = self.e.facted(self.st, self.e.read(self.st, s, F("text_")))
            if not (t.op == "ld" and t.a[0][0] == "P" and isinstance(t.a[0][1], tuple) and t.a[0][1][0] == "text"): raise Unknown("token text %s" % t)
            r.append((t.a[0][1][1], tuple(self.inn.get(x, x) for x in self.val(s, F("inclass_"))), self.out.get(self.val(s, F("outclass_")), "?")))
        return r
    def cell(self, name, v):
        o = P(("P", (name, self.n)), 0); self.st.mem[(o.a[0], 0)] = v; return o
def show(rules): return " + ".join("%s -> %s" % (" ".join(r[0]), " ".join(r[1])) for r in rules)
def same(a, b): return len(a) == len(b) and all(x[0] == y[0] and x[1] == y[1] and near(x[2], y[2]) for x, y in zip(a, b))
def pattern(rules): return "%s -> %s" % (" ".join(c for r in rules for c in r[0]), " ".join(c for r in rules for c in r[1]))

# -- addresses
LEXICON = [b"LEXENTRY:\tSTREET\tSTREET\tTYPE\t", b"LEXENTRY:\tSTREET\tSAINT\tWORD\t", b"LEXENTRY:\tN\tNORTH\tDIRECT\t", b"LEXENTRY:\tNEW YORK\tNEW YORK\tCITY\t", b"LEXENTRY:\tNEW\tNEW\tWORD\t", b"LEXENTRY:\tBROAD WAY\tBROADWAY\tWORD\t", b"LEXENTRY:\tSTRASSE\tSTRASSE\tTYPE\tATT_SUF", b"LEXENTRY:\tALT\tALT\tDIRECT\tATT_PRE,DET_PRE",
           b"LEXENTRY:\tTHE\tTHE\tSTOPWORD\t", b"LEXENTRY:\tTHE TEN ROW\tTEN\tWORD,BUILDT\t"]
ADDRESSES = ["11 MAIN STREET", "11 MAIN STREET NEW YORK", "11 NEW YORK", "NEW YORK BROAD WAY", "11 BROAD WAY NEW YORK THE TEN ROW", "11-13 MAIN STREET, N", "11 HAUPTSTRASSE", "11 ALTHAUPTSTRASSE", "THE NEW STREET", "MAIN", "11", "", " ", "11 500W MAIN STREET", "12, 13 BROAD WAY.", "11 THE STREET NEW", "A B", "11 MAIN NEW YORK BROAD WAY STREET", "12/3 NEW YORK"]
FILTERS = ["", "PUNCT,SPACE,DASH", "PUNCT", "SPACE", "WORD", "NUMBER", "STOPWORD,SPACE", "CITY,SPACE", "TYPE", "DIRECT,PUNCT,SPACE,DASH", "NUMBER,WORD,TYPE,CITY,SPACE,DIRECT,STOPWORD,BUILDT", "SINGLE", "DASH,SPACE"]

class Entry(Whole):
    """with a lexicon, a tokenizer and the engine's entries"""
    def __init__(self, p, grammar="plain", lines=LEXICON, limit=900000):
        Whole.__init__(self, p, GRAMMARS[grammar], limit); self.lx = P(("P", "lexicon"), 0)
        setstream(self.st, ("P", "in"), S(HEAD + b"".join(l + b"\n" for l in lines)))
        f = ctor(p, "Lexicon")
        self.run(f, *[P(("P", "in"), 0) if "istream" in di(f, j) else self.lx if x["name"] == "this" else self.s("nm", b"test") for j, x in enumerate(f.args)])
    def fn(self, q, n):
        f = next((g for g in sorted(self.p.funcs.values(), key=lambda g: g.name) if g.q == q and g.blocks and len(g.args) == n), None)
        if f is None: raise Unknown(q)
        return f
    def tokenizer(self, filt=""):
        self.n += 1; t = P(("P", ("tokenizer", self.n)), 0); self.run(self.fn("Tokenizer::Tokenizer", 2), t, self.lx)
        self.e.set_content(self.st, P(t.a[0], self.F("Tokenizer", "filter_")), mk("seq", tuple(I(c, 32) for c in sorted(self.code[x] for x in filt.split(",") if x))))
        return t
    def read(self, o, off=0):
        """[(text, classes, attachment, known, output class)]"""
        F = lambda n: self.F("Token", n)
        return [(self.val(s, F("text_")), tuple(sorted(self.inn.get(c, c) for c in self.val(s, F("inclass_")))), tuple(self.val(s, F("attached_"))), bool(self.val(s, F("inlex_"))), self.val(s, F("outclass_"))) for s in self.elems(o, off)]
    def get(self, tk, text):
        self.n += 1; r = P(("P", ("tokens", self.n)), 0)
        self.run(self.fn("Tokenizer::getTokens", 3), r, tk, self.s(("text", self.n), text.encode()))
        return r
    def alternates(self, tk, v):
        self.n += 1; r = P(("P", ("alts", self.n)), 0); self.run(self.fn("Tokenizer::getAltTokens", 3), r, tk, v); return r
    def lists(self, r): return [self.read(s) for s in self.elems(r.a[0], 0)]
    def C(self, s): return P(("STR", S(s.encode())), 0)
    def entry(self, name, address, filt, count=True):
        """(result, number of records, message) of an entry taking address, [grammar], lexicon, locale, filter, [count], message"""
        f = next((g for g in sorted(self.p.funcs.values(), key=lambda g: g.name) if g.q == name and g.blocks), None)
        if f is None: raise Unknown(name)
        self.n += 1; cnt = self.cell("count", I(0xfffffff9, 32)); err = self.cell("err", NULL); chars = iter([self.C(address), self.C("en_US"), self.C(filt)]); a = []
        for k, x in enumerate(f.args):
            d = di(f, k)
            a.append(self.gr if "Grammar" in d else self.lx if "Lexicon" in d else cnt if "int" in d else err if "**" in d else next(chars))
        v = self.run(f, *a)
        c = self.e.facted(self.st, self.st.mem[(cnt.a[0], 0)]); e = self.st.mem[(err.a[0], 0)]
        return v, (c.n if c.op == "i" else None), (None if e is NULL else self.e.strval(self.st, e))
    def cstr(self, v):
        if v is NULL: return None
        t = self.e.facted(self.st, self.e.strval(self.st, v))
        if t.op != "s": raise Unknown(str(t)[:100])
        return t.n.decode("latin1")
    def records(self, v, n, fields):
        """the n records of the array at v, fields as [(offset, 'i'/'s'/'f')] of a record of the given size"""
        size, fs = fields; out = []
        if v.op != "p" or n is None: raise Unknown("records")
        for i in range(n):
            r = []
            for off, k in fs:
                if (v.a[0], v.a[1] + i * size + off) not in self.st.mem and (v.a[0], "R") not in self.st.mem and v.a[0][0] == "H": r.append(None); continue
                x = self.e.facted(self.st, self.e.read(self.st, v.a[0], v.a[1] + i * size + off))
                r.append(self.cstr(x) if k == "s" else val(self.e, self.st, v.a[0], v.a[1] + i * size + off))
            out.append(tuple(r))
        return out
    def layout(self, t, names):
        s = self.p.types.get(t) or {}
        return s
