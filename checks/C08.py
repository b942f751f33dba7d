"""The word patterns describe the lexicon's current words after every sequence of changes and queries."""
from lexops import *
import C34, itertools

# entries of the histories: name -> line; W words, P attached prefixes, S attached suffixes
LINES = {"a": b"LEXENTRY:\tST\tSTREET\tTYPE\t", "b": b"LEXENTRY:\tST\tSAINT\tWORD\tATT_PRE", "c": b"LEXENTRY:\tSTRASSE\tSTRASSE\tTYPE\tATT_SUF", "d": b"LEXENTRY:\tAVE\tAVENUE\tTYPE\tDET_PRE,DET_SUF",
         "f": b"LEXENTRY:\tSAN\tSAN\tWORD\tATT_PRE,DET_PRE", "g": b"LEXENTRY:\tST\tSTREET\tTYPE\tATT_SUF,DET_SUF", "h": b"LEXENTRY:\tST\tSTREET\tTYPE,WORD\t", "p": b"LEXENTRY:\tNEU\tNEU\tWORD\tATT_PRE,ATT_SUF,DET_PRE", "i": b"LEXENTRY:\tST\tSTRASSE\tTYPE\t"}
HEAD = b"LEXICON:\ttest\tENGLISH\ten_US\t9\n"
QUERY = {"R": "regex", "P": "regexPrefixAtt", "S": "regexSuffixAtt"}

def parts(line):
    f = line.decode().split("\t")
    return (f[1], f[2], tuple(sorted(x for x in f[3].split(",") if x)), tuple(sorted(x for x in f[4].split(",") if x and x != "DETACH")))

class Model:
    """what the lexicon holds: word -> entries in order of insertion"""
    def __init__(self, d=()): self.d = {k: list(v) for k, v in dict(d).items()}
    def insert(self, e):
        l = self.d.setdefault(e[0], [])
        if e not in l: l.append(e)
    def remove(self, e):
        l = self.d.get(e[0], [])
        if e in l:
            l.remove(e)
            if not l: del self.d[e[0]]
    def words(self, q):
        if q == "R": return set(self.d)
        return {w for w, l in self.d.items() if any({"P": "ATT_PRE", "S": "ATT_SUF"}[q] in e[3] for e in l)}

class Lexm(Machine):
    def __init__(self, p, fs, lines, limit=900000):
        Machine.__init__(self, p, limit); self.fs = fs; self.this = P(("P", "this"), 0)
        f = fs["ctor"]; setstream(self.st, ("P", "in"), S(HEAD + b"".join(l + b"\n" for l in lines)))
        self.run(f, *[P(("P", "in"), 0) if "istream" in di(f, j) else self.this if x["name"] == "this" else self.s("nm", b"test") for j, x in enumerate(f.args)])
        self.entries = {}
    def entry(self, k, line):
        if k not in self.entries:
            o = P(("P", ("entry", k)), 0); self.run(self.fs["entry"], o, self.s("line", line)); self.entries[k] = o
        return self.entries[k]
    def fork(self):
        import copy
        m = copy.copy(self); m.st = self.st.copy() if hasattr(self.st, "copy") else copy.deepcopy(self.st); m.entries = dict(self.entries); return m

def functions(p):
    fs = {"ctor": ctor(p, "Lexicon"), "entry": pick(p, "LexEntry::LexEntry", lambda f: len(f.args) == 2 and "string" in di(f, 1)), "insert": pick(p, "Lexicon::insert", lambda f: True), "remove": pick(p, "Lexicon::remove", lambda f: True),
          "find": pick(p, "Lexicon::find", lambda f: True)}
    fs["init"] = pick(p, "Lexicon::initialize", lambda f: len(f.args) == 2)
    for k, q in QUERY.items(): fs[k] = pick(p, "Lexicon::" + q, lambda f: True)
    return fs if all(v for k, v in fs.items() if k != "init") else None

SHAPE = {"R": (set(), "")}
def wrong(q, pat, want):
    """None, or what is wrong with the pattern text for the words"""
    try: l = language(pat.decode("utf8"))
    except Infinite as i: return "%r acts as an operator" % str(i)
    except UnicodeDecodeError: return "it is not valid UTF-8"
    got = {x for x, g in l if x}
    if got != want: return "it describes %s, the lexicon has %s" % (sorted(got) or "no word", sorted(want) or "none")
    return None

def histories(deep):
    ops = ["+" + k for k in "abcdfgp"] + ["-" + k for k in "abcfp"]
    out = []
    for init in ((), ("a", "b", "c", "f"), ("a",), ("a", "g", "d", "p")):
        for n in (1, 2, 3) if deep else (1, 2):
            for w in itertools.product(ops, repeat=n): out.append((init, w))
    if not deep:
        for w in itertools.product(["+a", "+b", "-a", "-b", "+c"], repeat=3): out.append(((), w))
    out += [(i, w) for i in ((), ("a",), ("b", "c")) for w in (("*b",), ("*c",), ("*d",), ("+a", "*f"), ("*a", "-a"), ("-b", "*b"))]
    # asked after every change, in two orders, and only at the end
    return [(i, w, how) for i, w in out for how in ("RPSRPS", "SPRSPR", ".RPS") if how == "RPSRPS" or len(w) < 3]

def run(p, rep):
    rep.rule = "histories of loading, inserting, removing and querying, with every pattern queried before and after each change, are propagated as constants; the language of each pattern is exactly the current words of its kind"
    rep.assumptions = ["patterns are read as Boost's Perl syntax", "stream, string, vector, map models of engine/models.py and checks/text.py"]
    fs = functions(p)
    jobs = histories(rep.tier == "thorough") if fs else []
    rep.ob("histories", len(jobs))
    def go(j):
        init, ws, how = j
        m = Lexm(p, fs, [LINES[k] for k in init]); mod = Model()
        for k in init: mod.insert(parts(LINES[k]))
        done = n = 0; bad = None; trace = "load(%s)" % ",".join(init)
        try:
            for step in ("",) + ws:
                if step:
                    trace += ", %s(%s)" % ({"+": "insert", "-": "remove", "*": "initialize"}[step[0]], step[1])
                    if step[0] == "*":
                        if not fs["init"]: return None
                        setstream(m.st, ("P", ("in", trace)), S(HEAD + LINES[step[1]] + b"\n")); m.run(fs["init"], m.this, P(("P", ("in", trace)), 0))
                    else: m.run(fs["insert" if step[0] == "+" else "remove"], m.this, m.entry(step[1], LINES[step[1]]))
                    (mod.remove if step[0] == "-" else mod.insert)(parts(LINES[step[1]])); n += 1
                if how[0] == "." and n < len(ws): continue
                for k, q in enumerate(how.lstrip(".")):
                        pat = m.text(fs[q], m.this); done += 1
                        b = wrong(q, pat, mod.words(q))
                        if b: return (q, "%s%s gives %r after %s%s: %s" % (QUERY[q], " asked again" if k > 2 else "", pat.decode("latin1"), trace, "" if how[0] == "." else ", the patterns asked for in the order %s after every step" % how, b)), done, sorted(m.e.analysed), m.e.steps
        except Thrown as t: return None
        except Unknown as u:
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        return bad, done, sorted(m.e.analysed), m.e.steps
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps = r
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_patterns", n); k += 1
        if k % 100 == 1: rep.sample("load(%s) %s: %d patterns" % (",".join(j[0]), " ".join(j[1]), n))
        if bad: rep.viol("pattern:" + QUERY[bad[0]], loc(fs[bad[0]]), "%s; entries: %s" % (bad[1], " | ".join("%s=%s" % (k, LINES[k].decode()[10:]) for k in sorted({*j[0], *(w[1] for w in j[1])}))))
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
