"""Every entry reads a lexicon as an archive, as text from its beginning when it is none, and refuses outdated archives."""
from whole import *

OLD = b"Re-compile-lexicon"
KINDS = [("_ZTIN5boost7archive17archive_exceptionE", None), ("_ZTISt13runtime_error", b"broken"), ("_ZTISt9bad_alloc", None), ("_ZTISt9exception", None), ("_ZTIi", None)]
# (where the archive fails, exception, what is left in the stream, its flags)
CASES = [("reading", KINDS[1][0], OLD, b"", 3), ("reading", KINDS[1][0], OLD, b"rest", 0), ("", None, None, b"", 0)]
CASES += [(w, t, x, left, fl) for w in ("opening", "reading") for t, x in KINDS for left, fl in ((b"", 3), (b"\t1\nLEXENTRY:", 0), (b"", 2))]
TEXT = b"LEXICON:\tx\tENGLISH\ten_US\t1\nLEXENTRY:\tST\tSTREET\tTYPE\t\n"
GRAMMAR = b"[ADDRESS]\nNUMBER -> HOUSE -> 0.5\n"
NAMES = {"lex": TEXT, "gram": GRAMMAR, "addr": b"11 MAIN ST", "loc": b"en_US", "filt": b"SPACE"}
INNER = ("standardize_addr", "parse_addr", "match_addr")

class Arch(Lex):
    def __init__(self, case): Lex.__init__(self); self.case = case
    def call(self, eng, st, info):
        q = info.q; m = q.split("::")[-1]; a = info.args; w, t, x, left, fl = self.case
        boom = lambda: [("throw", st, mk("E", t, S(x) if x is not None else None))]
        note = lambda e: st.mem.__setitem__((("LOG",), 0), mk("seq", (st.mem[(("LOG",), 0)].a[0] if (("LOG",), 0) in st.mem else ()) + (e,)))
        if "boost::archive" in q:
            if m == "text_iarchive" and len(a) > 1 and a[1].op == "p":
                st.mem[(("ARCH",), a[0].a)] = a[1]
                if w == "opening": setstream(st, a[1].a[0], S(left)); st.mem[(a[1].a[0], "SE")] = I(fl, 8); note(S(b"failed")); return boom()
                return False
            if m in ("operator@SHR", "operator&", "operator@AND") and len(a) == 2:
                s = st.mem.get((("ARCH",), a[0].a))
                if s is None: raise Giveup("archive of no stream")
                setstream(st, s.a[0], S(left if w else b"")); st.mem[(s.a[0], "SE")] = I(fl if w else 0, 8)
                note(S(b"loaded" if not w else b"failed"))
                if w == "reading": return boom()
                return a[0]
            if m.startswith("~"): return False
        if q == "Lexicon::initialize":
            s = next((y for y in a[1:] if y.op == "p"), None)
            if s is None: raise Giveup("initialize")
            c = eng.facted(st, content(st, s.a[0])); f = st.mem.get((s.a[0], "SE"))
            note(mk("agg", (c, I(f.n if f is not None and f.op == "i" else 0)), NULL)); return False
        if q in INNER: note(S(b"used")); return NULL
        if q.startswith("Grammar::"): return False
        if q.startswith("Lexicon::~"): return False
        return Lex.call(self, eng, st, info)

def run(p, rep):
    rep.rule = "every failure of the archive (where, kind of exception, state of the stream) is forced at every entry that takes a lexicon; the text read afterwards must be the whole text, an outdated archive must be reported and nothing used; the version gate is evaluated for every version around the current one"
    rep.assumptions = ["a failing archive throws one of the enumerated kinds of exception and leaves the stream anywhere", "std::istringstream model of checks/text.py"]
    ent = {n: next((g for g in sorted(p.funcs.values(), key=lambda g: g.name) if g.q == n and g.blocks), None) for n in ("std_standardize", "std_parse_address", "std_match_address", "getLexiconPtr")}
    jobs = [(n, c) for n in ent if ent[n] for c in CASES]
    rep.ob("failures", len(jobs))
    def go(j):
        name, case = j; f = ent[name]; bad = []
        try:
            m = Machine(p, 100000, Arch(case)); err = P(("P", "err"), 0); cnt = P(("P", "cnt"), 0); m.st.mem[(err.a[0], 0)] = NULL; m.st.mem[(cnt.a[0], 0)] = I(0, 32); a = []
            for k, x in enumerate(f.args):
                d = di(f, k); key = next((y for y in NAMES if y in x["name"].lower()), None)
                if "**" in d: a.append(err)
                elif "int" in d: a.append(cnt)
                elif key: a.append(P(("STR", S(NAMES[key])), 0))
                else: raise Unknown("argument %s" % x["name"])
            v = m.run(f, *a)
            log = m.st.mem.get((("LOG",), 0)); log = list(log.a[0]) if log is not None else []
            inits = [x for x in log if x.op == "agg"]; used = any(x is S(b"used") for x in log); tried = any(x.op == "s" and x.n in (b"loaded", b"failed") for x in log)
            e = m.st.mem[(err.a[0], 0)]; e = None if e is NULL else m.e.facted(m.st, m.e.strval(m.st, e))
            if e is not None and e.op != "s": raise Unknown("message")
            done = used if name.startswith("std") else v.op == "p"
            if not tried: bad.append(("archive", "%s does not try the lexicon as an archive" % name)); return bad, 1, sorted(m.e.analysed), m.e.steps
            how = "%s the archive %s" % (case[0], "throws %s" % (case[2].decode() if case[2] else case[1])) if case[0] else "the archive is read"
            if case[2] == OLD:
                if inits: bad.append(("outdated", "%s parses an outdated archive as text" % name))
                elif done: bad.append(("outdated", "%s uses an outdated archive" % name))
                elif e is None or e.n != OLD: bad.append(("outdated", "%s reports %s for an outdated archive" % (name, repr(e.n.decode()) if e is not None else "nothing")))
            elif case[0]:
                if not inits: bad.append(("fallback", "%s does not parse the text when %s" % (name, how)))
                elif any(x.a[0][0].op != "s" for x in inits): raise Unknown("text of the stream")
                elif inits[-1].a[0][0].n != TEXT or inits[-1].a[0][1].n: bad.append(("fallback", "%s parses %r%s when %s; the text is %r" % (name, inits[-1].a[0][0].n.decode(), " from a stream in a failed state" if inits[-1].a[0][1].n else "", how, TEXT.decode())))
                elif not done: bad.append(("fallback", "%s does not go on with the text when %s, but reports %s" % (name, how, repr(e.n.decode()) if e is not None else "nothing")))
            else:
                if inits: bad.append(("archive", "%s parses a usable archive as text" % name))
                elif not done: bad.append(("archive", "%s does not use a usable archive" % name))
            n = 1
        except (Thrown, Unknown, Giveup) as u:
            if os.environ.get("AS_DEBUG"): print(j, u)
            return None
        return bad, n, sorted(m.e.analysed), m.e.steps
    fns = set(); k = 0
    for j, r in zip(jobs, parallel(jobs, go, secs=60)):
        if r is None: rep.ob("undecided"); continue
        bad, n, an, steps = r; k += 1
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("obligation_failures", n)
        if k % 15 == 1: rep.sample("%s: %s %s" % (j[0], j[1][0] or "no failure", j[1][1]))
        for key, what in bad[:2]: rep.viol(key + ":" + j[0], loc(ent[j[0]]), what)
    gate(p, rep, fns)
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}

class Ops(Lex):
    """an archive whose reads and writes are counted"""
    def call(self, eng, st, info):
        if "boost::archive" in info.q and info.q.split("::")[-1] in ("operator@SHR", "operator@SHL", "operator&", "operator@AND"):
            st.mem[(("OPS",), 0)] = I(st.mem.get((("OPS",), 0), I(0)).n + 1); return info.args[0]
        return Lex.call(self, eng, st, info)

def gate(p, rep, fns):
    ld = next((f for f in sorted(p.funcs.values(), key=lambda f: f.name) if f.q == "Lexicon::load" and f.blocks and len(f.args) == 3), None) or next((f for f in sorted(p.funcs.values(), key=lambda f: f.name) if f.q == "Lexicon::serialize" and "iarchive" in f.dem and f.blocks), None)
    if ld is None: rep.ob("undecided"); return
    cur = None
    cur = written()
    for v in [0, 1, 2, 3] + ([cur] if cur not in (None, 0, 1, 2, 3) else []):
        m = Machine(p, 20000, Ops()); o = P(("P", "lexicon"), 0)
        try:
            xs = m.e.run(ld, [o, P(("P", "archive"), 0), I(v, 32)], m.st, ctx=("gate",))
        except (Giveup, Unknown): rep.ob("undecided"); continue
        kinds = {x.kind for x in xs}
        if len(kinds) != 1: rep.ob("undecided"); continue
        rep.ob("obligation_versions"); fns |= m.e.analysed
        k = kinds.pop()
        if v < 2:
            w = xs[0].val
            if k != "throw": rep.viol("gate:%d" % v, loc(ld), "an archive of version %d is read instead of being refused" % v)
            elif any(x.st.mem.get((("OPS",), 0)) is not None for x in xs): rep.viol("gate:%d" % v, loc(ld), "an archive of version %d is read before its version is looked at" % v)
            elif w.op == "E" and w.a[0] not in ("any",) and not (w.a[0] == "_ZTISt13runtime_error" and w.a[1] is S(OLD)): rep.viol("gate:%d" % v, loc(ld), "an archive of version %d is refused with %s, which the entries do not know as outdated" % (v, w))
        elif v == (cur or 2) and k != "ret": rep.viol("gate:%d" % v, loc(ld), "an archive of the current version %d is refused" % v)
    if cur is not None:
        rep.ob("obligation_versions")
        if cur < 2: rep.viol("version", "lexicon.h: BOOST_CLASS_VERSION", "archives are written with the version %d, which is refused as outdated or taken for an older layout" % cur)

def written():
    """the version archives of lexicons are written with: a constant of the type, evaluated by the compiler"""
    import lib, subprocess, tempfile
    src = os.environ.get("AS_REPO", "/repo") + "/src"
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/v.cpp", "w") as f: f.write('#include <boost/archive/text_oarchive.hpp>\n#include "lexicon.h"\nextern "C" const unsigned lexicon_version; const unsigned lexicon_version = boost::serialization::version<Lexicon>::value;\n')
        try: r = subprocess.run(["clang++", "-std=c++11", "-w", "-I", src, "-S", "-emit-llvm", "-o", "-", d + "/v.cpp"], capture_output=True, text=True, timeout=200)
        except Exception: return None
    import re
    g = re.search(r"@lexicon_version = .*i32 (\d+)", r.stdout)
    return int(g.group(1)) if g else None
