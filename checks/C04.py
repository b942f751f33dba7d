"""Every output class is delivered in exactly its own component, standardized, in order, blank separated."""
from common import *
import re

# class -> component, as documented (README / DOCUMENTATION, SQL OUT column names)
ROUTE = {"BLDNG": "building", "HOUSE": "house_num", "PREDIR": "predir", "QUALIF": "qual", "PRETYP": "pretype",
         "STREET": "name", "SUFTYP": "suftype", "SUFDIR": "sufdir", "RR": "ruralroute", "STOP": "extra", "EXTRA": "extra",
         "BADTOKEN": "extra", "CITY": "city", "PROV": "prov", "NATION": "country", "POSTAL": "postcode",
         "BOXH": "box", "BOXT": "box", "UNITH": "unit", "UNITT": "unit", "IGNORE": None}
COMPONENTS = ["building", "house_num", "predir", "qual", "pretype", "name", "suftype", "sufdir", "ruralroute", "extra",
              "city", "prov", "country", "postcode", "box", "unit"]

APPEND = {"std::string::" + m for m in ("operator+=", "append", "assign", "operator=", "push_back", "insert")} | {"std::vector::push_back", "std::vector::emplace_back", "std::operator@SHL"}

def which(p):
    """which iteration's element a token pointer designates: a number or 'w'"""
    for q in alts(p):
        if q.op == "p" and q.a[0][0] == "E": return q.a[0][2].n if q.a[0][2].op == "i" and q.a[0][2].n < 2 else "w"
    return "?"

class C4(Client):
    def __init__(self, files, name, cls, rep):
        self.files = files; self.cls = cls; self.bad = []; self.rep = rep; self.name = name
    def key(self, st): return st.flags.get("pend")
    def inline(self, fn): return fn.file in self.files and not fn.q.startswith(("Search::", "Tokenizer::", "Lexicon::", "Token::", "InClass::"))
    def call(self, eng, st, info):
        s, a = models.sret(info)
        if info.q == "Token::outclass" and not info.params:
            old = st.flags.get("pend"); now = which(a[0])
            if old is not None and old != now: self.bad.append((info.fn, info.inst, "drop", "a matched token of class %s can be left out of the result" % self.name))
            st.flags["pend"] = now
            return I(self.cls & 0xffffffff, 32)
        if info.q in APPEND and len(a) > 1 and a[1].op in ("p", "J") and contains(eng.snapshot(st, a[1]), lambda x: x.op == "stdtext"):
            st.flags.pop("pend", None)
        if info.q == "Token::stdtext" and not info.params:
            return models.give(eng, st, info, mk("stdtext", eng.snapshot(st, a[0])))
        if info.q == "Lexicon::standardize":
            for q in alts(a[1]):
                if q.op == "p": eng.clobber(st, q.a[0], q.a[1], mk("stdzd", eng.snapshot(st, q)))
            return False
        return None
    def store(self, eng, st, obj, off, val, inst, fn):
        if val is None or val.op != "cat": return
        ix = []
        for x in val.a[0]:
            if x.op == "stdtext":
                for t in subterms(x):
                    if t.op == "ld" and isinstance(t.a[0], tuple) and t.a[0][0] == "el" and t.a[0][2].op == "i": ix.append(t.a[0][2].n); break
        if any(b < a for a, b in zip(ix, ix[1:])):
            self.bad.append((fn, inst, "order", "the texts of the matched tokens are joined in the wrong order"))

def flat(t):
    if t.op == "cat": return frozenset(x for y in t.a[0] for x in flat(y))
    if t.op == "bag": return flat(t.a[0]) | frozenset(x for y in t.a[1] for x in flat(y))
    if t.op == "chop": return flat(t.a[0])
    if t.op == "J": return frozenset(x for y in t.a[0] for x in flat(y))
    return frozenset([t])

def last_sep(t):
    """does the text end in a blank (None: unknown)"""
    if t.op == "s": return t.n.endswith(b" ") if t.n else None
    if t.op == "cat": return last_sep(t.a[0][-1])
    if t.op == "bag":
        r = last_sep(t.a[0])
        return r
    if t.op == "stdtext": return False
    if t.op == "chop": return None
    if t.op == "J":
        rs = {last_sep(x) for x in t.a[0]} - {None}
        return rs.pop() if len(rs) == 1 else None
    return None

def has_std(t): return contains(t, lambda x: x.op == "stdtext")

def run(p, rep):
    parts(p, rep)
    import deliver; deliver.run(p, rep, ROUTE, COMPONENTS, None)

def parts(p, rep):
    rep.rule = ("for every output class the engine's standardize entry is abstractly executed with each token's class fixed to that constant; the provenance of every "
                "STDADDR field at every successful exit must be exactly the standardized texts of those tokens, in order, joined by single blanks, in the one documented field; "
                "the SQL wrapper is executed with a symbolic STDADDR and value k handed to the tuple builder must be a copy of the field named by the k-th OUT column")
    enum = p.enums.get("OutClass::Type"); T0 = p.types.get("STDADDR")
    if not enum or not T0: rep.viol("anchor", "src/outclass.h", "OutClass::Type or STDADDR not found"); return
    fields = {m["name"]: m["off"] for m in T0["members"]}
    files = wrapper_file(p)
    E = dict(enum) if isinstance(enum, dict) else {n: v for n, v in enum}
    E = E.get("vals", E) if isinstance(E, dict) else E
    for name in COMPONENTS + ["pattern"]:
        if name not in fields: rep.viol("field:" + name, "src/address_standardizer.h", "STDADDR has no field " + name)
    for name in sorted(E):
        if name not in ROUTE: rep.viol("class:" + name, "src/outclass.h", "output class %s has no documented component" % name)
    for entry in ("std_standardize_ptrs", "std_standardize"):
        f = p.funcs.get(entry)
        if f is None: rep.viol("anchor:" + entry, "src/address_standardizer.h", "entry %s not found" % entry); continue
        for cls in sorted(ROUTE):
            if cls not in E: rep.viol("class:" + cls, "src/outclass.h", "output class %s is gone" % cls); continue
            c = C4(files, cls, E[cls], rep); e = Engine(p, c, models.models)
            ex = e.run(f, params(f), State()); rep.eng(e)
            for fn, ins, key, msg in c.bad:
                if key == "drop" and ROUTE[cls] is None: continue
                rep.viol("%s:%s" % (cls, key), loc(fn, ins) if fn is not None else loc(f), msg)
            judge(p, rep, f, entry, cls, ex, fields)
    sqlside(p, rep, fields)

def judge(p, rep, f, entry, cls, ex, fields):
    exp = ROUTE[cls]
    ok = False
    for x in ex:
        if x.kind != "ret" or x.val is None: continue
        for r in alts(x.val):
            if r.op != "p" or r.a[0][0] != "H": continue
            ok = True
            if x.st.flags.get("pend") is not None and exp: rep.viol(cls + ":drop", loc(f), "a matched token of class %s can be left out of the result" % cls)
            for name in COMPONENTS:
                off = fields.get(name)
                if off is None: continue
                rep.ob("obligation_class_component")
                v = x.st.mem.get((r.a[0], off), I(0))
                conts = []
                for q in alts(v):
                    if q is NULL or (q.op == "i" and q.n == 0): continue
                    conts.append(strcontent(x.st, q))
                key = "%s:%s" % (cls, name)
                if name != exp:
                    for t in conts:
                        if t is None or t.op in ("top", "w", "undef"): rep.ob("undecided"); continue
                        if has_std(t): rep.viol(key, loc(f), "a token of output class %s is delivered in %s instead of %s (%s)" % (cls, name, exp or "nowhere", entry))
                    continue
                if not conts:
                    rep.viol(key, loc(f), "the text of a token of output class %s never reaches %s (%s)" % (cls, name, entry)); continue
                for t in [q for t in conts for q in (alts(t) if t is not None else (None,))]:
                    if t is None or t.op in ("top", "w", "undef"): rep.ob("undecided"); continue
                    fl = flat(t)
                    stds = [u for u in fl if u.op == "stdtext"]
                    for u in stds:
                        if not all(q.op == "stdzd" for q in alts(u.a[0])):
                            rep.viol(key + ":unstd", loc(f), "%s can receive a token's text before the token is standardized against the lexicon" % name)
                    if t.op == "joined":
                        if t.a[1] is not S(" "): rep.viol(key + ":sep", loc(f), "texts in %s are joined with %s" % (name, show(t.a[1])))
                        continue
                    if not has_std(t) and not any(u.op in ("top", "w", "undef") for u in fl):
                        rep.viol(key, loc(f), "%s does not contain the standard text of a token of class %s but %s" % (name, cls, show(t)[:120])); continue
                    seps = {u.n for u in fl if u.op == "s"}
                    if seps - {b" ", b""}: rep.viol(key + ":sep", loc(f), "texts in %s are separated by %s" % (name, seps))
                    elif t.op == "bag" or (t.op == "chop" and t.a[0].op == "bag"):
                        if b" " not in seps and not any(u.op in ("top", "w", "undef") for u in fl): rep.viol(key + ":sep", loc(f), "texts in %s are not separated by a blank" % name)
                    if t.op == "chop":
                        if last_sep(t.a[0]) is False: rep.viol(key + ":trim", loc(f), "the last character of %s is cut off" % name)
                    elif last_sep(t) is True: rep.viol(key + ":trim", loc(f), "%s ends in a blank" % name)
            pv = x.st.mem.get((r.a[0], fields.get("pattern", -1)), I(0))
            rep.ob("obligation_pattern")
            for q in alts(pv):
                if q is NULL or (q.op == "i" and q.n == 0): continue
                t = strcontent(x.st, q)
                if t is not None and t.op not in ("top", "w") and not any(u.op == "mut" and "Search::" in u.a[0] for u in alts(t)) and not contains(t, lambda u: u.op in ("mut", "ret") and "Search::" in u.a[0]):
                    rep.viol("pattern", loc(f), "pattern is not the matched classification but %s" % show(t)[:100])
            if all(q is NULL or (q.op == "i" and q.n == 0) for q in alts(pv)):
                rep.viol("pattern", loc(f), "pattern is never filled")
    if not ok: rep.viol("success:" + entry, loc(f), "%s has no successful exit" % entry)
    rep.sample("%s with class %s -> %s" % (entry, cls, exp))

def strcontent(st, q):
    if q.op == "p":
        return st.mem.get((q.a[0], 0)) if q.a[0][0] == "H" else (q.a[0][1] if q.a[0][0] == "STR" else None)
    return q

def out_columns(fname):
    src = glob.glob(SRC + "/*.sql.in")
    txt = "".join(open(s).read() for s in src)
    txt = re.sub(r"--[^\n]*", "", txt)
    m = re.search(r"create\s+(?:or\s+replace\s+)?function\s+%s\s*\((.*?)\)\s*returns" % fname, txt, re.S | re.I)
    if not m: return None
    return [re.split(r"\s+", a.strip())[1] for a in m.group(1).split(",") if a.strip().lower().startswith("out ")]

class CS(Client):
    def __init__(self, file, fields): self.file = file; self.fields = fields; self.calls = []
    def inline(self, fn): return fn.file == self.file
    def call(self, eng, st, info):
        if info.q in ("std_standardize_ptrs", "std_standardize"):
            for i, v in enumerate(info.args):
                if v.op == "p" and v.a[0][0] == "A" and i == len(info.args) - 1: st.mem[(v.a[0], v.a[1])] = NULL
            o = ("P", "STDADDR")
            return P(o, 0)
        if info.q == "BuildTupleFromCStrings": self.calls.append((info, st.copy(), info.args[1])); return mk("tuple")
        if info.q == "heap_form_tuple": self.calls.append((info, st.copy(), info.args[1])); return mk("tuple")
        return None

def sqlside(p, rep, fields):
    f = p.funcs.get("as_standardize")
    if f is None: rep.viol("anchor:as_standardize", "src/address_standardizer.c", "as_standardize not found"); return
    cols = out_columns("as_standardize")
    if not cols: rep.viol("anchor:sql", "src", "no CREATE FUNCTION as_standardize"); return
    c = CS(f.file, fields); e = Engine(p, c, models.models)
    e.run(f, params(f), State()); rep.eng(e)
    byoff = {o: n for n, o in fields.items()}
    if not c.calls: rep.viol("tuple", loc(f), "as_standardize builds no result row"); return
    for info, st, vals in c.calls:
        for k, name in enumerate(cols):
            rep.ob("obligation_sql_column")
            for v in alts(vals):
                if v.op != "p": rep.ob("undecided"); continue
                x = e.read(st, v.a[0], off_add(v.a[1], 8 * k))
                real = [q for q in alts(x) if not (q is NULL or q is UNDEF or q.op in ("w", "wp") or (q.op == "i" and q.n == 0))]
                got = set()
                for q in real:
                    t = strcontent(st, q)
                    if t is None: got.add("?"); continue
                    hit = {byoff.get(u.a[1]) for u in subterms(t) if u.op == "ld" and u.a[0] == ("P", "STDADDR")}
                    got |= hit or {"?"}
                if got - {name, "?"}: rep.viol("sql:%s" % name, loc(info.fn, info.inst), "OUT column %d (%s) is filled from STDADDR.%s" % (k + 1, name, sorted(map(str, got - {name, "?"}))[0]))
                elif not real and x.op not in ("top", "w"): rep.viol("sql:%s" % name, loc(info.fn, info.inst), "OUT column %d (%s) is never filled" % (k + 1, name))
                elif "?" in got: rep.ob("undecided")
                rep.sample("OUT column %d %s <- STDADDR.%s" % (k + 1, name, "/".join(sorted(map(str, got)))))
