"""Conversion tables: constants are propagated through every conversion, for every code and every name in the code."""
from text import *

class Conv(Text):
    def __init__(self, rep, elemfn=None): self.rep = rep; self.elemfn = elemfn or {}
    opq = mk("opaque", "name")
    def call(self, eng, st, info):
        s, a = models.sret(info)
        h = self.elemfn.get(info.name)
        if h is not None and not getattr(self, "top", None) == info.name:
            return h(eng, st, info, s, a)
        if info.q in ("std::operator==", "std::operator!=") and len(a) == 2:
            xs = [eng.get_content(st, v) if "std::string" in t else eng.strval(st, v) for v, t in zip(a, info.params)]
            if self.opq in xs and any(x.op == "s" for x in xs): return I(int(info.q.endswith("!=")), 1)
        if info.q == "std::string::compare" and eng.get_content(st, a[0]) is self.opq: return I(1, 32)
        if info.q in ("std::map::find", "std::unordered_map::find", "std::map::count", "std::unordered_map::count") and models.keyval(eng, st, a[1]) is self.opq:
            return models.mkit(a[0], models.END) if info.q.endswith("find") else I(0)
        return Text.call(self, eng, st, info)

ENUM = {"InClass::Type": ("InClass::asString", "InClass::asOneType"), "OutClass::Type": ("OutClass::asString", "OutClass::asType"),
        "InClass::Lang": ("InClass::asString", "InClass::asLang"), "InClass::AttachType": ("InClass::asString", None)}
LISTS = {"InClass::Type": "InClass::asType", "InClass::AttachType": "InClass::asAttachType"}
DEFAULT = {"InClass::Type": "BADTOKEN", "OutClass::Type": "BADTOKEN", "InClass::Lang": "UNKNOWN"}
ARG = ("P", "x")

def one(p, q, par):
    r = p.fn(q, 1, all=True, pred=lambda f: f.params and par(f.params[0]))
    return r[0] if len(r) == 1 else None
def isstr(t): return t.startswith("std::string") or t.startswith("std::string_view")

def run_with(p, rep, f, put, **kw):
    """exits of a conversion whose argument object holds what put() stores; the value returned or built"""
    c = Conv(rep, kw.get("elemfn")); c.top = f.name
    e = Engine(p, c, models.models)
    st = State(); args = []
    for a in f.args:
        if a["name"] == "agg.result": args.append(P(("P", "res"), 0))
        elif a["ty"] == "ptr": args.append(P(ARG, 0)); put(e, st, P(ARG, 0))
        else: args.append(put(e, st, None))
    out = []
    for x in e.run(f, args, st):
        if x.kind != "ret": out.append(None); continue
        out.append(e.snapshot_content(x.st, P(("P", "res"), 0)) if f.args[0]["name"] == "agg.result" else x.val)
    rep.eng(e)
    return out, e

def run(p, rep):
    rep.rule = ("constants are propagated through every conversion function: for each enumerator of the four code enumerations its name is computed and read back, the names must differ pairwise and be free of separators; "
                "every text literal a reader compares with is read and the result's name must be that literal or a documented long name, and a text equal to none of the literals must give the bad-token (unknown) code; "
                "set writers and readers are evaluated with their element conversion replaced by opaque codes, for lists of 0 to 3 elements, blanks around elements and empty elements")
    for en, (wr, rd) in ENUM.items():
        codes = p.enums.get(en)
        if not codes: rep.viol("anchor:" + en, "src/inclass.h", "enumeration %s not found" % en); continue
        w = one(p, wr, lambda t: t.replace(" ", "").startswith(en + "const&") or t == en)
        if w is None: rep.viol("anchor:" + wr + en, "src/inclass.cpp", "no function %s for %s" % (wr, en)); continue
        names = {}
        def name_of(fn, n):
            def put(e, st, pt):
                if pt is None: return I(n & 0xffffffff, 32)
                st.mem[(pt.a[0], 0)] = I(n & 0xffffffff, 32)
            r, e = run_with(p, rep, fn, put)
            return r[0].n if len(r) == 1 and r[0] is not None and r[0].op == "s" else None
        for cn, cv in sorted(codes.items(), key=lambda x: x[1]):
            rep.ob("obligation_code_has_name"); rep.ob("codes")
            v = name_of(w, cv)
            if v is None: rep.ob("undecided"); continue
            if not v or any(ch in v for ch in b", \t\n"): rep.viol("name:%s:%s" % (en, cn), loc(w), "code %s of %s is written as %r, which cannot be read back" % (cn, en, v.decode("latin1"))); continue
            for on, ov in names.items():
                if ov == v: rep.viol("same:%s:%s" % (en, cn), loc(w), "codes %s and %s of %s share the name %s" % (on, cn, en, v.decode("latin1")))
            names[cn] = v
        if "Type" in en and en != "InClass::AttachType":
            for cn, v in names.items():
                if v.decode("latin1") != cn: rep.viol("spelling:%s:%s" % (en, cn), loc(w), "code %s of %s is written as %s" % (cn, en, v.decode("latin1")))
        byval = {v & 0xffffffff: k for k, v in codes.items()}
        if rd is not None:
            r = one(p, rd, isstr)
            if r is None: rep.viol("anchor:" + rd, "src/inclass.cpp", "no function %s reading a text" % rd); continue
            def code_of(term):
                def put(e, st, pt): e.set_content(st, pt, term)
                o, e = run_with(p, rep, r, put)
                return byval.get(o[0].n & 0xffffffff, o[0].n) if len(o) == 1 and o[0] is not None and o[0].op == "i" else None
            for cn, v in names.items():
                rep.ob("obligation_read_back"); c = code_of(S(v))
                if c is None: rep.ob("undecided"); continue
                if codes.get(c, c) != codes[cn]: rep.viol("back:%s:%s" % (en, cn), loc(r), "%s %s is written as %s, which is read back as %s" % (en, cn, v.decode("latin1"), c))
                rep.sample("%s %s <-> %s" % (en, cn, v.decode("latin1")))
            g = Engine(p, Client(), models.models)
            lits = literals(p, r, lambda u: g.gstring(u, 0))
            longn = {}
            nm = one(p, "InClass::asName", lambda t: "Lang" in t) if en == "InClass::Lang" else None
            if nm is not None:
                for cn, cv in codes.items():
                    rep.ob("obligation_long_name"); v = name_of(nm, cv)
                    if v is None: rep.ob("undecided"); continue
                    if v in longn and v: rep.viol("samelong:" + cn, loc(nm), "languages %s and %s share the name %s" % (longn[v], cn, v.decode("latin1")))
                    longn[v] = cn; c = code_of(S(v))
                    if c is None: rep.ob("undecided")
                    elif codes.get(c, c) != cv: rep.viol("backlong:" + cn, loc(r), "language %s is named %s, which is read back as %s" % (cn, v.decode("latin1"), c))
            inv = {v: k for k, v in names.items()}
            for l in sorted(lits):
                if not l: continue
                rep.ob("obligation_literal"); c = code_of(S(l))
                if c is None: rep.ob("undecided"); continue
                if c == DEFAULT[en] or l in longn: continue
                if inv.get(l) != c: rep.viol("alias:%s:%s" % (en, l.decode("latin1")), loc(r), "the text %s names no %s but is read as %s" % (l.decode("latin1"), en, c))
            rep.ob("obligation_unknown_text"); c = code_of(Conv.opq)
            if c is None: rep.ob("undecided")
            elif c != DEFAULT[en]: rep.viol("unknown:" + en, loc(r), "a text that names no %s is read as %s" % (en, c))
        # numbers to codes
        if rd is not None:
            ii = one(p, en.split("::")[0] + "::asType", lambda t: t in ("int", "int const")) if en != "InClass::Lang" else None
            if ii is not None:
                for cn, cv in codes.items():
                    rep.ob("obligation_number"); o, e = run_with(p, rep, ii, lambda e, st, pt: I(cv & 0xffffffff, 32))
                    if len(o) == 1 and o[0] is not None and o[0].op == "i":
                        if signed(o[0]) != cv: rep.viol("number:%s:%s" % (en, cn), loc(ii), "number %d of %s is converted to %s" % (cv, cn, byval.get(o[0].n & 0xffffffff, o[0].n)))
                    else: rep.ob("undecided")
                used = {v for v in codes.values()}
                for n in [n for n in range(-3, 105) if n not in used]:
                    rep.ob("obligation_number"); o, e = run_with(p, rep, ii, lambda e, st, pt: I(n & 0xffffffff, 32))
                    if len(o) == 1 and o[0] is not None and o[0].op == "i" and signed(o[0]) != codes["BADTOKEN"]: rep.viol("nonumber:%s:%d" % (en, n), loc(ii), "number %d, which is no %s, is converted to %s" % (n, en, byval.get(o[0].n & 0xffffffff, o[0].n)))
        # sets
        if en in LISTS: lists(p, rep, en, codes, names, w)

def lists(p, rep, en, codes, names, w):
    rs = one(p, LISTS[en], isstr); ws = next((f for f in p.fn("InClass::asString", 1, all=True) if f.params and f.params[0].startswith("std::set") and "set<" + en in (f.args[-1]["di"] or "")), None)
    if rs is None or ws is None: rep.viol("anchor:lists:" + en, "src/inclass.cpp", "no set conversion for " + en); return
    cs = [I(codes[c] & 0xffffffff, 32) for c in names]; inv = {I(codes[c] & 0xffffffff, 32): names[c] for c in names}
    sel = cs[:4] + cs[-1:]
    import itertools
    for n in list(range(0, 5 if len(cs) <= 5 else 4)) + [len(cs)]:
        for ls in itertools.combinations(sel if n < len(cs) else cs, n):
            rep.ob("obligation_set_written")
            o, e = run_with(p, rep, ws, lambda e, st, pt: e.set_content(st, pt, mk("seq", ls)))
            if len(o) != 1 or o[0] is None or o[0].op != "s": rep.ob("undecided"); continue
            if sorted(o[0].n.split(b",")) != sorted(inv[c] for c in ls) and (n or o[0].n): rep.viol("setwrite:%s" % en, loc(ws), "a set of %d %s codes is not written as the comma-separated list of its members (%r)" % (n, en, o[0].n.decode("latin1")))
            for sep in (b",", b" , "):
                rep.ob("obligation_set_read")
                t = (b" " if sep != b"," and ls else b"") + sep.join(inv[c] for c in ls)
                r, e = run_with(p, rep, rs, lambda e, st, pt: e.set_content(st, pt, S(t)))
                if len(r) != 1 or r[0] is None or r[0].op != "seq" or any(x.op != "i" for x in r[0].a[0]): rep.ob("undecided"); continue
                if {x.n & 0xffffffff for x in r[0].a[0]} != {c.n for c in ls}: rep.viol("setread:%s" % en, loc(rs), "the list %r is read as a set of other codes" % t.decode("latin1"))
    bad = codes.get("BADTOKEN")
    for t, want in ((b"NOSUCHNAME", [bad] if bad is not None else []), (inv[sel[0]] + b",,", [sel[0].n]), (b"," + inv[sel[1]], [sel[1].n])):
        rep.ob("obligation_set_read")
        r, e = run_with(p, rep, rs, lambda e, st, pt: e.set_content(st, pt, S(t)))
        if len(r) != 1 or r[0] is None or r[0].op != "seq" or any(x.op != "i" for x in r[0].a[0]): rep.ob("undecided"); continue
        if {x.n & 0xffffffff for x in r[0].a[0]} != {x & 0xffffffff for x in want}: rep.viol("setread:%s:odd" % en, loc(rs), "the list %r is read as a set of other codes" % t.decode("latin1"))

def literals(p, f, gstr, seen=None):
    seen = seen if seen is not None else set(); r = set()
    if f.name in seen: return r
    seen.add(f.name)
    for b in f.blocks:
        for i in b:
            for u in glob(i):
                if u in p.funcs:
                    if (p.funcs[u].file or "") == f.file: r |= literals(p, p.funcs[u], gstr, seen)
                else: 
                    s = gstr(u)
                    if s is not None: r.add(s)
    return r
def glob(x):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "g" and isinstance(x[1], str): yield x[1]; return
        for y in x: yield from glob(y)
    elif isinstance(x, dict):
        for y in x.values(): yield from glob(y)
