"""No state survives a call: global variables, hidden process state, caller-visible inputs, members of long-lived engine objects."""
from common import *
import effects, re

STATEFUL = {"rand", "srand", "random", "srandom", "rand_r", "drand48", "lrand48", "time", "clock", "gettimeofday", "clock_gettime", "getenv", "secure_getenv", "setenv", "unsetenv", "putenv",
            "setlocale", "uselocale", "strtok", "localtime", "gmtime", "ctime", "asctime", "tmpnam", "getpid", "gettid", "std::locale::global", "std::random_device::operator()",
            "std::chrono::system_clock::now", "std::chrono::steady_clock::now", "std::chrono::_V2::system_clock::now", "std::chrono::_V2::steady_clock::now", "std::this_thread::get_id", "std::rand", "std::srand", "std::time", "std::getenv"}
ICU = re.compile(r"^icu_\d+::(Locale::setDefault|Calendar::getNow|TimeZone::)")
WATCH = ("Lexicon", "Grammar", "Search", "Tokenizer", "LexEntry", "MetaSection", "RuleSection", "MetaRule", "Rule", "SectionPtr")
def isw(di): return re.search(r"\b(%s)\b" % "|".join(WATCH), di or "")

def run(p, rep):
    rep.rule = ("every store, library call and repository call is attributed by a whole-program fixpoint to the parameters and global variables it may change: no function may change a variable that outlives the call (the SQL layer's cache table, a per-backend structure covered by C12, excepted), initialise a static from its arguments, or call functions whose answer depends on the process's history; "
                "every entry that is handed a ready lexicon or grammar is interpreted with these opaque: on every path their members except the three pattern caches must be left as they were; the search object's and tokenizer's own members must not feed a later call with what an earlier one wrote")
    ef = effects.Effects(p)
    callers = {}
    for f in p.funcs.values():
        for b in f.blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and i["f"][0] == "g": callers.setdefault(i["f"][1], set()).add(f.name)
    roots = [f.name for f in p.funcs.values() if (f.file or "").startswith("src/") and not f.name.startswith(("__cxx_global", "_GLOBAL__"))]
    lone = lambda n: not (callers.get(n, set()) - {n}) 
    for n in sorted(roots):
        f = p.funcs[n]; rep.ob("obligation_function_writes_no_global")
        for r, (i, what) in ef.writes[n].items():
            if r[0] != "g": continue
            g = p.globals.get(r[1], {})
            if g.get("const") or not g.get("def") or not (g.get("file") or "").startswith("src/") or r[1].startswith(("_ZGV", ".str")): continue
            if (g.get("di") or "").replace(" ", "") == "HTAB*": rep.ob("cache_table_accesses"); continue
            if f.q.startswith("Utils::") and unreachable(p, callers, n): rep.ob("exempt_utility_never_called"); continue
            rep.viol("global:%s:%s" % (g.get("name") or g.get("dem"), f.q), loc(f, i), "%s, which outlives the call, %s" % (g.get("dem"), what))
        for gname, i in ef.init.get(n, {}).items():
            rep.ob("guarded_initialisations")
            if tainted(f, ef.regions[n], gname, p): rep.viol("init:%s:%s" % (gname, f.q), loc(f, i), "static %s is initialised from what the first call was given" % (p.globals[gname].get("name") or gname))
        for b in f.blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and i["f"][0] == "g":
                    rep.ob("obligation_call_site_stateless"); g = i["f"][1]
                    if g in p.funcs: continue
                    d = p.dem(g); q = split_dem(d)[0] if d != g else g
                    q = re.sub(r"\[abi:\w+\]", "", q)
                    if q in STATEFUL or ICU.match(q): rep.viol("hidden:%s:%s" % (q, f.q), loc(f, i), "%s depends on or changes state of the process" % q)
    inputs(p, rep, ef); members(p, rep, ef)

def unreachable(p, callers, n):
    seen = set(); st = [n]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if not p.funcs[x].q.startswith("Utils::"): return False
        st += [c for c in callers.get(x, ()) if c in p.funcs]
    return True

def tainted(f, region, gname, p):
    """does the initialisation of a static depend on parameters?"""
    t = set(k for k in range(len(f.args)))
    slots = set(); base = {}
    def has(v):
        if not v or not isinstance(v, list): return False
        if v[0] == "r": return v[1] in t or base.get(v[1]) in slots
        if v[0] == "gep": return has(v[1][0])
        return False
    mine = [g for g in p.globals if g == "_ZGV" + gname[2:]]
    for _ in range(4):
        for b in f.blocks:
            for i in b:
                ops = i.get("a", []) + ([i["gep"][0]] if "gep" in i else []) + ([v for _, v in i["in"]] if i["op"] == "phi" else [])
                if i["op"] == "alloca": base[i["r"]] = i["r"]
                elif i["op"] == "getelementptr" and i["gep"][0] and i["gep"][0][0] == "r" and i["gep"][0][1] in base: base[i["r"]] = base[i["gep"][0][1]]
                if any(has(v) for v in ops):
                    if "r" in i: t.add(i["r"])
                    if i["op"] == "store" and i["a"][1][0] == "r" and i["a"][1][1] in base: slots.add(base[i["a"][1][1]])
                    if i["op"] in ("call", "invoke") and i["a"] and i["a"][0] and i["a"][0][0] == "r" and i["a"][0][1] in base and not i["f"][1:] == ["llvm"]: slots.add(base[i["a"][0][1]])
    for b in f.blocks:
        for i in b:
            if id(i) in region and any(has(v) for v in i.get("a", [])): return True
    return False

def relevant(ef, fn):
    """may this function change, or hand out access to, an object of the watched classes it is given?"""
    if any(r[0] == "p" for r in ef.rets[fn.name]): return True
    return any(r[0] == "p" and r[1] < len(fn.args) and fn.args[r[1]]["name"] != "agg.result" and isw(fn.args[r[1]].get("di")) for r in ef.writes[fn.name])

class In(Client):
    def __init__(self, ef, watch): self.ef = ef; self.watch = watch; self.w = {}; self.looked = set()
    def inline(self, fn): return relevant(self.ef, fn)
    def call(self, eng, st, info):
        m = info.q.split("::")[-1]
        if info.q.startswith(("std::map::", "std::unordered_map::")) and m in ("find", "count", "contains", "at") and len(info.args) > 1:
            for x in alts(info.args[0]):
                if x.op == "p": self.looked.add((x, models.keyval(eng, st, info.args[1]), info.fn.name))
        if info.q in ("std::map::operator[]", "std::unordered_map::operator[]"):
            # looking up with operator[] adds the key unless it is known to be there
            th = info.args[0]
            for x in alts(th):
                if x.op != "p": continue
                r = root(x.a[0], x.a[1])
                if r and r[0] in self.watch:
                    c = eng.get_content(st, x); h = models.hask(eng, st, c, models.keyval(eng, st, info.args[1]))
                    if (x, models.keyval(eng, st, info.args[1]), info.fn.name) in self.looked: continue
                    if not (h.op == "i" and h.n): self.w.setdefault(r, (x.a[0], x.a[1], mk("added", c), info.fn, info.inst))
        return None
    def store(self, eng, st, obj, off, v, inst, fn):
        r = root(obj, off)
        if r and r[0] in self.watch:
            self.w.setdefault(r, (obj, off, v, fn, inst))
            if self.fatal(r, *self.w[r]): raise Found()

class Found(Exception): pass

def root(obj, off):
    """(parameter, offset of its member) an object is reached from, or None"""
    while True:
        if obj[0] == "P": return obj[1], off if isinstance(off, int) else off[1] if isinstance(off, tuple) and len(off) > 1 else None
        if obj[0] == "E": obj, off = obj[1]; continue
        if obj[0] == "X":
            t = obj[1]; l = [x for x in subterms(t) if x.op == "ld" and isinstance(x.a[0], tuple) and x.a[0][0] == "P"]
            if t.op == "ld" and isinstance(t.a[0], tuple): obj, off = t.a[0], t.a[1]; continue
            return None
        return None

def inputs(p, rep, ef):
    L, G = p.types.get("Lexicon"), p.types.get("Grammar")
    fs = []
    ent = c_entries(p)
    for n, f in ent.items():
        if "free" in n.lower(): continue
        if any((isw(a.get("di")) and "*" in (a.get("di") or "")) or (a.get("di") or "").replace(" ", "") == "void*" for a in f.args): fs.append(f)
    for f in p.funcs.values():
        if f.name not in ent and f.file in wrapper_file(p) and f.name and "::" not in f.q and any(re.match(r"^(Lexicon|Grammar) ?[&*]$", a.get("di") or "") for a in f.args) and sum(1 for a in f.args if (a.get("di") or "").replace(" ", "") == "char*") >= 1: fs.append(f)
    for f in fs:
        w = {}
        for a in f.args:
            di = (a.get("di") or "").replace(" ", "")
            if re.match(r"^(const)?(Lexicon|Grammar)[&*]$", di): w[a["name"]] = di.strip("&*").replace("const", "")
            elif a["ty"] == "ptr" and di in ("char*", "constchar*"): w[a["name"]] = "text"
            elif di in ("void*", "constvoid*"): w[a["name"]] = "Lexicon" if "lex" in a["name"].lower() else "Grammar"
        c = In(ef, w); e = Engine(p, c, models.models); e.effects = ef
        def cache(r):
            m = [x["name"] for x in L["members"] if x.get("name") and x["off"] <= r[1] < x["off"] + x["size"]] if L and w[r[0]] == "Lexicon" and r[1] is not None else []
            return bool(m) and m[0] in ("regex_", "regexPrefix_", "regexSuffix_")
        c.fatal = lambda r, obj, o, v, fn, inst: not cache(r) and not (v.op == "ld" and v.a == (obj, o))
        try: xs = e.run(f, params(f), State())
        except Found: pass
        rep.eng(e)
        rep.ob("obligation_entry_keeps_inputs"); rep.sample("%s: inputs %s left as they were" % (f.name if f.name in ent else f.q, ", ".join(sorted(w))))
        for (n, off), (obj, o, v, fn, inst) in c.w.items():
            rep.ob("input_writes_examined")
            if not c.fatal((n, off), obj, o, v, fn, inst): continue
            fld = p.fieldname(w[n], off) if w[n] in ("Lexicon", "Grammar") and off is not None else None
            rep.viol("input:%s:%s:%s" % (f.q, n, fld or off), loc(fn, inst) if fn else loc(f), "%s changes its input %s%s" % (f.q, n, " (member %s)" % fld if fld else ""))

class Own(Client):
    """members of `this` that are read in the state an earlier call left, and members that are written"""
    def __init__(self, ef): self.ef = ef; self.r = {}; self.w = {}
    def inline(self, fn): return relevant(self.ef, fn)
    def load(self, eng, st, obj, off, v, ins, fn):
        if obj == ("P", "this") and isinstance(off, int) and v.op == "ld" and v.a == (obj, off): self.r.setdefault(off, (fn, ins))
        return None
    def store(self, eng, st, obj, off, v, inst, fn):
        r = root(obj, off)
        if r and r[0] == "this": self.w.setdefault(r[1], []).append((obj, off, v, fn, inst))

def members(p, rep, ef):
    for cls, names in (("Search", None), ("Tokenizer", ("getTokens", "getAltTokens", "splitToken", "applyFilter", "split"))):
        fs = [f for f in p.funcs.values() if f.q.startswith(cls + "::") and f.args and (f.args[0]["name"] == "this" or len(f.args) > 1 and f.args[1]["name"] == "this")
              and not f.const and not f.q.split("::")[-1].startswith(("~", cls, "operator")) and (names is None or f.q.split("::")[-1].split("[")[0] in names)]
        t = p.types.get(cls)
        for f in sorted(fs, key=lambda f: f.name):
            rep.ob("obligation_method_carries_nothing")
            c = Own(ef); e = Engine(p, c, models.models); e.effects = ef
            xs = e.run(f, params(f), State()); rep.eng(e)
            for off, ws in c.w.items():
                fld = p.fieldname(cls, off) or off
                for obj, o, v, fn, inst in ws:
                    own = contains(v, lambda x: x.op == "ld" and isinstance(x.a[0], tuple) and root(x.a[0], x.a[1]) == ("this", off))
                    if own and not (v.op == "ld" and v.a == (obj, o)) or off in c.r:
                        if cls == "Tokenizer" and off == 0: continue      # the lexicon: covered above
                        rep.viol("member:%s:%s" % (f.q, fld), loc(fn, inst) if fn else loc(f), "%s changes member %s, which it also reads in the state the previous call left" % (f.q, fld))
