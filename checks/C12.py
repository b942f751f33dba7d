"""The per-query cache only hands out the standardizer that belongs to the texts of the call."""
from sim import *
CALLS = 10

class C12(Sim):
    def key(self, st):
        eqs = frozenset((k.id, v.n) for k, v in st.facts.items() if k.op == "eq" and v is TRUE and istext(k))
        return (Sim.key(self, st), eqs)
_it = {}
def istext(k):
    r = _it.get(k)
    if r is None: r = _it[k] = istext0(k)
    return r
def istext0(k): return contains(k, lambda t: t.op == "ret" and t.a[0] == "getMd5" or (t.op == "ld" and isinstance(t.a[0], tuple) and t.a[0][0] == "P" and t.a[0][1][:1] in "LG" and t.a[0][1][1:].isdigit()))

def sources_of(t):
    """texts (L1, G2 ...) an equality side stands for as a whole: the text itself, its checksum, or a combination of such"""
    if t.op == "ld" and isinstance(t.a[0], tuple) and t.a[0][0] == "P" and t.a[0][1][:1] in ("L", "G") and t.a[0][1][1:].isdigit(): return {t.a[0][1]}
    if t.op == "substr": return sources_of(t.a[0]) if len(t.a) > 2 and t.a[1].op == "i" and t.a[1].n == 0 and t.a[2].op == "i" and t.a[2].n >= 32 else set()
    if t.op in ("ret", "cat", "text", "cstr") and (t.op != "ret" or t.a[0] in ("getMd5", "psprintf", "getLexiconMd5", "getGrammarMd5")):
        r = set()
        for x in t.a:
            for y in (x if isinstance(x, tuple) else (x,)):
                if isinstance(y, T): r |= sources_of(y)
        return r
    return set()
def same(st, x, y):
    """is it established on this path that the texts x and y have the same checksum"""
    if x == y: return True
    cls = {x}
    ch = True
    while ch:
        ch = False
        for k, v in st.facts.items():
            if k.op == "eq" and v is TRUE:
                a, b = sources_of(k.a[0]), sources_of(k.a[1])
                for p, q in ((a, b), (b, a)):
                    hits = {s for s in p if s in cls}
                    if hits:
                        for s in q:
                            if s[0] == x[0] and s not in cls: cls.add(s); ch = True
    return y in cls

def cache_cells(st, cobj): return {k: v for k, v in st.mem.items() if k[0] == cobj and k[1] != "R"}
def argname(t):
    for u in subterms(t):
        if u.op == "ld" and isinstance(u.a[0], tuple) and u.a[0][0] == "P" and u.a[0][1][1:].isdigit(): return u.a[0][1]
    return None

def run(p, rep):
    rep.rule = ("the cache entry point is interpreted over a whole history of calls with pairwise unrelated texts, starting without a cache, with the memory contexts, reset callbacks and the backend hash simulated; "
                "after every call: the standardizer returned holds the lexicon and the grammar whose texts are equal to, or on this path compared equal by checksum with, those of the call and is not released; "
                "standardizers that leave the cache are released, those that stay are not; a rejected text leaves every cell of the cache unchanged. The history is continued past the point where every slot was reused")
    f = p.funcs.get("GetStdUsingFCInfo"); T = p.types.get("STANDARDIZER"); FI = "FmgrInfo"
    if f is None or T is None: rep.viol("anchor", "src/std_pg_hash.c", "GetStdUsingFCInfo not found"); return
    lo, go = p.field("STANDARDIZER", "lex_obj"), p.field("STANDARDIZER", "gmr_obj")
    xo, mo = p.field(FI, "fn_extra"), p.field(FI, "fn_mcxt")
    fli = p.field("FunctionCallInfoBaseData", "flinfo")
    FC = ("P", "fcinfo"); FL = ("P", "flinfo"); MC = mk("ld", FL, mo)
    st = State()
    st.mem[(FC, fli)] = P(FL, 0); st.mem[(FL, xo)] = NULL
    st.flags["freed"] = frozenset(); st.flags["live"] = frozenset(); st.flags["hash"] = frozenset(); st.flags["cbs"] = frozenset()
    states = [st]; rep.assumptions.append("memory exhaustion aside; the call information block is the one PostgreSQL keeps for one call site of one query")
    seen_msgs = set()
    for n in range(1, CALLS + 1):
        nxt = []
        for st0 in states[:6]:
            s = st0.copy()
            s.flags = dict(s.flags); s.flags["calls"] = ()
            s.facts = {k: v for k, v in s.facts.items() if not istext(k)}; s.ne = {k: v for k, v in s.ne.items() if not istext(k)}
            L, G = "L%d" % n, "G%d" % n
            c = C12(p, rep); e = Engine(p, c, models.models)
            before = s.copy()
            cob = pobjof(before, (FL, xo))
            ex = e.run(f, [P(FC, 0), P(("P", L), 0), P(("P", G), 0)], s, ctx=("call%d" % n,)); rep.eng(e)
            for key, fn, ins, what in c.bad: rep.viol("%s:%s" % (fn.q, key), loc(fn, ins), what)
            for x in ex:
                calls = [(t[0], r) for t, r, _ in x.st.flags.get("calls", ())]
                failed = any(r == "null" for _, r in calls)
                where = loc(*x.where)
                if x.kind == "noret":
                    if failed:
                        rep.ob("obligation_failed_load_keeps_cache")
                        if cob:
                            a, b = cache_cells(before, cob), cache_cells(x.st, cob)
                            if {k: v for k, v in a.items()} != {k: v for k, v in b.items()}: rep.viol("failed:changed", where, "a rejected lexicon or grammar leaves the cache changed")
                            for o in objs_in(x.st, cob):
                                if c.is_freed(x.st, o) and not c.is_freed(before, o): rep.viol("failed:freed", where, "a rejected lexicon or grammar releases a standardizer that is still in the cache")
                        elif pobjof(x.st, (FL, xo)):
                            for o in objs_in(x.st, pobjof(x.st, (FL, xo))):
                                rep.viol("failed:stored", where, "a standardizer is in the cache although its lexicon or grammar was rejected")
                    continue
                if x.kind != "ret": continue
                rep.ob("obligation_call_outcome")
                if failed: rep.viol("failed:returns", where, "a call with a rejected lexicon or grammar returns instead of raising an error")
                nob = pobjof(x.st, (FL, xo))
                if not nob: rep.viol("nocache", where, "the cache is not kept with the call site's call information"); continue
                if n == 1 and nob[0] == "H" and len(nob) > 3 and nob[3] is not MC: rep.viol("cachectx", where, "the cache is allocated in %s instead of the memory that lives as long as the call site" % show(nob[3]))
                if nob[0] == "H" and c.is_freed(x.st, nob): rep.viol("cachefreed", where, "the cache itself has been released")
                for q in alts(x.val if x.val is not None else TOP):
                    if q.op != "p" or q.a[0][0] != "H":
                        if q is NULL: rep.viol("null", where, "no standardizer is handed out although its texts were accepted")
                        elif q is UNDEF: rep.viol("unset", where, "an unset standardizer is handed out")
                        else: rep.ob("undecided")
                        continue
                    o = q.a[0]
                    rep.ob("obligation_handed_out")
                    if c.is_freed(x.st, o): rep.viol("freed", where, "the standardizer handed out has been released")
                    for off, entry, txt, what in ((lo, "getLexiconPtr", L, "lexicon"), (go, "getGrammarPtr", G, "grammar")):
                        v = e.read(x.st, o, off)
                        for w in alts(v):
                            if w.op == "p" and w.a[0][0] == "ENG":
                                if w.a[0][1] != entry: rep.viol("kind:" + what, where, "the %s of the standardizer handed out was built by %s" % (what, w.a[0][1])); continue
                                src = argname(w.a[0][3][0]) if w.a[0][3] else None
                                if src is None: rep.ob("undecided"); continue
                                if not same(x.st, src, txt):
                                    rep.viol("wrong:" + what, where, "call %d can be handed a standardizer whose %s is that of another call, without their checksums having been found equal" % (n, what))
                                if c.is_freed(x.st, w.a[0]): rep.viol("freed:" + what, where, "the %s of the standardizer handed out has been released" % what)
                            elif w is NULL or (w.op == "i" and w.n == 0): rep.viol("missing:" + what, where, "the standardizer handed out has no %s" % what)
                            else: rep.ob("undecided")
                    rep.sample("call %d: %s -> %s" % (n, "built" if any(t == "getLexiconPtr" for t, _ in calls) else "reused", show(mk("v", *[e.read(x.st, o, k) for k in (lo, go)]))[:100]))
                # what left the cache is released, what stayed is not
                was = objs_in(before, cob) if cob else set(); now = objs_in(x.st, nob)
                built = any(t == "getLexiconPtr" for t, _ in calls)
                for o in was - now:
                    rep.ob("obligation_slot_emptied")
                    if not c.is_freed(x.st, o): rep.viol("reuse", where, "a slot of the cache is overwritten without releasing the standardizer it held")
                for o in now:
                    rep.ob("obligation_cached_alive")
                    if c.is_freed(x.st, o): rep.viol("stale", where, "a standardizer that has been released stays in the cache")
                if not built and cob and changed(before, x.st, cob): rep.ob("cache_changed_on_hit")
                t = x.st.copy()
                for k in [k for k in t.mem if k[0][0] == "A"]: del t.mem[k]
                # the same texts again must find the new entry
                if built: again(p, rep, f, t, n, L, G, FC)
                sg = sig(t, nob, p)
                if (n, sg) not in seen_msgs:
                    seen_msgs.add((n, sg)); (nxt if built else []).append(t)
        states = nxt
        if not states: break
        rep.ob("history_length")
    if rep.counts.get("history_length", 0) < CALLS: rep.ob("undecided")

def again(p, rep, f, t, n, L, G, FC):
    """the same texts once more: found, not built again"""
    s = t.copy(); s.flags = dict(s.flags); s.flags["calls"] = ()
    c = C12(p, rep); e = Engine(p, c, models.models)
    for x in e.run(f, [P(FC, 0), P(("P", L), 0), P(("P", G), 0)], s, ctx=("again%d" % n,)):
        if x.kind != "ret": continue
        rep.ob("obligation_found_again")
        if any(tg[0] == "getLexiconPtr" for tg, _, _ in x.st.flags.get("calls", ())):
            rep.viol("rebuild", loc(f), "a standardizer just stored is not found again by the same texts: it was not stored with their checksums")

def pobjof(st, cell):
    v = st.mem.get(cell)
    return v.a[0] if v is not None and v.op == "p" else None
def changed(a, b, cob): return cache_cells(a, cob) != cache_cells(b, cob)
def objs_in(st, cob):
    """standardizers (native records) the cache points to"""
    r = set()
    for (o, k), v in st.mem.items():
        if o == cob and k != "R":
            for q in alts(v):
                if q.op == "p" and q.a[0][0] == "H" and q.a[0][2] in ("calloc", "malloc") and len(q.a[0]) == 3: r.add(q.a[0])
    return r
def sig(st, cob, p):
    return frozenset((k[1] if isinstance(k[1], int) else str(k[1]), show(v)) for k, v in cache_cells(st, cob).items())
