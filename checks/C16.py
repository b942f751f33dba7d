"""References of a loaded grammar designate the section of their name, of the right kind, and stay valid.

Grammars over the line kinds of the format are propagated as constants through the loader. Afterwards each reference's two
pointers are read back: exactly the one of the right kind is set, to the section of that name inside this grammar. While
loading, no operation that may relocate or reorder the sections follows the first stored pointer."""
from docs import *
import C34

GROW = {"push_back", "emplace_back", "insert", "emplace", "erase", "resize", "reserve", "clear", "operator=", "swap", "pop_back", "shrink_to_fit", "assign"}

class Watch(Doc):
    """notes changes of the section containers after a section pointer was stored"""
    def __init__(self, offs, this=("P", "this")): Doc.__init__(self); self.offs = offs; self.this = this; self.stored = False; self.late = []
    def store(self, eng, st, obj, off, v, inst, fn):
        if v is not None and v.op == "p" and v.a[0][0] == "E" and v.a[0][1][0] == self.this and v.a[0][1][1] in self.offs and obj[0] == "E" and fn is not None: self.stored = True
    def call(self, eng, st, info):
        q = info.q
        if self.stored and q.startswith("std::vector::") and q.split("::")[-1] in GROW and info.args and info.args[0].op == "p" and info.args[0].a[0] == self.this and info.args[0].a[1] in self.offs:
            self.late.append((info.fn.name, info.inst.get("id"), q))
        if self.stored and q in models.REORDER and any(x.op == "it" and x.a[0].op == "p" and x.a[0].a[0] == self.this and x.a[0].a[1] in self.offs for x in info.args):
            self.late.append((info.fn.name, info.inst.get("id"), q))
        return Doc.call(self, eng, st, info)

def check(p, e, st):
    """[problem] of the references, number of references"""
    this = ("P", "this"); F = lambda t, f: C34.field(p, t, f)
    mo, ro = F("Grammar", "metas_"), F("Grammar", "rules_")
    names = {"meta": [val(e, st, s, F("MetaSection", "name_")) for s in elems(e, st, this, mo)], "rule": [val(e, st, s, F("RuleSection", "name_")) for s in elems(e, st, this, ro)]}
    bad = []; n = 0
    for s in elems(e, st, this, mo):
        where = val(e, st, s, F("MetaSection", "name_"))
        for r in elems(e, st, s, F("MetaSection", "rules_")):
            for x in elems(e, st, r, F("MetaRule", "refs_")):
                w = val(e, st, x, F("SectionPtr", "name_")); n += 1
                for kind, f, cont in (("meta", "mptr_", mo), ("rule", "rptr_", ro)):
                    v = e.facted(st, e.read(st, x, F("SectionPtr", f)))
                    want = w in names[kind]
                    if v is NULL or v.op == "i" and v.n == 0: got = None
                    elif v.op == "p" and v.a[1] == 0 and v.a[0][0] == "E" and v.a[0][1] == (this, cont) and v.a[0][2].op == "i": got = names[kind][v.a[0][2].n] if v.a[0][2].n < len(names[kind]) else "no section"
                    elif v.op == "p" and v.a[0][0] == "E" and v.a[0][1] in ((this, mo), (this, ro)): got = "a section of the other kind"
                    elif v.op == "p" and v.a[0][0] in ("A", "H") or v.op == "p" and v.a[0][0] == "E" and v.a[0][1][0] != this: got = "an object outside the grammar"
                    elif v is UNDEF: got = "an unset pointer"
                    else: raise Unknown(str(v)[:200])
                    if got != (w if want else None): bad.append("the reference to %s in [%s] has %s as its %s section" % (w, where, got or "nothing", kind))
    return bad, n

def run(p, rep):
    rep.rule = "after loading, exactly the pointer of the right kind is set in every reference, to the section of its name inside the grammar; no section container changes after the first pointer is stored; nothing but the loader changes the section containers"
    rep.assumptions = ["boost::u32regex follows Perl syntax on printable ASCII", "stream, string, vector, map models of engine/models.py and checks/text.py"]
    f = ctor(p, "Grammar")
    G, L = C34.words(rep.tier == "thorough")
    jobs = [w for w in G if f]
    offs = None
    try: offs = {C34.field(p, "Grammar", "metas_"), C34.field(p, "Grammar", "rules_")}
    except Unknown: pass
    def go(w):
        c = Watch(offs)
        e, xs = load(p, f, b"\n".join(C34.KINDS[k] for k in w) + b"\n", c)
        bad = []; n = m = 0; und = False
        for x in xs:
            if x.kind != "ret": continue
            try: b, k = check(p, e, x.st)
            except Unknown as u:
                if os.environ.get("AS_DEBUG"): print(w, u)
                und = True; continue
            m += 1; n += k
            if b: bad.append(b)
        if und or bad and len(bad) != m: return None
        return (bad or [[]])[0], n, c.late if m == 1 else [], sorted(e.analysed), e.steps
    fns = set(); k = 0
    out = parallel(jobs, go) if offs else []
    for w, r in zip(jobs, out):
        if r is None: rep.ob("undecided"); continue
        bad, n, late, an, steps = r
        fns.update(an); rep.ob("abstract_steps", steps); rep.ob("grammars"); rep.ob("obligation_references", 2 * n); k += 1
        if k % 150 == 1: rep.sample("grammar %s: %d references designate the section of their name" % (w, n))
        lines = " | ".join(C34.KINDS[c].decode() for c in w)
        for b in bad[:1]: rep.viol("reference:" + ("kind" if "nothing" not in b else "unset") , loc(f), "%s; lines: %s" % (b, lines))
        for fn, i, q in late[:1]:
            g = p.funcs[fn]; ins = next((x for b in g.blocks for x in b["ins"] if x.get("id") == i), None) if isinstance(g.blocks[0], dict) else next((x for b in g.blocks for x in b if x.get("id") == i), None)
            rep.viol("moved:" + g.q, loc(g, ins), "%s changes the sections after references to them were stored; lines: %s" % (q, lines))
    rep.functions |= {p.funcs[n].dem for n in fns if n in p.funcs}
