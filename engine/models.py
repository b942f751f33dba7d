"""Library models for the abstract interpreter (std::, __cxa_*, libc, boost, PostgreSQL).

A model returns None (not modelled), False (no result), a term (the result) or a
list of outcomes (kind, state, value) with kind in ret/throw/noret."""
from absint import *

EMPTY = S(b"")
VEMPTY = mk("seq", ())

def site(info):
    return (info.fn.name, info.inst["id"])

def sret(info):
    """(result slot or None, remaining args)"""
    if info.inst.get("sret"): return info.args[0], info.args[1:]
    return None, info.args

def give(eng, st, info, v):
    """deliver class-valued result v (content term)"""
    s, _ = sret(info)
    if s is not None:
        eng.set_content(st, s, v); return False
    return v

def pushed(eng, st, info, c, e):
    """content term after appending element e to a sequence"""
    if c.op == "seq":
        if len(c.a[0]) < 64: return mk("seq", c.a[0] + (e,))
        return mk("bag", c, frozenset([e]))
    if c.op == "bag":
        drop_facts(st, c)
        return mk("bag", c.a[0], c.a[1] | {e})
    if c.op == "J":
        r = None
        for x in c.a[0]: r = join(r, pushed(eng, st, info, x, e))
        return r
    if c is TOP: return TOP
    return mk("bag", c, frozenset([e]))

def appended(st, c, t):
    if c.op == "bag":
        if t is EMPTY: return c
        drop_facts(st, c)
        return mk("bag", c.a[0], c.a[1] | frozenset(t.a[0] if t.op == "cat" else (t,)))
    if c.op == "J":
        r = None
        for x in c.a[0]: r = join(r, appended(st, x, t))
        return r
    if t.op == "J" and len(t.a[0]) * 1 <= 6:
        r = None
        for x in t.a[0]: r = join(r, appended(st, c, x))
        return r
    return cat((c, t))

def drop_facts(st, t):
    for d in (st.facts, st.ne):
        for k in [k for k in d if has(k, t)]: del d[k]

def has(k, t):
    return contains(k, lambda x: x is t)

def chr_term(v):
    if v.op == "i": return S(bytes([v.n & 255]))
    if v.op == "J":
        r = None
        for x in v.a[0]: r = join(r, chr_term(x))
        return r
    return mk("chr", v) if v is not TOP else TOP

def length(eng, st, c):
    c = eng.facted(st, c)
    if c.op == "s": return I(len(c.n))
    if c.op == "seq": return I(len(c.a[0]))
    if c.op == "vecn": return c.a[0]
    if c.op == "J":
        r = None
        for x in c.a[0]: r = join(r, length(eng, st, x))
        return r
    if c is TOP or c is UNDEF: return TOP
    return mk("len", c)

def elem(eng, p, idx):
    """pointer to element idx of the container at p"""
    r = None
    for q in alts(p):
        if q.op == "p": n = P(("E", (q.a[0], q.a[1]), idx), 0)
        elif q is TOP or q is UNDEF: n = TOP
        else: n = P(("E", (("X", q), 0), idx), 0)
        r = join(r, n)
    return r

def keyval(eng, st, p):
    """value of a map/set key passed by reference"""
    return eng.snapshot(st, p)

MAPOFF = {"std::string": 32}
def mapped_off(info):
    ps = info.params
    k = ps[0] if ps else ""
    if "std::string" in k: return 32
    if "char32_t" in k or "char" in k or "int" in k: return 8
    return 8

def it_of(v):
    return v if v.op == "it" else None

# iterators: it(container pointer, index) ; index: 'b'egin / 'e'nd terms or symbolic
BEG = I(0); END = mk("end")
def mkit(cont, idx): return mk("it", cont, idx)

def it_eq(eng, st, a, b):
    if a.op == "J" or b.op == "J":
        r = None
        for x in alts(a):
            for y in alts(b): r = join(r, it_eq(eng, st, x, y))
        return r
    if a.op != "it" or b.op != "it": return eng.cmp_eq(st, a, b) if a.op != "top" and b.op != "top" else TOP
    if a.a[0] is not b.a[0]: return TOP
    x, y = a.a[1], b.a[1]
    if x is y:
        return TRUE
    if x is END: x, y = y, x; a, b = b, a
    c = eng.get_content(st, a.a[0])
    if y is END:
        n = length(eng, st, c)
        if x.op == "found": 
            return eng.bnot(hask(eng, st, c, x.a[0]))
        if x is BEG: return eng.emptyp(st, c)
        if n.op == "i" and x.op == "i": return I(int(n.n == x.n), 1)
        if x.op == "i" or x.op in ("add", "w"): return eng.facted(st, mk("eq", mk("len", c), x)) if n.op != "i" else eng.facted(st, mk("eq", x, n))
        return TOP
    if x.op == "i" and y.op == "i": return I(int(x.n == y.n), 1)
    return TOP

def hask(eng, st, c, k):
    """membership of key k in map/set content c"""
    if c.op == "setc":   # known finite set: base empty + keys
        if k in c.a[0]: return TRUE
        if k.op in ("i", "s") and all(x.op in ("i", "s") for x in c.a[0]): return FALSE
    if c.op == "seq":
        if k in c.a[0]: return TRUE
        if not c.a[0]: return FALSE
        if k.op in ("i", "s") and all(x.op in ("i", "s") for x in c.a[0]): return FALSE
    if c is TOP or k is TOP or c.op == "J": return TOP
    return eng.facted(st, mk("has", c, k))

REORDER = {"std::" + x for x in ("reverse", "sort", "stable_sort", "partial_sort", "nth_element", "rotate", "unique", "remove", "remove_if", "random_shuffle", "shuffle", "swap_ranges", "iter_swap", "partition", "stable_partition", "fill", "replace", "replace_if", "generate", "next_permutation", "prev_permutation", "iota", "for_each", "transform", "copy", "copy_n", "move", "fill_n", "copy_if", "copy_backward", "inplace_merge")}
def reorder(eng, st, info):
    """algorithms that change the elements of the containers their iterators point into"""
    a = info.args; m = info.q[5:]
    its = [x for x in a if x.op == "it"]
    if m == "move" and len(its) < 3: return None
    if m == "reverse" and len(its) == 2 and its[0].a[0] is its[1].a[0] and its[0].a[1] is BEG and its[1].a[1] is END:
        c = eng.snapshot_content(st, its[0].a[0])
        if c.op == "seq": eng.set_content(st, its[0].a[0], mk("seq", c.a[0][::-1])); return False
    if m in ("sort", "stable_sort") and len(a) == 2 and len(its) == 2 and its[0].a[0] is its[1].a[0] and its[0].a[1] is BEG and its[1].a[1] is END:
        c = eng.snapshot_content(st, its[0].a[0])
        if c.op == "seq" and len({x.op for x in c.a[0]}) <= 1 and all(x.op in ("i", "s") for x in c.a[0]):
            eng.set_content(st, its[0].a[0], mk("seq", tuple(sorted(c.a[0], key=lambda x: x.n)))); return False
    tgt = its[2:] if m in ("copy", "copy_if", "copy_backward", "transform") and len(its) > 2 else its
    for x in tgt:
        c = eng.snapshot_content(st, x.a[0])
        eng.set_content(st, x.a[0], mk("mut", info.q, 0, (c,) + tuple(eng.argterm(st, y) for y in a if y.op != "it")) if c is not TOP else TOP)
    return None

def models(eng, st, info):
    q = info.q; a = info.args
    f = TABLE.get(q)
    if f is not None: return f(eng, st, info)
    if info.repo is not None: return None
    if q in REORDER:
        r = reorder(eng, st, info)
        if r is not None: return r
    if q.startswith("std::string::"): return string_method(eng, st, info, q[13:])
    if q.startswith("std::initializer_list::") and q[23:] in ("begin", "end", "size") and a and a[0].op == "p":
        r = ilist(eng, st, info, q[23:])
        if r is not None: return r
    for k in ("std::vector::", "std::set::", "std::map::", "std::deque::", "std::list::", "std::unordered_map::", "std::unordered_set::", "std::array::", "std::stack::"):
        if q.startswith(k): return container(eng, st, info, k[5:-2], q[len(k):])
    if q.startswith("__gnu_cxx::__normal_iterator::") or q.startswith("std::_Rb_tree_const_iterator::") or q.startswith("std::_Rb_tree_iterator::"):
        return iterator(eng, st, info, q.split("::")[-1])
    if q in ("__gnu_cxx::operator!=", "__gnu_cxx::operator==") or (q in ("std::operator!=", "std::operator==") and info.params and "iterator" in info.params[0]):
        x, y = (eng.get_content(st, v) if v.op in ("p", "J") else v for v in a)
        e = it_eq(eng, st, x, y)
        return e if q.endswith("==") else eng.bnot(e)
    if q in ("__gnu_cxx::operator@LT", "__gnu_cxx::operator@GT", "__gnu_cxx::operator@LE", "__gnu_cxx::operator@GE", "__gnu_cxx::operator-") and len(a) == 2:
        x, y = (eng.get_content(st, v) if v.op in ("p", "J") else v for v in a)
        if x.op == "it" and y.op == "it" and x.a[0] is y.a[0]:
            n = length(eng, st, eng.facted(st, eng.get_content(st, x.a[0])))
            x, y = (n if v is END else v for v in (x.a[1], y.a[1]))
            if x.op == "i" and y.op == "i":
                if q.endswith("-"): return I(x.n - y.n)
                return I(int({"LT": x.n < y.n, "GT": x.n > y.n, "LE": x.n <= y.n, "GE": x.n >= y.n}[q[-2:]]), 1)
        return None
    if q.startswith("std::operator") and info.params and ("std::string" in info.params[0] or (len(info.params) > 1 and "std::string" in info.params[1] and "char" in info.params[0])):
        return string_op(eng, st, info, q[5:])
    if q in ("std::operator==", "std::operator!=") and info.params and ("std::set" in info.params[0] or "std::vector" in info.params[0]):
        x, y = (eng.snapshot_content(st, v) for v in a)
        e = eng.cmp_eq(st, x, y)
        return e if q.endswith("==") else eng.bnot(e)
    if q.startswith(("std::allocator", "std::__new_allocator")) : return False if "r" not in info.inst else TOP
    return None

def strarg(eng, st, info, p, ty):
    """content of a string-ish argument"""
    if "std::string" in ty: return eng.get_content(st, p)
    if ty.startswith("char const*") or ty.startswith("char const (&)") or ty == "char*": return eng.strval(st, p)
    if ty == "char": return chr_term(p)
    return TOP

def string_method(eng, st, info, m):
    s, a = sret(info)
    ps = info.params
    if m == "string":
        if not ps: eng.set_content(st, a[0], EMPTY); return False
        if ps[0].startswith("std::string"):
            c = eng.get_content(st, a[1])
            if len(ps) > 1 and ps[1] == "unsigned long":
                c = substr(eng, st, c, a[2], a[3] if len(ps) > 2 and ps[2] == "unsigned long" else None)
            eng.set_content(st, a[0], c)
            return False
        if ps[0] == "char const*":
            c = eng.strval(st, a[1])
            if len(ps) > 1 and ps[1] == "unsigned long": c = mk("substr", c, I(0), a[2])
            eng.set_content(st, a[0], c); return False
        if "iterator" in ps[0]:
            x = a[1]; y = a[2]
            if x.op == "it" and y.op == "it" and x.a[0] is y.a[0]:
                base = eng.get_content(st, x.a[0])
                if base.op == "s" and x.a[1].op == "i" and (y.a[1].op == "i" or y.a[1] is END): c = S(base.n[x.a[1].n:y.a[1].n if y.a[1] is not END else None])
                elif x.a[1] is BEG and y.a[1] is END: c = base
                else: c = mk("slice", base, x.a[1], y.a[1])
            else: c = mk("slice", x, y)
            eng.set_content(st, a[0], c); return False
        if ps[0] == "unsigned long":
            n, c = a[1], a[2]
            if n.op == "i" and c.op == "i": v = S(bytes([c.n & 255]) * min(n.n, 4096))
            else: v = mk("rep", n, chr_term(c))
            eng.set_content(st, a[0], v); return False
        if "initializer_list" in ps[0]: eng.set_content(st, a[0], TOP); return False
        eng.set_content(st, a[0], mk("mkstr", tuple(eng.argterm(st, x) for x in a[1:]))); return False
    if m == "~string": return False
    th = a[0]
    if m in ("operator=", "assign"):
        ty = ps[0]
        c = strarg(eng, st, info, a[1], ty)
        if m == "assign" and len(ps) > 1: c = mk("substr", c, *a[2:])
        eng.set_content(st, th, c); return th
    if m in ("operator+=", "append", "push_back"):
        c = eng.get_content(st, th)
        t = strarg(eng, st, info, a[1], ps[0])
        if len(ps) > 1:
            if ps[0] == "unsigned long": t = mk("rep", a[1], chr_term(a[2]))
            else: t = mk("substr", t, *a[2:])
        eng.set_content(st, th, appended(st, c, t)); return th if m != "push_back" else False
    c = eng.facted(st, eng.get_content(st, th))
    if m in ("c_str", "data"):
        return P(("STR", c), 0) if c is not TOP else P(("STR", TOP), 0)
    if m in ("size", "length"): return length(eng, st, c)
    if m == "empty": return eng.emptyp(st, c)
    if m == "clear": eng.set_content(st, th, EMPTY); return False
    if m in ("reserve", "shrink_to_fit"): return False
    if m == "resize":
        eng.set_content(st, th, chop(c, a[1])); return False
    if m == "pop_back":
        if c.op == "s" and c.n: eng.set_content(st, th, S(c.n[:-1])); return False
        eng.set_content(st, th, chop(c, mk("add", 64, mk("len", c), I(-1)))); return False
    if m == "begin" or m == "cbegin": return mkit(th, BEG)
    if m == "end" or m == "cend": return mkit(th, END)
    if m in ("operator[]", "at"):
        return elem(eng, th, a[1])
    if m == "front": return elem(eng, th, I(0))
    if m == "back": return elem(eng, th, mk("last"))
    if m == "substr":
        return give(eng, st, info, substr(eng, st, c, a[1], a[2]))
    if m == "compare":
        if len(ps) == 1: return cmp3( c, strarg(eng, st, info, a[1], ps[0]))
        y = strarg(eng, st, info, a[3], ps[2])
        if len(ps) == 5: y = substr(eng, st, y, a[4], a[5])
        elif len(ps) == 4: y = substr(eng, st, y, I(0), a[4])
        return cmp3( substr(eng, st, c, a[1], a[2]), y)
    if m in ("erase",) and ps and ps[0] == "unsigned long":
        n = a[2]
        if a[1].op == "i" and a[1].n == 0 and n.op == "i": v = substr(eng, st, c, n, I(-1))
        elif c.op == "s" and a[1].op == "i" and n.op == "i" and a[1].n <= len(c.n): v = S(c.n[:a[1].n] + c.n[min(len(c.n), a[1].n + n.n):])
        else: v = mk("erased", c, a[1], a[2])
        eng.set_content(st, th, v); return th
    if m.startswith("find") or m == "rfind":
        t = strarg(eng, st, info, a[1], ps[0])
        if c.op == "s" and t.op == "s" and a[2].op == "i":
            i = -1
            if m == "find": i = c.n.find(t.n, a[2].n) if a[2].n < 1 << 40 else -1
            elif m == "rfind": i = c.n.rfind(t.n) if a[2].n >= len(c.n) else c.n.rfind(t.n, 0, a[2].n + len(t.n))
            elif m == "find_first_of": i = next((k for k in range(a[2].n, len(c.n)) if c.n[k] in t.n), -1)
            elif m == "find_first_not_of": i = next((k for k in range(a[2].n, len(c.n)) if c.n[k] not in t.n), -1)
            elif m == "find_last_of": i = next((k for k in range(min(len(c.n) - 1, a[2].n), -1, -1) if c.n[k] in t.n), -1)
            elif m == "find_last_not_of": i = next((k for k in range(min(len(c.n) - 1, a[2].n), -1, -1) if c.n[k] not in t.n), -1)
            return I(i)
        if c.op == "cat" and c.a[0][0].op == "s" and t.op == "s" and a[2].op == "i" and t.n:
            # decided within the known beginning of the text
            b = c.a[0][0].n; i = -1
            if m == "find": i = b.find(t.n, a[2].n) if a[2].n < 1 << 40 else -1
            elif m == "find_first_of": i = next((k for k in range(a[2].n, len(b)) if b[k] in t.n), -1)
            elif m == "find_first_not_of": i = next((k for k in range(a[2].n, len(b)) if b[k] not in t.n), -1)
            elif m == "rfind" and a[2].n == 0 and len(b) >= len(t.n): return I(0 if b.startswith(t.n) else -1)
            if i >= 0: return I(i)
        if TOP in (c, t): return TOP
        return mk("find", m, c, t, a[2] if len(a) > 2 else I(0))
    if m == "swap":
        x = eng.get_content(st, a[1]); eng.set_content(st, a[1], c); eng.set_content(st, th, x); return False
    return None

def chop(c, n):
    """content resized to n; recognises dropping the last character"""
    if c.op == "s":
        if n.op == "i" and n.n <= len(c.n): return S(c.n[:n.n])
    def is_lenm1(c, n):
        return n.op == "add" and n.a[2].op == "i" and n.a[2].n == (1 << 64) - 1 and n.a[1].op == "len" and n.a[1].a[0] is c
    if is_lenm1(c, n):
        if c.op == "cat" and c.a[0][-1].op == "s" and c.a[0][-1].n:
            return cat(c.a[0][:-1] + (S(c.a[0][-1].n[:-1]),))
        return mk("chop", c)
    if c.op == "J" and n.op in ("J",):
        return mk("chop", c)
    return mk("resize", c, n)

def cmp3(a, b):
    """three-way comparison of two texts"""
    if a.op == "s" and b.op == "s": return I((a.n > b.n) - (a.n < b.n), 32)
    return mk("cmp3", a, b)

def substr(eng, st, c, pos, n):
    if c.op == "s" and pos.op == "i" and (n is None or n.op == "i"):
        b = c.n[pos.n:]
        if n is not None and n.n < 1 << 63: b = b[:n.n]
        return S(b)
    if pos.op == "i" and pos.n == 0 and (n is None or (n.op == "i" and n.n == (1 << 64) - 1)): return c
    if c.op == "cat" and c.a[0][0].op == "s" and pos.op == "i":
        # part of a text whose beginning is known
        b = c.a[0][0].n
        if n is not None and n.op == "i" and n.n < 1 << 63 and pos.n + n.n <= len(b): return S(b[pos.n:pos.n + n.n])
        if (n is None or n.op == "i" and n.n >= 1 << 63) and pos.n <= len(b): return cat((S(b[pos.n:]),) + c.a[0][1:])
    return mk("substr", c, pos, n if n is not None else I(-1))

def string_op(eng, st, info, op):
    s, a = sret(info); ps = info.params
    if op in ("operator==", "operator!="):
        x, y = (strarg(eng, st, info, v, t) for v, t in zip(a, ps))
        x = eng.facted(st, x); y = eng.facted(st, y)
        e = eng.facted(st, streq(eng, st, x, y))
        return e if op == "operator==" else eng.bnot(e)
    if op == "operator+":
        x, y = (strarg(eng, st, info, v, t) for v, t in zip(a, ps))
        c = appended(st, x, y)
        return give(eng, st, info, c)
    if op in ("operator@LT", "operator@GT", "operator@LE", "operator@GE"):
        x, y = (strarg(eng, st, info, v, t) for v, t in zip(a, ps))
        if x.op == "s" and y.op == "s": return I(int({"LT": x.n < y.n, "GT": x.n > y.n, "LE": x.n <= y.n, "GE": x.n >= y.n}[op[-2:]]), 1)
        return mk("strcmp", op, x, y)
    return None

def streq(eng, st, x, y):
    if y is EMPTY: return eng.emptyp(st, x) if x.op != "J" else eng.cmp_eq(st, x, y)
    if x is EMPTY: return eng.emptyp(st, y) if y.op != "J" else eng.cmp_eq(st, x, y)
    if x.op == "s" and y.op == "s": return I(int(x.n == y.n), 1)
    return eng.cmp_eq(st, x, y)

def container(eng, st, info, kind, m):
    s, a = sret(info); ps = info.params
    if m == kind:   # constructor
        if not ps: c = VEMPTY
        elif ps[0].startswith("std::" + kind):
            c = eng.snapshot_content(st, a[1])
        elif ps[0] == "unsigned long":
            v = eng.snapshot(st, a[2]) if len(ps) > 1 and ps[1].endswith("&") and "allocator" not in ps[1] else (a[2] if len(ps) > 1 and "allocator" not in ps[1] else I(0))
            c = mk("vecn", a[1], v)
        elif "iterator" in ps[0] or ps[0].endswith("*"):
            x, y = a[1], a[2]
            src = eng.snapshot_content(st, x.a[0]) if x.op == "it" else None
            if x.op == "it" and y.op == "it" and x.a[0] is y.a[0] and x.a[1] is BEG and y.a[1] is END: c = src
            elif src is not None and src.op == "seq" and y.op == "it" and x.a[0] is y.a[0] and x.a[1].op == "i" and (y.a[1] is END or y.a[1].op == "i"): c = mk("seq", src.a[0][x.a[1].n:None if y.a[1] is END else y.a[1].n])
            else: c = mk("slice", eng.argterm(st, x), eng.argterm(st, y))
        elif "allocator" in ps[0]: c = VEMPTY
        elif "initializer_list" in ps[0]:
            c = initlist(eng, st, a[1:], kind)
        else: c = mk("mk" + kind, tuple(eng.argterm(st, x) for x in a[1:]))
        eng.set_content(st, a[0], c); return False
    if m == "~" + kind: return False
    th = a[0]
    if m == "operator=":
        eng.set_content(st, th, eng.snapshot_content(st, a[1])); return th
    if m in ("push_back", "emplace_back") or (m in ("insert", "emplace") and len(ps) == 1 and kind == "set"):
        e = eng.snapshot(st, a[1]) if len(a) > 1 else TOP
        c = eng.snapshot_content(st, th)
        eng.set_content(st, th, pushed(eng, st, info, c, e))
        if m == "push_back": return False
        return TOP if "r" in info.inst else False
    if m == "push_back": return False
    if m == "assign" and kind == "vector" and len(ps) == 2 and a[1].op == "it" and a[2].op == "it" and a[1].a[0] is a[2].a[0]:
        x, y = a[1], a[2]; src = eng.snapshot_content(st, x.a[0])
        if src.op == "seq" and all(v is END or v.op == "i" for v in (x.a[1], y.a[1])):
            i, j = (len(src.a[0]) if v is END else v.n for v in (x.a[1], y.a[1]))
            eng.set_content(st, th, mk("seq", src.a[0][i:j])); return False
    if m == "insert" and kind == "vector" and len(ps) == 3:
        c = eng.snapshot_content(st, th); x, y = a[2], a[3]
        src = eng.snapshot_content(st, x.a[0]) if x.op == "it" else eng.argterm(st, x)
        if src.op == "seq" and c.op == "seq" and y.op == "it" and x.a[0] is y.a[0] and a[1].op == "it" and all(v is END or v.op == "i" for v in (x.a[1], y.a[1], a[1].a[1])):
            i, j, k = (len((src, src, c)[n].a[0]) if v is END else v.n for n, v in enumerate((x.a[1], y.a[1], a[1].a[1])))
            eng.set_content(st, th, mk("seq", c.a[0][:k] + src.a[0][i:j] + c.a[0][k:])); return mkit(th, I(k))
        whole = x.op == "it" and y.op == "it" and x.a[0] is y.a[0] and x.a[1] is BEG and y.a[1] is END
        if whole and src.op == "seq" and c.op == "seq": n = mk("seq", c.a[0] + src.a[0])
        else: n = pushed(eng, st, info, c, mk("each", src) if whole else mk("slice", x, y))
        eng.set_content(st, th, n)
        return mkit(th, mk("inspos"))
    if m == "insert" and kind == "vector" and len(ps) == 2:
        c = eng.snapshot_content(st, th); e = eng.snapshot(st, a[2])
        if c.op == "seq" and a[1].op == "it" and (a[1].a[1] is END or a[1].a[1].op == "i" and a[1].a[1].n <= len(c.a[0])):
            j = len(c.a[0]) if a[1].a[1] is END else a[1].a[1].n
            eng.set_content(st, th, mk("seq", c.a[0][:j] + (e,) + c.a[0][j:])); return mkit(th, I(j))
        else: n = mk("bag", c if c.op != "bag" else c.a[0], frozenset([e]) | (c.a[1] if c.op == "bag" else frozenset()))
        eng.set_content(st, th, n); return mkit(th, mk("inspos"))
    if m == "insert":
        c = eng.snapshot_content(st, th)
        eng.set_content(st, th, pushed(eng, st, info, c, mk("ins*", tuple(eng.argterm(st, x) for x in a[1:]))))
        return TOP
    if m in ("begin", "cbegin"): return mkit(th, BEG)
    if m in ("end", "cend"): return mkit(th, END)
    c = eng.facted(st, eng.get_content(st, th))
    if m == "size": return length(eng, st, c)
    if m == "empty": return eng.emptyp(st, c)
    if m == "clear": eng.set_content(st, th, VEMPTY); return False
    if m in ("reserve", "shrink_to_fit"): return False
    if m == "find":
        k = keyval(eng, st, a[1])
        return mkit(th, mk("found", k))
    if m == "count":
        k = keyval(eng, st, a[1])
        return mk("zext", 1, hask(eng, st, c, k)) if hask(eng, st, c, k).op != "i" else I(hask(eng, st, c, k).n)
    if kind in ("map", "unordered_map") and m in ("operator[]", "at"):
        k = keyval(eng, st, a[1])
        if m == "operator[]":
            st.facts.pop(mk("has", c, k), None)
            if k not in map_keys(c):
                c2 = mk("mapc", c.a[0] if c.op == "mapc" else c, (c.a[1] if c.op == "mapc" else frozenset()) | {k})
                st.mem_put(eng, th, c2) if False else None
        p = elem(eng, th, mk("found", k))
        r = None
        for x in alts(p):
            r = join(r, P(x.a[0], off_add(x.a[1], mapped_off(info))) if x.op == "p" else TOP)
        return r
    if m in ("operator[]", "at"): return elem(eng, th, a[1])
    if m == "front": return elem(eng, th, I(0))
    if m == "back":
        if c.op == "seq" and c.a[0]: return elem(eng, th, I(len(c.a[0]) - 1))
        return elem(eng, th, mk("last"))
    if m == "erase":
        old = eng.snapshot_content(st, th)
        x = a[1]
        if kind == "vector" and x.op == "it" and old.op == "seq" and x.a[1].op == "i" and x.a[1].n < len(old.a[0]) and (len(ps) == 1 or a[2].op == "it" and (a[2].a[1] is END or a[2].a[1].op == "i")):
            j = x.a[1].n + 1 if len(ps) == 1 else len(old.a[0]) if a[2].a[1] is END else a[2].a[1].n
            eng.set_content(st, th, mk("seq", old.a[0][:x.a[1].n] + old.a[0][j:]))
            return mkit(th, x.a[1]) if "r" in info.inst else False
        if kind == "vector" and len(ps) == 1 and x.op == "it" and x.a[1] is BEG:
            n = mk("seq", old.a[0][1:]) if old.op == "seq" and old.a[0] else mk("tail", old)
        else:
            k = x if x.op == "it" else (keyval(eng, st, x) if x.op == "p" else x)
            n = mk("erased", old, k.a[1] if k.op == "it" else k)
        drop_facts(st, mk("has", old, k)) if kind != "vector" else None
        eng.set_content(st, th, n)
        return mkit(th, mk("after")) if "r" in info.inst else False
    if m == "pop_back":
        eng.set_content(st, th, mk("seq", c.a[0][:-1]) if c.op == "seq" and c.a[0] else mk("init", c)); return False
    if m == "resize":
        eng.set_content(st, th, mk("resize", c, a[1])); return False
    if m == "swap":
        x = eng.snapshot_content(st, a[1]); y = eng.snapshot_content(st, th)
        eng.set_content(st, a[1], y); eng.set_content(st, th, x); return False
    return None

def map_keys(c): return c.a[1] if c.op == "mapc" else frozenset()

def initlist(eng, st, a, kind):
    # {begin pointer, length}
    try:
        b, n = a[0], a[1]
        if n.op == "i" and b.op == "p" and n.n <= 64:
            sz = eng.objsize.get(b.a[0])
            if sz and n.n:
                w = sz // n.n
                return mk("seq", tuple(eng.snapshot(st, P(b.a[0], off_add(b.a[1], i * w))) for i in range(n.n)))
    except IndexError: pass
    return TOP

def ilist(eng, st, info, m):
    """begin, end and size of an initializer_list over a known array"""
    b, n = eng.read(st, info.args[0].a[0], off_add(info.args[0].a[1], 0)), eng.read(st, info.args[0].a[0], off_add(info.args[0].a[1], 8))
    if m == "size": return n
    if m == "begin": return b
    sz = eng.objsize.get(b.a[0]) if b.op == "p" else None
    if n.op == "i" and n.n == 0: return b
    return P(b.a[0], off_add(b.a[1], sz)) if sz and n.op == "i" and sz % n.n == 0 and b.a[1] == 0 else None

def iterator(eng, st, info, m):
    s, a = sret(info); ps = info.params
    def cur(p):
        return eng.get_content(st, p)
    def moved(v, d):
        r = None
        for x in alts(v):
            if x.op == "it":
                i = x.a[1]
                if i is END: n = mk("it", x.a[0], mk("endm"))
                elif i.op == "found" or d is None: n = mk("it", x.a[0], mk("after"))
                else:
                    j = eng.binop("add", 64, i, d)
                    n = mk("it", x.a[0], j)
            elif x.op == "p": n = TOP
            else: n = TOP
            r = join(r, n)
        return r
    if m in ("__normal_iterator", "_Rb_tree_const_iterator", "_Rb_tree_iterator"):
        if not ps: eng.set_content(st, a[0], UNDEF); return False
        c = cur(a[1]) if ps[0].endswith("&") else a[1]
        eng.set_content(st, a[0], c); return False
    th = a[0]
    v = cur(th)
    if m in ("operator*", "operator@ARROW", "base"):
        if m == "base": return th
        r = None
        for x in alts(v):
            n = elem(eng, x.a[0], x.a[1]) if x.op == "it" else TOP
            r = join(r, n)
        return r
    if m in ("operator++", "operator--"):
        n = moved(v, I(1) if m == "operator++" else I(-1))
        eng.set_content(st, th, n)
        if ps: return v
        return th
    if m in ("operator+", "operator-"):
        if ps and "long" in ps[0]: return moved(v, a[1] if m == "operator+" else eng.binop("sub", 64, I(0), a[1]))
    if m in ("operator+=", "operator-="):
        eng.set_content(st, th, moved(v, a[1])); return th
    if m == "operator[]" : return TOP
    return None

# ------------------------------------------------------------------ TABLE
TABLE = {}
def model(*names):
    def d(f):
        for n in names: TABLE[n] = f
        return f
    return d

@model("__cxa_allocate_exception")
def _(eng, st, info): return P(("EXO", site(info)), 0)
@model("__cxa_free_exception", "__cxa_atexit", "__cxa_guard_release", "__cxa_guard_abort")
def _(eng, st, info): return I(0) if "r" in info.inst else False
@model("__cxa_guard_acquire")
def _(eng, st, info): return TOP
@model("__cxa_throw")
def _(eng, st, info):
    p, ti = info.args[0], info.args[1]
    ty = ti.a[0][1] if ti.op == "p" else "other"
    w = eng.get_content(st, p)
    return [("throw", st, mk("E", ty, w if w is not UNDEF else None))]
@model("__cxa_begin_catch")
def _(eng, st, info):
    p = info.args[0]
    E = p.a[0][1] if p.op == "p" and p.a[0][0] == "EXC" else mk("E", "any", None)
    st.caught = st.caught + (E,)
    return P(("EXC", E), 0)
@model("__cxa_end_catch")
def _(eng, st, info):
    st.caught = st.caught[:-1]; return False
@model("__cxa_rethrow")
def _(eng, st, info):
    E = st.caught[-1] if st.caught else mk("E", "any", None)
    return [("throw", st, E)]
@model("std::terminate", "__clang_call_terminate", "llvm.trap")
def _(eng, st, info): return [("noret", st, None)]
@model("std::runtime_error::runtime_error", "std::logic_error::logic_error", "std::invalid_argument::invalid_argument", "std::out_of_range::out_of_range")
def _(eng, st, info):
    t = strarg(eng, st, info, info.args[1], info.params[0]) if info.params else TOP
    if info.params and info.params[0].startswith("std::runtime_error"): t = eng.get_content(st, info.args[1])
    eng.set_content(st, info.args[0], t); return False
@model("<indirect>")
def _(eng, st, info):
    a = info.args
    if a and a[0].op in ("p", "J"):
        r = None
        for q in alts(a[0]):
            if q.op == "p" and q.a[0][0] == "EXC":
                E = q.a[0][1]
                r = join(r, P(("STR", E.a[1] if E.a[1] is not None else mk("what", E)), 0))
        if r is not None: return r
    return None

def repeat(eng, st, o):
    """a place that allocates again on one path stands for several allocations"""
    if (o, "R") in st.mem: eng.__dict__.setdefault("repeated", set()).add(o)
def alloc(eng, st, info, kind):
    o = ("H", (info.ctx, site(info)), kind)
    repeat(eng, st, o)
    st.mem.setdefault((o, "R"), ())
    return P(o, 0)
@model("operator new", "operator new[]")
def _(eng, st, info): return alloc(eng, st, info, "new")
@model("operator delete", "operator delete[]")
def _(eng, st, info): return False
@model("malloc", "palloc", "MemoryContextAlloc", "palloc_extended", "SPI_palloc")
def _(eng, st, info): return alloc(eng, st, info, info.q)
@model("calloc")
def _(eng, st, info): return alloc(eng, st, info, "calloc")
@model("palloc0", "MemoryContextAllocZero")
def _(eng, st, info): return alloc(eng, st, info, "calloc")
@model("strdup", "pstrdup", "MemoryContextStrdup")
def _(eng, st, info):
    p = info.args[-1]
    o = ("H", (info.ctx, site(info)), info.q)
    repeat(eng, st, o)
    st.mem[(o, "R")] = ()
    c = eng.strval(st, p)
    st.mem[(o, 0)] = c
    return P(o, 0)
@model("free", "pfree")
def _(eng, st, info): return False
@model("strcmp")
def _(eng, st, info):
    return cmp3( eng.strval(st, info.args[0]), eng.strval(st, info.args[1]))
@model("strncmp", "memcmp")
def _(eng, st, info):
    a, b = (eng.strval(st, x) for x in info.args[:2])
    return cmp3( substr(eng, st, a, I(0), info.args[2]), substr(eng, st, b, I(0), info.args[2]))
@model("strlen")
def _(eng, st, info): return length(eng, st, eng.strval(st, info.args[0]))
# PostgreSQL
@model("MemoryContextSwitchTo", "PointerGetDatum", "DatumGetPointer", "Int32GetDatum", "Float8GetDatum", "HeapTupleGetDatum", "CStringGetDatum", "DatumGetCString", "DatumGetInt32")
def _(eng, st, info): return None if info.q == "MemoryContextSwitchTo" else info.args[0]
@model("pg_detoast_datum", "pg_detoast_datum_packed")
def _(eng, st, info): return info.args[0]
@model("std::move", "std::forward", "std::addressof", "std::__addressof")
def _(eng, st, info): return info.args[0]
@model("std::swap")
def _(eng, st, info):
    x, y = info.args
    c, d = eng.snapshot(st, x), eng.snapshot(st, y)
    eng.set_content(st, x, d); eng.set_content(st, y, c); return False
def _smart(kind):
    def f(eng, st, info):
        m = info.q.split("::")[-1]; s, a = sret(info); ps = info.params
        if m == kind:
            if not ps or "nullptr" in ps[0]: eng.set_content(st, a[0], NULL); return False
            if ps[0].startswith("std::" + kind):
                c = eng.get_content(st, a[1]); eng.set_content(st, a[0], c)
                if ps[0].endswith("&&"): eng.set_content(st, a[1], NULL)
                return False
            eng.set_content(st, a[0], a[1]); return False
        if m.startswith("~"): 
            f2 = getattr(eng.c, "smart_free", None)
            if f2: f2(eng, st, eng.get_content(st, a[0]), info)
            return False
        c = eng.get_content(st, a[0])
        if m in ("get", "operator@ARROW", "operator*"): return c
        if m == "release": eng.set_content(st, a[0], NULL); return c
        if m == "reset":
            f2 = getattr(eng.c, "smart_free", None)
            if f2: f2(eng, st, c, info)
            eng.set_content(st, a[0], a[1] if len(a) > 1 else NULL); return False
        if m == "operator=":
            eng.set_content(st, a[0], eng.get_content(st, a[1]))
            if ps and ps[0].endswith("&&"): eng.set_content(st, a[1], NULL)
            return a[0]
        if m.startswith("operator bool") or m == "operator": return eng.bnot(eng.cmp_eq(st, c, NULL))
        return None
    return f
for _k in ("unique_ptr", "shared_ptr"):
    for _m in (_k, "~" + _k, "get", "operator@ARROW", "operator*", "release", "reset", "operator=", "operator bool"):
        TABLE["std::%s::%s" % (_k, _m)] = _smart(_k)

@model("std::to_string")
def _(eng, st, info): return give(eng, st, info, mk("tostr", sret(info)[1][0]))
@model("std::min", "std::max")
def _(eng, st, info):
    return join(info.args[0], info.args[1])
@model("boost::algorithm::join")
def _(eng, st, info):
    s, a = sret(info)
    return give(eng, st, info, mk("joined", eng.snapshot_content(st, a[0]), eng.strval(st, a[1])))
