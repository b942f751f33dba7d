"""MD5: the compression function as a term, buffering and padding by length class, the text form of the digest."""
from common import *
import math, hashlib, sys
sys.setrecursionlimit(20000)
M32 = 0xffffffff
K = [int(abs(math.sin(i + 1)) * 2 ** 32) & M32 for i in range(64)]
R = [7, 12, 17, 22] * 4 + [5, 9, 14, 20] * 4 + [4, 11, 16, 23] * 4 + [6, 10, 15, 21] * 4
INIT = (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476)

# ---- terms: evaluation under a valuation of the opaque leaves, and a normal form
def h32(*x): return int.from_bytes(hashlib.sha256(repr(x).encode()).digest()[:8], "little")
def value(t, seed, memo):
    """value of a term when every opaque leaf has a fixed pseudo-random value; None if the term has other operations"""
    if t in memo: return memo[t]
    r = None; o = t.op; a = t.a
    if o == "i": r = a[0]
    elif o in ("ld", "T", "byte"): 
        r = h32(seed, show(t)); r &= 0xff if o == "byte" or (o == "ld" and leafw.get(t) == 8) else M32
    elif o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr"):
        w = a[0]; x = value(a[1], seed, memo); y = value(a[2], seed, memo)
        if x is not None and y is not None:
            m = (1 << w) - 1; x &= m
            r = {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y, "shl": x << (y & 63), "lshr": x >> (y & 63)}[o] & m
    elif o in ("zext", "trunc"):
        xs = [x for x in a if isinstance(x, T)]; w = [x for x in a if isinstance(x, int)]
        x = value(xs[-1], seed, memo)
        if x is not None: r = x & ((1 << w[0]) - 1) if o == "trunc" and w else x
    memo[t] = r
    return r
leafw = {}

_ids = {}; _keys = []
def node(*k):
    """number of a normal-form node; its children are numbers, so equality is equality of numbers"""
    if k not in _ids: _ids[k] = len(_keys); _keys.append(k)
    return _ids[k]
def cached(f):
    c = {}
    def g(t):
        if t not in c: c[t] = f(t)
        return c[t]
    return g

@cached
def nf(t):
    """normal form: sums flattened, rotations, bitwise functions as truth tables, little-endian words"""
    o = t.op; a = t.a
    if o == "i": return node("c", a[0] & M32)
    r = rot(t) or word(t)
    if r: return r
    if o == "add" and a[0] == 32:
        c = 0; ls = []
        for x in a[1:3]:
            n = nf(x); k = _keys[n]
            if k[0] == "c": c += k[1]
            elif k[0] == "sum": c += k[2]; ls += k[1]
            else: ls.append(n)
        c &= M32
        return ls[0] if len(ls) == 1 and not c else node("c", c) if not ls else node("sum", tuple(sorted(ls)), c)
    if o in ("or", "and", "xor") and a[0] == 32:
        r = bits(t)
        if r is not None: return r
    if o in ("or", "and", "xor", "shl", "lshr", "zext", "trunc", "sub", "mul"): return node("o", o, tuple(nf(x) if isinstance(x, T) else ("n", x) for x in a))
    return node("x", t.id)
@cached
def rot(t):
    if t.op not in ("or", "xor", "add"): return None
    x, y = t.a[1], t.a[2]
    for x, y in ((x, y), (y, x)):
        if x.op == "shl" and y.op == "lshr" and x.a[2].op == "i" and y.a[2].op == "i" and x.a[2].n + y.a[2].n == 32 and nf(x.a[1]) == nf(y.a[1]):
            return node("rotl", nf(x.a[1]), x.a[2].n)
    return None
@cached
def word(t):
    """bytes b0 + b1<<8 + ... as one word"""
    got = {}; st = [(t, 0)]
    if t.op not in ("or", "add", "xor"): return None
    while st:
        x, sh = st.pop()
        if x.op in ("or", "add", "xor") and x.a[0] == 32: st += [(x.a[1], sh), (x.a[2], sh)]; continue
        if x.op == "shl" and x.a[2].op == "i": st.append((x.a[1], sh + x.a[2].n)); continue
        if x.op == "zext":
            y = [z for z in x.a if isinstance(z, T)][-1]; w = [z for z in x.a if isinstance(z, int)]
            if w and w[0] == 8 or y.op == "ld": st.append((y, sh)); continue
            return None
        if x.op == "ld" and sh % 8 == 0 and sh not in got and leafw.get(x) == 8: got[sh] = x.id; continue
        return None
    return node("word", tuple(sorted(got.items()))) if len(got) > 1 else None
def inner(x): return x.op in ("and", "or", "xor") and x.a[0] == 32 and not rot(x) and not word(x)
@cached
def leaves(x):
    if inner(x):
        a, b = leaves(x.a[1]), leaves(x.a[2])
        return None if a is None or b is None or len(a | b) > 5 else a | b
    return frozenset() if x.op == "i" else frozenset([nf(x)])
def bits(t):
    """bitwise function of up to five operands as a truth table"""
    ls = leaves(t)
    if ls is None: return None
    ls = sorted(ls)
    tab = []
    for m in range(1 << len(ls)):
        env = {l: M32 if m >> k & 1 else 0 for k, l in enumerate(ls)}; memo = {}
        def ev(x):
            if x not in memo:
                if inner(x):
                    p, q = ev(x.a[1]), ev(x.a[2]); memo[x] = p & q if x.op == "and" else p | q if x.op == "or" else p ^ q
                else: memo[x] = x.n & M32 if x.op == "i" else env[nf(x)]
            return memo[x]
        tab.append(ev(t))
    if all(v == tab[0] for v in tab): return node("c", tab[0])
    if len(ls) == 1 and tab == [0, M32]: return ls[0]
    return node("bit", tuple(ls), tuple(tab))

# ---- reference terms
def A(*x):
    r = x[0]
    for y in x[1:]: r = mk("add", 32, r, y)
    return r
def ref_transform(st, w):
    a, b, c, d = st; NOT = lambda v: mk("xor", 32, v, I(M32, 32))
    for i in range(64):
        if i < 16: f = mk("or", 32, mk("and", 32, b, c), mk("and", 32, NOT(b), d)); g = i
        elif i < 32: f = mk("or", 32, mk("and", 32, d, b), mk("and", 32, NOT(d), c)); g = (5 * i + 1) % 16
        elif i < 48: f = mk("xor", 32, mk("xor", 32, b, c), d); g = (3 * i + 5) % 16
        else: f = mk("xor", 32, c, mk("or", 32, b, NOT(d))); g = 7 * i % 16
        s = A(a, f, w[g], I(K[i], 32))
        a, d, c, b = d, c, b, A(mk("or", 32, mk("shl", 32, s, I(R[i], 32)), mk("lshr", 32, s, I(32 - R[i], 32))), b)
    return [A(x, y) for x, y in zip(st, (a, b, c, d))]

THIS, IN = ("P", "this"), ("P", "in")

class M(Client):
    def __init__(self, stub=True): self.stub = stub; self.stop = False
    def key(self, st): return st.flags.get("nb", 0)
    def call(self, eng, st, info):
        s, a = models.sret(info)
        if self.stub and info.q == "MD5::transform" and len(a) == 2 and a[1].op == "p":
            so = self.so
            if self.stop: return [("throw", st, NULL)]
            s0 = tuple(eng.read(st, THIS, so + 4 * k) for k in range(4))
            blk = tuple(byte(eng, st, a[1].a[0], off_add(a[1].a[1], k)) for k in range(64))
            n = mk("blk", st.flags.get("chain", mk("start")), s0 if not st.flags.get("chain") else (), blk)
            st.flags["chain"] = n; st.flags["nb"] = st.flags.get("nb", 0) + 1
            st.flags["blocks"] = st.flags.get("blocks", ()) + (blk,)
            st.flags["states"] = st.flags.get("states", ()) + (s0,)
            for k in range(4): st.mem[(THIS, so + 4 * k)] = mk("T", n, k)
            return False
        return None

def byte(eng, st, obj, off):
    v = eng.read(st, obj, off)
    if v.op == "i": return I(v.n & 255, 8)
    return v

def run(p, rep):
    rep.rule = ("the compression function is interpreted on an opaque block and state; each new state word, as a term, must have the same normal form (sums modulo 2^32, rotations, truth tables of bitwise functions, little-endian words) as RFC 1321's; "
                "feeding and finishing are interpreted with an opaque compression function and opaque bytes for every buffer fill 0..63 and piece lengths around the block limits: the blocks compressed, the bytes kept and the bit count must be those of RFC 1321, so that splitting the text makes no difference; "
                "the text form and the users of the class are checked for the order and origin of what they hand on")
    t = p.types.get("MD5")
    tf = p.fn("MD5::transform"); fin = p.fn("MD5::finalize"); upd = p.fn("MD5::update", 2, all=True, pred=lambda f: "unsigned char" in f.params[0]); ini = p.fn("MD5::MD5", 0) or p.fn("MD5::MD5", pred=lambda f: not f.params)
    if not t or not upd or fin is None: rep.viol("anchor", "src/md5.cpp", "class MD5 with update and finalize not found"); return
    upd = upd[0]
    fld = lambda n: p.field("MD5", n)
    so, co, bo, do, fo = fld("state"), fld("count"), fld("buffer"), fld("digest"), fld("finalized")
    if None in (so, co, bo, do): rep.ob("undecided"); rep.assumptions.append("members of MD5 were renamed: not decided"); return
    M.so = so
    if tf is not None: compression(p, rep, tf, so)
    else: rep.ob("undecided")
    # initial state
    c = M(); e = Engine(p, c, models.models)
    for x in (e.run(ini, [P(THIS, 0)], State()) if ini else []):
        rep.eng(e)
        for k in range(4):
            rep.ob("obligation_initial_state"); v = e.read(x.st, THIS, so + 4 * k)
            if v.op == "i" and v.n & M32 != INIT[k]: rep.viol("init:%d" % k, loc(ini), "initial state word %d is %08x" % (k, v.n))
            elif v is UNDEF or v.op == "ld": rep.viol("init:%d" % k, loc(ini), "initial state word %d is not set" % k)
        for off, w in ((co, 4), (co + 4, 4), (fo, 1)):
            if off is None: continue
            rep.ob("obligation_initial_state"); v = e.read(x.st, THIS, off)
            if v.op == "i" and v.n or v is UNDEF or v.op == "ld": rep.viol("init:%d" % off, loc(ini), "%s does not start at zero" % p.fieldname("MD5", off))
    def start(idx, lo=0, hi=0):
        st = State()
        st.mem[(THIS, co)] = I((lo + 8 * idx) & M32, 32); st.mem[(THIS, co + 4)] = I(hi, 32)
        if fo is not None: st.mem[(THIS, fo)] = I(0, 8)
        return st
    lens = lambda idx: sorted({x for x in (0, 1, 7, 63 - idx, 64 - idx, 65 - idx, 120 - idx, 127 - idx, 128 - idx, 129 - idx, 192 - idx, 200) if x >= 0})
    bld = p.types["MD5"]["members"]
    for idx in range(64):
        for n in lens(idx):
            c = M(); e = Engine(p, c, models.models)
            xs = e.run(upd, [P(THIS, 0), P(IN, 0), I(n, 32)], start(idx, 1 << 12, 3)); rep.eng(e); rep.ob("obligation_update")
            if len(xs) != 1 or xs[0].kind != "ret": rep.ob("undecided"); continue
            x = xs[0]; s0 = start(idx)
            stream = [e.read(s0, THIS, bo + k) for k in range(idx)] + [e.read(s0, IN, k) for k in range(n)]
            key = "update"
            got = [b for blk in x.st.flags.get("blocks", ()) for b in blk]
            full = len(stream) // 64 * 64
            rest = [byte(e, x.st, THIS, bo + k) for k in range(len(stream) - full)]
            if any(b is TOP or b.op not in ("ld", "i") for b in got + rest): rep.ob("undecided"); continue
            if len(got) != full: rep.viol(key + ":blocks", loc(upd), "with %d bytes buffered and %d more, %d blocks are compressed instead of %d" % (idx, n, len(got) // 64, full // 64)); continue
            if got != stream[:full]: rep.viol(key + ":order", loc(upd), "with %d bytes buffered and %d more, the compressed blocks are not the bytes in order" % (idx, n)); continue
            if rest != stream[full:]: rep.viol(key + ":rest", loc(upd), "with %d bytes buffered and %d more, the bytes kept for later are not the remaining ones" % (idx, n)); continue
            cnt = e.read(x.st, THIS, co), e.read(x.st, THIS, co + 4)
            if all(v.op == "i" for v in cnt) and (cnt[0].n & M32, cnt[1].n & M32) != ((1 << 12) + 8 * (idx + n), 3): rep.viol(key + ":count", loc(upd), "the bit count after %d + %d bytes is wrong" % (idx, n))
            if any(v.op != "i" for v in cnt): rep.ob("undecided")
    for lo, hi, n in ((0xfffffe00, 7, 64), (0xfffffe00, 0, 63), (0xfffffe00, 0xffffffff, 65), (0, 0, 0x20000000), (0x80000000, 1, 0x30000000)):
        c = M(); c.stop = n > 1000; e = Engine(p, c, models.models); rep.ob("obligation_bit_count_carry")
        xs = e.run(upd, [P(THIS, 0), P(IN, 0), I(n, 32)], start(0, lo, hi)); rep.eng(e)
        want = ((hi << 32) + lo + 8 * n) & ((1 << 64) - 1)
        for x in xs:
            cnt = e.read(x.st, THIS, co), e.read(x.st, THIS, co + 4)
            if any(v.op != "i" for v in cnt) or c.stop and cnt[0].n & M32 == lo and (lo + 8 * n) & M32 != lo or c.stop and (cnt[0].n & M32, cnt[1].n & M32) == (lo, hi): rep.ob("undecided"); continue
            if (cnt[0].n & M32) + ((cnt[1].n & M32) << 32) != want: rep.viol("count:carry", loc(upd), "the bit count of long texts is wrong: %d bits plus %d bytes gives %d" % ((hi << 32) + lo, n, (cnt[0].n & M32) + ((cnt[1].n & M32) << 32)))
    # finish
    for idx in range(64):
        lo, hi = 1 << 20, 0x01020304
        c = M(); e = Engine(p, c, models.models); rep.ob("obligation_finalize")
        xs = e.run(fin, [P(THIS, 0)], start(idx, lo, hi)); rep.eng(e)
        if len(xs) != 1 or xs[0].kind != "ret": rep.ob("undecided"); continue
        x = xs[0]; s0 = start(idx)
        total = (hi << 32) + lo + 8 * idx
        pad = (56 - idx) if idx < 56 else (120 - idx)
        want = [e.read(s0, THIS, bo + k) for k in range(idx)] + [I(0x80, 8)] + [I(0, 8)] * (pad - 1) + [I(b, 8) for b in total.to_bytes(8, "little")]
        got = [b for blk in x.st.flags.get("blocks", ()) for b in blk]
        if any(b is TOP or b.op not in ("ld", "i") and b is not UNDEF for b in got): rep.ob("undecided"); continue
        if got != want: rep.viol("finalize:padding", loc(fin), "with %d bytes buffered the last blocks are not the padding and bit count of RFC 1321" % idx); continue
        memo = {}
        for k in range(16):
            rep.ob("obligation_digest_byte"); v = e.read(x.st, THIS, do + k)
            w = mk("T", x.st.flags["chain"], k // 4)
            vs = [(value(v, s, {}), (value(w, s, {}) >> 8 * (k % 4)) & 255) for s in range(3)]
            if any(q is None for q, _ in vs): rep.ob("undecided"); continue
            if any(q & 255 != y for q, y in vs): rep.viol("digest:%d" % k, loc(fin), "digest byte %d is not the %s byte of state word %d" % (k, ["lowest", "second", "third", "highest"][k % 4], k // 4))
        if fo is not None:
            v = e.read(x.st, THIS, fo)
            if v.op == "i" and not v.n & 1: rep.viol("finalized", loc(fin), "the digest is computed but not marked as finished")
    rep.sample("update: buffer fills 0..63 x lengths %s" % lens(0))
    # a finished object keeps its digest
    st = start(0); st.mem[(THIS, fo)] = I(1, 8)
    c = M(); e = Engine(p, c, models.models); rep.ob("obligation_finalize_twice")
    for x in e.run(fin, [P(THIS, 0)], st):
        if any(k[0] == THIS and isinstance(k[1], int) and do <= k[1] < do + 16 for k in x.st.mem) or x.st.flags.get("blocks"): rep.viol("twice", loc(fin), "finishing twice changes the digest")
    texts(p, rep, do, fo)

def compression(p, rep, tf, so):
    c = M(False); e = Engine(p, c, models.models); st = State()
    BL = ("P", "blk")
    ws = []
    for i in range(16):
        bs = [e.read(st, BL, 4 * i + j) for j in range(4)]
        for b in bs: leafw[b] = 8
        w = None
        for j, b in enumerate(bs):
            z = mk("zext", 8, b); z = z if j == 0 else mk("shl", 32, z, I(8 * j, 32))
            w = z if w is None else mk("or", 32, w, z)
        ws.append(w)
    s0 = [e.read(st, THIS, so + 4 * k) for k in range(4)]
    want = ref_transform(s0, ws)
    xs = e.run(tf, [P(THIS, 0), P(BL, 0)], st); rep.eng(e)
    if len(xs) != 1 or xs[0].kind != "ret": rep.ob("undecided"); return
    for k in range(4):
        rep.ob("obligation_state_word"); v = e.read(xs[0].st, THIS, so + 4 * k)
        vals = [(value(v, s, {}), value(want[k], s, {})) for s in range(3)]
        if any(a is None for a, _ in vals): rep.ob("undecided"); continue
        if any(a & M32 != b & M32 for a, b in vals): rep.viol("transform:%d" % k, loc(tf), "state word %d after one block is not the term RFC 1321 defines" % k); continue
        if nf(v) != nf(want[k]): rep.ob("undecided")
        else: rep.ob("state_words_equal_in_normal_form")
    rep.sample("transform: 4 state words, 64 steps each")

def texts(p, rep, do, fo):
    """hexdigest, md5(), and the constructor from a text"""
    hx = p.fn("MD5::hexdigest")
    if hx is not None:
        class H(Client):
            def __init__(s): s.out = []
            def call(s, eng, st, info):
                if info.q in ("sprintf", "snprintf"):
                    a = info.args; k = 1 if info.q == "sprintf" else 2
                    fmt = eng.strval(st, a[k]); s.out.append((a[0], fmt, a[k + 1:])); return I(2, 32)
                return None
        c = H(); e = Engine(p, c, models.models); st = State()
        if fo is not None: st.mem[(THIS, fo)] = I(1, 8)
        args = [P(("P", "res"), 0) if a["name"] == "agg.result" else P(THIS, 0) for a in hx.args]
        e.run(hx, args, st); rep.eng(e)
        if len(c.out) == 16 and all(b.op == "p" and isinstance(b.a[1], int) for b, _, _ in c.out):
            base = min(b.a[1] for b, _, _ in c.out)
            for b, fmt, vs in c.out:
                rep.ob("obligation_hex_digit_pair"); k = (b.a[1] - base)
                src = [t for v in vs for t in subterms(v) if t.op == "ld" and t.a[0] == THIS]
                if fmt.op == "s" and fmt.n != b"%02x": rep.viol("hex:format", loc(hx), "a digest byte is written as %r" % fmt.n.decode("latin1"))
                if src and src[0].a[1] != do + k // 2 or k % 2: rep.viol("hex:order", loc(hx), "characters %d.. of the text are not those of digest byte %d" % (k, k // 2))
        else: rep.ob("undecided")
    # who feeds texts
    class U(Client):
        def __init__(s): s.fed = []
        def key(s, st): return st.flags.get("fin")
        def call(s, eng, st, info):
            _, a = models.sret(info)
            if info.q == "MD5::update":
                st.flags["fed"] = st.flags.get("fed", ()) + ((a[0], a[1], a[2]),); return False
            if info.q == "MD5::finalize": st.flags["done"] = True; return a[0]
            if info.q == "MD5::hexdigest":
                fed = tuple(x for x in st.flags.get("fed", ()) if x[0] is a[0])
                return models.give(eng, st, info, mk("hex", mk("fed", tuple(x[1:] for x in fed)), bool(st.flags.get("done"))))
            return None
    users = []
    f = p.fn("md5")
    if f is not None: users.append((f, "std"))
    for n, g in c_entries(p).items():
        if "md5" in n.lower() and [a for a in g.args if (a.get("di") or "").replace(" ", "").replace("const", "") == "char*"]: users.append((g, "c"))
    for f, kind in users:
        c = U(); e = Engine(p, c, models.models)
        arg = next(a for a in f.args if a["name"] != "agg.result")
        args = [P(("P", "res"), 0) if a["name"] == "agg.result" else P(("P", a["name"]), 0) for a in f.args]
        for x in e.run(f, args, State()):
            rep.eng(e)
            if x.kind != "ret": continue
            rep.ob("obligation_text_fed")
            v = e.get_content(x.st, P(("P", "res"), 0)) if f.args[0]["name"] == "agg.result" else x.val
            if v is NULL: continue
            if v.op == "p": v = e.strval(x.st, v)
            hs = [t for t in subterms(v) if t.op == "hex"]
            if len(hs) != 1: rep.ob("undecided"); continue
            if not hs[0].a[1]: rep.viol("unfinished:" + f.name, loc(f), "%s returns a digest that was not finished" % f.q)
            fed = hs[0].a[0].a[0]
            src = mk("ld", ("P", arg["name"]), 0) if kind == "std" else mk("cstr", ("P", arg["name"]), 0)
            if len(fed) != 1: rep.viol("fed:" + f.name, loc(f), "%s feeds %d pieces of text" % (f.q, len(fed))) if not fed else rep.ob("undecided"); continue
            ptr, n = fed[0]
            c0 = ptr.a[0][1] if ptr.op == "p" and ptr.a[0][0] == "STR" and ptr.a[1] == 0 else None
            if c0 is None: rep.ob("undecided"); continue
            ln = [t for t in subterms(n) if t.op == "len"]
            if not contains(c0, lambda t: t is src): rep.viol("source:" + f.name, loc(f), "%s digests something other than its argument" % f.q)
            elif n.op in ("trunc", "len") and ln and ln[0].a[0] is not c0 or n.op in ("add", "sub"): rep.viol("length:" + f.name, loc(f), "%s digests only part of its argument" % f.q)
            else: rep.sample("%s feeds its whole argument" % f.q)
