"""No C++ exception leaves the engine's C interface, and none is turned into process termination."""
from lib import *
ENDERS = {"abort", "exit", "_exit", "_Exit", "quick_exit", "__assert_fail", "raise", "kill", "longjmp", "std::terminate", "std::unexpected", "std::abort", "std::exit", "std::quick_exit"}
BENIGN_END = {"__clang_call_terminate"}

def run(p, rep):
    rep.rule = ("whole-program may-unwind fixpoint over the LLVM IR (landing pads, catch clauses with type matching, rethrow, noexcept); "
                "every C-linkage function defined in a C++ unit must be no-unwind, no may-throw call may unwind into std::terminate, "
                "and no process-ending call is reachable from it")
    cpp = lambda f: (f.file or "").endswith((".cpp", ".h"))
    entries = {f.name: f for f in p.funcs.values() if f.dem == f.name and cpp(f) and not f.d["internal"] and not f.name.startswith(("_GLOBAL__", "__cxx_global", "__clang"))}
    # whatever the C side calls must be one of these
    for f in p.funcs.values():
        if (f.file or "").endswith(".c"):
            for b in f.blocks:
                for i in b:
                    if i["op"] in ("call", "invoke") and i["f"][0] == "g" and i["f"][1] in p.funcs and cpp(p.funcs[i["f"][1]]):
                        entries.setdefault(i["f"][1], p.funcs[i["f"][1]])
    for f in sorted(entries.values(), key=lambda f: f.name):
        rep.functions.add(f.dem); rep.ob("obligation_entry_no_unwind")
        rep.sample("entry %s: unwind=%s" % (f.dem, f.d["unw"]))
        if f.d["unw"]:
            rep.viol("unwind:" + f.q, loc(f), "a C++ exception can leave %s: %s" % (f.dem, chain(p, f)))
    # reachable set
    reach = {}; wl = [(f.name, f.name) for f in entries.values()]
    while wl:
        n, via = wl.pop()
        if n in reach or n not in p.funcs: continue
        reach[n] = via
        for b in p.funcs[n].blocks:
            for i in b:
                for t in refs(i):
                    if t in p.funcs and t not in reach: wl.append((t, n))
    for n in reach:
        fn = p.funcs[n]; rep.functions.add(fn.dem)
        for b in fn.blocks:
            for i in b:
                if i["op"] in ("call", "invoke"):
                    rep.ob("call_sites_examined")
                    if i["f"][0] == "g":
                        q = split_dem(p.dem(i["f"][1]))[0] if p.dem(i["f"][1]) != i["f"][1] else i["f"][1]
                        if q in ENDERS:
                            rep.viol("ender:%s:%s" % (fn.q, q), loc(fn, i), "%s, reachable from the C interface, ends the process through %s" % (fn.dem, q))
    rep.ob("functions_reachable", len(reach))
    for s in p.raw["terminate_sites"]:
        if s.get("fn") in reach:
            fn = p.funcs[s["fn"]]
            rep.ob("obligation_terminate_site")
            rep.viol("terminate:%s" % fn.q, "%s:%s in %s" % (os.path.basename(fn.file), s.get("line"), fn.dem), "a may-throw call (%s) unwinds into std::terminate" % s.get("callee"))
    rep.assumptions += ["a library function may throw unless it is declared noexcept/nothrow or is a listed C library function",
                        "destructors of library objects and freeing functions do not throw (C++11 implicit noexcept)"]

def refs(i):
    out = []
    def go(o):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == "g" and isinstance(o[1], str): out.append(o[1])
            else:
                for x in o: go(x)
    for k in ("f", "a"):
        if k in i: go(i[k])
    return out

def chain(p, f):
    out = []; seen = set()
    while f and f.name not in seen and len(out) < 8:
        seen.add(f.name); out.append(f.d["why"])
        nxt = None
        for g in p.funcs.values():
            if g.dem and ("calls " + g.dem + " at") in f.d["why"]: nxt = g
        f = nxt
    return " <- ".join(out)
