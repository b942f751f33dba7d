from lib import *

def params(f):
    """initial argument values: one symbolic object per pointer parameter"""
    r = []
    for k, a in enumerate(f.args):
        n = a["name"] or ("arg%d" % k)
        r.append(P(("P", n), 0) if a["ty"] == "ptr" else mk("arg", n))
    return r

def c_entries(p):
    """C-linkage functions implemented in the C++ engine"""
    return {f.name: f for f in p.funcs.values() if f.dem == f.name and (f.file or "").endswith((".cpp", ".h"))
            and not f.d["internal"] and not f.name.startswith(("_GLOBAL__", "__cxx_global", "__clang"))}

def is_err_arg(a):
    return (a.get("di") or "").replace(" ", "") in ("char**",)

def wrapper_file(p):
    e = c_entries(p)
    return {f.file for f in e.values()}

def callers_of(p, name):
    for f in p.funcs.values():
        for b in f.blocks:
            for i in b:
                if i["op"] in ("call", "invoke") and i["f"][0] == "g" and i["f"][1] == name: yield f, i
