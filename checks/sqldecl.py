"""Declarations of the SQL functions, from the extension's SQL script."""
from lib import *
import re
def script():
    return "".join(open(s).read() for s in sorted(glob.glob(SRC + "/*.sql.in")))
def split_args(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch == "(": d += 1
        if ch == ")": d -= 1
        if ch == "," and d == 0: out.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur)
    return [re.sub(r"\s+", " ", a).strip() for a in out]
def all_decls():
    txt = re.sub(r"--[^\n]*", "", script()); txt = re.sub(r"/\*.*?\*/", "", txt, flags=re.S)
    r = []
    for m in re.finditer(r"create\s+(?:or\s+replace\s+)?function\s+([\w.]+)\s*\(", txt, re.I):
        d = 1; i = m.end()
        while i < len(txt) and d:
            d += {"(": 1, ")": -1}.get(txt[i], 0); i += 1
        args = split_args(txt[m.end():i - 1])
        end = txt.find(";", i); tail = txt[i:end if end >= 0 else len(txt)]
        ins, outs = [], []
        for a in args:
            w = a.split(" ")
            mode = "in"
            if w[0].lower() in ("in", "out", "inout", "variadic"): mode = w[0].lower(); w = w[1:]
            ty = re.split(r"\s+default\s+|\s*=\s*", " ".join(w[1:]), flags=re.I)[0].strip().lower()
            (outs if mode == "out" else ins).append((w[0], ty))
        a = re.search(r"\bas\s+'([^']*)'\s*(?:,\s*'([^']*)')?", tail, re.I)
        rt = re.search(r"returns\s+(.*?)\s+(?:as|language|immutable|strict|stable|volatile|cost|parallel)\b", tail, re.I | re.S)
        r.append({"name": m.group(1), "ins": ins, "outs": outs, "lib": a.group(1) if a else None, "symbol": (a.group(2) or m.group(1)) if a else None,
                  "strict": bool(re.search(r"\bstrict\b|returns\s+null\s+on\s+null\s+input", tail, re.I)), "lang": (re.search(r"language\s+'?(\w+)'?", tail, re.I) or [None, None])[1],
                  "returns": re.sub(r"\s+", " ", rt.group(1)).lower() if rt else "", "tail": tail})
    return r
def decl(symbol):
    for d in all_decls():
        if d["symbol"] == symbol and (d["lang"] or "").lower() == "c": return d
    return None
