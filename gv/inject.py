"""Mechanical injection of loop contracts into a scratch copy of a /repo source file.

The copy differs from the file in /repo only by the inserted annotation text, which the
annotations of the unit spell out in full; nothing is dropped. Loops are addressed by
function name and ordinal within the function. When a function or loop is not found the
unit is reported as unattached (never as a violation)."""
import os
import re


def _mask(src):
    """same length as src, with comments, strings and preprocessor lines blanked"""
    out = list(src)
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith("/*", i):
            j = src.find("*/", i + 2)
            j = n if j < 0 else j + 2
        elif src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
        elif c in "\"'":
            j = i + 1
            while j < n and src[j] != c:
                j += 2 if src[j] == "\\" else 1
            j += 1
        elif c == "#" and src[:i].rstrip(" \t").endswith("\n"):
            j = i
            while j < n and src[j] != "\n":
                j += 2 if src[j] == "\\" else 1
        else:
            i += 1
            continue
        for k in range(i, min(j, n)):
            if out[k] != "\n":
                out[k] = " "
        i = j
    return "".join(out)


def _close(m, i, a, b):
    d = 0
    while i < len(m):
        if m[i] == a:
            d += 1
        elif m[i] == b:
            d -= 1
            if d == 0:
                return i
        i += 1
    return -1


def find_function(m, name):
    for x in re.finditer(r"\b%s\s*\(" % re.escape(name), m):
        p = _close(m, x.end() - 1, "(", ")")
        if p < 0:
            continue
        r = re.match(r"\s*\{", m[p + 1:])
        if r:
            b = p + 1 + r.end() - 1
            return b, _close(m, b, "{", "}")
    return None


def find_loops(m, b, e):
    res = []
    for x in re.finditer(r"\b(for|while)\s*\(", m[b:e]):
        o = b + x.end() - 1
        c = _close(m, o, "(", ")")
        r = re.match(r"\s*\{", m[c + 1:])
        if x.group(1) == "while" and re.match(r"\s*;", m[c + 1:]):
            continue  # do-while tail
        res.append((b + x.start(), c, (c + 1 + r.end()) if r else None))
    return res


def apply(repo, outdir, loops):
    files = {}
    for l in loops:
        files.setdefault(l["file"], []).append(l)
    for f, ls in files.items():
        path = os.path.join(repo, f)
        try:
            src = open(path).read()
        except OSError as e:
            return False, f"{f}: {e}"
        m = _mask(src)
        ins = []
        for l in ls:
            fn = find_function(m, l["function"])
            if not fn:
                return False, f"{f}: function {l['function']} not found"
            lp = find_loops(m, *fn)
            if l.get("count") is not None and len(lp) != l["count"]:
                return False, f"{f}: {l['function']} has {len(lp)} loops, annotations are for {l['count']}"
            if l["ordinal"] >= len(lp):
                return False, f"{f}: {l['function']} has no loop {l['ordinal']}"
            s, c, body = lp[l["ordinal"]]
            if body is None:
                return False, f"{f}: loop {l['ordinal']} of {l['function']} has no braces"
            ins.append((c + 1, " " + l["contract"] + " "))
            if l.get("body"):
                ins.append((body, " " + l["body"] + " "))
        for pos, text in sorted(ins, reverse=True):
            text = text.replace("\n", " ")
            src = src[:pos] + text + src[pos:]
        dst = os.path.join(outdir, f)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, "w").write(src)
    return True, ""
