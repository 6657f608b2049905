"""The resolved syntax trees exported by tools/astx.cpp."""
import os, pickle
from concurrent.futures import ThreadPoolExecutor
from . import build


class Type:
    __slots__ = ("sugar", "canon", "kind", "size", "elt", "extra", "qual")

    def __repr__(s):
        return s.sugar


class TU:
    def __init__(s, j):
        s.name = j["unit"]; s.target = j["target"]
        s.types = []
        for t in j["types"]:
            x = Type()
            x.sugar, x.canon, x.kind, x.size, x.elt, x.extra, x.qual = t
            s.types.append(x)
        for x in s.types:
            x.elt = s.types[x.elt] if x.elt >= 0 else None
            if x.kind == "func" and x.extra is not None:
                x.extra = [s.types[k] for k in x.extra]
        s.records = j["records"]
        for r in s.records.values():
            r["fields"] = [(f[0], s.types[f[1]], f[2]) for f in r["fields"]]
        s.files = [build.short(f) for f in j["files"]]
        s.funcs = j["funcs"]
        s.globals = j["globals"]
        s.protos = {p[0]: s.types[p[1]] for p in j["protos"]}
        for f in s.funcs:
            f["file"] = s.files[f["file"]]
        for g in s.globals:
            g["file"] = s.files[g["file"]]; g["type"] = s.types[g["type"]]

    def ty(s, n):
        return s.types[n[2]] if n[2] >= 0 else None


def load(config="def", only=None):
    out = []
    for p in build.ast_units(config):
        if only and not only(os.path.basename(p)):
            continue
        with open(p, "rb") as f:
            j = pickle.load(f)
        out.append(TU(j))
    return out


def kids(n):
    """child nodes of a node"""
    for x in n:
        if isinstance(x, list):
            if x and isinstance(x[0], str) and len(x) >= 3 and isinstance(x[1], int):
                yield x
            elif x and isinstance(x[0], str) and len(x) == 6 and isinstance(x[4], list):
                yield x[4]                     # variable with initialiser


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        if x is None:
            continue
        yield x
        stack.extend(reversed(list(kids(x))))


def strip(n):
    """without casts"""
    while n and n[0] == "cast":
        n = n[5]
    return n


def isnull(n):
    n = strip(n)
    return n is not None and n[0] == "int" and n[3] == 0


def callee(n):
    c = strip(n[3])
    while c and c[0] == "un" and c[3] in ("*", "&"):
        c = strip(c[4])
    return c[3] if c and c[0] == "ref" and c[4] == "f" else None


def const(n):
    """integer value of a constant expression, or None"""
    n = strip(n)
    if n is None:
        return None
    k = n[0]
    if k == "int":
        return n[3]
    if k == "sizeof":
        return n[5]
    if k == "un" and n[3] in ("-", "+", "~"):
        v = const(n[4])
        return None if v is None else (-v if n[3] == "-" else ~v if n[3] == "~" else v)
    if k == "bin":
        a, b = const(n[4]), const(n[5])
        if a is None or b is None:
            return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b, "<<": lambda: a << b, ">>": lambda: a >> b,
                    "|": lambda: a | b, "&": lambda: a & b}.get(n[3], lambda: None)()
        except (ZeroDivisionError, ValueError):
            return None
    return None


def text(n):
    """compact rendering of an expression, for reports"""
    if n is None:
        return ""
    k = n[0]
    if k == "cast":
        return text(n[5])
    if k == "ref":
        return n[3]
    if k == "mem":
        return text(n[3]) + ("->" if n[5] else ".") + n[4]
    if k == "int":
        return str(n[4] or n[3])
    if k == "str":
        return '"%s"' % n[3]
    if k == "bin":
        return "%s %s %s" % (text(n[4]), n[3], text(n[5]))
    if k == "un":
        return n[3].lstrip("p") + text(n[4])
    if k == "sub":
        return "%s[%s]" % (text(n[3]), text(n[4]))
    if k == "call":
        return "%s (%s)" % (text(n[3]), ", ".join(text(a) for a in n[4:]))
    if k == "sizeof":
        return "sizeof (..)"
    return "<%s>" % k
