"""C21: what the save routines write has the layout that the load routines read."""
import re
from ..main import V, Result, need
from .. import ast

INT = {"intLoad": ("i", 1), "intSave": ("i", 1)}
CALLS = {"archLoad": "arch", "archSave": "arch", "archDomLoad": "dom", "archDomSave": "dom", "graphLoad": "graph", "graphSave": "graph", "meshLoad": "mesh", "meshSave": "mesh",
         "archTleafArchLoad": "tleaf", "archTleafArchSave": "tleaf"}
NAMED = [("graphLoad", "graphSave"), ("meshLoad", "meshSave"), ("listLoad", "listSave"), ("mapLoad", "mapSave"), ("orderLoad", "orderSave"), ("intRandLoad", "intRandSave"),
         ("graphGeomLoadScot", "graphGeomSaveScot"), ("meshGeomLoadScot", "meshGeomSaveScot")]
SLOTS = (("archLoad", "archSave"), ("domLoad", "domSave"))


def plain(n):
    return n.replace("_SCOTCH", "", 1) if n else n


def exits(s):
    """the statement always leaves the function"""
    if s is None:
        return False
    k = s[0]
    if k == "ret" or k == "goto":
        return True
    if k == "{":
        return any(exits(x) for x in s[3:] if x is not None)
    if k == "if":
        return exits(s[4]) and exits(s[5])
    return False


def stops(s):
    """the statement ends by leaving the innermost loop"""
    return s is not None and (s[0] == "break" or s[0] == "{" and len(s) > 3 and stops(s[-1]))


class Shape:
    def __init__(s, funcs, f, tu, depth=0, sub=None):
        s.funcs, s.f, s.tu, s.depth = funcs, f, tu, depth
        s.err = set()
        s.par = {p[2]: k for k, p in enumerate(f["params"])}
        s.alias = {}
        for n in ast.walk(f["body"]):
            if n[0] == "bin" and n[3] in ("=", "|=") and n[4][0] == "ref" and any(x[0] == "call" for x in ast.walk(n[5])):
                s.err.add(n[4][5])
            if n[0] == "decl":
                for v in n[3:]:
                    if v[4] is not None:
                        s.alias[v[2]] = v[4]

    def stmt(s, n):
        if n is None:
            return []
        k = n[0]
        if k == "{":
            out = []
            for x in n[3:]:
                out += s.stmt(x)
                if x is not None and exits(x) and x[0] in ("ret", "goto"):
                    break
            return out
        if k == "if":
            c = s.expr(n[3])
            a, b = s.stmt(n[4]), s.stmt(n[5])
            if exits(n[4]) and not toks(a):
                return c + b
            if n[5] is not None and exits(n[5]) and not toks(b):
                return c + a
            if s.iserr(n[3]):
                return c + a + b
            if a and not b and stops(n[4]):
                return c + [("?", a, b, "stop")]
            return c + ([("?", a, b)] if a or b else [])
        if k == "for":
            i = s.stmt(n[3]) if n[3] else []
            b = s.expr(n[4]) + s.stmt(n[6]) + s.expr(n[5])
            if len(b) == 1 and b[0][0] == "?" and len(b[0]) > 3:       # leaves the loop after what it does once: a search
                return i + b[0][1]
            return i + ([("L", b)] if b else [])
        if k == "while":
            b = s.expr(n[3]) + s.stmt(n[4])
            return [("L", b)] if b else []
        if k == "do":
            b = s.stmt(n[4]) + s.expr(n[3])
            return [("L", b)] if b else []
        if k == "switch":
            c = s.expr(n[3])
            alts, cur = [], None
            body = n[4][3:] if n[4] and n[4][0] == "{" else [n[4]]
            for x in body:
                if x is None:
                    continue
                while x is not None and x[0] in ("case", "default"):
                    if cur is None or toks(cur):
                        cur = []
                        alts.append(cur)
                    x = x[4] if x[0] == "case" else x[3]
                if cur is None:
                    continue
                if x is not None:
                    cur += s.stmt(x)
            alts = [a for a in alts if toks(a)]
            return c + ([("sw", alts)] if alts else [])
        if k in ("case", "default", "label"):
            return s.stmt(n[-1])
        if k == "decl":
            out = []
            for v in n[3:]:
                if v[4] is not None:
                    out += s.expr(v[4])
            return out
        if k == "ret":
            return s.expr(n[3])
        return s.expr(n)

    def iserr(s, c):
        c = ast.strip(c)
        if c and c[0] == "bin" and c[3] in ("==", "!="):
            a = ast.strip(c[4])
            return a and a[0] == "ref" and a[5] in s.err and ast.const(c[5]) is not None
        if c and c[0] == "bin" and c[3] == "&&":
            return s.iserr(c[4]) and s.iserr(c[5])
        return False

    def expr(s, n):
        if n is None or not isinstance(n, list):
            return []
        k = n[0]
        if k == "cast":
            return s.expr(n[5])
        if k == "?:":
            c = s.expr(n[3])
            a, b = s.expr(n[4]), s.expr(n[5])
            return c + ([("?", a, b)] if a or b else [])
        if k == "bin":
            a, b = s.expr(n[4]), s.expr(n[5])
            if n[3] == "&&" and toks(b) and not toks(a) and not s.iserr(n[4]):
                return [("?", b, [])]
            return a + b
        if k == "call":
            c = plain(ast.callee(n))
            args = n[4:]
            if c in INT:
                return [("t", "i", s.field(args[1]), n[1])]
            if c in ("fprintf",):
                return s.fmt(args[1], args[2:], n[1], True)
            if c in ("__isoc99_fscanf", "fscanf"):
                return s.fmt(args[1], args[2:], n[1], False)
            if c in ("putc", "fputc"):
                return s.chars(args[0], n[1])
            if c in ("fputs",):
                return s.fmt(args[0], [], n[1], True)
            if c in CALLS:
                return [("t", CALLS[c], None, n[1])]
            if c is not None and ast.callee(n) in s.funcs and s.depth < 3:
                g, gtu = s.funcs[ast.callee(n)]
                if gtu is s.tu and g is not s.f and any("FILE" in gtu.types[p[1]].sugar for p in g["params"]):
                    sh = Shape(s.funcs, g, gtu, s.depth + 1)
                    sh.args = args; sh.up = s
                    return sh.stmt(g["body"])
        out = []
        for x in ast.kids(n):
            out += s.expr(x) if x[0] not in ("{", "if", "for", "while", "do") else s.stmt(x)
        return out

    def field(s, a):
        """field of a record the value is read into or written from"""
        x = ast.strip(a)
        seen = 0
        while x is not None and seen < 8:
            seen += 1
            if x[0] == "un" and x[3] in ("&", "*"):
                x = ast.strip(x[4])
            elif x[0] == "sub":
                i = ast.const(x[4])
                b = s.field(x[3])
                return (b, i) if b and not isinstance(b, tuple) else b
            elif x[0] == "ref" and x[5] in s.par and getattr(s, "args", None) and s.par[x[5]] < len(s.args):
                return s.up.field(s.args[s.par[x[5]]])
            elif x[0] == "mem":
                return "%s.%s" % (x[6], x[4]) if x[6] else None
            else:
                return None
        return None

    def chars(s, a, line):
        x = ast.strip(a)
        v = ast.const(x)
        if v is not None:
            return [("s",)] if chr(v).isspace() else [("t", "s", None, line)]
        if x[0] == "?:":
            return s.chars(x[4], line) if s.chars(x[4], line) == s.chars(x[5], line) else [("s",)]
        return [("s",)]

    def fmt(s, f, args, line, write):
        f = ast.strip(f)
        if f is None or f[0] != "str":
            return [("t", "?", None, line)]
        out, k = [], 0
        txt = f[3]
        for m in re.finditer(r"%%|%(\*?)([-+ #0-9.]*)(hh|h|ll|l|L|z|j)?(\[[^]]*\]|[a-zA-Z])|\s+|[^%\s]+", txt):
            t = m.group(0)
            if t == "%%":
                out.append(("w",)); continue
            if t[0] == "%":
                if m.group(1):
                    continue
                a = args[k] if k < len(args) else None
                k += 1
                cv = m.group(4)
                if cv == "c" and write:
                    out += s.chars(a, line)
                elif cv in "diu":
                    out.append(("t", "i", s.field(a) if a is not None else None, line))
                elif cv in ("f", "g", "e", "lf"):
                    out.append(("t", "d", s.field(a) if a is not None else None, line))
                elif cv == "s":
                    out.append(("t", "s", None, line))
                else:
                    out.append(("t", "?", None, line))
            elif t.isspace():
                out.append(("s",))
            elif write:
                out.append(("t", "i" if re.match(r"^-?\d+$", t) else "s", None, line))
        return out


def toks(items):
    for x in items:
        if x[0] in ("t", "s"):
            return True
        if x[0] == "L" and toks(x[1]) or x[0] == "?" and (toks(x[1]) or toks(x[2])) or x[0] == "sw":
            return True
    return False


def norm(items):
    """without separators and empty parts; equal alternatives merged"""
    out = []
    for x in items:
        if x[0] == "t":
            out.append(x)
        elif x[0] == "L":
            b = norm(x[1])
            if b:
                out.append(("L", b))
        elif x[0] == "?":
            a, b = norm(x[1]), norm(x[2])
            if a and b and same(a, b) is None:
                out += a
            elif a and not b:
                if len(a) == 1 and a[0][0] == "?" and not a[0][2]:
                    a = a[0][1]
                out.append(("?", a, []))
            elif b and not a:
                out.append(("?", b, []))
            elif a:
                # common beginnings are unconditional
                while a and b and same(a[:1], b[:1]) is None:
                    out.append(a[0]); a, b = a[1:], b[1:]
                tail = []
                while a and b and same(a[-1:], b[-1:]) is None:
                    tail.insert(0, a[-1]); a, b = a[:-1], b[:-1]
                if a or b:
                    out.append(("?", a or b, b if a else []))
                out += tail
        elif x[0] == "sw":
            al = sorted((norm(a) for a in x[1]), key=lambda a: (len(a), str(a)))
            al = [a for a in al if a]
            u = []
            for a in al:
                if not any(same(a, b) is None for b in u):
                    u.append(a)
            if len(u) == 1:
                out += u[0] if len(al) > 1 else [("?", u[0], [])]
            elif u:
                out.append(("sw", u))
    return out


COMPAT = {("s", "i"), ("i", "s")}        # "%3s" holds the property digits


def same(a, b, fields=False):
    """None, or how the layouts differ"""
    if fields and len(a) > len(b):                       # what the reader merely accepts
        for k, x in enumerate(a):
            if x[0] == "?" and not x[2] and (k >= len(b) or same([x], [b[k]]) is not None) and same(a[:k], b[:k]) is None:
                return same(a[:k] + a[k + 1:], b, fields)
    for k in range(max(len(a), len(b))):
        if k >= len(a) or k >= len(b):
            x = (a[k:] or b[k:])[0]
            return "%s has %s that %s has not" % (("the reader" if k < len(a) else "the writer"), desc(x), ("the writer" if k < len(a) else "the reader"))
        x, y = a[k], b[k]
        if x[0] != y[0]:
            return "the reader has %s where the writer has %s" % (desc(x), desc(y))
        if x[0] == "t":
            if x[1] != y[1] and (x[1], y[1]) not in COMPAT:
                return "the reader has %s where the writer has %s" % (desc(x), desc(y))
            if fields and x[2] and y[2] and fname(x[2]) != fname(y[2]) and rec(x[2]) == rec(y[2]):
                return "item %d is read into %s but written from %s" % (k + 1, fname(x[2]), fname(y[2]))
        elif x[0] == "L":
            d = same(x[1], y[1], fields)
            if d:
                return "in a loop, " + d
        elif x[0] == "?":
            d = same(x[1], y[1], fields) or same(x[2], y[2], fields)
            if d:
                return "in an optional part, " + d
        elif x[0] == "sw":
            if len(x[1]) != len(y[1]):
                return "different numbers of alternatives"
            for p, q in zip(x[1], y[1]):
                d = same(p, q, fields)
                if d:
                    return "in an alternative, " + d
    return None


def fname(f):
    return "%s[%s]" % (f[0], f[1]) if isinstance(f, tuple) else f


def rec(f):
    f = f[0] if isinstance(f, tuple) else f
    return f.split(".")[0] if isinstance(f, str) else None


def desc(x):
    return {"t": lambda: {"i": "a number", "d": "a real number", "s": "a word"}.get(x[1], "a " + x[1]) + (" (%s)" % fname(x[2]) if x[2] else "") + " at line %d" % x[3],
            "L": lambda: "a loop", "?": lambda: "an optional part", "sw": lambda: "alternatives"}[x[0]]()


def bare(f):
    return f[0] if isinstance(f, tuple) else f


def items(it):
    for x in it:
        if x[0] == "t":
            yield x
        elif x[0] in ("L", "?"):
            for p in x[1:]:
                yield from items(p)
        elif x[0] == "sw":
            for a in x[1]:
                yield from items(a)


def stored(funcs, f, tu, seen):
    """record fields that a routine, or what it calls in the library, assigns or passes by address"""
    if f["name"] in seen or len(seen) > 40:
        return set()
    seen.add(f["name"])
    out = set()
    for n in ast.walk(f["body"]):
        t = None
        if n[0] == "bin" and n[3].endswith("=") and n[3] not in ("==", "!=", "<=", ">="):
            t = ast.strip(n[4])
        elif n[0] == "un" and n[3] in ("&", "++", "--"):
            t = ast.strip(n[4])
        while t is not None and t[0] == "sub":
            t = ast.strip(t[3])
        if t is not None and t[0] == "mem" and t[6]:
            out.add("%s.%s" % (t[6], t[4]))
        if n[0] == "call":
            c = ast.callee(n)
            if c in funcs:
                out |= stored(funcs, funcs[c][0], funcs[c][1], seen)
            for a in n[4:]:                                  # an array field that is filled through
                t = ast.strip(a)
                if t is not None and t[0] == "mem" and t[6]:
                    out.add("%s.%s" % (t[6], t[4]))
    return out


def joined(items, st, bad):
    """two items written without white space in between; st: may the last thing written be an item"""
    for x in items:
        if x[0] == "t":
            if st and x[1] in ("i", "d", "s", "?"):
                bad.append(x)
            st = x[1] in ("i", "d", "s", "?")
        elif x[0] in ("s", "w"):
            st = False
        elif x[0] == "L":
            s1 = joined(x[1], st, bad)
            if s1:
                joined(x[1], s1, bad)
            st = st or s1
        elif x[0] == "?":
            st = joined(x[1], st, bad) | joined(x[2], st, bad)
        elif x[0] == "sw":
            st = any([joined(a, st, bad) for a in x[1]])
    return st


def pairs(tus, funcs):
    out = []
    by = {plain(k): v for k, v in funcs.items()}
    for r, w in NAMED:
        need(r in by and w in by, "%s or %s is gone" % (r, w))
        out.append((r, w, by[r], by[w], False))
    for tu in tus:
        for g in tu.globals:
            if plain(g["name"]) == "archClassTab" and g.get("init"):
                fl = [plain(f[0]) for f in tu.records["ArchClass_"]["fields"]]
                for row in g["init"][3:]:
                    cells = row[3:]
                    for r, w in SLOTS:
                        a, b = (ast.strip(cells[fl.index(x)]) if len(cells) > fl.index(x) else None for x in (r, w))
                        if a is None or b is None or a[0] != "ref" or b[0] != "ref":
                            continue
                        if plain(a[3]) in by and plain(b[3]) in by:
                            out.append((plain(a[3]), plain(b[3]), by[plain(a[3])], by[plain(b[3])], True))
    return out


# pairs whose parts depend on conditions that the two sides state differently; compared with every optional part present
FLAT = {"graphGeomLoadScot": "the writer branches on the dimension once, the reader at every coordinate", "meshGeomLoadScot": "likewise",
        "orderLoad": "the writer also handles vertex labels, which the reader refuses"}


def flat(items):
    out = []
    for x in items:
        if x[0] == "L":
            out.append(("L", flat(x[1])))
        elif x[0] == "?":
            a, b = flat(x[1]), flat(x[2])
            out += a if count(a) >= count(b) else b
        elif x[0] == "sw":
            out += max((flat(a) for a in x[1]), key=count)
        else:
            out.append(x)
    return out


def run(tier):
    tus = [t for t in ast.load("def") if t.name.startswith("libscotch/")]
    funcs = {}
    for tu in tus:
        for f in tu.funcs:
            funcs.setdefault(f["name"], (f, tu))
    out, samples = [], []
    cov = dict(pairs=0, items_written=0, items_read=0, compared_flat=0, fields_set=0)
    seen = set()
    for r, w, (rf, rtu), (wf, wtu), arch in pairs(tus, funcs):
        if (r, w) in seen:
            continue
        seen.add((r, w))
        a = norm(Shape(funcs, rf, rtu).stmt(rf["body"]))
        raw = Shape(funcs, wf, wtu).stmt(wf["body"])
        b = norm(raw)
        cov["pairs"] += 1
        cov["items_read"] += count(a); cov["items_written"] += count(b)
        if r in FLAT:
            a, b = flat(a), flat(b)
            cov["compared_flat"] += 1
        d = same(a, b, True)
        where = "%s:%d" % (wtu.name, wf["line"])
        if d:
            out.append(V("layout:%s:%s" % (r, w), where, w, "writes another layout than %s reads: %s" % (r, d), ["reader: %s:%d" % (rtu.name, rf["line"])]))
        got = stored(funcs, rf, rtu, set())
        for x in items(b):
            if x[2] and "." in fname(x[2]) and not d:
                cov["fields_set"] += 1
                if bare(x[2]) not in got:
                    out.append(V("unset:%s:%s" % (r, bare(x[2])), where, r, "never sets %s, which %s writes at line %d" % (bare(x[2]), w, x[3]), ["reader: %s:%d" % (rtu.name, rf["line"])]))
        bad = []
        joined(raw, False, bad)
        for x in bad[:1]:
            out.append(V("joined:%s" % w, "%s:%d" % (wtu.name, x[3]), w, "writes two items without white space in between"))
        if len(samples) < 10:
            samples.append("%s/%s: %s" % (r, w, show(b)))
    need(cov["pairs"] >= 25, "only %d pairs" % cov["pairs"])
    return Result(out, "for every save/load pair of graphs, meshes, lists, mappings, orderings, random state and of every architecture class and domain, the writer's sequence of items, with its loops "
                  "and optional parts, is the reader's, items of the same record field at the same place, and consecutive items are separated", cov, samples)


def count(it):
    return sum(1 if x[0] == "t" else count(x[1]) if x[0] == "L" else count(x[1]) + count(x[2]) if x[0] == "?" else sum(map(count, x[1])) for x in it)


def show(it):
    return " ".join({"t": lambda: x[1], "L": lambda: "(%s)*" % show(x[1]), "?": lambda: "[%s]" % (show(x[1]) + ("|" + show(x[2]) if x[2] else "")), "sw": lambda: "{%s}" % "|".join(map(show, x[1]))}[x[0]]() for x in it)
