"""What is known at each point of a syntax tree: the conditions that were decided on the way to it."""
from . import ast


def exits(s):
    """control never passes the end of the statement"""
    if s is None:
        return False
    k = s[0]
    if k in ("ret", "goto", "break", "continue"):
        return True
    if k == "{":
        return any(exits(x) for x in s[3:] if x is not None)
    if k == "if":
        return exits(s[4]) and exits(s[5])
    if k == "do" and ast.const(s[3]) == 0:
        return exits(s[4])
    if k == "label":
        return exits(s[-1])
    return False


def assigned(n):
    out = set()
    for x in ast.walk(n):
        if x[0] == "bin" and x[3].endswith("=") and x[3] not in ("==", "!=", "<=", ">="):
            out.add(ast.text(ast.strip(x[4])))
        elif x[0] == "un" and x[3].lstrip("p") in ("++", "--", "&"):
            out.add(ast.text(ast.strip(x[4])))
    return out


def expand(c, pol):
    c = ast.strip(c)
    if c is None:
        return []
    if c[0] == "un" and c[3] == "!":
        return expand(c[4], not pol)
    if c[0] == "bin" and (c[3] == "&&" and pol or c[3] == "||" and not pol):
        return expand(c[4], pol) + expand(c[5], pol)
    return [(c, pol)]


def texts(c):
    return {ast.text(x) for x in ast.walk(c)}


def kill(facts, n):
    a = assigned(n)
    if not a:
        return facts
    return tuple(f for f in facts if not (a & f[2]))


def mk(c, pol):
    return tuple((x, p, frozenset(texts(x))) for x, p in expand(c, pol))


def visit(n, fn, facts=()):
    """fn (node, facts) for every node; facts: (condition, truth, texts of its parts), condition ('case', e, constants) for a switch"""
    if n is None:
        return
    k = n[0]
    fn(n, facts)
    if k == "{":
        for x in n[3:]:
            if x is None:
                continue
            visit(x, fn, facts)
            facts = kill(facts, x)
            if x[0] == "if":
                if exits(x[4]) and not exits(x[5]):
                    facts = facts + mk(x[3], False)
                elif x[5] is not None and exits(x[5]) and not exits(x[4]):
                    facts = facts + mk(x[3], True)
        return
    if k == "if":
        visit(n[3], fn, facts)
        f = kill(facts, n[3])
        visit(n[4], fn, f + mk(n[3], True))
        visit(n[5], fn, f + mk(n[3], False))
        return
    if k == "?:":
        visit(n[3], fn, facts)
        visit(n[4], fn, facts + mk(n[3], True))
        visit(n[5], fn, facts + mk(n[3], False))
        return
    if k == "bin" and n[3] in ("&&", "||"):
        visit(n[4], fn, facts)
        visit(n[5], fn, facts + mk(n[4], n[3] == "&&"))
        return
    if k == "for":
        visit(n[3], fn, facts)
        f = kill(facts, n[6] or n[5] or n[4] or n)
        for x in n[3:]:
            if x is not None:
                f = kill(f, x)
        visit(n[4], fn, f)
        b = f + (mk(n[4], True) if n[4] is not None else ())
        visit(n[6], fn, b)
        visit(n[5], fn, f)
        return
    if k == "while":
        f = kill(facts, n)
        visit(n[3], fn, f)
        visit(n[4], fn, f + mk(n[3], True))
        return
    if k == "do":
        f = kill(facts, n)
        visit(n[4], fn, f)
        visit(n[3], fn, f)
        return
    if k == "switch":
        visit(n[3], fn, facts)
        body = n[4]
        if body is None or body[0] != "{":
            visit(body, fn, facts)
            return
        e = ast.strip(n[3])
        labels, f = None, facts
        every = set()
        for x in body[3:]:
            while x is not None and x[0] in ("case", "default"):
                if x[0] == "case":
                    every.add(ast.const(x[3]))
                x = x[4] if x[0] == "case" else x[3]
        for x in body[3:]:
            if x is None:
                continue
            y = x
            while y is not None and y[0] in ("case", "default"):
                v = ast.const(y[3]) if y[0] == "case" else None
                if labels is None:
                    labels = set(); f = facts
                labels.add(("default", frozenset(every)) if y[0] == "default" else v if v is not None else ast.text(y[3]))
                fn(y, facts)
                y = y[4] if y[0] == "case" else y[3]
            g = f + ((("case", e, frozenset(labels)), True, frozenset(texts(e))),) if labels else f
            if y is not None:
                visit(y, fn, g)
                f = kill(f, y)
                if y[0] == "if" and exits(y[4]) and not exits(y[5]):
                    f = f + mk(y[3], False)
                if exits(y):
                    labels = None; f = facts
        return
    if k in ("case", "default", "label"):
        visit(n[-1], fn, facts)
        return
    for x in ast.kids(n):
        visit(x, fn, facts)
