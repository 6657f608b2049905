"""What counts as the library, and helpers shared by the IR checks."""
from . import ir
import functools


def is_lib(name):
    return name.startswith(("libscotch/", "libscotchmetis/", "esmumps/", "parser_")) and "dummysizes" not in name and "/test_" not in name and "/main_" not in name


@functools.lru_cache(maxsize=None)
def program(config="def"):
    return ir.Program(config, lambda j: is_lib(j["unit"]))


def origins(f, o, seen=None):
    """values a value may be copied from: ('arg', k) ('g', name) ('call', inst) ('load', inst) ('alloca', inst) ('const', o) ('op', inst)"""
    seen = set() if seen is None else seen
    if not isinstance(o, int):
        if isinstance(o, list) and o and o[0] == "g":
            return {("g", o[1])}
        if isinstance(o, list) and o and o[0] in ("gep", "ce"):
            r = set()
            for x in o[1:]:
                if isinstance(x, list) and x and x[0] in ("g", "gep", "ce"):
                    r |= origins(f, x, seen)
            return r
        return {("const", str(o))}
    if o in seen:
        return set()
    seen.add(o)
    if o < f.nargs:
        return {("arg", o)}
    i = f.inst[o]
    if i.op == "getelementptr":
        return origins(f, i.a[1], seen)
    if i.op in ir.CASTS:
        return origins(f, i.a[0], seen)
    if i.op == "phi":
        r = set()
        for x in i.a:
            r |= origins(f, x[0], seen)
        return r
    if i.op == "select":
        return origins(f, i.a[1], seen) | origins(f, i.a[2], seen)
    if i.op in ("load", "call", "alloca"):
        return {(i.op, i)}
    return {("op", i)}
