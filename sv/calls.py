"""Which functions a call may run."""
import re
from . import ir, lib


class Calls:
    def __init__(s, p):
        s.p = p
        s.tab = {}             # (record, offset) -> {unit: functions} in initialised tables, or stored
        s.given = {}           # (function, parameter) -> (functions, parameters it is passed on from, unknown)
        for u in p.units:
            for g in u.globals.values():
                if "init" in g:
                    s._table(u, g["type"], g["init"])
        for f in p.funcs.values():
            for i in f.insts():
                if i.op == "call" and p.callee(i) is not None:
                    for a, x in enumerate(i.a[1:]):
                        s._given((p.callee(i).key, a), f, x)
                elif i.op == "store":
                    k = s.field(f, i.a[1])
                    if k:
                        for o in lib.origins(f, i.a[0]):
                            if o[0] == "g":
                                g = p.resolve_name(o[1], f.unit)
                                if g is not None:
                                    s.tab.setdefault(k, {}).setdefault(f.unit.name, set()).add(g.key)
        s.memo = {}

    def _table(s, u, ty, init):
        m = re.match(r"\[\d+ x (.*)\]$", ty)
        if m and isinstance(init, list) and init and init[0] == "a":
            for x in init[1:]:
                s._table(u, m.group(1), x)
            return
        st = u.structs.get(ty[1:]) if ty.startswith("%") else None
        if st and isinstance(init, list) and init and init[0] == "a":
            for (off, et), x in zip(st["e"], init[1:]):
                if isinstance(x, list) and x and x[0] == "g":
                    g = s.p.resolve_name(x[1], u)
                    if g is not None:
                        s.tab.setdefault((ty[1:], off), {}).setdefault(u.name, set()).add(g.key)
                elif et.startswith(("%", "[")):
                    s._table(u, et, x)
        elif ty == "ptr" and isinstance(init, list) and init and init[0] == "g":
            g = s.p.resolve_name(init[1], u)
            if g is not None:
                s.tab.setdefault(("ptr", 0), {}).setdefault(u.name, set()).add(g.key)

    def field(s, f, o):
        off = 0
        while isinstance(o, int) and o >= f.nargs:
            i = f.inst[o]
            if i.op == "getelementptr":
                off += (i.x or {}).get("off") or 0
                if str(i.a[0]).startswith("%struct"):
                    return str(i.a[0])[1:], off
                o = i.a[1]
            elif i.op in ir.CASTS:
                o = i.a[0]
            else:
                return None
        return None

    def _given(s, k, f, x):
        e = s.given.setdefault(k, [set(), set(), False])
        if isinstance(x, list) and x and x[0] in ("i", "n", "f"):
            return
        for o in lib.origins(f, x):
            if o[0] == "g":
                g = s.p.resolve_name(o[1], f.unit)
                if g is not None:
                    e[0].add(g.key)
            elif o[0] == "arg":
                e[1].add((f.key, o[1]))
            elif o[0] != "const":
                e[2] = True

    def targets(s, i):
        if s.p.callee_name(i) is not None:
            g = s.p.callee(i)
            return [g] if g is not None else []
        k = (i.fn.key, i.id)
        if k not in s.memo:
            s.memo[k] = s._resolve(i)
        return s.memo[k]

    def _resolve(s, i):
        f, out = i.fn, set()
        for o in lib.origins(f, i.a[0]):
            if o[0] == "const":
                continue
            if o[0] == "g":
                g = s.p.resolve_name(o[1], f.unit)
                if g is not None:
                    out.add(g.key)
            elif o[0] == "arg":
                seen, todo = set(), [(f.key, o[1])]
                while todo:
                    k = todo.pop()
                    if k in seen:
                        continue
                    seen.add(k)
                    e = s.given.get(k)
                    if e is None or e[2]:
                        return s.p.callees(i)
                    out |= e[0]
                    todo += e[1]
            elif o[0] == "load":
                l = o[1]
                k = s.field(f, l.a[0])
                t = s.tab.get(k) if k else None
                if t is None:
                    b = [x for x in lib.origins(f, l.a[0]) if x[0] == "g"]
                    t = None
                    for x in b:
                        g = f.unit.globals.get(x[1])
                        if g and "init" in g:
                            t = {f.unit.name: s._flat(f.unit, g["init"])}
                    if not t:
                        return s.p.callees(i)
                if f.unit.name in t:
                    out |= t[f.unit.name]
                else:
                    for x in t.values():
                        out |= x
            else:
                return s.p.callees(i)
        return [s.p.funcs[k] for k in sorted(out, key=str) if k in s.p.funcs]

    def _flat(s, u, o):
        out = set()
        if isinstance(o, list) and o:
            if o[0] == "g":
                g = s.p.resolve_name(o[1], u)
                return {g.key} if g is not None else set()
            for x in o[1:]:
                out |= s._flat(u, x)
        return out
