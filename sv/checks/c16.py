"""C16: strategy strings drive the code their tables announce."""
from .. import ast
from ..main import V, Result, need
from .c10 import inlib

KIND = {0: "case", 1: "double", 2: "int", 4: "strat", 5: "string"}
DEPR = 8


def obj(n):
    """(global, offset, member node) an address constant points to"""
    n = ast.strip(n)
    if n is None:
        return None
    if n[0] == "un" and n[3] == "&":
        n = n[4]
    off = 0
    x = n
    while x[0] == "mem" and not x[5]:
        off += x[7]
        x = ast.strip(x[3])
    if x[0] == "ref" and x[4] == "g":
        return x[3], off, n
    return None


def string(n):
    n = ast.strip(n)
    return n[3] if n is not None and n[0] == "str" else None


class Tabs:
    """the strategy tables of one configuration"""
    def __init__(s, tus):
        s.meth, s.para, s.cond, s.unit, s.stfn = {}, {}, {}, {}, {}
        s.funcs = {}
        for tu in tus:
            for f in tu.funcs:
                s.funcs.setdefault(f["name"], (tu, f))
        for tu in tus:
            g = {x["name"]: x for x in tu.globals if x["def"]}
            for x in g.values():
                if not x["init"] or x["type"].sugar not in ("StratTab", "const StratTab") or not inlib(tu.name):
                    continue
                refs = [ast.strip(k) for k in x["init"][3:6]]
                if any(r is None or r[0] != "ref" for r in refs):
                    continue                   # the dummy table
                m, p, c = [g.get(r[3]) for r in refs]
                if m is None or p is None or c is None:
                    continue
                s.unit[x["name"]] = (tu, g)
                s.meth[x["name"]] = [r[3:] for r in m["init"][3:] if r[0] == "init"]
                s.para[x["name"]] = [r[3:] for r in p["init"][3:] if r[0] == "init"]
                s.cond[x["name"]] = [r[3:] for r in c["init"][3:] if r[0] == "init"]
                for f in tu.funcs:
                    for n in ast.walk(f["body"]):
                        if n[0] == "call" and any(y[0] == "mem" and y[4] == "funcptr" and y[6] == "StratMethodTab_" for y in ast.walk(n[3])):
                            s.stfn.setdefault(x["name"], (f, n))


def match(a, b):
    """whether a parameter name announces a field name"""
    n = min(3, len(a))
    return n > 1 and a[:n].lower() == b[:n].lower()


def pname(tu, t):
    """record a pointer type points to"""
    return t.elt.extra if t is not None and t.kind == "ptr" and t.elt is not None and t.elt.kind in ("struct", "union") else None


def run(tier):
    out, samples = [], []
    cov = dict(tables=0, methods=0, parameters=0, conditions=0, substrategies=0, entry_guards=0, interpreters=0)

    def bad(key, tu, line, fn, msg):
        out.append(V(key, "%s:%d" % (tu.name, line), fn, msg))

    for config in ("def", "i64"):
        w = {"def": "32-bit integers", "i64": "64-bit integers"}[config]
        tus = [tu for tu in ast.load(config) if inlib(tu.name)]
        T = Tabs(tus)
        need(len(T.unit) >= 11, "only %d strategy tables found" % len(T.unit))
        bind = {}          # (param record, offset) -> strategy table
        for name in sorted(T.unit):
            tu, g = T.unit[name]
            cov["tables"] += 1
            padsize = next((t.size for t in tu.types if t.sugar == "StratNodeMethodData"), None)
            need(padsize is not None, "no StratNodeMethodData")
            need(name in T.stfn, "no interpreter found for %s" % name)
            stf, stcall = T.stfn[name]
            sty = tu.types[stf["type"]].extra
            grec = pname(tu, sty[0])
            block, rec = {}, {}
            seen = set()
            for k, r in enumerate(T.meth[name]):
                nm = string(r[1])
                if nm is None:
                    continue
                line = r[0][1]
                cov["methods"] += 1
                num = ast.const(r[0])
                if num != k:
                    bad("methnum:%s:%s" % (name, nm), tu, line, name, "method \"%s\" is row %d of its table but numbered %s: strategies naming it run another method" % (nm, k, num))
                if nm.lower() in seen:
                    bad("methname:%s:%s" % (name, nm), tu, line, name, "two methods are called \"%s\"" % nm)
                seen.add(nm.lower())
                fr = ast.strip(r[2])
                if fr is None or fr[0] != "ref" or fr[4] != "f":
                    bad("methfunc:%s:%s" % (name, nm), tu, line, name, "method \"%s\" has no routine" % nm)
                    continue
                ft = tu.ty(fr)
                ps = ft.extra or []
                d = obj(r[3])
                block[num] = d[0] if d else None
                if ft.elt.kind != "int":
                    bad("methret:%s:%s" % (name, nm), tu, line, name, "the routine of method \"%s\" does not return an error code" % nm)
                if ps and pname(tu, ps[0]) != grec:
                    bad("methgraph:%s:%s" % (name, nm), tu, line, name, "the routine of method \"%s\" takes a %s, not what its interpreter passes" % (nm, ps[0].sugar))
                nargs = len(stcall) - 4
                if len(ps) > nargs:
                    bad("methargs:%s:%s" % (name, nm), tu, line, name, "the routine of method \"%s\" takes %d arguments, the interpreter passes %d" % (nm, len(ps), nargs))
                for a, b in list(zip(ps, sty))[1:]:
                    if len(ps) == nargs and a is ps[-1]:
                        break
                    if a.kind != b.kind or a.kind == "ptr" and pname(tu, a) != pname(tu, b):
                        bad("methargs:%s:%s" % (name, nm), tu, line, name, "argument %s of the routine of method \"%s\" is not the %s it is given" % (a.sugar, nm, b.sugar))
                last = pname(tu, ps[-1]) if len(ps) == nargs else None
                rec[num] = last
                if d:
                    dt = g[d[0]]["type"] if d[0] in g else None
                    if dt is None:
                        bad("methdata:%s:%s" % (name, nm), tu, line, name, "defaults of method \"%s\" are not in this unit" % nm)
                        continue
                    if dt.size < padsize:
                        bad("methdata:%s:%s" % (name, nm), tu, line, name, "the default block of method \"%s\" has %d bytes but %d are copied from it (%s)" % (nm, dt.size, padsize, w))
                    inner = dt
                    if dt.kind == "union":
                        fl = [f for f in tu.records[dt.extra]["fields"] if f[1].kind == "struct"]
                        inner = fl[0][1] if fl else dt
                    if inner.size > padsize:
                        bad("methsize:%s:%s" % (name, nm), tu, line, name, "the parameters of method \"%s\" take %d bytes, a strategy node holds %d (%s)" % (nm, inner.size, padsize, w))
                    if last is not None and last != inner.extra:
                        bad("methparam:%s:%s" % (name, nm), tu, line, name, "the routine of method \"%s\" reads its parameters as %s but the defaults are a %s" % (nm, last, inner.extra))
                elif last is not None:
                    bad("methparam:%s:%s" % (name, nm), tu, line, name, "the routine of method \"%s\" expects parameters but the table gives no defaults" % nm)
            fields, names, owners = {}, set(), []
            for r in T.para[name] + [None] + T.cond[name]:
                if r is None:
                    fields, names = {}, set()
                    cond = True
                    continue
                if r is T.para[name][0]:
                    cond = False
                nm = string(r[2])
                if nm is None:
                    continue
                line = r[0][1]
                num, kind = ast.const(r[0]), ast.const(r[1])
                cov["conditions" if cond else "parameters"] += 1
                tag = "%s:%s:%s" % (name, "cond" if cond else num, nm)
                if not cond and num not in block:
                    bad("para:" + tag, tu, line, name, "parameter \"%s\" belongs to no method" % nm)
                    continue
                if kind is not None and kind & DEPR:
                    continue
                if (num, nm.lower()) in names:
                    bad("paraname:" + tag, tu, line, name, "two parameters of one method are called \"%s\"" % nm)
                names.add((num, nm.lower()))
                b, o = obj(r[3]), obj(r[4])
                if b is None or o is None:
                    bad("para:" + tag, tu, line, name, "parameter \"%s\" designates no field" % nm)
                    continue
                if b[0] != o[0]:
                    bad("parabase:" + tag, tu, line, name, "parameter \"%s\": the offset is taken between two different objects" % nm)
                    continue
                if cond:
                    bt = g[b[0]]["type"] if b[0] in g else next((x["type"] for x in tu.globals if x["name"] == b[0]), None)
                    if bt is None or bt.extra != grec or b[1] != 0:
                        bad("condbase:" + tag, tu, line, name, "condition variable \"%s\" is an offset in %s, but conditions are evaluated on a %s" % (nm, bt, grec))
                elif b[0] != block[num] or b[1] != 0:
                    bad("parabase:" + tag, tu, line, name, "parameter \"%s\" is an offset in %s, but the parameters of its method start at %s" % (nm, b[0], block[num]))
                    continue
                ft = tu.ty(o[2])
                k = KIND.get(kind)
                ok = {"int": ft.kind == "int" and ft.size == {"def": 4, "i64": 8}[config], "double": ft.kind == "float" and ft.size == 8,
                      "case": ft.kind in ("int", "enum") and ft.size == 4, "strat": ft.kind == "ptr" and pname(tu, ft) == "Strat_",
                      "string": ft.kind == "arr" and ft.elt.size == 1}.get(k, False)
                if not ok:
                    bad("paratype:" + tag, tu, line, name, "parameter \"%s\" is handled as %s but its field has type %s of %d bytes (%s)" % (nm, k, ft.sugar, ft.size, w))
                if cond and k not in ("int", "double"):
                    bad("paratype:" + tag, tu, line, name, "condition variable \"%s\" can only be a number" % nm)
                key = (num, o[1] - b[1])
                if key in fields and not cond:
                    bad("paradup:" + tag, tu, line, name, "parameters \"%s\" and \"%s\" set the same field" % (fields[key], nm))
                fields[key] = nm
                last_fld = o[2][4] if o[2][0] == "mem" else ""
                owners.append((name, cond, num, nm, last_fld, tu, line))
                if k == "strat":
                    d = obj(r[5])
                    if d is None or d[0] not in T.unit:
                        bad("parasel:" + tag, tu, line, name, "strategy parameter \"%s\" names no strategy table" % nm)
                    elif rec.get(num):
                        bind[(rec[num], o[1] - b[1])] = (d[0], nm, "%s:%d" % (tu.name, line))
                if k == "case":
                    sel = string(r[5])
                    if not sel or len(set(sel)) != len(sel):
                        bad("parasel:" + tag, tu, line, name, "parameter \"%s\" has selector %r" % (nm, sel))
                if len(samples) < 8 and cov["parameters"] % 23 == 1:
                    samples.append("%s: \"%s\" -> %s (%s)" % (tag, nm, ast.text(o[2]), k))
            # a name that announces the field of another parameter of the same block, and not its own
            for a in owners:
                if not any(match(a[3], a[4][i:]) for i in range(0, max(1, len(a[4]) - 2), 1)):
                    for b in owners:
                        if b[1:3] == a[1:3] and b[3] != a[3] and match(a[3], b[4]) and not match(b[3], b[4]):
                            bad("paraswap:%s:%s" % (name, a[3]), a[5], a[6], name, "\"%s\" sets the field %s, whereas %s, the field its name announces, is set by \"%s\"" % (a[3], a[4], b[4], b[3]))
        # the strategies handed to an interpreter were parsed with its tables
        st2tab = {f["name"]: t for t, (f, n) in T.stfn.items()}
        entries, gset, calls_of = [], {}, {}
        for tu in tus:
            for f in tu.funcs:
                guards, calls = set(), []
                vars_ = {}
                for n in ast.walk(f["body"]):
                    if n[0] == "bin" and n[3] in ("!=", "=="):
                        for a, b in ((n[4], n[5]), (n[5], n[4])):
                            o = obj(b) if ast.strip(b) and ast.strip(b)[0] == "un" else None
                            if o and o[0] in T.unit and any(y[0] == "mem" and y[4] == "tablptr" for y in ast.walk(a)):
                                guards.add(o[0])
                    if n[0] == "call" and ast.callee(n) in st2tab:
                        calls.append(n)
                    if n[0] == "decl":
                        for v in n[3:]:
                            if v[4] is not None:
                                vars_.setdefault(v[2], []).append(v[4])
                    if n[0] == "bin" and n[3] == "=" and n[4][0] == "ref":
                        vars_.setdefault(n[4][5], []).append(n[5])
                for n in calls:
                    t = st2tab[ast.callee(n)]
                    a = ast.strip(n[-1])
                    src = [a]
                    if a[0] == "ref" and a[5] in vars_:
                        src = [ast.strip(x) for x in vars_[a[5]]]
                    for a in src:
                        if a[0] == "mem" and (a[6], a[7]) in bind:
                            cov["substrategies"] += 1
                            bt, nm, wh = bind[(a[6], a[7])]
                            if bt != t:
                                bad("substrat:%s:%s" % (f["name"], nm), tu, n[1], f["name"], "%s is run by %s but is parsed with the tables %s (%s)" % (ast.text(a), ast.callee(n), bt, wh))
                gset[f["name"]] = guards
                calls_of[f["name"]] = {ast.callee(n) for n in ast.walk(f["body"]) if n[0] == "call"} - {None}
                if calls and any("SCOTCH_Strat" in tu.types[p[1]].sugar for p in f["params"]):
                    entries.append((tu, f, {st2tab[ast.callee(n)] for n in calls}))
        # the caller's strategy is checked where it is run, in a routine called from there, or in all callers
        for tu, f, tabs in entries:
            name = f["name"]
            callers = [c for c in calls_of if name in calls_of[c]]
            for t in tabs:
                cov["entry_guards"] += 1
                own = t in gset[name] or any(t in gset.get(c, ()) for c in calls_of[name])
                if not own and not (callers and all(t in gset[c] or any(t in gset.get(x, ()) for x in calls_of[c] - {name}) for c in callers)):
                    bad("guard:%s" % name, tu, f["line"], name, "the caller's strategy is run by an interpreter of %s without checking that it was made for it" % t)
        # every interpreter handles every kind of node
        for t, (f, n) in T.stfn.items():
            tu = T.unit[t][0]
            cases = set()
            for s in ast.walk(f["body"]):
                if s[0] == "switch" and any(y[0] == "mem" and y[4] == "typeval" for y in ast.walk(s[3])):
                    for c in ast.walk(s[4]):
                        if c[0] == "case":
                            cases.add(ast.const(c[3]))
            cov["interpreters"] += 1
            miss = {0, 1, 2, 3, 4} - cases
            if cases and miss - {3}:
                bad("nodes:%s" % t, tu, f["line"], f["name"], "strategy nodes of kind %s are not handled" % sorted(miss))
    need(cov["parameters"] >= 120 and cov["methods"] >= 100 and cov["conditions"] >= 100 and cov["substrategies"] >= 40 and cov["entry_guards"] >= 8, "too few table rows: %s" % cov)
    return Result(out, "in every strategy table, under both integer widths: methods are numbered by their row and take the parameters their defaults hold; each parameter's kind is the type of the field it sets, "
                  "in the block of its own method; condition variables are fields of what conditions are evaluated on; sub-strategies are parsed with the tables of the interpreter that runs them; "
                  "entry points check that the caller's strategy was made for the interpreter", cov, samples)
