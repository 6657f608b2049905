"""C23: every strategy the library writes for itself is one its parser accepts."""
import re
from .. import ast
from ..main import V, Result, need
from .c10 import inlib
from .c16 import Tabs, KIND, DEPR, obj, string


class Bad(Exception):
    pass


class Grammar:
    """the grammar of strategy strings (parser_yy.y), with the names the tables know"""
    def __init__(s, T):
        s.tab = {}
        for t in T.unit:
            meths = {}
            for r in T.meth[t]:
                nm = string(r[1])
                if nm is not None:
                    meths[nm.lower()] = ast.const(r[0])
            paras = {}
            for r in T.para[t]:
                nm = string(r[2])
                if nm is not None:
                    k = ast.const(r[1])
                    o = obj(r[5]) if KIND.get(k & ~DEPR) == "strat" else None
                    paras[(ast.const(r[0]), nm.lower())] = (KIND.get(k & ~DEPR), string(r[5]) if o is None else None, o[0] if o else None)
            conds = {}
            for r in T.cond[t]:
                nm = string(r[2])
                if nm is not None:
                    conds[nm.lower()] = KIND.get(ast.const(r[1]))
            s.tab[t] = (meths, paras, conds)

    def check(s, text, tab):
        s.t = text; s.i = 0
        s.select(tab)
        s.ws()
        if s.i < len(s.t):
            raise Bad("unexpected \"%s\"" % s.t[s.i:s.i + 20])

    def ws(s):
        while s.i < len(s.t) and s.t[s.i] in " \t\n":
            s.i += 1

    def peek(s):
        s.ws()
        return s.t[s.i] if s.i < len(s.t) else ""

    def expect(s, c):
        if s.peek() != c:
            raise Bad("\"%s\" expected before \"%s\"" % (c, s.t[s.i:s.i + 20]))
        s.i += 1

    def select(s, tab):
        while True:
            while s.peek() == "/" or s.peek() == "(" or s.peek().isalnum():
                s.testorgroup(tab)
            if s.peek() != "|":
                return
            s.i += 1

    def testorgroup(s, tab):
        c = s.peek()
        if c == "/":
            s.i += 1
            s.test(tab)
            s.expect("?")
            s.select(tab)
            if s.peek() == ":":
                s.i += 1
                s.select(tab)
            s.expect(";")
        elif c == "(":
            s.i += 1
            s.select(tab)
            s.expect(")")
        else:
            s.method(tab)

    def method(s, tab):
        meths, paras, conds = s.tab[tab]
        name = s.peek().lower(); s.i += 1
        if name not in meths:
            raise Bad("\"%s\" is not a method of this kind of strategy, before \"%s\"" % (name, s.t[s.i:s.i + 20]))
        if s.peek() != "{":
            return
        while True:
            s.i += 1
            s.ws()
            m = re.match(r"[A-Za-z][0-9A-Za-z]*", s.t[s.i:])
            if not m:
                raise Bad("parameter name expected before \"%s\"" % s.t[s.i:s.i + 20])
            best = None
            for (num, nm), p in paras.items():
                if num == meths[name] and m.group().lower().startswith(nm) and (best is None or len(nm) > len(best[0])):
                    best = (nm, p)
            if best is None:
                raise Bad("method \"%s\" has no parameter \"%s\"" % (name, m.group()))
            s.i += m.end()
            s.expect("=")
            k, sel, sub = best[1]
            if k == "strat":
                s.select(sub)
            elif k == "case":
                c = s.peek(); s.i += 1
                if not sel or c not in sel and c.lower() not in sel:
                    raise Bad("\"%s=%s\": the values of this parameter are \"%s\"" % (best[0], c, sel))
            elif k == "string":
                m = re.match(r'"[^"]*"', s.t[s.i:])
                if not m:
                    raise Bad("string expected for \"%s\"" % best[0])
                s.i += m.end()
            else:
                s.ws()
                m = re.match(r"[-+]?[0-9]+(\.[0-9]+)?([Ee][-+]?[0-9]+)?", s.t[s.i:])
                if not m:
                    raise Bad("number expected for \"%s\" before \"%s\"" % (best[0], s.t[s.i:s.i + 20]))
                s.i += m.end()
            c = s.peek()
            if c == "}":
                s.i += 1
                return
            if c != ",":
                raise Bad("\",\" or \"}\" expected before \"%s\"" % s.t[s.i:s.i + 20])

    # conditions: TESTOR
    def test(s, tab):
        s.tand(tab)
        while s.peek() == "|":
            s.i += 1
            s.tand(tab)

    def tand(s, tab):
        s.tnot(tab)
        while s.peek() == "&":
            s.i += 1
            s.tnot(tab)

    def tnot(s, tab):
        c = s.peek()
        if c == "!":
            s.i += 1
            return s.tnot(tab)
        if c == "(":
            i = s.i
            try:
                s.i += 1
                s.test(tab)
                s.expect(")")
                if s.peek() not in ("<", "=", ">", "+", "-", "*", "%"):
                    return
            except Bad:
                pass
            s.i = i
        s.expr(tab)
        if s.peek() not in ("<", "=", ">"):
            raise Bad("comparison expected before \"%s\"" % s.t[s.i:s.i + 20])
        s.i += 1
        s.expr(tab)

    def expr(s, tab):
        s.term(tab)
        while s.peek() in ("+", "-", "*", "%"):
            s.i += 1
            s.term(tab)

    def term(s, tab):
        c = s.peek()
        if c == "(":
            s.i += 1
            s.expr(tab)
            s.expect(")")
            return
        m = re.match(r"[-+]?[0-9]+(\.[0-9]+)?([Ee][-+]?[0-9]+)?", s.t[s.i:])
        if m:
            s.i += m.end()
            return
        m = re.match(r"[A-Za-z][0-9A-Za-z]*", s.t[s.i:])
        if not m:
            raise Bad("value expected before \"%s\"" % s.t[s.i:s.i + 20])
        conds = s.tab[tab][2]
        if not any(m.group().lower().startswith(c) for c in conds):
            raise Bad("\"%s\" is not a variable conditions know" % m.group())
        s.i += m.end()


MAXSTATES = 4096


class Strings:
    """follows the string values of one function along every choice it makes"""
    def __init__(s, tu, funcs, sinks, emit):
        s.tu = tu; s.funcs = funcs; s.sinks = sinks; s.emit = emit; s.over = []; s.lost = 0; s.wide = False; s.built = 0

    def key(s, n):
        return ast.text(n) + "|" + "|".join(str(x[3]) for x in ast.walk(n) if x[0] in ("int", "ref"))

    def cond(s, st, c):
        """[(state, truth)]"""
        if c is None:
            return [(st, True)]
        c = ast.strip(c)
        v = ast.const(c)
        if v is not None:
            return [(st, bool(v))]
        if c[0] == "un" and c[3] == "!":
            return [(x, not b) for x, b in s.cond(st, c[4])]
        if c[0] == "bin" and c[3] in ("&&", "||"):
            out = []
            for x, b in s.cond(st, c[4]):
                if b == (c[3] == "||"):
                    out.append((x, b))
                else:
                    out += s.cond(x, c[5])
            return out
        neg = False
        if c[0] == "bin" and c[3] in ("==", "!=") and ast.const(c[5]) == 0:
            neg = c[3] == "=="
            k = s.key(c[4])
        else:
            k = s.key(c)
        if any(x[0] == "call" for x in ast.walk(c)):
            outs = s.ev(st, c)
            r = []
            for x, v in outs:
                r += [(x, True), (dict(x), False)]
            return r
        kn = st.get(("cond", k))
        if kn is not None:
            return [(st, kn != neg)]
        a, b = dict(st), dict(st)
        a[("cond", k)] = True; b[("cond", k)] = False
        return [(a, not neg), (b, neg)]

    def lv(s, n):
        n = ast.strip(n)
        while n is not None and (n[0] == "un" and n[3] in ("&", "*") or n[0] == "sub" and ast.const(n[4]) == 0):
            n = ast.strip(n[4] if n[0] == "un" else n[3])
        if n is None:
            return None
        if n[0] == "ref":
            return n[5]
        return None

    def ev(s, st, n):
        """[(state, value)]; value is a string, ("num",) or None"""
        n0 = n
        n = ast.strip(n)
        if n is None:
            return [(st, None)]
        k = n[0]
        if k == "str":
            return [(st, n[3])]
        if k == "ref":
            return [(st, st.get(n[5]))]
        if k == "?:":
            out = []
            for x, b in s.cond(st, n[3]):
                out += s.ev(x, n[4] if b else n[5])
            return out
        if k == "bin" and n[3] == "=":
            out = []
            for x, v in s.ev(st, n[5]):
                y = dict(x)
                l = s.lv(n[4])
                if l is not None:
                    y[l] = v
                out.append((y, v))
            return out
        if k == "bin" and n[3] == ",":
            out = []
            for x, v in s.ev(st, n[4]):
                out += s.ev(x, n[5])
            return out
        if k == "call":
            return s.call(st, n)
        if k in ("bin", "un", "cast"):
            sts = [(st, None)]
            for c in ast.kids(n):
                if any(x[0] == "call" or x[0] == "bin" and x[3] == "=" for x in ast.walk(c)):
                    sts = [(y, None) for x, _ in sts for y, _ in s.ev(x, c)]
            return sts
        return [(st, None)]

    def put(s, st, dst, v, n):
        st = dict(st)
        if dst is not None:
            sz = st.get(("size", dst))
            s.built += 1
            if v is not None and sz and len(v) + 1 > sz:
                s.over.append((n[1], sz, len(v)))
            st[dst] = v
        return st

    def call(s, st, n):
        name = ast.callee(n)
        args = n[4:]
        outs = [(st, [])]
        for a in args:
            nx = []
            for x, vs in outs:
                for y, v in s.ev(x, a):
                    nx.append((y, vs + [v]))
            outs = nx
            if len(outs) > MAXSTATES:
                s.lost += 1
                return [(st, None)]
        res = []
        for x, vs in outs:
            if name in s.sinks:
                tab, k = s.sinks[name]
                if k < len(vs):
                    s.emit(tab, vs[k], n, name, x)
                res.append((x, None))
            elif name in ("strcpy", "strncpy", "__builtin_strcpy", "memcpy", "strcat", "stpcpy"):
                d = s.lv(args[0])
                v = vs[1]
                if name == "strcat":
                    v = x.get(d) + v if isinstance(x.get(d), str) and isinstance(v, str) else None
                res.append((s.put(x, d, v, n), v))
            elif name in ("sprintf", "snprintf", "__builtin_sprintf", "__builtin_snprintf"):
                d = s.lv(args[0])
                f = 1 if name.endswith("_sprintf") or name == "sprintf" else 2
                v = vs[f]
                if isinstance(v, str):
                    rest = vs[f + 1:]
                    k = 0
                    o = ""
                    for p in re.split(r"(%[-+ 0-9.*]*[hlLqjzt]*[a-zA-Z%])", v):
                        if not p.startswith("%") or p == "%":
                            o += p
                        elif p == "%%":
                            o += "%"
                        else:
                            a = rest[k] if k < len(rest) else None
                            k += 1
                            if p.endswith("s"):
                                if not isinstance(a, str):
                                    o = None
                                    break
                                o += a
                            elif p[-1] in "dui":
                                t = s.tu.ty(args[f + k]) if f + k < len(args) else None
                                o += "7" if not s.wide else "-" + "7" * (19 if t is None or t.size > 4 else 10)
                            elif p[-1] in "feEgG":
                                o += "0.050000" if not s.wide else "-" + "9" * 309 + ".050000"
                            elif p[-1] == "c":
                                o = None
                                break
                            else:
                                o = None
                                break
                    v = o
                res.append((s.put(x, d, v, n), None))
            elif name and name.endswith("stringSubst"):
                d = s.lv(args[0])
                b = x.get(d)
                v = b.replace(vs[1], vs[2]) if isinstance(b, str) and isinstance(vs[1], str) and isinstance(vs[2], str) else (b if isinstance(b, str) and isinstance(vs[1], str) and vs[1] not in b else None)
                res.append((s.put(x, d, v, n), None))
            elif name in s.funcs and s.depth < 4 and s.funcs[name][0] is s.tu and s.stringy(name):
                res += s.inline(x, n, name, vs, args)
            else:
                y = None
                for a, v in zip(args, vs):
                    d = s.lv(a)
                    t = s.tu.ty(a)
                    if d is not None and isinstance(v, str) and name not in READERS and t is not None and t.kind == "ptr" and "const" not in t.canon:
                        y = y or dict(x)
                        y[d] = None
                res.append((y or x, None))
        return res

    def stringy(s, name):
        tu, f = s.funcs[name]
        if f["name"] in s.sinks:
            return False
        return any(x[0] == "call" and (ast.callee(x) or "").endswith(("stringSubst", "strcpy", "sprintf", "strcat")) for x in ast.walk(f["body"])) or \
            f["ret"] is not None and "char" in tu.types[f["ret"]].canon

    def inline(s, st, n, name, vs, args):
        tu, f = s.funcs[name]
        st = dict(st)
        back = []
        for p, v, a in zip(f["params"], vs, args):
            st[p[2]] = v
            d = s.lv(a)
            if d is not None:
                st[("size", p[2])] = st.get(("size", d))
                back.append((p[2], d))
        s.depth += 1
        res = []
        for x, r in s.body(f, st):
            x = dict(x)
            for p, d in back:
                t = next(q for q in f["params"] if q[2] == p)
                if tu.types[t[1]].kind == "ptr" and "const" not in tu.types[t[1]].canon:
                    x[d] = x.get(p)
            res.append((x, r))
        s.depth -= 1
        return res

    def body(s, f, st):
        """[(state at return, value)]"""
        s.rets = getattr(s, "rets", [])
        save, s.rets = s.rets, []
        ends = s.run(f["body"], [st])
        out = s.rets + [(x, None) for x in ends]
        s.rets = save
        return out

    def run(s, n, sts):
        if n is None or not sts:
            return sts
        if len(sts) > MAXSTATES:
            s.lost += 1
            sts = sts[:MAXSTATES]
        k = n[0]
        if k == "{":
            for c in n[3:]:
                sts = s.run(c, sts)
            return sts
        if k == "if":
            out = []
            for st in sts:
                for x, b in s.cond(st, n[3]):
                    out += s.run(n[4] if b else n[5], [x])
            return out
        if k == "decl":
            for v in n[3:]:
                t = s.tu.types[v[1]]
                nx = []
                for st in sts:
                    st = dict(st)
                    if t.kind == "arr" and t.elt.size == 1 and t.extra:
                        st[("size", v[2])] = t.extra
                    if v[4] is not None:
                        for x, val in s.ev(st, v[4]):
                            x = dict(x); x[v[2]] = val
                            nx.append(x)
                    else:
                        nx.append(st)
                sts = nx
            return sts
        if k == "ret":
            for st in sts:
                s.rets += s.ev(st, n[3]) if n[3] is not None else [(st, None)]
            return []
        if k == "switch":
            cases, cur = [], None
            body = n[4][3:] if n[4] and n[4][0] == "{" else [n[4]]
            flat = []
            for c in body:
                while c is not None and c[0] in ("case", "default"):
                    flat.append(("label", c)); c = c[4] if c[0] == "case" else c[3]
                flat.append(("stmt", c))
            out = []
            starts = [i for i, x in enumerate(flat) if x[0] == "label"]
            hasdef = any(flat[i][1][0] == "default" for i in starts)
            kk = s.key(n[3])
            for i in starts:
                lab = flat[i][1]
                cur = []
                for st in sts:
                    sel = ast.const(lab[3]) if lab[0] == "case" else "default"
                    if st.get(("switch", kk), sel) != sel:
                        continue
                    x = dict(st); x[("switch", kk)] = sel
                    cur.append(x)
                brk = []
                for kind, c in flat[i + 1:]:
                    if kind == "stmt":
                        if c is not None and c[0] == "break":
                            brk += cur; cur = []
                            break
                        cur = s.run(c, cur)
                out += brk + cur
            if not hasdef:
                out += [dict(x) for x in sts]
            return out
        if k in ("for", "while", "do"):
            assigned = set()
            for x in ast.walk(n):
                if x[0] == "bin" and x[3].endswith("=") and x[3] not in ("==", "!=", "<=", ">="):
                    assigned.add(s.lv(x[4]))
                if x[0] == "call":
                    for a in x[4:]:
                        assigned.add(s.lv(a))
            out = []
            for st in sts:
                x = dict(st)
                for a in assigned:
                    if a in x:
                        x[a] = None
                out.append(x)
            return out
        if k in ("break", "continue", "goto"):
            return []
        if k == "label":
            return s.run(n[4], sts)
        if k in ("case", "default", "nop", "s"):
            return sts
        out = []
        for st in sts:
            out += [x for x, v in s.ev(st, n)]
        seen, res = set(), []
        for x in out:
            h = frozenset((a, b) for a, b in x.items() if b is not None)
            if h not in seen:
                seen.add(h); res.append(x)
        return res


READERS = {"strlen", "strcmp", "strncmp", "strncasecmp", "printf", "fprintf", "SCOTCH_errorPrint", "SCOTCH_errorPrintW", "SCOTCH_errorProg"}


def run(tier):
    out, samples = [], []
    cov = dict(strategy_parsers=0, functions=0, strings=0, distinct_strings=0, undetermined=0)
    tus = [tu for tu in ast.load("def") if inlib(tu.name)]
    T = Tabs(tus)
    need(len(T.unit) >= 11, "strategy tables not found")
    G = Grammar(T)
    # routines that parse one of their arguments: name -> (table, argument)
    sinks = {}
    direct = {}
    init = [n for n in T.funcs if n.endswith("stratInit") and n != "SCOTCH_stratInit"]
    need(init, "strategy parser not found")
    ch = True
    while ch:
        ch = False
        for tu in tus:
            for f in tu.funcs:
                if f["name"] in sinks:
                    continue
                pars = {p[2]: k for k, p in enumerate(f["params"])}
                for n in ast.walk(f["body"]):
                    if n[0] != "call":
                        continue
                    c = ast.callee(n)
                    if c in init:
                        o, a = obj(n[4]), ast.strip(n[5])
                        tab = o[0] if o else None
                    elif c in sinks:
                        tab, k = sinks[c]
                        a = ast.strip(n[4 + k]) if len(n) > 4 + k else None
                    else:
                        continue
                    if a is not None and a[0] == "ref" and a[5] in pars and tab in T.unit:
                        sinks[f["name"]] = (tab, pars[a[5]]); ch = True
    need(len(sinks) >= 8, "only %d routines found that parse a strategy" % len(sinks))
    cov["strategy_parsers"] = len(sinks)
    done = {}
    cur = {}

    def emit(tab, v, n, name, st):
        cov["strings"] += 1
        f = cur["f"]; tu = cur["tu"]
        if not isinstance(v, str):
            cov["undetermined"] += 1
            return
        cur["n"] += 1
        if (tab, v) in done:
            return
        cov["distinct_strings"] += 1
        try:
            G.check(v, tab)
            done[(tab, v)] = True
            if len(samples) < 6 and cov["distinct_strings"] % 19 == 1:
                samples.append("%s: %s" % (f["name"], v[:160]))
        except Bad as e:
            done[(tab, v)] = False
            ch = sorted(k[1].split("|")[0] + ("" if b else " is false") for k, b in st.items() if isinstance(k, tuple) and k[0] == "cond")
            out.append(V("strategy:%s:%s" % (f["name"], str(e)[:60]), "%s:%d" % (f["file"], n[1]), f["name"],
                         "the strategy string given to %s is refused: %s; string: %s" % (name, e, v[:300]), ["when " + ", ".join(ch)] if ch else []))
    determined = 0
    for tu in tus:
        for f in tu.funcs:
            if f["name"] in sinks and not f["name"].startswith("SCOTCH_"):
                pass
            hit = False
            for n in ast.walk(f["body"]):
                if n[0] == "call" and (ast.callee(n) in sinks or ast.callee(n) in init):
                    hit = True
            if not hit or f["name"] in sinks:
                continue
            cov["functions"] += 1
            cur.update(f=f, tu=tu, n=0)
            S = Strings(tu, T.funcs, dict(sinks), emit)
            S.depth = 0
            for n in ast.walk(f["body"]):
                if n[0] == "call" and ast.callee(n) in init:
                    o = obj(n[4])
                    a = ast.strip(n[5])
                    if o and o[0] in T.unit and a[0] == "str":
                        emit(o[0], a[3], n, "the parser", {})
            S.body(f, {})
            for line, sz, ln in S.over:
                out.append(V("buffer:%s" % f["name"], "%s:%d" % (f["file"], line), f["name"], "a strategy string of %d characters is built in a buffer of %d" % (ln, sz)))
            determined += cur["n"] > 0
    need(determined >= 9, "the strings of only %d routines could be determined" % determined)
    return Result(out, "every strategy string the library builds, for every combination of the flags its text depends on, follows the strategy grammar and names only methods, parameters, parameter values "
                  "and condition variables of the tables it is parsed with", cov, samples)
