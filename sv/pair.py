"""Which paired operations (lock and unlock, start and wait) may be left open at each point of a function."""
from . import ir

OPEN, CLOSED = 1, 2
UNKNOWN, TOP = object(), object()


def assume0(n):
    return n is not None and (n.startswith(("MPI_", "pthread_mutex_", "pthread_cond_")))


def ret0(prog, f, memo={}):
    """the function returns 0 whenever MPI and locking routines do"""
    k = id(prog), f.key
    if k not in memo:
        memo[k] = False
        if f.ret.startswith("i"):
            c = Const(prog, f)
            rets = [b[-1] for n, b in enumerate(f.blocks) if n in c.live and b[-1].op == "ret"]
            memo[k] = bool(rets) and all(c.get(t.a[0]) == 0 for t in rets)
    return memo[k]


class Const:
    """blocks and edges that remain when every MPI and locking routine succeeds"""
    def __init__(s, prog, f):
        val = {}

        def get(o):
            if isinstance(o, int):
                return val.get(o, UNKNOWN) if o >= f.nargs else TOP
            if isinstance(o, list) and o[0] == "i":
                return int(o[1])
            return TOP
        live, edges = {0}, set()
        ch = True
        while ch:
            ch = False
            for b in sorted(live):
                for i in f.blocks[b]:
                    v = TOP
                    if i.op == "call":
                        g = None if assume0(prog.callee_name(i)) else prog.callee(i)
                        v = 0 if assume0(prog.callee_name(i)) or g is not None and ret0(prog, g) else TOP
                    elif i.op == "phi":
                        c = [get(x[0]) for x in i.a if (x[1], b) in edges]
                        c = [x for x in c if x is not UNKNOWN]
                        v = UNKNOWN if not c else c[0] if all(x == c[0] and x is not TOP for x in c) else TOP
                    elif i.op in ("zext", "trunc", "sext"):
                        v = get(i.a[0])
                    elif i.op == "icmp":
                        x, y = get(i.a[1]), get(i.a[2])
                        if x is UNKNOWN or y is UNKNOWN:
                            v = UNKNOWN
                        elif x is not TOP and y is not TOP and i.a[0] in ("eq", "ne"):
                            v = int((x == y) == (i.a[0] == "eq"))
                    elif i.op in ("or", "and", "xor", "add"):
                        x, y = get(i.a[0]), get(i.a[1])
                        if x is UNKNOWN or y is UNKNOWN:
                            v = UNKNOWN
                        elif x is not TOP and y is not TOP:
                            v = {"or": x | y, "and": x & y, "xor": x ^ y, "add": x + y}[i.op]
                    if val.get(i.id, UNKNOWN) is not v and val.get(i.id, UNKNOWN) != v:
                        val[i.id] = v if val.get(i.id, UNKNOWN) is UNKNOWN else TOP
                        ch = True
                t = f.blocks[b][-1]
                out = f.succ[b]
                if t.op == "br" and len(t.a) == 3:
                    c = get(t.a[0])
                    if c is UNKNOWN:
                        out = []
                    elif c is not TOP:
                        out = [out[0] if c & 1 else out[1]]
                for x in out:
                    if (b, x) not in edges:
                        edges.add((b, x)); live.add(x); ch = True
        s.live, s.edges, s.val, s.get = live, edges, val, get


class Conds:
    """branch conditions that are tested more than once: what a path decided about them holds at the next test"""
    def __init__(s, prog, f, C):
        s.f, s.C = f, C
        stores = set()
        for i in f.insts():
            if i.op == "store":
                stores.add(rootof(f, i.a[1]))
        s.stores = stores
        s.memo = {}
        use = {}
        s.key = {}
        for b in C.live:
            t = f.blocks[b][-1]
            if t.op == "br" and len(t.a) == 3 and isinstance(t.a[0], int) and t.a[0] >= f.nargs:
                k, pol, dep = s.cond(t.a[0])
                if k is not None:
                    s.key[b] = (k, pol)
                    use.setdefault(k, [set(), dep])[0].add(b)
        keep = sorted((k for k, v in use.items() if len(v[0]) > 1), key=str)[:12]
        num = {k: n for n, k in enumerate(keep)}
        s.key = {b: (num[k], p) for b, (k, p) in s.key.items() if k in num}
        s.kill = {}
        for k in keep:
            for d in use[k][1]:
                s.kill.setdefault(d, set()).add(num[k])

    def cond(s, o):
        i = s.f.inst[o]
        if i.op == "icmp":
            dep = set()
            a, b = s.num(i.a[1], dep), s.num(i.a[2], dep)
            p = i.a[0]
            inv = {"ne": "eq", "sge": "slt", "uge": "ult", "sle": "sgt", "ule": "ugt"}
            pol = True
            if p in inv:
                p, pol = inv[p], False
            if p in ("sgt", "ugt"):
                p, a, b = {"sgt": "slt", "ugt": "ult"}[p], b, a
            if p == "eq" and str(b) < str(a):
                a, b = b, a
            return (p, a, b), pol, dep
        return None, True, set()

    def num(s, o, dep):
        if not isinstance(o, int):
            return ("c", str(o))
        if o < s.f.nargs:
            return ("arg", o)
        i = s.f.inst[o]
        if i.op in ("add", "sub", "mul", "and", "or", "sdiv", "srem", "shl", "icmp", "xor"):
            return (i.op,) + tuple(s.num(x, dep) if isinstance(x, (int, list)) else x for x in i.a)
        if i.op in ir.CASTS:
            return s.num(i.a[0], dep)
        if i.op == "load":
            r = rootof(s.f, i.a[0])
            if r not in s.stores and r[0] in ("arg", "ld"):
                return ("load", r)
            if r[0] == "loc" and r not in s.stores and isinstance(i.a[0], int):
                u = [x for x in s.f.uses[r[1]] if x.op != "load"]
                if len(u) == 1 and u[0].op == "call" and i.a[0] == r[1]:      # set by one call
                    dep.add(u[0].bb)
                    return ("load", r)
        dep.add(i.bb)
        return ("v", o)

    def go(s, b, kn):
        """(successor, what is known there)"""
        ss = [x for x in s.f.succ[b] if (b, x) in s.C.edges]
        out = []
        k = s.key.get(b)
        for n, x in enumerate(s.f.succ[b]):
            if (b, x) not in s.C.edges:
                continue
            kk = kn
            if k is not None and len(ss) > 1:
                v = (n == 0) == k[1]
                d = dict(kn)
                if k[0] in d and d[k[0]] != v:
                    continue
                kk = kn | {(k[0], v)}
            kl = s.kill.get(x)
            if kl:
                kk = frozenset(z for z in kk if z[0] not in kl)
            out.append((x, kk))
        return out


def rootof(f, o, depth=0):
    """(kind, ..., offset) of the place a pointer designates; array indices are ignored"""
    off = 0
    while isinstance(o, int) and o >= f.nargs:
        i = f.inst[o]
        if i.op == "getelementptr":
            off += (i.x or {}).get("off") or 0
            o = i.a[1]
        elif i.op in ir.CASTS:
            o = i.a[0]
        else:
            break
    if isinstance(o, list):
        if o[0] in ("gep", "ce"):
            for x in o[1:]:
                if isinstance(x, list) and x and x[0] == "g":
                    return ("g", x[1], off)
        return ("g", o[1], off) if o[0] == "g" else ("?",)
    if o < f.nargs:
        return ("arg", o, off)
    i = f.inst[o]
    if i.op == "alloca":
        return ("loc", i.id, 0)
    if i.op == "load" and depth < 5:
        return ("ld", rootof(f, i.a[0], depth + 1), off)
    if i.op in ("phi", "select") and depth < 3:
        c = {rootof(f, x, depth + 1) for x in ir.operands(i) if not (isinstance(x, list) and x[0] == "n") and x != o and (i.op == "phi" or x != i.a[0])}
        if len(c) == 1:
            return c.pop()
        return ("phi", o, off)
    return ("val", o, off)


def argroot(r):
    """index of the parameter a place is reached from, or None"""
    while r[0] == "ld":
        r = r[1]
    return r[1] if r[0] == "arg" else None


def rebase(r, prog, call):
    """a place of the callee, seen from the caller"""
    f = call.fn
    if len(r) == 2 and r[0] in ("arg", "ld"):
        q = rebase(r + (0,), prog, call)
        return q[:2]
    if r[0] == "arg":
        if r[1] + 1 >= len(call.a):
            return ("?",)
        b = rootof(f, call.a[1 + r[1]])
        return b[:-1] + (b[-1] + r[2],) if b[0] in ("arg", "ld", "g", "phi", "val") else b
    if r[0] == "ld":
        return ("ld", rebase(r[1], prog, call), r[2])
    return r


class Pairs:
    def __init__(s, prog, event, loops=False, may=False):
        s.p, s.event, s.loops, s.may = prog, event, loops, may
        s.memo, s.consts, s.all = {}, {}, False

    def events(s, f, i):
        """[(kind, place, site)] of an instruction"""
        if i.op != "call":
            return []
        e = s.event(f, i)
        if e is not None:
            return [(k, r, i) for k, r in e]
        g = s.p.callee(i)
        if g is None:
            return []
        return [(k, s.moved(r, rebase(s.place(r), s.p, i)), i) for k, r in sorted(s.summary(g), key=str)]

    def place(s, r):
        """the place of a state key"""
        return r

    def moved(s, r, place):
        return place

    def closed(s, r, st):
        """places that closing r closes: ("*", place) closes every class of a place"""
        if r[0] == "*":
            return [q for q in st if q[0] == "#" and q[1] == r[1]]
        return [r]

    def summary(s, f):
        """{(kind, key)}: what a call leaves open, and what it closes, among the places its caller knows"""
        if f.key in s.memo:
            return s.memo[f.key]
        s.memo[f.key] = frozenset()
        res = s.run(f)
        sm = set()
        for r, v in res["exit"].items():
            if argroot(s.place(r)) is None:
                continue
            if OPEN in v and (s.may or CLOSED not in v):
                sm.add(("open", r))
            elif v == {CLOSED} and r in res["closed"] and not s.may:
                sm.add(("close", r))
        if s.may:
            opened = {r for k, r in sm}
            for e in res["events"].values():
                for k, r, _ in e:
                    if k == "close" and argroot(s.place(r)) is not None and not s.closed(r, {q: 1 for q in opened}):
                        sm.add(("close", r))
        s.memo[f.key] = frozenset(sm)
        return s.memo[f.key]

    def const(s, f):
        if f.key not in s.consts:
            s.consts[f.key] = Const(s.p, f)
        return s.consts[f.key]

    def run(s, f):
        """states at exits; what happens at each operation"""
        ev = {}
        for i in f.insts():
            if i.op == "call":
                e = s.events(f, i)
                if e:
                    ev[i.id] = e
        res = dict(exit={}, closed=set(), reopen=[], unopened=[], events=ev, exits=[], before={})
        if not ev and not s.all:
            return res
        C = s.const(f)
        lclose = {}
        if s.loops:
            lclose = s._loopclose(f, C, ev)
        n = len(f.blocks)
        K = Conds(s.p, f, C)
        inn = [{} for _ in range(n)]          # known conditions -> {place: state}
        inn[0] = {frozenset(): {}}
        work = {0}

        def step(b, st, record=False):
            st = dict(st)
            for i in f.blocks[b]:
                if record and (i.op == "call" or s.all):
                    m = res["before"].setdefault(i.id, {})
                    for r, v in st.items():
                        m[r] = m.get(r, frozenset()) | v
                for k, r, x in ev.get(i.id, ()):
                    if k == "open":
                        cur = st.get(r, frozenset([CLOSED]))
                        if record and any(isinstance(c, tuple) for c in cur):
                            res["reopen"].append((i, r))
                        st[r] = frozenset(c for c in cur if c != CLOSED) | {(OPEN, i.id)}
                        continue
                    for q in s.closed(r, st):
                        if record and CLOSED in st.get(q, frozenset([CLOSED])):
                            res["unopened"].append((i, q))
                        st[q] = frozenset([CLOSED])
                        res["closed"].add(q)
            return st
        while work:
            b = work.pop()
            for kn, st in list(inn[b].items()):
                out = step(b, st)
                for x, k2 in K.go(b, kn):
                    o = dict(out)
                    for r in lclose.get((b, x), ()):
                        for q in s.closed(r, o):
                            o[q] = frozenset([CLOSED])
                    if k2 not in inn[x]:
                        inn[x][k2] = o; work.add(x)
                        continue
                    old = inn[x][k2]
                    m = {}
                    for r in set(o) | set(old):
                        m[r] = o.get(r, frozenset([CLOSED])) | old.get(r, frozenset([CLOSED]))
                    if m != old:
                        inn[x][k2] = m; work.add(x)
        for b in range(n):
            for kn, st in inn[b].items():
                st = step(b, st, True)
                t = f.blocks[b][-1]
                if t.op == "ret":
                    res["exits"].append((t, st))
                    for r, v in st.items():
                        w = {OPEN if isinstance(x, tuple) else x for x in v}
                        res["exit"].setdefault(r, set()).update(w)
        for r in res["exit"]:
            if any(r not in st for _, st in res["exits"]):
                res["exit"][r].add(CLOSED)
        return res

    def _loopclose(s, f, C, ev):
        """edges leaving a loop in which a place is closed at every turn that goes round"""
        out = {}
        from .cfg import CFG
        g = CFG(f)
        for b in range(len(f.blocks)):
            if b not in C.live:
                continue
            for h in f.succ[b]:
                if (b, h) in C.edges and b in g.reach and g.dominates(h, b):
                    body, todo = {h, b}, [b]
                    while todo:
                        x = todo.pop()
                        if x == h:
                            continue
                        for p in f.pred[x]:
                            if p not in body and p in C.live:
                                body.add(p); todo.append(p)
                    rs = set()
                    for x in body:
                        for i in f.blocks[x]:
                            for k, r, _ in ev.get(i.id, ()):
                                if k == "close":
                                    rs.add(r)
                    # a place that is also opened within the loop is decided by the flow itself
                    for x in body:
                        for i in f.blocks[x]:
                            for k, r, _ in ev.get(i.id, ()):
                                if k == "open":
                                    rs -= {q for q in rs if r in s.closed(q, {r: 1})}
                    if rs:
                        for x in body:
                            for y in f.succ[x]:
                                if y not in body:
                                    out.setdefault((x, y), set()).update(rs)
        return out
