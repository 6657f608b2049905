"""C07: all the threads of a team meet at the same barriers."""
import sys
from .. import pair, lib, ir, calls, unif
from ..flow import plain
from ..main import V, Result, need

TEAM = ("threadContextBarrier", "threadBarrier", "threadReduce", "threadScan")      # what a thread of a team does with all the others
LAUNCH = ("threadLaunch", "contextThreadLaunch")
SLEEP = ("threadWait",)                          # where threads wait to be launched again, in another team


class Spec:
    private = True                             # records of an array that a thread indexes with its number are its own

    def __init__(s, p):
        s.p = p

    def out(s, i):
        return {}

    def sent(s, i):
        return ()

    def seeds(s, f):
        return {}

    def result(s, i):
        n = plain(s.p.callee_name(i) or "")
        if n in unif.ALLOC or n in ("intRandVal", "intRandVal2", "contextIntRandVal"):
            return True
        return None

    def field(s, r, n):
        if r == "ThreadDescriptor_":
            return n == "thrdnum"
        return None

    def contents(s, r, n):
        return False


class Tokens:
    def __init__(s, p, w, T, U, only):
        s.p, s.w, s.T, s.only, s.places = p, w, T, only, U.places
        s.args, ch = {}, True
        while ch:
            ch = False
            for k in only:
                f = p.funcs[k]
                for b in w.view(f).live:
                    for i in f.blocks[b]:
                        for n, q in s.at(f, i):
                            a = pair.argroot(q)
                            if a is not None and a not in s.args.get(k, ()):
                                s.args.setdefault(k, set()).add(a); ch = True

    def at(s, f, i):
        if i.op != "call":
            return []
        n = plain(s.p.callee_name(i) or "")
        if n == "threadContextBarrier" and s.place(f, i.a[1])[0] == "arg" and not s.isdescriptor(f, i.a[1]):
            return []                          # the barrier of a context, not met on behalf of the thread that a descriptor stands for
        if n in TEAM:
            return [(n, s.place(f, i.a[1]))]
        return sorted({(plain(g.name), s.place(f, i.a[1 + a])) for g in s.T.targets(i) for a in s.args.get(g.key, ()) if 1 + a < len(i.a)}, key=str)

    def isdescriptor(s, f, o):
        while isinstance(o, int) and o >= f.nargs and f.inst[o].op in ir.CASTS:
            o = f.inst[o].a[0]
        return isinstance(o, int) and o >= f.nargs and f.inst[o].op == "load" and any(x[0] == "f" and x[1:3] == ("ThreadDescriptor_", "contptr") for x in s.places(f, f.inst[o].a[0]))

    def place(s, f, o):
        q = pair.rootof(f, o)
        while q[0] == "ld":
            q = q[1]
        return q[:2]


class Stable:
    """conditions that have the same value each time they are evaluated"""
    def __init__(s, p, U, reach):
        s.U, s.stored = U, set()
        for k in reach:
            f = p.funcs[k]
            for i in f.insts():
                if i.op == "store":
                    s.stored |= {x for x in U.places(f, i.a[1]) if x[0] in ("f", "g")}

    def key(s, f, o, d=0):
        if isinstance(o, list):
            return ("i", str(o[1])) if o[0] == "i" else ("n",) if o[0] == "n" else None
        if o < f.nargs:
            return ("arg", o)
        i = f.inst[o]
        if i.op in ir.CASTS:
            return s.key(f, i.a[0], d)
        if i.op == "load":
            pl = s.U.places(f, i.a[0])
            if pl and all(x[0] in ("f", "g") and x not in s.stored for x in pl):
                return ("ld", pair.rootof(f, i.a[0]))
        if i.op in ("icmp", "and", "or", "add", "sub") and d < 4:
            x = [s.key(f, z, d + 1) if not isinstance(z, str) else z for z in i.a]
            return None if None in x else (i.op,) + tuple(x)
        return None

    def cond(s, f, o):
        """(key, polarity) or None"""
        k = s.key(f, o)
        if k is None:
            return None
        if k[0] == "icmp" and k[1] == "ne":
            return ("icmp", "eq") + k[2:], False
        return k, True


def sequences(f, v, start, stop, tok, stable, given, cap=400):
    """sequences of meetings on the ways from a block to another one, without those that repeat a loop; a condition keeps its value along a way"""
    out, count = set(), [0]

    def go(b, on, known, seq):
        while True:
            if count[0] > 20000 or len(out) > cap:
                return
            if b == stop:
                out.add(seq)
                return
            if b in on:
                return
            on = on | {b}
            seq = seq + tuple(x for i in f.blocks[b] for x in tok.get(i.id, ()))
            ss = v.succ[b]
            if not ss:
                out.add(seq)
                return
            t = f.blocks[b][-1]
            if len(ss) > 1 and t.op == "br":
                c = stable.cond(f, t.a[0])
                if c is not None:
                    k, pol = c
                    if k not in known:
                        for n, x in enumerate(ss):
                            count[0] += 1
                            go(x, on, {**known, k: (n == 0) == pol}, seq)
                        return
                    b = ss[0 if known[k] == pol else 1]
                    continue
            if len(ss) == 1:
                b = ss[0]
                continue
            for x in sorted(set(ss)):
                count[0] += 1
                go(x, on, known, seq)
            return
    go(start, frozenset(), given, ())
    return out


def show(q):
    q = sorted(q, key=lambda x: (len(x), str(x)))
    return " or ".join(", ".join(n for n, x in t[:5]) or "none" for t in q[:2])


def reached(p, T, root):
    """what a thread runs itself: the teams that it launches are not followed"""
    r, todo = {root}, [root]
    while todo:
        f = p.funcs[todo.pop()]
        for i in f.insts():
            if i.op == "call" and plain(p.callee_name(i) or "") not in TEAM + LAUNCH + SLEEP:
                for g in T.targets(i):
                    if g.key not in r:
                        r.add(g.key); todo.append(g.key)
    return r


def run(tier):
    sys.setrecursionlimit(100000)
    out, samples = [], []
    p = lib.program("def")
    T = calls.Calls(p)
    w = unif.World(p, failing=True)
    # what runs in the threads of a team
    roots = set()
    for f in p.funcs.values():
        for i in f.insts():
            if i.op == "call" and plain(p.callee_name(i) or "") in LAUNCH and plain(f.name) not in LAUNCH:
                for a in i.a[1:]:
                    for k, x in [y if len(y) == 2 else (None, None) for y in lib.origins(f, a)]:
                        g = p.resolve_name(x, f.unit) if k == "g" else None
                        if g is not None and g.nargs:
                            roots.add(g.key)
    roots |= {f.key for f in p.funcs.values() if plain(f.name) in ("threadReduce", "threadScan")}
    team = {r: reached(p, T, r) for r in roots}
    reach = set().union(*team.values())
    U = unif.Uniform(p, w, Spec(p), T, reach)
    K = Tokens(p, w, T, U, reach)
    cov = dict(thread_functions=len(roots), functions_run_by_threads=len(reach), functions_with_meetings=0, meetings=0, branches=0, differing_branches=0)
    for k in sorted(reach, key=str):
        f = p.funcs[k]
        v, g = w.view(f), w.cfg(f)
        tok = {}
        for b in v.live:
            for i in f.blocks[b]:
                t = K.at(f, i)
                if t:
                    tok[i.id] = t
        if not tok:
            continue
        cov["functions_with_meetings"] += 1; cov["meetings"] += len(tok)
        if len(samples) < 12:
            samples.append("%s: %d meetings" % (plain(f.name), len(tok)))
        S = Stable(p, U, set().union(*[t for t in team.values() if k in t]))
        for b in sorted(g.reach):
            t = f.blocks[b][-1]
            ss = list(dict.fromkeys(v.succ[b]))
            if len(ss) < 2:
                continue
            cov["branches"] += 1
            if not U.differs(f, t.a[0]):
                continue
            cov["differing_branches"] += 1
            given = {}
            for d in g.reach:                  # what is known to have been decided before
                td = f.blocks[d][-1]
                if d != b and len(set(v.succ[d])) == 2 and td.op == "br" and g.dominates(d, b):
                    c = S.cond(f, td.a[0])
                    way = [n for n, x in enumerate(v.succ[d]) if x == b or (len(v.pred[x]) == 1 and g.dominates(x, b))]
                    if c is not None and len(way) == 1:
                        given[c[0]] = (way[0] == 0) == c[1]
            # conditions that are the same for all threads are compared value by value
            ways = []
            c = S.cond(f, t.a[0]) if t.op == "br" else None
            stop = g.ipdom.get(b)
            free = sorted({S.cond(f, f.blocks[x][-1].a[0])[0] for x in g.reach if f.blocks[x][-1].op == "br" and len(set(v.succ[x])) == 2
                           and not U.differs(f, f.blocks[x][-1].a[0]) and S.cond(f, f.blocks[x][-1].a[0])} - set(given), key=str)[:5]
            bad = None
            for m in range(1 << len(free)):
                val = {**given, **{x: bool(m >> n & 1) for n, x in enumerate(free)}}
                q = [sequences(f, v, x, stop, tok, S, {**val, c[0]: (n == 0) == c[1]} if c else val) for n, x in enumerate(ss)]
                if any(x != q[0] for x in q[1:]):
                    bad = q
                    break
            if bad:
                out.append(V("branch:%s:%s:%s" % (plain(f.name), ",".join(sorted({n for x in bad for z in x for n, _ in z})), len([o for o in out if o.where.startswith(t.where.split(":")[0])])), t.where, plain(f.name),
                             "threads of a team may part on a condition that is not the same for all of them (%s), and then not meet the same number of times: %s" % (
                                 "; ".join(U.explain(f, t.a[0])[:4]), " against ".join(show(x) for x in bad[:2]))))
    need(cov["thread_functions"] >= 7 and cov["functions_with_meetings"] >= 5 and cov["meetings"] >= 20 and cov["differing_branches"] >= 60, "too few meetings of threads found: %s" % cov)
    return Result(out, "no branch on a value that may differ between the threads of a team leads to different sequences of barriers, reductions and scans", cov, samples)
