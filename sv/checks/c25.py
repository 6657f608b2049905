"""C25: every process of a communicator takes part in its collective operations, in the same order."""
import re, sys
from .. import pair, lib, ir, calls, unif
from ..flow import plain
from ..main import V, Result, need

# collective: (argument of the communicator, {output argument: differs between processes})
COLL = {"MPI_Allreduce": (5, {1: False}), "MPI_Bcast": (4, {0: False}), "MPI_Allgather": (6, {3: False}), "MPI_Allgatherv": (7, {3: False}),
        "MPI_Alltoall": (6, {3: True}), "MPI_Alltoallv": (8, {4: True}), "MPI_Gather": (7, {3: True}), "MPI_Gatherv": (8, {3: True}),
        "MPI_Reduce": (6, {1: True}), "MPI_Scan": (5, {1: True}), "MPI_Exscan": (5, {1: True}), "MPI_Scatter": (7, {3: True}), "MPI_Scatterv": (8, {4: True}),
        "MPI_Barrier": (0, {}), "MPI_Comm_dup": (0, {1: False}), "MPI_Comm_split": (0, {3: False}), "MPI_Comm_create": (0, {2: False}),
        "MPI_Reduce_scatter": (5, {1: True}), "MPI_Reduce_scatter_block": (5, {1: True}), "MPI_Ialltoallv": (8, {4: True}), "MPI_Ialltoall": (6, {3: True}),
        "MPI_Ibcast": (4, {0: False}), "MPI_Iallreduce": (5, {1: False}), "MPI_Iallgather": (6, {3: False}), "MPI_Ibarrier": (0, {})}
OUT = {"MPI_Comm_rank": {1: True}, "MPI_Comm_size": {1: False}, "MPI_Recv": {0: True, 6: True}, "MPI_Irecv": {0: True}, "MPI_Recv_init": {0: True}, "MPI_Sendrecv": {5: True, 11: True},
       "MPI_Get_count": {2: True}, "MPI_Wait": {1: True}, "MPI_Waitany": {2: True, 3: True}, "MPI_Waitsome": {2: True, 3: True, 4: True}, "MPI_Waitall": {2: True}, "MPI_Test": {1: True}, "MPI_Testany": {2: True, 3: True},
       "MPI_Probe": {3: True}, "MPI_Iprobe": {3: True}, "MPI_Group_rank": {1: True}, "MPI_Group_translate_ranks": {4: True}}
LOCAL = ("loc", "gst", "procsnd", "procrcv", "procngb", "procsid")
THREADS = ("threadWait", "threadLaunch", "contextThreadLaunchSplit", "contextThreadLaunchSplit2", "contextThreadLaunch")
STRATNODECOND = 1
PUBLIC = ("SCOTCH_dgraph", "SCOTCH_ParMETIS", "ParMETIS_")


class Spec:
    private = False

    def __init__(s, p, K):
        s.p, s.K = p, K

    def out(s, i):
        n = s.p.callee_name(i) or ""
        if n in COLL:
            return COLL[n][1]
        return OUT.get(n, {})

    def sent(s, i):
        return (0,) if (s.p.callee_name(i) or "") in ("MPI_Allreduce", "MPI_Reduce") else ()

    def result(s, i):
        n = plain(s.p.callee_name(i) or "")
        if n in ("MPI_Wtime", "fgetc", "getc", "fread", "fscanf", "intLoad", "fgets", "time", "clock", "intRandVal", "intRandVal2"):
            return True
        if s.K.at(i.fn, i):
            return False                       # status of a collective routine
        if n in ("threadContextNbr", "contextThreadNbr", "stratTestEval", "archDomBipart", "threadContextParam"):
            return False
        if any(plain(g.name).startswith("arch") for g in s.K.T.targets(i)):
            return "args"
        return None

    def field(s, r, n):
        if "glb" in n or r.startswith("Strat") or r.endswith("Param_"):
            return False
        if n in ("nextptr", "prevptr"):
            return True                        # lists are private: how long they are differs
        if any(x in n for x in LOCAL):
            return not n.endswith(("tab", "tax", "ptr"))
        return None

    def contents(s, r, n):
        if "glb" in n or n in ("procvrttab", "procdsptab", "proccnttab"):
            return False
        return True

    def seeds(s, f):
        n = plain(f.name)
        r = {}
        if n.startswith("SCOTCH_dgraph") and not f.internal:
            names = {v: (nm, t) for v, nm, t, par in f.vars if par}
            for a in range(f.nargs):
                nm, t = names.get(a, ("", ""))
                if "loc" in nm and f.args[a][1] != "ptr":
                    r[a] = "%s: parameter %s" % (n, nm)
                if "stream" in nm or "FILE" in str(t):
                    r[a] = "%s: parameter %s" % (n, nm)
        return r


class Groups:
    """which processes share an object: those of another object, or others that the routine gathers itself"""
    def __init__(s, p):
        s.p, s.F = p, unif.Fields(p)
        s.sets = {}            # function -> {argument: sources}; a source is ("arg", k), the communicator of argument k or argument k itself, or "new"
        ch = True
        while ch:
            ch = False
            for f in p.funcs.values():
                for q, src in s.setters(f):
                    if q[0] == "arg":
                        d = s.sets.setdefault(f.key, {}).setdefault(q[1], set())
                        for x in src:
                            x = ("arg", x[1]) if x != "new" and pair.argroot(x) is not None and x[0] in ("arg", "ld") else "new"
                            if x not in d and x != ("arg", q[1]):
                                d.add(x); ch = True
        s.memo = {}
        s.pointers()

    def iscomm(s, f, o):
        if isinstance(o, int) and o >= f.nargs and f.inst[o].op == "getelementptr" and str(f.inst[o].a[0]).startswith("%struct"):
            i = f.inst[o]
            k = s.F.at(str(i.a[0])[1:].split(".", 1)[1], (i.x or {}).get("off") or 0)
            return bool(k) and k[1] == "proccomm"
        return False

    def source(s, f, o):
        """where a communicator comes from"""
        q = pair.rootof(f, o)
        if q[0] == "ld":
            if q[1][0] == "loc" and not s.isobject(f, q[1]):
                for u in f.uses[q[1][1]]:
                    if u.op == "call" and s.p.callee_name(u) == "MPI_Comm_dup":
                        return s.source(f, u.a[1])
                return "new"
            return q[1]
        return q if q[0] == "arg" else "new"

    def isobject(s, f, q):
        return str(f.inst[q[1]].a[0]).startswith(("%struct", "[")) if f.inst[q[1]].a else False

    def setters(s, f):
        for i in f.insts():
            if i.op == "store" and s.iscomm(f, i.a[1]):
                yield pair.rootof(f, i.a[1]), {s.source(f, i.a[0])}
            elif i.op == "call" and (s.p.callee_name(i) or "").startswith("llvm.memcpy"):
                q, x = pair.rootof(f, i.a[1]), pair.rootof(f, i.a[2])
                if q[0] in ("loc", "arg") and x[0] in ("loc", "arg") and isinstance(i.a[3], list) and int(i.a[3][1]) >= 200 and q[-1] == x[-1] == 0:
                    yield q, {x}
            elif i.op == "call":
                g = s.p.callee(i)
                for a, src in list(s.sets.get(g.key, {}).items()) if g is not None else ():
                    if 1 + a < len(i.a):
                        r = set()
                        for x in src:
                            if x == "new" or 1 + x[1] >= len(i.a):
                                r.add("new")
                            else:
                                t = g.ditypes[1 + x[1]] if len(g.ditypes) > 1 + x[1] else ""
                                r.add(s.source(f, i.a[1 + x[1]]) if "MPI_Comm" in t else pair.rootof(f, i.a[1 + x[1]]))
                        yield pair.rootof(f, i.a[1 + a]), r

    def offset(s, f, o):
        """(local variable, offset) that a pointer designates, or None"""
        off = 0
        while isinstance(o, int) and o >= f.nargs:
            i = f.inst[o]
            if i.op == "getelementptr":
                off += (i.x or {}).get("off") or 0
                o = i.a[1]
            elif i.op in ir.CASTS:
                o = i.a[0]
            else:
                return (("loc", o), off) if i.op == "alloca" else None
        return (("arg", o), off) if isinstance(o, int) else None

    def isgraph(s, f, q):
        t = f.ditypes[1 + q[1]] if q[0] == "arg" and len(f.ditypes) > 1 + q[1] else str(f.inst[q[1]].a[0]) if q[0] == "loc" else ""
        return bool(re.search(r"\b[BHVK]?[dD]graph_?\b|Dorder|Dmapping", t)) and "**" not in t

    def pointers(s):
        """graphs that structures refer to: {(function, base): {offset: {places}}}"""
        s.refs, ch = {}, True
        while ch:
            ch = False
            for f in s.p.funcs.values():
                for i in f.insts():
                    if i.op == "store":
                        d = s.offset(f, i.a[1])
                        x = pair.rootof(f, i.a[0])
                        if d is None or x[0] not in ("arg", "loc") or not s.isgraph(f, x):
                            continue
                        ch |= s.refer(f, d[0], d[1], x[:2])
                    elif i.op == "call" and s.p.callee(i) is not None:
                        g = s.p.callee(i)
                        for a in range(min(g.nargs, len(i.a) - 1)):
                            for off, src in list(s.refs.get((g.key, ("arg", a)), {}).items()):
                                d = s.offset(f, i.a[1 + a])
                                if d is None:
                                    continue
                                for x in list(src):
                                    y = pair.rootof(f, i.a[1 + x[1]]) if x[0] == "arg" and 1 + x[1] < len(i.a) else ("?",)
                                    if y[0] in ("arg", "loc"):
                                        ch |= s.refer(f, d[0], d[1] + off, y[:2])

    def refer(s, f, base, off, x):
        r = s.refs.setdefault((f.key, base), {}).setdefault(off, set())
        n = len(r)
        r.add(x)
        return len(r) > n

    def of(s, f, q):
        """("arg", k) or "new" when known, else the place itself"""
        k = f.key, q
        if k not in s.memo:
            r, seen = q, set()
            while r not in seen:
                seen.add(r)
                for x, src in s.setters(f):
                    if x[:2] == r[:2] and x[0] in ("arg", "loc"):
                        if "new" in src:
                            r = "new"
                        elif src and r[:2] not in {y[:2] for y in src}:
                            r = sorted(src, key=str)[0]
                            if r[0] == "arg" and len(f.ditypes) > 1 + r[1] and "MPI_Comm" in f.ditypes[1 + r[1]]:
                                r = "new"
                        break
                if r == "new":
                    break
            s.memo[k] = "new" if r == "new" or r[0] == "loc" and s.isobject(f, r) else r[:2]      # an object that nothing tells about: not judged
        return s.memo[k]


class Tokens:
    """collective operations of each instruction: [(name, place of the communicator)]"""
    def __init__(s, p, w, T):
        s.p, s.w, s.T = p, w, T
        s.G = Groups(p)
        s.args = {}            # function -> arguments whose communicator it uses collectively
        s.memo, s.seqs = {}, {}
        ch = True
        while ch:
            ch = False
            s.memo = {}
            for f in p.funcs.values():
                for b in w.view(f).live:
                    for i in f.blocks[b]:
                        for n, q in s.at(f, i):
                            a = pair.argroot(q)
                            if a is not None and (a, s.through(q)) not in s.args.get(f.key, ()):
                                s.args.setdefault(f.key, set()).add((a, s.through(q))); ch = True

    def through(s, q):
        """offset of the pointer to the object in the structure that the argument designates, or None"""
        if q[0] == "ld":
            q = q[1]
            if q[0] == "ld" and q[1][0] == "arg":
                return q[1][2]
        return None

    def at(s, f, i):
        if i.op != "call":
            return []
        k = f.key, i.id
        if k not in s.memo:
            r = []
            for n, q in s._at(f, i):
                if q[0] == "ld":
                    q = q[1][:2] if q[1][0] in ("arg", "loc") else ("ld", q[1][:2])
                q = s.G.of(f, q)
                if q != "new" and (n, q) not in r:
                    r.append((n, q))
            s.memo[k] = r
        return s.memo[k]

    def _at(s, f, i):
        n = s.p.callee_name(i) or ""
        if n in COLL:
            return [(n, pair.rootof(f, i.a[1 + COLL[n][0]])[:2])]
        r = []
        if n == "":
            t = {re.sub(r"\bconst |\*.*", "", x) for x in f.ditypes}
        gs = s.T.targets(i) if plain(f.name) not in THREADS else ()
        for g in gs:
            for a, off in sorted(s.args.get(g.key, ()), key=str):
                if 1 + a < len(i.a) and (n or len(gs) <= 3 or len(g.ditypes) > 1 + a and re.sub(r"\bconst |\*.*", "", g.ditypes[1 + a]) in t):
                    q = pair.rootof(f, i.a[1 + a])[:2]
                    d = s.G.offset(f, i.a[1 + a])
                    if off is not None and d is not None:
                        x = s.G.refs.get((f.key, d[0]), {}).get(d[1] + off, ()) if d[0][0] == "loc" else ()
                        if len(x) == 1:
                            q = list(x)[0]
                        elif d[0][0] == "arg":
                            q = ("ld", d[0] + (d[1] + off,))
                    if q[0] == "ld" and not (len(g.ditypes) > 1 + a and "MPI_Comm" in g.ditypes[1 + a]):
                        q = ("ld", q)
                    r.append((plain(g.name) if len(gs) == 1 else "/".join(sorted(plain(x.name) for x in gs)[:2]), q))
        return sorted(set(r), key=str)

    def expanded(s, f, i):
        """the same, a routine that only wraps some operations being replaced by these"""
        r = s.at(f, i)
        g = s.p.callee(i) if r else None
        if g is None or (s.p.callee_name(i) or "") in COLL:
            return r
        if g.key not in s.seqs:
            s.seqs[g.key] = None
            v = s.w.view(g)
            tok = {j.id: s.expanded(g, j) for b in v.live for j in g.blocks[b] if s.at(g, j)}
            q = sequences(g, v, 0, None, tok)
            if len(q) == 1:
                q = list(q)[0]
                if 1 <= len(q) <= 3 and all(n in COLL and x[0] == "arg" for n, x in q):
                    s.seqs[g.key] = q
        q = s.seqs[g.key]
        if q is None:
            return r
        return [(n, r[0][1]) for n, x in q]


def sequences(f, v, start, stop, tok, cap=200):
    """sequences of tokens from a block to another one, or None if there are too many or they are unbounded"""
    memo, on = {}, set()

    def go(b):
        if b == stop:
            return {()}
        if b in memo:
            return memo[b]
        if b in on:
            return set()                       # a loop: what it repeats is compared elsewhere
        on.add(b)
        t = tuple(x for i in f.blocks[b] for x in tok.get(i.id, ()))
        r = set()
        for x in v.succ[b]:
            r |= go(x)
        if not v.succ[b]:
            r = {()}
        r = {t + x for x in r}
        on.discard(b)
        if len(r) > cap:
            r = set(sorted(r, key=str)[:cap])
        memo[b] = r
        return r
    return go(start)


def model():
    p = lib.program("def")
    T = calls.Calls(p)
    w = unif.World(p)
    K = Tokens(p, w, T)
    return p, w, K, unif.Uniform(p, w, Spec(p, K), T)


def show(q):
    q = sorted(q, key=lambda x: (len(x), str(x)))
    return " or ".join(", ".join(n for n, x in t[:4]) or "none" for t in q[:2])


def cyclic(v, b):
    seen, todo = set(), list(v.succ[b])
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x); todo += v.succ[x]
    return False


def run(tier):
    sys.setrecursionlimit(100000)
    out, samples = [], []
    p, w, K, U = model()
    cov = dict(functions=0, collective_operations=0, branches=0, differing_branches=0, strategy_conditions=0)
    for f in sorted(p.funcs.values(), key=lambda f: str(f.key)):
        v = w.view(f)
        tok = {}
        for b in v.live:
            for i in f.blocks[b]:
                t = K.expanded(f, i)
                if t:
                    tok[i.id] = t
        if not tok:
            continue
        cov["functions"] += 1; cov["collective_operations"] += len(tok)
        g = w.cfg(f)
        for b in sorted(g.reach):
            t = f.blocks[b][-1]
            ss = sorted(set(v.succ[b]))
            if len(ss) < 2:
                continue
            cov["branches"] += 1
            if not U.differs(f, t.a[0]) or b in U.inside.get(f.key, ()) and not U.own(f, b) and cyclic(v, b):
                continue                       # a loop that only some processes run: what it does on the whole is compared
            cov["differing_branches"] += 1
            q = [sequences(f, v, x, g.ipdom.get(b), tok) for x in ss]
            if any(x != q[0] for x in q[1:]):
                d = sorted({n for x in q for z in x for n, _ in z})
                out.append(V("branch:%s:%s" % (plain(f.name), ",".join(d)), t.where, plain(f.name), "processes may part on a condition that is not the same for all of them (%s), and then not run the same collective operations: %s" % (
                    "; ".join(U.explain(f, t.a[0])[:4]), " against ".join(show(x) for x in q[:2]))))
        if len(samples) < 12:
            samples.append("%s: %d operations" % (plain(f.name), len(tok)))
    S = Spec(p, K)
    for u in p.units:                          # what the conditions of distributed strategies can test
        for n, g in u.globals.items():
            if "StratParamTab" not in str(g.get("dit", g.get("type"))) or "init" not in g:
                continue
            for e in g["init"][1:]:
                if not (isinstance(e, list) and e[0] == "a" and len(e) == 7 and e[1][1] == STRATNODECOND and e[5][0] == "gep" and e[5][2][0] == "g"):
                    continue
                d = p.resolve_global(u, e[5][2][1]) if hasattr(p, "resolve_global") else u.globals.get(e[5][2][1])
                t = str(d.get("type")).lstrip("%").replace("struct.", "") if d else ""
                k = K.G.F.at(t, e[5][4])
                if not re.match(r"[BHKV]dgraph_", t) or k is None:
                    continue
                cov["strategy_conditions"] += 1
                if S.field(k[0], k[1]) and k[1] != "proclocnum":       # "rank" is meant to differ
                    out.append(V("condition:%s:%s" % (plain(n), k[1]), g.get("src") or u.name, plain(n), "a condition of the distributed strategies tests %s, which differs between processes: they would not run the same methods" % k[1]))
    need(cov["strategy_conditions"] >= 20 and cov["functions"] >= 100 and cov["collective_operations"] >= 250 and cov["differing_branches"] >= 120, "too few collective operations found: %s" % cov)
    return Result(out, "as long as no process meets an error, no branch on a value that may differ between the processes of a communicator (rank, local sizes and contents, received data, and all that is computed from them) leads to different sequences of collective operations on this communicator", cov, samples)
