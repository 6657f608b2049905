"""Which values may differ between the processes of a communicator (or the threads of a team), and
which branches on them change what the others wait for.

A value is taken to be the same everywhere unless it stems from something that differs: the rank,
local sizes and contents, received messages... The places it may be stored to are classes of a
points-to partition; fields are told apart by record type."""
import re
from . import ir, lib, cfg, pair
from .flow import plain

UNKNOWN, TOP, NN = object(), object(), "nonnull"


class View:
    """a function restricted to the branches that remain when nothing fails"""
    def __init__(s, f, live, edges):
        s.f, s.live = f, live
        s.blocks = f.blocks
        s.succ = [[x for x in ss if (b, x) in edges] if b in live else [] for b, ss in enumerate(f.succ)]
        s.pred = [[x for x in pp if (x, b) in edges] for b, pp in enumerate(f.pred)]


class Const:
    """constants, assuming that what `assume` tells about calls holds"""
    def __init__(s, prog, f, assume, ret, dead=frozenset()):
        val = {}

        def get(o):
            if isinstance(o, int):
                return val.get(o, UNKNOWN) if o >= f.nargs else TOP
            if isinstance(o, list) and o[0] == "i":
                return int(o[1])
            if isinstance(o, list) and o[0] == "n":
                return 0
            return TOP
        live, edges = {0}, set()
        ch = True
        while ch:
            ch = False
            for b in sorted(live):
                for i in f.blocks[b]:
                    v = TOP
                    if i.op == "call":
                        v = assume(i)
                        if v is None:
                            g = prog.callee(i)
                            v = ret(g) if g is not None else TOP
                    elif i.op == "alloca":
                        v = NN
                    elif i.op == "phi":
                        c = [get(x[0]) for x in i.a if (x[1], b) in edges]
                        c = [x for x in c if x is not UNKNOWN]
                        v = UNKNOWN if not c else c[0] if all(x is c[0] or x == c[0] and x is not TOP for x in c) else TOP
                    elif i.op in ("zext", "trunc", "sext", "bitcast", "freeze"):
                        v = get(i.a[0])
                    elif i.op == "getelementptr":
                        v = get(i.a[1])
                        v = NN if v is NN else v if v is UNKNOWN else TOP
                    elif i.op == "icmp":
                        x, y = get(i.a[1]), get(i.a[2])
                        if x is UNKNOWN or y is UNKNOWN:
                            v = UNKNOWN
                        elif x is not TOP and y is not TOP and i.a[0] in ("eq", "ne"):
                            if NN in (x, y):
                                v = int(i.a[0] == "ne") if 0 in (x, y) else TOP
                            else:
                                v = int((x == y) == (i.a[0] == "eq"))
                    elif i.op in ("or", "and", "xor", "add"):
                        x, y = get(i.a[0]), get(i.a[1])
                        if x is UNKNOWN or y is UNKNOWN:
                            v = UNKNOWN
                        elif i.op == "and" and 0 in (x, y):
                            v = 0
                        elif x is not TOP and y is not TOP and NN not in (x, y):
                            v = {"or": x | y, "and": x & y, "xor": x ^ y, "add": x + y}[i.op]
                    elif i.op == "select":
                        c = get(i.a[0])
                        v = UNKNOWN if c is UNKNOWN else get(i.a[1] if c & 1 else i.a[2]) if isinstance(c, int) else TOP
                    old = val.get(i.id, UNKNOWN)
                    if old is not v and not (old is not UNKNOWN and v is not UNKNOWN and old is not TOP and v is not TOP and old == v):
                        val[i.id] = v if old is UNKNOWN else TOP
                        if val[i.id] is not old:
                            ch = True
                t = f.blocks[b][-1]
                out = f.succ[b]
                if t.op == "br" and len(t.a) == 3:
                    c = get(t.a[0])
                    if c is UNKNOWN:
                        out = []
                    elif isinstance(c, int):
                        out = [out[0] if c & 1 else out[1]]
                for x in out:
                    if (b, x) not in edges and x not in dead:
                        edges.add((b, x)); live.add(x); ch = True
        s.live, s.edges, s.val, s.get = live, edges, val, get


ALLOC = {"malloc", "calloc", "realloc", "memAllocGroup", "memReallocGroup", "memAlloc", "memRealloc"}


class World:
    """per-function views in which memory never lacks, MPI and threads always work, and no error is notified"""
    def __init__(s, prog, failing=False):
        s.p, s.rets, s.consts, s.views, s.cfgs = prog, {}, {}, {}, {}
        s.failing = failing            # memory may lack

    def assume(s, i):
        n = s.p.callee_name(i)
        if n is None:
            return TOP
        if n.startswith(("MPI_", "pthread_")):
            return 0
        if plain(n) in ALLOC:
            return TOP if s.failing else NN
        if s.p.callee(i) is None:
            return TOP
        return None

    def ret(s, g):
        if g.key not in s.rets:
            s.rets[g.key] = TOP
            if g.blocks and g.ret != "void":
                c = s.const(g)
                r = [c.get(g.blocks[b][-1].a[0]) for b in c.live if g.blocks[b][-1].op == "ret"]
                r = [x for x in r if x is not UNKNOWN]
                if r and all(x is r[0] or x == r[0] for x in r):
                    s.rets[g.key] = r[0]
        return s.rets[g.key]

    def const(s, f):
        if f.key not in s.consts:
            dead = set() if s.failing else {b for b, l in enumerate(f.blocks) if any(i.op == "call" and plain(s.p.callee_name(i) or "") in ("errorPrint", "SCOTCH_errorPrint") for i in l)}
            s.consts[f.key] = Const(s.p, f, s.assume, s.ret, dead)
        return s.consts[f.key]

    def view(s, f):
        if f.key not in s.views:
            c = s.const(f)
            s.views[f.key] = View(f, c.live, c.edges)
        return s.views[f.key]

    def cfg(s, f):
        if f.key not in s.cfgs:
            s.cfgs[f.key] = cfg.CFG(s.view(f))
        return s.cfgs[f.key]


class Fields:
    """names of record fields"""
    def __init__(s, prog):
        s.tab = {}
        for u in prog.units:
            for n, d in u.di.items():
                s.tab.setdefault(n, d)
        s.memo = {}

    def at(s, rec, off, anon=None):
        """(record, field) at an offset, in the innermost record; anon: size of the unnamed record that it is in, and place in it"""
        k = (rec, off, anon)
        if k not in s.memo:
            s.memo[k] = s._at(rec, off, 0, anon)
        return s.memo[k]

    def gep(s, f, i):
        """field that an address computation designates, or None"""
        t = str(i.a[0])
        off = (i.x or {}).get("off") or 0
        anon = None
        while re.match(r"%(struct|union)\.anon(\.\d+)?$", t):
            if anon is None and t.startswith("%struct"):
                anon = ((f.unit.structs.get(t[1:]) or {}).get("sz"), off)
            b = i.a[1]
            while isinstance(b, int) and b >= f.nargs and f.inst[b].op in ir.CASTS:
                b = f.inst[b].a[0]
            if not isinstance(b, int) or b < f.nargs or f.inst[b].op != "getelementptr":
                return None
            i = f.inst[b]
            t = str(i.a[0])
            off += (i.x or {}).get("off") or 0
        return s.at(t[1:].split(".", 1)[1], off, anon) if "." in t else None

    def _at(s, rec, off, d=0, anon=None):
        r = s.tab.get(rec)
        if r is None or d > 6:
            return None
        for n, o, sz, ty, x in r["f"]:
            if o <= off < o + max(sz, 1):
                t = str(ty).replace("const ", "").replace("struct ", "").strip()
                if "*" not in t:
                    for q in (t, t + "_"):
                        if q in s.tab and q != rec and s.tab[q].get("sz", 0) <= sz:
                            y = s._at(q, off - o, d + 1, anon)
                            if y:
                                return y
                if isinstance(x, list) and anon:
                    y = s._in(x, sz, off - o, anon)
                    if y:
                        return rec, n + "." + y
                return rec, n
        return None

    def _in(s, fs, sz, off, anon):
        """name of a field of an unnamed record, the size of the innermost of which is known"""
        if sz == anon[0] and off == anon[1]:
            for e in fs:
                if e[1] <= off < e[1] + max(e[2], 1):
                    return e[0]
        for e in fs:
            if len(e) >= 5 and e[1] <= off < e[1] + max(e[2], 1):
                y = s._in(e[4], e[2], off - e[1], anon)
                if y:
                    return e[0] + "." + y
        return None


class Uniform:
    """spec: object with
       out(i)       -> {argument: True if what a library call writes there differs between members, False if it is the same}
       seeds(f)     -> {argument: why} that differ when f is called from outside
       field(r, n)  -> True (always differs), False (never), None (decided by what is stored)
       contents(r, n) -> the same for the arrays that a field designates
       result(i)    -> True/False/None for the value of an external call"""
    def __init__(s, prog, world, spec, calls, only=None):
        s.p, s.w, s.spec, s.calls = prog, world, spec, calls
        s.funcs = {k: f for k, f in prog.funcs.items() if only is None or k in only}
        s.fields = Fields(prog)
        s.vary, s.why = set(), {}          # values (function, id) that may differ; for pointers, that may be null or not
        s.idx = set()                      # pointers (function, id) into arrays, at places that may differ
        s.vplace = set()                   # places whose contents may differ
        s.wout = set()                     # (function, argument) through which a function writes what may differ
        s.ownargs = None
        s.pmemo, s.vlocal, s.inside, s.outer, s.sent = {}, set(), {}, {}, {}
        s._solve()

    def contribution(s, f, i):
        """a value put in the buffer that a reduction is computed from: each member has its own, unless it is a constant"""
        if f.key not in s.sent:
            s.sent[f.key] = {x[:3] for b in s.w.view(f).live for j in f.blocks[b] if j.op == "call" for a in s.spec.sent(j) for x in s.places(f, j.a[1 + a]) if x[0] == "loc"}
        l = s.sent[f.key]
        if not l or isinstance(i.a[0], list) and i.a[0][0] in "in" or isinstance(s.w.const(f).get(i.a[0]), int):
            return False
        return any(x[:3] in l for x in s.places(f, i.a[1]))

    # ---- places
    def places(s, f, o):
        """objects a pointer may designate"""
        if not isinstance(o, int):
            return s._places(f, o, set())
        k = (f.key, o)
        if k not in s.pmemo:
            s.pmemo[k] = s._places(f, o, set())
        return s.pmemo[k]

    def _places(s, f, o, seen):
        out = set()
        if isinstance(o, list):
            if o and o[0] in ("gep", "ce"):
                for x in o[1:]:
                    if isinstance(x, list) and x:
                        out |= s._places(f, x, seen)
            elif o and o[0] == "g":
                out.add(("g", o[1]))
            return out
        if not isinstance(o, int) or o in seen:
            return out
        seen.add(o)
        if o < f.nargs:
            return {("arg", f.key, o)}
        i = f.inst[o]
        if i.op == "getelementptr":
            t = str(i.a[0])
            if t.startswith(("%struct", "%union")):
                k = s.fields.gep(f, i)
                return {("f",) + k} if k else set()
            off = None if any(isinstance(x, int) for x in i.a[2:]) else (i.x or {}).get("off")
            return {x[:3] + (x[3] + off if off is not None and x[3] is not None else None,) if x[0] == "loc" else x for x in s._places(f, i.a[1], seen)}
        if i.op in ir.CASTS:
            return s._places(f, i.a[0], seen)
        if i.op == "alloca":
            return {("loc", f.key, i.id, 0)}
        if i.op == "load":
            return {("c", x) for x in s._places(f, i.a[0], seen) if x[0] != "c" or x[1][0] != "c"}
        if i.op == "phi":
            for x in i.a:
                out |= s._places(f, x[0], seen)
            return out
        if i.op == "select":
            return s._places(f, i.a[1], seen) | s._places(f, i.a[2], seen)
        if i.op == "call":
            return {("new", f.key, i.id)}
        return out

    # ---- values
    def differs(s, f, o):
        return isinstance(o, int) and (f.key, o) in s.vary

    def mark(s, f, o, why):
        if (f.key, o) not in s.vary:
            s.vary.add((f.key, o)); s.why[(f.key, o)] = why
            s.dirty.add(f.key)

    def given(s, x):
        """what the naming rules say about a place, or None"""
        if x[0] == "f":
            return s.spec.field(x[1], x[2])
        if x[0] == "c" and x[1][0] == "f":
            return s.spec.contents(x[1][1], x[1][2])
        return None

    def markplace(s, f, x, why):
        if s.given(x) is not None:
            return
        if x[0] == "arg" and x[1:] not in s.wout:
            s.wout.add(x[1:]); s.why[("wout",) + x[1:]] = why
            for g, i in s.callers.get(x[1], ()):
                s.dirty.add(g.key)
        if x not in s.vplace:
            s.vplace.add(x); s.why[x] = why
            if x[0] == "loc":
                s.vlocal.add(x[:3])
            if x[0] in ("f", "c", "g"):
                s.dirty |= s.readers.get(x, set())
            s.dirty.add(f.key)

    def placediffers(s, x, whole=False):
        v = s.given(x)
        if v is not None:
            return v
        if x in s.vplace:
            return True
        if x[0] == "loc":
            if whole or x[3] is None:
                return x[:3] in s.vlocal
            return x[:3] + (None,) in s.vplace
        return False

    def reaching(s, f, i, x):
        """whether a local variable may differ where it is read, from what was last written to it"""
        v = s.w.view(f)
        seen, todo = set(), [(i.bb, i.ix)]
        first = True
        while todo:
            b, n = todo.pop()
            l = f.blocks[b]
            hit = False
            for j in reversed(l[:n]):
                if j.op == "store":
                    pl = s.places(f, j.a[1])
                    if x in pl or x[:3] + (None,) in pl:
                        if s.differs(f, j.a[0]) or s.contribution(f, j) or b in s.inside.get(f.key, ()) and i.bb not in s.inside.get(f.key, ()):
                            return True
                        if pl == {x}:
                            hit = True; break
                elif j.op == "call":
                    for a, o in enumerate(j.a[1:]):
                        for y in s.places(f, o):
                            if y[:3] == x[:3]:
                                d = s.spec.out(j).get(a)
                                if d is False:
                                    hit = True
                                elif d or s.writes(f, j, a):
                                    return True
                    if hit:
                        break
            if hit:
                continue
            for y in v.pred[b]:
                if y not in seen:
                    seen.add(y); todo.append((y, len(f.blocks[y])))
        return False

    def own_(s, f, o):
        r = pair.rootof(f, o)
        return r[0] in ("loc", "val") or r[0] == "arg" and (f.key, r[1]) in s.ownargs

    def shared(s, f, i, x):
        """a record or variable that all members see, and not their own copy of it"""
        if not s.spec.private or x[0] == "loc":
            return False
        if s.ownargs is None:
            s.ownargs, ch = set(), True
            while ch:
                ch = False
                for g in s.funcs.values():
                    for j in g.insts():
                        if j.op == "call":
                            for a in range(1, len(j.a)):
                                if isinstance(j.a[a], int) and s.own_(g, j.a[a]):
                                    for h in s.calls.targets(j):
                                        if a - 1 < h.nargs and (h.key, a - 1) not in s.ownargs:
                                            s.ownargs.add((h.key, a - 1)); ch = True
        return not s.own_(f, i.a[0])

    def fresh(s, f, i, x):
        """read after an operation that gives all members the same contents"""
        if x[0] not in ("c", "new", "loc"):
            return False
        g = s.w.cfg(f)
        for b in g.reach:
            for j in f.blocks[b]:
                if j.op == "call":
                    for a, d in s.spec.out(j).items():
                        if d is False and 1 + a < len(j.a) and x in s.places(f, j.a[1 + a]) and g.idominates(j, i) and x[0] == "c":
                            return True
        return False

    def writes(s, f, j, a):
        n = plain(s.p.callee_name(j) or "")
        if n.startswith("llvm.mem"):
            return a == 0 and not n.startswith("llvm.memset") and any(s.placediffers(x, True) for x in s.places(f, j.a[2]))
        return any((g.key, a) in s.wout for g in s.calls.targets(j))

    def control(s, f):
        """blocks that only some members execute, and joins where what they did differs"""
        w = s.w
        g, v = w.cfg(f), w.view(f)
        inside, joins = set(), set()
        for b in g.reach:
            t = f.blocks[b][-1]
            ss = v.succ[b]
            if len(set(ss)) < 2 or not isinstance(t.a[0], int) or not s.differs(f, t.a[0]):
                continue
            stop = g.ipdom.get(b)
            r = []
            for x in set(ss):
                seen, todo = set(), [x]
                while todo:
                    y = todo.pop()
                    if y == stop or y in seen:
                        continue
                    seen.add(y); todo += v.succ[y]
                r.append(seen)
                inside |= seen
            both = set()
            for n, x in enumerate(r):
                for y in r[n + 1:]:
                    both |= x & y
            joins |= {y for y in both if len(v.pred[y]) > 1}
            if stop is not None and stop < len(f.blocks) and len(v.pred[stop]) > 1:
                joins.add(stop)
            if any(b in x for x in r):         # a loop that some leave before the others
                joins |= {y for x in r if b in x for y in x if len(v.pred[y]) > 1 and g.dominates(y, b)}
            s.outer.setdefault(f.key, {})[b] = set().union(*r)
        return inside, joins

    def own(s, f, b):
        """a branch that all members reach, but for those that it makes leave its own loop"""
        return not any(b in r and x != b and not s.w.cfg(f).dominates(b, x) for x, r in s.outer.get(f.key, {}).items())

    def _solve(s):
        s.dirty = set(s.funcs)
        s.callers, s.readers = {}, {}
        for f in s.funcs.values():
            for i in f.insts():
                if i.op == "call":
                    for g in s.calls.targets(i):
                        s.callers.setdefault(g.key, []).append((f, i))
                if i.op in ("load", "call"):
                    for o in ([i.a[0]] if i.op == "load" else i.a[1:]):
                        for x in s.places(f, o):
                            if x[0] in ("f", "c", "g"):
                                s.readers.setdefault(x, set()).add(f.key)
        for f in s.funcs.values():
            for a, wy in s.spec.seeds(f).items():
                if wy.startswith("contents"):
                    s.vplace.add(("arg", f.key, a)); s.why[("arg", f.key, a)] = wy
                else:
                    s.mark(f, a, wy)
        s.retv = set()
        while s.dirty:
            k = min(s.dirty, key=str)
            s.dirty.discard(k)
            if k in s.funcs:
                s._func(s.funcs[k], s.callers)

    def _func(s, f, callers):
        v = s.w.view(f)
        c = s.w.const(f)
        while True:
            n = len(s.vary), len(s.vplace), len(s.idx)
            inside, joins = s.control(f)
            s.inside[f.key] = inside
            for b in sorted(v.live):
                for i in f.blocks[b]:
                    if isinstance(c.val.get(i.id), int) and i.op != "call":
                        continue
                    if i.op == "load":
                        if isinstance(i.a[0], int) and (f.key, i.a[0]) in s.idx and str(i.ty) != "ptr":
                            s.mark(f, i.id, ("address", i))
                        else:
                            for x in s.places(f, i.a[0]):
                                if s.placediffers(x) and (s.given(x) or not s.shared(f, i, x)) and not s.fresh(f, i, x) and (x[0] != "loc" or x[3] is None or s.reaching(f, i, x)):
                                    s.mark(f, i.id, ("load", i, x))
                                    break
                    elif i.op == "store":
                        if s.differs(f, i.a[0]) or s.contribution(f, i) or (b in inside and any(x[0] == "loc" for x in s.places(f, i.a[1]))):
                            for x in s.places(f, i.a[1]):
                                s.markplace(f, x, ("store", i))
                    elif i.op == "phi":
                        ins = [x for x in i.a if (x[1], b) in c.edges]
                        if str(i.ty) == "ptr":
                            if any(isinstance(x[0], int) and (f.key, x[0]) in s.idx for x in ins):
                                s.idx.add((f.key, i.id))
                            nulls = {isinstance(x[0], list) and x[0][0] == "n" or c.get(x[0]) == 0 for x in ins}
                            if any(s.differs(f, x[0]) for x in ins) or b in joins and len(nulls) > 1:
                                s.mark(f, i.id, ("phi", i))
                            continue
                        if any(s.differs(f, x[0]) for x in ins) or (b in joins and len({str(x[0]) for x in ins}) > 1):
                            s.mark(f, i.id, ("phi", i))
                    elif i.op == "call":
                        s._call(f, i, b in inside)
                    elif i.op == "ret":
                        if i.a and (s.differs(f, i.a[0])) and f.key not in s.retv:
                            s.retv.add(f.key)
                            for g, ci in callers.get(f.key, ()):
                                s.dirty.add(g.key)
                    elif i.op in ("br", "switch", "alloca"):
                        pass
                    elif i.op == "getelementptr":
                        if (f.key, i.a[1]) in s.idx if isinstance(i.a[1], int) else False:
                            s.idx.add((f.key, i.id))
                        elif any(s.differs(f, x) for x in i.a[2:]):
                            s.idx.add((f.key, i.id)); s.why.setdefault((f.key, i.id), ("index", i))
                        if s.differs(f, i.a[1]):
                            s.mark(f, i.id, ("base", i))
                    else:
                        if any(s.differs(f, x) for x in ir.operands(i)):
                            s.mark(f, i.id, ("op", i))
            if n == (len(s.vary), len(s.vplace), len(s.idx)):
                break

    def _call(s, f, i, inside):
        n = plain(s.p.callee_name(i) or "")
        for a, d in s.spec.out(i).items():
            if d and 1 + a < len(i.a):
                for x in s.places(f, i.a[1 + a]):
                    s.markplace(f, x[:3] + (None,) if x[0] == "loc" else x, ("call", i))
        if n.startswith("llvm.mem") and not n.startswith("llvm.memset"):
            src = s.places(f, i.a[2])
            if any(s.placediffers(x, True) for x in src if x[0] != "f"):
                for x in s.places(f, i.a[1]):
                    if x[0] != "f":
                        s.markplace(f, x[:3] + (None,) if x[0] == "loc" else x, ("copy", i))
        elif n.startswith("llvm.memset") and s.differs(f, i.a[2]):
            for x in s.places(f, i.a[1]):
                s.markplace(f, x, ("copy", i))
        r = s.spec.result(i)
        gs = s.calls.targets(i)
        if r == "args":
            r = any(s.differs(f, x) or isinstance(x, int) and (f.key, x) in s.idx for x in i.a[1:])
        if r is not None:
            if r:
                s.mark(f, i.id, ("result", i))
        elif gs:
            if any(g.key in s.retv for g in gs):
                s.mark(f, i.id, ("return", i))
        elif not n.startswith(("MPI_", "llvm.dbg", "llvm.lifetime")) and n not in ALLOC:
            if any(s.differs(f, x) or isinstance(x, int) and (f.key, x) in s.idx for x in i.a[1:]):
                s.mark(f, i.id, ("op", i))
        for g in gs:
            for a in range(min(g.nargs, len(i.a) - 1)):
                if s.differs(f, i.a[1 + a]):
                    s.mark(g, a, ("argument", i))
                if s.spec.private and isinstance(i.a[1 + a], int) and (f.key, i.a[1 + a]) in s.idx and (g.key, a) not in s.idx:
                    s.idx.add((g.key, a)); s.why.setdefault((g.key, a), ("argument", i))
                    s.dirty.add(g.key)
                for x in s.places(f, i.a[1 + a]):
                    if (g.key, a) in s.wout:
                        s.markplace(f, x, ("written", i))
                    if x[0] != "f" and s.placediffers(x, True) and ("arg", g.key, a) not in s.vplace:
                        s.vplace.add(("arg", g.key, a)); s.why[("arg", g.key, a)] = ("passed", i)
                        s.dirty.add(g.key)

    def explain(s, f, o):
        out, k, seen = [], (f.key, o), set()
        while k in s.why and k not in seen and len(out) < 16:
            seen.add(k)
            w = s.why[k]
            if isinstance(w, str):
                out.append(w); break
            i = w[1]
            out.append("%s %s:%d" % (w[0], plain(i.fn.name), i.line))
            nx = []
            if w[0] == "load":
                nx = [w[2]]
                if s.given(w[2]):
                    out.append("%s" % (w[2],)); break
            elif w[0] == "argument":
                nx = [(i.fn.key, i.a[1 + k[1]])] if isinstance(i.a[1 + k[1]], int) else []
            elif w[0] == "return":
                nx = [(g.key, t.a[0]) for g in s.calls.targets(i) if g.key in s.retv for t in g.insts() if t.op == "ret" and s.differs(g, t.a[0])]
            elif w[0] == "written":
                nx = [("wout", g.key, a) for g in s.calls.targets(i) for a in range(g.nargs) if (g.key, a) in s.wout]
            elif w[0] == "passed":
                nx = [x for o in i.a[1:] for x in s.places(i.fn, o) if s.placediffers(x)]
            elif w[0] == "store":
                nx = [(i.fn.key, i.a[0])] if isinstance(i.a[0], int) else []
            else:
                nx = [(i.fn.key, x) for x in (ir.operands(i) if i.op != "phi" else [x[0] for x in i.a]) if isinstance(x, int)]
            nx = [x for x in nx if x in s.why and x not in seen]
            if not nx:
                break
            k = nx[0]
        return out
