"""C14: library calls on distinct objects do not share mutable process-wide state."""
from ..main import V, Result, need
from .. import lib, effects, cfg

# documented process-wide state, with the reason
SHARED = {
    "intranddat": "the default pseudo-random generator, documented as shared by all default contexts",
    "errorProgName": "program name printed by the error routines, set by SCOTCH_errorProg only",
    "timerNbr": "timers of the stand-alone programs", "timerTab": "timers of the stand-alone programs",
    "vgraphseparatevwfilenum": "debugging method that dumps each separation in a numbered file",
}


def plain(n):
    return n[7:] if n.startswith("_SCOTCH") else n


def locked(p, f, i):
    """a lock on a global mutex is taken before the instruction on every path, and not yet released"""
    c = cfg.CFG(f)
    if i.bb not in c.reach:
        return True
    for j in f.insts():
        if j.op == "call" and p.callee_name(j) == "pthread_mutex_lock" and any(o[0] == "g" for o in lib.origins(f, j.a[1])) and c.idominates(j, i):
            m = {o for o in lib.origins(f, j.a[1]) if o[0] == "g"}
            for k in f.insts():
                if k.op == "call" and p.callee_name(k) == "pthread_mutex_unlock" and m & lib.origins(f, k.a[1]) and reaches(f, j, k, i):
                    break
            else:
                return True
    return False


def reaches(f, j, k, i):
    """after j, can k run and then i, without j in between"""
    def walk(a, b):
        if a.bb == b.bb and a.ix < b.ix and not (j.bb == a.bb and a.ix < j.ix < b.ix):
            return True
        seen, todo = set(), list(f.succ[a.bb])
        if j.bb == a.bb and j.ix > a.ix:
            todo = []
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == b.bb and not (j.bb == x and j.ix < b.ix):
                return True
            if x == j.bb:
                continue
            todo += f.succ[x]
        return False
    return walk(k, i)


def sure(E, f, i, r):
    """the address written is one of globals only, not an iterator that also designates other objects"""
    if i.op == "store":
        return all(x[0] == "g" for x in E.roots(f, i.a[1]))
    return any(r in rs and all(x[0] == "g" for x in rs) for rs in (E.roots(f, o) for o in i.a[1:]))


def run(tier):
    out, samples = [], []
    cov = dict(functions=0, globals=0, read_only=0, documented=0, guarded=0)
    for config in ("def", "dbg"):
        p = lib.program(config)
        E = effects.Effects(p)
        cov["functions"] += len(p.funcs)
        G = {}
        for u in p.units:
            for g in u.globals.values():
                if not g["decl"] and not g["priv"] and g["name"] not in u.functions:
                    G[g["name"]] = g
        cov["globals"] += len(G)
        wr = {}
        for k, f in p.funcs.items():
            for r, i in E.w[k].items():
                if r[0] == "g" and r[1] in G and sure(E, f, i, r):
                    wr.setdefault(r[1], []).append((f, i))
        need(len(wr) >= 4 and len(G) >= 100, "%d globals, %d written" % (len(G), len(wr)))
        cov["read_only"] += len(set(G) - set(wr))
        for n, l in sorted(wr.items()):
            g = G[n]
            if g.get("tls"):
                continue
            base = plain(n).split(".")[-1]
            if base in SHARED and "." not in plain(n):
                cov["documented"] += 1
                if len(samples) < 10:
                    samples.append("%s: %s" % (base, SHARED[base]))
                continue
            if all(p.callee_name(i) in ("pthread_mutex_lock", "pthread_mutex_unlock") for f, i in l if i.op == "call") and all(i.op == "call" for f, i in l):
                cov["guarded"] += 1
                continue
            # every access, anywhere, is under a global mutex
            bad = None
            for f in p.funcs.values():
                for i in f.insts():
                    ops = i.a if i.op == "call" else [i.a[0]] if i.op == "load" else [i.a[1]] if i.op == "store" else []
                    if any(("g", n) in E.roots(f, o) for o in ops) and not locked(p, f, i):
                        bad = bad or (f, i)
            if bad is None:
                cov["guarded"] += 1
                samples.append("%s: every access is under a global mutex" % n)
                continue
            f, i = l[0]
            out.append(V("static:%s" % base, i.where, f.src, "process-wide variable \"%s\" is modified by a library call: calls on distinct objects interfere" % base,
                         ["unguarded access at %s in %s" % (bad[1].where, bad[0].src)]))
    return Result(out, "every global or static variable of the library is read-only after load, or only accessed while a global mutex is held, or is one of the documented process-wide "
                  "settings (default random generator, program name, timers); writes include those made by callees through a passed address", cov, samples)
