"""C06: locks are paired, and what they guard is only touched with the lock held."""
from collections import defaultdict
from .. import pair, lib, ir, calls
from ..flow import plain
from ..main import V, Result, need

LAUNCH = {"threadLaunch": (1,), "contextThreadLaunchSplit": (1,), "pthread_create": (2,), "threadCreate": (), "threadReduce": (3,), "threadScan": (3,)}


def field(f, o):
    """(record, offset, place of the object) a pointer designates"""
    off = 0
    while isinstance(o, int) and o >= f.nargs:
        i = f.inst[o]
        if i.op == "getelementptr":
            off += (i.x or {}).get("off") or 0
            if str(i.a[0]).startswith("%struct") or str(i.a[0]).startswith("%union"):
                return str(i.a[0]).split(".", 1)[1], off, pair.rootof(f, i.a[1])
            o = i.a[1]
        elif i.op in ir.CASTS:
            o = i.a[0]
        else:
            return None
    return None


def functions_in(p, f, o, out, seen):
    """functions a value may designate"""
    for k, x in [y if len(y) == 2 else (None, None) for y in lib.origins(f, o)]:
        if k == "g":
            g = p.resolve_name(x, f.unit)
            if g is not None:
                out.add(g.key)


def run(tier):
    out, samples = [], []
    cov = dict(lock_operations=0, functions_with_locks=0, concurrent_functions=0, guarded_fields=0, guarded_accesses=0, waits=0)
    p = lib.program("def")

    def event(f, i):
        n = p.callee_name(i)
        if n in ("pthread_mutex_lock", "pthread_mutex_trylock"):
            return [("open", pair.rootof(f, i.a[1]))]
        if n == "pthread_mutex_unlock":
            return [("close", pair.rootof(f, i.a[1]))]
        if n is not None and p.callee(i) is None:
            return []
        return None

    class P(pair.Pairs):
        def summary(s, f):
            """only what stays locked, or what is unlocked, when the function returns"""
            if f.key in s.memo:
                return s.memo[f.key]
            s.memo[f.key] = frozenset()
            r = s.run(f)
            sm = set()
            un = {q for _, q in r["unopened"]}
            for q, v in r["exit"].items():
                if pair.argroot(q) is None:
                    continue
                if v == {pair.OPEN}:
                    sm.add(("open", q))
                elif v == {pair.CLOSED} and q in un and q in r["closed"] and not any(k == "open" and x == q for e in r["events"].values() for k, x, _ in e):
                    sm.add(("close", q))
            s.memo[f.key] = frozenset(sm)
            return s.memo[f.key]
    A = P(p, event)
    for f in p.funcs.values():
        A.summary(f)
    A.all = True
    locks = {}             # function -> places it may lock
    helds = {}
    for f in sorted(p.funcs.values(), key=lambda f: str(f.key)):
        name = plain(f.name)
        r = None
        if any(A.events(f, i) for i in f.insts() if i.op == "call"):
            r = A.run(f)
            helds[f.key] = r
        if r is None:
            continue
        own = {q for e in r["events"].values() for k, q, i in e if k == "open"}
        ops = [(k, q, i) for e in r["events"].values() for k, q, i in e]
        cov["lock_operations"] += len(ops)
        cov["functions_with_locks"] += bool(ops)
        locks[f.key] = own
        summ = {q for k, q in A.summary(f)}
        for q, v in r["exit"].items():
            if pair.OPEN in v and not (q in summ):
                out.append(V("open:%s" % name, "%s:%d" % (f.file, f.line), name, "a lock may still be held when the function returns"))
        for i, q in r["reopen"]:
            out.append(V("relock:%s" % name, i.where, name, "a lock that may already be held is taken again"))
        for i, q in r["unopened"]:
            if not (q in summ):
                out.append(V("unlock:%s" % name, i.where, name, "a lock that may not be held is released"))
    # a routine called with a lock held does not take it again
    deep = {}

    def takes(g, d=0):
        if g.key in deep:
            return deep[g.key]
        deep[g.key] = frozenset()
        s = {q for q in locks.get(g.key, ()) if pair.argroot(q) is not None or q[0] == "g"}
        if d < 12:
            for i in g.insts():
                if i.op == "call":
                    h = p.callee(i)
                    if h is not None:
                        for q in takes(h, d + 1):
                            z = q if q[0] == "g" else pair.rebase(q, p, i)
                            if z[0] == "g" or pair.argroot(z) is not None:
                                s.add(z)
        deep[g.key] = frozenset(s)
        return deep[g.key]
    for k, r in helds.items():
        f = p.funcs[k]
        for i in f.insts():
            if i.op == "call" and i.id in r["before"]:
                held = {q for q, v in r["before"][i.id].items() if any(isinstance(z, tuple) for z in v)}
                if not held:
                    continue
                n = p.callee_name(i)
                if n in ("pthread_cond_wait", "pthread_cond_timedwait"):
                    continue
                g = p.callee(i)
                if g is not None:
                    for q in takes(g):
                        z = q if q[0] == "g" else pair.rebase(q, p, i)
                        if z in held:
                            out.append(V("deadlock:%s:%s" % (plain(f.name), plain(g.name)), i.where, plain(f.name), "%s takes a lock that is held when it is called" % plain(g.name)))
    # condition variables
    from ..cfg import CFG
    for f in p.funcs.values():
        for i in f.insts():
            if i.op == "call" and p.callee_name(i) in ("pthread_cond_wait", "pthread_cond_timedwait"):
                cov["waits"] += 1
                r = helds.get(f.key)
                q = pair.rootof(f, i.a[2])
                v = r["before"].get(i.id, {}).get(q, frozenset([pair.CLOSED])) if r else frozenset([pair.CLOSED])
                if pair.CLOSED in v:
                    out.append(V("waitlock:%s" % plain(f.name), i.where, plain(f.name), "waits on a condition without holding its lock"))
                g = CFG(f)
                if not loops(f, g, i.bb):
                    out.append(V("waitloop:%s" % plain(f.name), i.where, plain(f.name), "waits on a condition without testing it again when woken up"))
    # functions that run concurrently
    todo = set()
    for f in p.funcs.values():
        for i in f.insts():
            if i.op == "call":
                n = plain(p.callee_name(i) or "")
                if n in LAUNCH and plain(f.name) not in LAUNCH:          # the threading layer itself starts what it is given
                    for a in i.a[1:]:
                        functions_in(p, f, a, todo, set())
    need(len(todo) >= 12, "only %d thread functions found" % len(todo))
    mutex, inits = {}, defaultdict(set)
    for f in p.funcs.values():
        for i in f.insts():
            if i.op == "call" and p.callee_name(i) == "pthread_mutex_lock":
                x = field(f, i.a[1])
                if x:
                    mutex.setdefault(x[0], set()).add(x[1])
            if i.op == "call" and p.callee_name(i) in ("pthread_mutex_init", "pthread_mutex_destroy"):
                x = field(f, i.a[1])
                if x:
                    inits[f.key].add(x[2])
    tabs, allconc, allguard, naccess, seen = calls.Calls(p), set(), {}, set(), set()
    for root in sorted(todo, key=str):
        R = Region(p, root, helds, tabs)
        allconc |= R.conc
        acc = defaultdict(list)
        for k in R.conc:
            f = p.funcs[k]
            for i in f.insts():
                if i.op in ("store", "load", "atomicrmw", "cmpxchg"):
                    x = field(f, i.a[1] if i.op == "store" else i.a[0])
                    if x and x[0] in mutex and R.isshared(k, x[2]):
                        held = any(q[:-1] == x[2][:-1] for q in R.held_at(f, i))
                        acc[x[:2]].append((f, i, held, x[2]))
        for k, l in acc.items():
            if not any(i.op == "store" for f, i, h, o in l):
                continue
            allguard[k] = max(allguard.get(k, 0), sum(1 for f, i, h, o in l if h))
            naccess |= {(f.key, i.id) for f, i, h, o in l}
            for f, i, h, o in l:
                if h or o in inits[f.key] or (f.key, i.id) in seen:
                    continue
                if i.op == "load" and not written(f, i) and not any(g is f and j.op == "store" for g, j, h2, o2 in l):
                    continue                   # only the reads that prepare an update
                seen.add((f.key, i.id))
                out.append(V("guard:%s:%s+%d:%s" % (plain(f.name), k[0], k[1], i.op), i.where, plain(f.name), "%s of a field of %s that threads running %s write with its lock held, without the lock" % ("write" if i.op == "store" else "read", k[0], plain(p.funcs[root].name))))
    cov["concurrent_functions"], cov["guarded_fields"], cov["guarded_accesses"] = len(allconc), len(allguard), len(naccess)
    samples += ["%s+%d: %d accesses with the lock held" % (k + (n,)) for k, n in sorted(allguard.items())]
    need(cov["lock_operations"] >= 40 and cov["guarded_fields"] >= 10 and cov["waits"] >= 2, "too few locks found: %s" % cov)
    return Result(out, "on every path on which locking routines succeed, locks are taken and released in pairs, none is taken again by the thread that holds it (directly or in a callee), conditions are awaited with their lock held and tested again afterwards; "
                  "and every field that some thread writes with the lock of its record held is written, and read in preparation of an update, only with this lock held, in all that may run in these threads", cov, samples)


def written(f, i):
    """whether the block that a loaded pointer designates is written through it"""
    if not str(i.ty).startswith("ptr"):
        return False
    seen, todo = {i.id}, [i.id]
    while todo:
        x = todo.pop()
        for j in f.insts():
            if j.op in ir.CASTS and j.a[0] == x or j.op == "getelementptr" and j.a[1] == x:
                if j.id not in seen:
                    seen.add(j.id); todo.append(j.id)
            elif j.op == "store" and j.a[1] == x:
                return True
            elif j.op == "call" and len(j.a) > 1 and j.a[1] == x and str(j.a[0]).find("llvm.mem") >= 0:
                return True
    return False


class Region:
    """what may run in the threads that start at one function"""
    def __init__(s, p, root, helds, tabs):
        s.p, s.helds = p, helds
        conc, work, calls = {root}, [root], {}
        s.launched = {root}
        while work:
            f = p.funcs[work.pop()]
            for i in f.insts():
                if i.op == "call" and plain(p.callee_name(i) or "") in LAUNCH and plain(f.name) not in LAUNCH:
                    given = set()              # the launched routine, with all it is given shared and no lock held
                    for a in i.a[1:]:
                        functions_in(p, f, a, given, set())
                    for k in given:
                        s.launched.add(k)
                        if k not in conc:
                            conc.add(k); work.append(k)
                elif i.op == "call":
                    for g in tabs.targets(i):
                        calls.setdefault(g.key, []).append((f.key, i))
                        if g.key not in conc:
                            conc.add(g.key); work.append(g.key)
        s.conc, s.calls = conc, calls
        s.entry = {}
        # parameters that may designate an object of several threads: not those that are always a variable of the calling routine
        s.shared = {(k, a) for k in s.launched for a in range(p.funcs[k].nargs)}
        ch = True
        while ch:
            ch = False
            for k in conc:
                g = p.funcs[k]
                for ck, i in calls.get(k, ()):
                    for a in range(min(g.nargs, len(i.a) - 1)):
                        if (k, a) not in s.shared and s.isshared(ck, pair.rootof(p.funcs[ck], i.a[1 + a])):
                            s.shared.add((k, a)); ch = True
        # locks certainly held whenever a function is entered with an object of several threads
        s.entry = {k: (set() if k in s.launched or k not in calls else None) for k in conc}
        for _ in range(30):
            ch = False
            for k in conc:
                if k in s.launched:
                    continue
                sites, g = [], p.funcs[k]
                for ck, i in calls.get(k, ()):
                    if s.entry.get(ck) is None:
                        continue
                    t, private = set(), set()
                    for a in range(min(g.nargs, len(i.a) - 1)):
                        if not s.isshared(ck, pair.rootof(p.funcs[ck], i.a[1 + a])):
                            private.add(a)
                    for q in s.held_at(p.funcs[ck], i):
                        if q[0] == "g":
                            t.add(q)
                            continue
                        for a in range(min(g.nargs, len(i.a) - 1)):
                            b = pair.rootof(p.funcs[ck], i.a[1 + a])
                            if b[:-1] == q[:-1] and b[0] in ("arg", "ld", "phi", "val", "g"):
                                t.add(("arg", a, q[-1] - b[-1]))
                    sites.append((t, private))
                if sites:
                    t0 = {q for t, private in sites for q in t}
                    t0 = {q for q in t0 if all(q in t or (q[0] == "arg" and q[1] in private) for t, private in sites)}
                    if t0 != s.entry[k]:
                        s.entry[k] = t0; ch = True
            if not ch:
                break
        s.entry = {k: v or set() for k, v in s.entry.items()}

    def held_at(s, f, i):
        r = s.helds.get(f.key)
        own = {q for q, v in r["before"].get(i.id, {}).items() if v and all(isinstance(z, tuple) for z in v)} if r else set()
        return own | (s.entry.get(f.key) or set())

    def isshared(s, k, q):
        if q[0] == "loc":
            return False
        a = pair.argroot(q)
        if a is None and q[0] == "ld":       # handle held in a variable: shared if the routine itself locks what it designates
            r = s.helds.get(k)
            return r is not None and any(e[1][:-1] == q[:-1] for x in r["events"].values() for e in x)
        return a is None or (k, a) in s.shared


def loops(f, g, b):
    seen, todo = set(), [x for x in f.succ[b]]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x); todo += f.succ[x]
    return False
