"""C13: results depend on the input, the options and the random seed only."""
from ..main import V, Result, need
from .. import lib, ir, cfg, effects

# ambient sources -> units that may use them, each confirmed by reading
TIME = {"libscotch/common_integer.c": "seed of the generator when no fixed seed is configured", "libscotch/common.c": "clock for timings"}
ENV = {"libscotch/common.c": "environment accessors", "libscotch/common_context.c": "number of threads"}
AMBIENT = {}
for n in ("time", "clock", "clock_gettime", "gettimeofday", "times", "getrusage", "ftime", "MPI_Wtime", "llvm.readcyclecounter"):
    AMBIENT[n] = TIME
for n in ("getenv", "secure_getenv"):
    AMBIENT[n] = ENV
for n in ("rand", "random", "drand48", "lrand48", "mrand48", "rand_r", "random_r", "getrandom", "arc4random", "getpid", "gettid", "getppid", "sched_getcpu", "gethostname", "MPI_Get_processor_name", "getentropy", "mallinfo", "mallinfo2", "sysinfo"):
    AMBIENT[n] = {}
AMBIENT["sysconf"] = {"libscotch/common_thread_system.c": "number of cores"}
AMBIENT["pthread_self"] = {"libscotch/common_thread.c": "thread handle, for joining and affinity"}
# wrappers of the above in the common library -> units that may call them
WRAP = {"clockGet": {"libscotch/common_timer.c": "timings"}, "envGetInt": {"libscotch/common_context.c": "number of threads"}, "envGetStr": {}}
RANDUNITS = ("libscotch/common_integer.c", "libscotch/common_context.c", "libscotch/library_random.c")
# receives completed in arrival order whose processing was confirmed, by reading, to place each message by its sender only
ORDERFREE = {
    "libscotch/dgraph_coarsen.c": "coarse vertex data of each neighbour goes to slots indexed by the received vertex",
    "libscotch/dgraph_fold.c": "each message fills the index range of its sender", "libscotch/hdgraph_fold.c": "each message fills the index range of its sender",
}


def detvars(p, f):
    """stack slots or values holding the deterministic option: outputs of contextValuesGetInt with option 0"""
    out = []
    for i in f.insts():
        if i.op == "call" and (p.callee_name(i) or "").endswith("contextValuesGetInt") and len(i.a) >= 4 and isinstance(i.a[2], list) and i.a[2][0] == "i" and i.a[2][1] == 0:
            out.append((i, i.a[3]))
    return out


def nondet_edges(p, f):
    """(block, successor) edges taken only when the deterministic option is off"""
    slots = set()
    fields = set()
    for i, o in detvars(p, f):
        for k, x in lib.origins(f, o):
            if k == "alloca":
                slots.add(x.id)
    ed = set()
    for bi, b in enumerate(f.blocks):
        t = b[-1]
        if t.op != "br" or len(t.a) != 3:
            continue
        c = f.inst.get(t.a[0]) if isinstance(t.a[0], int) else None
        neg = False
        while c is not None and c.op == "xor":
            c = f.inst.get(c.a[0]); neg = not neg
        if c is None or c.op != "icmp" or c.a[0] not in ("eq", "ne"):
            continue
        v = c.a[1]
        z = c.a[2]
        if not (isinstance(z, list) and z[0] == "i"):
            continue
        if not any(k == "load" and any(k2 == "alloca" and y.id in slots for k2, y in lib.origins(f, x.a[0])) for k, x in lib.origins(f, v)):
            continue
        off_is_true = (c.a[0] == "eq") == (z[1] == 0)
        if z[1] not in (0, 1):
            continue
        if neg:
            off_is_true = not off_is_true
        ed.add((bi, t.a[1] if off_is_true else t.a[2]))
    return ed


def guarded(p, f, i):
    ed = nondet_edges(p, f)
    c = cfg.CFG(f)
    if i.bb not in c.reach:
        return True
    for b, s in ed:
        if len(f.pred[s]) == 1 and c.dominates(s, i.bb):
            return True
    return False


def run(tier):
    out, samples = [], []
    cov = dict(functions=0, ambient_sites=0, random_sites=0, address_values=0, arrival_order_receives=0, guarded_receives=0, lock_tables=0)
    for config in ("def", "dbg"):
        p = lib.program(config)
        cov["functions"] += len(p.funcs)
        callers = {}
        for f in p.funcs.values():
            for i in f.insts():
                if i.op == "call":
                    c = p.callee(i)
                    if c:
                        callers.setdefault(c.key, []).append((f, i))
        for f in p.funcs.values():
            unit = f.unit.name
            for i in f.insts():
                if i.op == "ptrtoint":
                    cov["address_values"] += 1
                    for u in f.uses[i.id]:
                        if u.op not in ("sub", "icmp", "inttoptr") and not (u.op == "trunc" and u.ty == "i8"):   # small tags stored in link pointers
                            out.append(V("addr:%s" % f.src, i.where, f.src, "a computation uses the numeric value of an address: the result depends on where memory was allocated"))
                if i.op != "call":
                    continue
                n = p.callee_name(i)
                if n is None:
                    continue
                if n in AMBIENT and not p.callee(i):
                    cov["ambient_sites"] += 1
                    if unit not in AMBIENT[n]:
                        out.append(V("ambient:%s:%s" % (f.src, n), i.where, f.src, "%s makes the outcome depend on something else than input, options and seed" % n))
                s = n[7:] if n.startswith("_SCOTCH") else n
                if s in WRAP:
                    cov["ambient_sites"] += 1
                    if unit not in WRAP[s] and unit != "libscotch/common.c":
                        out.append(V("ambient:%s:%s" % (f.src, s), i.where, f.src, "%s makes the outcome depend on something else than input, options and seed" % s))
                if s.startswith("intRand") and len(i.a) > 1:
                    cov["random_sites"] += 1
                    if unit not in RANDUNITS:
                        why = fromctx(p, callers, f, i.a[1], set(), 0)
                        if why:
                            out.append(V("random:%s" % f.src, i.where, f.src, "%s draws from %s, not from the generator of the caller's context" % (s, why)))
                arr = n in ("MPI_Waitany", "MPI_Waitsome", "MPI_Testany", "MPI_Testsome", "MPI_Test", "MPI_Testall", "MPI_Iprobe", "MPI_Probe", "MPI_Mprobe")
                if arr or n in ("MPI_Recv", "MPI_Irecv", "MPI_Recv_init") and const(i.a[4]) == -1:
                    cov["arrival_order_receives"] += 1
                    if arr and unit not in ORDERFREE:
                        if guarded(p, f, i):
                            cov["guarded_receives"] += 1
                        else:
                            out.append(V("order:%s" % f.src, i.where, f.src, "%s processes messages in arrival order even when the deterministic option is set" % n))
                    elif not arr and not f.file.endswith("_io.c"):
                        out.append(V("order:%s" % f.src, i.where, f.src, "%s from any source processes messages in arrival order" % n))
        # threaded matching takes per-vertex locks: only when the option is off
        f = next((g for g in p.funcs.values() if g.src == "graphMatchInit"), None)
        need(f is not None, "graphMatchInit is gone")
        nl = 0
        LOCKFIELD[0] = None
        for i in f.insts():
            if i.op == "store" and isnull(i.a[0]) and field(f, i.a[1]):
                LOCKFIELD[0] = field(f, i.a[1])
        need(LOCKFIELD[0] is not None, "no lock table field in graphMatchInit")
        for g in p.funcs.values():
            for i in g.insts():
                if i.op == "store" and field(g, i.a[1]) == LOCKFIELD[0] and not isnull(i.a[0]):
                    nl += 1
                    cov["lock_tables"] += 1
                    if not guarded(p, g, i):
                        out.append(V("locks:%s" % g.src, i.where, g.src, "the threaded matching, which depends on the schedule, may be selected although the deterministic option is set"))
    need(cov["random_sites"] >= 60 and cov["arrival_order_receives"] >= 20 and cov["guarded_receives"] >= 6, "too little analysed: %s" % cov)
    return Result(out, "clock, environment and system randomness are read only where seeds, thread numbers and timings are set; random numbers are drawn only from the generator of a context; "
                  "no computation uses addresses as numbers; receives processed in arrival order are reached only with the deterministic option off, or place messages by sender; the lock-based "
                  "threaded matching is only selected with the option off", cov, samples)


LOCKFIELD = [None]


def const(o):
    return o[1] if isinstance(o, list) and o and o[0] == "i" else None


def isnull(o):
    return isinstance(o, list) and o and o[0] == "n"


def field(f, o):
    """(struct, index) a pointer designates"""
    if not isinstance(o, int) or o < f.nargs:
        return None
    i = f.inst[o]
    if i.op == "getelementptr" and len(i.a) == 4 and isinstance(i.a[3], list) and i.a[3][0] == "i":
        return (i.a[0], i.a[3][1])
    return None


def fromctx(p, callers, f, o, seen, depth):
    """None when every origin is the generator field of a context, or a parameter always given one"""
    for k, x in lib.origins(f, o):
        if k == "load":
            fl = field(f, x.a[0])
            if fl and fl[0] == "%struct.Context_":
                continue
            return "another object"
        if k == "arg":
            if (f.key, x) in seen or depth > 5:
                continue
            seen.add((f.key, x))
            for cf, ci in callers.get(f.key, ()):
                r = fromctx(p, callers, cf, ci.a[x + 1], seen, depth + 1)
                if r:
                    return r
            continue
        if k == "g":
            return "the process-wide generator" if x.endswith("intranddat") else x
        return "a generator of its own"
    return None
