"""C08: every started communication is completed before its buffers disappear."""
from .. import pair, lib, ir
from ..flow import plain
from ..main import V, Result, need

START = {"MPI_Isend": (7, 1), "MPI_Irecv": (7, 1), "MPI_Issend": (7, 1), "MPI_Irsend": (7, 1), "MPI_Ibsend": (7, 1), "MPI_Ialltoallv": (10, 5), "MPI_Ialltoall": (8, 4), "MPI_Ibcast": (6, 1),
         "MPI_Iallreduce": (7, 2), "MPI_Send_init": (7, 1), "MPI_Recv_init": (7, 1), "MPI_Start": (1, None), "MPI_Startall": (2, None), "MPI_Iallgather": (8, 4), "MPI_Iallgatherv": (9, 4), "MPI_Ibarrier": (2, None),
         "MPI_Igather": (9, 4), "MPI_Igatherv": (10, 4), "MPI_Ireduce": (8, 2), "MPI_Iscatter": (9, 4), "MPI_Iscatterv": (10, 5)}
ONE = {"MPI_Wait": 1, "MPI_Request_free": 1}
MANY = {"MPI_Waitall": 2, "MPI_Waitany": 2, "MPI_Waitsome": 2}


def klass(f, o):
    """part of an array of requests: ("c", offset), ("m", multiple) or None"""
    off, var = 0, []
    while isinstance(o, int) and o >= f.nargs:
        i = f.inst[o]
        if i.op == "getelementptr":
            off += (i.x or {}).get("off") or 0
            var += [x for x in i.a[2:] if isinstance(x, int)]
            o = i.a[1]
        elif i.op in ir.CASTS:
            o = i.a[0]
        else:
            break
    if not var:
        return ("c", off)

    def mult(x, d=0):
        if not isinstance(x, int) or x < f.nargs or d > 6:
            return None
        i = f.inst[x]
        if i.op in ("mul", "shl"):
            for c, v in ((i.a[0], i.a[1]), (i.a[1], i.a[0])):
                if isinstance(c, list) and c[0] == "i":
                    return int(c[1]) if i.op == "mul" else 1 << int(c[1])
        if i.op == "add":
            r = [mult(y, d + 1) for y in i.a[:2]]
            r = [y for y in r if y is not None]
            return r[0] if len(r) == 1 else None
        if i.op in ir.CASTS:
            return mult(i.a[0], d + 1)
        return None
    m = [mult(x) for x in var]
    m = [x for x in m if x is not None]
    return ("m", m[0]) if len(m) == 1 else None


CREATE = {"MPI_Type_contiguous": ("T", 3), "MPI_Type_create_resized": ("T", 4), "MPI_Type_create_hindexed": ("T", 5), "MPI_Type_create_struct": ("T", 5), "MPI_Type_struct": ("T", 5), "MPI_Type_vector": ("T", 5),
          "MPI_Type_dup": ("T", 2), "MPI_Type_indexed": ("T", 5), "MPI_Op_create": ("O", 3), "MPI_Comm_dup": ("C", 2), "MPI_Comm_split": ("C", 4), "MPI_Type_create_hvector": ("T", 5)}
FREE = {"MPI_Type_free": "T", "MPI_Op_free": "O", "MPI_Comm_free": "C"}
WHAT = {"T": "datatype", "O": "reduction operator", "C": "communicator"}


def objects(p, out, cov):
    """datatypes, operators and communicators that a function creates and frees are freed on every path; datatypes are committed before they are used"""
    def event(f, i):
        n = p.callee_name(i)
        if n in CREATE:
            k, a = CREATE[n]
            e = [("open", (k, pair.rootof(f, i.a[a])))]
            return e + ([("open", ("U", pair.rootof(f, i.a[a])))] if k == "T" and n != "MPI_Type_dup" else [])
        if n in FREE:
            e = [("close", (FREE[n], pair.rootof(f, i.a[1])))]
            return e + ([("close", ("U", pair.rootof(f, i.a[1])))] if FREE[n] == "T" else [])
        if n == "MPI_Type_commit":
            return [("close", ("U", pair.rootof(f, i.a[1])))]
        if n and (n.startswith("MPI_") or p.callee(i) is None):
            return []
        return None

    class P(pair.Pairs):
        def place(s, r):
            return r[1]

        def moved(s, r, q):
            return (r[0], q)
    A = P(p, event)
    called = p.taken | {p.callee(i).key for f in p.funcs.values() for i in f.insts() if i.op == "call" and p.callee(i) is not None}
    for f in sorted(p.funcs.values(), key=lambda f: str(f.key)):
        r = A.run(f)
        if not r["events"]:
            continue
        name = plain(f.name)
        freed = {q for e in r["events"].values() for k, q, i in e if k == "close"}
        cov["objects"] += sum(1 for e in r["events"].values() for k, q, i in e if k == "open" and q[0] != "U")
        seen = set()
        for t, st in r["exits"]:
            for q, v in st.items():
                if q[0] == "U" or q[0] == "C" and q not in freed or q[1][0] == "?" or q not in freed and pair.argroot(q[1]) is not None and f.key in called:
                    continue
                for x in v:
                    if isinstance(x, tuple) and (x[1], q) not in seen:
                        seen.add((x[1], q))
                        i = f.inst[x[1]]
                        out.append(V("object:%s:%s" % (name, p.callee_name(i)), i.where, name, "%s: the %s it creates may not be freed when the function returns" % (p.callee_name(i), WHAT[q[0]])))
        for i in f.insts():
            n = p.callee_name(i) if i.op == "call" else None
            if n and n.startswith("MPI_") and not n.startswith(("MPI_Type_", "MPI_Op_")) and i.id in r["before"]:
                for o in i.a[1:]:
                    q = ("U", load_place(f, o))
                    if q[1] and any(isinstance(x, tuple) for x in r["before"][i.id].get(q, ())):
                        out.append(V("uncommitted:%s:%s" % (name, n), i.where, name, "%s uses a datatype that may not have been committed" % n))


def load_place(f, o):
    if isinstance(o, int) and o >= f.nargs and f.inst[o].op == "load":
        return pair.rootof(f, f.inst[o].a[0])
    return None


def run(tier):
    out, samples = [], []
    cov = dict(functions=0, starts=0, completions=0, releases_checked=0, exits=0, objects=0)
    for config in ("def",) if tier == "quick" else ("def", "i64"):
        p = lib.program(config)

        def event(f, i):
            n = p.callee_name(i)
            if n in START:
                o = i.a[START[n][0]]
                return [("open", ("#", pair.rootof(f, o)[:2], klass(f, o), n.endswith("_init")))]
            if n in ONE:
                o = i.a[ONE[n]]
                r, k = pair.rootof(f, o)[:2], klass(f, o)
                if n == "MPI_Wait" and k is not None:
                    return [("close", ("#", r, k, False))]
                return [("close", ("#!" if n == "MPI_Wait" else "*", r))]
            if n in MANY:
                o = i.a[MANY[n]]
                r, k = pair.rootof(f, o)[:2], klass(f, o)
                if k is not None and k[0] == "m":
                    return [("close", ("#", r, k, False))]
                return [("close", ("#!", r))]
            if n and (n.startswith("MPI_") or p.callee(i) is None):
                return []
            return None

        class P(pair.Pairs):
            def closed(s, r, st):
                if r[0] == "*":
                    return [q for q in st if q[1] == r[1]]
                if r[0] == "#!":              # a wait completes a persistent request but does not release it
                    return [q for q in st if q[1] == r[1] and not q[3]]
                return [r]

            def place(s, r):
                return r[1]

            def moved(s, r, q):
                return r[:1] + (q[:2],) + r[2:]
        A = P(p, event, loops=True, may=True)
        called = {p.callee(i).key for f in p.funcs.values() for i in f.insts() if i.op == "call" and p.callee(i) is not None}
        for f in sorted(p.funcs.values(), key=lambda f: str(f.key)):
            r = A.run(f)
            if not r["events"]:
                continue
            cov["functions"] += 1
            name = plain(f.name)
            for e in r["events"].values():
                for k, q, i in e:
                    cov["starts" if k == "open" else "completions"] += 1
            seen = set()
            for t, st in r["exits"]:
                cov["exits"] += 1
                for q, v in st.items():
                    if pair.argroot(q[1]) is not None and f.key in called:
                        continue               # left to the callers
                    for x in v:
                        if isinstance(x, tuple) and x[1] not in seen:
                            seen.add(x[1])
                            i = f.inst[x[1]]
                            what = "released" if q[3] else "completed"
                            out.append(V("open:%s:%s" % (name, p.callee_name(i)), i.where, name, "%s: the request it starts may not be %s when the function returns" % (p.callee_name(i), what)))
            # blocks released while a communication uses them
            group = {}
            for i in f.insts():
                if i.op == "call" and (p.callee_name(i) or "").endswith(("memAllocGroup", "memReallocGroup")):
                    for o in i.a[1:]:
                        q = pair.rootof(f, o)
                        if q[0] in ("loc", "arg", "ld"):
                            group.setdefault(("ld", q), set()).add(i.id)
            for i in f.insts():
                if i.op == "call" and plain(p.callee_name(i) or "") in ("free", "memFree", "memFreeGroup", "realloc", "memRealloc", "memReallocGroup") and i.id in r["before"]:
                    cov["releases_checked"] += 1
                    b = pair.rootof(f, i.a[1])[:2]
                    for q, v in r["before"][i.id].items():
                        for x in v:
                            if not isinstance(x, tuple):
                                continue
                            si = f.inst[x[1]]
                            k = START.get(p.callee_name(si), (0, None))[1]
                            sb = pair.rootof(f, si.a[k])[:2] if k else None
                            if (sb and sb == b and b[0] != "?") or q[1] == b or group.get(b, set()) & (group.get(sb, set()) | group.get(q[1], set())):
                                out.append(V("freed:%s:%s" % (name, p.callee_name(si)), i.where, name, "a block is released while the communication started at line %d may still use it" % si.line))
            if len(samples) < 12:
                samples.append("%s: %d operations" % (name, len(r["events"])))
        objects(p, out, cov)
    need(cov["objects"] >= 15 and cov["functions"] >= 8 and cov["starts"] >= 50 and cov["completions"] >= 25, "too few communications found: %s" % cov)
    return Result(out, "on every path on which MPI and locking routines succeed, every request started by a non-blocking or persistent operation is completed (persistent: released) before the function returns, "
                  "and the blocks it uses are not released before; datatypes, operators and communicators a function creates for its own use are freed, and datatypes are committed before they are used", cov, samples)
