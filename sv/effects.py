"""Which arguments a function may write through: flow-insensitive, interprocedural."""
from . import ir

# external routines: indices of the pointer arguments they write through ('*': every one from there)
WRITES = {
    "llvm.memcpy.p0.p0.i64": [0], "llvm.memmove.p0.p0.i64": [0], "llvm.memset.p0.i64": [0], "strcpy": [0], "strncpy": [0], "strcat": [0], "sprintf": [0], "snprintf": [0],
    "vsprintf": [0], "vsnprintf": [0], "fread": [0, 3], "fgets": [0, 2], "read": [1], "qsort": [0], "pipe": [0], "strncat": [0], "memcpy": [0], "memmove": [0], "memset": [0],
    "clock_gettime": [1], "time": [0], "pthread_create": [0, 3], "pthread_mutex_lock": [0], "pthread_mutex_unlock": [0], "pthread_mutex_init": [0], "pthread_mutex_destroy": [0],
    "MPI_Type_create_struct": [4], "MPI_Type_create_hindexed": [4], "MPI_Op_create": [2], "MPI_Type_contiguous": [2],
}
READS = {"fprintf", "printf", "puts", "vfprintf", "strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strchr", "strstr", "strpbrk", "atoi", "atof", "atol", "atoll", "strtol",
         "fopen", "getenv", "fputs", "fwrite", "write", "llvm.va_start", "llvm.va_end", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.prefetch.p0", "ctime"}


class Effects:
    def __init__(s, prog):
        s.p = prog
        s.deriv = {}       # function key -> {value: set of roots}
        s.w = {}           # function key -> {root: first writing instruction}
        s.esc = {}         # function key -> {root: instruction storing or returning it}
        s.kept = {}        # function key -> {root}: stored, returned, released or given to unknown code
        for k, f in prog.funcs.items():
            s.deriv[k] = s._derive(f)
            s.w[k] = {}; s.esc[k] = {}; s.kept[k] = set()
        work = list(prog.funcs.values())
        callers = {}
        for f in work:
            for i in f.insts():
                if i.op == "call":
                    for c in prog.callees(i):
                        callers.setdefault(c.key, set()).add(f.key)
        todo = set(prog.funcs)
        while todo:
            k = todo.pop()
            f = prog.funcs[k]
            n = len(s.w[k]), len(s.esc[k]), len(s.kept[k])
            s._one(f)
            if (len(s.w[k]), len(s.esc[k]), len(s.kept[k])) != n:
                todo |= callers.get(k, set())

    def _derive(s, f):
        """value -> roots: ('p', k) parameter k, ('g', name) global; copies, address arithmetic, choices; returned arguments are not tracked"""
        d = {}
        for k in range(f.nargs):
            if f.args[k][1] == "ptr":
                d[k] = {("p", k)}
        for _ in range(6):
            ch = False
            for i in f.insts():
                if i.op == "getelementptr":
                    src = [i.a[1]]
                elif i.op in ("bitcast", "addrspacecast", "inttoptr", "ptrtoint"):
                    src = [i.a[0]]
                elif i.op == "phi":
                    src = [x[0] for x in i.a]
                elif i.op == "select":
                    src = i.a[1:3]
                else:
                    continue
                r = set()
                for x in src:
                    y = s.roots(f, x, d)
                    r |= y
                    if not y and i.op in ("phi", "select") and not (isinstance(x, list) and x and x[0] == "n"):
                        r.add(("?", i.id))           # or something else
                if r - d.get(i.id, set()):
                    d.setdefault(i.id, set()).update(r); ch = True
            if not ch:
                break
        return d

    def roots(s, f, o, d=None):
        d = s.deriv[f.key] if d is None else d
        if isinstance(o, int):
            return d.get(o, set())
        if isinstance(o, list) and o:
            if o[0] == "g":
                return {("g", o[1])}
            if o[0] in ("gep", "ce"):
                r = set()
                for x in o[1:]:
                    if isinstance(x, list):
                        r |= s.roots(f, x, d)
                return r
        return set()

    def _one(s, f):
        w, e = s.w[f.key], s.esc[f.key]
        for i in f.insts():
            if i.op == "store":
                for r in s.roots(f, i.a[1]):
                    w.setdefault(r, i)
                for r in s.roots(f, i.a[0]):
                    e.setdefault(r, i)
                    s.kept[f.key].add(r)
            elif i.op == "ret" and i.a:
                for r in s.roots(f, i.a[0]):
                    e.setdefault(r, i)
                    s.kept[f.key].add(r)
            elif i.op in ("cmpxchg", "atomicrmw"):
                for r in s.roots(f, i.a[0]):
                    w.setdefault(r, i)
            elif i.op == "call":
                cs = s.p.callees(i)
                n = s.p.callee_name(i)
                for k, o in enumerate(i.a[1:]):
                    rs = s.roots(f, o)
                    if not rs:
                        continue
                    hit = esc = kept = False
                    if cs:
                        for c in cs:
                            if k >= c.nargs:
                                hit = hit or c.va and c.name.endswith(("memAllocGroup", "memReallocGroup", "memOffset"))
                            else:
                                hit = hit or ("p", k) in s.w[c.key]
                                esc = esc or ("p", k) in s.esc[c.key]
                                kept = kept or ("p", k) in s.kept[c.key]
                    elif n in WRITES:
                        hit = k in WRITES[n]
                    elif n in READS or n is not None and n.startswith("llvm.dbg"):
                        pass
                    elif n in ("__isoc99_fscanf", "__isoc99_sscanf", "fscanf", "sscanf"):
                        hit = k >= 2
                    elif n is not None and n.startswith("MPI_"):
                        hit = True
                    else:
                        hit = n is not None
                        kept = not (n is not None and n.startswith("llvm."))
                    if esc or kept:
                        s.kept[f.key] |= rs
                    if hit:
                        for r in rs:
                            w.setdefault(r, i)
                    if esc:
                        for r in rs:
                            e.setdefault(r, i)


class Owners:
    """What a function does to the blocks that an argument leads to, flow-insensitively: 'rel' releases some,
    'acq' puts some freshly allocated ones there, 'own' neither."""

    def __init__(s, prog):
        s.p = prog
        s.rel = {k: set() for k in prog.funcs}
        s.acq = {k: set() for k in prog.funcs}
        s.con = {}          # function key -> {value: parameters through which it was reached}
        s.fresh = {}
        callers = {}
        for k, f in prog.funcs.items():
            s._content(f)
            for i in f.insts():
                if i.op == "call":
                    for c in prog.callees(i):
                        callers.setdefault(c.key, set()).add(k)
        todo = set(prog.funcs)
        while todo:
            k = todo.pop()
            n = len(s.rel[k]), len(s.acq[k])
            s._one(prog.funcs[k])
            if (len(s.rel[k]), len(s.acq[k])) != n:
                todo |= callers.get(k, set())

    def _content(s, f):
        d = {k: {k} for k in range(f.nargs) if f.args[k][1] == "ptr"}
        fr = set()
        slot = set()                                  # own variables that allocation groups fill
        for i in f.insts():
            if i.op == "call":
                n = s.p.callee_name(i) or ""
                if n in ("malloc", "calloc", "realloc"):
                    fr.add(i.id)
                if n.endswith(("memAllocGroup", "memReallocGroup", "memOffset")):
                    fr.add(i.id)
                    for o in i.a[1:]:
                        if isinstance(o, int) and o in f.inst and f.inst[o].op in ("alloca", "getelementptr", "bitcast"):
                            slot.add(o)
        for _ in range(8):
            ch = False
            for i in f.insts():
                if i.op == "getelementptr":
                    src = [i.a[1]]
                elif i.op in ("bitcast", "addrspacecast", "inttoptr", "ptrtoint", "load"):
                    src = [i.a[0]]
                elif i.op == "phi":
                    src = [x[0] for x in i.a]
                elif i.op == "select":
                    src = i.a[1:3]
                else:
                    continue
                r = set()
                for x in src:
                    if isinstance(x, int):
                        r |= d.get(x, set())
                        if i.op == "load":
                            if x in slot and i.ty == "ptr" and i.id not in fr:
                                fr.add(i.id); ch = True
                        elif x in fr and i.id not in fr:
                            fr.add(i.id); ch = True
                if i.op == "load" and i.ty != "ptr":
                    continue
                if r - d.get(i.id, set()):
                    d.setdefault(i.id, set()).update(r); ch = True
            if not ch:
                break
        s.con[f.key] = d; s.fresh[f.key] = fr

    def _one(s, f):
        d, fr = s.con[f.key], s.fresh[f.key]
        rel, acq = s.rel[f.key], s.acq[f.key]
        for i in f.insts():
            if i.op == "store":
                if isinstance(i.a[0], int) and i.a[0] in fr and isinstance(i.a[1], int):
                    acq |= d.get(i.a[1], set())
            elif i.op == "call":
                n = s.p.callee_name(i) or ""
                if n in ("free", "realloc"):
                    if i.a[1:] and isinstance(i.a[1], int):
                        rel |= d.get(i.a[1], set())
                    continue
                grp = n.endswith(("memAllocGroup", "memReallocGroup", "memOffset"))
                for c in s.p.callees(i):
                    for k, o in enumerate(i.a[1:]):
                        if not isinstance(o, int) or o not in d:
                            continue
                        if grp:
                            acq |= d[o]
                        else:
                            if k in s.rel[c.key]:
                                rel |= d[o]
                            if k in s.acq[c.key]:
                                acq |= d[o]
