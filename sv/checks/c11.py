"""C11: arrays of fixed size are only used within their bounds."""
import os, re
from .. import ir, ival, effects
from ..ival import ARR, steps, tsize
from ..flow import plain
from ..main import V, Result, need

RULE = ("Every index into an array of declared size lies within it, and so does everything that copying, formatting, scanning, message-passing "
        "and string routines may put into or take from such an array, whatever the values of parameters, files and arguments; text copied into one is "
        "terminated within it, formats are constants, and tables that are scanned up to an empty entry end with one")

# arrays indexed by a number that is itself the content of a data array, of another object or of a message: not decided
PAIR = "pair of fine vertices, scanned up to its second element"
THREAD = "indexed by the rank of one of two threads"
PART = "indexed by the part of a vertex, read from its graph"
OPEN = {
    "GraphCoarsenMulti_.0": PAIR, "ArchCoarsenMulti_.0": PAIR, "MeshCoarsenMult_.0": PAIR, "DgraphCoarsenMulti_.0": PAIR,
    "DgraphFoldDupSplit_.0": THREAD, "HgraphOrderNdSplit_.0": THREAD, "HmeshOrderNdSplit_.0": THREAD, "KgraphMapRbPartSplit_.0": THREAD,
    "WgraphPartRbSplit_.0": THREAD,
    "BgraphBipartDfData_.5": PART, "BgraphBipartDfThread_.0": PART, "BgraphBipartDfThread_.1": PART, "BgraphBipartDfThread_.2": PART,
    "BgraphBipartDfThread_.3": PART, "BgraphBipartDfThread_.4": PART, "BgraphBipartDfThread_.5": PART,
    "bdgraphCheck:commcut": PART, "bdgraphCheck:complocload": PART, "bdgraphCheck:complocsize": PART, "hgraphOrderNd:vspvnumptr": PART,
    "vdgraphCheck:commcut": PART, "vdgraphCheck:complocload": PART, "vdgraphCheck:complocsize": PART, "vgraphCheck:commcut": PART,
    "vgraphCheck:compload": PART, "vgraphCheck:compsize": PART, "vgraphSeparateTh:commcut": PART, "vmeshCheck:edgecut": PART,
    "vdgraphSeparateMlPack:partidxtab": "indexed by a part received in a message",
    "bdgraphBipartDf:valolocval": "indexed by the difference between two vertex numbers", "bdgraphBipartDf:vanclocval": "indexed by the difference between two vertex numbers",
    "vdgraphSeparateDf:valolocval": "indexed by the difference between two vertex numbers", "vdgraphSeparateDf:vanclocval": "indexed by the difference between two vertex numbers",
    "KgraphMapExTree_.1": "sons counted by a second counter", "SCOTCH_dgraphMapView:cdsttab": "indexed up to a distance received in a message",
    "archMpiClassTab": "indexed by the number of an architecture class", "graphmatchfunctab": "indexed by the kind of matching stored in a thread's data",
    "meshCoarsenFuncTab": "indexed by the value of a strategy parameter", "strattestsaveop": "indexed by the kind of a strategy test",
}
HALF = {     # only the upper bound is decided
    "SCOTCH_dgraphMapStat:cdstloctab": "distances are not negative", "graphMapView2:commdist": "distances are not negative",
    "outDrawTulMesh:pictimestr": "the text of a date is not empty",
}
TABLES = {"C_FormatInp_", "C_FormatOut_", "C_ParseCode_", "C_ParseArg_", "FileCompressTab_", "StratMethodTab_", "StratParamTab_", "ArchClass_", "ArchMpiClass_"}
GENERATED = re.compile(r"(^|/)parser_(ll|yy|lh)\.c$")
DATATYPES = {"ompi_mpi_int": 4, "ompi_mpi_long": 8, "ompi_mpi_double": 8, "ompi_mpi_float": 4, "ompi_mpi_byte": 1, "ompi_mpi_char": 1, "ompi_mpi_unsigned_char": 1,
             "ompi_mpi_long_long_int": 8, "ompi_mpi_unsigned": 4, "ompi_mpi_unsigned_long": 8}
MPI = {"MPI_Allreduce": [(0, 2, 3), (1, 2, 3)], "MPI_Reduce": [(0, 2, 3), (1, 2, 3)], "MPI_Scan": [(0, 2, 3), (1, 2, 3)], "MPI_Exscan": [(0, 2, 3), (1, 2, 3)], "MPI_Bcast": [(0, 1, 2)],
       "MPI_Send": [(0, 1, 2)], "MPI_Isend": [(0, 1, 2)], "MPI_Recv": [(0, 1, 2)], "MPI_Irecv": [(0, 1, 2)], "MPI_Gather": [(0, 1, 2)], "MPI_Allgather": [(0, 1, 2)],
       "MPI_Alltoall": [(0, 1, 2)], "MPI_Scatter": [(3, 4, 5)], "MPI_Sendrecv": [(0, 1, 2), (5, 6, 7)], "MPI_Gatherv": [(0, 1, 2)], "MPI_Allgatherv": [(0, 1, 2)], "MPI_Scatterv": [(4, 5, 6)],
       "MPI_Send_init": [(0, 1, 2)], "MPI_Recv_init": [(0, 1, 2)], "MPI_Waitall": [(1, 0, 8)], "MPI_Startall": [(1, 0, 8)], "MPI_Waitany": [(1, 0, 8)]}
FORMATS = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "fscanf": 1, "sscanf": 1, "scanf": 0, "__isoc99_fscanf": 1, "__isoc99_sscanf": 1, "__isoc99_scanf": 0,
           "SCOTCH_errorPrint": 0, "SCOTCH_errorPrintW": 0, "errorPrint": 0, "errorPrintW": 0}
INF = float("inf")


class Bounds:
    def __init__(s, p):
        s.p = p
        s.I = ival.Ival(p)
        s.I.assume = {("struct.ArchMeshX_", 0): (1, 5), ("struct.ArchMeshXMatch_", 1): (1, 5), ("struct.ArchMeshXMatch_", 2): (0, 4)}
        s.out, s.und, s.samples = [], [], []
        s.n = dict(functions=0, indices=0, constant_indices=0, copies=0, messages=0, formatted=0, copied_text=0, scanned=0, assumed_fields=0, tables=0, not_decided=0)

    # ---- names
    def base(s, f, i):
        """name of the array a computation indexes, step by step: list of (name, extent, index, type)"""
        u = f.unit
        ty = i.a[0]
        out = []
        r, _ = s.I.addr(f, i.a[1])
        name = None
        if r[0] == "l":
            name = "%s:%s" % (plain(f.name), f.inst[r[1]].a[2] if len(f.inst[r[1]].a) > 2 else "?")
        elif r[0] == "g":
            name = plain(r[1])
        j = i.a[1]
        if isinstance(j, int) and j >= f.nargs and f.inst[j].op == "getelementptr":
            x = f.inst[j]
            t, z = s.field(u, x)
            name = z or name
        for o in i.a[3:]:
            m = ARR.match(ty)
            if m:
                out.append((name or "?", int(m.group(1)), o, m.group(2)))
                ty = m.group(2)
            elif ty[0] == "%":
                st = u.structs.get(ty[1:])
                k = int(o[1])
                name = "%s.%d" % (ty[1:].replace("struct.", ""), k)
                ty = st["e"][k][1]
            else:
                break
        return out

    def field(s, u, x):
        ty = x.a[0]
        name = None
        for o in x.a[3:]:
            m = ARR.match(ty)
            if m:
                ty = m.group(2)
            elif ty[0] == "%":
                k = int(o[1])
                name = "%s.%d" % (ty[1:].replace("struct.", ""), k)
                ty = u.structs[ty[1:]]["e"][k][1]
        return ty, name

    def v(s, key, i, msg):
        s.out.append(V(key, i.where, i.fn.name, msg))

    # ---- strings
    def strings(s, f, o, seen=()):
        """the constant texts a pointer may designate, None when not known"""
        if isinstance(o, list) and o:
            if o[0] == "g":
                g = f.unit.globals.get(o[1])
                i = g.get("init") if g and g.get("const") else None
                return [i[1]] if i and i[0] == "s" else [""] if i and i[0] == "z" else None
            if o[0] == "n":
                return []                         # not a text; printing routines are not given one
            if o[0] == "gep" and o[4] == 0:
                return s.strings(f, o[2], seen)
            return None
        if o in seen:
            return []
        if not isinstance(o, int) or o < f.nargs:
            return None
        i = f.inst[o]
        if i.op in ("phi", "select"):
            out = []
            for x in ([x[0] for x in i.a] if i.op == "phi" else i.a[1:3]):
                t = s.strings(f, x, seen + (o,))
                if t is None:
                    return None
                out += t
            return out
        if i.op == "getelementptr" and (i.x or {}).get("off") == 0 and not (i.x or {}).get("vo"):
            return s.strings(f, i.a[1], seen)
        return None

    def room(s, f, o, st, outer=False):
        """bytes from where a pointer designates to the end of its array of fixed size: (name, lowest), None when it has none"""
        r, _ = s.I.addr(f, o)
        u = f.unit
        size = lo0 = None
        inner = None
        x = o
        offs = (0, 0)
        while isinstance(x, int) and x >= f.nargs and f.inst[x].op in ("getelementptr", "bitcast"):
            i = f.inst[x]
            if i.op == "bitcast":
                x = i.a[0]; continue
            ty = i.a[0]
            t = s.I.val(f, i.a[2], st) if len(i.a) > 2 else (0, 0)
            z = tsize(u, ty)
            if t is None or z is None:
                return None
            here = (t[0] * z, t[1] * z)
            arr = None
            for q in i.a[3:]:
                m = ARR.match(ty)
                if m:
                    ty = m.group(2)
                    k = s.I.val(f, q, st)
                    z = tsize(u, ty)
                    if k is None or z is None:
                        return None
                    n = int(m.group(1))
                    if outer and arr is not None and k == (0, 0):
                        continue
                    if arr is None or ty[0] != "[" or not outer:
                        arr = (n * z, (k[0] * z, k[1] * z))
                elif ty[0] == "%":
                    e = u.structs[ty[1:]]["e"][int(q[1])]
                    here = (here[0] + e[0], here[1] + e[0])
                    ty = e[1]
                    arr = None
            if arr is not None and inner is None:
                inner = (s.name(f, x), arr[0], (arr[1][0] + offs[0], arr[1][1] + offs[1]))
            elif inner is None and len(i.a) > 3:
                z = tsize(u, ty)
                if z is None:
                    return None
                m = ARR.match(ty)
                inner = (s.name(f, x), z, offs)
            else:
                offs = (offs[0] + here[0], offs[1] + here[1])
            if inner:
                if outer and offs == (0, 0) and inner[2] == (0, 0):
                    j = i.a[1]
                    if isinstance(j, int) and j >= f.nargs and f.inst[j].op == "getelementptr" and not i.a[0].startswith("%") or isinstance(j, int) and f.inst.get(j) is not None and f.inst[j].op == "alloca":
                        w = s.room(f, j, st, True)
                        if w is not None and w[1] > inner[1]:
                            return w
                if outer:
                    inner = (inner[0], inner[1] + s.more(u, i), inner[2])
                break
            x = i.a[1]
        if inner is None:
            if isinstance(x, list) and x and x[0] == "gep":
                offs = (offs[0] + x[4], offs[1] + x[4]) if isinstance(x[4], int) else None
                x = x[2]
            if isinstance(x, int) and x >= f.nargs and f.inst[x].op == "alloca" and offs:
                z = tsize(u, f.inst[x].a[0])
                if z is None:
                    return None
                inner = ("%s:%s" % (plain(f.name), f.inst[x].a[2] if len(f.inst[x].a) > 2 else "?"), z, offs)
            elif isinstance(x, list) and x and x[0] == "g" and offs:
                g = u.globals.get(x[1])
                z = tsize(u, g["type"]) if g else None
                if z is None:
                    return None
                inner = (plain(x[1]), z, offs)
        if inner is None:
            return None
        return inner[0], inner[1] - inner[2][1], inner[2][0] >= 0, inner[1]

    def more(s, u, i):
        """bytes of the fields just after an array that hold elements of the same type: messages may span them"""
        if not (i.a[0].startswith("%") and len(i.a) == 4 or i.a[0].startswith("%") and len(i.a) == 5):
            return 0
        e = u.structs[i.a[0][1:]]["e"]
        k = int(i.a[3][1])
        el = lambda t: ARR.match(t).group(2) if ARR.match(t) else t
        n = 0
        end = e[k][0] + (tsize(u, e[k][1]) or 0)
        for x in e[k + 1:]:
            if x[0] != end or el(x[1]) != el(e[k][1]):
                break
            n += tsize(u, x[1]); end = x[0] + tsize(u, x[1])
        return n

    def name(s, f, x):
        b = s.base(f, f.inst[x])
        if b:
            return b[-1][0]
        return s.field(f.unit, f.inst[x])[1] or "?"

    def cases(s, f, r, i, ks):
        """the states of a call and the operands in them, one for each way to a choice among its arguments"""
        st = s.I.before(r, i)
        if st is None:
            return []
        ops = [i.a[k + 1] for k in ks]
        blocks = {f.inst[o].bb for o in ops if isinstance(o, int) and o >= f.nargs and f.inst[o].op == "phi" and f.inst[o].ty == "ptr"}
        if len(blocks) == 1 and any(s.room(f, v, st) for o in ops if isinstance(o, int) and o >= f.nargs and f.inst[o].op == "phi" and f.inst[o].ty == "ptr" for v, _ in f.inst[o].a):
            b = blocks.pop()
            out = []
            for p in f.pred[b]:
                e = r.edges.get((p, b))
                if e is None:
                    continue
                l = []
                for o in ops:
                    if isinstance(o, int) and o >= f.nargs and f.inst[o].op == "phi" and f.inst[o].bb == b:
                        l += [v for v, q in f.inst[o].a if q == p][:1]
                    else:
                        l.append(o)
                out.append((e, l))
            return out
        return [(st, ops)]

    def terminated(s, f, i, o, room, st):
        """a zero is put within the array after the call, or it stays at its end"""
        r, _ = s.I.addr(f, o)
        for j in f.insts():
            if j.op == "store" and s.I.addr(f, j.a[1])[0] == r and isinstance(j.a[0], list) and j.a[0][0] == "i" and int(j.a[0][1]) == 0 and j.a[0][2] == 8:
                if (j.bb == i.bb and j.ix > i.ix) or (j.bb != i.bb and s.cfg(f).dominates(i.bb, j.bb)):
                    return True
        return False

    def cfg(s, f):
        from ..cfg import CFG
        k = getattr(s, "_cfg", None)
        if k is None or k[0] is not f:
            s._cfg = k = (f, CFG(f))
        return k[1]

    def length(s, f, i, fmt, args, st):
        """the longest text of a format with these arguments, and why it has no bound"""
        n, k, why = 0, 0, None
        x = 0
        while x < len(fmt):
            if fmt[x] != "%":
                n += 1; x += 1; continue
            m = re.match(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|L|z|j|t)?([diouxXcsfFeEgGpn%])", fmt[x:])
            if not m:
                return INF, "its format is not understood"
            x += m.end()
            fl, wid, prec, mod, c = m.groups()
            if c == "%":
                n += 1; continue
            if "*" in (wid, prec):
                return INF, "its width is not constant"
            a = args[k] if k < len(args) else None
            k += 1
            if c in "diouxX":
                v = s.I.val(f, a, st) if a is not None else None
                if v is None:
                    v = (-(1 << 63), 1 << 63)
                if c in "oxXu" and v[0] < 0:
                    w = 22 if c == "o" else 20
                elif c in "oxX":
                    w = len(("%o" if c == "o" else "%x") % v[1]) + 2
                else:
                    w = 0
                    for q in v:
                        t = len(str(abs(q)))
                        t = max(t, int(prec or 0)) + (1 if q < 0 or "+" in fl or " " in fl else 0)
                        w = max(w, t)
            elif c == "c":
                w = 1
            elif c in "fF":
                w = (4934 if mod == "L" else 310) + 1 + int(prec if prec is not None else 6)
            elif c in "eEgG":
                w = 10 + int(prec if prec is not None else 6)
            elif c == "p":
                w = 18
            elif c == "s":
                t = s.strings(f, a) if a is not None else None
                if prec is not None:
                    w = int(prec)
                elif t is None:
                    w = INF; why = "it takes a text of any length"
                else:
                    w = max(len(q.encode()) for q in t)
            else:
                return INF, "its format is not understood"
            n += max(w, int(wid or 0))
        return n, why

    def fits(s, i, o, st, size, what, key, count, outer=False):
        """size bytes fit where the pointer designates"""
        f = i.fn
        m = s.room(f, o, st, outer)
        if m is None:
            s.n["not_decided"] += 1
            return
        name, left, low, whole = m
        s.n[count] += 1
        if len(s.samples) < 12 and count in ("formatted", "messages", "copied_text"):
            s.samples.append({"where": i.where, "array": name, "bytes": size if size != INF else "any", "room": left})
        if not low or size > left:
            s.v("%s:%s" % (key, re.sub(r"\d+$", "", name)), i, "%s may take %s bytes of array %s, which has %d%s" % (
                what, size if size < 1 << 60 else "any number of", name, whole, "" if left == whole else " (at least %d of them after the place)" % max(left, 0) if left < 1 << 40 and left > -(1 << 40) else " (at a place that is not bounded)"))

    # ---- rules
    def calls(s, f):
        p = s.p
        todo = []
        for i in f.insts():
            if i.op == "call":
                n = p.callee_name(i)
                if n is None:
                    continue
                if n in MPI or n in ("sprintf", "snprintf", "strcpy", "strncpy", "strcat", "fgets", "read", "fread") or "scanf" in n or n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) or n in FORMATS or n in ("strpbrk", "strchr", "strrchr", "strstr"):
                    todo.append((i, n))
        if not todo:
            return
        r = None
        fn = plain(f.name)
        for i, n in todo:
            if n in FORMATS and FORMATS[n] + 1 < len(i.a) and s.strings(f, i.a[FORMATS[n] + 1]) is None:
                w = s.origin(f, i.a[FORMATS[n] + 1])
                if w not in ("argument of a printing routine",) and not (fn, w) in TABLED:
                    s.v("%s:format" % fn, i, "the format given to %s is not constant: a '%%' in it reads arguments that do not exist" % plain(n))
            if n in FORMATS and n not in ("sprintf", "snprintf") and "scanf" not in n:
                continue
            if r is None:
                r = s.I.run(f)
                if r is None:
                    s.n["not_decided"] += 1
                    return
            if n in ("strpbrk", "strchr", "strrchr", "strstr"):
                s.searched(f, i, n)
                continue
            if n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                st = s.I.before(r, i)
                if st is None:
                    continue
                v = s.I.val(f, i.a[3], st)
                whole = v[1] if v[0] >= 0 else INF
                for k in ((0, 1) if not n.startswith("llvm.memset") else (0,)):
                    if s.room(f, i.a[k + 1], st) is None:
                        continue
                    s.fits(i, i.a[k + 1], st, whole, "the copy" if k < 1 and "set" not in n else "the filling" if "set" in n else "the copy's source", "%s:copy" % fn, "copies", True)
            elif n in MPI:
                st = s.I.before(r, i)
                if st is None:
                    continue
                for b, c, t in MPI[n]:
                    o = i.a[b + 1]
                    if s.room(f, o, st) is None:
                        continue
                    v = s.I.val(f, i.a[c + 1], st)
                    if isinstance(t, int) and n.startswith(("MPI_Wait", "MPI_Start")):
                        z = 8
                    else:
                        d = i.a[t + 1]
                        z = DATATYPES.get(d[1]) if isinstance(d, list) and d and d[0] == "g" else None
                    if z is None:
                        s.n["not_decided"] += 1
                        continue
                    s.fits(i, o, st, v[1] * z if v and v[0] >= 0 and v[1] < 1 << 31 - 1 else INF, "%s of %s elements" % (n, v[1] if v and v[0] == v[1] else "some"), "%s:%s" % (fn, n), "messages", True)
            elif n == "sprintf":
                fm = s.strings(f, i.a[2])
                for st, l in s.cases(f, r, i, range(len(i.a) - 1)):
                    if s.room(f, l[0], st) is None:
                        s.n["not_decided"] += 1
                        continue
                    fm = fm or None
                    for k, a in enumerate(l[2:]):
                        v = s.received(f, a, st)
                        if v is not None:
                            st = st.copy(); st.env[a] = v
                    w = max(s.length(f, i, x, l[2:], st)[0] for x in fm) if fm else INF
                    s.fits(i, l[0], st, w + 1, "sprintf", "%s:sprintf" % fn, "formatted")
            elif n == "snprintf":
                for st, l in s.cases(f, r, i, range(2)):
                    v = s.I.val(f, l[1], st)
                    s.fits(i, l[0], st, v[1], "snprintf", "%s:snprintf" % fn, "formatted")
            elif n == "strcpy":
                for st, l in s.cases(f, r, i, range(2)):
                    t = s.strings(f, l[1])
                    m = s.room(f, l[1], st)
                    w = max(len(x.encode()) for x in t) + 1 if t is not None else m[3] if m else INF
                    s.fits(i, l[0], st, w, "strcpy", "%s:strcpy" % fn, "copied_text")
            elif n == "strcat":
                st = s.I.before(r, i)
                if st is None:
                    continue
                rt, _ = s.I.addr(f, i.a[1])
                ks = [s.I.addr(f, j.a[1])[1] for j in f.insts() if j.op == "store" and s.I.addr(f, j.a[1])[0] == rt and isinstance(j.a[0], list) and j.a[0][0] == "i" and int(j.a[0][1]) == 0 and j.a[0][2] == 8
                      and (j.bb == i.bb and j.ix < i.ix or j.bb != i.bb and s.cfg(f).dominates(j.bb, i.bb))]
                ks = [k for k in ks if k is not None]
                t = s.strings(f, i.a[2])
                s.fits(i, i.a[1], st, (min(ks) if ks else INF) + (max(len(x.encode()) for x in t) if t else INF) + 1, "strcat", "%s:strcat" % fn, "copied_text")
            elif n == "strncpy":
                for st, l in s.cases(f, r, i, range(3)):
                    v = s.I.val(f, l[2], st)
                    s.fits(i, l[0], st, v[1] if v[0] >= 0 else INF, "strncpy", "%s:strncpy" % fn, "copied_text")
                    if s.room(f, l[0], st) is not None and not s.terminated(f, i, l[0], None, st):
                        s.v("%s:terminated" % fn, i, "text of just the maximum length is left without a terminator in the array it is copied to")
            elif n == "fgets":
                for st, l in s.cases(f, r, i, range(2)):
                    v = s.I.val(f, l[1], st)
                    s.fits(i, l[0], st, v[1], "fgets", "%s:fgets" % fn, "scanned")
            elif n in ("read", "fread"):
                for st, l in s.cases(f, r, i, range(3)):
                    if s.room(f, l[1 if n == "read" else 0], st) is None:
                        continue
                    v = s.I.val(f, l[2], st)
                    w = s.I.val(f, l[1], st)[1] if n == "fread" else 1
                    s.fits(i, l[1 if n == "read" else 0], st, v[1] * w if v[0] >= 0 else INF, n, "%s:%s" % (fn, n), "scanned")
            elif "scanf" in n:
                k = FORMATS.get(n, 1)
                fm = s.strings(f, i.a[k + 1])
                st = s.I.before(r, i)
                if fm is None or st is None:
                    continue
                for x in fm:
                    s.scan(f, i, x, i.a[k + 2:], st, fn)

    def scan(s, f, i, fmt, args, st, fn):
        k = 0
        for m in re.finditer(r"%(\*)?(\d+)?(hh|h|ll|l|L|z|j|t)?(\[\^?\]?[^]]*\]|[diouxXcsfFeEgGpn%])", fmt):
            sup, wid, mod, c = m.groups()
            if c == "%" or sup:
                continue
            if k >= len(args):
                s.v("%s:scan" % fn, i, "the format of the scan has more directives than it has arguments")
                return
            a = args[k]; k += 1
            if c[0] in "s[":
                if wid is None:
                    s.v("%s:scan" % fn, i, "text of any length is read by %s" % m.group(0))
                    continue
                z = int(wid) + 1
            elif c == "c":
                z = int(wid or 1)
            elif c in "fFeEgG":
                z = {"l": 8, "L": 16}.get(mod, 4)
            else:
                z = {"l": 8, "ll": 8, "z": 8, "j": 8, "t": 8, "h": 2, "hh": 1}.get(mod, 4)
            s.fits(i, a, st, z, "%s" % m.group(0), "%s:scan" % fn, "scanned")
        if k < len(args):
            s.v("%s:scan" % fn, i, "the scan has more arguments than its format has directives")

    def received(s, f, a, st):
        """bounds that some process has checked for a value before all of them received it: tests of the same place of its messages"""
        o = a
        while isinstance(o, int) and o >= f.nargs and f.inst[o].op in ("sext", "trunc"):
            o = f.inst[o].a[0]
        if not isinstance(o, int) or o < f.nargs or f.inst[o].op != "load":
            return None
        r, off = s.I.addr(f, f.inst[o].a[0])
        if r[0] != "l" or off is None or not f.inst[r[1]].a[0].startswith("["):
            return None
        lo = hi = None
        for j in f.insts():
            if j.op != "icmp" or not (isinstance(j.a[1], int) and j.a[1] >= f.nargs and isinstance(j.a[2], list) and j.a[2][0] == "i"):
                continue
            l = f.inst[j.a[1]]
            if l.op != "load" or s.I.addr(f, l.a[0])[1] != off or s.I.addr(f, l.a[0])[0][0] != "l":
                continue
            c = s.I.val(f, j.a[2], st)[0]
            if j.a[0] in ("slt", "sge"):
                lo = c if lo is None else max(lo, c)
            elif j.a[0] in ("sgt", "sle"):
                hi = c if hi is None else min(hi, c)
        return (lo, hi) if lo is not None and hi is not None and lo <= hi else None

    def origin(s, f, o):
        """where a format that is not constant comes from"""
        if isinstance(o, int):
            if o < f.nargs:
                return "argument of a printing routine" if f.va or f.nargs <= 3 and plain(f.name).startswith(("SCOTCH_error", "errorPrint")) else "argument"
            i = f.inst[o]
            if i.op == "load":
                return "table"
        return "?"

    def searched(s, f, i, n):
        """the result of a search is used only where it is known to have succeeded"""
        g = s.cfg(f)
        ok = set()                                # blocks where it succeeded
        tests = []
        vals = {i.id}
        for j in f.insts():
            if j.op == "getelementptr" and j.a[1] in vals:
                pass
            if j.op == "icmp" and j.a[0] in ("eq", "ne") and any(isinstance(o, int) and o in vals for o in j.a[1:]) and any(isinstance(o, list) and o and o[0] == "n" for o in j.a[1:]):
                tests.append(j)
        for j in f.insts():
            if j.op == "br" and len(j.a) == 3:
                for t in tests:
                    if j.a[0] == t.id:
                        ok.add((j.bb, j.a[1] if t.a[0] == "ne" else j.a[2]))
        for j in f.uses.get(i.id, ()):
            use = j.op == "load" or j.op == "store" and j.a[1] == i.id or j.op == "getelementptr" and any(
                q.op in ("load", "store") and (q.a[1] if q.op == "store" else q.a[0]) == j.id for q in f.uses.get(j.id, ()))
            if use and not any(g.dominates(t, j.bb) and len(f.pred[t]) == 1 for b, t in ok):
                s.v("%s:%s" % (plain(f.name), n), j, "the result of %s is used although it may have found nothing" % n)
                return

    def indices(s, f):
        ob = [(i, b) for i in f.insts() if i.op == "getelementptr" for b in s.base(f, i)]
        if not ob:
            return
        r = s.I.run(f) if any(isinstance(b[2], int) for _, b in ob) else None
        done = set()
        for i, (name, n, o, ty) in ob:
            gen = GENERATED.search(f.file)
            if isinstance(o, int):
                if gen:
                    s.n["not_decided"] += 1
                    continue
                s.n["indices"] += 1
                if r is None:
                    v = ival.top(s.p.valty(f, o))
                else:
                    v = s.I.at(r, i, o)
            else:
                s.n["constant_indices"] += 1
                v = s.I.val(f, o, ival.State())
            if v == "dead" or v[0] >= 0 and v[1] < n:
                if isinstance(o, int) and len(s.samples) < 6 and v != "dead":
                    s.samples.append({"where": i.where, "array": name, "extent": n, "index": list(v)})
                continue
            if v == (n, n) and not s.touched(f, i):
                continue                          # the address just after the array
            k = re.sub(r"(?<=[a-z])\d+$", "", name) if ":" in name else name
            if k in OPEN or name in OPEN:
                s.n["not_decided"] += 1
                continue
            if v[1] < n and (k in HALF or name in HALF) or name in HALF and name.startswith("outDraw"):
                continue
            if (name, fn := plain(f.name)) in done:
                continue
            if s.sentinel(f, name):
                s.n["not_decided"] += 1
                continue
            done.add((name, fn))
            s.v("%s:%s" % (fn, k), i, "the index of array %s, of %d elements, may be %s" % (name, n, rng(v)))
        # places at a constant distance from the start of an object
        for i in f.insts():
            if i.op in ("load", "store"):
                rt, off = s.I.addr(f, i.a[1] if i.op == "store" else i.a[0])
                if rt[0] not in ("l", "g") or off is None:
                    continue
                t = f.inst[rt[1]].a[0] if rt[0] == "l" else (f.unit.globals.get(rt[1]) or {}).get("type")
                if rt[0] == "g" and (f.unit.globals.get(rt[1]) or {"decl": True}).get("decl"):
                    continue
                if rt[0] == "l" and f.inst[rt[1]].a[1] != ["i", 1, 32]:
                    continue
                z = tsize(f.unit, t) if t else None
                w = tsize(f.unit, s.p.valty(f, i.a[0]) or "i8") if i.op == "store" else tsize(f.unit, i.ty)
                if z is not None and w is not None and not (0 <= off and off + w <= z):
                    s.v("%s:object" % plain(f.name), i, "an access at byte %d of an object of %d bytes" % (off, z))

    def touched(s, f, i, depth=0):
        return any(j.op in ("load", "store") and not (j.op == "store" and j.a[0] == i.id) for j in f.uses.get(i.id, ()))

    def sentinel(s, f, name):
        """a table scanned up to its last, empty entry"""
        for u in (f.unit,):
            for g in u.globals.values():
                if plain(g["name"]) == name and g.get("internal") and "init" in g:
                    m = ARR.match(g["type"])
                    if m and m.group(2)[0] == "%" and m.group(2)[1:].replace("struct.", "") in TABLES:
                        return True
        return False

    def tables(s):
        seen = set()
        for u in s.p.units:
            if "dummysizes" in u.name:
                continue
            for g in u.globals.values():
                m = ARR.match(g["type"])
                if not m or "init" not in g or g["init"][0] != "a" or (g["name"], u.name) in seen:
                    continue
                seen.add((g["name"], u.name))
                last = g["init"][-1]
                t = m.group(2)
                if t[0] == "%" and t[1:].replace("struct.", "") in TABLES:
                    e = u.structs[t[1:]]["e"]
                    k = next(k for k, x in enumerate(e) if x[1] == "ptr")
                    bad = not (last[0] == "z" or last[0] == "a" and last[k + 1][0] in "nz")
                    if "parse" in t.lower() and last[0] == "a" and bad:
                        ks = [q for q, x in enumerate(e) if x[1] == "ptr"]
                        bad = last[ks[0] + 1][0] not in "nz"
                elif t == "ptr" and g["name"] == "C_usageList":
                    bad = last[0] != "n"
                else:
                    continue
                s.n["tables"] += 1
                if bad:
                    s.out.append(V("table:%s:%s" % (u.name.split("/")[-1], plain(g["name"])), "%s:%d" % (u.name, g.get("line", 0)), plain(g["name"]), "the table is scanned up to an empty entry but does not end with one"))

    def assumed(s):
        """fields whose range the index rules rely on: whatever stores into them keeps the range, or the function reports failure"""
        for f in s.p.funcs.values():
            rel = []
            for i in f.insts():
                if i.op == "getelementptr" and i.a[0].startswith("%") and len(i.a) == 4 and isinstance(i.a[3], list) and (i.a[0][1:], int(i.a[3][1])) in s.I.assume:
                    rel.append((i, s.I.assume[(i.a[0][1:], int(i.a[3][1]))]))
            for i, (lo, hi) in rel:
                r, off = s.I.addr(f, i.id)
                ways = []
                for j in f.uses.get(i.id, ()):
                    if j.op == "load" or j.op == "store" and j.a[1] != i.id or j.op == "icmp":
                        continue
                    s.n["assumed_fields"] += 1
                    res = s.I.run(f)
                    if j.op == "store":
                        v = s.I.at(res, j, j.a[0]) if res else None
                        if v == "dead" or v and lo <= v[0] and v[1] <= hi:
                            continue
                    if res is None or not s.left(f, res, j, (r, off, "i32"), lo, hi):
                        s.v("%s:field" % plain(f.name), j, "a number of dimensions that may lie outside %d to %d is kept in the architecture" % (lo, hi))

    def left(s, f, r, j, cell, lo, hi):
        """whenever the function returns success, the place holds a value of the range"""
        for b, blk in enumerate(f.blocks):
            t = blk[-1]
            if t.op != "ret" or r.ins[b] is None:
                continue
            ph = f.inst[t.a[0]] if t.a and isinstance(t.a[0], int) and t.a[0] >= f.nargs and f.inst[t.a[0]].op == "phi" and f.inst[t.a[0]].bb == b else None
            ways = []
            if ph is not None:
                for v, p in ph.a:
                    e = r.edges.get((p, b))
                    if e is not None:
                        ways.append((e, s.I.val(f, v, e)))
            else:
                st = s.I.before(r, t)
                ways.append((st, s.I.val(f, t.a[0], st) if t.a else (0, 0)))
            for st, v in ways:
                if st is None or v is not None and (v[0] > 0 or v[1] < 0):
                    continue
                w = st.mem.get(cell)
                if w is None or w[0] < lo or w[1] > hi:
                    return False
        return True


def builders(b):
    """strategy strings put together in buffers of fixed size, with the widest numbers"""
    from . import c23
    from .. import ast
    for tu in ast.load("def"):
        if not os.path.basename(tu.name).startswith("library_"):
            continue
        fs = {f["name"]: (tu, f) for f in tu.funcs}
        for f in tu.funcs:
            if not any(n[0] == "call" and (ast.callee(n) or "").endswith("stringSubst") for n in ast.walk(f["body"])):
                continue
            S = c23.Strings(tu, fs, {}, lambda *a: None)
            S.depth = 0; S.wide = True
            S.body(f, {})
            b.n["built_texts"] += S.built
            for line, sz, ln in S.over:
                b.out.append(V("%s:built" % plain(f["name"]), "%s:%d" % (f["file"], line), f["name"], "a text of %d characters is built in an array of %d" % (ln, sz)))


TABLED = {("C_parse", "table")}


def rng(v):
    f = lambda x: "unbounded" if abs(x) >= (1 << 31) - 1 else str(x)
    return "anything" if f(v[0]) == f(v[1]) == "unbounded" else "%s to %s" % (f(v[0]) if f(v[0]) != "unbounded" else "any negative number", f(v[1]) if f(v[1]) != "unbounded" else "any larger number")


def run(tier):
    p = ir.Program("def")
    b = Bounds(p)
    for f in sorted(p.funcs.values(), key=lambda f: (f.file, f.name)):
        if "dummysizes" in f.file or "/test_" in f.file:
            continue
        b.n["functions"] += 1
        b.indices(f)
        if not f.file.endswith("parser_yy.y") and not GENERATED.search(f.file):
            b.calls(f)
    b.tables()
    b.assumed()
    b.n["built_texts"] = 0
    builders(b)
    n = b.n
    need(n["built_texts"] > 100, "strategy builders are no longer recognised")
    need(n["functions"] > 1500 and n["indices"] > 200 and n["constant_indices"] > 2000, "arrays of fixed size are no longer recognised")
    need(n["messages"] > 60 and n["formatted"] > 20 and n["copied_text"] > 8 and n["scanned"] > 10 and n["tables"] > 50, "routines that fill arrays are no longer recognised")
    seen, out = set(), []
    for v in b.out:
        if v.key not in seen:
            seen.add(v.key); out.append(v)
    return Result(out, RULE, n, b.samples)
