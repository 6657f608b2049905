"""C09: what is communicated is described by the type it has in memory."""
from .. import ast
from ..main import V, Result, need
from .c10 import inlib, pointee

# (buffer, type, count or None) argument positions
PAIRS = {
    "MPI_Allgather": [(0, 2, 1), (3, 5, None)], "MPI_Allgatherv": [(0, 2, 1), (3, 6, None)], "MPI_Allreduce": [(0, 3, 2), (1, 3, 2)],
    "MPI_Alltoall": [(0, 2, None), (3, 5, None)], "MPI_Alltoallv": [(0, 3, None), (4, 7, None)], "MPI_Bcast": [(0, 2, 1)],
    "MPI_Gather": [(0, 2, 1), (3, 5, None)], "MPI_Gatherv": [(0, 2, 1), (3, 6, None)], "MPI_Scatter": [(0, 2, None), (3, 5, 4)],
    "MPI_Scatterv": [(0, 3, None), (4, 6, 5)], "MPI_Reduce": [(0, 3, 2), (1, 3, 2)], "MPI_Scan": [(0, 3, 2), (1, 3, 2)], "MPI_Exscan": [(0, 3, 2), (1, 3, 2)],
    "MPI_Send": [(0, 2, 1)], "MPI_Ssend": [(0, 2, 1)], "MPI_Isend": [(0, 2, 1)], "MPI_Issend": [(0, 2, 1)], "MPI_Recv": [(0, 2, 1)], "MPI_Irecv": [(0, 2, 1)],
    "MPI_Send_init": [(0, 2, 1)], "MPI_Recv_init": [(0, 2, 1)], "MPI_Sendrecv": [(0, 2, 1), (5, 7, 6)],
    "_SCOTCHcommAllgatherv": [(0, 2, 1), (3, 6, None)], "_SCOTCHcommGatherv": [(0, 2, 1), (3, 6, None)], "_SCOTCHcommScatterv": [(0, 3, None), (4, 6, 5)],
    "_SCOTCHdgraphHaloSync": [(1, 2, None)], "_SCOTCHdgraphHaloAsync": [(1, 2, None)],
}
# element kind and size of the predefined types
BASE = {"ompi_mpi_int": ("int", 4), "ompi_mpi_unsigned": ("int", 4), "ompi_mpi_long": ("int", 8), "ompi_mpi_long_long_int": ("int", 8), "ompi_mpi_int64_t": ("int", 8), "ompi_mpi_int32_t": ("int", 4),
        "ompi_mpi_short": ("int", 2), "ompi_mpi_float": ("float", 4), "ompi_mpi_double": ("float", 8), "ompi_mpi_char": ("int", 1), "ompi_mpi_unsigned_char": ("int", 1), "ompi_mpi_byte": ("any", 1)}


def datatype(n):
    """('base', kind, size) of an expression of type MPI_Datatype, or ('var', declaration id, text)"""
    s = ast.strip(n)
    if s[0] == "un" and s[3] == "&" and s[4][0] == "ref":
        return ("base", s[4][3])
    if s[0] == "ref":
        return ("var", s[5])
    return None


def leaves(tu, t, depth=0):
    """set of (kind, size) a value of this type is made of"""
    if t is None or depth > 5:
        return {None}
    if t.kind == "arr":
        return leaves(tu, t.elt, depth + 1)
    if t.kind in ("struct", "union") and t.extra in tu.records:
        out = set()
        for f in tu.records[t.extra]["fields"]:
            out |= leaves(tu, f[1], depth + 1)
        return out
    if t.kind == "enum":
        return {("int", t.size)}
    return {(t.kind, t.size)}


def following(tu, x, t):
    """elements of this very type in the fields that follow a field without a gap: they may be communicated along with it"""
    if x[0] != "mem" or x[6] not in tu.records:
        return 0
    lv = leaves(tu, t)
    n, end = 0, x[7] + (t.extra * t.elt.size if t.kind == "arr" else t.size)
    esz = t.elt.size if t.kind == "arr" else t.size
    for f in sorted(tu.records[x[6]]["fields"], key=lambda f: f[2]):
        if f[2] == end and leaves(tu, f[1]) == lv and len(lv) == 1 and f[1].size > 0:
            n += f[1].size // esz; end += f[1].size
    return n


def extent(tu, n):
    """(number of elements from here on, element type) of a buffer that is an array variable or field, else None"""
    while n[0] == "cast" and n[3] in ("BitCast", "NoOp"):
        n = n[5]
    if n[0] == "cast" and n[3] == "ArrayToPointerDecay":
        t = tu.ty(n[5])
        if t.kind == "arr" and t.extra:
            return t.extra + following(tu, n[5], t), t.elt, n[5]
    if n[0] == "bin" and n[3] == "+":
        e = extent(tu, n[4]); c = ast.const(n[5])
        if e and c is not None:
            return e[0] - c, e[1], e[2]
    if n[0] == "un" and n[3] == "&":
        x = n[4]
        if x[0] == "sub":
            e = extent(tu, x[3]); c = ast.const(x[4])
            if e and c is not None:
                return e[0] - c, e[1], e[2]
            return None
        t = tu.ty(x)
        if x[0] in ("ref", "mem") and t is not None:
            if t.kind == "arr" and t.extra:
                return t.extra + following(tu, x, t), t.elt, x
            if x[0] == "mem" and t.size > 0:
                return 1 + following(tu, x, t), t, x
            if x[0] == "ref":
                return 1, t, x
    return None


def run(tier):
    out = []
    cov = dict(calls=0, pairs=0, constant_counts=0, opaque_types=0, reduction_counts=0)
    samples = []
    for config in ("def", "i64"):
        w = {"def": "32-bit", "i64": "64-bit"}[config]
        for tu in ast.load(config):
            if not inlib(tu.name):
                continue
            for f in tu.funcs:
                derived = {}
                for n in ast.walk(f["body"]):
                    if n[0] == "call" and ast.callee(n) == "MPI_Type_contiguous":
                        v = ast.strip(n[6])
                        if v[0] == "un" and v[3] == "&" and v[4][0] == "ref":
                            d = datatype(n[5])
                            derived.setdefault(v[4][5], []).append((ast.const(n[4]), d))
                for n in ast.walk(f["body"]):
                    if n[0] != "call":
                        continue
                    name = ast.callee(n)
                    args = n[4:]
                    if name == "_SCOTCHdgraphAllreduceMaxSum2":
                        c = ast.const(args[2])
                        for a in args[:2]:
                            e = extent(tu, a)
                            if e and c is not None:
                                cov["reduction_counts"] += 1
                                if e[0] < c:
                                    out.append(V("count:%s:%s" % (f["name"], ast.text(a)), "%s:%d" % (f["file"], n[1]), f["name"],
                                                 "%d values are reduced but %s holds %d" % (c, ast.text(a), e[0])))
                        continue
                    if name not in PAIRS or len(args) < 3:
                        continue
                    cov["calls"] += 1
                    for b, ty, ct in PAIRS[name]:
                        d = datatype(args[ty])
                        t = pointee(tu, args[b])
                        if d is None or t is None or t.kind in ("void", "func"):
                            cov["opaque_types"] += 1
                            continue
                        mult = 1
                        if d[0] == "var":
                            l = derived.get(d[1], [])
                            if len(l) != 1 or l[0][1] is None or l[0][1][0] != "base":
                                cov["opaque_types"] += 1
                                continue
                            mult = l[0][0]; d = l[0][1]
                        if d[1] not in BASE:
                            cov["opaque_types"] += 1
                            continue
                        k, sz = BASE[d[1]]
                        cov["pairs"] += 1
                        lv = leaves(tu, t)
                        c = ast.const(args[ct]) if ct is not None else None
                        if c == 0:
                            continue
                        where = "%s:%d" % (f["file"], n[1])
                        if k == "any":
                            # raw bytes: one-byte elements, or a count in bytes
                            if t.size != 1 and ct is not None and not has_sizeof(args[ct]) or t.size != 1 and ct is None:
                                out.append(V("byte:%s:%s" % (f["name"], ast.text(args[b])), where, f["name"],
                                             "%s (%s, %d bytes) is communicated by %s as single bytes (%s integers)" % (ast.text(args[b]), t.sugar, t.size, name, w)))
                        elif any(x is None or x[1] != sz or x[0] not in (k, "enum") for x in lv):
                            out.append(V("type:%s:%s:%s" % (f["name"], name, ast.text(args[b])), where, f["name"],
                                         "%s points to %s (%d bytes) but %s is told %s (%d bytes) (%s integers)" % (ast.text(args[b]), t.sugar, t.size, name, d[1][9:], sz, w)))
                        e = extent(tu, args[b])
                        if c is not None and e and mult and k != "any" and e[1].size > 0:
                            cov["constant_counts"] += 1
                            if e[0] * e[1].size < c * mult * sz:
                                out.append(V("count:%s:%s:%s" % (f["name"], name, ast.text(args[b])), where, f["name"],
                                             "%s communicates %d elements of %s, which holds %d" % (name, c * mult, ast.text(args[b]), e[0] * e[1].size // sz)))
                        if len(samples) < 6 and cov["pairs"] % 37 == 1:
                            samples.append("%s: %s (%s : %s)" % (where, name, ast.text(args[b]), t.sugar))
    need(cov["pairs"] >= 400 and cov["constant_counts"] >= 100 and cov["reduction_counts"] >= 24, "too few communication sites: %s" % cov)
    return Result(out, "at every call that communicates a buffer, the predefined datatype has the kind and size of the buffer's elements under both integer widths, and a constant "
                  "element count does not exceed the array it refers to", cov, samples)


def has_sizeof(n):
    return any(x[0] == "sizeof" for x in ast.walk(n))
