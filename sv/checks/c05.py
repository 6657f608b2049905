"""C05: what the caller lends to the library is left as it is."""
import re
from .. import lib, unif, calls, paths, effects, ast
from ..flow import plain
from ..main import V, Result, need

API = re.compile(r"(SCOTCH_|METIS_|ParMETIS_)\w+$")
RECORDS = ("Graph_", "Mesh_", "Dgraph_")
# public routines whose purpose is to change arrays of the object itself
RULE = "No public routine writes, itself or in any routine that it calls or gives to a thread, through a parameter that is declared to point to constant data, nor into the arrays of a graph or mesh that it is given"
CHANGES = {"SCOTCH_graphBase": "renumbers the graph from another base", "SCOTCH_meshBase": "renumbers the mesh from another base"}
# parameters that are only read although their type does not say so: old mappings and partitions
OLD = {"SCOTCH_graphRemapCompute": 2, "SCOTCH_graphRemapFixedCompute": 2, "SCOTCH_graphRemap": 2, "SCOTCH_graphRemapFixed": 2, "SCOTCH_graphRepart": 2, "SCOTCH_graphRepartFixed": 2,
       "SCOTCH_graphRemapView": 2, "SCOTCH_graphRemapViewRaw": 2}
SCAN = ("__isoc99_fscanf", "__isoc99_sscanf", "fscanf", "sscanf")
MPIIN = {"MPI_Allgather": [3], "MPI_Allgatherv": [3], "MPI_Allreduce": [1], "MPI_Alltoall": [3], "MPI_Alltoallv": [4], "MPI_Bcast": [0], "MPI_Gather": [3], "MPI_Gatherv": [3], "MPI_Scatter": [3],
         "MPI_Scatterv": [4], "MPI_Reduce": [1], "MPI_Scan": [1], "MPI_Exscan": [1], "MPI_Recv": [0], "MPI_Irecv": [0], "MPI_Recv_init": [0], "MPI_Sendrecv": [5], "MPI_Ialltoallv": [4]}


def writes(n, k):
    if n in effects.WRITES:
        return [a for a in effects.WRITES[n] if a < k]
    if n in SCAN:
        return range(2, k)
    return [a for a in MPIIN.get(n, ()) if a < k]


# arrays that graphs and meshes keep of their caller
LENT = {"Graph_": {"verttax", "vendtax", "velotax", "vnumtax", "vlbltax", "edgetax", "edlotax"},
        "Mesh_": {"verttax", "vendtax", "velotax", "vnlotax", "vnumtax", "vlbltax", "edgetax"},
        "Dgraph_": {"vertloctax", "vendloctax", "veloloctax", "vnumloctax", "vlblloctax", "edgeloctax", "edloloctax"}}


def run(tier):
    p = lib.program("def")
    T = calls.Calls(p)
    F = unif.Fields(p)
    P = paths.Paths(p, T, F, writes)
    const, kinds = {}, {}                      # public routine -> parameters through which the caller lends data
    for u in ast.load("def"):
        for f in u.funcs:
            if API.match(f["name"]) and not f["name"].startswith("METIS_"):     # those stand for either of two interfaces, which are taken on their own
                for k, q in enumerate(f["params"]):
                    ty = u.types[q[1]] if isinstance(q[1], int) else None
                    if ty is None or ty.kind != "ptr" or ty.elt is None or ty.elt.kind == "func":
                        continue
                    e = ty.elt
                    kinds.setdefault(f["name"], {})[k] = q[0]
                    if re.match(r"const\b", ty.canon or e.canon or "") and not re.match(r"const (char|void|struct _IO_FILE)\b|const \w*(Strat)\b", e.sugar or ""):
                        const.setdefault(f["name"], {})[k] = q[0]
        for f in u.funcs:
            if f["name"] in OLD:
                const.setdefault(f["name"], {})[OLD[f["name"]]] = f["params"][OLD[f["name"]]][0]
    need(sum(1 for x in OLD if x in const) >= 6, "remapping routines not recognised")
    for r in LENT:
        d = F.tab.get(r)
        need(d, "record %s not found" % r)
        names = {plain(x[0]) for x in d["f"]}
        need(LENT[r] & names and len(LENT[r] - names) <= 1, "fields of %s not recognised" % r)
    out, samples, seen = [], [], set()
    cov = dict(functions=len(p.funcs), public_routines=0, lent_parameters=0, object_parameters=0, writes_followed=0, routines_cut_short=sum(1 for x in P.sum.values() if len(x.w) >= 4000))
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.name not in kinds:
            continue
        cov["public_routines"] += 1
        cov["lent_parameters"] += len(const.get(f.name, ()))
        cov["object_parameters"] += len(kinds[f.name])
        for ((r, q), lab), (j, fk) in sorted(P.sum[f.key].w.items(), key=str):
            if r[0] != "arg" or r[1] not in kinds[f.name]:
                continue
            cov["writes_followed"] += 1
            rec, fld = (lab[0], plain(lab[1])) if lab else (None, None)
            if rec in ("IntRandState_", "IntRandContext_", "StratNode_"):
                continue
            arr = rec in LENT and fld in LENT[rec] and len(lab) > 2
            if r[1] in const.get(f.name, ()) or (arr and len(q) >= 2 and f.name not in CHANGES):
                g = p.funcs.get(fk)
                k = "%s:%s:%s" % (f.name, kinds[f.name][r[1]], plain(g.name) if g is not None else "?")
                if k in seen:
                    continue
                seen.add(k)
                what = "array %s of %s" % (fld, rec.rstrip("_")) if arr else "what this parameter designates" if len(q) == 1 else "what is kept in the object (%s)" % (fld or "field at %s" % (q,))
                out.append(V(k, j.where, f.name, "parameter %s is lent by the caller, but %s writes %s" % (kinds[f.name][r[1]], plain(g.name) if g is not None else "a callee", what)))
        if len(samples) < 8 and f.name in const:
            samples.append({"file": f.unit, "function": f.name, "lent": sorted(const[f.name].values())})
    need(cov["public_routines"] >= 200 and cov["lent_parameters"] >= 250, "public routines not recognised")
    need(cov["writes_followed"] >= 300, "writes not followed")
    return Result(out, RULE, cov, samples)
