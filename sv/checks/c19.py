"""C19: user-declared objects are large enough for what the library keeps in them."""
import os, re
from ..main import V, Result, need
from .. import ast, build
from .c18 import fparams

CONTAINER = "ContextContainer_"
# Fortran dimension constant -> C opaque type
FDIM = {"SCOTCH_ARCHDIM": "SCOTCH_Arch", "SCOTCH_ARCHDOMDIM": "SCOTCH_ArchDom", "SCOTCH_CONTEXTDIM": "SCOTCH_Context", "SCOTCH_GEOMDIM": "SCOTCH_Geom", "SCOTCH_GRAPHDIM": "SCOTCH_Graph",
        "SCOTCH_MAPDIM": "SCOTCH_Mapping", "SCOTCH_MESHDIM": "SCOTCH_Mesh", "SCOTCH_ORDERDIM": "SCOTCH_Ordering", "SCOTCH_STRATDIM": "SCOTCH_Strat", "SCOTCH_DGRAPHDIM": "SCOTCH_Dgraph",
        "SCOTCH_DGRAPHHALOREQDIM": "SCOTCH_DgraphHaloReq", "SCOTCH_DMAPDIM": "SCOTCH_Dmapping", "SCOTCH_DORDERDIM": "SCOTCH_Dordering"}


def sname(t):
    return t.sugar.replace("const ", "").replace("volatile ", "").replace("struct ", "").strip() if t is not None else ""


def opaque(t):
    n = sname(t)
    return n if n.startswith("SCOTCH_") and t.kind == "struct" else None


def run(tier):
    out, samples = [], []
    cov = dict(casts=0, opaque_types=0, fortran_dimensions=0, sizeof_routines=0, alloc_routines=0)
    for config in ("def", "i64"):
        w = {"def": "32-bit integers", "i64": "64-bit integers"}[config]
        pairs, sizes = {}, {}
        for tu in ast.load(config):
            if not tu.name.startswith(("libscotch/", "esmumps/", "libscotchmetis/")) or "dummysizes" in tu.name:
                continue
            for t in tu.types:
                o = opaque(t) if t.kind == "struct" and t.size else None
                if o:
                    sizes.setdefault(o, t.size)
            for f in tu.funcs:
                for n in ast.walk(f["body"]):
                    if n[0] != "cast":
                        continue
                    t, s = tu.ty(n), tu.ty(n[5]) if n[5] else None
                    if t is None or s is None or t.kind != "ptr" or s.kind != "ptr" or s.elt is None or t.elt is None:
                        continue
                    o = opaque(s.elt)
                    if not o or opaque(t.elt) or t.elt.kind not in ("struct", "union", "ptr", "arr"):
                        continue
                    cov["casts"] += 1
                    it = sname(t.elt)
                    where = "%s:%d" % (tu.name, n[1])
                    if s.elt.size < t.elt.size:
                        out.append(V("size:%s:%s" % (o, it), where, f["name"], "%s has %d bytes, the %s the library keeps in it has %d (%s)" % (o, s.elt.size, it, t.elt.size, w)))
                    if t.elt.kind in ("struct", "union") and t.elt.extra != CONTAINER:
                        pairs.setdefault(o, {}).setdefault(t.elt.extra, []).append((where, f["name"]))
                # allocation and size routines
                m = re.match(r"^SCOTCH_(\w+?)(Sizeof|Alloc)$", f["name"])
                if m:
                    want = next((o for o in FDIM.values() if o.lower() == "scotch_" + m.group(1).lower() or alias(m.group(1)) == o), None)
                    if want is None:
                        continue
                    need_ = [n for n in ast.walk(f["body"]) if n[0] == "sizeof"]
                    cov["sizeof_routines" if m.group(2) == "Sizeof" else "alloc_routines"] += 1
                    for n in need_:
                        wsz = next((t.size for t in tu.types if opaque(t) == want), None)
                        if wsz and n[5] < wsz:
                            out.append(V("sizeof:%s" % f["name"], "%s:%d" % (tu.name, n[1]), f["name"], "gives %d bytes, a %s has %d (%s)" % (n[5], want, wsz, w)))
        cov["opaque_types"] += len(pairs)
        for o, d in pairs.items():
            if len(d) > 1:
                main = max(d, key=lambda k: len(d[k]))
                for k, l in d.items():
                    if k != main:
                        for wh, fn in l:
                            out.append(V("view:%s:%s:%s" % (o, k, fn), wh, fn, "a %s is handled as a %s, elsewhere as a %s" % (o, k.rstrip("_"), main.rstrip("_"))))
            if len(samples) < 12:
                samples.append("%s: %d bytes for %s (%s)" % (o, sizes.get(o, 0), ", ".join(d), w))
        for fh in ("scotchf.h", "ptscotchf.h"):
            for nm, val, ln in fparams(os.path.join(build.include_dir(config), fh)):
                if nm in FDIM and FDIM[nm] in sizes:
                    if fh == "scotchf.h" and FDIM[nm].startswith("SCOTCH_D"):
                        continue
                    cov["fortran_dimensions"] += 1
                    if val * 8 < sizes[FDIM[nm]]:
                        out.append(V("fdim:%s" % nm, "%s:%d" % (fh, ln), nm, "%d double precision words for a %s of %d bytes (%s)" % (val, FDIM[nm], sizes[FDIM[nm]], w)))
    need(cov["opaque_types"] >= 20 and cov["casts"] >= 300 and cov["fortran_dimensions"] >= 30, "too little analysed: %s" % cov)
    return Result(out, "wherever the library handles a user-declared object as one of its own records, the public type, as generated for the configuration, is at least as large, always the same record is "
                  "used for a given public type, and the Fortran dimensions and the allocation and size routines agree with it", cov, samples)


def alias(n):
    return {"dmap": "SCOTCH_Dmapping", "dorder": "SCOTCH_Dordering", "map": "SCOTCH_Mapping", "order": "SCOTCH_Ordering", "dgraphOrder": "SCOTCH_Dordering", "graphOrder": "SCOTCH_Ordering", "graphMap": "SCOTCH_Mapping", "dgraphMap": "SCOTCH_Dmapping"}.get(n)
