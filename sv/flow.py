"""Runs the typestate engine once per tree and keeps its reports for the properties decided from them."""
import os, pickle
from .ir import Program
from .main import V, need
from . import engine, build

LIBS = ("libscotch/", "esmumps/", "libscotchmetis/", "parser_")


def run():
    here = os.path.dirname(os.path.abspath(__file__))
    h = build.filehash([os.path.join(here, x) for x in ("engine.py", "ir.py", "flow.py")] + [os.path.join(build.VERIF, "tools", "irx.cpp")])
    d, _ = build.configure("def")
    out = os.path.join(d, "flow-%s.pkl" % h)
    if os.path.exists(out):
        with open(out, "rb") as f:
            return pickle.load(f)
    p = Program()
    a = engine.Analyzer(p).run()
    allocs = sum(1 for f in p.funcs.values() for i in f.insts() if i.op == "call" and (p.callee_name(i) or "").split("SCOTCH")[-1] in ("malloc", "realloc", "memAllocGroup", "memReallocGroup", "calloc"))
    frees = sum(1 for f in p.funcs.values() for i in f.insts() if i.op == "call" and p.callee_name(i) == "free")
    r = dict(reports=[dict(kind=x.kind, fn=x.fn, where=str(x.where), msg=x.msg, trace=[str(t) for t in x.trace], obj=x.obj if x.obj is None or isinstance(x.obj, str) else str(x.obj)) for x in a.reports],
             stats=dict(a.stats), truncated=sorted(str(t) for t in a.truncated), allocs=allocs, frees=frees, funcs=len(p.funcs))
    with open(out + ".t", "wb") as f:
        pickle.dump(r, f)
    os.rename(out + ".t", out)
    return r


def plain(n):
    return n[7:] if n.startswith("_SCOTCH") else n


def lib(x):
    return x["where"].startswith(LIBS)


def coverage(r):
    need(r["funcs"] > 1500 and r["allocs"] > 250 and r["frees"] > 500, "the libraries are no longer analysed as expected")
    return dict(functions=r["funcs"], exit_states=r["stats"].get("exit states", 0), calls_applied=r["stats"].get("calls", 0), allocation_sites=r["allocs"], release_sites=r["frees"],
                functions_cut_short=len(r["truncated"]))
