"""C01: memory that the system refuses is never used."""
from ..main import V, Result
from .. import flow


def run(tier):
    r = flow.run()
    out = []
    for x in r["reports"]:
        if x["kind"] == "null" and flow.lib(x):
            out.append(V("null:%s:%s" % (flow.plain(x["fn"]), x["msg"].split(" (")[0]), x["where"], x["fn"], x["msg"], x["trace"]))
    return Result(out, "on every path, the result of an allocation that failed, in the function or in one it called, is never accessed", flow.coverage(r))
