"""C04: memory is released once and not used afterwards."""
from ..main import V, Result
from .. import flow


def run(tier):
    r = flow.run()
    out = []
    for x in r["reports"]:
        if x["kind"] in ("uaf", "dfree") and flow.lib(x):
            out.append(V("%s:%s" % (x["kind"], flow.plain(x["fn"])), x["where"], x["fn"], x["msg"], x["trace"]))
    return Result(out, "on every path, a block that was released, in the function or in one it called, is neither accessed nor released again", flow.coverage(r))
