"""C03: a routine neither loses nor keeps to itself the memory it allocated."""
import re
from ..main import V, Result
from .. import flow

# Whether the root role of the process and the presence of its centralized ordering go together
# is exchanged between processes, so that it is not a fact of one function (see DESIGN.md)
ROLE = {"dorderGather", "dorderGatherTree"}


def run(tier):
    r = flow.run()
    out = []
    for x in r["reports"]:
        f = flow.plain(x["fn"])
        if x["kind"] == "leak" and flow.lib(x) and f not in ROLE:
            m = re.search(r"allocated at \S*?(\w+\.c):", x["msg"])
            out.append(V("leak:%s:%s" % (f, m.group(1) if m else ""), x["where"], x["fn"], x["msg"], x["trace"]))
    return Result(out, "on every path to its end, a function has released each block it allocated, or received from a function it called, or has put it where its caller can reach it", flow.coverage(r))
