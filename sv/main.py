"""Entry point: decides one property, writes its evidence, prints the verdict."""
import importlib, json, os, sys, time, traceback
from . import build

EVID = os.path.join(build.VERIF, "evidence")
KNOWN = os.path.join(build.VERIF, "known-findings.txt")


class V:
    """One violation: key identifies the construct independently of line numbers."""
    def __init__(s, key, where, fn, msg, trace=()):
        s.key = key; s.where = where; s.fn = fn; s.msg = msg; s.trace = list(trace)

    def text(s):
        return "%s: in %s: %s" % (s.where, s.fn, s.msg) + "".join("\n      %s" % t for t in s.trace)


class Result:
    def __init__(s, violations, rule, coverage, samples=()):
        s.violations = violations; s.rule = rule; s.coverage = coverage; s.samples = list(samples)


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out[key.strip()] = what.strip()
    return out


def need(cond, msg):
    if not cond:
        raise build.Broken(msg)


def main(argv):
    if not argv:
        print("usage: check <property> [quick|thorough]"); return 2
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    try:
        m = importlib.import_module("sv.checks." + pid.lower())
        r = m.run(tier)
    except build.Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 3
    kn = known(pid)
    seen, new, old = set(), [], []
    for v in r.violations:
        if v.key in seen:
            continue
        seen.add(v.key)
        (old if v.key in kn else new).append(v)
    rep = os.path.join(EVID, pid + ".violations.txt")
    if new:
        with open(rep, "w") as f:
            f.write("property %s\nrule: %s\n\n" % (pid, r.rule))
            for v in new:
                f.write("  [%s]\n  %s\n\n" % (v.key, v.text()))
    elif os.path.exists(rep):
        os.unlink(rep)
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="other",
              coverage=dict(explanation="Rule applied to /repo's current source: %s  Analysed: %s." % (r.rule, ", ".join("%s: %s" % kv for kv in r.coverage.items())),
                            rule=r.rule, analysed=r.coverage, samples=r.samples[:12]),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    ev["known_findings"] = [v.key for v in old]
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for v in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kn[v.key], v.where))
    print("%s: %s" % (pid, ", ".join("%s %s" % (b, a) for a, b in r.coverage.items())))
    if new:
        for v in new[:20]:
            print("  " + v.text())
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("%s: held (%.1f s)" % (pid, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
