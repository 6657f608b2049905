"""Which bytes behind a pointer parameter a function certainly writes when it succeeds."""
from . import ir
from .effects import READS

ALL = "all"
ONSUCCESS = {"intLoad": 1, "intSave": 1}          # routines that do not return 0 on success
SIZES = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "float": 4, "double": 8, "ptr": 8}


class Must:
    def __init__(s, prog, size):
        s.p, s.size, s.memo = prog, size, {}      # size: bytes considered at most

    def summary(s, f, k):
        """(offsets certainly written, offsets written through a variable index)"""
        key = f.key, k
        if key in s.memo:
            return s.memo[key]
        s.memo[key] = (frozenset(range(s.size)), frozenset())   # a recursive call adds nothing wrong: it must end through another path
        s.memo[key] = s._run(f, k)
        return s.memo[key]

    def _offs(s, f, k):
        d = {k: (0, False)}
        for _ in range(4):
            for i in f.insts():
                if i.op == "getelementptr" and isinstance(i.a[1], int) and i.a[1] in d and i.x:
                    o, v = d[i.a[1]]
                    d[i.id] = (o + (i.x.get("off") or 0), v or bool(i.x.get("vo")))
                elif i.op in ("bitcast",) and i.a[0] in d:
                    d[i.id] = d[i.a[0]]
                elif i.op == "phi":
                    c = {d.get(x[0]) if isinstance(x[0], int) else None for x in i.a}
                    if len(c) == 1 and None not in c:
                        d[i.id] = c.pop()
                    elif i.id not in d and any(isinstance(x[0], int) and x[0] in d for x in i.a):
                        o = min(d[x[0]][0] for x in i.a if isinstance(x[0], int) and x[0] in d)
                        d[i.id] = (o, True)
        return d

    def _run(s, f, k):
        d = s._offs(f, k)
        loose = set()
        gen = []
        for b in f.blocks:
            g = set()
            for i in b:
                for (o, n, v) in s._writes(f, i, d):
                    if v:
                        loose.add(o)
                    else:
                        g |= set(range(o, min(s.size, o + n)))
            gen.append(g)
        n = len(f.blocks)
        full = set(range(s.size))
        out = [set(full) for _ in range(n)]
        for _ in range(n + 2):
            ch = False
            for b in range(n):
                pr = f.pred[b]
                x = set.intersection(*[out[q] for q in pr]) if pr and b else set()
                x = x | gen[b]
                if x != out[b]:
                    out[b] = x; ch = True
            if not ch:
                break
        res = None
        for b in range(n):
            t = f.blocks[b][-1]
            if t.op != "ret":
                continue
            v = t.a[0] if t.a else None
            for x in s._succeeding(f, v, b, out, gen, frozenset()):
                res = x if res is None else res & x
        if res is None:
            res = set(full)
        return frozenset(res), frozenset(loose)

    def _succeeding(s, f, v, b, out, gen, seen):
        if f.ret != "i32" or v is None:
            return [out[b]]
        if isinstance(v, list):
            return [out[b]] if v[0] != "i" or v[1] == ONSUCCESS.get(f.src, 0) else []
        if v in f.inst and f.inst[v].op == "phi" and v not in seen:
            i = f.inst[v]
            r = []
            extra = gen[i.bb] | gen[b]
            for x in i.a:
                for st in s._succeeding(f, x[0], x[1], out, gen, seen | {v}):
                    r.append(st | extra)
            return r
        return [out[b]]

    def _writes(s, f, i, d):
        if i.op == "store" and isinstance(i.a[1], int) and i.a[1] in d:
            o, v = d[i.a[1]]
            yield o, SIZES.get(s.p.valty(f, i.a[0]) or s._cty(i.a[0]), 8), v
        elif i.op == "call":
            n = s.p.callee_name(i)
            for k, a in enumerate(i.a[1:]):
                if isinstance(a, int) and a in d:
                    o, v = d[a]
                    if n and n.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                        if k == 0:
                            c = i.a[3]
                            yield o, c[1] if isinstance(c, list) and c[0] == "i" else s.size, v
                        continue
                    if n in READS:
                        continue
                    c = s.p.callee(i)
                    if c is None:
                        yield o, 8 if n and not n.startswith("MPI") else s.size, v
                    elif k < c.nargs and not c.va:
                        m, l = s.summary(c, k)
                        for x in m:
                            yield o + x, 1, v
                        for x in l:
                            yield o + x, 1, True

    @staticmethod
    def _cty(o):
        return "i%d" % o[2] if isinstance(o, list) and o[0] == "i" and len(o) > 2 else "ptr"
