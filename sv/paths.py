"""What functions write, and where the pointers they store come from: interprocedural, by access paths.

A place is (root, path): root is ("arg", k), ("loc", id), ("new", id) or ("g", name); path is a tuple of offsets, each but
the last one being that of a pointer that is followed.  Per function, cells maps a place holding a pointer to what is
stored in it; a cell that a function stores to is taken to hold what is stored rather than what it held before."""
from . import ir, lib
from .flow import plain

DEPTH, WIDTH = 4, 48
ALLOC = {"malloc", "calloc", "realloc", "memAllocGroup", "memReallocGroup", "memAlloc", "memRealloc", "memCalloc"}
GROUP = {"memAllocGroup": 0, "memReallocGroup": 1}
COPY = ("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")
LAUNCH = {"threadLaunch": (1, {1: 2}), "contextThreadLaunch": (1, {1: 2}), "contextThreadLaunchSplit": (1, {2: 2})}        # function argument, what it is given
FRESH = (("fresh",), (0,))


class Sum:
    def __init__(s):
        s.w = {}               # (written place (root argument), field label) -> (instruction, function)
        s.cells = {}           # place (root argument) -> places of what is stored in it
        s.copies = set()       # (destination place, source place) of copied records
        s.ret = set()

    def size(s):
        return len(s.w), sum(len(x) for x in s.cells.values()), len(s.cells), len(s.copies), len(s.ret)


class Paths:
    def __init__(s, prog, calls, fields, writes, keep=None):
        s.p, s.calls, s.F, s.writes = prog, calls, fields, writes
        s.sum = {k: Sum() for k in prog.funcs}
        s.loc = {}
        s.same = {}            # fields that designate the object which a container stands for: taken to be the container itself
        d = fields.tab.get("ContextContainer_")
        if d:
            s.same = {("ContextContainer_", x[0]): x[1] for x in d["f"] if plain(x[0]) == "dataptr"}
        callers = {}
        for k, f in prog.funcs.items():
            for i in f.insts():
                if i.op == "call":
                    for g in calls.targets(i):
                        callers.setdefault(g.key, set()).add(k)
        s.callers = callers
        # bottom-up: callees first
        order, seen = [], set()
        for k in sorted(prog.funcs, key=str):
            st = [(k, None)]
            while st:
                n, it = st.pop()
                if it is None:
                    if n in seen:
                        continue
                    seen.add(n)
                    it = iter(sorted({g.key for i in prog.funcs[n].insts() if i.op == "call" for g in calls.targets(i)}, key=str))
                for m in it:
                    if m not in seen:
                        st.append((n, it)); st.append((m, None))
                        break
                else:
                    order.append(n)
        rank = {k: n for n, k in enumerate(order)}
        import heapq
        heap, inq = [(rank[k], k) for k in order], set(order)
        heapq.heapify(heap)
        s.rounds = {}
        while heap:
            _, k = heapq.heappop(heap)
            inq.discard(k)
            s.rounds[k] = s.rounds.get(k, 0) + 1
            if s.rounds[k] > 12:
                continue
            b = s.sum[k].size()
            s._func(prog.funcs[k])
            if s.sum[k].size() != b:
                for c in callers.get(k, ()):
                    if c not in inq:
                        inq.add(c); heapq.heappush(heap, (rank[c], c))

    # ---- one function
    def _func(s, f):
        S = s.sum[f.key]
        cells, copies, val, label = {}, set(), {}, {}
        s.cur = (f, cells, copies, val, label)
        s.memo, s.defs, s.cdefs = {}, {}, {}
        for r in range(8):
            s.memo = {}
            n = sum(len(x) for x in cells.values()), len(cells), len(copies), sum(len(x) for x in val.values())
            for b in f.blocks:
                for i in b:
                    s._inst(f, S, i)
            if n == (sum(len(x) for x in cells.values()), len(cells), len(copies), sum(len(x) for x in val.values())):
                break
        for (r, p), v in cells.items():
            if r[0] == "arg" and not v and s.bypass(f, (r, p)):     # set to null on some paths only
                continue
            if r[0] == "arg" and len(S.cells) < 4000:
                S.cells.setdefault((r, p), set()).update(x for x in v if x[0][0] in ("arg", "fresh", "g"))
                if any(x[0][0] in ("new", "loc") for x in v):
                    S.cells[(r, p)].add(FRESH)
        for d, c in copies:
            if d[0][0] == "arg" and c[0][0] == "arg":
                S.copies.add((d, c))
            elif d[0][0] == "arg" and c[0][0] in ("loc", "new"):       # a record that is built here
                for (r, p), v in cells.items():
                    if r == c[0] and len(p) == len(c[1]) and p[:-1] == c[1][:-1] and p[-1] >= c[1][-1]:
                        q = (d[0], d[1][:-1] + (d[1][-1] + p[-1] - c[1][-1],))
                        S.cells.setdefault(q, set()).update({FRESH if x[0][0] in ("new", "loc") else x for x in v if x[0][0] in ("arg", "fresh", "g", "new", "loc")})
                for d2, c2 in copies:
                    if d2[0] == c[0] and c2[0][0] == "arg":
                        S.copies.add((d, c2))
        s.loc[f.key] = (cells, copies)

    def bypass(s, f, q):
        bl = {f.inst[j].bb for j in s.defs.get(q, ())}
        seen, todo = {0}, [0]
        while todo:
            b = todo.pop()
            if b in bl:
                continue
            if f.blocks[b][-1].op == "ret":
                return True
            for y in f.succ[b]:
                if y not in seen:
                    seen.add(y); todo.append(y)
        return False

    def value(s, f, o):
        """places that a pointer may designate"""
        _, cells, copies, val, label = s.cur
        if isinstance(o, list):
            if o and o[0] == "g":
                return {(("g", o[1]), (0,))}
            if o and o[0] in ("gep", "ce"):
                for x in o[1:]:
                    if isinstance(x, list) and x:
                        return s.value(f, x)
            return set()
        if not isinstance(o, int):
            return set()
        if o < f.nargs:
            return {(("arg", o), (0,))} if f.args[o][1] == "ptr" else set()
        return val.get(o, set())

    def content(s, place, d=0):
        """what a cell holds"""
        if d == 0:
            k = (place, len(s.cur[2]), len(s.cur[1].get(place, ())) if place in s.cur[1] else -1)
            if k not in s.memo:
                s.memo[k] = s._content(place, 0)
            return s.memo[k]
        return s._content(place, d)

    def _content(s, place, d=0):
        f, cells, copies, val, label = s.cur
        r, p = place
        if place in cells:
            return cells[place]
        out = set()
        if d < 3:
            for (dr, dp), (sr, sp) in copies:
                if dr == r and len(p) >= len(dp) and p[:len(dp) - 1] == dp[:-1] and p[len(dp) - 1] >= dp[-1] and (sr, sp) != place:
                    q = sp[:-1] + (sp[-1] + p[len(dp) - 1] - dp[-1],) + p[len(dp):]
                    out |= s.content((sr, q), d + 1)
        if out:
            return out
        if r[0] in ("arg", "g", "new") and len(p) < DEPTH:
            return {(r, p + (0,))}
        if r[0] == "loc" and len(p) > 1 and len(p) < DEPTH:
            return {(r, p + (0,))}
        return set()

    def reaching(s, f, i, q):
        """what a cell holds where it is read"""
        d = s.defs.get(q, {})
        if not d or len(d) + len(s.cdefs) < 2:
            return s.content(q)
        cd = {}
        for j, v in s.cdefs.items():
            for (dr, dp), src in v:
                if dr == q[0] and len(q[1]) >= len(dp) and q[1][:len(dp) - 1] == dp[:-1] and q[1][len(dp) - 1] >= dp[-1]:
                    cd.setdefault(j, set()).add((src[0], src[1][:-1] + (src[1][-1] + q[1][len(dp) - 1] - dp[-1],) + q[1][len(dp):]))
        by = {}
        for j in set(d) | set(cd):
            x = f.inst[j]
            by.setdefault(x.bb, []).append((x.ix, j))
        out, seen, todo, met = set(), set(), [(i.bb, i.ix)], False
        while todo:
            b, n = todo.pop()
            l = [x for x in by.get(b, ()) if x[0] < n]
            if l:
                j = max(l)[1]
                met = True
                if j in d:
                    out |= d[j]
                for c in cd.get(j, ()):
                    if c != q:
                        out |= s.content(c, 1)
                continue
            for y in f.pred[b]:
                if y not in seen:
                    seen.add(y); todo.append((y, 1 << 30))
        if not met:
            r, p = q
            return {(r, p + (0,))} if (r[0] in ("arg", "g", "new") or len(p) > 1) and len(p) < DEPTH else set()
        return out

    def _set(s, o, v):
        val = s.cur[3]
        if v:
            x = val.setdefault(o, set())
            if len(x) < WIDTH:
                x |= v

    def _inst(s, f, S, i):
        _, cells, copies, val, label = s.cur
        op = i.op
        if op == "getelementptr":
            t = str(i.a[0])
            v = s.value(f, i.a[1])
            if t.startswith(("%struct", "%union")):
                off = (i.x or {}).get("off") or 0
                if off:
                    v = {(r, p[:-1] + (p[-1] + off,)) for r, p in v}
                k = s.F.gep(f, i)
                if k:
                    label[i.id] = k
            else:
                k = label.get(i.a[1]) if isinstance(i.a[1], int) else None
                if k:
                    label[i.id] = k
            s._set(i.id, v)
        elif op in ir.CASTS:
            s._set(i.id, s.value(f, i.a[0]))
            if isinstance(i.a[0], int) and i.a[0] in label:
                label[i.id] = label[i.a[0]]
        elif op == "phi":
            for x in i.a:
                s._set(i.id, s.value(f, x[0]))
                if isinstance(x[0], int) and x[0] in label:
                    label.setdefault(i.id, label[x[0]])
        elif op == "select":
            for x in i.a[1:3]:
                s._set(i.id, s.value(f, x))
                if isinstance(x, int) and x in label:
                    label.setdefault(i.id, label[x])
        elif op == "alloca":
            s._set(i.id, {(("loc", i.id), (0,))})
        elif op == "load":
            if str(i.ty) == "ptr" and isinstance(i.a[0], int) and label.get(i.a[0]) in s.same:
                s._set(i.id, {(r, p[:-1] + (p[-1] - s.same[label[i.a[0]]],)) for r, p in s.value(f, i.a[0])})
            elif str(i.ty) == "ptr":
                for q in s.value(f, i.a[0]):
                    s._set(i.id, s.reaching(f, i, q))
                if isinstance(i.a[0], int) and i.a[0] in label:
                    label[i.id] = label[i.a[0]] + ("*",) if len(label[i.a[0]]) == 2 else label[i.a[0]]
        elif op == "store":
            for q in s.value(f, i.a[1]):
                s._write(S, q, f, i, i.a[1], None)
                v = s.value(f, i.a[0])
                if isinstance(i.a[0], list) and i.a[0] and i.a[0][0] == "n":
                    cells.setdefault(q, set())
                if len(cells) < 600 and (v or isinstance(i.a[0], list)):
                    s.defs.setdefault(q, {}).setdefault(i.id, set()).update(v)
                    x = cells.setdefault(q, set())
                    if len(x) < WIDTH:
                        x |= v
        elif op in ("cmpxchg", "atomicrmw"):
            for q in s.value(f, i.a[0]):
                s._write(S, q, f, i, i.a[0], None)
        elif op == "ret":
            if i.a:
                S.ret |= {x if x[0][0] in ("arg", "g") else FRESH for x in s.value(f, i.a[0])}
        elif op == "call":
            s._call(f, S, i)

    def _write(s, S, q, f, i, o, lab):
        if q[0][0] == "arg" and len(S.w) < 4000:
            lab = lab or (s.cur[4].get(o) if isinstance(o, int) else None)
            S.w.setdefault((q, lab), (i, f.key))

    def _call(s, f, S, i):
        _, cells, copies, val, label = s.cur
        n = plain(s.p.callee_name(i) or "")
        if n in GROUP:
            for a in i.a[1 + GROUP[n]:]:
                for q in s.value(f, a):
                    cells.setdefault(q, set()).add((("new", i.id), (0,)))
                    s.defs.setdefault(q, {}).setdefault(i.id, set()).add((("new", i.id), (0,)))
                    s._write(S, q, f, i, a, None)
            s._set(i.id, {(("new", i.id), (0,))})
            return
        if n in ALLOC:
            s._set(i.id, {(("new", i.id), (0,))})
            return
        if n.startswith(COPY):
            for q in s.value(f, i.a[1]):
                s._write(S, q, f, i, i.a[1], None)
                if isinstance(i.a[3], list):       # a record
                    for r in s.value(f, i.a[2]):
                        if q != r and len(copies) < 200:
                            copies.add((q, r)); s.cdefs.setdefault(i.id, set()).add((q, r))
            return
        args = None
        if n in LAUNCH:
            k, args = LAUNCH[n]
            gs = [g for g in (s.p.resolve_name(x[1], f.unit) for x in lib.origins(f, i.a[1 + k]) if x[0] == "g") if g is not None]
        else:
            gs = s.calls.targets(i)
        if not gs:
            for a in s.writes(n, len(i.a) - 1):
                for q in s.value(f, i.a[1 + a]):
                    s._write(S, q, f, i, i.a[1 + a], None)
            if str(i.ty) == "ptr":
                s._set(i.id, {(("new", i.id), (0,))})
            return
        for g in gs:
            T = s.sum[g.key]
            m = lambda q: s._map(f, i, args, q)
            for (q, lab), (j, fk) in list(T.w.items()):
                for x in m(q):
                    if x[0][0] == "arg" and len(S.w) < 4000:
                        a = i.a[1 + q[0][1]] if q[0][0] == "arg" and args is None else None
                        S.w.setdefault((x, lab or (label.get(a) if isinstance(a, int) else None)), (j, fk))
            for q, v in list(T.cells.items()):
                for x in m(q):
                    y = cells.setdefault(x, set())
                    e = s.defs.setdefault(x, {}).setdefault(i.id, set())
                    for z in v:
                        if z[0][0] == "fresh":
                            y.add((("new", i.id), (0,))); e.add((("new", i.id), (0,)))
                        elif len(y) < WIDTH:
                            h = m(z)
                            y |= h; e |= h
            for d, c in list(T.copies):
                for x in m(d):
                    for y in m(c):
                        if x != y and len(copies) < 200:
                            copies.add((x, y)); s.cdefs.setdefault(i.id, set()).add((x, y))
            for z in T.ret:
                if z[0][0] == "fresh":
                    s._set(i.id, {(("new", i.id), (0,))})
                else:
                    s._set(i.id, m(z))

    def _map(s, f, i, args, q):
        """a place of the callee, seen from the caller"""
        r, p = q
        if r[0] == "g":
            return {q}
        k = r[1] if args is None else args.get(r[1], 99)
        if r[0] != "arg" or 1 + k >= len(i.a):
            return set()
        cur = s.value(f, i.a[1 + k])
        for n, off in enumerate(p):
            cur = {(x, y[:-1] + (y[-1] + off,)) for x, y in cur}
            if n < len(p) - 1:
                nxt = set()
                for z in cur:
                    nxt |= s.content(z)
                cur = nxt
        return cur
