"""Dominators, post-dominators and control dependence of a function."""


def _dom(n, entry, pred, order):
    dom = {entry: entry}
    idx = {b: k for k, b in enumerate(order)}

    def meet(a, b):
        while a != b:
            while idx[a] > idx[b]:
                a = dom[a]
            while idx[b] > idx[a]:
                b = dom[b]
        return a
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == entry:
                continue
            new = None
            for p in pred[b]:
                if p in dom:
                    new = p if new is None else meet(new, p)
            if new is not None and dom.get(b) != new:
                dom[b] = new; ch = True
    return dom


def _rpo(entry, succ):
    seen, out = set(), []
    stack = [(entry, iter(succ(entry)))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s); stack.append((s, iter(succ(s))))
                break
        else:
            out.append(b); stack.pop()
    return out[::-1]


class CFG:
    def __init__(s, f):
        s.f = f
        n = len(f.blocks)
        s.order = _rpo(0, lambda b: f.succ[b])
        s.reach = set(s.order)
        s.idom = _dom(n, 0, f.pred, s.order)
        s._pd = None
        s._cd = None

    def dominates(s, a, b):
        while True:
            if a == b:
                return True
            p = s.idom.get(b)
            if p is None or p == b:
                return False
            b = p

    def idominates(s, i, j):
        return i.ix < j.ix if i.bb == j.bb else s.dominates(i.bb, j.bb)

    @property
    def ipdom(s):
        if s._pd is None:
            f, n = s.f, len(s.f.blocks)
            X = n
            pred = {b: list(f.succ[b]) or [X] for b in range(n)}
            for b in range(n):
                if not f.succ[b]:
                    pred[b] = [X]
            succ = {b: [] for b in range(n + 1)}
            for b in s.reach:
                for q in pred[b]:
                    succ[q].append(b)
            pred[X] = []
            order = _rpo(X, lambda b: succ[b])
            s._pd = _dom(n + 1, X, pred, order)
        return s._pd

    def postdominates(s, a, b):
        d = s.ipdom
        while True:
            if a == b:
                return True
            p = d.get(b)
            if p is None or p == b:
                return False
            b = p

    @property
    def cdep(s):
        """block -> set of (branching block, successor) it is control dependent on"""
        if s._cd is None:
            s._cd = {}
            d = s.ipdom
            for b in s.reach:
                ss = set(s.f.succ[b])
                if len(ss) < 2:
                    continue
                for t in ss:
                    r = t
                    stop = d.get(b)
                    n = 0
                    while r is not None and r != stop and n < 10000:
                        s._cd.setdefault(r, set()).add((b, t))
                        if d.get(r) == r:
                            break
                        r = d.get(r); n += 1
        return s._cd

    def cdeps(s, b):
        """transitive control dependences"""
        out, todo, seen = set(), [b], {b}
        while todo:
            x = todo.pop()
            for e in s.cdep.get(x, ()):
                out.add(e)
                if e[0] not in seen:
                    seen.add(e[0]); todo.append(e[0])
        return out
