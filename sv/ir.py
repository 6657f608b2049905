"""Whole-program model over the exported IR."""
import os, pickle, re, sys
from collections import defaultdict
from . import build


class Inst:
    __slots__ = ("id", "op", "ty", "line", "a", "sf", "bb", "fn", "ix", "x")

    def __init__(s, j, bb, fn, ix):
        s.id, s.op, s.ty, s.line = j[0], j[1], j[2], j[3]
        a = j[4:]
        s.sf = s.x = None
        if a and isinstance(a[-1], dict):
            s.x = a[-1]; s.sf = s.x.get("sf"); a = a[:-1]
        s.a = a; s.bb = bb; s.fn = fn; s.ix = ix

    @property
    def where(s):
        return "%s:%d" % (build.short(os.path.normpath(s.sf)) if s.sf else s.fn.file, s.line)

    def __repr__(s):
        return "<%s %d %s %s>" % (s.where, s.id, s.op, s.a)


class Func:
    def __init__(s, j, unit):
        s.name = j["name"]; s.unit = unit; s.internal = j["internal"]; s.decl = j["decl"]; s.va = j["va"]
        s.ret = j["ret"]; s.file = build.short(os.path.normpath(j.get("file", ""))) if j.get("file") else unit.name
        s.line = j.get("line", 0); s.src = j.get("src", s.name).replace("_SCOTCH", "", 1); s.ditypes = j.get("ditypes", [])
        s.args = j["args"]; s.nargs = len(s.args)
        s.vars = j.get("vars", [])
        s.blocks = []
        s.inst = {}
        for bi, b in enumerate(j.get("bl", [])):
            l = []
            for ix, ij in enumerate(b):
                i = Inst(ij, bi, s, ix); l.append(i); s.inst[i.id] = i
            s.blocks.append(l)
        s._succ = s._pred = s._uses = None

    @property
    def key(s):
        return (s.unit.name, s.name) if s.internal or s.name == "main" else s.name

    def insts(s):
        for b in s.blocks:
            for i in b:
                yield i

    @property
    def succ(s):
        if s._succ is None:
            s._succ = []
            for b in s.blocks:
                t = b[-1]
                if t.op == "br":
                    s._succ.append(list(t.a[1:]) if len(t.a) == 3 else [t.a[0]])
                elif t.op == "switch":
                    s._succ.append([t.a[1]] + [c[1] for c in t.a[2:]])
                else:
                    s._succ.append([])
            s._pred = [[] for _ in s.blocks]
            for i, ss in enumerate(s._succ):
                for x in ss:
                    if i not in s._pred[x]:
                        s._pred[x].append(i)
        return s._succ

    @property
    def pred(s):
        s.succ
        return s._pred

    @property
    def uses(s):
        """value id -> list of instructions using it directly"""
        if s._uses is None:
            s._uses = defaultdict(list)
            for i in s.insts():
                for o in operands(i):
                    if isinstance(o, int):
                        s._uses[o].append(i)
        return s._uses

    def varnames(s):
        d = {}
        for v, n, t, p in s.vars:
            d.setdefault(v, []).append((n, t))
        return d

    def __repr__(s):
        return "<fn %s>" % s.name


def operands(i):
    op = i.op
    if op == "phi":
        return [x[0] for x in i.a]
    if op == "br":
        return [i.a[0]] if len(i.a) == 3 else []
    if op == "switch":
        return [i.a[0]]
    if op == "getelementptr":
        return i.a[1:]
    if op in ("icmp", "fcmp"):
        return i.a[1:]
    if op == "alloca":
        return [i.a[1]]
    if op == "load":
        return [i.a[0]]
    if op == "store":
        return [i.a[0], i.a[1]]
    if op in CASTS:
        return [i.a[0]]
    return i.a


CASTS = {"bitcast", "sext", "zext", "trunc", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"}


class Unit:
    def __init__(s, j):
        s.name = j["unit"]; s.target = j["target"]
        s.structs = j["structs"]; s.di = {x["n"]: x for x in j["di"]}
        s.globals = {g["name"]: g for g in j["globals"]}
        s.functions = {}
        for f in j["functions"]:
            s.functions[f["name"]] = Func(f, s)


class Program:
    def __init__(s, config="def", targets=None):
        s.units = []
        for p in build.ir_units(config):
            with open(p, "rb") as f:
                j = pickle.load(f)
            if targets and not targets(j):
                continue
            s.units.append(Unit(j))
        s.funcs = {}      # key -> Func (definitions)
        s.byname = {}
        for u in s.units:
            for f in u.functions.values():
                if not f.decl and f.key not in s.funcs:
                    s.funcs[f.key] = f
                    if not f.internal:
                        s.byname[f.name] = f
        # address-taken functions
        s.taken = set()
        for f in s.funcs.values():
            for i in f.insts():
                ops = operands(i)
                if i.op == "call":
                    ops = i.a[1:]
                for o in ops:
                    s._taken(o, f.unit)
        for u in s.units:
            for g in u.globals.values():
                if "init" in g:
                    s._taken(g["init"], u)
        s.bytype = defaultdict(list)
        for k in s.taken:
            f = s.funcs[k]
            s.bytype[s.sig(f)].append(f)
        s._cg = None

    def sig(s, f):
        return (f.ret, tuple(a[1] for a in f.args))

    def _taken(s, o, u):
        if isinstance(o, list) and o:
            if o[0] == "g":
                f = s.resolve_name(o[1], u)
                if f:
                    s.taken.add(f.key)
            elif o[0] in ("a", "ce", "gep"):
                for x in o[1:]:
                    s._taken(x, u)
                    
    def resolve_name(s, n, unit):
        f = unit.functions.get(n)
        if f and not f.decl:
            return s.funcs.get(f.key)
        return s.byname.get(n)

    def callee_name(s, i):
        c = i.a[0]
        if isinstance(c, list) and c[0] == "g":
            return c[1]
        return None

    def callee(s, i):
        n = s.callee_name(i)
        return s.resolve_name(n, i.fn.unit) if n else None

    def callees(s, i):
        """All possible definitions for a call (indirect: every address-taken
        function of the same IR signature)."""
        n = s.callee_name(i)
        if n:
            f = s.resolve_name(n, i.fn.unit)
            return [f] if f else []
        tys = []
        fn = i.fn
        for o in i.a[1:]:
            tys.append(s.valty(fn, o))
        out = []
        for (ret, at), fs in s.bytype.items():
            if ret == i.ty and len(at) == len(tys) and all(t is None or t == x for t, x in zip(tys, at)):
                out += fs
        return out

    def valty(s, fn, o):
        if isinstance(o, int):
            if o < fn.nargs:
                return fn.args[o][1]
            return fn.inst[o].ty
        if o[0] == "i":
            return "i%d" % o[2]
        if o[0] in ("n", "g", "gep"):
            return "ptr"
        if o[0] == "f":
            return None
        return None


if __name__ == "__main__":
    import time
    t = time.time()
    p = Program()
    print("units", len(p.units), "functions", len(p.funcs), "insts", sum(len(f.inst) for f in p.funcs.values()), "taken", len(p.taken), "%.1fs" % (time.time() - t))
    ext = defaultdict(int)
    ind = 0
    for f in p.funcs.values():
        for i in f.insts():
            if i.op == "call":
                n = p.callee_name(i)
                if n is None: ind += 1
                elif not p.callee(i): ext[n] += 1
    print("indirect", ind); print(sorted(ext.items(), key=lambda x: -x[1]))
