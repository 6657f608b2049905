"""Ranges of integers at every point of a function: an interval analysis of the exported IR, with branch refinement, widening to the
constants of the function, memory cells at constant offsets, parameters of internal functions and results of functions."""
import re
from collections import defaultdict
from .ir import CASTS
from .cfg import _rpo
from . import effects

ARR = re.compile(r"^\[(\d+) x (.*)\]$")
PURE = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "ashr", "lshr", "sext", "zext", "trunc"}
QUIET = effects.READS | {"malloc", "calloc", "realloc", "free", "abs", "labs", "atoi", "atol", "atof", "rand", "random", "isatty", "getpid", "exit", "abort"}
STDIO = {"getc", "fgetc", "ungetc", "_IO_getc", "getc_unlocked", "__ctype_b_loc", "__ctype_toupper_loc", "__ctype_tolower_loc", "isspace", "isdigit", "fprintf", "vfprintf", "fputc", "putc", "fputs", "fwrite", "fflush", "puts", "putchar"}
SCANF = {"__isoc99_fscanf": 2, "__isoc99_sscanf": 2, "fscanf": 2, "sscanf": 2}


def top(ty):
    if ty and ty[0] == "i" and ty[1:].isdigit():
        w = int(ty[1:])
        return (0, 1) if w == 1 else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    return None


def tsize(u, ty):
    if ty[0] == "i" and ty[1:].isdigit():
        return (int(ty[1:]) + 7) // 8
    if ty == "ptr":
        return 8
    m = ARR.match(ty)
    if m:
        e = tsize(u, m.group(2))
        return None if e is None else int(m.group(1)) * e
    if ty[0] == "%":
        r = u.structs.get(ty[1:])
        return r["sz"] if r else None
    return {"double": 8, "float": 4, "x86_fp80": 16, "half": 2}.get(ty)


def steps(u, i):
    """of an address computation inside a structure: (type reached, offset and size of the outermost array entered or of what is reached)"""
    ty = i.a[0]
    off = 0
    arr = None
    if i.a[2:3] and not (isinstance(i.a[2], list) and i.a[2][0] == "i" and int(i.a[2][1]) == 0):
        return None                                # moves over the objects themselves
    for o in i.a[3:]:
        m = ARR.match(ty)
        if m:
            if arr is None:
                arr = (off, tsize(u, ty))
            ty = m.group(2)
            k = int(o[1]) if isinstance(o, list) and o[0] == "i" else None
            z = tsize(u, ty)
            off = None if off is None or k is None or z is None else off + k * z
        elif ty[0] == "%":
            r = u.structs.get(ty[1:])
            if r is None:
                return None
            e = r["e"][int(o[1])]
            off = None if off is None else off + e[0]
            ty = e[1]
        else:
            return None
    z = tsize(u, ty)
    if arr is not None and arr[1] is not None:
        return ty, arr[0], arr[1]
    return (ty, off, z) if len(i.a) > 3 and z is not None else None


class State:
    __slots__ = ("env", "mem", "ln")

    def __init__(s, env=None, mem=None, ln=None):
        s.env, s.mem, s.ln = env or {}, mem or {}, ln or {}

    def copy(s):
        return State(dict(s.env), dict(s.mem), dict(s.ln))

    def __eq__(s, o):
        return s.env == o.env and s.mem == o.mem and s.ln == o.ln


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    r = State()
    for x, y, z in ((a.env, b.env, r.env), (a.mem, b.mem, r.mem)):
        for k, v in x.items():
            w = y.get(k)
            if w is not None:
                z[k] = v if v == w else (min(v[0], w[0]), max(v[1], w[1]))
    for k, v in a.ln.items():
        if b.ln.get(k) == v:
            r.ln[k] = v
    return r


class Result:
    __slots__ = ("f", "ins", "edges", "ret", "top")


def stream(c, q):
    """the parameter is a stream of the C library, which holds no data of the program"""
    return q + 1 < len(c.ditypes) and "FILE*" in c.ditypes[q + 1]


class Ival:
    def __init__(s, prog, eff=None):
        s.p = prog
        s.eff = eff or effects.Effects(prog)
        s.res = {}
        s.busy = set()
        s._gw = None
        s._callers = None
        s.inp = {}
        s.assume = {}            # (struct, offset) -> range of an integer field, relied upon when it is read and verified by the check
        s.statics = {}

    # ---- what calls write
    @property
    def gw(s):
        """function -> globals it may write, directly or not"""
        if s._gw is None:
            d, succ = {}, defaultdict(set)
            for k, f in s.p.funcs.items():
                d[k] = {r[1] for r in s.eff.w[k] if r[0] == "g"}
                for i in f.insts():
                    if i.op == "call":
                        for c in s.p.callees(i):
                            succ[k].add(c.key)
            ch = True
            while ch:
                ch = False
                for k in d:
                    n = len(d[k])
                    for c in succ[k]:
                        d[k] |= d[c]
                    ch = ch or len(d[k]) != n
            s._gw = d
        return s._gw

    @property
    def callers(s):
        if s._callers is None:
            s._callers = defaultdict(list)
            for f in s.p.funcs.values():
                for i in f.insts():
                    if i.op == "call":
                        c = s.p.callee(i)
                        if c:
                            s._callers[c.key].append(i)
        return s._callers

    def deep(s, f):
        """may write through pointers it loads, not only through its arguments and its own objects"""
        d = s.inp.get(("deep", f.key))
        if d is None:
            s.inp[("deep", f.key)] = True
            d = False
            for i in f.insts():
                if i.op == "store" or i.op in ("atomicrmw", "cmpxchg"):
                    r, _ = s.addr(f, i.a[1] if i.op == "store" else i.a[0])
                    d = d or not (r[0] in ("l", "g") or r[0] == "p" and r[1] < f.nargs)
                elif i.op == "call":
                    cs = s.p.callees(i)
                    n = s.p.callee_name(i)
                    if cs:
                        d = d or any(s.deep(c) for c in cs)
                        for o in i.a[1:]:
                            if s.p.valty(f, o) == "ptr":
                                r, _ = s.addr(f, o)
                                d = d or not (r[0] in ("l", "g") or r[0] == "p" and r[1] < f.nargs or isinstance(o, list))
                    elif not (n in QUIET or n in STDIO or n and n.startswith("llvm.")):
                        d = True
            s.inp[("deep", f.key)] = d
        return d

    # ---- addresses
    def addr(s, f, o):
        """(root, constant offset or None)"""
        off = 0
        while True:
            if isinstance(o, int):
                if o < f.nargs:
                    return ("p", o), off
                i = f.inst[o]
                if i.op == "getelementptr":
                    x = i.x or {}
                    if x.get("vo") or "off" not in x:
                        off = None
                    elif off is not None:
                        off += x["off"]
                    o = i.a[1]
                    continue
                if i.op == "alloca":
                    return ("l", o), off
                if i.op in ("bitcast",):
                    o = i.a[0]; continue
                return ("p", o), off
            if isinstance(o, list) and o:
                if o[0] == "g":
                    return ("g", o[1]), off
                if o[0] == "gep":
                    k = o[4] if len(o) > 4 and isinstance(o[4], int) else None
                    if off is not None:
                        off = None if k is None else off + k
                    o = o[2]
                    continue
            return ("?",), None

    def extent(s, f, o, st):
        """(root, first byte, past the last byte) of the object a pointer denotes, as the language lets it be used: an element of an array
        reaches its whole array, a field only itself; None for no bound"""
        r, off = s.addr(f, o)
        lo = hi = None
        if isinstance(o, int) and o >= f.nargs and f.inst[o].op == "getelementptr":
            i = f.inst[o]
            t = steps(f.unit, i)
            if t is not None:
                _, b = s.addr(f, i.a[1])
                if b is not None and t[1] is not None:
                    lo, hi = b + t[1], b + t[1] + t[2]
                elif off is not None:
                    lo, hi = off, None
        elif r[0] == "l" and o == r[1]:
            lo, hi = 0, tsize(f.unit, f.inst[o].a[0])
        return r, lo, hi

    # ---- values
    def val(s, f, o, st):
        if isinstance(o, int):
            v = st.env.get(o)
            if v is not None:
                return v
            ty = f.args[o][1] if o < f.nargs else f.inst[o].ty
            return top(ty)
        if isinstance(o, list) and o and o[0] == "i":
            v = int(o[1])
            if o[2] > 1 and v >= 1 << (o[2] - 1):
                v -= 1 << o[2]
            if o[2] == 1:
                v &= 1
            return (v, v)
        return None

    @staticmethod
    def fit(v, ty):
        t = top(ty)
        if t is None or v is None:
            return None
        return v if t[0] <= v[0] and v[1] <= t[1] else t

    def compute(s, f, i, st):
        op = i.op
        t = top(i.ty)
        if t is None:
            return None
        V = lambda k: s.val(f, i.a[k], st)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "ashr", "lshr"):
            a, b = V(0), V(1)
            if a is None or b is None:
                return t
            if op == "add":
                r = (a[0] + b[0], a[1] + b[1])
            elif op == "sub":
                r = (a[0] - b[1], a[1] - b[0])
                q = [f.inst[o] if isinstance(o, int) and o >= f.nargs else None for o in i.a[:2]]
                if all(x is not None and x.op == "ptrtoint" for x in q):
                    x, y = s.addr(f, q[0].a[0]), s.addr(f, q[1].a[0])
                    if x[0] == y[0] and x[0][0] != "?" and x[1] is not None and y[1] is not None:
                        return (x[1] - y[1], x[1] - y[1])
                    c = f.inst.get(q[0].a[0]) if isinstance(q[0].a[0], int) else None
                    if c is not None and c.op == "call" and s.p.callee_name(c) in ("strpbrk", "strchr", "strrchr", "strstr") and c.a[1] == q[1].a[0]:
                        r = (max(0, r[0]), t[1])            # a search does not find anything before its start
            elif op == "mul":
                c = [x * y for x in a for y in b]; r = (min(c), max(c))
            elif op in ("sdiv", "udiv"):
                if op == "udiv" and (a[0] < 0 or b[0] < 0):
                    return t
                if b[0] > 0 or b[1] < 0:
                    q = lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    c = [q(x, y) for x in a for y in b]; r = (min(c), max(c))
                    if a[0] <= 0 <= a[1]:
                        r = (min(r[0], 0), max(r[1], 0))
                elif a[0] >= 0 and b[0] >= 0:
                    r = (0, a[1])
                else:
                    m = max(abs(a[0]), abs(a[1])); r = (-m, m)
            elif op in ("srem", "urem"):
                if op == "urem" and (a[0] < 0 or b[0] < 0):
                    r = (0, b[1] - 1) if b[0] > 0 else t
                else:
                    m = max(abs(b[0]), abs(b[1])) - 1
                    if m < 0:
                        return t
                    m = min(m, max(abs(a[0]), abs(a[1])))
                    r = (-m if a[0] < 0 else 0, m if a[1] > 0 else 0)
            elif op == "and":
                if a[0] >= 0 and b[0] >= 0:
                    r = (0, min(a[1], b[1]))
                elif a[0] >= 0 or b[0] >= 0:
                    r = (0, a[1] if a[0] >= 0 else b[1])
                else:
                    return t
            elif op in ("or", "xor"):
                if a[0] < 0 or b[0] < 0:
                    return t
                m = (1 << max(a[1].bit_length(), b[1].bit_length())) - 1
                r = (max(a[0], b[0]) if op == "or" else 0, m)
            elif op == "shl":
                if b[0] < 0 or b[1] > 64:
                    return t
                c = [x << y for x in a for y in b]; r = (min(c), max(c))
            else:
                if b[0] < 0 or b[1] > 64 or op == "lshr" and a[0] < 0:
                    return t
                c = [x >> y for x in a for y in b]; r = (min(c), max(c))
            return s.fit(r, i.ty)
        if op == "sext":
            a = V(0)
            if a is None:
                return t
            if i.a[1] == "i1":
                return (-a[1], -a[0])
            return a
        if op == "zext":
            a = V(0)
            w = top(i.a[1])
            if a is None:
                return t
            return a if a[0] >= 0 else (0, 2 * w[1] + 1)
        if op == "trunc":
            a = V(0)
            return t if a is None else ((0, 1) if i.ty == "i1" else s.fit(a, i.ty))
        if op == "select":
            a, b = V(1), V(2)
            c = s.val(f, i.a[0], st)
            if c == (1, 1):
                return a
            if c == (0, 0):
                return b
            sa, sb = s.refine(f, st.copy(), i.a[0], True), s.refine(f, st.copy(), i.a[0], False)
            a = s.val(f, i.a[1], sa) if sa else None
            b = s.val(f, i.a[2], sb) if sb else None
            if a is None and b is None:
                return t
            if sa is None:
                return b
            if sb is None:
                return a
            return (min(a[0], b[0]), max(a[1], b[1])) if a and b else t
        if op == "icmp":
            return s.icmp(i.a[0], s.val(f, i.a[1], st), s.val(f, i.a[2], st))
        if op == "load":
            r, off = s.addr(f, i.a[0])
            if off is not None:
                c = (r, off, i.ty)
                v = st.mem.get(c)
                st.ln[i.id] = c
                if v is None:
                    v = s.relied(f, i.a[0])
                    if v is None and r[0] == "g":
                        v = s.static(f, r[1], i.ty, off)
                    if v is not None:
                        st.mem[c] = v
                return v or t
            return s.relied(f, i.a[0]) or t
        if op == "call":
            c = s.p.callee(i)
            n = s.p.callee_name(i)
            if c is not None and not c.va:
                r = s.result(c)
                return r or t
            if n in ("strlen",):
                return (0, t[1])
            return t
        return t

    def given(s, f):
        """fields whose address this function gives to others"""
        d = s.inp.get(("given", f.key))
        if d is None:
            d = s.inp[("given", f.key)] = set()
            for i in f.insts():
                if i.op == "getelementptr" and len(i.a) == 4 and isinstance(i.a[3], list) and any(j.op not in ("load", "store", "icmp") or j.op == "store" and j.a[0] == i.id for j in f.uses.get(i.id, ())):
                    d.add((i.a[0][1:], int(i.a[3][1])))
        return d

    def relied(s, f, o):
        if s.assume and isinstance(o, int) and o >= f.nargs:
            i = f.inst[o]
            if i.op == "getelementptr" and i.a[0].startswith("%") and len(i.a) > 3:
                k = i.a[3]
                if isinstance(k, list) and len(i.a) == 4:
                    q = (i.a[0][1:], int(k[1]))
                    return None if q not in s.assume or q in s.given(f) else s.assume[q]
        return None

    @staticmethod
    def icmp(p, a, b):
        if a is None or b is None:
            return (0, 1)
        if p[0] == "u":
            if a[0] < 0 or b[0] < 0:
                return (0, 1)
            p = "s" + p[1:]
        if p == "eq":
            return (1, 1) if a[0] == a[1] == b[0] == b[1] else (0, 0) if a[1] < b[0] or b[1] < a[0] else (0, 1)
        if p == "ne":
            return (0, 0) if a[0] == a[1] == b[0] == b[1] else (1, 1) if a[1] < b[0] or b[1] < a[0] else (0, 1)
        if p in ("sgt", "sge"):
            a, b, p = b, a, {"sgt": "slt", "sge": "sle"}[p]
        if p == "slt":
            return (1, 1) if a[1] < b[0] else (0, 0) if a[0] >= b[1] else (0, 1)
        return (1, 1) if a[1] <= b[0] else (0, 0) if a[0] > b[1] else (0, 1)

    # ---- conditions
    def put(s, f, st, o, lo, hi, depth=0):
        """the value is known to lie between lo and hi (None: no bound); False when impossible"""
        if not isinstance(o, int) or depth > 8:
            v = s.val(f, o, st)
            return v is None or not (lo is not None and v[1] < lo or hi is not None and v[0] > hi)
        v = s.val(f, o, st)
        if v is None:
            return True
        n = (v[0] if lo is None else max(v[0], lo), v[1] if hi is None else min(v[1], hi))
        if n[0] > n[1]:
            return False
        if n == v:
            return True
        st.env[o] = n
        c = st.ln.get(o)
        if c is not None:
            m = st.mem.get(c)
            st.mem[c] = n if m is None else (max(m[0], n[0]), min(m[1], n[1]))
            if st.mem[c][0] > st.mem[c][1]:
                return False
            for k, d in st.ln.items():
                if d == c and k != o and k in st.env:
                    w = st.env[k]
                    st.env[k] = (max(w[0], n[0]), min(w[1], n[1]))
        if o >= f.nargs:
            i = f.inst[o]
            if i.op == "sext" and i.a[1] != "i1":
                return s.put(f, st, i.a[0], n[0], n[1], depth + 1)
            if i.op == "zext" and i.a[1] != "i1":
                a = s.val(f, i.a[0], st)
                if a and a[0] >= 0 or n[1] <= top(i.a[1])[1]:
                    return s.put(f, st, i.a[0], n[0], n[1], depth + 1)
            if i.op == "trunc":
                a = s.val(f, i.a[0], st)
                t = top(i.ty)
                if a and t[0] <= a[0] and a[1] <= t[1]:
                    return s.put(f, st, i.a[0], n[0], n[1], depth + 1)
            if i.op in ("add", "sub") and isinstance(i.a[1], list) and i.a[1][0] == "i":
                k = s.val(f, i.a[1], st)[0] * (1 if i.op == "add" else -1)
                a = s.val(f, i.a[0], st)
                t = top(i.ty)
                if t[0] <= a[0] + k and a[1] + k <= t[1] or True:      # signed overflow is not considered
                    return s.put(f, st, i.a[0], n[0] - k if n[0] > t[0] else None, n[1] - k if n[1] < t[1] else None, depth + 1)
        return True

    def refine(s, f, st, c, pol, via=None, depth=0):
        """the state where the condition has that truth, or None"""
        if isinstance(c, list):
            if c and c[0] == "i":
                return st if bool(int(c[1]) & 1) == pol else None
            return st
        if not s.put(f, st, c, int(pol), int(pol)):
            return None
        if c < f.nargs or depth > 6:
            return st
        i = f.inst[c]
        if i.op == "xor" and isinstance(i.a[1], list) and i.a[1][0] == "i" and i.ty == "i1":
            return s.refine(f, st, i.a[0], not pol, via, depth + 1)
        if i.op == "phi" and via is not None and i.bb == via[1]:
            for v, p in i.a:
                if p == via[0]:
                    return s.refine(f, st, v, pol, None, depth + 1)
            return st
        if i.op != "icmp":
            return st
        p, a, b = i.a[0], i.a[1], i.a[2]
        if not pol:
            p = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}[p]
        va, vb = s.val(f, a, st), s.val(f, b, st)
        if va is None or vb is None:
            return st
        if p in ("eq", "ne") and vb == (0, 0) and isinstance(a, int) and a >= f.nargs and f.inst[a].op == "zext" and f.inst[a].a[1] == "i1":
            return s.refine(f, st, f.inst[a].a[0], p == "ne", via, depth + 1)
        if p[0] == "u":
            if p in ("ugt", "uge"):
                a, b, va, vb, p = b, a, vb, va, {"ugt": "ult", "uge": "ule"}[p]
            if vb[0] >= 0:                       # a < b, b not negative: neither is a
                if not s.put(f, st, a, 0, vb[1] - (p == "ult")):
                    return None
                if va[0] >= 0 and not s.put(f, st, b, va[0] + (p == "ult"), None):
                    return None
            return st
        if p == "eq":
            if va[0] > vb[1] or vb[0] > va[1]:
                return None
            ok = s.put(f, st, a, vb[0], vb[1]) and s.put(f, st, b, va[0], va[1])
        elif p == "ne":
            ok = True
            for x, v, w in ((a, va, vb), (b, vb, va)):
                if w[0] == w[1]:
                    if v == w:
                        return None
                    if v[0] == w[0]:
                        ok = ok and s.put(f, st, x, w[0] + 1, None)
                    elif v[1] == w[0]:
                        ok = ok and s.put(f, st, x, None, w[0] - 1)
        else:
            if p in ("sgt", "sge"):
                a, b, va, vb, p = b, a, vb, va, {"sgt": "slt", "sge": "sle"}[p]
            d = p == "slt"
            ok = s.put(f, st, a, None, vb[1] - d) and s.put(f, st, b, va[0] + d, None)
        return st if ok else None

    # ---- memory
    def drop(s, st, pred):
        for c in [c for c in st.mem if pred(c)]:
            del st.mem[c]
        for k in [k for k, c in st.ln.items() if pred(c)]:
            del st.ln[k]

    def kept(s, f):
        """local objects whose address other functions may hold"""
        k = s.inp.setdefault(("kept", f.key), None)
        if k is None:
            k = set()
            root = {}
            for i in f.insts():
                if i.op == "store":
                    r, _ = s.addr(f, i.a[0])
                    if r[0] == "l":
                        k.add(r)
                elif i.op in ("phi", "select", "ptrtoint"):
                    for o in ([x[0] for x in i.a] if i.op == "phi" else i.a[:1] if i.op == "ptrtoint" else i.a[1:3]):
                        r, _ = s.addr(f, o)
                        if r[0] == "l":
                            k.add(r)
                elif i.op == "call":
                    cs = s.p.callees(i)
                    n = s.p.callee_name(i)
                    for q, o in enumerate(i.a[1:]):
                        r, _ = s.addr(f, o)
                        if r[0] != "l":
                            continue
                        if cs:
                            if any(q >= c.nargs or ("p", q) in s.eff.kept[c.key] for c in cs):
                                k.add(r)
                        elif n in QUIET or n in effects.WRITES or n in SCANF or n and (n.startswith("llvm.") or n.startswith("MPI_") and not n.startswith(("MPI_I", "MPI_Start"))):
                            pass
                        else:
                            k.add(r)
            s.inp[("kept", f.key)] = k
        return k

    def overlap(s, u, c, off, size):
        if off is None or c[1] is None or size is None:
            return True
        z = tsize(u, c[2]) if c[2] != "str" else None
        if c[2] == "str":
            return True
        return c[1] < off + size and off < c[1] + (z or 8)

    def shared(s, u, name):
        """a global other code may hold the address of"""
        d = s.inp.get(("shared", u.name, u.target))
        if d is None:
            d = s.inp[("shared", u.name, u.target)] = set()

            def note(o):
                if isinstance(o, list) and o:
                    if o[0] == "g":
                        d.add(o[1])
                    for x in o[1:]:
                        note(x)
            for f in u.functions.values():
                for i in f.insts():
                    if i.op == "load":
                        continue
                    if i.op == "store":
                        note(i.a[0])
                    elif i.op == "call":
                        for o in i.a[1:]:
                            note(o)
                    else:
                        for o in i.a:
                            note(o)
            for g in u.globals.values():
                if "init" in g:
                    note(g["init"])
        g = u.globals.get(name)
        return not (g and g.get("internal")) or name in d

    def write(s, f, st, r, off, size, ty, kept):
        u = f.unit
        if r[0] == "?":
            s.drop(st, lambda c: c[0][0] != "l" or c[0] in kept)
        elif r[0] == "p":
            s.drop(st, lambda c: (c[0] == r and s.overlap(u, c, off, size)) or (c[0] != r and c[0][0] == "p" or c[0][0] == "g" and s.shared(u, c[0][1]) or c[0][0] == "l" and c[0] in kept) and (ty is None or c[2] == ty or c[2] == "str"))
        else:
            esc = r[0] == "g" and s.shared(u, r[1]) or r in kept
            s.drop(st, lambda c: (c[0] == r and s.overlap(u, c, off, size)) or esc and c[0][0] == "p" and (ty is None or c[2] == ty or c[2] == "str"))

    def call(s, f, i, st, kept):
        n = s.p.callee_name(i)
        cs = s.p.callees(i)
        if not cs and (n in QUIET or n and n.startswith("llvm.") and n not in effects.WRITES):
            return
        if not cs:
            if n in effects.WRITES:
                ks = effects.WRITES[n]
            elif n in SCANF:
                ks = range(SCANF[n], len(i.a) - 1)
            elif n and n.startswith("MPI_"):
                ks = range(len(i.a) - 1)
            else:
                ks = None
            if ks is not None:
                for k in ks:
                    if k + 1 < len(i.a) and s.p.valty(f, i.a[k + 1]) == "ptr":
                        r, off = s.addr(f, i.a[k + 1])
                        z = None
                        if n in SCANF and r[0] != "p":
                            z = 8
                        if n.startswith("llvm.mem"):
                            v = s.val(f, i.a[3], st)
                            z = v[1] if v else None
                        s.write(f, st, r, off, z, None, kept)
                return
            s.drop(st, lambda c: c[0][0] != "l" or c[0] in kept)
            return
        gw = set()
        spans = []
        for c in cs:
            gw |= s.gw[c.key]
        mine = f.unit.globals
        only = not any(s.deep(c) for c in cs)
        for q, o in enumerate(i.a[1:]):
            r, lo, hi = s.extent(f, o, st)
            if r[0] in ("l", "g", "p") and s.p.valty(f, o) == "ptr" and any((q >= c.nargs or ("p", q) in s.eff.w[c.key]) and not stream(c, q) for c in cs):
                spans.append((r, lo, hi))

        def dead(c):
            r = c[0]
            if r[0] == "g":
                g = mine.get(r[1])
                return r[1] in gw or not (g and g.get("internal"))
            if r[0] == "l":
                return r in kept
            return not only
        s.drop(st, dead)
        for r, lo, hi in spans:
            s.write(f, st, r, lo, None if hi is None else hi - lo, None, kept)

    def static(s, f, name, ty, off):
        """range of a static integer that only direct stores change"""
        g = f.unit.globals.get(name)
        if not g or off != 0 or g["type"] != ty:
            return None
        if g.get("const") and g.get("init", [0])[0] == "i":
            return s.val(f, g["init"], State())
        return None

    def twins(s, f):
        """instructions that compute the same thing from the same values"""
        d = s.inp.get(("twins", f.key))
        if d is None:
            num, cls = {}, defaultdict(list)

            def vn(o):
                if isinstance(o, int):
                    return num.get(o, ("v", o))
                return str(o)
            for b in _rpo(0, lambda b: f.succ[b]):
                for i in f.blocks[b]:
                    if i.op in PURE or i.op == "ptrtoint":
                        num[i.id] = (i.op, i.ty) + tuple(vn(o) if not isinstance(o, str) else o for o in i.a)
                        cls[num[i.id]].append(i.id)
            d = s.inp[("twins", f.key)] = {k: [x for x in l if x != k] for l in cls.values() if len(l) > 1 for k in l}
        return d

    # ---- one function
    def step(s, f, i, st, kept):
        if i.op == "store":
            r, off = s.addr(f, i.a[1])
            ty = s.p.valty(f, i.a[0]) or "double"
            s.write(f, st, r, off, tsize(f.unit, ty), ty, kept)
            if off is not None and r[0] != "?":
                v = s.val(f, i.a[0], st)
                if v is not None:
                    st.mem[(r, off, ty)] = v
                    if isinstance(i.a[0], int):
                        st.ln[i.a[0]] = (r, off, ty)
            return
        if i.op in ("atomicrmw", "cmpxchg"):
            r, off = s.addr(f, i.a[0])
            s.write(f, st, r, off, 8, None, kept)
        elif i.op == "call":
            s.call(f, i, st, kept)
        if i.op in ("br", "switch", "ret", "phi", "unreachable"):
            return
        v = s.compute(f, i, st)
        if v is not None and i.op in PURE:
            for k in s.twins(f).get(i.id, ()):
                w = st.env.get(k)
                if w is not None:
                    n = (max(v[0], w[0]), min(v[1], w[1]))
                    if n[0] <= n[1]:
                        v = n
        if v is not None and v != top(i.ty):
            st.env[i.id] = v
        else:
            st.env.pop(i.id, None)

    def entry(s, f):
        st = State()
        if f.name == "main":
            for n, g in f.unit.globals.items():
                if g.get("internal") and not g.get("decl") and top(g["type"]) and "init" in g:
                    v = s.val(f, g["init"], st)
                    if v is None and g["init"] and g["init"][0] == "z":
                        v = (0, 0)
                    if v is not None:
                        st.mem[(("g", n), 0, g["type"])] = v
            return st
        if f.internal and f.key not in s.p.taken:
            for k in range(f.nargs):
                t = top(f.args[k][1])
                if t is None:
                    continue
                v = None
                for c in s.callers[f.key]:
                    r = s.run(c.fn)
                    w = s.at(r, c, c.a[k + 1]) if r is not None and k + 1 < len(c.a) else t
                    if w == "dead":
                        continue
                    v = w if v is None else (min(v[0], w[0]), max(v[1], w[1]))
                if v is not None and v != t:
                    st.env[k] = v
        return st

    def at(s, r, i, o):
        """range of an operand at an instruction"""
        st = s.before(r, i)
        return "dead" if st is None else s.val(r.f, o, st)

    def before(s, r, i):
        if r.ins[i.bb] is None:
            return None
        st = r.ins[i.bb].copy()
        k = s.kept(r.f)
        for j in r.f.blocks[i.bb]:
            if j is i:
                return st
            s.step(r.f, j, st, k)
        return None

    def result(s, c):
        if c.decl or top(c.ret) is None:
            return None
        r = s.run(c)
        return r.ret if r is not None else None

    def run(s, f):
        if f.key in s.res:
            return s.res[f.key]
        if f.key in s.busy or len(s.busy) > 12 or len(f.inst) > 6000:
            return None
        s.busy.add(f.key)
        try:
            r = s._run(f)
        finally:
            s.busy.discard(f.key)
        if len(s.busy) <= 6:
            s.res[f.key] = r
        return r

    def block(s, f, b, st, kept, via=None):
        """successor -> state"""
        for i in f.blocks[b]:
            s.step(f, i, st, kept)
        t = f.blocks[b][-1]
        out = {}
        if t.op == "br" and len(t.a) == 3:
            for pol, x in ((True, t.a[1]), (False, t.a[2])):
                n = s.refine(f, st.copy(), t.a[0], pol, via)
                if n is not None:
                    out[x] = join(out.get(x), n)
        elif t.op == "switch":
            v = s.val(f, t.a[0], st)
            n = st.copy()
            ok = True
            for c in t.a[2:]:
                m = st.copy()
                k = int(c[0])
                if s.put(f, m, t.a[0], k, k):
                    out[c[1]] = join(out.get(c[1]), m)
                w = s.val(f, t.a[0], n)
                if w and w[0] == w[1] == k:
                    ok = False
                elif w and w[0] == k:
                    s.put(f, n, t.a[0], k + 1, None)
                elif w and w[1] == k:
                    s.put(f, n, t.a[0], None, k - 1)
            if ok:
                out[t.a[1]] = join(out.get(t.a[1]), n)
        else:
            for x in f.succ[b]:
                out[x] = st
        return out

    def phis(s, f, b, p, st):
        """state on entering a block from a predecessor"""
        n = []
        for i in f.blocks[b]:
            if i.op != "phi":
                break
            for v, q in i.a:
                if q == p:
                    n.append((i, s.val(f, v, st), v))
                    break
        if n:
            st = st.copy()
            links = {i.id: st.ln.get(v) if isinstance(v, int) else None for i, _, v in n}
            for i, v, _ in n:
                if v is not None and v != top(i.ty):
                    st.env[i.id] = v
                else:
                    st.env.pop(i.id, None)
                if links[i.id] is not None:
                    st.ln[i.id] = links[i.id]
                else:
                    st.ln.pop(i.id, None)
        return st

    def _run(s, f):
        kept = s.kept(f)
        order = _rpo(0, lambda b: f.succ[b])
        pos = {b: k for k, b in enumerate(order)}
        heads = {t for b in order for t in f.succ[b] if pos[t] <= pos[b]}
        thr = set()
        for i in f.insts():
            if i.op == "icmp":
                for o in i.a[1:]:
                    if isinstance(o, list) and o[0] == "i":
                        v = s.val(f, o, State())[0]
                        thr |= {v - 1, v, v + 1}
            elif i.op == "getelementptr":
                m = ARR.match(i.a[0])
                if m:
                    thr |= {int(m.group(1)) - 1, int(m.group(1))}
        for v in s.assume.values():
            thr |= {v[0], v[1], v[1] - 1, v[1] + 1}
        thr |= {0, -1, 1}
        thr = sorted(thr)
        thread = set()
        for b in order:
            t = f.blocks[b][-1]
            if t.op == "br" and len(t.a) == 3 and isinstance(t.a[0], int) and t.a[0] >= f.nargs:
                c = f.inst[t.a[0]]
                while c.op == "xor" and isinstance(c.a[0], int) and c.a[0] >= f.nargs:
                    c = f.inst[c.a[0]]
                if c.op == "phi" and c.bb == b and len(f.blocks[b]) < 8:
                    thread.add(b)
        edges = {}                        # (p, b) -> state before the phis of b

        def widen(old, new, hard, here):
            r = State()
            for x, y, z, ty in ((old.env, new.env, r.env, None), (old.mem, new.mem, r.mem, 1)):
                for k, v in y.items():
                    w = x.get(k)
                    if ty is None and (k < f.nargs or f.inst[k].op != "phi" or f.inst[k].bb != here):
                        z[k] = v; continue
                    if w is None:
                        continue
                    lo, hi = v
                    if lo < w[0]:
                        c = [] if hard else [q for q in thr if q <= lo]; lo = c[-1] if c else None
                    if hi > w[1]:
                        c = [] if hard else [q for q in thr if q >= hi]; hi = c[0] if c else None
                    t = top(k[2]) if ty else top(f.args[k][1] if k < f.nargs else f.inst[k].ty)
                    if t is None:
                        continue
                    z[k] = (t[0] if lo is None else max(lo, t[0]), t[1] if hi is None else min(hi, t[1]))
            for k, v in new.ln.items():
                if old.ln.get(k) == v:
                    r.ln[k] = v
            return r

        e0 = s.entry(f)
        ins = {b: None for b in range(len(f.blocks))}
        cnt = defaultdict(int)

        def incoming(b):
            st = e0.copy() if b == 0 else None
            for p in f.pred[b]:
                e = edges.get((p, b))
                if e is not None:
                    st = join(st, s.phis(f, b, p, e))
            if b in heads and st is not None:          # what is defined outside a loop does not change in it
                fw = e0.copy() if b == 0 else None
                for p in f.pred[b]:
                    e = edges.get((p, b))
                    if e is not None and pos[p] < pos[b]:
                        fw = join(fw, e)
                if fw is not None:
                    ph = {i.id for i in f.blocks[b] if i.op == "phi"}
                    env = {k: v for k, v in fw.env.items() if k not in ph}
                    env.update((k, v) for k, v in st.env.items() if k in ph)
                    st = State(env, st.mem, st.ln)
            return st

        def go(b):
            if b in thread:
                out = {}
                for p in f.pred[b]:
                    e = edges.get((p, b))
                    if e is None:
                        continue
                    for x, n in s.block(f, b, s.phis(f, b, p, e).copy(), kept, (p, b)).items():
                        out[x] = join(out.get(x), n)
            else:
                out = s.block(f, b, ins[b].copy(), kept)
            return out
        todo = {0}
        n = 0
        while todo:
            n += 1
            if n > 400 * len(order) + 2000:
                raise RuntimeError("no fixed point in %s" % f.name)
            b = min(todo, key=lambda x: pos[x]); todo.discard(b)
            new = incoming(b)
            if new is None:
                continue
            old = ins[b]
            if old is not None:
                if b in heads:
                    new = join(old, new)
                    cnt[b] += 1
                    if cnt[b] > 1:
                        new = widen(old, new, cnt[b] > 40, b)
                if new == old and b not in thread:
                    continue
            ins[b] = new
            for x, q in go(b).items():
                if edges.get((b, x)) is None or not (edges[(b, x)] == q):
                    edges[(b, x)] = q
                    todo.add(x)
            for x in f.succ[b]:
                pass
        for _ in range(3):                # descending passes
            for b in order:
                if ins[b] is None:
                    continue
                new = incoming(b)
                if new is None:
                    ins[b] = None
                    for x in f.succ[b]:
                        edges.pop((b, x), None)
                    continue
                ins[b] = new
                out = go(b)
                for x in f.succ[b]:
                    if x in out:
                        edges[(b, x)] = out[x]
                    else:
                        edges.pop((b, x), None)
        r = Result()
        r.f, r.ins, r.edges = f, ins, edges
        r.ret = None
        if top(f.ret):
            v = None
            for b in order:
                t = f.blocks[b][-1]
                if t.op == "ret" and ins[b] is not None and t.a:
                    r.ret = None
                    w = s.at(r, t, t.a[0])
                    if w == "dead":
                        continue
                    v = w if v is None else (min(v[0], w[0]), max(v[1], w[1]))
            r.ret = v
        return r
