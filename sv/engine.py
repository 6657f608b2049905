"""Path-sensitive, interprocedural typestate dataflow.

Every function is interpreted once over an abstract domain: SSA values and the
memory they name as terms over the function's inputs, branch outcomes as facts
on those terms, heap blocks as typestate objects (live / freed / escaped), and a
'failed' mark that a path acquires when an allocation returns NULL, a callee
reports failure or an error message is issued.  States meet at loop heads (and
wherever too many pile up) when they agree on the typestate.  Functions are
visited callees first; the exit states of a function, expressed over its
inputs, are its summary, and calls apply summaries case by case.  Nothing is
executed and no solver is used."""
from collections import defaultdict
from .ir import operands, CASTS
from .effects import Effects, Owners

C0 = ("c", 0)
MAXDEPTH = 7
MAXUNMERGED = 14
MAXMERGED = 60
MAXDISJ = 14
STEPS = 20000

_depth = {}


def depth(v):
    if not isinstance(v, tuple):
        return 0
    d = _depth.get(v)
    if d is None:
        d = 1 + max([depth(x) for x in v] or [0])
        if len(_depth) > 2000000:
            _depth.clear()
        _depth[v] = d
    return d


def root(v):
    while isinstance(v, tuple) and v[0] in ("p", "el", "m"):
        v = v[1]
    return v


def addr(v):
    if v[0] == "p":
        return v[1], v[2]
    return v, 0


def addoff(v, c):
    if c == 0:
        return v
    if v[0] == "p":
        c += v[2]; v = v[1]
        return ("p", v, c) if c else v
    if v[0] in ("c", "n"):
        return ("p", v, c)
    return ("p", v, c)


def linear(v):
    """(term, factor) pairs and a constant, for index arithmetic"""
    if v[0] == "c":
        return {}, v[1]
    if v[0] == "op":
        if v[1] in ("add", "sub") and depth(v) < 7:
            a, ca = linear(v[2]); b, cb = linear(v[3])
            s = 1 if v[1] == "add" else -1
            r = dict(a)
            for k, x in b.items():
                r[k] = r.get(k, 0) + s * x
            return {k: x for k, x in r.items() if x}, ca + s * cb
        if v[1] == "mul" and v[3][0] == "c":
            a, ca = linear(v[2])
            return {k: x * v[3][1] for k, x in a.items()}, ca * v[3][1]
    return {v: 1}, 0


def el(b, vo):
    """b + variable offset (dict term -> scale)"""
    o = 0
    if b[0] == "p":
        o = b[2]; b = b[1]
    if b[0] == "el":
        d = dict(b[2])
        for k, x in vo.items():
            d[k] = d.get(k, 0) + x
        vo = {k: x for k, x in d.items() if x}
        b = b[1]
        if b[0] == "p":
            o += b[2]; b = b[1]
    if vo:
        b = ("el", b, tuple(sorted(vo.items(), key=repr)))
    return addoff(b, o)


BOOL = {"eq", "slt", "ult", "not", "fc"}


def mkeq(a, b):
    if a[0] in ("c", "n") and b[0] not in ("c", "n"):
        a, b = b, a
    if b[0] == "n":
        b = C0
    if a[0] == "n":
        a = C0
    if a == b:
        return ("c", 1)
    if a[0] == "c" and b[0] == "c":
        return ("c", int(a[1] == b[1]))
    if b == C0:
        if a[0] == "op" and a[1] in BOOL:
            return mknot(a)
        if a[0] == "op" and a[1] == "sub":
            return mkeq(a[2], a[3])
        if isnonnull(a):
            return C0
        if a[0] in ("p", "el"):
            r = root(a)
            if r[0] in ("c", "n"):
                return ("c", 1) if a[0] == "p" and r == C0 and 0 else ("op", "eq", a, b)
    elif b[0] == "c" and a[0] == "op":
        if a[1] in BOOL and b[1] == 1:
            return a
        if a[1] == "add" and a[3][0] == "c":
            return mkeq(a[2], ("c", b[1] - a[3][1]))
    elif b[0] != "c":
        ra, rb = root(a), root(b)
        if ra[0] in ("al", "h", "g") and rb[0] in ("al", "h", "g") and ra != rb:
            return C0
        if ra[0] in ("al", "h") and rb[0] in ("arg", "ld") or rb[0] in ("al", "h") and ra[0] in ("arg", "ld"):
            return C0
        if repr(a) > repr(b):
            a, b = b, a
    return ("op", "eq", a, b)


def mknot(a):
    if a[0] == "c":
        return ("c", int(a[1] == 0))
    if a[0] == "op" and a[1] == "not":
        return a[2] if a[2][0] == "op" and a[2][1] in BOOL else ("op", "not", a)
    return ("op", "not", a)


def isnonnull(v):
    return v[0] in ("al", "h", "g", "m") or (v[0] in ("p", "el") and root(v)[0] in ("al", "h", "g"))


ARITH = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
    "shl": lambda a, b: a << b if 0 <= b < 64 else None, "ashr": lambda a, b: a >> b if 0 <= b < 64 else None,
    "lshr": lambda a, b: (a & (2**64 - 1)) >> b if 0 <= b < 64 else None,
    "sdiv": lambda a, b: None if b == 0 else int(a / b), "udiv": lambda a, b: None if b == 0 else a // b,
    "srem": lambda a, b: None if b == 0 else a - b * int(a / b), "urem": lambda a, b: None if b == 0 else a % b,
}
COMM = {"add", "mul", "and", "or", "xor"}


def arith(op, a, b):
    if a[0] == "n":
        a = C0
    if b[0] == "n":
        b = C0
    if a[0] == "c" and b[0] == "c" and op in ARITH:
        r = ARITH[op](a[1], b[1])
        if r is not None:
            return ("c", r)
    if op in COMM and a[0] == "c":
        a, b = b, a
    if op == "sub" and b[0] == "c":
        op, b = "add", ("c", -b[1])
    if b == C0:
        if op in ("add", "or", "xor", "shl", "ashr", "lshr"):
            return a
        if op in ("and", "mul"):
            return C0
    if b == ("c", -1) and op == "and":
        return a
    if op == "sub" and a == b:
        return C0
    if op == "add" and b[0] == "c" and a[0] == "op" and a[1] == "add" and a[3][0] == "c":
        return arith("add", a[2], ("c", a[3][1] + b[1]))
    if op == "add" and b[0] == "c" and root(a)[0] in ("al", "h", "g", "arg"):
        return addoff(a, b[1])
    if op == "and" and b[0] == "c" and a[0] == "op" and a[3:] and a[3][0] == "c":
        if a[1] == "or":                       # (x | c1) & c2
            if a[3][1] & b[1] == b[1]:
                return b
            if a[3][1] & b[1] == 0:
                return arith("and", a[2], b)
        if a[1] == "and":
            return arith("and", a[2], ("c", a[3][1] & b[1]))
    if op == "or" and b[0] == "c" and a[0] == "op" and a[1] == "or" and a[3][0] == "c":
        return arith("or", a[2], ("c", a[3][1] | b[1]))
    if op in COMM and b[0] != "c" and repr(a) > repr(b):
        a, b = b, a
    return ("op", op, a, b)


def mentions(v, syms):
    """does the term contain one of the given symbols"""
    if not isinstance(v, tuple):
        return False
    if v in syms:
        return True
    for x in v:
        if isinstance(x, tuple) and mentions(x, syms):
            return True
    return False


def subst(v, m, memo):
    if not isinstance(v, tuple):
        return v
    r = memo.get(v)
    if r is None:
        r = m.get(v)
        if r is None:
            r = tuple(subst(x, m, memo) if isinstance(x, tuple) else x for x in v)
        memo[v] = r
    return r


class State:
    __slots__ = ("env", "mem", "ver", "dflt", "pc", "eqc", "objs", "freed", "esc", "failed", "ev", "deref", "used", "trace", "unsure", "cf", "soft", "via", "at")

    def __init__(s):
        s.env = {}; s.mem = {}; s.ver = {}; s.dflt = {}; s.pc = {}; s.eqc = {}; s.objs = {}; s.freed = {}
        s.esc = frozenset(); s.failed = None; s.ev = {}; s.deref = frozenset(); s.used = frozenset(); s.trace = (); s.unsure = False
        s.soft = {}                # block -> local object which has it, through a call whose effects are not known in full
        s.via = frozenset()        # (z, y): what local object y has is also known to local object z
        s.at = {}                  # block -> where in that object it was
        s.cf = frozenset()         # (place, conditions, exactly then) of what may have been released

    def copy(s):
        n = State.__new__(State)
        n.env = dict(s.env); n.mem = dict(s.mem); n.ver = dict(s.ver); n.dflt = dict(s.dflt); n.pc = dict(s.pc); n.eqc = dict(s.eqc)
        n.objs = dict(s.objs); n.freed = dict(s.freed); n.esc = s.esc; n.failed = s.failed; n.ev = dict(s.ev); n.deref = s.deref
        n.used = s.used; n.trace = s.trace; n.unsure = s.unsure; n.cf = s.cf; n.soft = dict(s.soft); n.via = s.via; n.at = dict(s.at)
        return n

    def fp(s):
        return hash((frozenset(s.env.items()), frozenset(s.mem.items()), frozenset(s.pc.items()), frozenset(s.eqc.items()),
                     frozenset(s.objs.items()), frozenset(s.freed), s.esc, s.failed is None, frozenset(s.ev.items()), frozenset(s.ver.items()), s.cf, frozenset(s.soft.items()), s.via))

    def key(s):
        return (frozenset((k, v[0]) for k, v in s.objs.items() if k not in s.esc), frozenset(s.freed), s.failed is None, frozenset(s.ev.items()), s.unsure)

    def xkey(s):
        return (s.key(), frozenset((k, v) for k, v in s.env.items() if v[0] in ("c", "n")),
                frozenset((k, v) for k, v in s.mem.items() if k[0][0] == "al" and v[0] in ("c", "n")))

    def note(s, t):
        if len(s.trace) < 40:
            s.trace = s.trace + (t,)

    # --- memory -----------------------------------------------------------
    def load(s, base, off):
        v = s.mem.get((base, off))
        if v is not None:
            return v
        for o, n, kind in reversed(s.dflt.get(base, ())):
            if off >= o and (n is None or off < o + n):
                if kind[0] == "c":
                    return kind
                if kind[0] == "cp":
                    _, sb, so, sv = kind
                    return ("ld", sb, off - o + so) if sv is None else ("lh", sb, off - o + so, sv)
                break
        t = s.ver.get(base)
        return ("ld", base, off) if t is None else ("lh", base, off, t)

    def store(s, base, off, v):
        if base[0] == "el":                    # an element: other elements of the array may be the same one
            b0 = base[1]
            for k in [k for k in s.mem if k[0] != base and (k[0] == b0 or (k[0][0] == "el" and k[0][1] == b0)) and k[1] == off or k[0] == b0 and base[2] == ()]:
                s.drop(k)
        else:
            for k in [k for k in s.mem if k[0][0] == "el" and k[0][1] == base]:
                s.drop(k)
        s.mem[(base, off)] = v

    def drop(s, k):
        v = s.mem.pop(k)
        r = root(v)
        if r[0] == "h" and r in s.objs:
            s.esc = s.esc | {r}

    def dropbase(s, base, lo=None, hi=None):
        for k in [k for k in s.mem if (k[0] == base or (k[0][0] == "el" and k[0][1] == base)) and (lo is None or (k[1] >= lo and (hi is None or k[1] < hi)) or k[0] != base)]:
            s.drop(k)

    def havoc(s, base, tag, seen=None):
        """the memory at base, and what it reaches, may have been rewritten"""
        if seen is None:
            seen = set()
        if base in seen or base[0] == "c":
            return
        seen.add(base)
        nxt = []
        for k in list(s.mem):
            if k[0] == base or (k[0][0] == "el" and k[0][1] == base):
                v = s.mem.get(k)
                r = root(v)
                if r[0] not in ("c", "n"):
                    nxt.append(r)
                s.drop(k)
        s.dflt.pop(base, None)
        s.ver[base] = tag
        for r in nxt:
            if r[0] in ("al", "h", "ld", "lh", "s", "arg"):
                s.havoc(r, tag, seen)

    def retire(s, syms):
        """the symbols are about to be redefined: rename what still mentions them"""
        m = {}
        for y in syms:
            m[y] = ("o",) + y if y[0] != "h" else ("h", "old") + y[1:]
        old = frozenset(m.values())
        memo = {}
        both = frozenset(syms) | old
        for d in (s.pc, s.eqc):
            for k in [k for k in d if mentions(k, old)]:
                del d[k]
            for k in [k for k in d if mentions(k, both)]:
                d[subst(k, m, memo)] = d.pop(k)
        for k in [k for k in s.freed if mentions(k, old)]:
            del s.freed[k]
        for k in [k for k in s.freed if mentions(k, both)]:
            s.freed[subst(k, m, memo)] = s.freed.pop(k)
        if s.cf:
            s.cf = frozenset(x for x in s.cf if not mentions(x[0], both) and not any(mentions(e, both) for e, t in x[1]))
        for k in [k for k in s.mem if mentions(k[0], both)]:
            if root(k[0])[0] == "h":
                s.mem[(subst(k[0], m, memo), k[1])] = s.mem.pop(k)
            else:
                s.drop(k)
        for k, v in list(s.mem.items()):
            if mentions(v, both):
                s.mem[k] = subst(v, m, memo)
        for k, v in list(s.env.items()):
            if mentions(v, both):
                s.env[k] = subst(v, m, memo)
        for d in (s.ver, s.dflt):
            for k in [k for k in d if mentions(k, both)]:
                d.pop(k)
        for k, v in list(s.ver.items()):
            if v in m:
                s.ver[k] = m[v]
        for k, v in list(s.dflt.items()):
            if mentions(v, both):
                s.dflt[k] = subst(v, m, memo)
        for h in syms:
            if h[0] == "h" and h in s.objs:
                s.objs[m[h]] = s.objs.pop(h)
                if m[h] in s.esc or h in s.esc:
                    s.esc = (s.esc - {h}) | {m[h]}
                if h in s.soft:
                    s.soft[m[h]] = s.soft.pop(h)
                    s.at[m[h]] = s.at.pop(h, frozenset())
        if s.deref:
            s.deref = frozenset(x for x in s.deref if not mentions(x, both))

    # --- facts ------------------------------------------------------------
    def value(s, v):
        """v, or the constant the facts give it"""
        if v[0] in ("c", "n"):
            return v
        c = s.eqc.get(v)
        if c is not None:
            return ("c", c)
        if v[0] == "op":
            t = s.truth(v) if v[1] in BOOL else None
            if t is not None:
                return ("c", int(t))
        return v

    def truth(s, v):
        if v[0] == "c":
            return v[1] != 0
        if v[0] == "n":
            return False
        if isnonnull(v):
            return True
        c = s.eqc.get(v)
        if c is not None:
            return c != 0
        t = s.pc.get(v)
        if t is not None:
            return t
        if v[0] == "op":
            if v[1] == "not":
                t = s.truth(v[2])
                return None if t is None else not t
            if v[1] == "eq":
                a, b = v[2], v[3]
                if b == C0:
                    t = s.truth(a)
                    return None if t is None else not t
                ca, cb = s.value(a), s.value(b)
                if ca[0] == "c" and cb[0] == "c":
                    return ca[1] == cb[1]
                if cb[0] == "c" and s.pc.get(a) is False and cb[1] != 0:
                    return False
                if s.pc.get(("op", "slt", a, b)) or s.pc.get(("op", "slt", b, a)):
                    return False
            elif v[1] == "slt":
                ca, cb = s.value(v[2]), s.value(v[3])
                if ca[0] == "c" and cb[0] == "c":
                    return ca[1] < cb[1]
                if s.pc.get(("op", "slt", v[3], v[2])):
                    return False
                if s.pc.get(("op", "eq", v[2], v[3])) or s.pc.get(("op", "eq", v[3], v[2])):
                    return False
            elif v[1] == "ult":
                ca, cb = s.value(v[2]), s.value(v[3])
                if ca[0] == "c" and cb[0] == "c":
                    return (ca[1] % 2**64) < (cb[1] % 2**64)
            elif v[1] == "or":
                if s.truth(v[2]) or s.truth(v[3]):
                    return True
                if s.truth(v[2]) is False and s.truth(v[3]) is False:
                    return False
            elif v[1] in ("and", "mul"):
                if s.truth(v[2]) is False or s.truth(v[3]) is False:
                    return False
        elif v[0] in ("p", "el"):
            r = root(v)
            if r[0] not in ("c", "n"):
                t = s.truth(r)
                if t:
                    return True
        return None

    def assume(s, v, t):
        """adds the fact; False when it contradicts what is known"""
        k = s.truth(v)
        if k is not None:
            return k == t
        if v[0] == "op" and v[1] == "not":
            return s.assume(v[2], not t)
        if v[0] == "op" and v[1] == "eq":
            a, b = v[2], v[3]
            if b[0] == "c":
                if b[1] == 0:
                    return s.assume(a, not t)
                if t:
                    s.eqc[a] = b[1]
                    return True
            s.pc[v] = t
            return True
        if v[0] == "op" and v[1] == "or" and not t:
            return s.assume(v[2], False) and s.assume(v[3], False)
        if v[0] == "op" and v[1] == "and" and t and v[3][0] != "c" and v[2][0] == "op" and v[2][1] in BOOL and v[3][0] == "op" and v[3][1] in BOOL:
            return s.assume(v[2], True) and s.assume(v[3], True)
        if not t and not (v[0] == "op" and v[1] in BOOL):
            s.eqc[v] = 0
            return True
        s.pc[v] = t
        return True


def reach(st, starts):
    """heap objects reachable from the values"""
    idx = defaultdict(list)
    for (b, o), v in st.mem.items():
        idx[root(b)].append(v)
    seen, work = set(), [root(v) for v in starts]
    while work:
        r = work.pop()
        if r in seen:
            continue
        seen.add(r)
        for v in idx.get(r, ()):
            work.append(root(v))
            if v[0] == "op":
                work += [root(x) for x in flat(v)]
        if r[0] == "op":
            work += [root(x) for x in flat(r)]
    return seen


def flat(v):
    out = []
    for x in v:
        if isinstance(x, tuple):
            out.append(x)
            if x and x[0] in ("op",):
                out += flat(x)
    return out


def isinput(v):
    """is the term made only of the function's inputs"""
    k = v[0]
    if k == "arg" or k == "g" or k == "c" or k == "n":
        return True
    if k == "ld":
        return isinput(v[1])
    if k == "p":
        return isinput(v[1])
    if k == "el":
        return isinput(v[1]) and all(isinput(x[0]) for x in v[2])
    if k == "op":
        return all(isinput(x) for x in v[2:] if isinstance(x, tuple))
    return False


class Summary:
    """disj: list of dicts ret, writes, havoc, frees, news, facts, failed, deref"""
    def __init__(s, disj, generic=False):
        s.disj = disj; s.generic = generic
        s.memo = None

    def missed(s, di):
        """what disjunct di keeps and another one with the same outcome frees, with the facts under which that one does so"""
        if s.memo is None:
            cl = {}
            for d in s.disj:
                c = cl.setdefault((d["ret"], bool(d["failed"])), {})
                for x, g in [(x, frozenset(d["facts"])) for x in d["frees"]] + [(x, frozenset(g)) for x, g, e in d["cfrees"]]:
                    c[x] = c[x] & g if x in c else g
            s.memo = [[(x, g) for x, g in cl[(d["ret"], bool(d["failed"]))].items() if x not in d["frees"] and x[0] in ("ld", "arg")] for d in s.disj]
        return s.memo[di]


class Report:
    __slots__ = ("kind", "fn", "where", "msg", "trace", "obj")

    def __init__(s, kind, fn, where, msg, trace, obj=None):
        s.kind, s.fn, s.where, s.msg, s.trace, s.obj = kind, fn, where, msg, trace, obj

    def __repr__(s):
        return "%s %s %s: %s" % (s.kind, s.where, s.fn, s.msg)


ALLOC = {"malloc"}
ERR = {"SCOTCH_errorPrint"}
NOP = {"SCOTCH_errorPrintW", "SCOTCH_errorProg"}
EXITS = {"exit", "abort", "_exit", "__assert_fail"}
READONLY = {"fprintf", "printf", "strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strchr", "strstr", "atoi", "atol", "atoll", "atof",
            "fclose", "fflush", "putc", "fputs", "fputc", "fwrite", "puts", "toupper", "tolower", "isatty", "fileno", "ferror", "feof",
            "MPI_Send", "MPI_Isend", "MPI_Comm_free", "MPI_Type_free", "MPI_Op_free", "getenv", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_unlock",
            "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_broadcast", "vfprintf", "MPI_Barrier", "dup", "close", "time"}


def dfs_order(fn):
    succ = fn.succ
    state, post, heads = {}, [], set()
    stack = [(0, iter(succ[0]))]
    state[0] = 1
    while stack:
        b, it = stack[-1]
        for n in it:
            if n not in state:
                state[n] = 1
                stack.append((n, iter(succ[n])))
                break
            elif state[n] == 1:
                heads.add(n)
        else:
            state[b] = 2
            post.append(b)
            stack.pop()
    post.reverse()
    return post, heads


def liveness(fn):
    n = len(fn.blocks)
    use, dfn, phiuse = [set() for _ in range(n)], [set() for _ in range(n)], defaultdict(set)
    for bi, b in enumerate(fn.blocks):
        for i in b:
            if i.op == "phi":
                for v, p in i.a:
                    if isinstance(v, int):
                        phiuse[p].add(v)
            else:
                for o in operands(i):
                    if isinstance(o, int) and o not in dfn[bi]:
                        use[bi].add(o)
            dfn[bi].add(i.id)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for bi in range(n - 1, -1, -1):
            out = set(phiuse[bi])
            for x in fn.succ[bi]:
                out |= live[x]
            new = use[bi] | (out - dfn[bi])
            for i in fn.blocks[bi]:
                if i.op == "phi":
                    new.add(i.id)
            if new != live[bi]:
                live[bi] = new; ch = True
    return live


_cur = None


def _work(comp):
    a = _cur
    a.reports = []; a.stats = defaultdict(int); a.truncated = set()
    for k in comp:
        a.analyze(a.prog.funcs[k])
    return {k: a.sum[k] for k in comp}, a.reports, dict(a.stats), a.truncated


class Analyzer:
    def __init__(s, prog, plugin=None):
        s.prog = prog
        s.sum = {}
        s.reports = []
        s.stats = defaultdict(int)
        s.plugin = plugin
        s.truncated = set()
        s.fnexits = {}
        s.eff = Effects(prog)
        s.own = Owners(prog)

    # ------------------------------------------------------------------
    def order(s):
        """functions, callees first (direct calls)"""
        idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
        succ = {}
        for k, f in s.prog.funcs.items():
            l = []
            for i in f.insts():
                if i.op == "call":
                    c = s.prog.callee(i)
                    if c:
                        l.append(c.key)
                    for o in i.a[1:]:
                        if isinstance(o, list) and o[0] == "g":
                            c = s.prog.resolve_name(o[1], f.unit)
                            if c:
                                l.append(c.key)
            succ[k] = l
        for r in s.prog.funcs:
            if r in idx:
                continue
            work = [(r, iter(succ[r]))]
            idx[r] = low[r] = n[0]; n[0] += 1; st.append(r); on.add(r)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w)
                        work.append((w, iter(succ[w])))
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        c = []
                        while True:
                            w = st.pop(); on.discard(w); c.append(w)
                            if w == v:
                                break
                        out.append(c)
        return out

    def levels(s):
        comps = s.order()
        lev, out = {}, []
        for c in comps:
            l = 0
            cs = set(c)
            for k in c:
                f = s.prog.funcs[k]
                for i in f.insts():
                    if i.op == "call":
                        d = s.prog.callee(i)
                        ds = [d.key] if d else []
                        if s.prog.callee_name(i) is None:
                            ds = [g.key for g in s.prog.callees(i)]
                        for x in ds:
                            if x not in cs and x in lev:
                                l = max(l, lev[x] + 1)
            for k in c:
                lev[k] = l
            while len(out) <= l:
                out.append([])
            out[l].append(c)
        return out

    def run(s, jobs=None):
        """visits every function, callees first, levels of the call graph in parallel"""
        import os, multiprocessing as mp
        jobs = jobs or os.cpu_count() or 4
        ctx = mp.get_context("fork")
        for level in s.levels():
            cost = sorted(level, key=lambda c: -sum(len(s.prog.funcs[k].inst) for k in c))
            if len(cost) < 4:
                for c in cost:
                    for k in c:
                        s.analyze(s.prog.funcs[k])
                continue
            global _cur
            _cur = s
            with ctx.Pool(min(jobs, len(cost))) as pool:
                for sums, reps, stats, trunc in pool.imap_unordered(_work, cost, chunksize=1 if len(cost) < 200 else 4):
                    s.sum.update(sums); s.reports += reps; s.truncated |= trunc
                    for k, v in stats.items():
                        s.stats[k] += v
        s.reports.sort(key=lambda r: (r.where, r.kind, r.msg))
        return s

    # ------------------------------------------------------------------
    def report(s, kind, i, msg, st, obj=None):
        if st.unsure:
            return
        s.reports.append(Report(kind, s.fn.src, i.where, msg, st.trace, obj))

    def val(s, st, o):
        if isinstance(o, int):
            v = st.env.get(o)
            if v is None:
                v = ("s", o, "undef")
            return v
        k = o[0]
        if k == "i":
            return ("c", o[1])
        if k == "n":
            return C0
        if k == "g":
            return ("g", o[1])
        if k == "gep":
            b = s.val(st, o[2])
            return addoff(b, o[4]) if len(o) > 4 and o[4] is not None else ("el", b, (("?", 1),))
        if k == "u":
            return ("c", 0)
        if k == "f":
            return ("f", o[1])
        if k == "z":
            return C0
        return ("k", repr(o)[:80])

    def fresh(s, st, iid, tag):
        return ("s", iid, tag)

    def retire(s, st, iid):
        y = [x for x in st.used if x[1] == iid and x[0] != "j"]
        if y:
            st.retire(y)

    def tag(s, st, kind, iid):
        t = (kind, iid)
        st.used = st.used | {t}
        return t

    def mark(s, st, *syms):
        st.used = st.used | frozenset(syms)

    def checkptr(s, st, i, v, what):
        """v is about to be dereferenced; False when the path cannot continue"""
        r = root(v)
        if r[0] == "n":
            s.report("null", i, "%s through the result of a failed allocation (%s)" % (what, r[1]), st, r[1])
            return False
        rv = st.value(r)
        if rv[0] == "c":
            if rv[1] == 0:
                s.report("nullc", i, "%s through a pointer known to be NULL here" % what, st)
                return False
            return True
        o = st.objs.get(r)
        if o is not None and o[0] == "F":
            s.report("uaf", i, "%s of memory already released" % what, st, r)
            return False
        f = st.freed.get(r)
        if f is not None:
            s.report("uaf", i, "%s of memory released at %s" % (what, f), st, r)
            return False
        if r[0] in ("arg", "ld") and depth(r) <= 3:
            st.deref = st.deref | {r}
        return True

    def free(s, st, i, v):
        rv = st.value(v)
        r = root(v)
        if rv[0] in ("c", "n") or r[0] == "n" or st.value(r) == C0:
            return True
        if st.soft and r[0] not in ("h", "arg"):
            s.give(st, v)
        if r[0] == "h":
            o = st.objs.get(r)
            if o is None:
                return True
            if o[0] == "F":
                s.report("dfree", i, "memory allocated at %s is released twice" % o[1], st, r)
                return False
            b = v
            while b != r:
                if b[0] == "m":
                    s.report("ifree", i, "release of an inner part of the block allocated at %s" % o[1], st, r)
                    break
                b = b[1]
            st.objs[r] = ("F", i.where)
            return True
        if r[0] in ("al", "g"):
            s.report("ifree", i, "release of memory that was not dynamically allocated", st, r)
            return True
        f = st.freed.get(r)
        if f is not None:
            s.report("dfree", i, "memory released at %s is released again" % f, st, r)
            return False
        st.freed[r] = i.where
        return True

    # ------------------------------------------------------------------
    def alloc(s, st, i, setter, what):
        """two outcomes: a live block, or NULL"""
        s.retire(st, i.id)
        ok, ko = st, st.copy()
        h = ("h", i.id, 0)
        ok.objs[h] = ("L", i.where)
        ok.esc = ok.esc - {h}
        ok.env[i.id] = h
        ok.ver.pop(h, None); ok.dflt.pop(h, None)
        ok.freed.pop(h, None)
        for k in [k for k in ok.mem if root(k[0]) == h]:
            del ok.mem[k]
        s.mark(ok, h)
        setter(ok, h)
        ko.env[i.id] = ("n", i.where)
        ko.failed = ko.failed or i.where
        ko.note("allocation fails at %s" % i.where)
        setter(ko, None)
        return [ok, ko]

    def call(s, st, i):
        name = s.prog.callee_name(i)
        args = [s.val(st, o) for o in i.a[1:]]
        s.stats["calls"] += 1
        if name:
            if name in ALLOC:
                return s.alloc(st, i, lambda t, h: None, "malloc")
            if name == "calloc":
                return s.alloc(st, i, lambda t, h: None, "calloc")
            if name == "free":
                s.stats["frees"] += 1
                return [st] if s.free(st, i, args[0]) else []
            if name == "realloc":
                return s.realloc(st, i, args[0], None)
            if name.endswith("memAllocGroup"):
                slots = args[0:-1:2]

                def setter(t, h):
                    if h is None:
                        b, o = addr(slots[0]); t.store(b, o, ("n", i.where))
                        return
                    for n, x in enumerate(slots):
                        b, o = addr(x); t.store(b, o, h if n == 0 else ("m", h, n))
                return s.alloc(st, i, setter, name)
            if name.endswith("memReallocGroup"):
                return s.realloc(st, i, args[0], args[1:-1:2])
            if name.endswith("memOffset"):
                for n, x in enumerate(args[1:-1:2]):
                    b, o = addr(x); st.store(b, o, args[0] if n == 0 else ("el", args[0], ((("k", "off%d" % n), 1),)))
                st.env[i.id] = ("el", args[0], ((("k", "offend"), 1),))
                return [st]
            if name in ERR:
                st.failed = st.failed or i.where
                st.note("error reported at %s" % i.where)
                return [st]
            if name in NOP or name.startswith("llvm.dbg") or name.startswith("llvm.va_"):
                return [st]
            if name in EXITS:
                return []
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                return s.memcpy(st, i, args)
            if name.startswith("llvm.memset"):
                return s.memset(st, i, args)
            if s.plugin:
                r = s.plugin.call(s, st, i, name, args)
                if r is not None:
                    return r
            if name == "MPI_Allreduce":
                return s.allreduce(st, i, args[4])
            if name.endswith("dgraphAllreduceMaxSum2") or name.endswith("dgraphAllreduceMaxSum"):
                return s.allreduce(st, i, ("g", "ompi_mpi_op_sum"))
            f = s.prog.callee(i)
            if f is None:
                return s.extern(st, i, name, args)
            sm = s.sum.get(f.key)
            if sm is None:
                return s.generic(st, i, args, f.ret, True)
            return s.apply(st, i, args, sm)
        if s.plugin:
            r = s.plugin.call(s, st, i, None, args)
            if r is not None:
                return r
        fs = s.prog.callees(i)
        fail = any(s.sum.get(f.key) is None or any(d["failed"] for d in s.sum[f.key].disj) for f in fs) or not fs
        return s.generic(st, i, args, i.ty, fail)

    def realloc(s, st, i, p, slots):
        s.retire(st, i.id)
        p = s.val(st, i.a[1])
        ok, ko = st, st.copy()
        v = ok.value(p)
        r = root(p)
        if v[0] not in ("c", "n"):
            if r[0] == "h":
                if r in ok.objs:
                    if ok.objs[r][0] == "F":
                        s.report("uaf", i, "reallocation of memory already released", st, r)
                        return []
                    ok.objs[r] = ("F", i.where)
            elif r[0] not in ("al", "g"):
                if r in ok.freed:
                    s.report("uaf", i, "reallocation of memory released at %s" % ok.freed[r], st, r)
                    return []
                ok.freed[r] = i.where
        h = ("h", i.id, 0)
        ok.objs[h] = ("L", i.where); ok.esc = ok.esc - {h}
        ok.ver.pop(h, None); ok.dflt.pop(h, None)
        ok.ver[h] = s.tag(ok, "re", i.id)
        s.mark(ok, h)
        ok.env[i.id] = h
        if slots:
            for n, x in enumerate(slots):
                b, o = addr(x); ok.store(b, o, h if n == 0 else ("m", h, n))
        ko.env[i.id] = ("n", i.where)
        ko.failed = ko.failed or i.where
        ko.note("reallocation fails at %s" % i.where)
        if not s.looked(i):                    # the size only shrinks there: what a failure would lose is not counted
            if r[0] == "h":
                ko.esc = ko.esc | {r}
            elif isinput(r) and depth(r) <= 5:
                ko.cf = ko.cf | {(r, frozenset(), False)}
        return [ok, ko]

    def looked(s, i):
        """whether the function looks at the result of the call before it uses it"""
        if s.lookedfn is not s.fn:
            s.lookedfn = s.fn
            s.lookedat = {o for j in s.fn.insts() if j.op in ("icmp", "ret", "phi", "select") for o in ([x[0] for x in j.a] if j.op == "phi" else j.a) if isinstance(o, int)}
        return i.id in s.lookedat

    def memcpy(s, st, i, args):
        s.retire(st, i.id)
        args = [s.val(st, o) for o in i.a[1:]]
        d, c, n = args[0], args[1], st.value(args[2])
        if not s.checkptr(st, i, d, "write") or not s.checkptr(st, i, c, "read"):
            return []
        db, do = addr(d); sb, so = addr(c)
        if st.soft and root(sb) != root(db):
            s.share(st, root(db), root(sb))
        if n[0] != "c" or n[1] > 4096:
            st.dropbase(db)
            st.ver[db] = s.tag(st, "mc", i.id)
            return [st]
        n = n[1]
        new = {}
        for k, v in st.mem.items():
            if k[0] == sb and so <= k[1] < so + n:
                new[(db, k[1] - so + do)] = v
        st.dropbase(db, do, do + n)
        kind = ("cp", sb, so, st.ver.get(sb))
        l = st.dflt.get(db, ())
        add = [(do, n, kind)]
        for o, m, kd in st.dflt.get(sb, ()):
            if m is None or kd[0] == "c":
                lo = max(o, so); hi = so + n if m is None else min(o + m, so + n)
                if lo < hi:
                    add.append((lo - so + do, hi - lo, kd))
        st.dflt[db] = (l + tuple(add))[-8:]
        st.mem.update(new)
        return [st]

    def memset(s, st, i, args):
        s.retire(st, i.id)
        args = [s.val(st, o) for o in i.a[1:]]
        d, c, n = args[0], args[1], st.value(args[2])
        if not s.checkptr(st, i, d, "write"):
            return []
        db, do = addr(d)
        m = n[1] if n[0] == "c" else None
        st.dropbase(db, do, None if m is None else do + m)
        if c[0] == "c" and c[1] in (0, -1, 255):
            st.dflt[db] = (st.dflt.get(db, ()) + ((do, m, C0 if c[1] == 0 else ("c", -1)),))[-8:]
        else:
            st.dflt.pop(db, None); st.ver[db] = s.tag(st, "ms", i.id)
        return [st]

    def allreduce(s, st, i, op):
        s.retire(st, i.id)
        snd, rcv, cnt = [s.val(st, o) for o in i.a[1:4]]
        st.env[i.id] = C0
        sb, so = addr(snd); rb, ro = addr(rcv)
        n = st.value(cnt)
        vals = {}
        if n[0] == "c" and n[1] <= 64:
            for k in range(0, n[1] * 8, 4):
                v = st.mem.get((sb, so + k))
                if v is not None:
                    vals[k] = st.truth(v)
        st.dropbase(rb)
        st.ver[rb] = s.tag(st, "ar", i.id)
        if op in (("g", "ompi_mpi_op_sum"), ("g", "ompi_mpi_op_max"), ("g", "ompi_mpi_op_lor")):
            for k, t in vals.items():
                y = ("s", i.id, ("ar", k))
                s.mark(st, y)
                st.mem[(rb, ro + k)] = y
                if t:
                    st.assume(y, True)
        else:
            if st.failed is not None:          # agreed upon through some other operation: no verdict on what follows
                st.unsure = True
            st.failed = None
        return [st]

    def extern(s, st, i, name, args):
        s.retire(st, i.id)
        args = [s.val(st, o) for o in i.a[1:]]
        y = ("s", i.id, "r")
        if i.ty != "void":
            s.mark(st, y)
            # a failing communication layer aborts the program by default: not a path of interest
            st.env[i.id] = C0 if name.startswith("MPI_") else y
        if name not in READONLY:
            for a in args:
                r = root(a)
                if r[0] in ("al", "h", "arg", "ld", "lh", "s", "g"):
                    b, o = addr(a)
                    st.dropbase(b)
                    st.ver[b] = s.tag(st, "x", i.id)
                    st.dflt.pop(b, None)
        return [st]

    def lent(s, i, args):
        """blocks that the called function can only look into: it neither stores, returns nor releases the pointer"""
        fs = s.prog.callees(i)
        if not fs:
            return ()
        r, k = set(), set()
        for n, x in enumerate(args):
            if all(n < f.nargs and ("p", n) not in s.eff.kept[f.key] for f in fs):
                r.add(root(x))
            else:
                k.add(root(x))
        return r - k

    def entrust(s, st, x, r):
        """block x is in reach of r, given to a call that may do anything with it"""
        if x not in st.esc:
            st.esc = st.esc | {x}
            if r[0] == "al":
                at = frozenset((b, o) for (b, o), v in st.mem.items() if root(v) == x and root(b) == r)
                if any(b == r for b, o in at):
                    st.soft[x] = r
                    st.at[x] = at
        elif st.soft.get(x, r) != r:
            s.share(st, r, st.soft[x])

    def share(s, st, z, y):
        """what local object y has is now also known to z"""
        if z[0] == "al":
            st.via = st.via | {(z, y)}
        else:
            s.release(st, y)

    def give(s, st, v, z=None):
        """value v is released, or goes to z"""
        y = s.owner(v)
        if y is None or y == z:
            return
        if z is not None and z[0] == "al":
            s.share(st, z, y)
            return
        while v[0] in ("p", "el", "m"):
            v = v[1]
        b = v[1]
        while b[0] == "m":
            b = b[1]
        if b != y or any(a == y for a, o in st.via):
            s.release(st, y)
        else:
            for x in [x for x, u in st.soft.items() if u == y and (not st.at.get(x) or v[1:3] in st.at[x] or any(a[0] == "el" for a, o in st.at[x]))]:
                del st.soft[x]

    def release(s, st, r):
        """whatever object r has may have been released or taken over"""
        rs = {r}
        while True:
            n = {y for z, y in st.via if z in rs} - rs
            if not n:
                break
            rs |= n
        for x in [x for x, y in st.soft.items() if y in rs]:
            del st.soft[x]

    def blank(s, st, i, args):
        """local objects without contents that the called function may give some: (argument, object)"""
        fs = s.prog.callees(i)
        out = []
        for k, a in enumerate(args):
            if a[0] == "al" and fs and all(k in s.own.acq[f.key] for f in fs) and a not in st.ver and a not in st.soft.values() \
               and not any(x[0] != "c" for x in (v for (b, o), v in st.mem.items() if b == a)) and not any(kd[0] != "c" for o, n, kd in st.dflt.get(a, ())):
                out.append((k, a))
        return out

    def endow(s, st, i, bl):
        for k, a in bl:
            h = ("h", i.id, 900 + k)
            st.objs[h] = ("L", i.where)
            s.mark(st, h)
            st.esc = st.esc | {h}
            st.soft[h] = a

    def owner(s, v):
        """the local object in which v was found, after a call that may have changed it"""
        while isinstance(v, tuple) and v[0] in ("p", "el", "m"):
            v = v[1]
        if v[0] in ("lh", "ld"):
            r = root(v[1])
            while r[0] in ("lh", "ld"):
                r = root(r[1])
            return r if r[0] == "al" else None
        return None

    def settle(s, st, i, args):
        """what a call does to objects which have blocks"""
        if not st.soft:
            return
        fs = s.prog.callees(i)
        for k, a in enumerate(args):
            r = root(a)
            if r[0] == "al":
                if not fs or any(k in s.own.rel[f.key] and k not in s.own.acq[f.key] for f in fs):
                    s.release(st, r)
                elif any(k in s.own.rel[f.key] for f in fs):
                    for y in reach(st, [r]):
                        if y[0] == "al" and y != r:
                            s.release(st, y)
                        elif st.soft.get(y, r) != r:
                            del st.soft[y]
                    for z, y in st.via:
                        if z == r:
                            s.release(st, y)
            elif r[0] == "h":
                for y in reach(st, [r]):
                    if y[0] == "al" and (not fs or any(k in s.own.rel[f.key] for f in fs)):
                        s.release(st, y)
            else:
                if not fs or any(("p", k) in s.eff.kept[f.key] or k in s.own.rel[f.key] for f in fs):
                    s.give(st, a)

    def generic(s, st, i, args, ret, fail):
        """a call about which nothing is known beyond its arguments"""
        s.retire(st, i.id)
        args = [s.val(st, o) for o in i.a[1:]]
        lent = s.lent(i, args)
        bl = s.blank(st, i, args)
        s.settle(st, i, args)
        for a in args:
            r = root(a)
            if r[0] in ("n",):
                continue
            if r[0] in ("al", "h", "arg", "ld", "lh", "s", "j"):
                for x in reach(st, [r]):
                    if x[0] == "h" and x in st.objs and not (x in lent and x == r):
                        s.entrust(st, x, r)
                st.havoc(r, s.tag(st, "call", i.id))
        out = []
        y = ("s", i.id, "r")
        if ret == "void":
            s.endow(st, i, bl)
            return [st]
        s.mark(st, y)
        if fail and ret.startswith("i"):
            ko = st.copy()
            ko.env[i.id] = y
            ko.assume(y, True)
            ko.failed = ko.failed or i.where
            ko.note("call at %s fails" % i.where)
            st.env[i.id] = y
            st.assume(y, False)
            s.endow(st, i, bl)
            return [st, ko]
        st.env[i.id] = y
        if not ret.startswith("i"):
            s.endow(st, i, bl)
        return [st]

    # ------------------------------------------------------------------
    def apply(s, st0, i, args0, sm):
        s.retire(st0, i.id)
        args = [s.val(st0, o) for o in i.a[1:]]
        out = []
        bl = s.blank(st0, i, args) if sm.generic else ()
        s.settle(st0, i, args)
        nd = len(sm.disj)
        for di, d in enumerate(sm.disj):
            st = st0.copy() if di < nd - 1 else st0
            memo = {}
            tag = di

            def iv(v):
                r = memo.get(v)
                if r is None:
                    r = memo[v] = iv2(v)
                return r

            def iv2(v):
                k = v[0]
                if k == "arg":
                    return args[v[1]] if v[1] < len(args) else ("s", i.id, ("a", v[1]))
                if k in ("c", "g", "n", "f", "k"):
                    return v
                if k == "ld":
                    b, o = addr(iv(v[1]))
                    r = st.load(b, o + v[2])
                    return r if depth(r) <= MAXDEPTH + 1 else ("s", i.id, ("d", v[1:3]))
                if k == "p":
                    return addoff(iv(v[1]), v[2])
                if k == "el":
                    vo, c = {}, 0
                    for x, sc in v[2]:
                        l, cc = linear(iv(x)) if isinstance(x, tuple) else ({x: 1}, 0)
                        c += cc * sc
                        for t, f in l.items():
                            vo[t] = vo.get(t, 0) + f * sc
                    return addoff(el(iv(v[1]), {t: f for t, f in vo.items() if f}), c)
                if k == "op":
                    a = [iv(x) for x in v[2:] if isinstance(x, tuple)]
                    if v[1] == "eq":
                        return mkeq(a[0], a[1])
                    if v[1] == "not":
                        return mknot(a[0])
                    if v[1] == "slt" and a[0][0] == "c" and a[1][0] == "c":
                        return ("c", int(a[0][1] < a[1][1]))
                    if v[1] in ARITH:
                        return arith(v[1], st.value(a[0]), st.value(a[1]))
                    return v[:2] + tuple(a) if len(a) == len(v) - 2 else ("s", i.id, ("op", v))
                if k == "new":
                    return ("h", i.id, v[1])
                if k == "q":
                    return ("s", i.id, ("q", tag, v[1]))
                return ("s", i.id, ("z", v))

            ok = True
            for e, t in d["facts"]:
                x = iv(e)
                if d["frees"] and x[0] == "op" and x[1] == "and" and not isinput(x) and st.truth(x) is None:
                    st.unsure = True           # whether the flag is set is not known: no verdict on what follows
                if not st.assume(x, t):
                    ok = False; break
            if ok:
                for e, c in d["eqs"]:
                    if not st.assume(mkeq(iv(e), ("c", c)), True):
                        ok = False; break
            if not ok:
                continue
            for r in d["deref"]:
                if not s.checkptr(st, i, iv(r), "access in the called function"):
                    ok = False; break
            if not ok:
                continue
            frees = [iv(r) for r in d["frees"]]
            writes = [(iv(b), o, iv(v)) for b, o, v in d["writes"]]
            retv = iv(d["ret"]) if d["ret"] is not None else None
            hav = [iv(b) for b in d["havoc"]]
            dfl = [(iv(b), l) for b, l in d["dflt"]]
            newmem = [(iv(b), o, iv(v)) for b, o, v in d["newmem"]]
            for n, w in d["news"]:
                h = ("h", i.id, n)
                st.objs[h] = ("L", "%s (called at %s)" % (w, i.where))
                st.ver[h] = s.tag(st, "nw", i.id)
                s.mark(st, h)
            for x in frees:
                if not s.free(st, i, x):
                    ok = False; break
            if not ok:
                continue
            for x, g in sm.missed(di):             # another way through the callee, with the same outcome, frees it
                h = root(iv(x))
                if h[0] == "h" and h in st.objs and st.objs[h][0] == "L" and all(st.truth(iv(e)) in (t, None) for e, t in g):
                    st.esc = st.esc | {h}
            for r, g, exact in d["cfrees"]:
                x, sure, poss = iv(r), exact, True
                gg = []
                for e, t in g:
                    y = iv(e)
                    k = st.truth(y)
                    if k is None:
                        sure = False
                        gg.append((y, t))
                    elif k != t:
                        poss = False
                        break
                if not poss:
                    continue
                if sure:
                    if not s.free(st, i, x):
                        ok = False; break
                    continue
                h = root(x)
                if h[0] == "h" and h in st.objs and st.objs[h][0] == "L":
                    st.esc = st.esc | {h}
                elif isinput(h) and depth(h) <= 5 and all(isinput(y) and depth(y) <= 6 for y, t in gg) and len(st.cf) < 60:
                    st.cf = st.cf | {(h, frozenset(gg), exact)}
            if not ok:
                continue
            if hav:
                lent = s.lent(i, args)
            for b in hav:
                if root(b)[0] in ("c", "n"):
                    continue
                bb, o = addr(b)
                for x in reach(st, [root(bb)]):
                    if x[0] == "h" and x in st.objs and not (x in lent and x == root(bb)):
                        s.entrust(st, x, root(bb))
                st.havoc(bb, s.tag(st, "call", i.id))
            for b, l in dfl:
                bb, o = addr(b)
                if o == 0 and bb[0] not in ("c", "n"):
                    st.dropbase(bb)
                    st.dflt[bb] = l
            for b, o, v in writes:
                bb, o2 = addr(b)
                if bb[0] in ("c", "n"):
                    continue
                if depth(v) > MAXDEPTH + 2:
                    v = ("s", i.id, ("w", tag, o, depth(b)))
                if root(v)[0] in ("s", "h"):   # joined value, or a callee that knows that there is nothing of value there
                    old = st.mem.get((bb, o2 + o))
                    r = root(old) if old is not None else None
                    if r is not None and r[0] == "h" and r in st.objs and st.objs[r][0] == "L":
                        st.esc = st.esc | {r}
                st.store(bb, o2 + o, v)
            for b, o, v in newmem:
                bb, o2 = addr(b)
                st.store(bb, o2 + o, v)
            qs = {("s", i.id, ("q", tag, k)) for k in range(d["nq"])}
            if qs:
                s.mark(st, *qs)
            for k, t in d["qfacts"]:
                st.assume(("s", i.id, ("q", tag, k)), t)
            for h in d["escnews"]:
                st.esc = st.esc | {("h", i.id, h)}
            if retv is not None and i.ty != "void":
                if retv == C0 and i.ty == "ptr" and d["failed"]:
                    retv = ("n", i.where)
                st.env[i.id] = retv
            if not d["failed"] and bl:
                s.endow(st, i, bl)
            if d["failed"]:
                st.failed = st.failed or i.where
                st.note("%s fails at %s" % (s.prog.callee_name(i) or "call", i.where))
            if s.plugin and not s.plugin.applied(s, st, i, d, iv):
                continue
            out.append(st)
        return out

    # ------------------------------------------------------------------
    def inst(s, st, i):
        """executes one non-terminator; returns the resulting states"""
        op = i.op
        if op == "load":
            p = s.val(st, i.a[0])
            if not s.checkptr(st, i, p, "read"):
                return []
            b, o = addr(p)
            v = st.load(b, o)
            if depth(v) > MAXDEPTH:
                s.retire(st, i.id)
                v = ("s", i.id, "ld"); s.mark(st, v)
                b, o = addr(s.val(st, i.a[0]))
                if (b, o) not in st.mem:
                    st.mem[(b, o)] = v
            st.env[i.id] = v
            return [st]
        if op == "store":
            p = s.val(st, i.a[1])
            if not s.checkptr(st, i, p, "write"):
                return []
            v = s.val(st, i.a[0])
            b, o = addr(p)
            if st.soft:
                s.give(st, v, root(b))
            st.store(b, o, v)
            return [st]
        if op == "getelementptr":
            b = s.val(st, i.a[1])
            x = i.x
            if x is None or "off" not in x:
                s.retire(st, i.id)
                y = ("s", i.id, "gep"); s.mark(st, y); v = ("el", b, ((y, 1),))
            else:
                c, vo = x["off"], {}
                for o, sc in x["vo"]:
                    l, cc = linear(st.value(s.val(st, o)))
                    c += cc * sc
                    for t, f in l.items():
                        vo[t] = vo.get(t, 0) + f * sc
                vo = {t: f for t, f in vo.items() if f}
                v = addoff(el(b, vo) if vo else b, c)
            if depth(v) > MAXDEPTH + 2:
                s.retire(st, i.id)
                y = ("s", i.id, "gx"); s.mark(st, y)
                v = ("el", root(s.val(st, i.a[1])), ((y, 1),))
                if depth(v) > MAXDEPTH + 2:
                    v = y
            st.env[i.id] = v
            return [st]
        if op == "call":
            return s.call(st, i)
        if op == "icmp":
            p = i.a[0]
            a, b = st.value(s.val(st, i.a[1])), st.value(s.val(st, i.a[2]))
            if p in ("eq", "ne"):
                v = mkeq(a, b)
                if p == "ne":
                    v = mknot(v)
            else:
                if a[0] == "n": a = C0
                if b[0] == "n": b = C0
                k = p[1:]
                sg = "slt" if p[0] == "s" else "ult"
                x, y, neg = (a, b, False) if k == "lt" else (b, a, False) if k == "gt" else (a, b, True) if k == "ge" else (b, a, True)
                if x[0] == "c" and y[0] == "c":
                    q = x[1] < y[1] if sg == "slt" else (x[1] % 2**64) < (y[1] % 2**64)
                    v = ("c", int(q))
                elif x == y:
                    v = C0
                else:
                    v = ("op", sg, x, y)
                if neg:
                    v = mknot(v)
        elif op == "fcmp":
            v = ("op", "fc", ("k", i.a[0]), s.val(st, i.a[1]), s.val(st, i.a[2]))
        elif op in CASTS:
            if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
                v = ("op", op, s.val(st, i.a[0]))
            else:
                v = s.val(st, i.a[0])
                if op == "trunc" and i.ty == "i1":
                    pass
        elif op in ARITH:
            a, b = st.value(s.val(st, i.a[0])), st.value(s.val(st, i.a[1]))
            if op == "xor" and i.ty == "i1" and b in (("c", -1), ("c", 1)):
                v = mknot(a)
            else:
                v = arith(op, a, b)
        elif op == "alloca":
            v = ("al", i.id)
        elif op == "select":
            c = s.val(st, i.a[0])
            t = st.truth(c)
            if t is None:
                ko = st.copy()
                out = []
                if st.assume(c, True):
                    st.env[i.id] = s.val(st, i.a[1]); out.append(st)
                if ko.assume(c, False):
                    ko.env[i.id] = s.val(ko, i.a[2]); out.append(ko)
                return out
            v = s.val(st, i.a[1] if t else i.a[2])
        elif op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "frem"):
            v = ("op", op) + tuple(s.val(st, o) for o in i.a)
        elif op in ("freeze",):
            v = s.val(st, i.a[0])
        else:
            s.retire(st, i.id)
            v = ("s", i.id, "r"); s.mark(st, v)
        if depth(v) > MAXDEPTH:
            s.retire(st, i.id)
            v = ("s", i.id, "x"); s.mark(st, v)
        st.env[i.id] = v
        return [st]

    # ------------------------------------------------------------------
    def join(s, bb, a, b):
        """joins b into a (same key); returns the joined state or a itself when nothing changed"""
        st = a.copy()
        ch = False

        def J(loc):
            k = (bb, loc)
            n = s.jt.get(k)
            if n is None:
                n = s.jt[k] = len(s.jt)
            return ("j", n)
        new = {}

        def keep(y, v, w):
            """what both sides know about being zero holds of the joined value"""
            ta, tb = a.truth(v) if v is not None else None, b.truth(w) if w is not None else None
            t = ta if ta == tb else None
            old = new.get(y, t)
            new[y] = t if old == t else None

        def same(y, v, w):
            """two pointers into one block"""
            if v is None or w is None:
                return None
            r = root(v)
            return el(r, {y: 1}) if r[0] == "h" and root(w) == r else None

        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None:
                continue
            if v != w:
                y = J(("e", k))
                z = same(y, v, w)
                if z is not None:
                    if v != z:
                        st.env[k] = z; ch = True
                    new.setdefault(y, None)
                    continue
                if v != y:
                    st.env[k] = y; ch = True
                keep(y, v, w)
        for k in set(a.mem) | set(b.mem):
            v = a.mem.get(k); w = b.mem.get(k)
            if v is None:
                v = a.load(*k) if a.ver.get(k[0]) == b.ver.get(k[0]) else None
            if w is None:
                w = b.load(*k) if a.ver.get(k[0]) == b.ver.get(k[0]) else None
            if v is not None and v == w:
                if k not in a.mem and k in b.mem:
                    pass
                continue
            y = J(("m", k))
            z = same(y, v, w)
            if z is not None:
                if a.mem.get(k) != z:
                    st.mem[k] = z; ch = True
                new.setdefault(y, None)
                continue
            for z in (v, w):
                if z is not None:
                    r = root(z)
                    if r[0] == "h" and (r in a.objs or r in b.objs) and r not in st.esc:
                        # still referenced on one side only: stop tracking it as lost
                        st.esc = st.esc | {r}; ch = True
            if a.mem.get(k) != y:
                st.mem[k] = y; ch = True
            keep(y, v, w)
        for k in set(a.ver) | set(b.ver):
            if a.ver.get(k) != b.ver.get(k):
                t = ("jv", bb)
                if a.ver.get(k) != t:
                    st.ver[k] = t; ch = True
        for k in set(a.dflt) | set(b.dflt):
            if a.dflt.get(k) != b.dflt.get(k):
                t = ("jv", bb)
                if k in st.dflt:
                    del st.dflt[k]; ch = True
                if st.ver.get(k) != t:
                    st.ver[k] = t; ch = True
        for k, t in a.pc.items():
            if k not in new and b.pc.get(k) != t and b.truth(k) != t:
                st.pc.pop(k, None); ch = True
        for k, c in a.eqc.items():
            if k not in new and b.eqc.get(k) != c and b.value(k) != ("c", c):
                st.eqc.pop(k, None); ch = True
        for y, t in new.items():
            if a.truth(y) == t and y in (a.pc if t else a.eqc):
                continue
            if t is None:
                if st.pc.pop(y, None) is not None or st.eqc.pop(y, None) is not None:
                    ch = True
            else:
                st.pc.pop(y, None); st.eqc.pop(y, None)
                st.assume(y, t)
        for k, o in b.objs.items():
            if k not in st.objs:
                st.objs[k] = o; ch = True
        for k, o in a.objs.items():
            if k in b.objs and b.objs[k][0] != o[0]:
                st.objs.pop(k, None); ch = True
        e = st.esc | b.esc
        if e != st.esc:
            st.esc = e; ch = True
        for x in [x for x, y in st.soft.items() if b.soft.get(x) != y]:
            del st.soft[x]; ch = True
        for x in st.soft:
            p, q = st.at.get(x), b.at.get(x)
            if p and q != p:
                st.at[x] = p | q if q else frozenset(); ch = True
        if not b.via <= st.via:
            st.via = st.via | b.via; ch = True
        if a.deref != b.deref and a.deref & b.deref != a.deref:
            st.deref = a.deref & b.deref; ch = True
        if a.cf != b.cf:
            c = (a.cf & b.cf) | frozenset((r, g, False) for r, g, x in a.cf ^ b.cf)
            if c != a.cf:
                st.cf = c; ch = True
        u = a.used | b.used | frozenset(new)
        if u != a.used:
            st.used = u
        return st if ch else a

    def arrive(s, bb, st):
        live = s.live[bb]
        if len(st.env) > len(live):
            st.env = {k: v for k, v in st.env.items() if k in live}
        if s.acc[bb]:
            y = [x for x in st.used if x[0] == "j" and s.jbb(x) == bb]
            if y:
                st.retire(y)
        if bb in s.heads or s.cnt[bb] >= MAXUNMERGED:
            k = st.key() if bb in s.heads or len(s.acc[bb]) >= MAXMERGED // 2 else st.xkey()
            if k not in s.acc[bb] and len(s.acc[bb]) >= MAXMERGED // 2:
                k = st.key()
            cur = s.acc[bb].get(k)
            if cur is None:
                if len(s.acc[bb]) >= MAXMERGED:  # too many kinds of state: merge what differs in what is released
                    s.truncated.add(s.fn.key)
                    k = ("coarse", st.failed is None, frozenset(st.ev.items()), st.unsure)
                    cur = s.acc[bb].get(k)
                    if cur is not None:
                        st = s.coarse(bb, cur, st)
                        if st is cur:
                            return
                s.acc[bb][k] = st
            else:
                m = s.join(bb, cur, st)
                if m is cur:
                    return
                s.acc[bb][k] = m
            s.pend[bb][("k", k)] = None
        else:
            f = st.fp()
            if f in s.seen[bb]:
                return
            s.seen[bb].add(f)
            s.cnt[bb] += 1
            s.pend[bb][("s", f)] = st

    def coarse(s, bb, a, b):
        """joins states which differ in the blocks they hold and in what they have released"""
        cf = {}
        for r, g, x in list(a.cf) + list(b.cf) + list(s.released([a, b])):
            cf[r] = cf[r] & g if r in cf else g
        cf = frozenset((r, g, False) for r, g in cf.items())
        b = b.copy()
        odd = {h for h in set(a.objs) | set(b.objs) if a.objs.get(h, (0,))[0] != b.objs.get(h, (0,))[0]}
        fr = {x: y for x, y in a.freed.items() if x in b.freed}
        b.esc = b.esc | odd
        m = s.join(bb, a, b)
        if m is a:
            if len(fr) == len(a.freed) and cf == a.cf:
                return a
            m = a.copy()
        m.freed = fr
        m.cf = cf
        return m

    def jbb(s, x):
        return s.jrev_get(x[1])

    def jrev_get(s, n):
        if len(s.jrev) != len(s.jt):
            s.jrev = {v: k[0] for k, v in s.jt.items()}
        return s.jrev[n]

    def analyze(s, fn):
        s.fn = fn
        s.lookedfn = None
        s.rpo, s.heads = dfs_order(fn)
        s.live = liveness(fn)
        pos = {b: n for n, b in enumerate(s.rpo)}
        s.acc = defaultdict(dict); s.cnt = defaultdict(int); s.seen = defaultdict(set); s.pend = defaultdict(dict)
        s.jt = {}; s.jrev = {}
        s.exits = {}
        st = State()
        for k in range(fn.nargs):
            st.env[k] = ("arg", k)
        if s.plugin:
            s.plugin.enter(s, st, fn)
        s.pend[0][("s", 0)] = st
        steps = 0
        nrep = len(s.reports)
        aborted = False
        while True:
            bb = None
            for b in s.rpo:
                if s.pend[b]:
                    bb = b; break
            if bb is None:
                break
            k = next(iter(s.pend[bb]))
            st = s.pend[bb].pop(k)
            if st is None:
                st = s.acc[bb][k[1]]
            states = [st.copy()]
            blk = fn.blocks[bb]
            for i in blk[:-1]:
                if i.op == "phi":
                    continue
                nxt = []
                for t in states:
                    steps += 1
                    nxt += s.inst(t, i)
                states = nxt
                if not states:
                    break
            if steps > STEPS:
                aborted = True
                s.truncated.add(fn.key)
                break
            t = blk[-1]
            for st in states:
                s.term(bb, t, st)
        s.stats["functions"] += 1
        s.stats["steps"] += steps
        # one report per (kind, site)
        seen = set(); keep = s.reports[:nrep]
        for r in s.reports[nrep:]:
            k = (r.kind, r.where, r.obj if isinstance(r.obj, str) else None, r.msg)
            if k not in seen:
                seen.add(k); keep.append(r)
        s.reports = keep
        s.summarize(fn, aborted)

    def edge(s, bb, to, st):
        """evaluates the phis of the target"""
        new = None
        for i in s.fn.blocks[to]:
            if i.op != "phi":
                break
            for v, p in i.a:
                if p == bb:
                    if new is None:
                        new = {}
                    new[i.id] = s.val(st, v)
                    break
        if new:
            st.env.update(new)
        s.arrive(to, st)

    def changed(s, st, c):
        """a field of the caller turns out to be what it was not before some call: too unlikely to conclude anything"""
        if not st.soft:
            return
        for x in flat(c) if c[0] == "op" else [c]:
            x = root(x)
            if x[0] == "lh" and root(x[1])[0] in ("arg", "ld"):
                t = st.truth(x)
                for y, u in st.pc.items():
                    y = root(y)
                    if y[0] in ("ld", "lh") and y != x and y[1:3] == x[1:3] and u != t:
                        st.soft = {}
                        return
                for y in st.eqc:
                    y = root(y)
                    if y[0] in ("ld", "lh") and y != x and y[1:3] == x[1:3] and t != (st.eqc[y] != 0):
                        st.soft = {}
                        return

    def term(s, bb, t, st):
        if t.op == "br":
            if len(t.a) == 1:
                return s.edge(bb, t.a[0], st)
            c = s.val(st, t.a[0])
            k = st.truth(c)
            if k is True or t.a[1] == t.a[2]:
                return s.edge(bb, t.a[1], st)
            if k is False:
                return s.edge(bb, t.a[2], st)
            if st.failed and s.protocol(c):    # a shared status compared in a way the domain does not follow
                st.unsure = True
            ko = st.copy()
            if st.assume(c, True):
                s.changed(st, c)
                s.edge(bb, t.a[1], st)
            if ko.assume(c, False):
                s.changed(ko, c)
                s.edge(bb, t.a[2], ko)
        elif t.op == "switch":
            c = s.val(st, t.a[0])
            v = st.value(c)
            if v[0] == "c":
                for cv, to in t.a[2:]:
                    if cv == v[1]:
                        return s.edge(bb, to, st)
                return s.edge(bb, t.a[1], st)
            for cv, to in t.a[2:]:
                q = st.copy()
                if q.assume(mkeq(c, ("c", cv)), True):
                    s.edge(bb, to, q)
            ok = True
            for cv, to in t.a[2:]:
                if not st.assume(mkeq(c, ("c", cv)), False):
                    ok = False; break
            if ok:
                s.edge(bb, t.a[1], st)
        elif t.op == "ret":
            s.exit(t, st)

    def protocol(s, c):
        if c[0] == "s" and len(c) == 3 and isinstance(c[2], tuple) and c[2][0] == "ar":
            return True
        return any(isinstance(x, tuple) and s.protocol(x) for x in c)

    def exit(s, t, st):
        ret = s.val(st, t.a[0]) if t.a else None
        s.stats["exit states"] += 1
        # leaks
        starts = [("g", "*")]
        if ret is not None:
            starts.append(ret)
        for (b, o), v in st.mem.items():
            r = root(b)
            if r[0] not in ("al", "h"):
                starts.append(v)
            elif r[0] == "h" and (r in st.esc and r not in st.soft or r not in st.objs):
                starts.append(r)
        if ret is not None:
            s.give(st, ret)
        for h in st.esc:
            if h not in st.soft:
                starts.append(h)
        rs = reach(st, starts)
        rt = reach(st, starts + list(st.esc)) if st.soft else rs
        for h, y in st.soft.items():
            if h not in rs and y not in rs and st.objs.get(h, " ")[0] == "L":
                s.report("leak", t, "block allocated at %s, in an object of this function, is not released when it returns" % st.objs[h][1], st, st.objs[h][1])
        for h, o in st.objs.items():
            if o[0] == "L" and h not in rt and h not in st.esc:
                s.report("leak", t, "block allocated at %s is neither released nor handed over when the function returns" % o[1], st, o[1])
        rv = None
        if ret is not None:
            rv = st.value(ret)
            if rv[0] not in ("c", "n"):
                k = st.truth(rv)
                rk = "nz" if k else "?"
                if rv[0] == "h" or root(rv)[0] == "h":
                    rk = "h"
            else:
                rk = rv[1] if rv[0] == "c" else 0
        else:
            rk = None
        if s.plugin:
            s.plugin.exit(s, t, st, rk)
        if st.failed is not None and rk == 0 and s.fn.ret.startswith("i"):
            s.report("swallow", t, "returns 0 although %s" % (st.trace[-1] if st.trace else st.failed), st, st.failed)
        st.env = {-1: ret} if ret is not None else {}
        # forget what dies with the frame
        for k in [k for k in st.mem if root(k[0])[0] == "al"]:
            del st.mem[k]
        st.objs = {h: o for h, o in st.objs.items() if o[0] == "L" and (h in rs)}
        k = (rk, st.key())
        cur = s.exits.get(k)
        if cur is None:
            s.exits[k] = st
        else:
            s.exits[k] = s.join("x", cur, st)

    # ------------------------------------------------------------------
    def summarize(s, fn, aborted):
        ex = s.exits
        if aborted or len(ex) > MAXDISJ * (3 if any(st.failed for st in ex.values()) else 40):
            fail = any(st.failed for st in ex.values()) or aborted
            s.sum[fn.key] = s.gensum(fn, fail)
            s.stats["generic summaries"] += 1
            return
        if len(ex) > MAXDISJ:                  # merge what differs only in released inputs and blocks
            m, grp = {}, {}
            for (rk, k), st in ex.items():
                grp.setdefault((rk, st.failed is None, frozenset(st.ev.items())), []).append(st)
            cf = {q: s.released(l) for q, l in grp.items()}
            for (rk, k), st in ex.items():
                q = (rk, st.failed is None, frozenset(st.ev.items()))
                if q in m:
                    for h in list(st.objs):
                        st.esc = st.esc | {h}
                    for h in list(m[q].objs):
                        m[q].esc = m[q].esc | {h}
                    fr = {x: y for x, y in m[q].freed.items() if x in st.freed}
                    m[q] = s.join("y", m[q], st)
                    m[q].freed = fr
                else:
                    m[q] = st
            for q, st in m.items():
                st.cf = frozenset((r, g, False) for r, g, x in st.cf if all(y[0] != r for y in cf[q])) | cf[q]
            ex = m
        disj = []
        for k, st in ex.items():
            rk = k[0]
            disj.append(s.disjunct(fn, rk, st))
        s.sum[fn.key] = Summary(disj)

    def conjunction(s, sites):
        """the release takes place exactly when a chain of conditions holds"""
        if len(sites) != 1:
            return False
        w = next(iter(sites))
        l = [i for i in s.fn.insts() if i.op == "call" and i.where == w]
        if len(l) != 1:
            return False
        if getattr(s, "cfgf", None) is not s.fn:
            from .cfg import CFG
            s.cfgf, s.cfg = s.fn, CFG(s.fn)
        b, n = l[0].bb, 0
        while n < 20:
            c = s.cfg.cdep.get(b, ())
            if not c:
                return True
            if len(c) > 1 or b in s.heads:
                return False
            b = next(iter(c))[0]
            n += 1
        return False

    def released(s, l):
        """what is released in some of the states only, and when"""
        out = set()
        for r in {r for st in l for r in st.freed if isinput(r) and depth(r) <= 5}:
            on = [st for st in l if r in st.freed]
            off = [st for st in l if r not in st.freed]
            if not off:
                continue
            g = None
            for st in on:
                f = {(e, t) for e, t in st.pc.items() if depth(e) <= 6 and isinput(e)} | {(mkeq(e, ("c", c)), True) for e, c in st.eqc.items() if depth(e) <= 6 and isinput(e)}
                g = f if g is None else {(e, t) for e, t in g if st.truth(e) == t}
            exact = all(any(st.truth(e) == (not t) for e, t in g) for st in off) or s.conjunction({st.freed[r] for st in on})
            out.add((r, frozenset(g), exact))
        return frozenset(out)

    def disjunct(s, fn, rk, st):
        q = {}
        qf = {}
        news = {}
        memo = {}

        def opq(v):
            if v not in q:
                q[v] = len(q)
                t = st.truth(v)
                if t is not None:
                    qf[q[v]] = t
            return ("q", q[v])

        def tr(v):
            r = memo.get(v)
            if r is None:
                r = memo[v] = tr2(v)
            return r

        def tr2(v):
            k = v[0]
            if k == "c" or k == "n":
                return v
            c = st.eqc.get(v)
            if c is not None:
                return ("c", c)
            if depth(v) > 6:
                return opq(v)
            if k in ("arg", "g", "f", "k"):
                return v
            if k == "ld":
                if isinput(v):
                    return v
                return opq(v)
            if k == "h":
                if v in st.objs:
                    if v not in news:
                        news[v] = len(news)
                    return ("new", news[v])
                return opq(v)
            if k == "p":
                return ("p", tr(v[1]), v[2])
            if k == "m":
                return ("el", tr(v[1]), ((("k", "m%s" % (v[2],)), 1),))
            if k == "el":
                return ("el", tr(v[1]), tuple((tr(x) if isinstance(x, tuple) else x, sc) for x, sc in v[2]))
            if k == "op":
                if isinput(v):
                    return v
                return opq(v)
            return opq(v)

        ret = st.env.get(-1)
        rt = tr(ret) if ret is not None else None
        if isinstance(rk, int) and ret is not None and rt[0] != "n":
            rt = ("c", rk)
        writes, havoc = [], []
        for (b, o), v in st.mem.items():
            if root(b)[0] in ("al", "h"):
                continue
            if isinput(b) and depth(b) <= 5:
                writes.append((b, o, tr(v)))
            else:
                r = root(b)
                while not isinput(r) and r[0] in ("ld", "lh") and isinstance(r[1], tuple):
                    r = root(r[1])
                rv = root(v)
                if rv[0] == "h" and rv in st.objs:
                    if rv not in news:
                        news[rv] = len(news)
        for b in st.ver:
            if isinput(b) and depth(b) <= 5 and b[0] != "g":
                havoc.append(b)
        dflt = []
        for b, l in st.dflt.items():
            if isinput(b) and depth(b) <= 4 and b[0] != "g":
                if all(x[2][0] == "c" for x in l):
                    dflt.append((b, l))
                elif b not in havoc:
                    havoc.append(b)
        if len(writes) > 80:
            havoc += [b for b, o, v in writes if b not in havoc]
            writes = []
            for h in list(st.objs):
                if h not in news:
                    news[h] = len(news)
            st.esc = st.esc | frozenset(st.objs)
        # objects reachable from what was handed out
        done = set(); newmem = []
        ch = True
        while ch:
            ch = False
            for (b, o), v in st.mem.items():
                r = root(b)
                if r[0] == "h" and r in news and (b, o) not in done:
                    done.add((b, o)); ch = True
                    newmem.append((tr(b), o, tr(v)))
        for h in st.objs:
            if h not in news:
                news[h] = len(news)
                st.esc = st.esc | {h}
        facts = [(e, t) for e, t in st.pc.items() if depth(e) <= 6 and isinput(e)]
        eqs = [(e, c) for e, c in st.eqc.items() if depth(e) <= 6 and isinput(e)]
        frees = [r for r in st.freed if isinput(r) and depth(r) <= 5]
        deref = [r for r in st.deref if isinput(r) and depth(r) <= 3]
        d = dict(ret=rt, writes=writes, havoc=havoc, dflt=dflt, frees=frees, cfrees=[x for x in st.cf if isinput(x[0])], news=[(n, st.objs[h][1]) for h, n in news.items()], newmem=newmem,
                 facts=facts, eqs=eqs, deref=deref, failed=st.failed, nq=len(q), qfacts=list(qf.items()), escnews=[news[h] for h in news if h in st.esc])
        if s.plugin:
            s.plugin.summarize(s, fn, st, d)
        return d

    def gensum(s, fn, fail):
        hav = [("arg", k) for k, a in enumerate(fn.args) if a[1] == "ptr"]
        base = dict(writes=[], havoc=hav, dflt=[], frees=[], cfrees=[], news=[], newmem=[], facts=[], eqs=[], deref=[], nq=1, escnews=[])
        ok = dict(base, ret=("q", 0) if fn.ret != "void" else None, failed=None, qfacts=[])
        out = [ok]
        if fail:
            out.append(dict(base, ret=("q", 0) if fn.ret != "void" else None, failed="?", qfacts=[(0, True)] if fn.ret.startswith("i") else []))
            if fn.ret.startswith("i"):
                ok["qfacts"] = [(0, False)]
        if s.plugin:
            for d in out:
                s.plugin.gensum(s, fn, d)
        return Summary(out, True)


if __name__ == "__main__":
    import sys, time, collections
    from .ir import Program
    t = time.time()
    p = Program()
    a = Analyzer(p).run()
    print("%.1fs" % (time.time() - t), dict(a.stats), "truncated", len(a.truncated))
    print(collections.Counter(r.kind for r in a.reports))
    import pickle
    pickle.dump(a.reports, open("/tmp/reports.pkl", "wb"))
