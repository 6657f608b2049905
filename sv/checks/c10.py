"""C10: the library means the same whatever the width of its integers."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from .. import ast, build
from ..ir import Program, operands
from ..main import V, Result, need

FMT = """void SCOTCH_errorPrint (const char * const, ...) __attribute__((format(printf,1,2)));
void SCOTCH_errorPrintW (const char * const, ...) __attribute__((format(printf,1,2)));
"""
WARN = ["-Wno-everything", "-Wformat", "-Wno-format-security", "-Wno-format-zero-length", "-Wno-format-extra-args", "-Wincompatible-pointer-types", "-Wint-conversion"]


def inlib(unit):
    """libraries only; test programs kept among the sources are not part of them"""
    b = os.path.basename(unit)
    return not unit.startswith("scotch/") and not b.startswith(("test_", "main_", "dummysizes"))


def diagnostics(config, work):
    d, units = build.configure(config)
    h = os.path.join(work, "fmt-%d.h" % os.getpid())
    with open(h, "w") as f:
        f.write(FMT)
    units = [u for u in units if inlib(build.short(u[1]))]

    def one(u):
        p = subprocess.run([build.CLANG, "-fsyntax-only", "-std=gnu11", "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-include", h] + WARN + u[2] + [u[1]],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=build.ENV)
        return p.stdout.decode(errors="replace"), p.returncode, u[1]
    out = set()
    try:
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            for txt, rc, path in ex.map(one, units):
                for l in txt.splitlines():
                    m = re.match(r"(\S+?):(\d+):\d+: (warning|error): (.*)", l)
                    if m:
                        out.add((build.short(os.path.normpath(m.group(1))), int(m.group(2)), m.group(4)))
                    if m and m.group(3) == "error" and "[-W" not in m.group(4):
                        raise build.Broken("%s: %s" % (path, m.group(4)))
    finally:
        os.unlink(h)
    return out, len(units)


ALLOC = {"malloc": 0, "realloc": 1}
COPY = {"memcpy": (0, 1, 2), "memmove": (0, 1, 2), "memset": (0, None, 2)}


def sizeterms(n):
    """the sizeof factors of a size expression: list of types, or None when it has none"""
    n = ast.strip(n)
    if n is None:
        return []
    if n[0] == "sizeof":
        return [n]
    if n[0] == "bin":
        return sizeterms(n[4]) + sizeterms(n[5])
    if n[0] == "?:":
        return sizeterms(n[4]) + sizeterms(n[5])
    if n[0] == "un":
        return sizeterms(n[4])
    return []


COUNT = re.compile(r"(const )?(Gnum|Anum|INT|SCOTCH_Num)( const)?$")


def unscaled(tu, n):
    """a count that is added to a number of bytes, as in a - b * sizeof (T)"""
    n = ast.strip(n)
    if n is None or n[0] not in ("bin", "?:"):
        return None
    if n[0] == "?:" or n[3] in ("|", "&"):
        return unscaled(tu, n[4]) or unscaled(tu, n[5])
    if n[3] not in ("+", "-"):
        return None
    a, b = sizeterms(n[4]), sizeterms(n[5])
    if bool(a) != bool(b):
        o = ast.strip(n[5] if a else n[4])
        t = tu.ty(o) if o is not None else None
        if t is not None and ast.const(o) is None and COUNT.match(t.sugar or ""):
            return o
    return unscaled(tu, n[4]) or unscaled(tu, n[5])


def summed(n):
    n = ast.strip(n)
    return n is not None and (n[0] == "bin" and n[3] in ("+", "-") and bool(sizeterms(n[4])) and bool(sizeterms(n[5])) or
                              n[0] == "bin" and n[3] == "*" and (summed(n[4]) or summed(n[5])))


def pointee(tu, n):
    """pointee type of an argument before it was turned into void *"""
    n2 = n
    while n2[0] == "cast":
        t = tu.ty(n2)
        if n2[3] in ("BitCast", "ArrayToPointerDecay", "NoOp") and t is not None:
            s = n2[5]
            ts = tu.ty(s)
            if n2[3] == "ArrayToPointerDecay":
                return ts.elt
            n2 = s
            continue
        break
    t = tu.ty(n2)
    if t is None or t.kind != "ptr":
        return None
    return t.elt


def plain(t):
    return t is not None and t.kind in ("int", "enum", "float", "struct", "union", "ptr", "arr") and t.size > 1


def sizes_ok(tu, tgt, terms, atleast=False):
    """the block holds elements of tgt: one sizeof term names something of that very size (or no smaller, for a new block)"""
    for s in terms:
        ty = tu.types[s[3]]
        if atleast and ty.size >= tgt.size:
            return True
        if ty.kind == "struct" and ty.extra in tu.records and all(x[1].size == tgt.size or x[1].kind == "arr" and x[1].elt.size == tgt.size for x in tu.records[ty.extra]["fields"]):
            return True
        if ty.size == tgt.size or ty.size > 0 and tgt.size > 0 and tgt.kind == "arr" and tgt.elt.size == ty.size:
            return True
        if ty.kind == "arr" and ty.elt.size == tgt.size:
            return True
        if tgt.kind in ("struct", "union") and ty.kind in ("struct", "union") and ty.size >= tgt.size:
            return True
        t2 = tgt
        while t2 is not None and t2.kind in ("struct",) and t2.extra in tu.records and len(tu.records[t2.extra]["fields"]) >= 1:
            t2 = tu.records[t2.extra]["fields"][0][1]
            if t2.size == ty.size:
                return True
    return False


def allocations(tus, config, out, cov, samples):
    for tu in tus:
        if not inlib(tu.name):
            continue
        for f in tu.funcs:
            blk = {}                           # variable -> sizes its block was counted with
            for n in ast.walk(f["body"]):
                # T * p = (..) malloc (.. sizeof ..), in an assignment, cast or initialiser
                tgt = src = None
                if n[0] == "bin" and n[3] == "=":
                    tgt, src = tu.ty(n[4]), n[5]
                elif n[0] == "cast" and n[4] == 1:
                    tgt, src = tu.ty(n), n[5]
                if tgt is not None and tgt.kind == "ptr" and src is not None:
                    c = ast.strip(src)
                    if c is not None and c[0] == "call" and ast.callee(c) in ALLOC:
                        sz = c[4 + ALLOC[ast.callee(c)]]
                        terms = sizeterms(sz)
                        if plain(tgt.elt) and terms:
                            cov["allocations"] += 1
                            if not summed(sz) and not sizes_ok(tu, tgt.elt, terms, True):
                                out.append(V("alloc:%s:%s" % (f["name"], tgt.elt.canon), "%s:%d" % (f["file"], n[1]), f["name"],
                                             "block of %s elements sized with sizeof (%s): %d bytes against %d per element (%s integers)" %
                                             (tgt.elt.sugar, tu.types[terms[0][3]].sugar, tu.types[terms[0][3]].size, tgt.elt.size, config)))
                if n[0] != "call":
                    continue
                name = ast.callee(n)
                args = n[4:]
                for a in args:
                    if isinstance(a, list) and sizeterms(a):
                        cov["sizes"] = cov.get("sizes", 0) + 1
                        o = unscaled(tu, a)
                        if o is not None:
                            out.append(V("bytes:%s:%s" % (f["name"], ast.text(o)), "%s:%d" % (f["file"], n[1]), f["name"],
                                         "size given to %s adds the number of elements %s to a number of bytes" % (name, ast.text(o))))
                if name and name.endswith(("memAllocGroup", "memReallocGroup", "memOffset")):
                    a = args[1:] if not name.endswith("memAllocGroup") else args
                    k = 0
                    while k + 1 < len(a):
                        p = ast.strip(a[k])
                        if ast.isnull(p):
                            break
                        t = tu.ty(p[4]) if p[0] == "un" and p[3] == "&" else None
                        sz = a[k + 1]
                        terms = sizeterms(sz)
                        if t is not None and t.kind == "ptr" and plain(t.elt) and terms:
                            cov["allocations"] += 1
                            if p[4][0] == "ref":
                                blk.setdefault(p[4][5], set()).update(tu.types[s[3]].size for s in terms)
                            if not summed(sz) and not sizes_ok(tu, t.elt, terms, True):
                                out.append(V("alloc:%s:%s" % (f["name"], ast.text(p)), "%s:%d" % (f["file"], a[k + 1][1]), f["name"],
                                             "%s holds %s elements of %d bytes but is sized with sizeof (%s) = %d bytes (%s integers)" %
                                             (ast.text(p), t.elt.sugar, t.elt.size, tu.types[terms[0][3]].sugar, tu.types[terms[0][3]].size, config)))
                        k += 2
                elif name in COPY:
                    d, s, z = COPY[name]
                    terms = sizeterms(args[z])
                    if not terms or summed(args[z]):
                        continue
                    for x in (d, s):
                        if x is None:
                            continue
                        t = pointee(tu, args[x])
                        if plain(t):
                            cov["copies"] += 1
                            b = ast.strip(args[x])
                            if b[0] == "ref" and tu.types[terms[0][3]].size in blk.get(b[5], ()):
                                continue
                            if not sizes_ok(tu, t, terms) and not (ast.const(args[z]) is not None and t.kind in ("struct", "union", "arr") and ast.const(args[z]) <= t.size):
                                out.append(V("copy:%s:%s" % (f["name"], ast.text(args[x])), "%s:%d" % (f["file"], n[1]), f["name"],
                                             "%s of %s elements (%d bytes each) counted with sizeof (%s) = %d bytes (%s integers)" %
                                             (name, t.sugar, t.size, tu.types[terms[0][3]].sugar, tu.types[terms[0][3]].size, config)))


def bounded(fn, o, depth=0):
    """small by construction: masked, remainder, flag, or the narrowing of an originally 32-bit value"""
    if not isinstance(o, int):
        return True
    i = fn.inst.get(o)
    if i is None:
        return False
    if i.op in ("zext", "sext"):
        return prog_width(fn, i.a[0]) <= 32
    if i.op == "and":
        return any(isinstance(x, list) and x[0] == "i" and 0 <= x[1] < 2**31 for x in i.a)
    if i.op in ("srem", "urem"):
        return isinstance(i.a[1], list) and i.a[1][0] == "i" and 0 < i.a[1][1] < 2**31
    if i.op in ("xor", "or", "sub", "add", "phi", "select") and depth < 4:
        ops = operands(i) if i.op != "select" else i.a[1:]
        return all(bounded(fn, x, depth + 1) for x in ops)
    if i.op == "lshr" or i.op == "ashr":
        return False
    return False


def prog_width(fn, o):
    if isinstance(o, int):
        t = fn.args[o][1] if o < fn.nargs else fn.inst[o].ty
        m = re.match(r"i(\d+)$", t)
        return int(m.group(1)) if m else 64
    return 64


def narrowing(prog, mpi, out, cov, samples):
    for f in prog.funcs.values():
        if not inlib(f.unit.name) or f.unit.name in mpi or f.file.startswith("parser_") or "/common" in f.file:
            continue
        cov["centralised functions"] += 1
        nar = {}
        for i in f.insts():
            if i.op == "trunc" and i.ty == "i32" and not bounded(f, i.a[0]):
                nar[i.id] = i
                cov["narrowings"] += 1
        ch = bool(nar)
        while ch:
            ch = False
            for i in f.insts():
                if i.id not in nar and i.op in ("phi", "add", "sub", "mul", "select") and i.ty == "i32":
                    for o in operands(i):
                        if isinstance(o, int) and o in nar:
                            nar[i.id] = nar[o]; ch = True
                            break
        for i in f.insts():
            if i.op == "sext" and i.ty == "i64" and isinstance(i.a[0], int) and i.a[0] in nar:
                t = nar[i.a[0]]
                out.append(V("narrow:%s:%s" % (f.src, os.path.basename(f.file)), t.where, f.src,
                             "a 64-bit number is cut down to 32 bits here and used as a 64-bit number again at %s" % i.where))
                break
        # a 32-bit counter running up to a 64-bit bound
        for i in f.insts():
            if i.op != "icmp" or i.a[0] not in ("slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"):
                continue
            a, b = i.a[1], i.a[2]
            for x, y in ((a, b), (b, a)):
                xi = f.inst.get(x) if isinstance(x, int) else None
                if xi is None or xi.op not in ("sext", "zext") or xi.ty != "i64" or not isinstance(xi.a[0], int):
                    continue
                c = f.inst.get(xi.a[0])
                if c is None or c.op != "phi" or c.ty != "i32":
                    continue
                steps = [o for o in operands(c) if isinstance(o, int) and o in f.inst and f.inst[o].op == "add" and c.id in f.inst[o].a]
                if not steps:
                    continue
                if isinstance(y, list) or bounded(f, y):
                    continue
                cov["32-bit counters"] += 1
                out.append(V("counter:%s:%s" % (f.src, os.path.basename(f.file)), i.where, f.src,
                             "a 32-bit counter is run up to a 64-bit bound"))


def run(tier):
    out, cov, samples = [], dict(units=0, allocations=0, copies=0), []
    cov.update({"centralised functions": 0, "narrowings": 0, "32-bit counters": 0, "type and format diagnostics": 0})
    for config in ("def", "i64"):
        tus = ast.load(config)
        allocations(tus, {"def": "32-bit", "i64": "64-bit"}[config], out, cov, samples)
        diag, n = diagnostics(config, build.WORK)
        cov["units"] += n
        for f, l, m in sorted(diag):
            cov["type and format diagnostics"] += 1
            fn = enclosing(tus, f, l)
            out.append(V("type:%s:%s" % (fn, re.sub(r"\s*\[-W.*", "", m)[:80]), "%s:%d" % (f, l), fn, "%s (%s integers)" % (m, {"def": "32-bit", "i64": "64-bit"}[config])))
    mpi = {tu.name for tu in tus if any(fd[1].sugar == "MPI_Comm" for r in tu.records.values() for fd in r["fields"])}
    need(len(mpi) >= 50 and len(mpi) < len(tus) - 150, "distributed units not told apart (%d)" % len(mpi))
    narrowing(Program("i64"), mpi, out, cov, samples)
    need(cov["allocations"] >= 400 and cov["copies"] >= 100, "too few sites found: %s" % cov)
    return Result(out, "under 32- and 64-bit integers alike, every block is allocated and copied with the size of the elements it holds, every format directive and pointer "
                  "argument has the type of what it is given, and the centralised library never narrows a graph number to 32 bits and uses it as a graph number again",
                  cov, samples)


def enclosing(tus, file, line):
    best = None
    for tu in tus:
        for f in tu.funcs:
            if f["file"] == file and f["line"] <= line and (best is None or f["line"] > best[0]):
                best = (f["line"], f["name"])
    return best[1] if best else "?"
