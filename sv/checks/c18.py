"""C18: the Fortran interface does what the C interface does."""
import os, re, subprocess
from ..main import V, Result, need
from .. import ast, build

PUBLIC = re.compile(r"^(SCOTCH_|METIS_|ParMETIS_|ParMETIS|SCOTCH_METIS_|SCOTCH_ParMETIS|SCOTCHMETIS|esmumps|ESMUMPS)", re.I)
COPY = {"strncpy": (0, 1), "memcpy": (0, 1), "strcpy": (0, 1), "memmove": (0, 1), "__builtin_memcpy": (0, 1)}
WRAP = {"fdopen", "dup", "MPI_Comm_f2c", "MPI_Type_f2c", "PMPI_Comm_f2c", "MPI_Comm_c2f"}
NODATA = {"graphgeom%s%s" % (a, b) for a in ("load", "save") for b in ("chac", "scot")} | {"graphgeomsavemmkt", "graphgeomsavehabo", "meshgeomloadscot", "meshgeomsavescot"}   # the C routine ignores its format data
NOCALL = {"graphdata": "returns array indices", "dgraphdata": "returns array indices", "meshdata": "returns array indices", "geomdata": "returns array indices"}


def norm(n):
    n = n.lower().rstrip("_")
    n = re.sub(r"^_+", "", n)
    if n.startswith("scotchf"):
        n = n[7:]
    elif n.startswith("scotch_"):
        n = n[7:]
    return n


def canon(t):
    return t.canon.replace("const ", "").replace("volatile ", "").replace("restrict", "").replace(" ", "") if t is not None else None


class Stub:
    def __init__(s, tu, f):
        s.tu, s.f = tu, f
        s.pid = {p[2]: k for k, p in enumerate(f["params"])}
        s.defs = {}
        s.calls = []
        for n in ast.walk(f["body"]):
            if n[0] == "decl":
                for v in n[3:]:
                    if v[4] is not None:
                        s.defs.setdefault(v[2], []).append(v[4])
            elif n[0] == "bin" and n[3] == "=":
                l = ast.strip(n[4])
                while l and (l[0] == "sub" or l[0] == "un" and l[3] == "*"):
                    l = ast.strip(l[3] if l[0] == "sub" else l[4])
                if l and l[0] == "ref":
                    s.defs.setdefault(l[5], []).append(n[5])
            elif n[0] == "call":
                c = ast.callee(n)
                s.calls.append((c, n))
                if c in COPY:
                    d = s.base(n[4 + COPY[c][0]])
                    if d is not None:
                        s.defs.setdefault(d, []).append(n[4 + COPY[c][1]])

    def base(s, n):
        n = ast.strip(n)
        while n and n[0] in ("sub", "un", "mem"):
            n = ast.strip(n[3] if n[0] in ("sub", "mem") else n[4])
        return n[5] if n and n[0] == "ref" else None

    def roots(s, n, seen=()):
        """parameters an expression's value comes from"""
        r = set()
        for x in ast.walk(n):
            if x[0] == "ref":
                if x[5] in s.pid:
                    r.add(s.pid[x[5]])
                elif x[5] in s.defs and x[5] not in seen:
                    for d in s.defs[x[5]]:
                        r |= s.roots(d, tuple(seen) + (x[5],))
        return r


def run(tier):
    out, samples = [], []
    cov = dict(stub_files=0, entry_points=0, name_variants=0, calls_matched=0, arguments=0, results=0, constants=0)

    for config in ("def", "i64"):
        protos, cfun = {}, {}
        tus = [t for t in ast.load(config) if t.name.startswith(("libscotch/", "libscotchmetis/", "esmumps/")) and "dummysizes" not in t.name]
        for tu in tus:
            if not tu.name.endswith("_f.c"):
                for f in tu.funcs:
                    if PUBLIC.match(f["name"]):
                        cfun.setdefault(norm(f["name"]), (tu, f))
        for tu in tus:
            if not tu.name.endswith("_f.c"):
                continue
            cov["stub_files"] += 1
            byname = {f["name"]: f for f in tu.funcs}
            for f in tu.funcs:
                name = f["name"]
                S = Stub(tu, f)
                where = "%s:%d" % (tu.name, f["line"])
                # name variants forward everything
                fw = [(c, n) for c, n in S.calls if c in byname and c != name and norm(c) == norm(name) and byname[c]["name"] != name]
                if fw and len(S.calls) == 1:
                    cov["name_variants"] += 1
                    n = fw[0][1]
                    got = [S.pid.get(ast.strip(a)[5]) if ast.strip(a)[0] == "ref" else None for a in n[4:]]
                    if got != list(range(len(f["params"]))):
                        out.append(V("variant:%s" % name, where, name, "does not pass its arguments unchanged and in order to %s" % fw[0][0]))
                    continue
                cov["entry_points"] += 1
                base = norm(name)
                pub = [(c, n) for c, n in S.calls if c and PUBLIC.match(c) and c not in byname and not c.startswith("SCOTCH_error")]
                own = [(c, n) for c, n in pub if norm(c) == base]
                if base in NOCALL:
                    used = set()
                    for n in ast.walk(f["body"]):
                        if n[0] == "ref" and n[5] in S.pid:
                            used.add(S.pid[n[5]])
                    continue
                if not own:
                    if base in cfun and pub:
                        out.append(V("callee:%s" % name, where, name, "calls %s instead of the routine it is the interface of" % ", ".join(sorted({c for c, n in pub}))))
                    continue
                if len(own) > 1:
                    pass
                c, n = own[0]
                cov["calls_matched"] += 1
                ct = cfun.get(base)
                last = -1
                used = set()
                line = "%s:%d" % (tu.name, n[1])
                cps = None
                ft = tu.ty(n[3])
                while ft is not None and ft.kind == "ptr":
                    ft = ft.elt
                cps = ft.extra if ft is not None and ft.kind == "func" else None
                for k, a in enumerate(n[4:]):
                    r = S.roots(a)
                    cov["arguments"] += 1
                    if not r:
                        continue
                    if ast.strip(a)[0] == "?:":          # optional arrays: designated by another argument when absent
                        r = S.roots(ast.strip(a)[4]) | S.roots(ast.strip(a)[5]) or r
                    m = min(r)
                    if m <= last:
                        out.append(V("order:%s" % name, line, name, "argument %d of %s (%s) is not the parameter the interface gives at that place" % (k + 1, c, ast.text(a))))
                    last = max(last, m)
                    used |= r
                    x = ast.strip(a)
                    if x[0] == "ref" and x[5] in S.pid or x[0] == "un" and x[3] == "*" and ast.strip(x[4])[0] == "ref" and ast.strip(x[4])[5] in S.pid:
                        at = tu.ty(x)
                        pt = cps[k] if cps and k < len(cps) else None
                        if pt is not None and pt.kind != "func" and at is not None:
                            if pt.kind == "int" and at.kind == "int" and pt.size != at.size:
                                out.append(V("type:%s:%d" % (name, k), line, name, "argument %d of %s is a %s given as a %s (%s)" % (k + 1, c, pt.sugar, at.sugar, config)))
                            if pt.kind == "ptr" and at.kind == "ptr" and pt.elt and at.elt and pt.elt.kind == at.elt.kind == "int" and pt.elt.size != at.elt.size:
                                out.append(V("type:%s:%d" % (name, k), line, name, "argument %d of %s points to %s but is given a pointer to %s (%s)" % (k + 1, c, pt.elt.sugar, at.elt.sugar, config)))
                for fc, fn_ in S.calls:
                    if fc == "fdopen" and len(fn_) > 5:
                        mode = ast.strip(fn_[5])
                        want = "r" if "load" in base else "w" if "save" in base or "view" in base else None
                        if want and mode[0] == "str" and not mode[3].startswith(want):
                            out.append(V("mode:%s" % name, "%s:%d" % (tu.name, fn_[1]), name, "opens its stream in mode \"%s\"" % mode[3]))
                rt = ft.elt if ft is not None else None
                rest = [k for k in range(len(f["params"])) if k not in used]
                allused = set()
                for x in ast.walk(f["body"]):
                    if x[0] == "ref" and x[5] in S.pid:
                        allused.add(S.pid[x[5]])
                unused = [k for k in range(len(f["params"])) if k not in allused]
                for k in unused:
                    if base not in NODATA or not f["params"][k][0].startswith("data"):
                        out.append(V("unused:%s:%s" % (name, f["params"][k][0]), where, name, "parameter \"%s\" is ignored" % f["params"][k][0]))
                if rt is not None and rt.kind != "void" and (rest and tu.name.startswith("libscotchmetis") or tu.name.startswith("libscotch/")):   # the METIS interface has no such argument
                    # the value is stored through some parameter
                    cov["results"] += 1
                    if not stored(S, n):
                        out.append(V("result:%s" % name, line, name, "the result of %s is not given back to the caller" % c))
                if len(samples) < 8 and cov["calls_matched"] % 31 == 0:
                    samples.append("%s -> %s (%d arguments)" % (name, c, len(n) - 4))
        # constants
        for hdr, fhdr in (("scotch.h", "scotchf.h"), ("ptscotch.h", "ptscotchf.h")):
            inc = build.include_dir(config)
            hp, fp = os.path.join(inc, hdr), os.path.join(inc, fhdr)
            need(os.path.exists(hp) and os.path.exists(fp), "no generated %s or %s" % (hdr, fhdr))
            C = macros(hp, config)
            for nm, val, ln in fparams(fp):
                if nm not in C:
                    continue
                cov["constants"] += 1
                cv = C[nm]
                if cv != val:
                    out.append(V("const:%s" % nm, "%s:%d" % (fhdr, ln), nm, "Fortran value %s, C value %s" % (val, cv)))
    need(cov["calls_matched"] >= 300 and cov["name_variants"] >= 900 and cov["constants"] >= 60, "too few stubs: %s" % cov)
    return Result(out, "every Fortran entry point, under each of its name manglings, calls the C routine of the same name with its own parameters in order and with the same integer widths, "
                  "uses all of them and gives the result back; the constants of the Fortran headers have the values of the C headers", cov, samples)


def stored(S, call):
    """the call's value reaches an assignment through a parameter"""
    vars_ = set()
    for n in ast.walk(S.f["body"]):
        src = dst = None
        if n[0] == "bin" and n[3] == "=":
            if any(x is call for x in ast.walk(n[5])):
                l = ast.strip(n[4])
                b = S.base(l)
                if b in S.pid and l[0] != "ref":
                    return True
                vars_.add(b)
        if n[0] == "decl":
            for v in n[3:]:
                if v[4] is not None and any(x is call for x in ast.walk(v[4])):
                    vars_.add(v[2])
        if n[0] == "return" and any(x is call for x in ast.walk(n)):
            return True
    for n in ast.walk(S.f["body"]):
        if n[0] == "bin" and n[3] == "=":
            l = ast.strip(n[4])
            if S.base(l) in S.pid and l[0] != "ref" and any(x[0] == "ref" and x[5] in vars_ for x in ast.walk(n[5])):
                return True
        if n[0] == "call" and ast.callee(n) in COPY and S.base(n[4]) in S.pid and any(x[0] == "ref" and x[5] in vars_ for x in ast.walk(n)):
            return True
    return False


def macros(path, config):
    r = subprocess.run([build.CLANG, "-E", "-dM", "-x", "c", "-include", "stdio.h", "-include", "stdint.h"] + build.mpi_flags() + [path], capture_output=True, text=True)
    if r.returncode:
        raise build.Broken("cannot preprocess %s: %s" % (path, r.stderr[:300]))
    d = {}
    for l in r.stdout.splitlines():
        m = re.match(r"#define (SCOTCH_\w+) (.+)$", l)
        if m:
            d[m.group(1)] = m.group(2)
    out = {}
    for k, v in d.items():
        for _ in range(4):
            v = re.sub(r"SCOTCH_\w+", lambda m: "(%s)" % d.get(m.group(0), m.group(0)), v)
        try:
            out[k] = int(eval(v.replace("L", ""), {"__builtins__": {}}))
        except Exception:
            pass
    return out


def fparams(path):
    txt = []
    for ln, l in enumerate(open(path, errors="replace"), 1):
        if l[:1] in "Cc*!" and not l.startswith("      "):
            continue
        txt.append((ln, l))
    for ln, l in txt:
        for m in re.finditer(r"PARAMETER\s*\(\s*(SCOTCH_\w+)\s*=\s*([0-9xXa-fA-FZz']+)\s*\)", l):
            v = m.group(2)
            try:
                yield m.group(1), int(v, 0) if not v.startswith(("z", "Z")) else int(v.strip("zZ'"), 16), ln
            except ValueError:
                pass
