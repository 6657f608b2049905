"""C17: every target architecture class is complete and consistent."""
import re
from ..main import V, Result, need
from .. import ast, lib, must

OUT = {"domFrst": [1], "domTerm": [1], "domLoad": [1], "domBipart": [2, 3]}       # parameters that receive domains
ARCHPAR = {"archLoad", "archSave", "archFree", "domNum", "domTerm", "domSize", "domWght", "domDist", "domFrst", "domLoad", "domSave", "domBipart", "domIncl"}
DOMPAR = {"domNum": [1], "domTerm": [1], "domSize": [1], "domWght": [1], "domDist": [1, 2], "domFrst": [1], "domLoad": [1], "domSave": [1], "domBipart": [1, 2, 3], "domIncl": [1, 2]}
ALIAS = {"varcmplt": "Vcmplt", "varhcub": "Vhcub"}


def plain(n):
    return n.replace("_SCOTCH", "", 1) if n else n


def rowclass(name, seen):
    if name in ALIAS:
        return ALIAS[name]
    c = name[:-1] if re.search(r"\dD$|XD$", name) else name
    c = c[0].upper() + c[1:]
    c = c[:-1] + c[-1].upper() if c.endswith(("x", "X")) and name.endswith("D") else c
    return c + "2" if c in seen else c


def ptr(ty):
    """record behind a pointer parameter type"""
    m = re.match(r"^(?:const |struct |restrict )*(\w+?)_?(?: const| restrict)*\s*\*", ty.replace("restrict", "").replace("  ", " "))
    return m.group(1) if m else None


def cell(n):
    n = ast.strip(n)
    while n is not None and n[0] == "cast":
        n = ast.strip(n[5])
    return n


def run(tier):
    out, samples = [], []
    cov = dict(classes=0, slots=0, domain_results=0, mpi_types=0, constructors=0)
    for config in ("def", "i64"):
        one(config, out, samples, cov, config == "def")
    u = {}
    for v in out:
        u.setdefault(v.key, v)
    return Result(list(u.values()), "every row of the architecture tables names routines of its own class for every slot, that work on one architecture record and one domain record which the generic records can hold; "
                  "the domain size and the MPI datatype are those of the domain record; every routine that returns a domain sets all its fields; every constructor sets the class, the class's flags and data of the class's record",
                  cov, samples)


def one(config, out, samples, cov, main):
    tus = [t for t in ast.load(config) if t.name.startswith("libscotch/")]
    funcs, recs = {}, {}
    for tu in tus:
        for f in tu.funcs:
            funcs.setdefault(plain(f["name"]), (f, tu))
        for n, r in tu.records.items():
            if n.startswith("Arch"):
                recs.setdefault(n.rstrip("_"), r)
    tabs = {}
    for tu in tus:
        for g in tu.globals:
            if g.get("init") and plain(g["name"]) in ("archClassTab", "archMpiClassTab"):
                tabs.setdefault(plain(g["name"]), (g, tu))
    need("archClassTab" in tabs, "archClassTab is gone")
    need("archMpiClassTab" in tabs, "archMpiClassTab is gone")
    g, tu = tabs["archClassTab"]
    fl = [plain(f[0]) for f in tu.records["ArchClass_"]["fields"]]
    need("domsizeof" in fl and "domFrst" in fl, "ArchClass has other fields")
    where = tu.name
    gen, gend = recs["ArchDummy"], recs["ArchDomDummy"]
    rows, names, classes = [], {}, set()

    def bad(key, w, fn, msg, path=()):
        out.append(V(key, w, fn, msg, list(path)))

    for row in g["init"][3:]:
        cells = row[3:]
        nm = cell(cells[0])
        if nm is None or nm[0] != "str":
            break
        nm = nm[3]
        cls = rowclass(nm, classes)
        classes.add(cls)
        line = "%s:%d" % (where, row[1])
        if main:
            cov["classes"] += 1
        if nm in names and not (nm == "deco" and names[nm] == 1):
            bad("name:%s" % nm, line, "archClassTab", 'class name "%s" is given twice: the second class cannot be reached by name' % nm)
        names[nm] = names.get(nm, 0) + 1
        archs, doms = {}, {}
        slots = {}
        for k, sl in enumerate(fl):
            if sl in ("archname", "flagval", "domsizeof"):
                continue
            c = cell(cells[k]) if k < len(cells) else None
            fn = plain(c[3]) if c is not None and c[0] == "ref" else None
            if main:
                cov["slots"] += 1
            slots[sl] = fn
            own = "arch" + cls + ("Arch" + sl[4:] if sl.startswith("arch") else sl[0].upper() + sl[1:])
            if fn is None:
                if own in funcs or sl not in ("archLoad", "archSave", "archFree", "matchInit", "matchExit", "matchMate"):
                    bad("slot:%s:%s" % (nm, sl), line, "archClassTab", 'class "%s" has no routine for %s%s' % (nm, sl, ", although %s exists" % own if own in funcs else ""))
                continue
            if own in funcs and fn != own:
                bad("slot:%s:%s" % (nm, sl), line, "archClassTab", 'class "%s" uses %s for %s although it has %s' % (nm, fn, sl, own))
            suf = ("Arch" + sl[4:]) if sl.startswith("arch") else sl[0].upper() + sl[1:]
            if not fn.endswith(suf) and not (sl == "domWght" and fn.endswith("DomSize")):      # unweighted classes
                bad("role:%s:%s" % (nm, sl), line, "archClassTab", 'class "%s" uses %s, which is not a %s routine, for %s' % (nm, fn, suf, sl))
            if fn in funcs:
                f, ftu = funcs[fn]
                ps = [ftu.types[p[1]].sugar for p in f["params"]]
                if sl in ARCHPAR and ps:
                    archs.setdefault(ptr(ps[0]), []).append(fn)
                for d in DOMPAR.get(sl, []):
                    if d < len(ps):
                        doms.setdefault(ptr(ps[d]), []).append(fn)
        gena, gdn = {"ArchDummy", "Arch", None}, {"ArchDom", "ArchDomDummy", None}
        ra = {r: v for r, v in archs.items() if r not in gena}
        rd = {r: v for r, v in doms.items() if r not in gdn}
        for what, rs, holder, htxt in (("architecture", ra, gen, "ArchDummy"), ("domain", rd, gend, "ArchDomDummy")):
            # views of the same record (Mesh2 and MeshX) share its layout
            if len(rs) > 1:
                lay = {str([(x[0], str(x[1]), x[2]) for x in recs[r]["fields"]]) if r in recs else r: r for r in rs}
                big = max(rs, key=lambda r: (len(rs[r]), recs.get(r, {}).get("size", 0)))
                for r in rs:
                    if r != big and not prefix(recs.get(r), recs.get(big)):
                        bad("record:%s:%s" % (nm, what), line, rs[r][0], 'class "%s": %s uses %s record %s where %s uses %s' % (nm, rs[r][0], what, r, rs[big][0], big))
            for r in rs:
                if r in recs and recs[r]["size"] > holder["size"]:
                    bad("size:%s:%s" % (nm, what), line, rs[r][0], 'class "%s": %s record %s (%d bytes) does not fit %s (%d bytes)' % (nm, what, r, recs[r]["size"], htxt, holder["size"]))
                if r in recs and not any(ptr(str(x[1]) + " *") == r for x in holder["fields"]) and not any(prefix(recs[r], recs.get(ptr(str(x[1]) + " *"))) for x in holder["fields"]):
                    bad("member:%s:%s" % (nm, what), line, rs[r][0], 'class "%s": %s has no member of type %s' % (nm, htxt, r))
        k = fl.index("domsizeof")
        sz = ast.const(cells[k]) if k < len(cells) else None
        dom = max(rd, key=lambda r: len(rd[r])) if rd else None
        if dom and dom in recs and sz is not None and sz < recs[dom]["size"]:
            bad("domsize:%s" % nm, line, "archClassTab", 'class "%s": domains are declared to take %d bytes, %s takes %d' % (nm, sz, dom, recs[dom]["size"]))
        if sz is not None and sz > gend["size"]:
            if dom is not None:
                bad("domsize:%s" % nm, line, "archClassTab", 'class "%s": domains are declared to take %d bytes, ArchDomDummy takes %d' % (nm, sz, gend["size"]))
        arch = max(ra, key=lambda r: len(ra[r])) if ra else None
        rows.append((nm, cls, arch, dom, slots, line, sz, ast.const(cells[fl.index('flagval')])))
    need(len(rows) >= 12, "only %d architecture classes" % len(rows))
    # domains are set completely
    p = lib.program(config)
    by = {}
    for f in p.funcs.values():
        by.setdefault(plain(f.name), f)
    mw = must.Must(p, gend["size"])
    done = set()
    firsts = {}                                     # bytes of the domains that each class uses
    for nm, cls, arch, dom, slots, line, sz, _ in rows:
        if slots.get("domFrst") in by:
            m, loose = mw.summary(by[slots["domFrst"]], 1)
            if not loose:
                firsts[cls] = max(m) + 1 if m else 0
    for nm, cls, arch, dom, slots, line, sz, _ in rows:
        for sl, ks in OUT.items():
            fn = slots.get(sl)
            if fn is None or fn not in by or dom is None or dom not in recs or (fn, dom) in done:
                continue
            done.add((fn, dom))
            f = by[fn]
            for k in ks:
                m, loose = mw.summary(f, k)
                if main:
                    cov["domain_results"] += 1
                for fname, fty, off in recs[dom]["fields"]:
                    if not covered(recs[dom], fname, m, loose):
                        bad("unset:%s:%d:%s" % (fn, k, fname), "%s:%d" % (f.file, f.line), fn, "can succeed without setting field %s of the domain that it returns (parameter %d)" % (plain(fname), k + 1))
                if cls in firsts and not loose and not set(range(firsts[cls])) <= m and not any(v.key.startswith("unset:%s:%d:" % (fn, k)) for v in out):
                    bad("unset:%s:%d:" % (fn, k), "%s:%d" % (f.file, f.line), fn, "can succeed without setting byte %d of the domain that it returns (parameter %d)" % (min(set(range(firsts[cls])) - m), k + 1))
                if main and len(samples) < 6:
                    samples.append("%s parameter %d: %d bytes of %s certainly set" % (fn, k + 1, len(m), dom))
    # MPI datatypes
    g, tu = tabs["archMpiClassTab"]
    k = 0
    for row in g["init"][3:]:
        c = cell(row[3])
        if c is None or c[0] != "ref":
            break
        fn = plain(c[3])
        line = "%s:%d" % (tu.name, row[1])
        if k >= len(rows):
            bad("mpirow", line, fn, "there are more MPI rows than architecture classes")
            break
        nm, cls, arch, dom, slots, l2, sz, _ = rows[k]
        k += 1
        if fn not in funcs:
            continue
        f, ftu = funcs[fn]
        r = ptr(ftu.types[f["params"][0][1]].sugar)
        own = "arch%sDomMpiType" % cls
        if own in funcs and fn != own or r not in (arch, "ArchDummy") and arch is not None and not prefix(recs.get(r), recs.get(arch)) and not prefix(recs.get(arch), recs.get(r)):
            bad("mpirow:%s" % nm, line, fn, 'is the MPI datatype routine in the row of class "%s"' % nm)
            continue
        for n in ast.walk(f["body"]):
            if n[0] == "call" and plain(ast.callee(n)) == "archDomMpiTypeAnum" and dom in recs:
                v = ast.const(n[4])
                if main:
                    cov["mpi_types"] += 1
                a = 8 if config == "i64" else 4
                used = firsts.get(cls)
                if v is not None and (v * a > recs[dom]["size"] or used and v * a != used):
                    bad("mpisize:%s" % nm, "%s:%d" % (ftu.name, n[1]), fn, "describes %d bytes of domains that take %d" % (v * a, used or recs[dom]["size"]))
    if k < len(rows):
        bad("mpirow", tu.name, "archMpiClassTab", 'class "%s" has no MPI datatype routine' % rows[k][0])
    # constructors
    bynm = {}
    for r in rows:
        bynm.setdefault(r[0], r)
    for fn, (f, tu) in funcs.items():
        for n in ast.walk(f["body"]):
            if n[0] == "call" and plain(ast.callee(n)) == "archClass":
                a = cell(n[4])
                if a is None or a[0] != "str":
                    continue
                if main:
                    cov["constructors"] += 1
                line = "%s:%d" % (tu.name, n[1])
                if a[3] not in bynm:
                    bad("class:%s:%s" % (fn, a[3]), line, fn, 'asks for class "%s", which does not exist' % a[3])
                    continue
                arch = bynm[a[3]][2]
                every = {bynm[c[3]][2] for x in ast.walk(f["body"]) if x[0] == "call" and plain(ast.callee(x)) == "archClass" for c in [cell(x[4])] if c is not None and c[0] == "str" and c[3] in bynm}
                for m in ast.walk(f["body"]):
                    if m[0] == "cast":
                        t = ptr(tu.types[m[2]].sugar)
                        if t in recs and t not in ("Arch", "ArchDummy", "ArchDom", "ArchClass") and any(x[0] == "mem" and plain(x[4]) == "data" and (x[6] or "").rstrip("_") == "Arch" for x in ast.walk(m[5])):
                            if t not in every and not prefix(recs.get(t), recs.get(arch)) and not prefix(recs.get(arch), recs.get(t)):
                                bad("data:%s" % fn, "%s:%d" % (tu.name, m[1]), fn, 'sets data of record %s in an architecture of class "%s", which uses %s' % (t, a[3], arch))
                if not any(x[0] == "bin" and x[3] == "=" and ast.strip(x[4]) is not None and ast.strip(x[4])[0] == "mem" and plain(ast.strip(x[4])[4]) == "flagval" for x in ast.walk(f["body"])):
                    other = [c for x in ast.walk(f["body"]) if x[0] == "call" and plain(ast.callee(x)) in funcs for y in ast.walk(funcs[plain(ast.callee(x))][0]["body"])
                             if y[0] == "call" and plain(ast.callee(y)) == "archClass" for c in [cell(y[4])] if c is not None and c[0] == "str"]
                    if not any(c[3] in bynm and bynm[c[3]][7] == bynm[a[3]][7] for c in other):
                        bad("flag:%s" % fn, line, fn, 'sets class "%s" but not the flags of the class' % a[3])


def covered(rec, fname, m, loose):
    fs = sorted((x[2], x[0], str(x[1])) for x in rec["fields"])
    for k, (o, n, t) in enumerate(fs):
        if n != fname:
            continue
        end = fs[k + 1][0] if k + 1 < len(fs) else rec["size"]
        if o in m or any(o <= x < end for x in loose):
            return True
        return False
    return False


def prefix(a, b):
    """record a has the fields that record b begins with"""
    if a is None or b is None:
        return False
    fa, fb = a["fields"], b["fields"]
    return len(fa) <= len(fb) and all(x[0] == y[0] and str(x[1]) == str(y[1]) and x[2] == y[2] for x, y in zip(fa, fb))
