"""Builds what the analyses read from /repo's current working tree: a scratch
CMake configuration (for the real flags and generated sources), LLVM bitcode of
every unit at -O0, and its export by tools/irx.cpp.  Everything lands in
/verif/.work, keyed by a hash of the sources, and is rebuilt when they change."""
import hashlib, json, os, pickle, re, shutil, subprocess, sys, time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SV_REPO", "/repo")
WORK = os.environ.get("SV_WORK", os.path.join(VERIF, ".work"))
CLANG = "/usr/bin/clang-18"
GXX = "/usr/bin/g++"
LLVMCONFIG = "/usr/bin/llvm-config-18"
ENV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C", CC="gcc", FC="gfortran",
           OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")


class Broken(Exception):
    """The analysis itself cannot run: reported as an error, never as a verdict."""


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd="/", **kw)
    if p.returncode != 0:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd)[:300], p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout.decode(errors="replace")


def filehash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def source_files():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds[:] = sorted(x for x in ds if x not in ("check", "_build"))
        for f in sorted(fs):
            if f.endswith((".c", ".h", ".y", ".l", ".txt", ".in", ".cmake")) or f.startswith("Makefile"):
                out.append(os.path.join(d, f))
    out.append(os.path.join(REPO, "CMakeLists.txt"))
    for d, ds, fs in os.walk(os.path.join(REPO, "cmake")):
        out += sorted(os.path.join(d, f) for f in fs)
    return [p for p in out if os.path.isfile(p)]


_treehash = None


def treehash():
    global _treehash
    if _treehash is None:
        _treehash = filehash(source_files() + [os.path.abspath(__file__)])
    return _treehash


def tool(name):
    """Compiles tools/<name>.cpp unless an up-to-date binary is there."""
    src = os.path.join(VERIF, "tools", name + ".cpp")
    d = os.path.join(WORK, "bin")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, name + "-" + filehash([src]))
    if not os.path.exists(out):
        flags = sh([LLVMCONFIG, "--cxxflags"]).split()
        flags = [f for f in flags if f != "-DNDEBUG" and not f.startswith("-std")]
        tmp = out + ".%d" % os.getpid()
        libs = ["-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
        if name == "astx":
            libs = ["-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
        sh([GXX, "-O1", "-fno-rtti", "-std=c++17"] + flags + ["-o", tmp, src] + libs)
        os.rename(tmp, out)
    return out


def prune(keep):
    """Keeps the few most recent trees only."""
    try:
        ds = [os.path.join(WORK, x) for x in os.listdir(WORK) if x.startswith("tree-")]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-4]:
            if d != keep:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


# Units the Makefiles build but CMakeLists.txt does not list.
EXTRA = ["libscotch/library_context_mesh.c", "libscotch/library_context_mesh_f.c", "libscotch/library_memory_f.c",
         "libscotch/library_graph_induce_f.c", "libscotch/hgraph_dump.c",
         "libscotch/graph_dump.c", "libscotch/library_graph_dump.c", "scotch/gdump.c"]


def configure(config="def"):
    """Returns (dir, [(target, file, [flags])]).  config: def (the installed
    configuration, without the debug self-checks), i64 (64-bit integers), dbg."""
    cm = "i64" if config == "i64" else "def"
    d = os.path.join(WORK, "tree-" + treehash())
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    prune(d)
    mark = os.path.join(d, "units-%s.json" % cm)
    if os.path.exists(mark):
        return d, json.load(open(mark))
    b = os.path.join(d, "b" if cm == "def" else "b-" + cm)
    shutil.rmtree(b, ignore_errors=True)
    sh(["/usr/bin/cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DBUILD_SHARED_LIBS=ON",
        "-DENABLE_TESTS=OFF", "-DCMAKE_C_FLAGS=-Wno-error"] + (["-DINTSIZE=64"] if cm == "i64" else []))
    sh(["/usr/bin/ninja", "-C", b, "scotch_h", "scotchf_h", "ptscotch_h", "ptscotchf_h", "parser_yy_c", "parser_ll_c",
        "metis_h", "metisf_h", "parmetis_h", "esmumps_h"])
    db = json.loads(sh(["/usr/bin/ninja", "-C", b, "-t", "compdb"]))
    units, seen = [], set()
    import shlex
    for e in db:
        f = e["file"]
        if not f.endswith(".c") or " -c " not in e["command"]:
            continue
        path = os.path.normpath(os.path.join(e["directory"], f))
        tgt = re.search(r"CMakeFiles/([^/]+)\.dir", e["command"])
        tgt = tgt.group(1) if tgt else "?"
        args = shlex.split(e["command"])
        flags, i = [], 1
        while i < len(args):
            a = args[i]
            if a in ("-I", "-isystem", "-D", "-include"):
                flags += [a, args[i + 1]]; i += 2; continue
            if a.startswith(("-I", "-D")):
                flags.append(a)
            elif a == "-pthread":
                flags.append(a)
            i += 1
        flags = [x for x in flags if x not in ("-DNDEBUG",)]
        key = (path, tuple(sorted(x for x in flags if not x.startswith("-Dscotch_EXPORTS") and not x.endswith("_EXPORTS"))))
        if key in seen:
            continue
        seen.add(key)
        units.append([tgt, path, flags])
    if len(units) < 300:
        raise Broken("only %d compile commands found" % len(units))
    have = set(u[1] for u in units)
    ref = next(u[2] for u in units if u[1].endswith("/libscotch/library_graph.c"))
    for x in EXTRA:
        p = os.path.join(REPO, "src", x)
        if os.path.exists(p) and p not in have:
            units.append(["extra", p, list(ref)])
    json.dump(units, open(mark + ".t", "w"))
    os.rename(mark + ".t", mark)
    return d, units


def include_dir(config="def"):
    """the generated public headers of a configuration"""
    d, _ = configure(config)
    return os.path.join(d, "b-i64" if config == "i64" else "b", "src", "include")


def mpi_flags():
    return ["-I/usr/lib/x86_64-linux-gnu/openmpi/include"]


def short(path, d=None):
    if path.startswith(REPO + "/src/"):
        return path[len(REPO) + 5:]
    m = re.search(r"/b(?:-i64)?/src/(.*)$", path)
    return m.group(1) if m else path


def _ir_one(a):
    irx, tgt, path, flags, out = a
    bc = out + ".bc"
    p = subprocess.run([CLANG, "-c", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-std=gnu11", "-w",
                        "-I/usr/lib/x86_64-linux-gnu/openmpi/include"] + flags + ["-o", bc, path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd="/")
    if p.returncode != 0:
        return path, "exit %d: %s" % (p.returncode, p.stdout.decode(errors="replace")[-1500:])
    p = subprocess.run([irx, bc], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    os.unlink(bc)
    if p.returncode != 0:
        return path, "exit %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-1500:])
    try:
        j = json.loads(p.stdout)
    except ValueError as e:
        return path, "irx output: %s" % e
    j["unit"] = short(path)
    j["target"] = tgt
    with open(out + ".t", "wb") as f:
        pickle.dump(j, f, protocol=pickle.HIGHEST_PROTOCOL)
    os.rename(out + ".t", out)
    return path, None


EXTRAFLAGS = {"def": [], "i64": [], "dbg": ["-DSCOTCH_DEBUG_ALL"]}


def _export(kind, one, config, files=None):
    d, units = configure(config)
    x = tool(kind)
    od = os.path.join(d, kind + "-" + config + "-" + os.path.basename(x)[-8:])
    os.makedirs(od, exist_ok=True)
    jobs, outs, names = [], [], {}
    for tgt, path, flags in units:
        base = short(path).replace("/", "_")
        n = names.get(base, 0); names[base] = n + 1
        out = os.path.join(od, base + ("-%d" % n if n else "") + ".pkl")
        outs.append(out)
        if not os.path.exists(out):
            jobs.append((x, tgt, path, flags + EXTRAFLAGS[config], out))
    if jobs:
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            bad = [r for r in ex.map(one, jobs) if r[1]]
        if bad:
            raise Broken("cannot compile %d unit(s): %s: %s" % (len(bad), bad[0][0], bad[0][1]))
    return outs


def ir_units(config="def"):
    """Exports the LLVM IR of every unit; returns the list of pickle paths."""
    return _export("irx", _ir_one, config)


BASEFLAGS = ["-std=gnu11", "-w", "-I/usr/lib/x86_64-linux-gnu/openmpi/include"]


def _ast_one(a):
    x, tgt, path, flags, out = a
    p = subprocess.run([x, path, "--"] + BASEFLAGS + ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18"] + flags, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd="/")
    if p.returncode != 0:
        return path, "exit %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-1500:])
    try:
        j = json.loads(p.stdout)
    except ValueError as e:
        return path, "astx output: %s" % e
    j["unit"] = short(path)
    j["target"] = tgt
    with open(out + ".t", "wb") as f:
        pickle.dump(j, f, protocol=pickle.HIGHEST_PROTOCOL)
    os.rename(out + ".t", out)
    return path, None


def ast_units(config="def"):
    """Exports the syntax trees of every unit; returns the list of pickle paths."""
    return _export("astx", _ast_one, config)


if __name__ == "__main__":
    for k in ("irx", "astx"):
        t = time.time(); tool(k); print("tool", k, "%.1fs" % (time.time() - t))
    for c in ("def", "i64"):
        t = time.time(); d, u = configure(c)
        print(d, len(u), "units %.1fs" % (time.time() - t))
    t = time.time(); o = ir_units(); print(len(o), "ir exported %.1fs" % (time.time() - t))
    for c in ("def", "i64"):
        t = time.time(); o = ast_units(c); print(c, len(o), "ast exported %.1fs" % (time.time() - t))
