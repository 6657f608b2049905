"""C15: the library leaves the process, its standard streams and the caller's streams alone."""
from ..main import V, Result, need
from .. import lib, ir

FORBID = {n: "ends or suspends the process" for n in ("exit", "abort", "_exit", "_Exit", "quick_exit", "raise", "kill", "longjmp", "_longjmp", "siglongjmp", "__assert_fail", "MPI_Abort", "pthread_exit", "pthread_cancel", "pthread_kill", "exit_group", "pause", "sleep", "usleep", "nanosleep")}
FORBID.update({n: "changes process-wide settings" for n in ("signal", "sigaction", "sigprocmask", "pthread_sigmask", "setlocale", "setenv", "putenv", "unsetenv", "clearenv", "chdir", "fchdir", "umask", "setrlimit", "srand", "srandom", "srand48", "atexit", "on_exit", "alarm", "dup2", "MPI_Init", "MPI_Init_thread", "MPI_Finalize", "mallopt", "feenableexcept", "fesetround", "freopen")})
FORBID.update({n: "writes on the standard output" for n in ("printf", "vprintf", "puts", "putchar", "putchar_unlocked", "perror")})
FORBID.update({n: "changes the file system or runs programs" for n in ("unlink", "remove", "rename", "rmdir", "mkdir", "truncate", "ftruncate", "system", "popen", "fork", "vfork", "execve", "execvp", "execl", "posix_spawn", "tmpfile", "mkstemp")})
ERRUNITS = ("libscotch/common_error.c", "libscotch/library_error.c", "libscotch/library_error_exit.c")   # the replaceable error handlers
OPENS = {"fopen", "dup", "pipe", "gzdopen", "BZ2_bzReadOpen", "BZ2_bzWriteOpen"}
CLOSES = {"fclose": 0, "close": 0, "gzclose": 0, "BZ2_bzReadClose": None}


def run(tier):
    out, samples = [], []
    cov = dict(functions=0, external_calls=0, stream_uses=0, closes=0, units=0)
    for config in ("def", "dbg"):
        p = lib.program(config)
        cov["units"] += len(p.units)
        callers = {}
        for f in p.funcs.values():
            for i in f.insts():
                if i.op == "call":
                    for c in p.callees(i):
                        callers.setdefault(c.key, []).append((f, i))
        for u in p.units:
            if u.name in ERRUNITS:
                continue
            for f in u.functions.values():
                if f.decl:
                    continue
                cov["functions"] += 1
                for i in f.insts():
                    if i.op == "call":
                        n = p.callee_name(i)
                        if n and not p.callee(i):
                            cov["external_calls"] += 1
                            if n in FORBID:
                                out.append(V("call:%s:%s" % (f.src, n), i.where, f.src, "%s: %s" % (n, FORBID[n])))
                            if n in CLOSES and CLOSES[n] is not None:
                                cov["closes"] += 1
                                src = own(p, callers, f, i.a[1], 0, set())
                                if src:
                                    out.append(V("close:%s" % f.src, i.where, f.src, "%s closes what the caller passed: %s" % (n, src)))
                    for o in ir.operands(i):
                        if isinstance(o, list) and o and o[0] == "g" and o[1] in ("stdout", "stderr", "stdin") :
                            cov["stream_uses"] += 1
                            if stream_ok(p, f, i, o[1], u):
                                continue
                            out.append(V("stream:%s:%s" % (f.src, o[1]), i.where, f.src, "the library uses the standard stream %s" % o[1]))
    need(cov["functions"] > 3000 and cov["closes"] > 100, "too little analysed: %s" % cov)
    return Result(out, "outside the replaceable error handlers, no library routine ends the process, changes process-wide settings, uses the standard streams or changes the file system; "
                  "what it closes, it opened or duplicated itself", cov, samples)


def stream_ok(p, f, i, name, u):
    # default streams of the file blocks of the stand-alone programs, and of the generated scanner, which then reads from memory
    return u.name == "libscotch/common_file.c" or "parser_ll" in u.name


def own(p, callers, f, o, depth, seen):
    """describes how a stream or descriptor may be the caller's own, or None"""
    for kind, x in lib.origins(f, o):
        if kind == "call":
            n = p.callee_name(x)
            if n == "fdopen" or n == "gzdopen":
                r = own(p, callers, f, x.a[1], depth, seen)
                if r:
                    return r
        elif kind == "arg":
            if (f.key, x) in seen or depth > 6:
                continue
            seen.add((f.key, x))
            if not f.internal and f.name.startswith(("SCOTCH_", "scotchf", "SCOTCHF", "METIS_", "ParMETIS_", "esmumps")) or f.name.endswith("_") and not f.internal:
                return "parameter %d of %s" % (x + 1, f.src)
            for cf, ci in callers.get(f.key, ()):
                if x + 1 < len(ci.a):
                    r = own(p, callers, cf, ci.a[x + 1], depth + 1, seen)
                    if r:
                        return r
        elif kind == "load":
            # Fortran: *fileptr
            for k2, y in lib.origins(f, x.a[0]):
                if k2 == "arg" and not f.internal and f.file.endswith("_f.c"):
                    return "unit %d of %s" % (y + 1, f.src)
    return None
