"""C24: any strategy string is either understood or refused."""
import os, re
from ..main import V, Result, need
from .. import ast, guard, build

MEMBER = {"concdat": "STRATNODECONCAT", "conddat": "STRATNODECOND", "emptdat": "STRATNODEEMPTY", "methdat": "STRATNODEMETHOD", "seledat": "STRATNODESELECT"}
VALUE = {"valdbl": "STRATPARAMDOUBLE", "valint": "STRATPARAMINT", "vallog": "STRATPARAMLOG"}
STORES = {"int": ("STRATPARAMCASE", "STRATPARAMINT"), "double": ("STRATPARAMDOUBLE",), "Strat *": ("STRATPARAMSTRAT",), "char *": ("STRATPARAMSTRING",)}   # without 64-bit integers


# ---- the grammar file
def grammar(path):
    """[(rule, [alternatives])]; alternative: list of ('sym', name, line) and ('act', text, line, last line)"""
    t = open(path, errors="replace").read()
    i = t.index("\n%%") + 3
    j = t.index("\n%%", i)
    line = t.count("\n", 0, i) + 1
    t = t[i:j]
    toks, k = [], 0
    while k < len(t):
        c = t[k]
        if c == "\n":
            line += 1; k += 1
        elif c.isspace():
            k += 1
        elif t.startswith("/*", k):
            e = t.index("*/", k) + 2
            line += t.count("\n", k, e); k = e
        elif c == "'":
            e = t.index("'", k + 2 if t[k + 1] == "\\" else k + 1) + 1
            toks.append(("sym", t[k:e], line)); k = e
        elif c in ":|;":
            toks.append((c, c, line)); k += 1
        elif c == "{":
            l0, d, s = line, 0, k
            while True:
                c = t[k]
                if c == "\n":
                    line += 1
                if t.startswith("/*", k):
                    e = t.index("*/", k) + 2
                    line += t.count("\n", k, e); k = e
                    continue
                if c in "\"'":
                    k += 1
                    while t[k] != c:
                        k += 2 if t[k] == "\\" else 1
                    k += 1
                    continue
                d += (c == "{") - (c == "}")
                k += 1
                if d == 0:
                    break
            toks.append(("act", t[s:k], l0, line))
        else:
            m = re.compile(r"[A-Za-z_]\w*").match(t, k)
            if not m:
                k += 1
                continue
            toks.append(("sym", m.group(0), line)); k = m.end()
    rules, cur = [], None
    for n, x in enumerate(toks):
        if x[0] == "sym" and n + 1 < len(toks) and toks[n + 1][0] == ":":
            cur = (x[1], [[]]); rules.append(cur)
        elif x[0] == ":" or x[0] == ";":
            continue
        elif x[0] == "|":
            cur[1].append([])
        elif cur is not None:
            cur[1][-1].append(x)
    return rules


def ymap(path):
    """line of the generated parser -> line of the grammar"""
    need(os.path.exists(path), "the generated parser is not where expected")
    out, cur = {}, None
    for k, l in enumerate(open(path, errors="replace"), 1):
        m = re.match(r'#line (\d+) "(.*)"', l)
        if m:
            cur = int(m.group(1)) if m.group(2).endswith(".y") else None
        elif cur is not None:
            out[k] = cur; cur += 1
    return out


def always(rules, sym, term, seen=()):
    """every text derived from the symbol contains the terminal"""
    if sym == term:
        return True
    alts = [a for r in rules if r[0] == sym for a in r[1]]
    if not alts or sym in seen:
        return False
    return all(any(x[0] == "sym" and always(rules, x[1], term, seen + (sym,)) for x in a) for a in alts)


def nonnull(facts, e):
    t = ast.text(e)
    for c, p, _ in facts:
        if isinstance(c, tuple):
            continue
        x = ast.strip(c)
        if x[0] == "bin" and x[3] in ("!=", "=="):
            a, b = x[4], x[5]
            if ast.isnull(a):
                a, b = b, a
            if ast.isnull(b) and ast.text(ast.strip(a)) == t and (x[3] == "!=") == p:
                return True
        elif ast.text(x) == t and p:
            return True
    return False


def run(tier):
    tus = [t for t in ast.load("def") if t.name.startswith(("libscotch/", "parser_"))]
    out, samples = [], []
    cov = dict(grammar_alternatives=0, error_dereferences=0, value_stores=0, saved_states=0, node_accesses=0, value_accesses=0, divisions=0)
    ypath = os.path.join(build.REPO, "src", "libscotch", "parser_yy.y")
    need(os.path.exists(ypath), "parser_yy.y is gone")
    rules = grammar(ypath)
    need(len(rules) > 10, "grammar not understood")
    yy = [(f, tu) for tu in tus for f in tu.funcs if f["name"].endswith("yyparse")]
    need(yy, "no yyparse")
    yf, ytu = yy[0]
    # by source line of the grammar
    lines = ymap(os.path.join(os.path.dirname(build.include_dir("def")), "libscotch", "parser_yy.c"))
    seen = set()
    for x in ast.walk(yf["body"]):
        if id(x) not in seen and isinstance(x, list):
            seen.add(id(x))
            x[1] = lines.get(x[1], -x[1])
    nodes = []
    guard.visit(yf["body"], lambda n, fa: nodes.append((n, fa)))
    cleared = {}
    for n, _ in nodes:
        if n[0] == "bin" and n[3] == "=" and n[4][0] == "mem" and n[4][6] == "ParserEnv_" and ast.isnull(n[5]):
            cleared[n[4][4]] = n[1]
    tokmap = {}
    for tu in tus:
        for g in tu.globals:
            if g["name"].endswith("stratmethtokentab") and g.get("init"):
                for k, c in enumerate(g["init"][3:]):
                    c = ast.strip(c)
                    if c is not None and c[0] == "int":
                        tokmap[k] = c[4]
    need(len(tokmap) >= 3, "stratmethtokentab not understood")
    for rule, alts in rules:
        for a in alts:
            cov["grammar_alternatives"] += 1
            acts = [x for x in a if x[0] == "act"]
            err = any(x[0] == "sym" and x[1] == "error" for x in a)
            # 1. after an error, the environment is in any of its states
            if err:
                for act in acts:
                    for n, fa in nodes:
                        if n[0] == "mem" and n[5] and act[2] <= n[1] <= act[3]:
                            b = ast.strip(n[3])
                            if b is not None and b[0] == "mem" and b[6] == "ParserEnv_" and b[4] in cleared:
                                cov["error_dereferences"] += 1
                                if not nonnull(fa, b):
                                    out.append(V("error:%s:%s" % (rule, b[4]), "libscotch/parser_yy.y:%d" % n[1], "yyparse", "the error action of %s uses %s, which is null while a nested part is being read (cleared at line %d), without testing it"
                                                 % (rule, ast.text(b), cleared[b[4]])))
            # 2. values go to parameters of their type
            for act in acts:
                lo = max(act[2], 1)
                for n, fa in nodes:
                    if not (act[2] <= n[1] <= act[3]) or n[0] != "bin" or n[3] != "=":
                        continue
                    d = n[4]
                    if d[0] != "un" or d[3] != "*" or not any(x[0] == "mem" and x[4] == "doffptr" for x in ast.walk(d)):
                        continue
                    ty = ytu.types[d[2]].sugar
                    par = STORES.get(ty, ())
                    cov["value_stores"] += 1
                    tested = [c for c, p, _ in fa if not isinstance(c, tuple) and p and ast.strip(c)[0] == "bin" and ast.strip(c)[3] == "==" and any(x[0] == "mem" and x[4] == "typeval" for x in ast.walk(c))]
                    tested += [c for c, p, _ in fa if not isinstance(c, tuple) and not p and ast.strip(c)[0] == "bin" and ast.strip(c)[3] == "!=" and any(x[0] == "mem" and x[4] == "typeval" for x in ast.walk(c))]
                    tested = [c for c in tested if not any(x[0] == "bin" and x[3] == "&" and ast.const(x[5]) not in (None, ~ENUM(ytu, "STRATPARAMDEPRECATED")) for x in ast.walk(c))]
                    tvals = {ast.const(ast.strip(c)[k]) for c in tested for k in (4, 5)}
                    if tvals & {ENUM(ytu, p) for p in par}:
                        continue
                    toks = {tokmap.get(ENUM(ytu, p)) for p in par} - {None, "VALSTRAT"}
                    syms = [x[1] for x in a if x[0] == "sym"]
                    hit = [t for t in toks if any(always(rules, s, t) for s in syms)]
                    if not hit:
                        out.append(V("store:%s:%s" % (rule, ty), "libscotch/parser_yy.y:%d" % n[1], "yyparse",
                                     "a value of type %s may be stored in a parameter of another type: the alternative %s can be met for any parameter and the action does not test its type" % (ty, " ".join(syms) or "(empty)")))
                    elif len(samples) < 4:
                        samples.append("%s: %s only from token %s" % (rule, ty, hit[0]))
            # 3. saved state is restored
            pos, saves = 0, {}
            for x in a:
                pos += 1
                if x[0] != "act":
                    continue
                txt = re.sub(r"/\*.*?\*/", "", x[1], flags=re.S)
                for m in re.finditer(r"\(?\$<SAVE>\$\)?\.(\w+)\s*=\s*penvptr->(\w+)", txt):
                    saves[(pos, m.group(1))] = (m.group(2), x[2])
                    cov["saved_states"] += 1
            if saves:
                done = set()
                for x in a:
                    if x[0] != "act":
                        continue
                    txt = re.sub(r"/\*.*?\*/", "", x[1], flags=re.S)
                    for m in re.finditer(r"penvptr->(\w+)\s*=\s*\(?\$<SAVE>(\d+)\)?\.(\w+)", txt):
                        k = (int(m.group(2)), m.group(3))
                        if k not in saves:
                            out.append(V("restore:%s:%s" % (rule, m.group(1)), "libscotch/parser_yy.y:%d" % x[2], "yyparse", "restores %s from a place where nothing was saved" % m.group(1)))
                        elif saves[k][0] != m.group(1):
                            out.append(V("restore:%s:%s" % (rule, m.group(1)), "libscotch/parser_yy.y:%d" % x[2], "yyparse", "restores %s from the saved %s" % (m.group(1), saves[k][0])))
                        done.add(k)
                for k, (f, l) in saves.items():
                    if k not in done:
                        out.append(V("restore:%s:%s" % (rule, f), "libscotch/parser_yy.y:%d" % l, "yyparse", "saves %s for the nested part but never restores it" % f))
    # 4. tagged unions; 5. divisions
    for tu in tus:
        base = os.path.basename(tu.name)
        for f in tu.funcs:
            src = os.path.basename(f["file"])
            if not (src.startswith("parser") or src.endswith("_st.c")):
                continue
            tags(f, tu, out, cov)
    need(cov["node_accesses"] >= 60 and cov["value_accesses"] >= 10, "strategy nodes are no longer accessed as expected")
    need(cov["error_dereferences"] or not any(x[0] == "sym" and x[1] == "error" for r in rules for a in r[1] for x in a), "error actions not understood")
    return Result(out, "error actions of the grammar test the state pointers that nested parts clear; a value is stored in a parameter only when the token or a test fixes the parameter's type; nested parts restore what they save; "
                  "members of strategy and condition nodes are only used under the tag that selects them; evaluated conditions never divide by an untested value", cov, samples)


def tagof(facts, base, field):
    """enumerators that the tag base.field may have here, or None"""
    want = {base + "->" + field, base + "." + field}
    r = None
    for c, p, _ in facts:
        if isinstance(c, tuple) and c[0] == "case":
            if ast.text(c[1]) in want:
                r = set(c[2])
        elif not isinstance(c, tuple):
            x = ast.strip(c)
            if x[0] == "bin" and x[3] in ("==", "!="):
                a, b = ast.strip(x[4]), ast.strip(x[5])
                if ast.const(a) is not None:
                    a, b = b, a
                if ast.text(a) in want and ast.const(b) is not None:
                    if (x[3] == "==") == p:
                        r = {ast.const(b)}
                    else:
                        r = (r or set()) | {("not", ast.const(b))}
    return r


def tags(f, tu, out, cov):
    names = {}
    allnodes = []
    guard.visit(f["body"], lambda n, fa: allnodes.append((n, fa)))
    for n, _ in allnodes:
        if n[0] == "int" and isinstance(n[4], str):
            names[n[4]] = n[3]
    sets = {}                                   # tags assigned in the function: (text, line) -> values
    for n, fa in allnodes:
        if n[0] == "bin" and n[3] == "=" and n[4][0] == "mem" and n[4][4] in ("typeval", "testval", "nodeval"):
            sets.setdefault(ast.text(n[4]), []).append((n[1], ast.const(n[5]), n[5]))
    for n, fa in allnodes:
        if n[0] == "mem" and n[4] in MEMBER and n[3][0] == "mem" and n[3][4] == "data":
            cov["node_accesses"] += 1
            b = ast.text(n[3][3])
            want = ENUM(tu, MEMBER[n[4]])
            t = tagof(fa, b, "typeval")
            if t is not None and want is not None:
                bad = [x for x in t if (x[0] == "default" and want in x[1] if isinstance(x, tuple) else x != want)]
                if bad or ("not", want) in t:
                    out.append(V("tag:%s:%s" % (f["name"], n[4]), "%s:%d" % (f["file"], n[1]), f["name"], "uses %s of a strategy node whose type is not %s here" % (n[4], MEMBER[n[4]])))
                continue
            near = [s for k, l in sets.items() if k in (b + "->typeval", b + ".typeval") for s in l if abs(s[0] - n[1]) <= 12]
            if near and want is not None and not any(s[1] == want or s[1] is None for s in near):
                out.append(V("tag:%s:%s" % (f["name"], n[4]), "%s:%d" % (f["file"], n[1]), f["name"], "sets %s of a strategy node that is given another type" % n[4]))
        if n[0] == "mem" and n[4] in VALUE and n[3][0] == "mem" and n[3][4] == "val":
            cov["value_accesses"] += 1
            b = ast.text(n[3][3][3]) if n[3][3][0] == "mem" else None
            if b is None:
                continue
            want = ENUM(tu, VALUE[n[4]])
            t = tagof(fa, b, "nodeval")
            if t is not None and want is not None:
                bad = [x for x in t if (x[0] == "default" and want in x[1] if isinstance(x, tuple) else x != want)]
                if bad or ("not", want) in t:
                    out.append(V("value:%s:%s" % (f["name"], n[4]), "%s:%d" % (f["file"], n[1]), f["name"], "uses %s of a condition value that is not of type %s here" % (ast.text(n), VALUE[n[4]])))
        if n[0] == "bin" and n[3] in ("/", "%", "/=", "%="):
            ty = tu.ty(n)
            if ty is None or ty.kind != "int" or ast.const(n[5]) is not None:
                continue
            if not any(x[0] == "mem" and x[4] in VALUE for x in ast.walk(n[5])):
                continue
            cov["divisions"] += 1
            d = ast.text(ast.strip(n[5]))
            ok = False
            for c, p, _ in fa:
                if isinstance(c, tuple):
                    continue
                x = ast.strip(c)
                if x[0] == "bin" and ast.text(ast.strip(x[4])) == d and ast.const(x[5]) == 0:
                    ok = ok or x[3] == "==" and not p or x[3] in ("!=", ">") and p
                elif ast.text(x) == d and p:
                    ok = True
            if not ok:
                out.append(V("divide:%s" % f["name"], "%s:%d" % (f["file"], n[1]), f["name"], "divides by %s, which a strategy string can make zero, without testing it" % d))


_enum = {}


def ENUM(tu, name):
    if not _enum:
        for l in open(os.path.join(build.REPO, "src", "libscotch", "parser.h"), errors="replace"):
            m = re.match(r"\s*#\s*define\s+(STRATPARAM\w+)\s+(\d+)", l)
            if m:
                _enum[m.group(1)] = int(m.group(2))
        for t in ast.load("def", lambda b: "parser" in b):
            for f in t.funcs:
                for x in ast.walk(f["body"]):
                    if x[0] == "int" and isinstance(x[4], str):
                        _enum.setdefault(x[4], x[3])
        for k in list(MEMBER.values()) + list(VALUE.values()) + [p for v in STORES.values() for p in v]:
            need(k in _enum, "type " + k + " of the parser not understood")
    return _enum.get(name)
