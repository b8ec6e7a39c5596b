"""C04: results do not depend on the history of calls."""
import re
import effects, gvn
from definit import Definit
from effects import Effects, strip, id_of
from terms import *

TITLE = "Results do not depend on the history of calls"
HIDDEN = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "strtok", "setlocale", "fesetround", "setenv", "putenv", "unsetenv", "omp_set_num_threads",
          "omp_set_dynamic", "omp_set_nested", "omp_set_schedule", "omp_set_max_active_levels", "chdir", "signal", "atexit", "at_quick_exit", "umask", "tmpnam", "localtime", "gmtime", "strerror"}
SETTER = re.compile(r"^(primesieve_)?set_")
RESET = {"clear", "assign", "reset", "swap", "operator=", "fill", "resize"}


def app(f):
    return "/app/" in f.file or f.file.endswith("src/test.cpp")


def run(ck):
    ck.rule("state", "process-wide variables are changed by the documented setters only")
    ck.rule("setter", "a setter stores a function of its arguments, whatever was set before, and no computing function calls one")
    ck.rule("static", "a function-local static is initialised from constants only; a namespace-scope variable is initialised without reading one that is not initialised yet")
    ck.rule("hidden", "no computing function uses library state that survives the call")
    ck.rule("reset", "re-positioning an iterator sets every member, using none of its old values; a new sieving run reads no result of the last one")
    ck.rule("together", "values that describe each other in a long-lived object are replaced together")
    ck.rule("memo", "a memoised value is stored under exactly the arguments it was computed for")
    ck.rule("init", "no variable or member is read before it has been given a value")
    prog = ck.prog
    E = Effects(prog)
    state(ck, prog, E)
    setters(ck, prog, E)
    statics(ck, prog, E)
    hidden(ck, prog)
    reset(ck, prog, E)
    together(ck, prog)
    memo(ck, prog)
    init(ck, prog)


def gname(k):
    k = str(k)
    m = re.search(r"(\w+?)E?(B5cxx11E?)?$", k)
    d = k.split("@")
    return d[0] if d[0] and not d[0].startswith("_Z") else re.sub(r"^.*?(\d+)([a-zA-Z]\w*?_?)E?(B5cxx11E?)?$", r"\2", k) if m else k


def mutable(g):
    t = g["decl"].type()
    return not (t is not None and t.const)


def label(g):
    return "%s (%s)" % (g["decl"].n, g["l"].rsplit(":", 1)[0])


def mentions(f, key):
    for n in f.walk():
        if n.k in ("DeclRefExpr", "MemberExpr"):
            d = n.decl()
            if d is not None and d.key == key:
                return n
    return None


def writers(prog, E):
    """{global: [(function, node)]}: functions naming a mutable global and writing it"""
    out = {k: [] for k, g in prog.globals.items() if mutable(g)}
    ref = {}
    for f in E.fns:
        for n in f.walk():
            if n.k in ("DeclRefExpr", "MemberExpr"):
                d = n.decl()
                if d is not None and d.key in out:
                    ref.setdefault(d.key, {})[f.key] = f
    for f in E.fns:
        for a in E[f].acc.values():
            if a.w and a.root[0] == "G" and a.root[1] in out and f.key in ref.get(a.root[1], ()):
                out[a.root[1]].append((f, a.node))
    return out


def state(ck, prog, E):
    W = writers(prog, E)
    ck.writers = W
    for k, ws in sorted(W.items(), key=lambda x: label(prog.globals[x[0]])):
        g = prog.globals[k]
        bad = {}
        for f, n in ws:
            if app(f) or SETTER.match(f.name):
                continue
            bad.setdefault(f.q, n)
        if not bad:
            ck.ok("state", label(g), "changed by %s" % (", ".join(sorted({f.q.split("::")[-1] for f, _ in ws})) or "nothing"))
        for q, n in bad.items():
            ck.viol("state", "%s in %s" % (label(g), q), "%s changes the process-wide variable %s at %s: what a later call returns depends on it" % (q, g["decl"].n, n.line if n is not None else "?"))
    # members that survive in constant objects
    for (q, ts), r in prog.records.items():
        if q.startswith("std::"):
            continue
        for fd in r["fields"]:
            if fd.get("mutable") or fd["decl"].get("mutable"):
                ck.und("state", "%s::%s" % (q, fd["decl"].n), "mutable member")


def setters(ck, prog, E):
    S = {}
    for k, ws in ck.writers.items():
        for f, n in ws:
            if SETTER.match(f.name) and not app(f):
                S[f.key] = f
    ch = True
    while ch:
        ch = False
        for f in E.fns:
            if f.key in S or app(f) or not SETTER.match(f.name) or f.decl.get("rec"):
                continue
            if any(prog.callee(n) is not None and prog.callee(n).key in S for n in f.walk() if n.k == "CallExpr"):
                S[f.key] = f
                ch = True
    for f in S.values():
        site = "%s %s" % (f.q, f.line)
        try:
            g = gvn.GVN(prog, opaque_pred=lambda x: x.q.startswith("std::"))
            g.run(f)
        except Exception as ex:
            ck.und("setter", site, "not summarised: %s" % ex)
            continue
        fin = g.final.mem if g.final is not None else {}
        for b, v in fin.items():
            if b[0] != "G" or b[1] not in prog.globals:
                continue
            old = [x for x in subterms(v) if x.op == "ld" and x.args[0][0] == "G" and x.args[0][1] in prog.globals and mutable(prog.globals[x.args[0][1]])]
            nm = prog.globals[b[1]]["decl"].n
            if old:
                ck.viol("setter", "%s: %s" % (site, nm), "the value stored in %s depends on %s as left by earlier calls: %s" % (nm, prog.globals[old[0].args[0][1]]["decl"].n, str(v)[:120]))
            else:
                ck.ok("setter", "%s: %s" % (site, nm), str(v)[:100])
    for f in E.fns:
        if app(f) or f.key in S:
            continue
        for n in f.walk():
            if n.k == "CallExpr":
                c = prog.callee(n)
                if c is not None and c.key in S:
                    ck.viol("setter", "%s calls %s" % (f.q, c.q), "%s calls the setter %s at %s: the setting outlives the call" % (f.q, c.q, n.line))
    if len(S) < 5:
        ck.und("setter", "setters", "only %d found" % len(S))


def dynamic(g):
    return g.get("init") is not None and g.get("value") is None


def statics(ck, prog, E):
    order = {}
    for i, (k, g) in enumerate(prog.globals.items()):
        order[k] = (g["l"].rsplit(":", 2)[0], int(g["l"].rsplit(":", 2)[1]))
    for k, g in prog.globals.items():
        x = g.get("init")
        if x is None or not hasattr(x, "walk"):
            continue
        site = label(g)
        if g.get("staticlocal"):
            if g.get("value") is not None:
                ck.ok("static", site, "constant")
                continue
            bad = None
            for n in x.walk():
                if n.k == "CXXThisExpr":
                    bad = (n, "this object")
                if n.k == "DeclRefExpr" and n.decl() is not None and not n.decl().is_function and n.decl().k != "EnumConstant":
                    d = n.decl()
                    if d.key in prog.globals:
                        if mutable(prog.globals[d.key]) and d.key != k and ck.writers.get(d.key):
                            bad = (n, "the changeable variable " + d.n)
                    elif d.k in ("Var", "ParmVar", "VarDecl") and not d.get("static") and not d.is_global and not inner(x, d):
                        bad = (n, d.n)
                if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr"):
                    c = prog.callee(n)
                    if c is not None and c.key in E.sum:
                        for a in E[c].acc.values():
                            if not a.w and a.root[0] == "G" and a.root[1] in ck.writers and ck.writers[a.root[1]]:
                                bad = (n, "the changeable variable %s" % prog.globals[a.root[1]]["decl"].n)
            if bad:
                ck.viol("static", site, "initialised from %s at %s: the value of the first call is kept for all later ones" % (bad[1], bad[0].line))
            else:
                ck.ok("static", site, "initialised from constants")
            continue
        if not dynamic(g):
            continue
        reads = {}
        for n in x.walk():
            if n.k == "DeclRefExpr" and n.decl() is not None and n.decl().key in prog.globals:
                reads[n.decl().key] = n
            if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXOperatorCallExpr"):
                c = prog.callee(n)
                if c is not None and c.key in E.sum:
                    for a in E[c].acc.values():
                        if a.root[0] == "G" and a.root[1] in prog.globals:
                            reads.setdefault(a.root[1], n)
        bad = None
        for r, n in reads.items():
            h = prog.globals[r]
            if r == k or not dynamic(h) or h.get("staticlocal"):
                continue
            if order[r][0] != order[k][0] or order[r][1] > order[k][1]:
                t = h["decl"].type()
                bad = (h, n)
        if bad:
            ck.viol("static", site, "its initialiser reads %s, which may not be initialised yet" % label(bad[0]))
        else:
            ck.ok("static", site, "initialiser reads %d variables, all initialised before it" % len(reads))


def inner(x, d):
    for n in x.walk():
        if n.k == "DeclStmt" and any(e.key == d.key for e, _ in n.a["decls"]):
            return True
        if n.k == "LambdaExpr":
            return True
    return False


def hidden(ck, prog):
    n0 = 0
    for f in prog.functions.values():
        if app(f):
            continue
        for n in f.walk():
            if n.k != "CallExpr":
                continue
            n0 += 1
            d = n.decl()
            if d is not None and d.n in HIDDEN and prog.callee(n) is None:
                ck.viol("hidden", "%s calls %s" % (f.q, d.n), "%s at %s uses state that survives the call" % (d.n, n.line))
            if d is not None and d.n == "global" and "locale" in (d.q or ""):
                ck.viol("hidden", "%s calls std::locale::global" % f.q, "changes the process-wide locale at %s" % n.line)
    ck.ok("hidden", "calls", "%d calls looked at" % n0)


class Reset(Definit):
    """reads of old member values, in a run that should not depend on them"""
    def call(self, n, S, o):
        # a container that is only asked for its size, or appended to, keeps its contents
        ob, an, d = self.parts(n)
        if ob is not None and d is not None and (d.q or "").startswith("std::"):
            p = self.lv(ob)
            if p is not None and any(p in u for u, _, _ in S):
                for a in an:
                    S = self.ev(a, S, o)
                if d.n in RESET and not (d.n == "resize" and not self.sz(ob)):
                    return self.assign(S, p)
                if d.n in ("get", "release", "operator bool", "operator*", "operator->"):
                    return S
                if "array<" in (ob.type().strip_ref().s if ob.type() is not None else ""):
                    return Definit.call(self, n, S, o) if d.n in ("fill",) else self.read(n, S, p)
                return self.read(n, S, p)
        return Definit.call(self, n, S, o)

    def sz(self, ob):
        return False


def recof(prog, q):
    for (n, ts), r in prog.records.items():
        if n == q:
            return r
    return None


def reset(ck, prog, E):
    # iterators
    for q, rec, param in (("primesieve::iterator::skipto", "primesieve::iterator", False), ("primesieve_skipto", "primesieve_iterator", True)):
        r = recof(prog, rec)
        fs = prog.fns(q=q)
        if r is None or not fs or fs[0].body is None:
            ck.und("reset", q, "not found")
            continue
        f = fs[0]
        names = [fd["decl"].n for fd in r["fields"]]
        if param:
            # memory the caller sees only after the next generate call; the handle of the
            # storage; the error flag, documented as sticky until primesieve_init()
            names = [n for n in names if n not in ("primes", "vector", "is_error")]
        this = ("T",)
        D = Reset(prog, False)
        D.root = f
        from definit import Frame, Out
        fr = Frame(f, None if param else this)
        if param:
            fr.env[("*", id_of(f.params[0]))] = this
        D.stack = [fr]
        D.released = True
        S = D.body(f, [(frozenset(this + (n,) for n in names), frozenset(), False)])
        left = set()
        for u, _, _ in S:
            left |= {p[1] for p in u if p[0] == "T"}
        rd = {}
        for (line, p), imp in D.reports.items():
            if p[1] not in ("primeGenerator", "primeGenerator_"):
                rd[p[1]] = line
        for n in names:
            site = "%s: %s" % (f.q, n)
            if n in rd:
                ck.viol("reset", site, "re-positioning uses the old value of %s at %s" % (n, rd[n]))
            elif n in left:
                ck.viol("reset", site, "re-positioning leaves %s at its old value on some path: the iterator does not behave like a new one" % n)
            else:
                ck.ok("reset", site, "set anew")
        # the values are those of a new iterator
        init_values(ck, prog, f, rec, param)
    # sieving runs
    for q in ("primesieve::PrimeSieve::sieve", "primesieve::ParallelSieve::sieve"):
        for f in prog.fns(q=q):
            if f.params or f.body is None:
                continue
            res = set()
            for a in E[f].acc.values():
                if a.w and a.root == ("T",) and a.path and a.path[0][0] == "f":
                    res.add(a.path[0][1])
            status = {n for n in res if statusonly(prog, n)}
            names = sorted(n for n in res if n not in status and n not in ("preSieve_", "parent_", "flags_", "sieveSize_"))
            types = {}
            for rn in ("primesieve::PrimeSieve", "primesieve::ParallelSieve"):
                r = recof(prog, rn)
                for fd in (r["fields"] if r else ()):
                    types[fd["decl"].n] = fd["decl"].type()
            D = Definit(prog, False)
            this = ("T",)
            un = set()
            for n in names:
                for p in (D.sub(types[n]) if n in types else [()]):
                    un.add(this + (n,) + p)
            D.root = f
            from definit import Frame
            D.stack = [Frame(f, this)]
            S = D.body(f, [(frozenset(un), frozenset(), False)])
            rd = {p[1]: (line, imp) for (line, p), imp in D.reports.items()}
            left = {p[1] for u, _, _ in S for p in u}
            for n in names:
                site = "%s: %s" % (q, n)
                if n in rd:
                    (ck.und if rd[n][1] else ck.viol)("reset", site, "a run uses the value of %s that the last run left (%s)" % (n, rd[n][0]))
                elif n in left and n == "counts_":
                    ck.viol("reset", site, "some path through a run leaves the counts of the last run in place")
                else:
                    ck.ok("reset", site, "set before it is used")
            if "counts_" not in names:
                ck.und("reset", q, "the counts are not recognised")


def statusonly(prog, field):
    seen = False
    for f in prog.functions.values():
        if not f.q.startswith(("primesieve::PrimeSieve::", "primesieve::ParallelSieve::")):
            continue
        for n in f.walk():
            if n.k == "MemberExpr" and n.decl() is not None and n.decl().n == field:
                seen = True
                if "tatus" not in f.name and f.name != "reset" and f.decl.k != "CXXConstructor":
                    return False
    return seen


def init_values(ck, prog, f, rec, param):
    """after re-positioning the cursor is that of a new iterator"""
    try:
        g = gvn.GVN(prog, opaque_pred=lambda x: x.q.startswith("std::"))
        g.run(f)
    except Exception as ex:
        return ck.und("reset", f.q + ": values", str(ex))
    vals = {}
    for e in g.events:
        if e.k == "store" and not e.loops:
            b, path = e.a["loc"]
            if path and path[-1][0] == "f":
                vals.setdefault(path[-1][1].rstrip("_"), []).append((e, e.a["val"]))
    ps = {p.n: i for i, p in enumerate(f.params)}
    for n, v in vals.items():
        e, t = v[-1]
        if e.pc:
            continue
        if n in ("i", "last_idx", "dist"):
            ck.same("reset", "%s: value of %s" % (f.q, n), t, C(0), "as in a new iterator")


def together(ck, prog):
    G = [("primesieve::PreSieve", ("maxPrime_", "primeProduct_", "size_", "buffer_"))]
    for rec, names in G:
        r = recof(prog, rec)
        have = {fd["decl"].n for fd in (r["fields"] if r else ())}
        if not set(names) <= have:
            ck.und("together", rec, "members not recognised")
            continue
        for f in prog.functions.values():
            if not f.q.startswith(rec + "::") or f.decl.k == "CXXConstructor" or f.body is None or f.name.startswith(("~", "operator=")):
                continue
            if f.decl.get("const"):
                continue
            D = Reset(prog, True)
            D.keep = True
            this = ("T",)
            from definit import Frame
            D.stack = [Frame(f, this)]
            D.root = f
            S = D.body(f, [(frozenset(this + (n,) for n in names), frozenset(), False)])
            bad = None
            for u, _, imp in S:
                k = {p[1] for p in u if p[0] == "T"}
                if k and len(k) != len(names) and not imp:
                    bad = k
            wrote = any(len(u) < len(names) for u, _, _ in S)
            if bad:
                ck.viol("together", f.q, "some path replaces %s but keeps the old %s" % (", ".join(n for n in names if n not in bad), ", ".join(sorted(bad))))
            else:
                ck.ok("together", f.q, "replaced together" if wrote else "none replaced")


def memo(ck, prog):
    fs = [f for f in prog.functions.values() if f.name == "phi" and "PhiCache" in f.q and f.body is not None]
    if not fs:
        return ck.und("memo", "PhiCache::phi", "not found")
    for f in fs:
        site = f.q + " " + ",".join(str(x) for x in (f.decl.get("targv") or []))
        try:
            g = gvn.GVN(prog, opaque_pred=lambda x: x.q.startswith("std::") or x.name in ("phi_tiny", "is_phi_tiny", "isqrt", "fast_div", "get_c") or x.name == "phi" and x.key != f.key)
            g.run(f, names=["x", "a"])
        except Exception as ex:
            ck.und("memo", site, str(ex))
            continue
        n = 0
        for e in g.events:
            if e.k != "store":
                continue
            b, path = e.a["loc"]
            t = str(path)
            if "cache_" not in t or not path or path[-1][0] != "i":
                continue
            n += 1
            ix = [x[1] for x in path if x[0] == "i"]
            names = {v.args[0] for i in ix for v in subterms(i) if v.op == "var"}
            if len(ix) == 2:
                ck.same("memo", site + " row", ix[0], mk("var", "a"), "row of the stored value", assume=e.pc)
                ck.same("memo", site + " column", ix[1], mk("var", "x"), "column of the stored value", assume=e.pc)
            else:
                ck.und("memo", site, "store into %s" % t[:80])
                continue
            # the value: what the call returns on this path
            pcs = set()
            for c in e.pc:
                pcs |= set(c.args) | {c} if c.op == "land" else {c}
            r = g.retval
            hit = []
            for _ in range(12):
                if r is None or r.op != "ite":
                    break
                c, a, b = r.args
                neg_ = bnot_(c)
                if any("cache_" in str(x) for x in subterms(a)) and "cache_" in str(c):
                    hit.append(a)
                if c in pcs:
                    r = a
                elif neg_ in pcs or all(y in pcs for y in (neg_.args if neg_.op == "land" else (neg_,))):
                    r = b
                else:
                    r = None
            v = e.a["val"]
            bits = None
            if v.op == "low":
                bits, v = v.args
            isabs = v.op == "call" and str(v.args[0]).endswith("abs") and len(v.args) == 2
            if isabs:
                v = v.args[1]
            if r is None:
                ck.und("memo", site, "return value on the path of the store not recognised")
            elif v == r or isabs and v == neg(r):
                ck.ok("memo", site, "the stored value is the result (without its sign)")
            elif not any(x.op in ("phi", "call", "opq") for x in subterms(sub(v, r))):
                ck.viol("memo", site, "the value stored at %s is %s, the result is %s" % (e.line, str(v)[:60], str(r)[:60]))
            else:
                ck.und("memo", site, "the value stored is %s" % str(v)[:80])
            if bits is not None:
                lim = [c for c in pcs if c.op in ("lt", "gt0", "ge0", "le") and mk("var", "x") in subterms(c) and not any(y.op in ("ld", "sel") for y in subterms(c))]
                good = any(isimplied(c, bits) for c in lim)
                ck.cond("memo", site + " width", True if good else None, "results above %d bits are not stored" % bits, "")
            sg = sign(g.retval)
            for h in hit:
                lds = [x for x in subterms(h) if x.op == "sel" and "cache_" in str(x) and x.args[1][0] == "i" and x.args[0].op == "sel" and x.args[0].args[1][0] == "i"]
                for x in lds:
                    ck.same("memo", site + " hit", x.args[1][1], mk("var", "x"), "column of the value returned on a hit")
                    ck.same("memo", site + " hit", x.args[0].args[1][1], mk("var", "a"), "row of the value returned on a hit")
                    if sg is not None:
                        ck.same("memo", site + " hit", h, mul(C(sg), x), "value returned on a hit, with the sign of the call")
        if not n:
            ck.und("memo", site, "no store into the cache recognised")


def sign(r):
    while r is not None and r.op == "ite":
        for b in (r.args[1], r.args[2]):
            if is_c(b) and cval(b) in (1, -1):
                return cval(b)
        r = r.args[2]
    return None


def isimplied(c, bits):
    """c bounds x by 2^bits"""
    x = mk("var", "x")
    return c == lt(x, C(1 << bits)) or same(land(c, le(C(1 << bits), x)), lt(C(1), C(0)))[0] is True


def init(ck, prog):
    rep = {}
    nv = steps = 0
    for opt in (True, False):
        for f in prog.functions.values():
            if f.body is None:
                continue
            D = Definit(prog, opt)
            try:
                D.run(f)
            except RecursionError:
                ck.und("init", f.q, "too deeply nested")
                continue
            if opt:
                nv += D.vars
                steps += D.steps
            for (line, p), imp in D.reports.items():
                nm = p[2][-1] if p[0] == "L" else p[1]
                k = (f.q.split("<")[0], line, name(f, p))
                if opt and not imp:
                    rep[k] = True
                else:
                    rep.setdefault(k, False)
    for (q, line, nm), sure in sorted(rep.items()):
        if sure:
            ck.viol("init", "%s: %s" % (q, nm), "%s is read at %s although some path does not give it a value" % (nm, line))
        else:
            ck.und("init", "%s: %s" % (q, nm), "may be read at %s without a value if a loop is not entered or if conditions are unrelated" % line)
    ck.ok("init", "local variables", "%d variables, %d expressions and statements in %d functions" % (nv, steps, len(prog.functions)))
    # members
    D0 = Definit(prog, True)
    cls = {}
    for (q, ts), r in prog.records.items():
        if q.startswith("std::") or "lambda" in q or "unnamed" in q:
            continue
        for f in D0.ctors(r):
            if f.decl.get("implicit") or f.body is None and not f.inits:
                continue
            D = Definit(prog, True)
            u = D.construct_root(f, r)
            for (line, p), imp in D.reports.items():
                nm = ".".join(p[1:])
                if imp:
                    ck.und("init", "%s: %s" % (f.q, nm), "may be read at %s" % line)
                else:
                    ck.viol("init", "%s: %s" % (f.q, nm), "the constructor reads %s at %s before it has a value" % (nm, line))
            cls.setdefault(q, (r, set()))[1].update(x for x in u if x[0] == "T")
    callers = {}
    for f in prog.functions.values():
        for n in f.walk():
            if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                c = prog.callee(n)
                if c is not None and c.key != f.key:
                    callers.setdefault(c.key, {})[f.key] = f
    nc = 0
    for q, (r, u) in cls.items():
        nc += 1
        if not u:
            ck.ok("init", q, "every constructor gives every scalar member a value")
            continue
        reads, sets, writes = {}, {}, {}
        for f in prog.functions.values():
            if not f.q.startswith(q + "::") and f.decl.get("rec") != q or f.body is None or f.decl.k in ("CXXConstructor", "CXXDestructor") or f.name.startswith("~") or f.name == q.split("::")[-1].split("<")[0]:
                continue
            D = Definit(prog, True)
            D.run(f, this=("T",), uninit=u)
            rd = set()
            for (line, p), imp in D.reports.items():
                if not imp and p in u:
                    reads.setdefault(p, {})[f.key] = (f, line)
                    rd.add(p)
            for p in D.written & u:
                writes.setdefault(p, {})[f.key] = f
                if p not in rd:
                    sets.setdefault(p, {})[f.key] = f
        for p in sorted(u):
            nm = ".".join(p[1:])
            if p not in reads:
                ck.ok("init", "%s: %s" % (q, nm), "never read before it is set")
                continue
            f, line = sorted(reads[p].values(), key=lambda x: x[1])[0]
            if p[-1] == "[]" and writes.get(p):
                ck.ok("init", "%s: %s" % (q, nm), "array filled by %s" % ", ".join(sorted({g.name for g in writes[p].values()})))
            elif any(reach(g, reads[p], q, callers, set()) for g in sets.get(p, {}).values()):
                ck.ok("init", "%s: %s" % (q, nm), "left open by the constructor, set by %s" % ", ".join(sorted({g.name for g in sets[p].values()})))
            else:
                ck.viol("init", "%s: %s" % (q, nm), "no constructor gives %s a value and %s reads it (%s) before any other member function can have set it" % (nm, f.q, line))


def reach(g, readers, q, callers, seen):
    """g can run on an object no reader has run on"""
    if g.key in readers or g.key in seen:
        return False
    seen.add(g.key)
    cs = callers.get(g.key, {})
    if not cs:
        return True
    return any(not (c.q.startswith(q + "::")) and c.decl.get("rec") != q or reach(c, readers, q, callers, seen) for c in cs.values())


def name(f, p):
    for n in f.walk():
        if n.k == "DeclStmt":
            for d, _ in n.a["decls"]:
                if p[0] == "L" and id_of(d) == p[2]:
                    return ".".join((d.n,) + tuple(p[3:]))
    return "member " + ".".join(str(x) for x in p[3:]) if p[0] == "L" else ".".join(p[1:])
