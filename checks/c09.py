"""C09: failures reach the user as an error, not as a result."""
from terms import *
from loops import *
from summ import Summ
from harness import short
from throws import Origins
import regions

TITLE = "Failures reach the user as an error, not as a result"

# constructs that raise only when the library's own invariants are broken (never for any input); they are reached from everywhere
INTERNAL = {
    "primesieve::MemoryPool::allocateBuckets": "memory for at least one aligned bucket was just allocated",
    "primesieve::MemoryPool::initBuckets": "memory for at least one aligned bucket was just allocated",
    "primesieve::PreSieve::init": "index into a table of constant size (C03)",
    "primesieve::store_n_primes": "fewer than 2^64 primes are requested by the callers inside parallel regions (n <= 9)",
    "primesum::generate_n_primes": "the callers inside parallel regions pass n <= PhiTiny::max_a()",
}
TERMINATE = {"abort": "", "terminate": "", "_exit": "", "quick_exit": "", "_Exit": "", "raise": "", "longjmp": "", "__assert_fail": ""}
MAYNULL = {"malloc", "realloc", "calloc", "align", "std::align", "std::malloc", "std::realloc", "std::calloc", "aligned_alloc", "std::aligned_alloc"}
CALLK = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")


def run(ck):
    ck.rule("region", "no exception leaves a parallel region (the OpenMP runtime would end the process); only constructs guarding internal invariants may raise there")
    ck.rule("task", "the outcome of every task handed to another thread is collected with get(), which passes on its exception")
    ck.rule("nothrow", "no exception leaves a destructor, a no-throw function or the initialiser of a namespace-scope variable")
    ck.rule("handler", "a handler ends in another exception, in a non-zero exit, or in a failure value which every caller tests; it never lets the computation carry on as if nothing had happened")
    ck.rule("diagnostic", "a handler that ends the program has printed a diagnostic or the usage text")
    ck.rule("main", "no exception leaves main; without an exception main returns 0")
    ck.rule("exit", "usage errors end the program with a non-zero status, and only the two programs' option handling ends the process at all")
    ck.rule("null", "the result of an allocation that reports failure by a null pointer is tested, and null is turned into an exception, before it is used")
    T = Origins(ck.prog)
    O = Outcomes(ck)
    parallel(ck, T)
    quiet(ck, T)
    handlers(ck, T, O)
    mains(ck, T, O)
    exits(ck, O)
    nulls(ck)


def where(f):
    return "%s %s" % (f.q, f.l)


def ours(f):
    return not f.file.startswith("/")


def chain(w):
    return " -> ".join(w) if w else "directly"


def parallel(ck, T):
    seen = set()
    for R in regions.regions(ck.prog):
        if not ours(R.fn):
            continue
        site = "%s %s" % (R.fn.q, R.line)
        if R.kind != "omp":
            task(ck, R, site)
            continue
        bad = 0
        for (t, o, l), w in sorted(T.inside(R.fn, R.body).items(), key=str):
            if t == "?":
                ck.und("region", site, "unknown whether %s raises" % chain(w))
                bad = 1
            elif t == "std::bad_alloc":
                if ("alloc", site) in seen:
                    continue
                seen.add(("alloc", site))
                bad = 1
                ck.viol("region", site, "std::bad_alloc can leave the parallel region: %s at %s" % (chain(w), l), key="bad_alloc leaves the parallel region of %s" % R.fn.file)
            elif o in INTERNAL:
                continue
            else:
                bad = 1
                ck.viol("region", site, "%s raised at %s (%s) can leave the parallel region: %s" % (t, l, o, chain(w)))
        if not bad:
            ck.ok("region", site, "no exception leaves the region")
    ck.assumptions.append("constructs guarding internal invariants never raise: " + "; ".join("%s (%s)" % x for x in INTERNAL.items()))


def task(ck, R, site):
    f = R.fn
    tasks = [n for n in f.walk() if n.k in CALLK and n.decl() is not None and n.decl().q.split("<")[0] in ("std::async", "std::thread::thread", "std::packaged_task")]
    gets = [n for n in f.walk() if n.k in CALLK and n.decl() is not None and n.decl().n == "get" and "future" in n.decl().q]
    waits = [n for n in f.walk() if n.k in CALLK and n.decl() is not None and n.decl().n in ("wait", "wait_for", "wait_until") and "future" in n.decl().q]
    raw = any(n.decl().q.startswith("std::thread") for n in tasks)
    if raw:
        ck.viol("task", site, "the task runs on a std::thread: an exception inside it ends the process")
    elif gets:
        ck.ok("task", site, "collected with get() at %s" % gets[0].line)
    elif waits:
        ck.viol("task", site, "the task is only waited for (%s), its exception is dropped" % waits[0].line)
    else:
        ck.und("task", site, "where the outcome of the task is collected")


def quiet(ck, T):
    n = 0
    for f in ck.prog.functions.values():
        if ours(f) and f.body is not None and T.nothrow(f):
            n += 1
            for (t, o, l), w in T.raw(f).items():
                if o in INTERNAL:
                    continue
                if t == "?":
                    ck.und("nothrow", where(f), "unknown whether %s raises" % chain(w))
                else:
                    ck.viol("nothrow", where(f), "%s raised at %s can leave a function that must not raise: %s" % (t, l, chain(w)))
    ck.ok("nothrow", "destructors and no-throw functions", "%d functions analysed" % n)
    m = 0
    for key, g in ck.prog.globals.items():
        d = g["decl"]
        if d.l.startswith("/") or g.get("init") is None or isinstance(g["init"], (int, str)):
            continue
        m += 1
        out = {}
        T.fn = [Dummy(d.q)]
        T.walk(g["init"], out, (), ())
        for (t, o, l), w in out.items():
            if t not in ("std::bad_alloc", "?"):
                ck.viol("nothrow", "%s %s" % (d.q, d.l), "%s raised at %s can leave the initialiser of a namespace-scope variable: %s" % (t, l, chain(w)))
    ck.ok("nothrow", "namespace-scope variables", "%d initialisers analysed (running out of memory before main is out of scope)" % m)


class Dummy:
    def __init__(self, q):
        self.q = q


class Outcomes:
    """in which ways a statement can end: 'fall', 'throw', ('exit', code), ('ret', value), 'jump'"""

    def __init__(self, ck):
        self.prog = ck.prog
        self.stack = []

    def cv(self, n, env):
        n = unwrap(n)
        if n is None:
            return None
        v = n.cv()
        if v is not None:
            return int(v)
        if n.k == "DeclRefExpr" and n.decl() is not None:
            return env.get(n.decl().key)
        if n.k in ("CXXBoolLiteralExpr", "IntegerLiteral"):
            return int(n.a.get("cv")) if n.a.get("cv") is not None else None
        if n.k == "ConditionalOperator":
            vs = {self.cv(x, env) for x in n.a["args"][1:]}
            if len(vs) == 1:
                return vs.pop()
        return None

    def calls(self, n, env):
        """outcomes other than 'fall' of evaluating an expression, and whether it can complete"""
        out, fall = set(), True
        if n is None or n.k == "LambdaExpr":
            return out, True
        for c in n.ch:
            o, f = self.calls(c, env)
            out |= o
            if n.k in ("BinaryOperator", "ConditionalOperator") and c is not n.ch[0] and n.get("op") not in ("&&", "||", None):
                fall = fall and f
            elif n.k == "ConditionalOperator" or n.get("op") in ("&&", "||"):
                fall = fall and (f or c is not n.ch[0])
            else:
                fall = fall and f
        if n.k == "CXXThrowExpr":
            return out | {"throw"}, False
        if n.k in CALLK:
            d = n.decl()
            if d is None or not d.is_function:
                return out, fall
            if d.n in ("exit", "_exit", "_Exit", "quick_exit") and d.q in (d.n, "std::" + d.n):
                a = n.a["args"][0] if n.a["args"] else None
                v = self.cv(a, env)
                if v is None and unwrap(a) is not None and unwrap(a).k == "ConditionalOperator":
                    vs = [self.cv(x, env) for x in unwrap(a).a["args"][1:]]
                    return out | {("exit", x) for x in vs}, False
                return out | {("exit", v)}, False
            if d.n in ("abort", "terminate"):
                return out | {("exit", 134)}, False
            f = self.prog.callee(n)
            if f is not None and f.body is not None and ours(f):
                args = n.a["args"]
                e2 = {}
                for p, a in zip(f.params, args):
                    v = self.cv(a, env) if a is not None else None
                    if v is None and unwrap(a) is not None and unwrap(a).k == "CXXDefaultArgExpr":
                        x = unwrap(a)
                        v = self.cv(x.ch[0], env) if x.ch else None
                    if v is not None:
                        e2[p.key] = v
                o = self.fn(f, e2)
                out |= {x for x in o if isinstance(x, tuple) and x[0] == "exit"}
                if not any(x == "fall" or isinstance(x, tuple) and x[0] == "ret" for x in o):
                    if "throw" in o:
                        out.add("throw")
                    fall = False
        return out, fall

    def fn(self, f, env):
        if any(g is f for g in self.stack) or len(self.stack) > 8:
            return {"fall"}
        self.stack.append(f)
        try:
            return self.st(f.body, env)
        finally:
            self.stack.pop()

    def seq(self, ss, env):
        out = set()
        for s in ss:
            o = self.st(s, env)
            out |= o - {"fall"}
            if "fall" not in o:
                return out
        return out | {"fall"}

    def truth(self, n, env):
        n = unwrap(n)
        if n is None:
            return None
        if n.k == "UnaryOperator" and n.get("op") == "!":
            v = self.truth(n.a["args"][0], env)
            return None if v is None else not v
        v = self.cv(n, env)
        return None if v is None else bool(v)

    def st(self, n, env):
        if n is None:
            return {"fall"}
        k = n.k
        if k == "CompoundStmt":
            return self.seq(n.ch, env)
        if k == "IfStmt":
            o, f = self.calls(n.a.get("cond"), env)
            if not f:
                return o
            v = self.truth(n.a.get("cond"), env)
            r = set(o)
            if v is not False:
                r |= self.st(n.a.get("then"), env)
            if v is not True:
                r |= self.st(n.a.get("else"), env)
            return r
        if k in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt"):
            o = set()
            for x in ("init", "cond", "inc", "range"):
                if hasattr(n.a.get(x), "ch"):
                    o |= self.calls(n.a[x], env)[0]
            b = self.st(n.a.get("body"), env)
            return o | (b - {"jump"}) | {"fall"}
        if k == "SwitchStmt":
            o, f = self.calls(n.a.get("cond"), env)
            r, live = set(o), False
            body = n.a.get("body")
            for s in (body.ch if body is not None else ()):
                if s.k in ("CaseStmt", "DefaultStmt"):
                    live = True
                if not live:
                    continue
                t = self.st(s, env)
                r |= t - {"fall", "jump"}
                live = "fall" in t
            return r | {"fall"}
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            return self.st(n.a.get("body") or (n.ch[-1] if n.ch else None), env)
        if k in ("BreakStmt", "ContinueStmt", "GotoStmt"):
            return {"jump"}
        if k == "ReturnStmt":
            a = n.ch[0] if n.ch else None
            o, f = self.calls(a, env) if a is not None else (set(), True)
            if not f:
                return o
            u = unwrap(a)
            if u is not None and u.k == "ConditionalOperator" and self.cv(u, env) is None:
                return o | {("ret", self.cv(x, env)) for x in u.a["args"][1:]}
            return o | {("ret", self.cv(a, env) if a is not None else None)}
        if k == "CXXTryStmt":
            b = self.st(n.a.get("body"), env)
            r = b - {"throw"}
            for h in n.a.get("handlers") or ():
                r |= self.st(h.a.get("body"), env)
            return r
        if k == "DeclStmt":
            out = set()
            for d, x in n.a["decls"]:
                o, f = self.calls(x, env)
                out |= o
                if not f:
                    return out
                v = self.cv(x, env) if x is not None else None
                if v is not None and d.type() is not None and d.type().const:
                    env[d.key] = v
            return out | {"fall"}
        if k.startswith("OMP"):
            return self.st(n.a.get("body"), env)
        o, f = self.calls(n, env)
        return o | ({"fall"} if f else set())


def unwrap(n):
    while n is not None and n.k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "MaterializeTemporaryExpr", "ConstantExpr") and n.a.get("args"):
        if n.a.get("cv") is not None:
            return n
        n = n.a["args"][0]
    return n


def stream(n):
    """the streams a statement writes to"""
    out = set()
    for x in n.walk():
        if x.k == "DeclRefExpr" and x.decl() is not None and x.decl().q in ("std::cerr", "std::cout", "std::clog"):
            out.add(x.decl().q)
        if x.k in CALLK and x.decl() is not None and x.decl().n in ("printf", "fprintf", "puts", "fputs", "perror"):
            out.add(x.decl().n)
    return out


def prints(ck, n, depth=4):
    s = stream(n)
    if s or depth == 0:
        return s
    for x in n.walk():
        if x.k in CALLK and x.decl() is not None and x.decl().is_function:
            f = ck.prog.callee(x)
            if f is not None and f.body is not None and ours(f):
                s |= prints(ck, f.body, depth - 1)
    return s


def tries(ck):
    for f in ck.prog.functions.values():
        if f.body is None or not ours(f):
            continue
        for n in f.walk():
            if n.k == "CXXTryStmt":
                yield f, n


def nonzero(o):
    return isinstance(o, tuple) and o[0] == "exit" and o[1] not in (None, 0)


def handlers(ck, T, O):
    status = {}
    seen = set()
    for f, n in tries(ck):
        if f.file.endswith(("api-c.cpp", "iterator-c.cpp")):
            ck.ok("handler", "%s %s" % (f.q, n.line), "reported through errno and the return value (C13)") if (f.q, n.line) not in seen else None
            seen.add((f.q, n.line))
            continue
        if (f.q, n.line) in seen:
            continue
        seen.add((f.q, n.line))
        for h in n.a.get("handlers") or ():
            site = "%s %s" % (f.q, h.line)
            out = O.st(h.a.get("body"), {})
            if f.q.startswith("primesieve::CpuInfo::"):
                ck.ok("handler", site, "what is known about the CPU only selects default sizes")
                continue
            rest = {x for x in out if x != "throw" and not nonzero(x)}
            if f.q == "main":
                rest = {x for x in rest if not (isinstance(x, tuple) and x[0] == "ret" and x[1] not in (None, 0))}
            zero = [x for x in rest if isinstance(x, tuple) and x[0] == "exit" and x[1] == 0]
            if zero:
                ck.viol("handler", site, "after a failure the program exits with status 0")
            elif any(isinstance(x, tuple) and x[0] == "exit" for x in rest):
                ck.und("handler", site, "the status with which the program exits after a failure")
            elif not rest:
                ck.ok("handler", site, "ends in %s" % ", ".join(sorted(map(str, out))))
            elif f.q == "main":
                if ("ret", 0) in rest:
                    ck.viol("handler", site, "main returns 0 after a failure")
                elif "fall" in rest:
                    fallmain(ck, O, f, n, h, site)
                else:
                    ck.und("handler", site, "what main returns after a failure: %s" % sorted(map(str, rest)))
            elif rest & {"fall", "jump"} and f.ret is not None and f.ret.s == "void":
                ck.viol("handler", site, "the failure is swallowed: %s carries on after the handler" % f.q)
            elif "fall" in rest:
                good = O.st(n.a.get("body"), {}) - {"fall", "throw"}
                ret = retafter(f, n)
                if any(isinstance(x, tuple) and x[0] == "ret" for x in good) and ret is None:
                    ck.und("handler", site, "what %s returns after a failure" % f.q)
                else:
                    swallow(ck, O, f, n, h, site, status)
            elif all(isinstance(x, tuple) and x[0] == "ret" for x in rest):
                fails = {x[1] for x in rest}
                succ = {x[1] for x in O.st(f.body, {}) if isinstance(x, tuple) and x[0] == "ret"} - fails
                if None in fails:
                    ck.und("handler", site, "the value returned after a failure")
                elif not succ:
                    ck.viol("handler", site, "%s returns the same value whether it failed or not" % f.q)
                elif None in succ and (f.ret is None or f.ret.s != "bool"):
                    ck.und("handler", site, "whether %s differs from every result of %s" % (fails, f.q))
                else:
                    status[f.key] = (f, fails, site)
                    ck.ok("handler", site, "returns the failure value %s" % sorted(fails))
            else:
                ck.und("handler", site, "ends in %s" % sorted(map(str, rest)))
            ends = [x for x in out if nonzero(x) or f.q == "main" or isinstance(x, tuple) and x[0] == "ret"]
            if ends and not (f.q != "main" and "throw" in out):
                s = prints(ck, h.a.get("body"))
                ck.cond("diagnostic", site, bool(s) or None if helper(ck, h) else bool(s), "prints to %s" % sorted(s), "the failure is not reported: nothing is printed before the program ends")
    for f, fails, site in status.values():
        callers(ck, O, f, fails)


def helper(ck, h):
    """does the handler call functions we cannot look into?"""
    return any(x.k in CALLK and x.decl() is not None and x.decl().is_function and ck.prog.callee(x) is None and not x.decl().q.startswith("std::") for x in h.walk())


def retafter(f, n):
    return None


def swallow(ck, O, f, n, h, site, status):
    body = h.a.get("body")
    stores = [x for x in body.walk() if x.k in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr", "UnaryOperator") and (x.get("op") or "").rstrip() in ("=", "|=", "+=", "++", "&=")]
    if stores:
        ck.und("handler", site, "how the failure recorded at %s reaches the caller" % stores[0].line)
    else:
        ck.viol("handler", site, "the failure is swallowed: %s carries on after the handler" % f.q)


def fallmain(ck, O, f, n, h, site):
    """main carries on after the handler: it must not print a result and must return non-zero"""
    body = h.a.get("body")
    stores = [x for x in body.walk() if x.k in ("BinaryOperator", "CXXOperatorCallExpr") and x.get("op") == "="]
    if stores:
        ck.und("handler", site, "what main returns after the handler recorded a status at %s" % stores[0].line)
    else:
        ck.viol("handler", site, "main carries on after a failure as if the computation had succeeded")


def callers(ck, O, g, fails):
    n = 0
    for f in ck.prog.functions.values():
        if f.body is None or not ours(f):
            continue
        for x in f.walk():
            if x.k in CALLK and x.decl() is not None and x.decl().q == g.q and ck.prog.callee(x) is g:
                n += 1
                tested(ck, O, f, g, x, fails)
    if not n:
        ck.und("handler", where(g), "no caller found")


def tested(ck, O, f, g, x, fails):
    site = "%s %s" % (f.q, x.line)
    fv = bool(next(iter(fails)))
    p, c, pol = x.parent, x, True
    while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "UnaryOperator"):
        if p.k == "UnaryOperator":
            if p.get("op") != "!":
                break
            pol = not pol
        c, p = p, p.parent
    if p is None:
        return
    v = fv if pol else not fv
    if p.k == "ConditionalOperator" and p.a["args"][0] is c:
        a = p.a["args"][1 if v else 2]
        cv = O.cv(a, {})
        q = p.parent
        while q is not None and q.k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
            q = q.parent
        if q is not None and (q.k == "ReturnStmt" and f.q == "main" or q.k in CALLK and q.decl() is not None and q.decl().n == "exit") and cv is not None:
            ck.cond("exit", site, cv != 0, "a failed %s ends with status %s" % (g.name, cv), "a failed %s ends with status 0" % g.name)
        else:
            ck.und("exit", site, "what happens when %s fails" % g.name)
        return
    if p.k == "IfStmt" and p.a.get("cond") is c:
        o = O.st(p.a.get("then" if v else "else"), {})
        blk = p.parent
        if "fall" in o and blk is not None and blk.ch:
            while blk is not None and blk.k not in ("CompoundStmt",):
                p, blk = blk, blk.parent
            ix = [i for i, s in enumerate(blk.ch) if s is p] if blk is not None else []
            if ix:
                o = (o - {"fall"}) | O.seq(blk.ch[ix[0] + 1:], {})
        bad = [y for y in o if y == ("exit", 0) or f.q == "main" and y == ("ret", 0)]
        if bad:
            ck.viol("exit", site, "a failed %s ends with status 0" % g.name)
        elif all(nonzero(y) or y == "throw" or f.q == "main" and isinstance(y, tuple) and y[0] == "ret" and y[1] not in (0, None) for y in o):
            ck.ok("exit", site, "a failed %s ends in %s" % (g.name, sorted(map(str, o))))
        elif o <= {"fall", "jump"}:
            ck.viol("exit", site, "a failed %s is ignored" % g.name)
        else:
            ck.und("exit", site, "what happens when %s fails: %s" % (g.name, sorted(map(str, o))))
        return
    if p.k in ("CompoundStmt", "CaseStmt", "DefaultStmt", "ForStmt", "WhileStmt") or p.k == "IfStmt":
        ck.viol("exit", site, "the outcome of %s is ignored" % g.name)
    else:
        ck.und("exit", site, "what happens with the outcome of %s" % g.name)


def mains(ck, T, O):
    fs = [f for f in ck.prog.functions.values() if f.q == "main" and f.body is not None and ours(f)]
    if len(fs) < 2:
        ck.und("main", "src/app/main.cpp", "only %d functions main found" % len(fs))
    for f in fs:
        raw = T.raw(f)
        for (t, o, l), w in raw.items():
            if t == "?":
                ck.und("main", where(f), "unknown whether %s raises" % chain(w))
            else:
                ck.viol("main", where(f), "%s raised at %s can leave main: %s" % (t, l, chain(w)))
        if not raw:
            ck.ok("main", where(f), "every exception is caught")
        res = good(O, f)
        bad = [x for x in res if isinstance(x, tuple) and x[0] == "ret" and x[1] != 0]
        if [x for x in bad if x[1] is not None]:
            ck.viol("main", where(f), "main returns %s without a failure" % bad[0][1])
        elif bad:
            ck.und("main", where(f), "what main returns without a failure")
        else:
            ck.ok("main", where(f), "returns 0 when nothing was raised")


def good(O, f):
    """outcomes of f with the handlers left out"""
    saved = {}
    for n in f.walk():
        if n.k == "CXXTryStmt":
            saved[n] = n.a.get("handlers")
            n.a["handlers"] = []
    try:
        return O.fn(f, {})
    finally:
        for n, h in saved.items():
            n.a["handlers"] = h


def exits(ck, O):
    n = 0
    for f in ck.prog.functions.values():
        if f.body is None or not ours(f):
            continue
        for x in f.walk():
            if x.k not in CALLK or x.decl() is None or not x.decl().is_function or x.decl().q.replace("std::", "") != x.decl().n:
                continue
            nm = x.decl().n
            if nm == "exit":
                n += 1
                if "/app/" not in f.file:
                    ck.viol("exit", "%s %s" % (f.q, x.line), "library code ends the process")
            elif nm in TERMINATE:
                n += 1
                if f.q.endswith("int256_t::udiv256"):
                    continue
                ck.viol("exit", "%s %s" % (f.q, x.line), "%s() ends the process without an error that a caller can handle" % nm)
        # reported on stderr, then a zero status
        for s in f.walk():
            if s.k != "CompoundStmt":
                continue
            err = None
            for c in s.ch:
                if c.k not in ("IfStmt", "ForStmt", "WhileStmt", "SwitchStmt", "CXXTryStmt", "DoStmt", "CXXForRangeStmt", "CompoundStmt", "ReturnStmt") and "std::cerr" in stream(c):
                    err = c
                if err is not None and c.k in CALLK + ("ReturnStmt", "ExprWithCleanups"):
                    o = O.st(c, {})
                    if ("exit", 0) in o or f.q == "main" and ("ret", 0) in o:
                        ck.viol("exit", "%s %s" % (f.q, c.line), "an error was reported at %s and the status is 0" % err.line)
    ck.ok("exit", "process termination", "%d calls that end the process looked at" % n)
    for f in ck.prog.functions.values():
        if f.name == "parseOptions" and f.body is not None and ours(f):
            site = where(f)
            body = [s for s in f.body.ch if s.k not in ("ForStmt", "WhileStmt", "CXXForRangeStmt")]
            o = set()
            for s in body:
                if s.k == "CXXTryStmt":
                    for t in (s.a["body"].ch if s.a.get("body") is not None else ()):
                        if t.k not in ("ForStmt", "WhileStmt", "CXXForRangeStmt"):
                            o |= O.st(t, {})
                else:
                    o |= O.st(s, {})
            z = [x for x in o if isinstance(x, tuple) and x[0] == "exit" and not nonzero(x)]
            if any(x[1] == 0 for x in z):
                ck.viol("exit", site, "unusable arguments end the program with status 0")
            elif z:
                ck.und("exit", site, "the status for unusable arguments")
            else:
                ck.ok("exit", site, "unusable arguments end in %s" % sorted(map(str, o - {"fall"})))
            if f.q.startswith("primesum::"):
                unknown(ck, O, f)


def unknown(ck, O, f):
    """primesum maps unknown options to --help: its usage text is an error report"""
    hs = [g for g in ck.prog.functions.values() if g.q == "primesum::help" and g.body is not None]
    for g in hs:
        o = O.fn(g, {})
        z = [x for x in o if not nonzero(x) and x != "throw"]
        if ("exit", 0) in z:
            ck.viol("exit", where(g), "the usage text, printed for unknown options, ends with status 0")
        elif z:
            ck.und("exit", where(g), "how the usage text ends the program: %s" % sorted(map(str, z)))
        else:
            ck.ok("exit", where(g), "the usage text ends in %s" % sorted(map(str, o)))


def nulls(ck):
    seen = set()
    for f in ck.prog.functions.values():
        if f.body is None or not ours(f):
            continue
        cs = [x for x in f.walk() if x.k == "CallExpr" and x.decl() is not None and x.decl().q in MAYNULL]
        if not cs or (f.q.split("<")[0], f.l) in seen:
            continue
        seen.add((f.q.split("<")[0], f.l))
        S = Summ(ck, f)
        for e in S.g.events:
            if e.k != "call" or e.a["q"] not in MAYNULL:
                continue
            site = "%s %s" % (f.q, e.line)
            r = e.a.get("res")
            if r is None:
                r = e.a.get("ret")
            if r is None:
                ck.und("null", site, "the result of %s" % e.a["q"])
                continue
            null = eq(r, C(0))
            base = land(*e.pc) if e.pc else TRUE
            stop = [t for t in S.g.events if t.k in ("throw", "noret") and any(r in list(subterms(c)) and tests(c, r) for c in t.pc)]
            cov = lor(*[land(*t.pc) if t.pc else TRUE for t in stop]) if stop else FALSE
            ok, w = same(lor(bnot_(land(base, null)), cov), TRUE)
            if ok is None:
                ck.und("null", site, "whether a null pointer from %s is noticed" % e.a["q"])
            elif ok:
                ck.ok("null", site, "a null pointer from %s is turned into an exception" % e.a["q"])
            else:
                ck.viol("null", site, "a null pointer returned by %s is not noticed" % e.a["q"])


def tests(c, r):
    """does the condition compare r itself (and not something computed from it) with null?"""
    return any(x.op not in ("call", "eff", "load") and r in x.args and (x == eq(r, C(0)) or x.op in ("eq", "ne", "lt", "le", "b", "bool")) for x in subterms(c)) or c == r
