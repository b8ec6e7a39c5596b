"""Parallel regions and the sharing of what they access."""
import effects
from effects import strip, id_of, CALLS, norm, args_of

THREADUNSAFE = {"rand", "srand", "strtok", "localtime", "gmtime", "ctime", "asctime", "setlocale", "strerror", "getenv_unsafe", "drand48", "lrand48"}


class Region:
    """one parallel region: OpenMP construct or a callable handed to another thread"""

    def __init__(self, kind, fn, node, body, how):
        self.kind, self.fn, self.node, self.body, self.how = kind, fn, node, body, how
        self.private, self.reduction, self.itervars = set(), {}, set()
        self.inner_ids = {n.i for n in node.walk()} if node is not None else set()
        if body is not None:
            self.inner_ids |= {n.i for n in body.walk()}
        if node is not None:
            for c in node.a.get("clauses", []) or []:
                ck = c.get("kind") or ""
                vs = c.get("vars", [])
                if ck in ("private", "firstprivate", "lastprivate", "linear", "copyin"):
                    self.private |= {id_of(v) for v in vs}
                if ck == "reduction":
                    for v in vs:
                        self.reduction[id_of(v)] = c.get("op") or c.get("rop")
        # declared inside
        src = node if node is not None else body
        for n in src.walk():
            if n.k == "DeclStmt":
                for d, _ in n.a["decls"]:
                    if not d.get("static"):
                        self.private.add(id_of(d))
            if n.k in ("CXXForRangeStmt", "CXXCatchStmt") and n.decl() is not None:
                self.private.add(id_of(n.decl()))
        if kind == "omp":
            loop = body
            while loop is not None and loop.k not in ("ForStmt", "CXXForRangeStmt"):
                nx = [x for x in loop.ch if x.k in ("ForStmt", "CompoundStmt", "CapturedStmt")]
                loop = nx[0] if nx else None
            self.loop = loop
            if loop is not None and loop.k == "ForStmt":
                init = loop.a.get("init")
                if init is not None and init.k == "DeclStmt":
                    for d, _ in init.a["decls"]:
                        self.itervars.add(id_of(d))
                elif init is not None and init.k == "BinaryOperator":
                    l = strip(init.a["args"][0])
                    if l.k == "DeclRefExpr":
                        self.itervars.add(id_of(l.decl()))
                        self.private.add(id_of(l.decl()))
        # constant copies of the iteration variable
        ch = True
        while ch:
            ch = False
            for n in src.walk():
                if n.k != "DeclStmt":
                    continue
                for d, x in n.a["decls"]:
                    y = strip(x)
                    if y is not None and y.k == "DeclRefExpr" and y.decl() is not None and id_of(y.decl()) in self.itervars and id_of(d) not in self.itervars and not self.assigned(d):
                        self.itervars.add(id_of(d))
                        ch = True

    def assigned(self, d):
        for n in self.body.walk():
            if n.k in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator") and n.a.get("op") in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<=", ">>="):
                l = strip(n.a["args"][0])
                if l.k == "DeclRefExpr" and l.decl() is not None and id_of(l.decl()) == id_of(d):
                    return True
        return False

    @property
    def line(self):
        return (self.node or self.body).line


def regions(prog):
    out = []
    for f in prog.functions.values():
        if f.body is None or f.a.get("lambda") or f.name == "operator()" and "lambda" in f.q:
            continue
        for n in f.body.walk():
            if n.k.startswith("OMP") and ("Parallel" in n.k or "Task" in n.k or "Sections" in n.k):
                out.append(Region("omp", f, n, n.a.get("body"), n.k))
            if n.k in CALLS:
                d = n.decl()
                q = d.q if d is not None else ""
                thr = q.startswith(("std::async", "std::thread::thread", "std::jthread"))
                if not thr and d is not None and d.n in ("emplace_back", "push_back", "emplace"):
                    o, _ = args_of(n)
                    thr = o is not None and strip(o).type() is not None and "std::thread" in strip(o).type().s
                if thr:
                    for a in n.a.get("args") or []:
                        l = lambda_of(f, a)
                        if l is not None:
                            out.append(Region("task", f, l, l.a.get("body"), q or d.n))
    return out


def lambda_of(f, a):
    x = strip(a)
    while x is not None and x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and x.a.get("args"):
        x = strip(x.a["args"][0])
    if x is None:
        return None
    if x.k == "LambdaExpr":
        return x
    if x.k == "CallExpr" and x.a.get("args"):
        return lambda_of(f, x.a["args"][0])
    if x.k == "DeclRefExpr" and x.decl() is not None:
        for n in f.body.walk():
            if n.k == "DeclStmt":
                for d, i in n.a["decls"]:
                    if d is x.decl() and i is not None:
                        for m in i.walk():
                            if m.k == "LambdaExpr":
                                return m
    return None


def site_of(acc):
    return acc.via[0] if acc.via else acc.node


def accesses(E, R):
    """accesses of the region's body, over the variables of the enclosing function"""
    s = E[R.fn]
    for a in s.acc.values():
        n = site_of(a)
        if n is not None and n.i in R.inner_ids and (n.fn is None or n.fn is R.fn):
            yield a


def shared(R, a):
    r = a.root
    if r[0] == "L":
        return r[1] not in R.private and r[1] not in R.reduction
    if r[0] == "N":
        return False
    return True
