"""Value-width analysis over the syntax tree: how many bits can the values hold that flow additively into a sum of primes, and is the type
in which they are computed that wide.

kinds:  N  a number (bounded by its type, or by the guard that dominates the use)
        S  a sum of many numbers, or a product with one
A storage place ("loc") is a variable, a field, or the elements of a container; places bound to each other by reference are unified."""
from model import AnalysisError

LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")
COUNTS = ("popcnt64", "popcount", "__builtin_popcountll", "__builtin_popcountl", "__builtin_popcount", "popcnt32")
PASS = ("LValueToRValue", "NoOp", "IntegralCast", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase", "IntegralToBoolean", "ArrayToPointerDecay", "FunctionToPointerDecay")
CASTS = ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr")


def is256(t):
    return t is not None and t.k == "rec" and t.s.replace("const ", "").split("::")[-1] == "int256_t"


def vbits(t):
    """value bits of an integer type, None for other types"""
    if t is None:
        return None
    t = t.strip_ref()
    if is256(t):
        return 255
    if t.k == "bool":
        return 1
    if t.k in ("int", "enum") and t.bits:
        return t.bits if t.unsigned else t.bits - 1
    return None


def intlike(t):
    return vbits(t) is not None


class Widths:
    def __init__(self, prog, infile, numbers=(), units=()):
        self.units = set(units)         # functions whose values (or the elements of whose results) are -1, 0 or 1
        self.prog = prog
        self.numbers = set(numbers)     # functions that count or look up numbers: their results are kind N
        self.fns = [f for f in prog.functions.values() if f.body is not None and infile(f)]
        self.inset = {id(f) for f in self.fns}
        self.uf = {}
        self.defs = {}          # loc -> [(op, expr, node, fn)]
        self.ltype = {}         # loc -> type
        self.lname = {}
        self.rets = {}          # fn key -> [(expr, node)]
        self.calls = {}         # fn key -> [(node, caller)]
        self.induction = set()
        self.parentless = {}
        self.memo, self.busy = {}, set()
        self.xmemo = {}
        self.params = {}
        for f in self.fns:
            for p in f.params:
                self.params[("v", f.tu.rel, p.idx)] = (f, f.params.index(p))
        for f in self.fns:
            self.scan(f)
        for f in self.fns:
            self.bind(f)
        d = {}
        for l, x in self.defs.items():
            d.setdefault(self.find(l), []).extend(x)
        self.defs = d
        self.induction = {self.find(l) for l in self.induction}
        t = {}
        for l, x in self.ltype.items():
            t.setdefault(self.find(l), x)
        self.ltype = t
        n = {}
        for l, x in self.lname.items():
            n.setdefault(self.find(l), x)
        self.lname = n
        ps = {}
        for l, x in self.params.items():
            ps.setdefault(self.find(l), []).append(x)
        self.pclass = ps
        self.assume = {}
        self.preconditions()
        self.unitloc = set()
        for f in self.fns:
            if f.q.split("::")[-1] in self.units:
                for r, _ in self.rets.get(f.key, ()):
                    k = self.loc(r)
                    if k is not None:
                        self.unitloc.add(self.find(("e", self.find(k))))

    # ------------------------------------------------------------ places
    def find(self, l):
        while True:
            if l in self.uf:
                l = self.uf[l]
                continue
            if l[0] == "e":
                m = self.find(l[1])
                if m != l[1]:
                    l = ("e", m)
                    continue
            return l

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            if self.inside(a, b) or self.inside(b, a):
                return
            self.uf[a] = b
            # elements follow
            for k in [k for k in list(self.uf) if False]:
                pass

    def inside(self, a, b):
        while b[0] == "e":
            b = b[1]
            if a == b:
                return True
        return False

    def strip(self, n):
        while n is not None:
            if n.k in CASTS and n.get("args"):
                n = n.a["args"][0]
            elif n.k == "CXXConstructExpr" and len(n.a.get("args") or ()) == 1 and n.type() is not None and n.type().strip_ref().k == "rec" \
                    and n.a["args"][0].type() is not None and n.a["args"][0].type().strip_ref().s.replace("const ", "") == n.type().s.replace("const ", ""):
                n = n.a["args"][0]
            else:
                return n
        return None

    def loc(self, n, d=0):
        n = self.strip(n)
        if n is None or d > 20:
            return None
        if n.k == "DeclRefExpr":
            x = n.decl()
            if x is None or x.is_function:
                return None
            return ("g", x.key) if x.is_global else ("v", n.tu.rel, x.idx)
        if n.k == "MemberExpr":
            x = n.decl()
            return None if x is None or x.is_function else ("f", x.q)
        a = n.get("args") or ()
        if n.k == "CXXOperatorCallExpr" and n.get("op") == "[]" or n.k == "ArraySubscriptExpr" or n.k == "CXXMemberCallExpr" and n.decl() is not None and n.decl().n == "at":
            b = self.loc(n.get("obj") if n.k == "CXXMemberCallExpr" else a[0], d + 1)
            return None if b is None else ("e", b)
        if n.k == "UnaryOperator" and n.get("op") == "*":
            b = self.loc(a[0], d + 1)
            return None if b is None else ("e", b)
        if n.k == "UnaryOperator" and n.get("op") == "&":
            b = self.loc(a[0], d + 1)
            return b[1] if b is not None and b[0] == "e" else None
        return None

    def inloop(self, n):
        p = n.parent
        while p is not None:
            if p.k in LOOPS:
                return p
            p = p.parent
        return None

    def define(self, l, op, e, node, fn, t=None, name=None):
        if l is None:
            return
        self.defs.setdefault(l, []).append((op, e, node, fn))
        if t is not None:
            self.ltype.setdefault(l, t)
        if name:
            self.lname.setdefault(l, name)

    def scan(self, f):
        for p in f.params:
            l = ("v", f.tu.rel, p.idx)
            if p.type() is not None:
                self.ltype.setdefault(l, p.type())
            self.lname.setdefault(l, p.n)
        for it in f.inits:
            if it.get("field") is not None and it.get("init") is not None:
                self.define(("f", it["field"].q), "=", it["init"], it["init"], f, it["field"].type(), it["field"].n)
        for n in f.body.walk():
            a = n.get("args") or ()
            if n.k == "DeclStmt":
                for d, e in n.a.get("decls") or ():
                    l = ("v", n.tu.rel, d.idx)
                    if d.type() is not None:
                        self.ltype.setdefault(l, d.type())
                    self.lname.setdefault(l, d.n)
                    if e is not None:
                        self.define(l, "=", e, e, f)
            elif n.k in ("BinaryOperator", "CompoundAssignOperator", "CXXOperatorCallExpr") and n.get("op") in ("=", "+=", "-=", "*=", "/=", "<<=", ">>=", "|=", "&=", "^=", "%=") and len(a) == 2:
                self.define(self.loc(a[0]), n.get("op"), a[1], n, f, a[0].type())
            elif n.k == "UnaryOperator" and n.get("op") in ("++", "--"):
                self.define(self.loc(a[0]), n.get("op"), None, n, f, a[0].type())
            elif n.k == "CXXMemberCallExpr" and n.decl() is not None and n.decl().n in ("push_back", "emplace_back", "resize", "assign", "fill"):
                b = self.loc(n.get("obj")) if n.get("obj") is not None else None
                if b is not None and a:
                    if n.decl().n in ("push_back", "emplace_back", "fill") or len(a) == 2:
                        self.define(("e", b), "=", a[-1], n, f, a[-1].type() if n.decl().n != "emplace_back" else None)
            elif n.k == "ReturnStmt" and a:
                self.rets.setdefault(f.key, []).append((a[0], n))
            elif n.k in LOOPS and n.get("cond") is not None:
                for m in n.a["cond"].walk():
                    if m.k in ("BinaryOperator", "CXXOperatorCallExpr") and m.get("op") in ("<", "<=", ">", ">=", "!="):
                        for x in m.a["args"]:
                            for y in x.walk():
                                l = self.loc(y) if y.k in ("DeclRefExpr", "MemberExpr") else None
                                if l is not None:
                                    self.induction.add(l)
            if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                g = self.prog.callee(n)
                if g is not None and id(g) in self.inset:
                    self.calls.setdefault(g.key, []).append((n, f))

    def cargs(self, n, g):
        """(parameter index, argument) of a call"""
        a = list(n.get("args") or ())
        if n.k == "CXXOperatorCallExpr" and n.get("member") and a:
            a = a[1:]
        return list(enumerate(a))[:len(g.params)]

    def bind(self, f):
        for n in f.body.walk():
            if n.k == "DeclStmt":
                for d, e in n.a.get("decls") or ():
                    if e is None or d.type() is None:
                        continue
                    l = ("v", n.tu.rel, d.idx)
                    self.bindto(l, d.type(), e)
            g = self.prog.callee(n) if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr") else None
            if g is not None and id(g) in self.inset:
                for i, x in self.cargs(n, g):
                    p = g.params[i]
                    if p.type() is not None:
                        self.bindto(("v", g.tu.rel, p.idx), p.type(), x)
            elif n.k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                # a library routine filling a container of ours
                a = n.get("args") or ()
                for x in a:
                    y = self.strip(x)
                    if y is not None and y.k == "UnaryOperator" and y.get("op") == "&":
                        b = self.loc(y.a["args"][0])
                        if b is not None and b[0] == "v":
                            for z in a:
                                if z is not x and intlike(z.type()):
                                    self.define(("e", b), "=", z, n, f)

    def bindto(self, l, t, e):
        rec = t.k == "rec" or t.k in ("ref", "rref", "ptr", "pointer")
        if not rec or is256(t):
            return
        if t.k in ("ref", "rref") and intlike(t) and (t.to().const or t.k == "rref"):
            return
        m = self.loc(e)
        if m is not None:
            self.union(l, m)
            return
        s = self.strip(e)
        if s is not None and t.strip_ref().k == "rec" and s.k in ("CallExpr", "CXXMemberCallExpr"):
            g = self.prog.callee(s)
            if g is not None and id(g) in self.inset:
                for r, _ in self.rets.get(g.key, ()):
                    k = self.loc(r)
                    if k is not None:
                        self.union(l, k)
        elif s is not None and t.strip_ref().k == "rec" and s.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            a = [x for x in s.get("args") or ()]
            if len(a) >= 2 and intlike(a[1].type()) and a[1].k != "CXXDefaultArgExpr":
                self.define(("e", l), "=", a[1], s, None)
        elif s is not None and s.k == "InitListExpr":
            for x in s.ch:
                if x is not None and intlike(x.type()):
                    self.define(("e", l), "=", x, s, None)

    def preconditions(self):
        """a function that leaves with an exception unless its parameter is small makes the caller's number small: {place: bound}"""
        pre = {}
        for f in self.fns:
            if f.body.k != "CompoundStmt":
                continue
            last = [s for s in f.body.ch if s is not None]
            F = self.facts(last[-1], "throw") if last else {}
            for i, p in enumerate(f.params):
                l = self.find(("v", f.tu.rel, p.idx))
                if l in F and intlike(p.type()):
                    pre[(f.key, i)] = F[l]
        for (k, i), v in pre.items():
            g = self.prog.functions[k]
            for n, c in self.calls.get(k, ()):
                for j, x in self.cargs(n, g):
                    l = self.loc(x)
                    if j == i and l is not None and not self.facts(n):
                        l = self.find(l)
                        self.assume[l] = min(self.assume.get(l, v), v)

    # ------------------------------------------------------------ guards
    def limit(self, e):
        """constant value of a bound expression"""
        v = e.cv()
        if v is not None:
            return v
        s = self.strip(e)
        if s is None:
            return None
        v = s.cv()
        if v is not None:
            return v
        o = self.once(s)
        if o is not None:
            return self.limit(o)
        if s.k == "CallExpr" and s.decl() is not None and s.decl().n == "max" and "numeric_limits" in s.decl().q and not s.get("args"):
            return (1 << vbits(s.type())) - 1 if intlike(s.type()) else None
        if s.k == "CallExpr" and s.decl() is not None:
            g = self.prog.callee(s)
            if g is not None and not s.get("args") and not g.params and len(self.rets.get(g.key, ())) == 1 and g.key != getattr(self, "_lim", None):
                self._lim = g.key
                r = self.limit(self.rets[g.key][0][0])
                self._lim = None
                return r
        return None

    def facts(self, node, how=None):
        """{loc: upper bound} that hold where node is evaluated (how "throw": or else an exception was thrown)"""
        out = {}
        self.opaque = set()

        def take(c, pos, depth=0):
            s = self.strip(c)
            if s is None:
                return
            once = self.once(s)
            if once is not None and depth < 4:
                take(once, pos, depth + 1)
                return
            if s.k == "UnaryOperator" and s.get("op") == "!":
                take(s.a["args"][0], not pos, depth)
                return
            if s.k == "BinaryOperator" and s.get("op") in ("&&", "||"):
                if (s.get("op") == "&&") == pos:
                    for x in s.a["args"]:
                        take(x, pos, depth)
                return
            if s.k in ("BinaryOperator", "CXXOperatorCallExpr") and s.get("op") in ("<", "<=", ">", ">=", "==") and len(s.a["args"]) == 2:
                op = s.get("op")
                l, r = s.a["args"]
                if op == "==":
                    if pos and self.limit(r) is not None and self.loc(l) is not None:
                        k = self.find(self.loc(l))
                        out[k] = min(out.get(k, self.limit(r)), self.limit(r))
                        return
                    if self.loc(l) is None:
                        mark(s)
                    return
                if not pos:
                    op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
                if op in (">", ">="):
                    l, r, op = r, l, {">": "<", ">=": "<="}[op]
                v, k = self.limit(r), self.loc(l)
                if v is not None and k is not None:
                    k = self.find(k)
                    v = v - (op == "<")
                    out[k] = min(out.get(k, v), v)
                    return
                if v is not None or k is None:
                    return
            mark(s)

        def mark(s):
            for x in s.walk():
                k = self.loc(x) if x.k in ("DeclRefExpr", "MemberExpr") else None
                if k is not None:
                    self.opaque.add(self.find(k))
        n = node
        while n is not None:
            p = n.parent
            if p is None:
                break
            if p.k == "IfStmt":
                if p.get("then") is n:
                    take(p.get("cond"), True)
                elif p.get("else") is n:
                    take(p.get("cond"), False)
            elif p.k in LOOPS + ("SwitchStmt",) and p.get("cond") is not None and p.get("cond") is not n:
                mark(p.get("cond"))
            elif p.k == "ConditionalOperator":
                a = p.a["args"]
                if len(a) == 3 and a[1] is n:
                    take(a[0], True)
                elif len(a) == 3 and a[2] is n:
                    take(a[0], False)
            elif p.k == "CompoundStmt":
                for s in p.ch:
                    if s is n:
                        break
                    if s is not None and s.k == "IfStmt" and s.get("then") is not None and self.exits(s.get("then"), how):
                        take(s.get("cond"), False)
            n = p
        return out

    def once(self, s):
        """the initialiser of a local variable that is never assigned to"""
        if s.k != "DeclRefExpr" or not intlike(s.type()):
            return None
        l = self.loc(s)
        if l is None or l[0] != "v" or l in self.params or self.find(l) in getattr(self, "pclass", {}):
            return None
        d = self.defs.get(self.find(l)) or ()
        return d[0][1] if len(d) == 1 and d[0][0] == "=" and d[0][2] is d[0][1] else None

    def exits(self, s, how=None):
        if how == "throw" and s.k in ("ReturnStmt", "ContinueStmt", "BreakStmt", "GotoStmt"):
            return False
        if s.k in ("ReturnStmt", "CXXThrowExpr", "ContinueStmt", "BreakStmt", "GotoStmt"):
            return True
        if s.k == "CompoundStmt" and s.ch:
            return self.exits(s.ch[-1], how)
        return s.k in CASTS and bool(s.get("args")) and self.exits(s.a["args"][0], how)

    # ------------------------------------------------------------ values
    def X(self, f):
        """bits of the largest number handed to f"""
        if f.key not in self.xmemo:
            self.xmemo[f.key] = 0
            self.changed = True
        return self.xmemo[f.key]

    def _X(self, f):
        own = [vbits(p.type()) for p in f.params if intlike(p.type())]
        r = max(own, default=63)
        sites = self.calls.get(f.key, ())
        if sites and self.joined(f):
            r2 = 0
            for n, c in sites:
                ca = max([self.eval(x, c)[1] for i, x in self.cargs(n, f) if intlike(f.params[i].type()) and self.eval(x, c)[0] == "N"], default=0)
                if self.joined(c):
                    cx = self.X(c)
                else:
                    F = self.facts(n)
                    cx = max([self.bound(("v", c.tu.rel, p.idx), vbits(p.type()), F) for p in c.params if intlike(p.type())], default=63)
                r2 = max(r2, min(ca, cx))
            r = min(r, r2)
        return r

    def isnum(self, g):
        q = g.q.split("::")
        return q[-1] in self.numbers or len(q) > 1 and q[-2].split("<")[0] in self.numbers

    def local(self, f):
        return bool("(anonymous namespace)" in f.q or f.decl.get("internal"))

    def joined(self, f):
        """f is not called from outside: its parameters hold what the calls in the sources hand over"""
        t = f.targs() if callable(f.targs) else f.targs
        return self.local(f) or f.q.count("::") > 1 or bool(t) and not intlike(f.ret)

    def bound(self, l, b, F):
        l = self.find(l)
        return min(b, max(F[l], 0).bit_length()) if l in F else b

    def val(self, l, f):
        l = self.find(l)
        if l not in self.memo:
            self.memo[l] = ("N", 0)
            self.changed = True
        return self.memo[l]

    def join(self, a, b):
        return ("S" if "S" in (a[0], b[0]) else "N", min(max(a[1], b[1]), 600))

    def solve(self, demand):
        """least solution of the equations of all places and functions that the demanded evaluations reach"""
        for it in range(80):
            self.changed = False
            demand()
            for l in list(self.memo):
                if l[0] == "r":
                    r = self._ret(self.prog.functions[l[1]])
                else:
                    r = self._val(l, None)
                r = self.join(self.memo[l], r)
                if r != self.memo[l]:
                    self.memo[l] = r
                    self.changed = True
            for k in list(self.xmemo):
                r = max(self.xmemo[k], self._X(self.prog.functions[k]))
                if r != self.xmemo[k]:
                    self.xmemo[k] = r
                    self.changed = True
            if not self.changed:
                return it
        return None

    def cap(self, f, b):
        return b if f is None else min(b, 2 * self.X(f) - 1)

    def _val(self, l, f):
        t = self.ltype.get(l)
        tb = vbits(t)
        if l[0] == "e" and tb is None:
            tb = self.eltype(l)
        if tb is not None and tb <= 1 or l in self.unitloc:
            return ("N", 1)
        if l in self.assume:
            return ("N", min(tb or 64, max(self.assume[l], 0).bit_length()))
        ds = self.defs.get(l, ())
        args = []
        for g, i in self.pclass.get(l, ()):
            args += [(x, c, n) for n, c in self.calls.get(g.key, ()) for j, x in self.cargs(n, g) if j == i]
        isp = [x for x in self.pclass.get(l, ()) if not self.joined(x[0]) and x[0].params[x[1]].type() is not None and intlike(x[0].params[x[1]].type())]
        kind, bits = "N", 0
        if isp or not ds and not args:
            bits = tb if tb is not None else 64
        if isp:
            args = []
        if tb is None and l[0] != "e":
            return ("N", 64)
        acc = []
        for op, e, n, c in ds:
            if op in ("=",):
                k, b = self.eval(e, c)
                if self.additive(e, l) and self.inloop(n) is not None:
                    acc.append((k, b, n, c, True, e))
                else:
                    kind, bits = ("S" if "S" in (k, kind) else "N"), max(bits, b)
            elif op in ("+=", "-="):
                acc.append(self.eval(e, c) + (n, c, self.inloop(n) is not None, e))
            elif op in ("*=", "<<="):
                bits = max(bits, tb)
            elif op == "++":
                bits = max(bits, tb) if kind == "N" else bits
        for x, c, n in args:
            k, b = self.eval(x, c)
            kind, bits = ("S" if "S" in (k, kind) else "N"), max(bits, b)
        if acc:
            if l in self.induction:
                bits = max(bits, tb)
            else:
                bk, base = kind, bits
                for k, b, n, c, lp, e in acc:
                    own = e is not None and self.additive(e, l)
                    lp = lp or l[0] in ("f",)
                    if own and lp:
                        kind, bits = "S", max(bits, base if bk == "S" else self.cap(c, 2 * base - 1))
                    elif k == "S":
                        kind, bits = "S", max(bits, b)
                    elif e is not None and e.cv() is not None:
                        bits = max(bits, tb) if lp else bits + 1
                    elif lp:
                        kind, bits = "S", max(bits, self.cap(c, 2 * b - 1) if b > 1 else min(tb, 63))
                    else:
                        bits = max(bits, b) + 1
        if kind == "N" and tb is not None:
            bits = min(bits, tb)
        return (kind, bits)

    def eltype(self, l):
        d = 0
        while l[0] == "e":
            l, d = l[1], d + 1
        t = self.ltype.get(self.find(l))
        for _ in range(d):
            t = t.strip_ref() if t is not None else None
            if t is None:
                return None
            if t.k == "rec":
                ta = [x for x in t.targs() if hasattr(x, "k")]
                t = ta[0] if ta else None
            else:
                t = t.to() if hasattr(t, "to") else None
        return vbits(t)

    def additive(self, e, l):
        """the value of the place l is a summand of e"""
        return self.find(l) in self.terms(e, ("+", "-"))

    def terms(self, e, ops=("+", "-", "*"), out=None):
        """the places whose values e adds up (and multiplies)"""
        out = set() if out is None else out
        e = self.strip(e)
        if e is None:
            return out
        l = self.loc(e)
        if l is not None:
            out.add(self.find(l))
        elif e.k in ("BinaryOperator", "CXXOperatorCallExpr", "UnaryOperator") and e.get("op") in ops:
            for x in e.get("args") or ():
                self.terms(x, ops, out)
        elif e.k == "ConditionalOperator":
            for x in e.a["args"][1:]:
                self.terms(x, ops, out)
        elif e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(e.get("args") or ()) == 1:
            self.terms(e.a["args"][0], ops, out)
        return out

    def eval(self, n, f, F=None):
        if n is None:
            return ("N", 64)
        v = n.cv()
        if v is not None:
            return ("N", abs(v).bit_length())
        t = n.type()
        tb = vbits(t)
        a = n.get("args") or ()
        if tb == 1:
            return ("N", 1)
        if n.k in CASTS and a:
            k, b = self.eval(a[0], f)
            if tb is not None and k == "N":
                b = min(b, tb)
            return (k, b)
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and is256(t):
            return self.eval(a[0], f) if len(a) == 1 else ("N", 0) if not a else ("N", 255)
        l = self.loc(n)
        if l is not None and (tb is not None):
            r = self.val(l, f)
            F = self.facts(n)
            if self.find(l) in F and r[0] == "N":
                r = ("N", self.bound(l, r[1], F))
            return r
        op = n.get("op")
        if n.k in ("BinaryOperator", "CXXOperatorCallExpr", "CompoundAssignOperator") and len(a) == 2:
            if op in ("=",):
                return self.eval(a[1], f)
            if op in ("<", "<=", ">", ">=", "==", "!=", "&&", "||"):
                return ("N", 1)
            if op == ",":
                return self.eval(a[1], f)
            if op in ("+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^") and tb is not None:
                x, y = self.eval(a[0], f), self.eval(a[1], f)
                k = "S" if "S" in (x[0], y[0]) else "N"
                if op in ("+", "-"):
                    return (k, min(max(x[1], y[1]) + 1, max(tb, x[1], y[1]))) if k == "N" and (a[0].cv() is None and a[1].cv() is None) else (k, max(x[1], y[1]))
                if op == "*":
                    b = y[1] if x[1] <= 1 else x[1] if y[1] <= 1 else x[1] + y[1]
                    if k == "S":
                        return (k, self.cap(f, b) if f is not None else b)
                    if self.square(a[0], a[1]):
                        return ("S", b)
                    if f is None:
                        return (k, b)
                    return (k, max(min(b, self.X(f)), x[1], y[1]))
                if op in ("/", ">>"):
                    return (x[0], x[1])
                if op == "%":
                    return ("N", y[1])
                if op == "<<":
                    c = a[1].cv()
                    return (x[0], x[1] + c if c is not None else tb)
                if op == "&":
                    return ("N", min(x[1], y[1]))
                return (k, max(x[1], y[1]))
        if n.k == "UnaryOperator" or n.k == "CXXOperatorCallExpr" and len(a) == 1:
            if op in ("-", "+", "++", "--"):
                return self.eval(a[0], f)
            if op == "!":
                return ("N", 1)
            return ("N", tb if tb is not None else 64)
        if n.k == "ConditionalOperator":
            x, y = self.eval(a[1], f), self.eval(a[2], f)
            return ("S" if "S" in (x[0], y[0]) else "N", max(x[1], y[1]))
        if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            d = n.decl()
            nm = d.n if d is not None else ""
            if nm in self.units:
                return ("N", 1)
            if nm in COUNTS:
                return ("S", 7)
            if nm in ("min", "max") and a and "numeric_limits" not in d.q:
                xs = [self.eval(x, f) for x in a if intlike(x.type())]
                if xs:
                    return ("S" if any(x[0] == "S" for x in xs) else "N", (min if nm == "min" else max)(x[1] for x in xs))
            if nm in ("fast_div", "isqrt", "abs", "iroot") and a:
                x = self.eval(a[0], f)
                return (x[0], min(x[1], tb or x[1]))
            if nm.startswith("operator") and n.k == "CXXMemberCallExpr" and n.get("obj") is not None:
                return self.eval(n.get("obj"), f)
            g = self.prog.callee(n)
            if g is not None and id(g) in self.inset and tb is not None and not self.isnum(g):
                return self.ret(g)
        return ("N", tb if tb is not None else 64)

    def square(self, a, b):
        return bool(self.terms(a) & self.terms(b))

    def ret(self, g):
        k = ("r", g.key)
        if k not in self.memo:
            self.memo[k] = ("N", 0)
            self.changed = True
        return self.memo[k]

    def _ret(self, g):
        kind, bits = "N", 0
        for e, n in self.rets.get(g.key, ()):
            x = self.eval(e, g)
            kind, bits = ("S" if "S" in (x[0], kind) else "N"), max(bits, x[1])
        return (kind, bits)

    # ------------------------------------------------------------ the slice
    def slice(self, roots):
        """everything that flows additively into the values returned by the roots; yields ("fn", f) ("expr", node, fn) ("loc", l)"""
        work = [("fn", f) for f in roots]
        seen = set()
        out = []

        def push(x, o=None):
            x = x + (o,) if len(x) == 3 else x
            k = (x[0], x[1].key if x[0] == "fn" else id(x[1]) if x[0] == "expr" else x[1])
            if k not in seen:
                seen.add(k)
                work.append(x)
                out.append(x)
        for f in roots:
            seen.add(("fn", f.key))
            out.append(("fn", f))
        while work:
            x = work.pop()
            if x[0] == "fn":
                for e, n in self.rets.get(x[1].key, ()):
                    push(("expr", e, x[1]))
            elif x[0] == "loc":
                l = x[1]
                for op, e, n, c in self.defs.get(l, ()):
                    if op in ("=", "+=", "-=", "*="):
                        if e is not None:
                            push(("expr", e, c), l)
                        if op != "=":
                            push(("acc", n, c), l)
                for g, i in self.pclass.get(l, ()):
                    if not self.joined(g) and intlike(g.params[i].type()):
                        continue
                    for n, c in self.calls.get(g.key, ()):
                        for j, y in self.cargs(n, g):
                            if j == i and intlike(y.type()):
                                push(("expr", y, c), l)
            elif x[0] == "expr":
                n, f, o = x[1], x[2], x[3]
                if n is None or n.cv() is not None:
                    continue
                a = n.get("args") or ()
                l = self.loc(n)
                op = n.get("op")
                if n.k in CASTS or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    for y in a:
                        push(("expr", y, f), o)
                elif l is not None:
                    if intlike(n.type()) or l[0] == "e":
                        push(("loc", self.find(l)))
                elif n.k in ("BinaryOperator", "CXXOperatorCallExpr") and op in ("+", "-", "*", "<<", ">>", "=", "/") and len(a) == 2:
                    push(("expr", a[0], f), o)
                    if op not in ("<<", ">>", "/"):
                        push(("expr", a[1], f), o)
                elif n.k in ("UnaryOperator", "CXXOperatorCallExpr") and op in ("-", "+") and len(a) == 1:
                    push(("expr", a[0], f), o)
                elif n.k == "ConditionalOperator":
                    push(("expr", a[1], f), o)
                    push(("expr", a[2], f), o)
                elif n.k in ("CallExpr", "CXXMemberCallExpr"):
                    if n.decl() is not None and n.decl().n.startswith("operator") and n.get("obj") is not None:
                        push(("expr", n.get("obj"), f), o)
                    g = self.prog.callee(n)
                    if g is not None and id(g) in self.inset and intlike(n.type()) and not self.isnum(g):
                        push(("fn", g))
        return out
