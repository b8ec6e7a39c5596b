"""Reads of storage that has not been given a value yet.

A path-sensitive interpreter over the syntax tree of one root function.  A state
is a set of disjuncts (storage that has no value yet, branch conditions taken);
calls that receive such storage (as *this, by reference or by pointer) are
analysed in place.  Storage is tracked down to scalar members; an array counts
as initialised once something has been stored into it."""
from effects import strip, id_of

CALLK = {"CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"}
CTORK = {"CXXConstructExpr", "CXXTemporaryObjectExpr"}
SCALAR = {"int", "bool", "float", "ptr", "pointer", "enum"}
ELEM = {"operator[]", "at", "front", "back", "get"}
WHOLE = {"fill", "assign", "swap", "operator="}
TRANS = {"ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr"}
MAXD = 24


class Out:
    def __init__(self):
        self.brk, self.cont, self.ret, self.exc = [], [], [], []


class Frame:
    def __init__(self, f, this):
        self.f, self.this, self.env = f, this, {}


class Definit:
    def __init__(self, prog, opt):
        self.prog, self.opt = prog, opt
        self.reports = {}
        self.stack = []
        self.steps = 0
        self.spcache = {}
        self.vars = 0
        self.written = set()
        self.keep = False

    # -------------------------------------------------------------- types
    def record(self, t):
        s = t.s.replace("const ", "").strip()
        for (q, ts), r in self.prog.records.items():
            if ts == s or q == s:
                return r
        return None

    def repo(self, r):
        return not r["name"].startswith("std::")

    def sub(self, t, depth=0):
        """scalar sub-objects of a default-initialised object of type t"""
        if t is None or depth > 5:
            return []
        k = t.s, depth
        if k in self.spcache:
            return self.spcache[k]
        out = []
        if t.k in SCALAR:
            out = [()]
        elif t.s.startswith(("std::array<", "const std::array<")):
            a = t.targs
            a = a() if callable(a) else a
            if a and self.sub(a[0], depth + 1) == [()]:
                out = [("[]",)]
        elif t.k == "array":
            e = t.to() if callable(t.to) else t.to
            if e is not None and self.sub(e, depth + 1) == [()]:
                out = [("[]",)]
        elif t.k == "rec":
            r = self.record(t)
            if r is not None and self.repo(r) and not r.get("union") and "union" not in t.s and "lambda" not in t.s:
                if not self.hasctor(r):
                    for fd in r["fields"]:
                        if fd["init"] is None:
                            for p in self.sub(fd["decl"].type(), depth + 1):
                                out.append((fd["decl"].n,) + p)
        self.spcache[k] = out
        return out

    def hasctor(self, r):
        """the class has a constructor of its own that takes no arguments"""
        for f in self.ctors(r):
            if f.a.get("implicit") or f.decl.get("implicit") or f.a.get("defaulted") or f.decl.get("defaulted"):
                continue
            return True
        return False

    def ctors(self, r):
        if not hasattr(self, "_ct"):
            self._ct = {}
            for f in self.prog.functions.values():
                rec = f.decl.get("rec")
                if rec and f.name.split("<")[0] == rec.split("<")[0].split("::")[-1]:
                    self._ct.setdefault(rec, []).append(f)
        return self._ct.get(r["name"], []) or self._ct.get(r["name"].split("::")[-1], [])

    # -------------------------------------------------------------- roots
    def run(self, f, this=None, uninit=()):
        """returns the storage below `this` that may still be without a value"""
        self.root = f
        fr = Frame(f, this)
        self.stack = [fr]
        S = [(frozenset(uninit), frozenset(), False)]
        try:
            S = self.body(f, S)
        finally:
            self.stack = []
        u = set()
        for d in S:
            u |= {p for p in d[0] if this is not None and p[:len(this)] == this}
        return u

    def construct_root(self, f, r):
        this = ("T",)
        self.root = f
        self.stack = [Frame(f, this)]
        S = [(frozenset(self.fieldset(f, r, this)), frozenset(), False)]
        try:
            S = self.body(f, S)
        finally:
            self.stack = []
        u = set()
        for d in S:
            u |= {p for p in d[0] if p[:1] == this}
        return u

    def fieldset(self, f, r, this):
        """members without a value when the constructor starts"""
        u = set()
        for fd in r["fields"]:
            if fd["init"] is None:
                for p in self.sub(fd["decl"].type()):
                    u.add(this + (fd["decl"].n,) + p)
        return u

    def body(self, f, S):
        o = Out()
        fr = self.stack[-1]
        for it in f.inits:
            x = it.get("init")
            fd = it.get("field")
            if fd is not None and x is not None and fr.this is not None:
                p = fr.this + (fd.n,)
                if x.k in CTORK:
                    if x.a.get("args"):
                        S = self.ev(x, S, o)
                        S = self.assign(S, p)
                    else:
                        S = self.defctor(x, p, S, o)
                else:
                    S = self.ev(x, S, o)
                    S = self.assign(S, p)
            elif x is not None:
                if x.k in CTORK and fr.this is not None and fd is None:
                    g = self.prog.callee(x)
                    if g is not None and g.key != f.key and g.body is not None and g.decl.get("rec"):
                        S = self.inline(x, g, fr.this, list(x.a.get("args") or []), S, o)
                        continue
                S = self.ev(x, S, o)
        if f.body is not None:
            S = self.st(f.body, S, o)
        S = self.norm(S + o.ret)
        # storage of this frame ends
        d = len(self.stack)
        return self.norm([(frozenset(p for p in u if not (p[0] == "L" and p[1] == d)), a, i) for u, a, i in S])

    # -------------------------------------------------------------- states
    def norm(self, S):
        m = {}
        for u, a, i in S:
            k = u
            if k in m:
                a0, i0 = m[k]
                m[k] = (a0 & a, i0 and i)
            else:
                m[k] = (a, i)
        S = [(u, a, i) for u, (a, i) in m.items()]
        if len(S) > MAXD:
            u = frozenset().union(*[x[0] for x in S])
            S = [(u, frozenset(), True)]
        return S

    def assign(self, S, p):
        if p is None:
            return S
        out = []
        n = len(p)
        for u, a, i in S:
            self.written |= {q for q in u if q[:n] == p or q[-1] == "[]" and p[:len(q)] == q}
            u2 = frozenset(q for q in u if q[:n] != p and not (q[-1] == "[]" and p[:len(q)] == q))
            if a:
                nm = p[-1] if isinstance(p[-1], str) else None
                nm2 = p[2] if p[0] == "L" and len(p) > 2 else None
                a = frozenset(x for x in a if not (x[2] & {p, nm, nm2}))
            out.append((u2, a, i))
        return self.norm(out)

    def kill(self, S, names):
        return [(u, frozenset(x for x in a if not (x[2] & names)), i) for u, a, i in S]

    def read(self, n, S, p):
        if p is None or self.keep:
            return S
        out = []
        for u, a, i in S:
            if p in u:
                k = (n.line, p)
                self.reports[k] = self.reports.get(k, True) and i
                self.reports_node = n
                u = u - {p}
            out.append((u, a, i))
        return self.norm(out)

    # -------------------------------------------------------------- lvalues
    def lv(self, n):
        if n is None:
            return None
        k = n.k
        if k in TRANS:
            a = n.a.get("args") or n.ch
            return self.lv(a[0]) if a else None
        if k == "ImplicitCastExpr" and n.get("ck") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "ArrayToPointerDecay"):
            return self.lv(n.a["args"][0])
        if k.endswith("CastExpr") and n.get("ck") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase"):
            return self.lv(n.a["args"][0])
        if k == "DeclRefExpr":
            d = n.decl()
            if d is None or d.is_function:
                return None
            for e in (self.stack[-1].env,):
                if id_of(d) in e:
                    return e[id_of(d)]
            return None
        if k == "CXXThisExpr":
            return self.stack[-1].this
        if k == "MemberExpr":
            a = n.a.get("args") or n.ch
            if not a or n.decl() is None:
                return None
            b = self.ptr(a[0]) if n.get("arrow") else self.lv(a[0])
            return b + (n.decl().n,) if b is not None else None
        if k == "UnaryOperator" and n.get("op") == "*":
            return self.ptr(n.a["args"][0])
        if k == "ArraySubscriptExpr":
            b = self.lv(n.a["args"][0])
            if b is not None:
                t = strip(n.a["args"][0])
                t = t.type() if t is not None else None
                if t is not None and t.k == "array":
                    return b + ("[]",)
            return None
        if k in ("CXXOperatorCallExpr", "CXXMemberCallExpr"):
            o, an, d = self.parts(n)
            if d is not None and d.n in ELEM and o is not None:
                b = self.lv(o)
                if b is not None and self.isarr(o):
                    return b + ("[]",)
        return None

    def isarr(self, o):
        t = o.type()
        return t is not None and "std::array<" in t.strip_ref().s

    def ptr(self, n):
        """storage a pointer expression points to"""
        n = strip(n)
        if n is None:
            return None
        if n.k == "CXXThisExpr":
            return self.stack[-1].this
        if n.k == "UnaryOperator" and n.get("op") == "&":
            return self.lv(n.a["args"][0])
        if n.k == "DeclRefExpr" and n.decl() is not None:
            return self.stack[-1].env.get(("*", id_of(n.decl())))
        return None

    def parts(self, n):
        a = list(n.a.get("args") or [])
        d = n.decl()
        o = n.a.get("obj")
        if n.k == "CXXOperatorCallExpr":
            if d is not None and d.get("rec") is not None:
                return (a[0] if a else None), a[1:], d
            return None, a, d
        return o, a, d

    # -------------------------------------------------------------- expressions
    def ev(self, n, S, o):
        if n is None or not S:
            return S
        self.steps += 1
        k = n.k
        if k.endswith("CastExpr"):
            a = n.a.get("args") or n.ch
            if not a:
                return S
            S = self.ev(a[0], S, o)
            if n.get("ck") == "LValueToRValue":
                S = self.read(n, S, self.lv(a[0]))
            return S
        if k == "LambdaExpr":
            ids = set()
            for m in n.walk():
                if m.k == "DeclRefExpr" and m.decl() is not None:
                    p = self.stack[-1].env.get(id_of(m.decl()))
                    if p:
                        ids.add(p)
            for p in ids:
                S = self.assign(S, p)
            return S
        if k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            a, b = self.cond(n, S, o)
            return self.norm(a + b)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = n.get("op")
            l, r = n.a["args"]
            if op == "=":
                S = self.ev(r, S, o)
                S = self.ev(l, S, o)
                S = self.assign(S, self.lv(l))
                return self.kill(S, self.names(l))
            S = self.ev(l, S, o)
            S = self.ev(r, S, o)
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                S = self.read(n, S, self.lv(l))
                S = self.kill(S, self.names(l))
            return S
        if k == "UnaryOperator":
            op = n.get("op")
            S = self.ev(n.a["args"][0], S, o)
            if op in ("++", "--") or "++" in str(op) or "--" in str(op):
                S = self.read(n, S, self.lv(n.a["args"][0]))
                S = self.kill(S, self.names(n.a["args"][0]))
            elif op == "&":
                S = self.assign(S, self.lv(n.a["args"][0]))
            return S
        if k == "ConditionalOperator":
            a, b = self.cond(n.a["args"][0], S, o)
            return self.norm(self.ev(n.a["args"][1], a, o) + self.ev(n.a["args"][2], b, o))
        if k == "UnaryExprOrTypeTraitExpr" or k == "CXXNoexceptExpr":
            return S
        if k in CTORK:
            g = self.prog.callee(n)
            return self.args(n, g, None, list(n.a.get("args") or []), S, o)
        if k in CALLK:
            return self.call(n, S, o)
        if k == "CXXThrowExpr":
            for c in n.ch:
                S = self.ev(c, S, o)
            return []
        if k in ("CXXDefaultInitExpr", "CXXDefaultArgExpr"):
            return S
        for c in n.ch:
            if c is not None:
                S = self.ev(c, S, o)
        return S

    def call(self, n, S, o):
        ob, an, d = self.parts(n)
        nm = d.n if d is not None else ""
        if ob is None and n.k == "CallExpr" and n.a.get("fn") is not None:
            S = self.ev(n.a["fn"], S, o)
        if ob is not None:
            S = self.ev(ob, S, o)
        op = self.lv(ob) if ob is not None else None
        if op is None and ob is not None:
            op = self.ptr(ob)
        g = self.prog.callee(n)
        if op is not None and d is not None:
            q = d.q or ""
            if self.isarr(ob) or q.startswith("std::"):
                for i, a in enumerate(an):
                    S = self.ev(a, S, o)
                    y = strip(a)
                    pa = self.lv(a)
                    if pa is not None:
                        S = self.read(a, S, pa) if self.ptype(n, i) else self.assign(S, pa)
                    elif y is not None and y.k in ("DeclRefExpr", "UnaryOperator") and self.ptr(a) is not None:
                        S = self.assign(S, self.ptr(a))
                if nm in ELEM:
                    return S
                if nm in ("size", "empty", "max_size"):
                    return S
                if nm == "operator=" and len(an) == 1:
                    return self.assign(S, op)
                if nm in ("begin", "end", "data", "rbegin", "cbegin"):
                    return self.assign(S, op)
                return self.assign(S, op)
            if nm == "operator=" and (g is None or not g.body or g.a.get("implicit") or g.decl.get("implicit")):
                for a in an:
                    S = self.ev(a, S, o)
                return self.assign(S, op)
        return self.args(n, g, op, an, S, o)

    def args(self, n, g, this, an, S, o):
        binds = {}
        live = any(u for u, _, _ in S)
        touched = this is not None and any(q[:len(this)] == this for u, _, _ in S for q in u)
        params = g.params if g is not None else []
        esc = []
        for i, a in enumerate(an):
            p = params[i] if i < len(params) else None
            x = a
            path = self.lv(x) if (x.get("lv") or True) else None
            isr = False
            if x.k == "UnaryOperator" or strip(x) is not None and strip(x).k == "UnaryOperator" and strip(x).get("op") == "&":
                y = strip(x)
                if y.k == "UnaryOperator" and y.get("op") == "&":
                    path = self.lv(y.a["args"][0])
                    S = self.ev(y.a["args"][0], S, o)
                    if p is not None:
                        binds[("*", id_of(p))] = path
                    if path is not None and any(q[:len(path)] == path for u, _, _ in S for q in u):
                        touched = True
                        esc.append((path, False))
                    continue
            pp = self.ptr(x) if strip(x) is not None and strip(x).type() is not None and strip(x).type().k in ("ptr", "pointer") else None
            if pp is not None and p is not None:
                binds[("*", id_of(p))] = pp
                if any(q[:len(pp)] == pp for u, _, _ in S for q in u):
                    touched = True
            S = self.ev(x, S, o)
            if path is not None:
                t = p.type() if p is not None else None
                if t is not None and t.k in ("ref", "rref"):
                    binds[id_of(p)] = path
                    isr = True
                if any(q[:len(path)] == path for u, _, _ in S for q in u):
                    dt = self.ptype(n, i)
                    if isr or (p is None and not x.k.endswith("CastExpr")):
                        touched = touched or isr
                        esc.append((path, dt))
        if not touched or g is None or (g.body is None and not g.inits) or g.q.startswith("std::") or len(self.stack) > 6 or any(fr.f.key == g.key for fr in self.stack):
            for path, const in esc:
                if const:
                    S = self.read(n, S, path)
                else:
                    S = self.assign(S, path)
            if touched and this is not None:
                S = self.assign(S, this)
            return S
        return self.inline(n, g, this, an, S, o, binds)

    def ptype(self, n, i):
        """the i-th parameter is a reference to const"""
        d = n.decl()
        ps = d.get("ptypes") if d is not None else None
        if ps and i < len(ps):
            t = n.tu.types[ps[i]]
            return t.k in ("ref", "rref") and "const" in t.s.split("&")[0]
        t = d.type() if d is not None else None
        s = t.s if t is not None else ""
        m = s[s.find("(") + 1:s.rfind(")")] if "(" in s else ""
        parts = split(m)
        if i < len(parts):
            return parts[i].strip().startswith("const ") and parts[i].rstrip().endswith("&")
        return False

    def inline(self, n, g, this, an, S, o, binds=None):
        fr = Frame(g, this)
        if binds:
            fr.env.update(binds)
        self.stack.append(fr)
        try:
            S = self.body(g, S)
        finally:
            self.stack.pop()
        return S

    def defctor(self, x, p, S, o):
        """default construction of the object at p"""
        g = self.prog.callee(x)
        t = x.type()
        r = self.record(t) if t is not None and t.k == "rec" else None
        add = set()
        if r is not None and self.repo(r) and "union" not in t.s and "lambda" not in t.s and g is not None and (g.body is not None or g.inits) and not (g.decl.get("implicit") or g.a.get("implicit")):
            add = self.fieldset(g, r, p)
            S = [(u | add, a, i) for u, a, i in S]
            if len(self.stack) <= 6:
                S = self.inline(x, g, p, [], S, o)
            return self.norm(S)
        for q in self.sub(t):
            add.add(p + q)
        if r is not None and not add and self.repo(r):
            for fd in r["fields"]:
                ft = fd["decl"].type()
                if fd["init"] is None and ft.k == "rec":
                    for q in self.sub(ft):
                        add.add(p + (fd["decl"].n,) + q)
        return self.norm([(u | add, a, i) for u, a, i in S])

    # -------------------------------------------------------------- conditions
    def names(self, n):
        out = set()
        for m in n.walk():
            if m.k in ("DeclRefExpr", "MemberExpr") and m.decl() is not None and not m.decl().is_function:
                out.add(id_of(m.decl()) if m.k == "DeclRefExpr" else m.decl().n)
        return frozenset(out)

    def text(self, n):
        n = strip(n)
        if n is None:
            return "?"
        if n.k in ("DeclRefExpr", "MemberExpr"):
            return "%s%s" % (".".join(self.text(c) for c in n.ch), n.decl().n if n.decl() else "?")
        if n.k in ("IntegerLiteral", "CXXBoolLiteralExpr", "FloatingLiteral"):
            return str(n.cv())
        if n.k in CALLK:
            return "%s(%s)" % (n.decl().n if n.decl() else "?", ",".join(self.text(c) for c in n.ch))
        return "%s%s(%s)" % (n.k, n.get("op") or "", ",".join(self.text(c) for c in n.ch if c is not None))

    def cond(self, n, S, o):
        if n is None:
            return S, []
        x = n
        while x.k in TRANS or x.k == "ImplicitCastExpr" and x.get("ck") not in ("LValueToRValue",) and x.a.get("args"):
            x = (x.a.get("args") or x.ch)[0]
        if x.k == "UnaryOperator" and x.get("op") == "!":
            b, a = self.cond(x.a["args"][0], S, o)
            return a, b
        if x.k == "BinaryOperator" and x.get("op") == "&&":
            a, b = self.cond(x.a["args"][0], S, o)
            c, d = self.cond(x.a["args"][1], a, o)
            return c, self.norm(b + d)
        if x.k == "BinaryOperator" and x.get("op") == "||":
            a, b = self.cond(x.a["args"][0], S, o)
            c, d = self.cond(x.a["args"][1], b, o)
            return self.norm(a + c), d
        v = x.cv()
        S = self.ev(n, S, o)
        if v is not None and x.k != "DeclRefExpr" or x.k == "CXXBoolLiteralExpr":
            v = x.get("val") if v is None else v
            return (S, []) if v not in (0, False, "false") else ([], S)
        tx, nm = self.text(x), self.names(x)
        t, f = [], []
        for u, a, i in S:
            known = [b for (y, b, _) in a if y == tx]
            if known:
                (t if known[0] else f).append((u, a, i))
                continue
            if u and any(m & nm for (_, _, m) in a):
                i = True
            t.append((u, a | {(tx, True, nm)}, i))
            f.append((u, a | {(tx, False, nm)}, i))
        return self.norm(t), self.norm(f)

    # -------------------------------------------------------------- statements
    def st(self, n, S, o):
        if n is None or not S:
            return S
        S = self.norm(S)
        k = n.k
        if k == "CompoundStmt":
            for c in n.ch:
                S = self.st(c, S, o)
            return S
        if k == "IfStmt":
            if n.a.get("init") is not None:
                S = self.st(n.a["init"], S, o)
            t, f = self.cond(n.a.get("cond"), S, o)
            r = self.st(n.a.get("then"), t, o)
            r2 = self.st(n.a.get("else"), f, o) if n.a.get("else") is not None else f
            return self.norm(r + r2)
        if k in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt"):
            return self.loop(n, S, o)
        if k == "SwitchStmt":
            inner = Out()
            S = self.ev(n.a.get("cond"), S, o)
            live, dflt = [], False
            for c in (n.a["body"].ch if n.a.get("body") is not None else ()):
                y = c
                while y is not None and y.k in ("CaseStmt", "DefaultStmt"):
                    dflt = dflt or y.k == "DefaultStmt"
                    y = y.a.get("body") or (y.ch[-1] if y.ch else None)
                if c.k in ("CaseStmt", "DefaultStmt"):
                    live = self.norm(live + S)
                live = self.st(y if c.k in ("CaseStmt", "DefaultStmt") else c, live, inner)
            o.cont += inner.cont
            o.ret += inner.ret
            o.exc += inner.exc
            return self.norm(live + inner.brk + ([] if dflt or self.opt else S))
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            return self.st(n.a.get("body") or (n.ch[-1] if n.ch else None), S, o)
        if k == "BreakStmt":
            o.brk += S
            return []
        if k == "ContinueStmt":
            o.cont += S
            return []
        if k == "ReturnStmt":
            for c in n.ch:
                S = self.ev(c, S, o)
            o.ret += S
            return []
        if k == "CXXTryStmt":
            start = S
            r = self.st(n.a.get("body"), S, o)
            for h in n.a.get("handlers") or ():
                r = r + self.st(h.a.get("body"), start, o)
            return self.norm(r)
        if k == "DeclStmt":
            for d, x in n.a["decls"]:
                S = self.declare(n, d, x, S, o)
            return S
        if k.startswith("OMP"):
            priv = set()
            for c in n.a.get("clauses", []) or []:
                if (c.get("kind") or "") in ("private", "lastprivate"):
                    for v in c.get("vars", []):
                        p = self.stack[-1].env.get(id_of(v))
                        if p is not None:
                            priv.add((p, v))
            S0 = S
            for p, v in priv:
                add = frozenset(p + q for q in self.sub(v.type()))
                S = [(u | add, a, i) for u, a, i in S]
            S = self.st(n.a.get("body"), S, o)
            for p, v in priv:
                before = all(p not in u for u, _, _ in S0)
                if before:
                    S = self.assign(S, p)
            return S
        if k == "NullStmt":
            return S
        return self.ev(n, S, o)

    def declare(self, n, d, x, S, o):
        fr = self.stack[-1]
        if d.k not in ("Var", "VarDecl"):
            return S
        t = d.type()
        if d.get("static") or d.get("staticlocal") or d.is_global:
            return S
        if t is not None and t.k in ("ref", "rref"):
            S = self.ev(x, S, o) if x is not None else S
            p = self.lv(x) if x is not None else None
            if p is not None:
                fr.env[id_of(d)] = p
            return S
        p = ("L", len(self.stack), id_of(d))
        fr.env[id_of(d)] = p
        self.vars += 1
        S = self.assign(S, p)
        if x is None:
            add = frozenset(p + q for q in self.sub(t))
            return self.norm([(u | add, a, i) for u, a, i in S])
        y = x
        while y.k in TRANS and (y.a.get("args") or y.ch):
            y = (y.a.get("args") or y.ch)[0]
        if y.k == "CXXConstructExpr" and not y.a.get("args") and not y.get("zero") and not y.get("listinit"):
            if t.k == "rec" and not t.s.startswith("std::") or t.s.startswith("std::array"):
                return self.defctor(y, p, S, o)
            return S
        if t is not None and t.k in ("ptr", "pointer"):
            q = self.ptr(x)
            if q is not None:
                fr.env[("*", id_of(d))] = q
                return S
        return self.ev(x, S, o)

    def loop(self, n, S, o):
        inner = Out()
        if n.k == "ForStmt" and n.a.get("init") is not None:
            S = self.st(n.a["init"], S, o)
        if n.k == "CXXForRangeStmt" and n.a.get("range") is not None:
            S = self.ev(n.a["range"], S, o)
            if n.decl() is not None:
                p = ("L", len(self.stack), id_of(n.decl()))
                if not (n.decl().type() is not None and n.decl().type().k in ("ref", "rref")):
                    self.stack[-1].env[id_of(n.decl())] = p
                else:
                    q = self.lv(n.a["range"])
                    if q is not None and self.isarr(n.a["range"]):
                        self.stack[-1].env[id_of(n.decl())] = q + ("[]",)
        # what the body assigns may change any condition taken so far
        ch = set()
        for m in n.walk():
            if m.k in ("BinaryOperator", "CompoundAssignOperator") and str(m.get("op")).endswith("=") and m.get("op") not in ("==", "!=", "<=", ">="):
                ch |= self.names(m.a["args"][0])
            elif m.k == "UnaryOperator" and str(m.get("op")) in ("++", "--", "++pre", "++post"):
                ch |= self.names(m.a["args"][0])
        S = self.kill(S, frozenset(ch))
        out = []
        if n.k == "DoStmt":
            t = S
            first_out = []
        elif n.k == "CXXForRangeStmt":
            t, first_out = S, S
        elif n.a.get("cond") is None:
            t, first_out = S, []
        else:
            t, first_out = self.cond(n.a["cond"], S, o)
            c = strip(n.a["cond"])
            forever = c is not None and c.cv() not in (None, 0, False) and c.k != "DeclRefExpr"
            if forever:
                first_out = []
        t = self.kill(t, frozenset(ch))
        r = self.st(n.a.get("body"), t, inner)
        r = self.norm(r + inner.cont)
        if n.k == "ForStmt" and n.a.get("inc") is not None:
            r = self.ev(n.a["inc"], r, o)
        endless = n.k in ("WhileStmt", "ForStmt") and not first_out and (n.a.get("cond") is None or strip(n.a["cond"]) is not None and strip(n.a["cond"]).cv() not in (None, 0, False))
        if n.k in ("DoStmt", "WhileStmt", "ForStmt") and n.a.get("cond") is not None:
            r = self.ev(n.a["cond"], self.kill(r, frozenset(ch)), o)
        out = inner.brk + ([] if endless else r)
        if n.k != "DoStmt" and not self.opt:
            out += first_out
        elif n.k != "DoStmt" and not out:
            out = first_out
        o.ret += inner.ret
        o.exc += inner.exc
        return self.norm(self.kill(out, frozenset(ch)))


def split(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out
