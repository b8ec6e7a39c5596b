"""Interprocedural read/write effects over abstract locations.

A location is (root, path).  Roots: ("P", i) the object parameter i refers or
points to; ("T",) *this; ("G", key) a global or static; ("L", decl) a local
variable; ("N", node) storage obtained inside the function; ("U",) unknown.
Path elements: ("f", name) member, ("[]", idx) element of an array or container
(idx = canonical index expression or None), ("*",) object a pointer member
points to.

Every function gets a summary: the accesses (location, read/write, locks held,
originating node) it or its callees may make, expressed over its parameters,
*this and globals, plus the pointers it stores.  Summaries are computed to a
fixpoint over the call graph."""
from collections import namedtuple

Acc = namedtuple("Acc", "root path w locks node fn via dyn")

MAXP = 6
STRIP = {"ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr",
         "CXXFunctionalCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXDynamicCastExpr"}
CALLS = {"CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"}
REFMEM = {"operator[]", "at", "front", "back", "begin", "end", "rbegin", "rend", "data", "cbegin", "cend", "find", "lower_bound", "upper_bound", "get", "operator*", "operator->", "value", "c_str", "str", "base", "top", "second", "first"}
WRITE_ALGOS = {"fill", "fill_n", "generate", "iota", "sort", "stable_sort", "reverse", "memset", "rotate", "partial_sum", "nth_element", "swap", "iter_swap", "uninitialized_fill"}
COPY_ALGOS = {"copy", "copy_n", "transform", "memcpy", "memmove", "move_backward", "copy_backward"}
STREAMS = ("std::cout", "std::cerr", "std::clog", "std::cin")


def strip(n):
    while n is not None and n.k in STRIP:
        a = n.a.get("args") or n.ch
        if not a:
            break
        n = a[0]
    return n


def isptr(t):
    return t is not None and t.strip_ref().k in ("ptr", "pointer")


def isref(t):
    return t is not None and t.k in ("ref", "rref")


def is_iter(t):
    if t is None:
        return False
    s = t.strip_ref().s
    return "__normal_iterator" in s or "_iterator" in s or "::iterator" in s or "_Bit_reference" in s


def is_smart(t):
    s = t.strip_ref().s if t else ""
    s = s.replace("const ", "")
    return s.startswith("std::unique_ptr<") or s.startswith("std::shared_ptr<")


def args_of(n):
    """(object, arguments) of a call node"""
    a = n.a.get("args") or []
    o = n.a.get("obj")
    if n.k == "CXXOperatorCallExpr" and n.a.get("member"):
        return (a[0] if a else None), a[1:]
    return o, a


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.sum = {}
        self.fns = [f for f in prog.functions.values() if f.body is not None or f.inits]
        self.isptr_cache = {}
        self.over = {}
        for f in self.fns:
            for k in f.decl.get("over", []) or []:
                self.over.setdefault(f.tu.decls[k].key if isinstance(k, int) else k, []).append(f)
        self.lambdas = {}
        for f in self.fns:
            self.sum[f.key] = FnEff(self, f)
        self.rounds = 0
        # callers, for a worklist
        order = list(self.fns)
        for rnd in range(30):
            ch = False
            for f in order:
                if self.sum[f.key].compute():
                    ch = True
            self.rounds = rnd + 1
            if not ch:
                break

    def __getitem__(self, f):
        return self.sum[f.key]

    def targets(self, node):
        f = self.prog.callee(node)
        r = []
        if f is not None and (f.body is not None or f.inits):
            r.append(f)
        d = node.decl()
        if d is not None and d.get("virtual"):
            o, _ = args_of(node)
            ex = exact_type(o) if o is not None else None
            for g in self.over.get(d.key, []):
                if g in r or (ex is not None and g.decl.get("rec") != ex):
                    continue
                if node.fn is not None and node.fn.key == g.key:
                    continue        # Base::f() called from the override of f
                r.append(g)
        return r


def exact_type(o):
    """class of a receiver whose dynamic type is its static type"""
    o = strip_keep(o)
    if o is None:
        return None
    while o.k == "ImplicitCastExpr" and o.a.get("ck") in ("NoOp",):
        o = o.a["args"][0]
    if o.k in ("DeclRefExpr", "MemberExpr") and o.decl() is not None and not o.decl().is_function:
        t = o.decl().type()
        if t is not None and t.k == "rec":
            return t.s.replace("const ", "")
    return None


def on_this(o):
    o = strip(o)
    return o is not None and o.k == "CXXThisExpr"


class FnEff:
    def __init__(self, E, fn):
        self.E, self.fn = E, fn
        self.acc = {}        # key -> Acc  (everything, including locals)
        self.pt = {}         # location (root,path) holding a pointer -> set of pointee locations
        self.rets = set()    # pointee locations of a returned pointer/reference
        self.guards = None
        self.pidx = {}
        for i, p in enumerate(fn.params):
            self.pidx[id_of(p)] = i
        self.nodes = None

    # ---------------------------------------------------------- roots
    def root_of_decl(self, d):
        """location denoted by the name d, following references"""
        if d.get("global") or d.k == "Var" and d.get("static"):
            if d.q.startswith(STREAMS):
                return {(("G", d.q), ())}
            return {(("G", d.key or d.q), ())}
        i = self.pidx.get(id_of(d))
        t = d.type()
        if i is not None:
            if isref(t):
                return {(("P", i), ())}
            return {(("L", id_of(d)), ())}
        if isref(t):
            return self.pt.get((("L", id_of(d)), ()), set()) or {(("U",), ())}
        return {(("L", id_of(d)), ())}

    def deref(self, loc):
        """objects a pointer stored at loc may point to"""
        root, path = loc
        if root[0] == "L" and not path:
            for p, i in self.pidx.items():
                if root[1] == p and i is not None:
                    t = self.fn.params[i].type()
                    if isptr(t) or is_iter(t):
                        return {(("P", i), ())} | self.pt.get(loc, set())
        k = (root, norm(path))
        if k in self.pt:
            return self.pt[k]
        if root[0] == "U":
            return {loc}
        if len(path) >= MAXP:
            return {(root, path)}
        return {(root, path + (("*",),))}

    # ---------------------------------------------------------- expressions
    def loc(self, n):
        """locations denoted by an lvalue expression"""
        n0 = n
        n = strip(n)
        if n is None:
            return set()
        k = n.k
        if k == "DeclRefExpr":
            d = n.decl()
            if d is None or d.is_function or d.k == "EnumConstant":
                return set()
            return self.root_of_decl(d)
        if k == "CXXThisExpr":
            return {(("T",), ())}
        if k == "MemberExpr":
            d = n.decl()
            if d is not None and (d.is_function):
                return set()
            b = n.a["args"][0] if n.a.get("args") else None
            if d is not None and d.get("global"):
                return {(("G", d.key or d.q), ())}
            if b is None:
                return {(("U",), ())}
            bases = self.pts(b) if n.a.get("arrow") else self.loc(b)
            r = set()
            for (rt, p) in bases:
                l = (rt, add(p, ("f", d.n)))
                ft = d.type()
                if isref(ft):
                    r |= self.deref(l)
                else:
                    r.add(l)
            return r
        if k == "ArraySubscriptExpr":
            a, b = n.a["args"]
            idx = self.idx(b)
            sa = strip(a)
            # array or pointer
            if sa.type() is not None and sa.type().strip_ref().k in ("array", "carray", "constarray"):
                return {(r, add(p, ("[]", idx))) for r, p in self.loc(sa)}
            return {(r, reidx(p, idx)) for r, p in self.pts(a)}
        if k == "UnaryOperator":
            op = n.a.get("op")
            if op == "*":
                return self.pts(n.a["args"][0])
            if op in ("++", "--"):
                return self.loc(n.a["args"][0])
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.a.get("op") == ",":
                return self.loc(n.a["args"][1])
            return self.loc(n.a["args"][0])
        if k == "ConditionalOperator":
            a = n.a.get("args") or n.ch
            return self.loc(a[-1]) | self.loc(a[-2])
        if k in CALLS:
            t = n.type()
            if n.a.get("lv") or is_iter(t) or True:
                return self.call_result(n)
        return {(("N", n.i), ())}

    def call_result(self, n):
        """object a reference-returning call denotes / pointer-returning call points to"""
        o, a = args_of(n)
        d = n.decl()
        name = d.n if d is not None else n.a.get("op", "")
        fs = self.E.targets(n)
        if fs:
            r = set()
            for f in fs:
                s = self.E.sum[f.key]
                for loc in s.rets:
                    r |= self.inst(loc, n, s)
            return r or {(("N", n.i), ())}
        if n.k == "CXXOperatorCallExpr":
            op = n.a.get("op")
            if op == "[]":
                return {(r, add(p, ("[]", self.idx(a[0] if a else None)))) for r, p in self.loc(o)}
            if op in ("*", "->"):
                base = o if o is not None else (a[0] if a else None)
                if is_smart(strip(base).type()):
                    return {(r, add(p, ("*",))) for r, p in self.loc(base)}
                return self.pts(base)
            if op in ("=", "+=", "-=", "++", "--", "<<", ">>", "*=", "/="):
                x = o if o is not None else (a[0] if a else None)
                if op in ("<<", ">>", "=", "+=", "-=", "++", "--", "*=", "/=") and x is not None:
                    if is_iter(strip(x).type()):
                        return self.pts(x)
                    return self.loc(x)
            if op in ("+", "-"):
                x = o if o is not None else (a[0] if a else None)
                if x is not None and is_iter(strip(x).type()):
                    return self.pts(x)
        if o is not None and name in REFMEM:
            ot = strip(o).type()
            base = self.pts(o) if n.a.get("arrow") else self.loc(o)
            if is_smart(ot) or (isptr(ot) and is_smart(ot.strip_ref().to())):
                return {(r, add(p, ("*",))) for r, p in base}
            idx = self.idx(a[0]) if name in ("at",) and a else None
            return {(r, add(p, ("[]", idx))) for r, p in base}
        if name in ("move", "forward", "addressof", "begin", "end", "ref", "cref", "get") and a:
            if name in ("begin", "end"):
                return {(r, add(p, ("[]", None))) for r, p in self.loc(a[0])}
            return self.loc(a[0])
        if name in ("min", "max") and a and n.a.get("lv"):
            return self.loc(a[0]) | self.loc(a[1])
        return {(("N", n.i), ())}

    def pts(self, n):
        """objects a pointer (or iterator) valued expression may point to"""
        n = strip_ptr(n)
        if n is None:
            return set()
        k = n.k
        if k == "CXXThisExpr":
            return {(("T",), ())}
        if k == "UnaryOperator":
            op = n.a.get("op")
            if op == "&":
                return self.loc(n.a["args"][0])
            if op in ("++", "--"):
                return self.pts(n.a["args"][0])
            if op == "*":
                r = set()
                for l in self.loc(n):
                    r |= self.deref(l)
                return r
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = n.a.get("op")
            a = n.a["args"]
            if op in ("+", "-"):
                if isptr(a[0].type()) or (a[0].type() and a[0].type().strip_ref().k in ("array",)):
                    return self.pts(a[0])
                if isptr(a[1].type()):
                    return self.pts(a[1])
                return set()
            if op == "=":
                return self.pts(a[1]) | self.pts(a[0])
            if op == ",":
                return self.pts(a[1])
            if op in ("+=", "-="):
                return self.pts(a[0])
            return set()
        if k == "ConditionalOperator":
            a = n.a.get("args") or n.ch
            return self.pts(a[-1]) | self.pts(a[-2])
        if k in ("CXXNewExpr",):
            return {(("N", n.i), ())}
        if k in ("CXXNullPtrLiteralExpr", "IntegerLiteral", "GNUNullExpr"):
            return set()
        if k == "StringLiteral":
            return set()
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            a = n.a.get("args") or []
            if is_iter(n.type()) and a:
                return self.pts(a[0])
            return {(("N", n.i), ())}
        if k in CALLS:
            if is_iter(n.type()) or isptr(n.type()) or n.a.get("lv"):
                r = self.call_result(n)
                if n.a.get("lv") and (isptr(n.type()) or is_iter(n.type())):
                    # reference to a pointer
                    nm = n.decl().n if n.decl() is not None else ""
                    if not (n.k == "CXXOperatorCallExpr" and n.a.get("op") in ("++", "--", "+=", "-=") and is_iter(n.type())):
                        q = set()
                        for l in r:
                            q |= self.deref(l)
                        return q
                return r
            return {(("N", n.i), ())}
        t = n.type()
        if t is not None and t.strip_ref().k in ("array", "carray", "constarray"):
            return {(r, add(p, ("[]", None))) for r, p in self.loc(n)}
        r = set()
        for l in self.loc(n):
            r |= self.deref(l)
        return r

    def idx(self, n):
        if n is None:
            return None
        n = strip(n)
        if n.k == "DeclRefExpr":
            d = n.decl()
            if d is not None and not d.is_function:
                if d.k == "EnumConstant":
                    return ("c", n.a.get("cv"))
                return ("v", id_of(d))
        if n.a.get("cv") is not None:
            return ("c", n.a["cv"])
        ds = frozenset(id_of(x.decl()) for x in n.walk() if x.k == "DeclRefExpr" and x.decl() is not None and not x.decl().is_function)
        return ("e", ds)

    # ---------------------------------------------------------- instantiation
    def inst(self, loc, n, s):
        """a callee location in terms of this function, at call node n"""
        root, path = loc
        o, a = args_of(n)
        bases = None
        if root[0] == "P":
            i = root[1]
            if i < len(a):
                pt = s.fn.params[i].type()
                bases = self.pts(a[i]) if (isptr(pt) or is_iter(pt)) and not isref(pt) else self.loc_or_tmp(a[i])
                if isref(pt) and isptr(pt) :
                    bases = self.loc_or_tmp(a[i])
            else:
                bases = set()
        elif root[0] == "T":
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                bases = self.ctor_target(n)
            elif o is None:
                bases = set()
            elif n.k == "CXXMemberCallExpr" and n.a.get("arrow"):
                bases = self.pts(o)
            elif n.k == "CXXMemberCallExpr" and isptr(strip_keep(o).type()):
                bases = self.pts(o)
            else:
                bases = self.loc_or_tmp(o)
        elif root[0] == "G":
            return {loc}
        elif root[0] == "U":
            return {loc}
        else:
            return set()
        r = set()
        for (br, bp) in bases:
            cur = {(br, bp)}
            for e in path:
                nx = set()
                if e[0] == "[]":
                    e = ("[]", self.inst_idx(e[1], n, s))
                for (cr, cp) in cur:
                    if e == ("*",):
                        nx |= self.deref((cr, cp))
                    else:
                        nx.add((cr, add(cp, e)))
                cur = nx
            r |= cur
        return r

    def inst_idx(self, ix, n, s):
        if ix is None:
            return None
        o, a = args_of(n)
        if ix[0] == "c":
            return ix
        ds = [ix[1]] if ix[0] == "v" else list(ix[1])
        out = set()
        single = None
        for d in ds:
            i = s.pidx.get(d)
            if i is None:
                return None
            if i >= len(a):
                return None
            x = self.idx(a[i])
            if x is None:
                return None
            single = x
            if x[0] == "v":
                out.add(x[1])
            elif x[0] == "e":
                out |= x[1]
        if ix[0] == "v":
            return single
        return ("e", frozenset(out))

    def loc_or_tmp(self, n):
        m = strip(n)
        if m is not None and m.k in CALLS and not m.a.get("lv"):
            if is_iter(m.type()):
                return self.pts(m)
            return {(("N", m.i), ())}
        return self.loc(n)

    def ctor_target(self, n):
        p = n.parent
        m = n
        while p is not None and p.k in STRIP:
            m, p = p, p.parent
        if p is not None and p.k == "DeclStmt":
            for d, x in p.a["decls"]:
                if x is m:
                    return {(("L", id_of(d)), ())}
        for it in self.fn.inits:
            if it.get("init") is not None:
                y = it["init"]
                while y is not None and y is not n and y.k in STRIP:
                    y = (y.a.get("args") or [None])[0]
                if y is n:
                    f = it.get("field") or it.get("decl")
                    nm = fld_name(it, self.fn)
                    if nm:
                        return {(("T",), (("f", nm),))}
                    return {(("T",), ())}      # base class
        return {(("N", n.i), ())}

    # ---------------------------------------------------------- the walk
    def add_pt(self, dst, srcs):
        k = (dst[0], norm(dst[1]))
        s = self.pt.setdefault(k, set())
        if dst[0][0] != "L" or len(s) > 3:
            srcs = {(r, norm(p)) for r, p in srcs}
        if len(s) > 24:
            return
        if not srcs <= s:
            s |= srcs
            self.changed = True

    def access(self, locs, w, node, locks=None, fn=None, via=(), dyn=None):
        if locks is None:
            locks = self.locks_at(node)
        for (r, p) in locs:
            if r[0] in ("N",):
                continue
            k = (r, p, w, locks, self.region_of(node if not via else via[0]), dyn)
            if k not in self.acc:
                if len(self.acc) > 4000:
                    continue
                self.acc[k] = Acc(r, p, w, locks, node, fn or self.fn, via, dyn)
                self.changed = True

    def region_of(self, node):
        """innermost parallel region or lambda body of this function around node"""
        rs = getattr(self, "_regs", None)
        if rs is None:
            rs = self._regs = {}
            if self.fn.body is not None:
                for n in self.fn.body.walk():
                    if n.k == "LambdaExpr" or (n.k.startswith("OMP") and ("Parallel" in n.k or "Task" in n.k)):
                        for m in n.walk():
                            if m is not n:
                                rs[m.i] = n.i
        return rs.get(node.i) if node is not None else None

    def compute(self):
        self.changed = False
        fn = self.fn
        if self.guards is None:
            self.find_guards()
        for it in fn.inits:
            nm = fld_name(it, fn)
            x = it.get("init")
            if nm:
                self.access({(("T",), (("f", nm),))}, True, x if x is not None else fn.body, locks=frozenset())
                if x is not None:
                    ft = fld_type(it, fn)
                    dst = (("T",), (("f", nm),))
                    if isref(ft):
                        self.add_pt(dst, self.loc(x))
                    elif isptr(ft):
                        self.add_pt(dst, self.pts(x))
            if x is not None:
                for n in x.walk():
                    self.visit(n)
        if fn.body is not None:
            for n in fn.body.walk():
                if n.k == "LambdaExpr" :
                    pass
                self.visit(n)
        return self.changed

    def visit(self, n):
        k = n.k
        if k == "DeclStmt":
            for d, x in n.a["decls"]:
                if x is None:
                    continue
                t = d.type()
                l = (("L", id_of(d)), ())
                if d.get("static") or d.get("global"):
                    continue        # initialised once, thread-safely
                if isref(t):
                    self.add_pt(l, self.loc(x))
                elif isptr(t) or is_iter(t):
                    self.add_pt(l, self.pts(x))
                self.access({l}, True, n)
            return
        if k == "CXXForRangeStmt":
            d = n.decl()
            if d is not None and n.a.get("range") is not None:
                src = {(r, add(p, ("[]", None))) for r, p in self.loc(n.a["range"])}
                l = (("L", id_of(d)), ())
                if isref(d.type()):
                    self.add_pt(l, src)
                self.access(src, False, n)
            return
        if k == "BinaryOperator" and n.a.get("op") == "=":
            lhs, rhs = n.a["args"]
            L = self.loc(lhs)
            self.access(L, True, n)
            if isptr(lhs.type()):
                src = self.pts(rhs)
                for l in L:
                    self.add_pt(l, src)
            return
        if k == "CompoundAssignOperator":
            L = self.loc(n.a["args"][0])
            self.access(L, True, n)
            self.access(L, False, n)
            return
        if k == "UnaryOperator" and n.a.get("op") in ("++", "--"):
            L = self.loc(n.a["args"][0])
            self.access(L, True, n)
            self.access(L, False, n)
            return
        if k == "ImplicitCastExpr" and n.a.get("ck") == "LValueToRValue":
            self.access(self.loc(n.a["args"][0]), False, n)
            return
        if k == "ReturnStmt":
            a = n.a.get("args") or n.ch
            if a:
                rt = self.fn.ret
                if isref(rt):
                    r = self.loc(a[0])
                elif isptr(rt) or is_iter(rt):
                    r = self.pts(a[0])
                else:
                    r = set()
                    # by-value copy of an object
                    m = strip(a[0])
                r = {(x, p) for x, p in r if x[0] != "L"}
                if len(self.rets) > 8:
                    r = {(x, norm(p)) for x, p in r}
                if not r <= self.rets:
                    self.rets |= r
                    self.changed = True
            return
        if k in CALLS:
            self.visit_call(n)

    def visit_call(self, n):
        o, a = args_of(n)
        d = n.decl()
        fs = self.E.targets(n)
        if fs:
            for f in fs:
                s = self.E.sum[f.key]
                mine = on_this(o)
                ex = exact_type(o) if o is not None and not mine else None
                over = d is not None and d.get("virtual") and f.key != d.key
                for acc in list(s.acc.values()):
                    if acc.root[0] in ("L", "N"):
                        continue
                    dyn = acc.dyn
                    if ex is not None and dyn is not None and dyn != ex:
                        continue
                    if mine:
                        dyn = f.decl.get("rec") if over else dyn
                    else:
                        dyn = None
                    for l in self.inst((acc.root, acc.path), n, s):
                        locks = self.locks_at(n)
                        for lk in acc.locks:
                            for (r, p) in self.inst(lk, n, s):
                                locks = locks | {(r, norm(p))}
                        self.access({l}, acc.w, acc.node, locks=locks, fn=acc.fn, via=((n,) + acc.via)[:6], dyn=dyn)
                for dst, srcs in list(s.pt.items()):
                    if dst[0][0] in ("L", "N"):
                        continue
                    ss = set()
                    for x in srcs:
                        if x[0][0] in ("N", "L"):
                            continue
                        ss |= self.inst(x, n, s)
                    if ss:
                        for dl in self.inst(dst, n, s):
                            self.add_pt(dl, ss)
            return
        # library code
        name = d.n if d is not None else n.a.get("op", "")
        q = d.q if d is not None else ""
        if q.startswith(("std::atomic", "std::__atomic")) or (o is not None and strip(o).type() is not None and ("atomic<" in strip(o).type().s)):
            return
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            for x in a:
                t = x.type()
                if t is not None and not isptr(t) and x.k not in ("IntegerLiteral",) and strip(x).a.get("lv"):
                    self.access(self.loc(x), False, n)
            if d is not None and d.get("copy_or_move_of_ptr"):
                pass
            return
        if n.k == "CXXOperatorCallExpr":
            op = n.a.get("op")
            x = o if o is not None else (a[0] if a else None)
            rest = a if o is not None else a[1:]
            if op in ("=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^=", "++", "--"):
                if is_iter(strip(x).type()) and strip(x).k == "DeclRefExpr":
                    self.access(self.loc(x), True, n)
                    if op == "=" and rest:
                        for l in self.loc(x):
                            self.add_pt(l, self.pts(rest[0]))
                else:
                    self.access(self.loc(x), True, n)
                for y in rest:
                    if strip(y).a.get("lv"):
                        self.access(self.loc(y), False, n)
                return
            if op in ("<<", ">>") and x is not None and "stream" in (strip(x).type().s if strip(x).type() else ""):
                self.access(self.loc(x), True, n)
                for y in rest:
                    if strip(y).a.get("lv"):
                        self.access(self.loc(y), op == ">>", n)
                return
            if op == "[]" and x is not None and not const_method(d):
                ts = strip(x).type().strip_ref().s if strip(x).type() else ""
                if "map<" in ts:
                    self.access(self.loc(x), True, n)
                return
            for y in ([x] if x is not None else []) + list(rest):
                if strip(y) is not None and strip(y).a.get("lv"):
                    self.access(self.loc(y), False, n)
            return
        if o is not None:
            base = self.pts(o) if n.a.get("arrow") else self.loc(o)
            if name in REFMEM or const_method(d):
                if const_method(d):
                    self.access({(r, p) for r, p in base}, False, n)
            else:
                self.access(base, True, n)
        pts = d.get("pt", []) if d is not None else []
        for i, x in enumerate(a):
            pt = None
            if d is not None and i < len(pts):
                pt = n.tu.types[pts[i]]
            sx = strip(x)
            if sx is None:
                continue
            if name in WRITE_ALGOS and i < (1 if name in ("fill_n", "memset") else 2):
                if isptr(sx.type()) or is_iter(sx.type()) or isptr(x.type()):
                    self.access({(r, reidx(p, None)) for r, p in self.pts(x)}, True, n)
                    continue
            if name in COPY_ALGOS:
                out = {"copy": 2, "copy_n": 2, "transform": 2, "memcpy": 0, "memmove": 0}.get(name, 2)
                if isptr(x.type()) or is_iter(sx.type()):
                    self.access(self.pts(x), i == out, n)
                    continue
            if pt is not None and isref(pt):
                to = pt.to()
                if to is not None and not to.const and pt.k == "ref" and sx.a.get("lv"):
                    self.access(self.loc(x), name not in ("move", "forward", "begin", "end", "ref", "addressof", "async", "emplace_back", "make_pair", "get"), n)
                elif sx.a.get("lv"):
                    self.access(self.loc(x), False, n)
            elif pt is not None and isptr(pt):
                to = pt.strip_ref().to()
                if to is not None and not to.const and to.k != "func":
                    self.access(self.pts(x), True, n)
                else:
                    self.access(self.pts(x), False, n)

    # ---------------------------------------------------------- locks
    def find_guards(self):
        """scoped lock objects: (decl, mutex expr, compound, try)"""
        self.guards = []
        if self.fn.body is None:
            return
        for n in self.fn.body.walk():
            if n.k != "DeclStmt":
                continue
            for d, x in n.a["decls"]:
                t = d.type()
                if t is None or x is None:
                    continue
                s = t.strip_ref().s
                c = strip(x)
                if c is None or c.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    continue
                a = c.a.get("args") or []
                kind = None
                if s.startswith(("std::lock_guard<", "std::scoped_lock<")):
                    kind = "lock"
                elif s.startswith("std::unique_lock<"):
                    tg = " ".join((strip(y).type().s if strip(y).type() else "") for y in a[1:])
                    kind = "try" if "try_to_lock" in tg else ("none" if "defer" in tg else "lock")
                else:
                    kind = self.raii(c)
                if kind in ("lock", "try") and a:
                    p = n.parent
                    self.guards.append((d, n, a[0], p, kind))

    def raii(self, c):
        """is this a class whose constructor takes the lock passed to it and
        whose destructor releases it?"""
        f = self.E.prog.callee(c)
        if f is None or f.body is None:
            return None
        names = set()
        for n in f.walk():
            if n.k in CALLS and n.decl() is not None:
                names.add(n.decl().n)
        rel = set()
        for g in self.E.fns:
            if g.decl.get("rec") == f.decl.get("rec") and g.decl.n.startswith("~") and g.body is not None:
                for n in g.walk():
                    if n.k in CALLS and n.decl() is not None:
                        rel.add(n.decl().n)
        if not rel & {"omp_unset_lock", "unlock", "omp_unset_nest_lock", "pthread_mutex_unlock"}:
            return None
        if names & {"omp_test_lock", "try_lock", "omp_test_nest_lock", "pthread_mutex_trylock"}:
            return "try"
        if names & {"omp_set_lock", "lock", "omp_set_nest_lock", "pthread_mutex_lock"}:
            return "lock"
        return None

    def locks_at(self, node):
        if not self.guards and not self.has_critical():
            return frozenset()
        c = getattr(self, "_lc", None)
        if c is None:
            c = self._lc = {}
        if node.i in c:
            return c[node.i]
        out = set()
        # ancestors
        chain = []
        p = node
        while p is not None:
            chain.append(p)
            p = p.parent
        anc = {id(x) for x in chain}
        for x in chain:
            if x.k == "OMPCriticalDirective":
                out.add((("G", "critical:" + str(x.a.get("name", ""))), ()))
            if x.k == "OMPAtomicDirective":
                out.add((("G", "atomic"), ()))
        for d, stmt, mx, comp, kind in self.guards or []:
            if comp is None or id(comp) not in anc:
                continue
            kids = comp.ch
            pos = next((i for i, y in enumerate(kids) if y is stmt), None)
            mine = next((i for i, y in enumerate(kids) if id(y) in anc), None)
            if pos is None or mine is None or mine <= pos:
                continue
            if kind == "try":
                held = False
                # if (owns) { ... node ... }   or   if (!owns) return;  before
                for i in range(pos + 1, mine):
                    y = kids[i]
                    if y.k == "IfStmt" and self.owns(y.a.get("cond"), d) is False and leaves(y.a.get("then")):
                        held = True
                for x in chain:
                    q = x.parent
                    if q is not None and q.k == "IfStmt":
                        if q.a.get("then") is x and self.owns(q.a.get("cond"), d) is True:
                            held = True
                        if q.a.get("else") is x and self.owns(q.a.get("cond"), d) is False:
                            held = True
                        # nested early return inside an inner block
                    if q is not None and q.k == "CompoundStmt":
                        for y in q.ch:
                            if y is x:
                                break
                            if y.k == "IfStmt" and self.owns(y.a.get("cond"), d) is False and leaves(y.a.get("then")):
                                held = True
                if not held:
                    continue
            # explicit unlock in between
            if any(self.unlocks(kids[i], d) for i in range(pos + 1, mine)):
                continue
            m = strip_keep(mx)
            locs = self.pts(mx) if isptr(m.type()) else self.loc(mx)
            for (r, p) in locs:
                out.add((r, norm(p)))
        c[node.i] = frozenset(out)
        return c[node.i]

    def unlocks(self, st, d):
        for n in st.walk():
            if n.k == "CXXMemberCallExpr" and n.decl() is not None and n.decl().n in ("unlock", "release"):
                o = strip(n.a.get("obj"))
                if o is not None and o.k == "DeclRefExpr" and o.decl() is d:
                    return True
        return False

    def has_critical(self):
        h = getattr(self, "_hc", None)
        if h is None:
            h = self._hc = self.fn.body is not None and any(n.k in ("OMPCriticalDirective", "OMPAtomicDirective") for n in self.fn.body.walk())
        return h

    def owns(self, c, d):
        """True: c implies that the guard d owns its lock; False: c is the negation; None: unrelated"""
        c = strip(c)
        if c is None:
            return None
        if c.k == "UnaryOperator" and c.a.get("op") == "!":
            r = self.owns(c.a["args"][0], d)
            return None if r is None else not r
        if c.k == "BinaryOperator" and c.a.get("op") == "&&":
            for x in c.a["args"]:
                if self.owns(x, d) is True:
                    return True
            return None
        if c.k == "BinaryOperator" and c.a.get("op") == "||":
            for x in c.a["args"]:
                if self.owns(x, d) is False:
                    return False
            return None
        if c.k == "CXXMemberCallExpr":
            o = strip(c.a.get("obj"))
            if o is not None and o.k == "DeclRefExpr" and o.decl() is d:
                nm = c.decl().n
                if nm in ("owns_lock", "operator bool"):
                    return True
                f = self.E.prog.callee(c)
                if f is not None and f.body is not None:
                    return True if returns_member_bool(f) else None
        if c.k == "DeclRefExpr" and c.decl() is d:
            return True
        if c.k == "DeclRefExpr":
            # const bool owns = lock.owns_lock();
            for n in self.fn.body.walk():
                if n.k == "DeclStmt":
                    for v, x in n.a["decls"]:
                        if v is c.decl() and x is not None:
                            return self.owns(x, d)
        return None


def returns_member_bool(f):
    for n in f.body.walk():
        if n.k == "ReturnStmt":
            a = strip((n.a.get("args") or n.ch)[0])
            if a.k == "MemberExpr" and a.type() is not None and a.type().k == "bool":
                return True
    return False


def leaves(n):
    """does this statement always leave the function / loop iteration?"""
    if n is None:
        return False
    if n.k in ("ReturnStmt", "CXXThrowExpr", "ContinueStmt", "BreakStmt"):
        return True
    if n.k == "CompoundStmt":
        return any(leaves(x) for x in n.ch)
    if n.k == "ExprWithCleanups":
        return any(leaves(x) for x in n.ch)
    if n.k == "IfStmt":
        return leaves(n.a.get("then")) and leaves(n.a.get("else"))
    return False


def const_method(d):
    return bool(d is not None and d.get("constm"))


def id_of(d):
    return (d.tu.rel if hasattr(d.tu, "rel") else id(d.tu), d.idx) if getattr(d, "idx", None) is not None else id(d)


def strip_ptr(n):
    return strip(n)


def strip_keep(n):
    while n is not None and n.k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
        n = n.a["args"][0]
    return n


def norm(p):
    """path with index expressions dropped"""
    return tuple(("[]", None) if e[0] == "[]" else e for e in p)


def add(p, e):
    if len(p) >= MAXP:
        return p
    return p + (e,)


def reidx(p, idx):
    """p points into an array: replace the last element index by idx"""
    if p and p[-1][0] == "[]":
        return p[:-1] + (("[]", idx if p[-1][1] is None else None),)
    return p + (("[]", idx),) if len(p) < MAXP else p


def fld_name(it, fn):
    d = it.get("field")
    if d is None:
        d = it.get("d")
    if isinstance(d, int):
        d = fn.tu.decls[d]
    return getattr(d, "n", None)


def fld_type(it, fn):
    d = it.get("field")
    if d is None:
        d = it.get("d")
    if isinstance(d, int):
        d = fn.tu.decls[d]
    return d.type() if d is not None and hasattr(d, "type") else None


def mods(E, fns):
    """names of the fields of *this (outermost member) written"""
    out = set()
    for f in fns:
        for a in E.sum[f.key].acc.values():
            if a.w:
                out.add((a.root, a.path))
    return out


def unframe(E, prog, t):
    """a field read after a call that does not write this field has the value it
    had before the call"""
    from terms import T, mk, sel, subterms, subst
    cache = {}

    def writes(q, field):
        k = (q, field)
        if k not in cache:
            fs = prog.fns(q=q)
            w = not fs
            for f in fs:
                s = E.sum.get(f.key)
                if s is None:
                    w = True
                    continue
                for a in s.acc.values():
                    if a.w and a.root[0] in ("P", "T", "U") and (not a.path or a.path[0] == ("f", field)):
                        w = True
            cache[k] = w
        return cache[k]

    for _ in range(40):
        m = {}
        for x in subterms(t):
            if x.op == "sel" and x.args[1][0] == "f":
                b = x.args[0]
                if isinstance(b, T) and b.op == "eff" and not writes(b.args[0], x.args[1][1]):
                    m[x] = sel(b.args[1], x.args[1])
        if not m:
            return t
        t = subst(t, m)
    return t
