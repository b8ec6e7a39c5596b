"""Ownership of raw memory: a path-sensitive abstract interpretation of the functions that obtain or release it.

A state maps places (locals, fields of the receiver or of a pointer parameter) to abstract blocks.
Blocks are named by the expression that obtained them; what a place holds on entry is a block of its own.
Both outcomes of undecidable conditions are followed; conditions on pointers and flags refine the state.
Every call that may raise (exception flow of throws.py) adds an exceptional exit with the state before the call."""

CASTS = ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "MaterializeTemporaryExpr",
         "ConstantExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "CXXBindTemporaryExpr", "CXXDefaultInitExpr", "CXXDefaultArgExpr", "SubstNonTypeTemplateParmExpr")
CALLK = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr")
REALLOC = {"resize", "push_back", "emplace_back", "reserve", "assign", "insert", "emplace", "shrink_to_fit", "operator=", "swap", "append"}
ALLOCF = {"malloc", "calloc", "aligned_alloc", "strdup"}
FREEF = {"free"}


def base(q):
    return q.split("<")[0]


def smart(t):
    s = t.strip_ref().s if t is not None else ""
    s = s.replace("const ", "")
    return s if s.startswith("std::unique_ptr<") else None


def isvec(t):
    s = t.strip_ref().s.replace("const ", "") if t is not None else ""
    return s.startswith("std::vector<")


class Report:
    def __init__(self, kind, line, msg):
        self.kind, self.line, self.msg = kind, line, msg


class Own:
    MAX = 4000

    def __init__(self, prog, throws, owning=()):
        self.prog = prog
        self.T = throws
        self.reports = {}
        self.unk = {}
        self.stack = []
        self.owning = set(owning)
        self.bufplaces = set()
        self.kinds = set()
        self.mr = {}
        self._manual = None
        self.steps = 0

    # ------------------------------------------------------------ what is relevant
    def manual(self):
        """classes whose destructor itself releases memory"""
        if self._manual is None:
            self._manual = {}
            for f in self.prog.functions.values():
                if f.name.startswith("~") and f.body is not None and not f.file.startswith("/") and self.ops(f):
                    self._manual[f.q.rsplit("::~", 1)[0]] = f
        return self._manual

    def ops(self, f):
        for n in f.walk():
            if n.k in ("CXXNewExpr", "CXXDeleteExpr"):
                return True
            if n.k in CALLK and n.decl() is not None and base(n.decl().q).replace("std::", "") in ALLOCF | FREEF | {"realloc"}:
                return True
        return False

    def recname(self, t):
        if t is None:
            return None
        return t.strip_ref().s.replace("const ", "").replace("class ", "").strip()

    def manualrec(self, t):
        r = self.recname(t)
        return r if r in self.manual() else None

    def small(self, f):
        return sum(1 for _ in f.walk()) <= 60

    def relevant(self, f, depth=5, seen=None):
        seen = set() if seen is None else seen
        if f.key in seen or depth == 0:
            return False
        seen.add(f.key)
        if self.ops(f):
            return True
        for n in f.walk():
            if n.k in CALLK:
                d = n.decl()
                if d is None or not d.is_function:
                    continue
                if d.get("rec") is not None and n.k == "CXXMemberCallExpr" and any(d.q.startswith(m + "::") for m in self.manual()):
                    return True
        return False

    def mayrealloc(self, f, ix, depth=6):
        key = (f.key, ix)
        if key in self.mr:
            return self.mr[key]
        self.mr[key] = False
        p = f.params[ix] if ix < len(f.params) else None
        r = False
        if p is not None and f.body is not None and depth:
            for n in f.walk():
                if n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and n.decl() is not None:
                    o = n.a.get("obj") or (n.a["args"][0] if n.a["args"] else None)
                    while o is not None and o.k in CASTS and o.a.get("args"):
                        o = o.a["args"][0]
                    if o is not None and o.k == "DeclRefExpr" and o.decl() is not None and o.decl().key == p.key and n.decl().n in REALLOC:
                        r = True
                if n.k in CALLK and not r:
                    g = self.prog.callee(n)
                    if g is not None and g is not f:
                        for i, a in enumerate(n.a["args"]):
                            x = a
                            while x is not None and x.k in CASTS and x.a.get("args"):
                                x = x.a["args"][0]
                            if x is not None and x.k == "DeclRefExpr" and x.decl() is not None and x.decl().key == p.key and self.mayrealloc(g, i, depth - 1):
                                r = True
        self.mr[key] = r
        return r

    # ------------------------------------------------------------ reports
    def rep(self, kind, n, msg):
        self.reports.setdefault((kind, n.line if n is not None else "", msg), Report(kind, n.line if n is not None else "", msg))

    # ------------------------------------------------------------ running
    def root(self, f, init=False, final=False):
        self.f0, self.init, self.final = f, init, final
        self.exits, self.excout = [], []
        self.stack = [Frame(f, "this", None)]
        s = {}
        fr = self.stack[-1]
        for p in f.params:
            fr.env[p.key] = ("place", "P:" + p.n)
        outs, exc = self.body(f, s)
        for s, v in outs:
            self.atexit(s, v, False)
        for s in exc:
            self.atexit(s, None, True)
        self.stack = []
        return outs, exc

    def atexit(self, s, v, exc):
        f = self.f0
        n = f.body
        for k, x in s.items():
            if isinstance(k, str) and not k.startswith("L") and isinstance(x, tuple) and x[0] in ("blk", "E") and s.get(("freed", x)) and not self.final:
                self.rep("dangling", n, "%s still refers to released memory %s" % (k.split(".")[-1], "after an exception" if exc else "on return"))
            if isinstance(k, str) and not k.startswith("L") and isinstance(x, tuple) and x[0] == "buf" and not exc:
                self.bufplaces.add(k.split(".")[-1])
                if s.get(("ver", x[1]), "entry") != x[2]:
                    self.rep("stale", n, "%s points into the array of %s as it was before it was reallocated" % (k.split(".")[-1], x[1]))
            if isinstance(k, tuple) and k[0] == "ver" and x != "entry" and not exc and not self.final:
                for b in self.bufplaces:
                    hit = [kk for kk in s if isinstance(kk, str) and kk.endswith("." + b)]
                    if not hit and k[1].startswith("*"):
                        self.rep("stale", n, "%s is reallocated and %s is not updated" % (k[1], b))
        if v is not None and isinstance(v, tuple) and v[0] in ("blk", "E") and s.get(("freed", v)):
            self.rep("dangling", n, "the memory returned to the caller has been released")
        if v is not None and isinstance(v, tuple) and v[0] == "blk":
            self.kinds.add(v[1])
        if self.final and not exc:
            self.finals = getattr(self, "finals", []) + [(f, s)]

    def body(self, f, s):
        """(normal exits [(state, value)], exceptional states) of a function body"""
        fr = self.stack[-1]
        states = [s]
        exc = []
        if f.decl.k == "CXXConstructor":
            states, e = self.ctorinits(f, states)
            exc += e
        o = Out()
        o.exc += exc
        fall = self.st(f.body, states, o)
        outs = [(x, None) for x in fall] + o.ret
        return outs, o.exc

    def ctorinits(self, f, states):
        fr = self.stack[-1]
        o = Out()
        cls = f.q.rsplit("::", 1)[0]
        rec = None
        for r in self.prog.records.values():
            if r["tu"].types[r["t"]].s == cls or r["name"] == cls:
                rec = r
                if r["tu"].types[r["t"]].s == cls:
                    break
        given = {i["field"].n: i["init"] for i in f.inits if "field" in i}
        for fd in (rec["fields"] if rec else ()):
            d = fd["decl"]
            e = given.get(d.n) or fd.get("init")
            if e is None:
                continue
            nx = []
            for s in states:
                for v, s2 in self.ev(e, s, o):
                    s2 = dict(s2)
                    s2[fr.this + "." + d.n] = v
                    nx.append(s2)
            states = nx
        return states, o.exc

    def dedupe(self, ss):
        seen, out = set(), []
        for s in ss:
            k = frozenset(s.items())
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > 400:
            self.unk["too many states"] = 1
            out = out[:400]
        return out

    # ------------------------------------------------------------ statements
    def st(self, n, ss, o):
        ss = self.dedupe(ss)
        if n is None or not ss:
            return ss
        k = n.k
        if k == "CompoundStmt":
            return self.scope(n, ss, o)
        if k == "IfStmt":
            t, f = [], []
            for s in ss:
                a, b = self.cond(n.a.get("cond"), s, o)
                t += a
                f += b
            r = self.st(n.a.get("then"), t, o)
            r2 = self.st(n.a.get("else"), f, o) if n.a.get("else") is not None else f
            return self.dedupe(r + r2)
        if k in ("WhileStmt", "ForStmt", "DoStmt", "CXXForRangeStmt"):
            return self.loop(n, ss, o)
        if k == "SwitchStmt":
            inner = Out(o)
            cur = []
            for s in ss:
                cur += [x for _, x in self.ev(n.a.get("cond"), s, o)]
            live, done = [], []
            for c in (n.a["body"].ch if n.a.get("body") is not None else ()):
                if c.k in ("CaseStmt", "DefaultStmt"):
                    live = self.dedupe(live + cur)
                live = self.st(c, live, inner)
            r = live + inner.brk + cur
            o.cont += inner.cont
            return self.dedupe(r)
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            return self.st(n.a.get("body") or (n.ch[-1] if n.ch else None), ss, o)
        if k == "BreakStmt":
            o.brk += ss
            return []
        if k == "ContinueStmt":
            o.cont += ss
            return []
        if k == "ReturnStmt":
            for s in ss:
                if n.ch:
                    e = n.ch[0]
                    t = self.stack[-1].f.ret
                    if t is not None and "&" in t.s:
                        for kk, s2 in self.lv(e, s, o):
                            o.ret.append((s2, ("ref", kk)))
                    else:
                        for v, s2 in self.ev(e, s, o):
                            o.ret.append((s2, self.resolve(v, s2)))
                else:
                    o.ret.append((s, None))
            return []
        if k == "CXXTryStmt":
            inner = Out(o)
            inner.exc = []
            r = self.st(n.a.get("body"), ss, inner)
            for h in n.a.get("handlers") or ():
                d = h.decl()
                t = "..." if d is None and h.a.get("ct") is None else (d.type() if d is not None else h.ty(h.a.get("ct"))).s
                if not ("..." == t or "exception" in t):
                    o.exc += inner.exc
                r = r + self.st(h.a.get("body"), self.dedupe(inner.exc), o)
            return self.dedupe(r)
        if k == "DeclStmt":
            fr = self.stack[-1]
            for d, x in n.a["decls"]:
                if not d.k.startswith(("Var", "ParmVar")) and d.k not in ("Var", "VarDecl"):
                    continue
                nx = []
                key = "L%d:%s" % (len(self.stack) - 1, d.n)
                t = d.type()
                ref = t is not None and t.s.rstrip().endswith("&")
                for s in ss:
                    if ref and x is not None:
                        rs = self.lv(x, s, o)
                        for kk, s2 in rs:
                            s2 = dict(s2)
                            s2[("ref", key)] = kk
                            fr.env[d.key] = ("ref", key)
                            nx.append(s2)
                        continue
                    fr.env[d.key] = ("place", key)
                    m = self.manualrec(t)
                    if m and x is not None:
                        nx += self.construct(x, key, s, o)
                        fr.objs[key] = m
                    elif smart(t):
                        fr.smarts.add(key)
                        for v, s2 in (self.ev(x, s, o) if x is not None else [("null", s)]):
                            s2 = dict(s2)
                            v = v[1] if isinstance(v, tuple) and v[0] == "smart" else v
                            if isinstance(v, tuple) and v[0] == "blk":
                                self.kindcheck(n, v, smart(t))
                            s2[key + "^"] = v if v is not None else "null"
                            nx.append(s2)
                    elif x is not None:
                        for v, s2 in self.ev(x, s, o):
                            s2 = dict(s2)
                            self.setp(n, s2, key, v)
                            nx.append(s2)
                    else:
                        s2 = dict(s)
                        s2.pop(key, None)
                        nx.append(s2)
                ss = self.dedupe(nx)
            return ss
        if k.startswith("OMP"):
            return self.st(n.a.get("body"), ss, o)
        if k in ("NullStmt",):
            return ss
        r = []
        for s in ss:
            r += [x for _, x in self.ev(n, s, o)]
        return self.dedupe(r)

    def scope(self, n, ss, o):
        fr = self.stack[-1]
        before = set(fr.env)
        ob, sb = set(fr.objs), set(fr.smarts)
        inner = Out(o)
        inner.exc, inner.ret = [], []
        r = ss
        for c in n.ch:
            r = self.st(c, r, inner)
        objs = [k for k in fr.objs if k not in ob]
        sms = [k for k in fr.smarts if k not in sb]
        locs = [fr.env[k][1] for k in fr.env if k not in before and fr.env[k][0] == "place"]
        top = n is fr.f.body

        def leave(s, v=None, exc=False):
            res = [s]
            for k in reversed(objs):
                if not any(isinstance(q, str) and q.startswith(k + ".") for q in s):
                    continue
                nr = []
                for x in res:
                    nr += self.dtor(fr.objs[k], k, x)
                res = nr
            out = []
            for x in res:
                x = dict(x)
                for k in sms:
                    v2 = self.resolve(x.get(k + "^"), x)
                    if isinstance(v2, tuple) and v2[0] in ("blk", "E"):
                        if v2 == v:
                            pass
                        x = self.release(n, x, v2, None)
                        x = dict(x)
                    x.pop(k + "^", None)
                for k in locs:
                    if k in objs:
                        continue
                    v2 = self.resolve(x.pop(k, None), x)
                    x.pop(("ref", k), None)
                    if isinstance(v2, tuple) and v2[0] == "blk" and not x.get(("freed", v2)) and not x.get(("own", v2)) and v2 != v and not self.held(x, v2):
                        self.rep("leak", n, "the block obtained at %s is lost %s" % (v2[2], "when an exception leaves this block" if exc else "at the end of this block"))
                if top:
                    for p in fr.f.params:
                        e = fr.env.get(p.key)
                        if e and e[0] == "place" and len(self.stack) > 1:
                            x.pop(e[1], None)
                for k in objs:
                    for q in [q for q in x if isinstance(q, str) and q.startswith(k + ".")]:
                        v2 = self.resolve(x[q], x)
                        if isinstance(v2, tuple) and v2[0] == "blk" and not x.get(("freed", v2)) and v2 != v and not self.held({a: b for a, b in x.items() if a != q}, v2):
                            self.rep("leak", n, "the block obtained at %s is not released with the object that holds it %s" % (v2[2], "when an exception is raised" if exc else "at the end of this block"))
                        x.pop(q)
                out.append(x)
            return out

        fall = []
        for s in self.dedupe(r):
            fall += leave(s)
        for s, v in self.dd(inner.ret):
            for x in leave(s, v):
                o.ret.append((x, v))
        for s in self.dedupe(inner.exc):
            o.exc += leave(s, exc=True)
        for s in self.dedupe(inner.brk):
            o.brk += leave(s)
        for s in self.dedupe(inner.cont):
            o.cont += leave(s)
        for k in list(fr.env):
            if k not in before and not top:
                pass
        for k in objs:
            fr.objs.pop(k, None)
        for k in sms:
            fr.smarts.discard(k)
        return self.dedupe(fall)

    def dd(self, rs):
        seen, out = set(), []
        for s, v in rs:
            k = (frozenset(s.items()), v)
            if k not in seen:
                seen.add(k)
                out.append((s, v))
        return out

    def held(self, s, v):
        return any(x == v for k, x in s.items() if isinstance(k, str))

    def loop(self, n, ss, o):
        cur = ss
        if n.k == "ForStmt" and n.a.get("init") is not None:
            cur = self.st(n.a["init"], cur, o)
        seen, work, out = [], cur, []
        keys = set()
        for it in range(30):
            new = []
            for s in self.dedupe(work):
                k = frozenset(s.items())
                if k not in keys:
                    keys.add(k)
                    new.append(s)
            if not new:
                break
            inner = Out(o)
            t = []
            if n.k == "DoStmt":
                t = new
            elif n.k == "CXXForRangeStmt":
                if it == 0 and n.a.get("range") is not None:
                    for s in new:
                        self.ev(n.a["range"], s, o)
                t = new
                out += new
            else:
                for s in new:
                    if n.a.get("cond") is None:
                        t.append(s)
                        continue
                    a, b = self.cond(n.a["cond"], s, o)
                    t += a
                    out += b
            r = self.st(n.a.get("body"), t, inner)
            r = self.dedupe(r + inner.cont)
            out += inner.brk
            if n.k == "ForStmt" and n.a.get("inc") is not None:
                r2 = []
                for s in r:
                    r2 += [x for _, x in self.ev(n.a["inc"], s, o)]
                r = r2
            if n.k == "DoStmt":
                r2 = []
                for s in r:
                    a, b = self.cond(n.a.get("cond"), s, o)
                    r2 += a
                    out += b
                r = r2
            work = r
        else:
            self.unk["loop at %s" % n.line] = 1
        return self.dedupe(out)

    # ------------------------------------------------------------ conditions
    def resolve(self, v, s):
        if isinstance(v, tuple) and v[0] == "E" and s.get(("t", v)) is False:
            return "null"
        return v

    def cond(self, n, s, o):
        """(states where true, states where false)"""
        while n is not None and n.k in CASTS and n.a.get("args") and n.a.get("ck") != "IntegralToBoolean":
            n = n.a["args"][0]
        if n is None:
            return [s], []
        if n.k == "UnaryOperator" and n.get("op") == "!":
            a, b = self.cond(n.a["args"][0], s, o)
            return b, a
        if n.k == "BinaryOperator" and n.get("op") in ("&&", "||"):
            a, b = self.cond(n.a["args"][0], s, o)
            if n.get("op") == "&&":
                t, f = [], list(b)
                for x in a:
                    c, d = self.cond(n.a["args"][1], x, o)
                    t += c
                    f += d
                return t, f
            t, f = list(a), []
            for x in b:
                c, d = self.cond(n.a["args"][1], x, o)
                t += c
                f += d
            return t, f
        t, f = [], []
        for v, x in self.ev(n, s, o):
            a, b = self.split(v, x)
            t += a
            f += b
        return t, f

    def split(self, v, s):
        v = self.resolve(v, s)
        if v is True or v is False:
            return ([s], []) if v else ([], [s])
        if v == "null":
            return [], [s]
        if isinstance(v, tuple):
            if v[0] in ("blk", "buf", "addr", "smart"):
                if v[0] == "smart":
                    return self.split(v[1], s)
                return [s], []
            if v[0] == "nz":
                a, b = self.split(v[1], s)
                return (a, b) if v[2] else (b, a)
            if v[0] == "E":
                k = ("t", v)
                if k in s:
                    return ([s], []) if s[k] else ([], [s])
                a, b = dict(s), dict(s)
                a[k], b[k] = True, False
                return [a], [b]
        return [s], [dict(s)]

    # ------------------------------------------------------------ places
    def lv(self, n, s, o):
        """[(place key or None, state)]"""
        while n is not None and n.k in CASTS and n.a.get("args"):
            n = n.a["args"][0]
        if n is None:
            return [(None, s)]
        k = n.k
        if k == "DeclRefExpr":
            d = n.decl()
            e = self.stack[-1].env.get(d.key) if d is not None else None
            if e is None:
                return [("G:" + d.q if d is not None and d.is_global else None, s)]
            if e[0] == "ref":
                return [(s.get(("ref", e[1])), s)]
            return [(e[1], s)]
        if k == "CXXThisExpr":
            return [(self.stack[-1].this, s)]
        if k == "MemberExpr":
            b = n.a["args"][0] if n.a.get("args") else None
            out = []
            if b is None:
                return [(None, s)]
            if n.get("arrow"):
                if unc(b).k == "CXXThisExpr":
                    return [(self.stack[-1].this + "." + n.decl().n, s)]
                for v, s2 in self.ev(b, s, o):
                    nm = self.name(n, v, s2)
                    out.append((nm + "." + n.decl().n if nm else None, s2))
            else:
                for kk, s2 in self.lv(b, s, o):
                    out.append((kk + "." + n.decl().n if kk else None, s2))
            return out
        if k == "UnaryOperator" and n.get("op") == "*":
            out = []
            for v, s2 in self.ev(n.a["args"][0], s, o):
                nm = self.name(n, v, s2)
                out.append(("*" + nm if nm and not nm.startswith("@") else nm[1:] if nm else None, s2))
            return out
        if k == "ConditionalOperator":
            out = []
            a, b = self.cond(n.a["args"][0], s, o)
            for x in a:
                out += self.lv(n.a["args"][1], x, o)
            for x in b:
                out += self.lv(n.a["args"][2], x, o)
            return out
        if k in CALLK:
            r = []
            for v, s2 in self.ev(n, s, o):
                r.append((v[1] if isinstance(v, tuple) and v[0] == "ref" else None, s2))
            return r
        if k in ("BinaryOperator", "CompoundAssignOperator") and n.get("op", "").endswith("="):
            out = []
            for v, s2 in self.ev(n, s, o):
                out += self.lv(n.a["args"][0], s2, o)
            return out
        return [(None, x) for _, x in self.ev(n, s, o)]

    def name(self, n, v, s):
        """the object a pointer value refers to; reports uses of released memory"""
        v = self.resolve(v, s)
        if isinstance(v, tuple):
            if v[0] == "smart":
                v = v[1]
            if s.get(("freed", v)):
                self.rep("use", n, "memory released before is used: the block %s" % label(v))
            if v[0] == "addr":
                return "@" + v[1]
            if v[0] == "E":
                return v[1]
            if v[0] == "blk":
                return "new@" + v[2]
        return None

    def get(self, key, s, t=None):
        if key is None:
            return None
        if key in s:
            return self.resolve(s[key], s)
        if key.startswith("L") and key.split(":")[0] != "L0" and "." not in key:
            return None
        return self.resolve(("E", key), s)

    def setp(self, n, s, key, v):
        if isinstance(v, tuple) and v[0] == "smart":
            v = v[1]
        old = s.get(key)
        if old is None and not key.startswith("L") and not self.init and key.split(".")[-1] in self.owning:
            old = ("E", key)
        old = self.resolve(old, s)
        s[key] = v
        if isinstance(old, tuple) and old[0] in ("blk", "E") and old != v and not s.get(("freed", old)) and not s.get(("own", old)) and not self.held(s, old):
            if old[0] == "blk" or key.split(".")[-1] in self.owning and "." in key and not self.init:
                self.rep("leak", n, "%s is overwritten while it still owns a block (%s)" % (key.split(".")[-1].split(":")[-1], label(old)))

    def kindcheck(self, n, v, st):
        if isinstance(v, tuple) and v[0] == "blk":
            arr = st is not None and "[]" in st.split(",")[0]
            if st is not None and "," in st and "default_delete" not in st:
                return
            want = "new[]" if arr else "new"
            if v[1] != want:
                self.rep("mismatch", n, "the block obtained with %s is released with %s" % (v[1], "delete[]" if arr else "delete"))

    def release(self, n, s, v, how):
        s = dict(s)
        v = self.resolve(v, s)
        if v == "null" or v is None:
            if v is None:
                self.unk["released pointer at %s" % (n.line if n is not None else "?")] = 1
            return s
        if v[0] == "addr" or v[0] == "buf":
            if v[0] == "addr" and v[1].startswith("*"):
                return self.release(n, s, ("E", v[1][1:]), how)
            self.rep("mismatch", n, "memory is released that was not obtained as a block of its own")
            return s
        if v[0] == "smart":
            v = v[1]
        if v[0] not in ("blk", "E"):
            return s
        if s.get(("freed", v)):
            self.rep("double", n, "the block %s is released twice" % label(v))
        if s.get(("smartown", v)) and how is not None:
            self.rep("double", n, "the block %s is released here and by its owner" % label(v))
        if v[0] == "blk" and how is not None and v[1] != how:
            self.rep("mismatch", n, "the block obtained with %s is released with %s" % (v[1], {"new": "delete", "new[]": "delete[]", "malloc": "free"}[how]))
        if v[0] == "E" and how is not None:
            self.freedkinds = getattr(self, "freedkinds", set()) | {(v[1].split(".")[-1], how, n.line)}
        s[("freed", v)] = True
        return s

    def fresh(self, s, v):
        """the state after v has been obtained once more at the same place: an earlier block of that place gets another name"""
        s = dict(s)
        old = v + ("earlier",)
        if self.held(s, v):
            if not self.held(s, old):
                for q in [q for q in s if isinstance(q, tuple) and old in q]:
                    s.pop(q)
            s = {(tuple(old if y == v else y for y in k) if isinstance(k, tuple) else k): (old if x == v else x) for k, x in s.items()}
        for q in ("freed", "own", "smartown", "t", "rel"):
            s.pop((q, v), None)
        return s

    # ------------------------------------------------------------ expressions
    def throws(self, n, s, o):
        o.exc.append(s)

    def maythrow(self, n):
        out = {}
        self.T.fn = [self.stack[-1].f]
        d = n.decl()
        f = self.prog.callee(n) if n.k in CALLK else None
        if f is not None and (f.body is not None or f.inits):
            return bool(self.T.of(f)) and not self.T.nothrow(f)
        if d is None or not d.is_function or d.get("noexcept") or d.k == "CXXDestructor":
            return False
        if d.get("virtual"):
            return True
        return bool(self.T.lib(n, d))

    def args(self, ns, s, o):
        res = [([], s)]
        for a in ns:
            nx = []
            for vs, x in res:
                for v, y in self.ev(a, x, o):
                    nx.append((vs + [v], y))
            res = nx
        return res

    def ev(self, n, s, o):
        """[(value, state)]"""
        if n is None:
            return [(None, s)]
        self.steps += 1
        k = n.k
        if k in CASTS:
            a = n.a.get("args") or n.ch
            if not a:
                return [(None, s)]
            ck = n.a.get("ck")
            if ck == "NullToPointer":
                return [("null", s)]
            r = self.ev(a[0], s, o)
            if ck == "PointerToBoolean":
                return [(("nz", v, True) if v is not None else None, x) for v, x in r]
            if ck == "LValueToRValue":
                return r
            return r
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return [("null", s)]
        if k == "CXXBoolLiteralExpr":
            v = n.cv()
            if v is None:
                v = 1 if n.get("val") in (True, 1, "true") else 0
            return [(bool(v), s)]
        if k == "IntegerLiteral":
            return [("null" if n.cv() == 0 else None, s)]
        if k == "DeclRefExpr" or k == "MemberExpr":
            out = []
            for kk, s2 in self.lv(n, s, o):
                out.append((self.get(kk, s2), s2))
            return out
        if k == "CXXThisExpr":
            return [(("addr", self.stack[-1].this), s)]
        if k == "LambdaExpr":
            return [(None, s)]
        if k == "UnaryOperator":
            op = n.get("op")
            a = n.a["args"][0]
            if op == "&":
                x = unc(a)
                b = self.bufof(x, s, o)
                if b is not None:
                    return b
                return [(("E", kk[1:]) if kk and kk.startswith("*") else ("addr", kk) if kk else None, s2) for kk, s2 in self.lv(a, s, o)]
            if op == "*":
                return [(self.get(kk, s2), s2) for kk, s2 in self.lv(n, s, o)]
            if op == "!":
                return [(("nz", v, False) if v not in (True, False, None) else (None if v is None else not v), x) for v, x in self.ev(a, s, o)]
            return [(None, x) for _, x in self.ev(a, s, o)]
        if k == "BinaryOperator":
            op = n.get("op")
            l, r = n.a["args"]
            if op == "=":
                out = []
                for v, s2 in self.ev(r, s, o):
                    for kk, s3 in self.lv(l, s2, o):
                        s4 = dict(s3)
                        if kk:
                            self.setp(n, s4, kk, v)
                        out.append((v, s4))
                return out
            if op == ",":
                out = []
                for _, s2 in self.ev(l, s, o):
                    out += self.ev(r, s2, o)
                return out
            if op in ("&&", "||"):
                a, b = self.cond(n, s, o)
                return [(True, x) for x in a] + [(False, x) for x in b]
            out = []
            for a, s2 in self.ev(l, s, o):
                for b, s3 in self.ev(r, s2, o):
                    a2, b2 = self.resolve(a, s3), self.resolve(b, s3)
                    v = None
                    if op in ("==", "!="):
                        x = b2 if a2 == "null" else a2 if b2 == "null" else None
                        if x == "null":
                            v = op == "=="
                        elif x is not None:
                            v = ("nz", x, op == "!=")
                    out.append((v, s3))
            return out
        if k == "ConditionalOperator":
            a, b = self.cond(n.a["args"][0], s, o)
            out = []
            for x in a:
                out += self.ev(n.a["args"][1], x, o)
            for x in b:
                out += self.ev(n.a["args"][2], x, o)
            return out
        if k == "CXXNewExpr":
            out = []
            for _, s2 in self.args([c for c in n.ch], s, o):
                self.throws(n, s2, o)
                v = ("blk", "new[]" if n.get("array") else "new", n.line)
                s3 = self.fresh(s2, v)
                out.append((v, s3))
            return out
        if k == "CXXDeleteExpr":
            return [(None, self.release(n, x, v, "new[]" if n.get("array") else "new")) for v, x in self.ev(n.ch[0], s, o)]
        if k == "CXXThrowExpr":
            for _, x in self.args(n.ch, s, o):
                o.exc.append(x)
            return []
        if k in CALLK:
            return self.call(n, s, o)
        if k == "InitListExpr":
            if len(n.ch) == 1:
                return self.ev(n.ch[0], s, o)
            return [(None, x) for _, x in self.args(n.ch, s, o)]
        if k in ("CXXDefaultInitExpr", "CXXDefaultArgExpr") and n.ch:
            return self.ev(n.ch[0], s, o)
        return [(None, x) for _, x in self.args([c for c in n.ch if c is not None], s, o)]

    def bufof(self, x, s, o):
        """&v[0], &v.front(), v.data(): a pointer into the array of vector v"""
        if x.k in ("CXXOperatorCallExpr", "CXXMemberCallExpr") and x.decl() is not None and x.decl().n in ("operator[]", "front", "data"):
            ob = x.a.get("obj") or x.a["args"][0]
            if isvec(ob.type()):
                out = []
                for kk, s2 in self.lv(ob, s, o):
                    out.append((("buf", kk, s2.get(("ver", kk), "entry")) if kk else None, s2))
                return out
        return None

    def construct(self, x, key, s, o):
        c = unc(x)
        if c.k not in CALLK:
            return [y for _, y in self.ev(x, s, o)]
        f = self.prog.callee(c)
        d = c.decl()
        if f is None or f.body is None or len(f.params) == 1 and self.recname(f.params[0].type()) == self.recname(c.type()):
            a = c.a["args"][0] if c.a.get("args") else None
            if a is not None and self.recname(a.type()) == self.recname(c.type()) and not c.get("elide"):
                self.rep("copy", c, "an object that owns memory is copied: both copies release it")
            return [y for _, y in self.args(c.a["args"], s, o)]
        out = []
        for v, y in self.inline(c, f, key, s, o):
            out.append(y)
        return out

    def dtor(self, cls, key, s):
        f = self.manual()[cls]
        if len(self.stack) > 12:
            return [s]
        fr = Frame(f, key, None)
        self.stack.append(fr)
        try:
            outs, exc = self.body(f, s)
        finally:
            self.stack.pop()
        return self.dedupe([x for x, _ in outs] + exc)

    def inline(self, n, f, this, s, o):
        argn = list(n.a["args"])
        if n.k == "CXXOperatorCallExpr" and f.decl.get("rec") is not None:
            argn = argn[1:]
        depth = len(self.stack)
        fr = Frame(f, this, None)
        cur = [s]
        binds = []
        for i, p in enumerate(f.params):
            key = "L%d:%s" % (depth, p.n or "p%d" % i)
            a = argn[i] if i < len(argn) else None
            t = p.type()
            nx = []
            for x in cur:
                if a is None:
                    nx.append(x)
                    continue
                if t is not None and "&" in t.s:
                    for kk, y in self.lv(a, x, o):
                        y = dict(y)
                        y[("ref", key)] = kk
                        fr.env[p.key] = ("ref", key)
                        nx.append(y)
                else:
                    for v, y in self.ev(a, x, o):
                        y = dict(y)
                        y.pop(key, None)
                        y[key] = v
                        nx.append(y)
                    fr.env[p.key] = ("place", key)
            cur = nx
        out = []
        self.stack.append(fr)
        try:
            for x in self.dedupe(cur):
                outs, exc = self.body(f, x)
                o.exc += exc
                for y, v in outs:
                    y = dict(y)
                    for q in [q for q in y if isinstance(q, tuple) and q[0] == "ref" and q[1].startswith("L%d:" % depth)]:
                        y.pop(q)
                    out.append((v, y))
        finally:
            self.stack.pop()
        return self.dd2(out)

    def dd2(self, vs):
        return [(v, s) for s, v in self.dd([(s, v) for v, s in vs])]

    def call(self, n, s, o):
        d = n.decl()
        f = self.prog.callee(n)
        q = base(d.q) if d is not None else ""
        nm = d.n if d is not None else ""
        plain = q.replace("std::", "")
        A = n.a["args"]
        if d is None or not d.is_function:
            return [(None, x) for _, x in self.args([c for c in n.ch if c is not None], s, o)]
        # --- raw allocation
        if plain in ALLOCF:
            out = []
            for _, x in self.args(A, s, o):
                v = ("blk", "malloc", n.line)
                out += [("null", x), (v, self.fresh(x, v))]
            return out
        if plain == "realloc":
            out = []
            for vs, x in self.args(A, s, o):
                v = ("blk", "malloc", n.line)
                old = self.resolve(vs[0], x)
                out.append(("null", x))
                same = old == v
                if same:
                    y = dict(x)
                    if y.get(("freed", v)):
                        self.rep("use", n, "memory released before is passed to realloc")
                else:
                    y = self.release(n, x, old, "malloc") if old is not None else dict(x)
                y.pop(("freed", v), None)
                out.append((v, y))
            return out
        if plain in FREEF and len(A) == 1:
            return [(None, self.release(n, x, vs[0], "malloc")) for vs, x in self.args(A, s, o)]
        if plain in ("move", "forward") and len(A) == 1:
            return [(("ref", kk), x) for kk, x in self.lv(A[0], s, o)] or [(None, s)]
        ob = n.a.get("obj")
        an = A
        if n.k == "CXXOperatorCallExpr" and ob is None and d.get("rec") is not None and A:
            ob, an = A[0], A[1:]
        # --- smart pointers
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and smart(n.type()):
            out = []
            if not A:
                return [(("smart", "null"), s)]
            a = A[0]
            if smart(a.type()):
                x = unc(a)
                for kk, s2 in self.lv(a, s, o):
                    if kk:
                        s3 = dict(s2)
                        v = self.get(kk + "^", s3)
                        s3[kk + "^"] = "null"
                        out.append((("smart", v), s3))
                    else:
                        out += self.ev(a, s2, o)
                return out
            for v, s2 in self.ev(a, s, o):
                self.kindcheck(n, v, smart(n.type()))
                out.append((("smart", self.resolve(v, s2)), s2))
            return out
        if ob is not None and smart(ob.type()):
            return self.smartop(n, nm, ob, an, s, o)
        # --- containers
        if ob is not None and q.startswith("std::"):
            out = []
            for kk, s1 in self.lv(ob, s, o):
                for vs, s2 in self.args2(an, s1, o):
                    thr = self.maythrow(n) and not d.get("noexcept")
                    if thr:
                        e = dict(s2)
                        for v in vs:
                            if isinstance(v, tuple) and v[0] == "smart" and isinstance(v[1], tuple):
                                e = self.release(n, e, v[1], None)
                        o.exc.append(e)
                    s3 = dict(s2)
                    for v in vs:
                        if isinstance(v, tuple) and v[0] == "smart":
                            v = v[1]
                        if isinstance(v, tuple) and v[0] == "moved":
                            s3[v[1] + "^"] = "null"
                            v = v[2]
                        if isinstance(v, tuple) and v[0] == "blk" and nm in REALLOC:
                            s3[("own", v)] = True
                            if "unique_ptr" in (ob.type().strip_ref().s if ob.type() is not None else ""):
                                s3[("smartown", v)] = True
                                self.kindcheck(n, v, ob.type().strip_ref().s[ob.type().strip_ref().s.index("unique_ptr"):])
                    if kk and isvec(ob.type()) and nm in REALLOC:
                        s3[("ver", kk)] = n.line
                    b = ("buf", kk, s3.get(("ver", kk), "entry")) if kk and isvec(ob.type()) and nm == "data" else None
                    out.append((b, s3))
            return out
        # --- our functions
        ours = f is not None and f.body is not None and not f.file.startswith("/")
        if ours and len(self.stack) < 10 and not any(fr.f is f for fr in self.stack):
            this = None
            go = False
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                go = False
            elif ob is not None and f.decl.get("rec") is not None:
                if unc(ob).k == "CXXThisExpr" or n.get("arrow") and unc(ob).k == "CXXThisExpr":
                    this, go = self.stack[-1].this, self.relevant(f) or self.small(f)
                elif any(f.q.startswith(m + "::") for m in self.manual()):
                    go = True
            else:
                go = self.relevant(f) or f.file == self.f0.file and self.small(f) or self.vecparam(f) and self.small(f)
            if go:
                if this is None and ob is not None and f.decl.get("rec") is not None:
                    out = []
                    if n.get("arrow"):
                        for v, s1 in self.ev(ob, s, o):
                            nm2 = self.name(n, v, s1)
                            out += self.inline(n, f, (nm2[1:] if nm2 and nm2.startswith("@") else nm2) or "?", s1, o)
                    else:
                        for kk, s1 in self.lv(ob, s, o):
                            out += self.inline(n, f, kk or "?", s1, o)
                    return out
                return self.inline(n, f, this or self.stack[-1].this, s, o)
        # --- other calls
        out = []
        starts = [s]
        if ob is not None:
            starts = []
            if n.get("arrow"):
                for v, s1 in self.ev(ob, s, o):
                    self.name(n, v, s1)
                    starts.append(s1)
            else:
                starts = [x for _, x in self.lv(ob, s, o)]
        for s1 in starts:
            for vs, s2 in self.args2(an, s1, o):
                if self.maythrow(n):
                    o.exc.append(s2)
                s3 = dict(s2)
                for i, a in enumerate(an):
                    v = vs[i] if i < len(vs) else None
                    if isinstance(v, tuple) and v[0] in ("blk", "E") and s3.get(("freed", v)) and isinstance(a.type().s, str) and "*" in a.type().s:
                        self.rep("use", n, "released memory is passed to %s" % d.q)
                    if isvec(a.type()) and f is not None and self.mayrealloc(f, i):
                        for kk, _ in self.lv(a, s2, Out()):
                            if kk:
                                s3[("ver", kk)] = n.line
                out.append((None, s3))
        return out

    def vecparam(self, f):
        return any(isvec(p.type()) or self.manualrec(p.type()) for p in f.params) and self.relevant(f)

    def args2(self, ns, s, o):
        res = [([], s)]
        for a in ns:
            nx = []
            for vs, x in res:
                u = unc(a)
                if smart(a.type()) and (u.k == "DeclRefExpr" or u.k in CALLK and u.decl() is not None and base(u.decl().q) == "std::move"):
                    for kk, y in self.lv(u.a["args"][0] if u.k in CALLK else u, x, o):
                        v = self.get(kk + "^", y) if kk else None
                        nx.append((vs + [("moved", kk, v) if kk and u.k in CALLK else v], y))
                elif a.type() is not None and a.type().s.endswith("&") or unc(a).k in ("DeclRefExpr", "MemberExpr") and (isvec(a.type()) or a.a.get("lv")):
                    if isvec(a.type()) or self.manualrec(a.type()):
                        nx.append((vs + [None], x))
                    else:
                        for v, y in self.ev(a, x, o):
                            nx.append((vs + [v], y))
                else:
                    for v, y in self.ev(a, x, o):
                        nx.append((vs + [v], y))
            res = nx
        return res

    def smartop(self, n, nm, ob, an, s, o):
        out = []
        st = smart(ob.type())
        for kk, s1 in self.lv(ob, s, o):
            if kk is None:
                for vs, s2 in self.args2(an, s1, o):
                    out.append((None, s2))
                continue
            pk = kk + "^"
            cur = self.get(pk, s1)
            if nm in ("reset", "operator="):
                for vs, s2 in self.args2(an, s1, o):
                    v = vs[0] if vs else "null"
                    s3 = dict(s2)
                    if isinstance(v, tuple) and v[0] == "moved":
                        s3[v[1] + "^"] = "null"
                        v = v[2]
                    if isinstance(v, tuple) and v[0] == "smart":
                        v = v[1]
                    v = self.resolve(v, s3)
                    if isinstance(v, tuple) and v[0] == "blk" and v == cur and not s3.get(("freed", v)):
                        # the same allocation site again: an earlier block of that site
                        pass
                    elif isinstance(cur, tuple) and cur[0] in ("blk", "E"):
                        if cur == v:
                            self.rep("double", n, "the smart pointer is given the block it already owns")
                        s3 = self.release(n, s3, cur, None)
                    self.kindcheck(n, v, st)
                    s3[pk] = v if v is not None else ("E", "?" + n.line)
                    if isinstance(v, tuple):
                        s3.pop(("freed", v), None)
                        s3[("smartown", v)] = True
                    out.append((None, s3))
                continue
            if nm == "release":
                s2 = dict(s1)
                s2[pk] = "null"
                s2.pop(("smartown", cur), None)
                s2[("rel", cur)] = True
                par = n.parent
                if par is not None and par.k in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt"):
                    self.rep("leak", n, "release() gives up the block and nothing takes it over")
                out.append((cur, s2))
                continue
            for vs, s2 in self.args2(an, s1, o):
                if nm in ("get", "operator->"):
                    out.append((cur, s2))
                elif nm == "operator bool":
                    out.append((("nz", cur, True) if cur not in (None,) else None, s2))
                elif nm in ("operator*", "operator[]"):
                    out.append((None, s2))
                else:
                    out.append((None, s2))
        return out


def label(v):
    return "obtained at %s" % v[2] if v[0] == "blk" else "held by %s" % v[1].split(".")[-1].rstrip("^")


def unc(n):
    while n is not None and n.k in CASTS and n.a.get("args"):
        n = n.a["args"][0]
    return n


class Frame:
    def __init__(self, f, this, _):
        self.f, self.this = f, this
        self.env, self.objs, self.smarts = {}, {}, set()


class Out:
    """the ways out of a statement other than reaching its end"""

    def __init__(self, o=None):
        self.ret = o.ret if o is not None and False else []
        self.exc = o.exc if o is not None else []
        self.brk, self.cont = [], []
        if o is not None:
            self.ret = o.ret
