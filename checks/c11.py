"""C11: standard output carries the result and nothing else by default.

Every place that writes to standard output is found in the type-checked program;
the condition under which it is reached (path conditions inside the function and
at its call sites, up to main) must be false when no option switched printing on."""
from terms import T, subterms
from points import Fun
from sites import site
from harness import short

TITLE = "Standard output carries the result and nothing else by default"
STDOUT = {"std::cout", "stdout", "printf", "puts", "putchar", "vprintf", "std::printf", "std::puts", "std::putchar"}
SETTERS = ("set_print", "set_print_variables")
# printed on request or instead of a result
ASKED = {"primesum::help", "primesum::version", "primesum::test"}


def run(ck):
    ck.rule("switch", "printing is off unless an option switches it on")
    ck.rule("quiet", "nothing is written to standard output unless printing was switched on")
    ck.rule("result", "by default exactly the result line is printed")
    ck.rule("pure", "whether something is printed does not influence any result")
    C11(ck).run()


def tv(t, off):
    """truth value (None: unknown) when every term for which off(t) holds is false"""
    if off(t):
        return False
    o, a = t.op, t.args
    if o == "true":
        return True
    if o == "false":
        return False
    if o == "c":
        return bool(a[0])
    if o == "not":
        v = tv(a[0], off)
        return None if v is None else not v
    if o in ("land", "lor"):
        vs = [tv(x, off) for y in a for x in ([y] if isinstance(y, T) else y)]
        stop = o == "lor"
        if stop in vs:
            return stop
        return None if None in vs else not stop
    if o == "ite":
        c = tv(a[0], off)
        if c is not None:
            return tv(a[1] if c else a[2], off)
        x, y = tv(a[1], off), tv(a[2], off)
        return x if x == y else None
    if o in ("bvar", "cast", "wrap"):
        return tv(a[-1], off) if isinstance(a[-1], T) else None
    if o in ("eq0", "gt0"):
        v = num(a[0], off)
        return None if v is None else v == 0 if o == "eq0" else v > 0
    return None


def num(t, off):
    if off(t):
        return 0
    if t.op == "c":
        return t.args[0]
    if t.op == "poly":
        s = 0
        for ms, c in t.args[0]:
            for f in ms:
                v = num(f, off)
                if v is None:
                    return None
                c = c * v
            s += c
        return s
    if t.op == "ite":
        c = tv(t.args[0], off)
        if c is not None:
            return num(t.args[1] if c else t.args[2], off)
        x, y = num(t.args[1], off), num(t.args[2], off)
        return x if x == y else None
    if t.op in ("land", "lor", "not", "bvar", "eq0", "gt0"):
        v = tv(t, off)
        return None if v is None else int(v)
    return None


class C11:
    def __init__(self, ck):
        self.ck, self.prog = ck, ck.prog
        self.memo = {}

    def mine(self, f):
        return not f.file.startswith("lib/primesieve/src/app/") and not f.file.startswith("/")

    def tiny(self, f):
        """switches: boolean functions of no operands without loops"""
        return f.body is not None and not f.params and f.ret.k in ("bool", "int") and f.ret.bits in (None, 1, 8) and not f.q.startswith("std::") and sum(1 for _ in f.body.walk()) < 40

    def graph(self, f):
        if f.key not in self.memo:
            self.memo[f.key] = Fun(self.ck, f, lambda g: not self.tiny(g))
        return self.memo[f.key]

    def run(self):
        ck = self.ck
        main = [f for f in self.prog.functions.values() if f.body is not None and f.name == "main" and f.file.startswith("src/")]
        if len(main) != 1:
            ck.und("result", "primesum", "main not found")
            return
        self.main = main[0]
        self.switches()
        self.callgraph()
        self.output()
        self.results()
        self.pure()

    # ------------------------------------------------------------- switches
    def switches(self):
        self.flags = {}
        for nm in SETTERS:
            fs = [f for f in self.prog.functions.values() if f.body is not None and f.q == "primesum::" + nm]
            if not fs:
                self.ck.und("switch", nm, "not found")
            for f in fs:
                for e in self.graph(f).g.events:
                    if e.k == "store" and e.a["loc"][0][0] == "G":
                        self.flags[e.a["loc"][0]] = nm
        for k, nm in sorted(self.flags.items()):
            g = self.prog.globals.get(k[1])
            at = "%s (%s)" % (str(k[1]).split("@")[-1], nm)
            if g is None:
                self.ck.und("switch", at, "the variable was not found")
                continue
            i = g.get("init")
            from effects import strip
            v = strip(i) if i is not None else None
            c = None if v is None else v.a.get("cv", v.a.get("v"))
            self.ck.cond("switch", at, True if i is None or c in (0, False, "0", "false") else False if c in (1, True, "1", "true") else None, "initially off", "printing is switched on from the start")
        # nobody else writes them
        for f in self.prog.functions.values():
            if f.body is None or not self.mine(f) or f.name in SETTERS:
                continue
            if not any(n.k == "DeclRefExpr" and n.decl() is not None and ("G", n.decl().key) in self.flags for n in f.body.walk()):
                continue
            G = self.graph(f)
            w = [e for e in G.g.events if e.k == "store" and e.a["loc"][0] in self.flags]
            for e in w:
                self.ck.cond("switch", "%s %s" % (site(f), e.line), True if self.off_pc(e) is False else False, "only if printing is on already", "%s changes whether something is printed" % f.q)

    def isflag(self, t):
        return t.op in ("ld", "phi", "lv") and len(t.args) and (t.args[0] in self.flags) or t.op in ("var",) and ("G", t.args[0]) in self.flags

    def asked(self, t):
        """the option --time"""
        return t.op == "sel" and t.args[1] == ("f", "time")

    def off_pc(self, e):
        """is the event reached when printing is off? False: no"""
        for c in e.pc:
            if isinstance(c, T) and tv(c, lambda t: self.isflag(t) or self.asked(t)) is False:
                return False
        return None

    # ------------------------------------------------------------- call graph
    def callgraph(self):
        self.calls = {}
        todo, seen = [self.main], {self.main.key: self.main}
        while todo:
            f = todo.pop()
            out = []
            for n in f.walk():
                if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    g = self.prog.callee(n)
                    if g is not None and g.body is not None and self.mine(g):
                        out.append((n, g))
                elif n.k == "DeclRefExpr" and n.decl() is not None and n.decl().is_function:
                    g = self.prog.resolve(n.decl(), f.tu.rel)
                    if g is not None and g.body is not None and self.mine(g) and not (n.parent is not None and self.called(n)):
                        out.append((n, g))
            self.calls[f.key] = out
            for n, g in out:
                if g.key not in seen and g.q not in ASKED:
                    seen[g.key] = g
                    todo.append(g)
        self.reach = seen

    def called(self, n):
        p = n.parent
        while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr"):
            p = p.parent
        return p is not None and p.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr")

    def reached(self, f, node):
        """False if the node is only reached with printing on; None: perhaps; 'dead': no event contains it"""
        G = self.graph(f)
        ids = self.inside(f)
        best = None
        for e in G.g.events:
            if e.node is None:
                continue
            s = ids.get(id(e.node))
            if s is None:
                continue
            if id(node) in s and (best is None or len(s) < best[0]):
                best = (len(s), e)
            elif id(node) in s and len(s) == best[0] and self.off_pc(best[1]) is False and self.off_pc(e) is not False:
                best = (len(s), e)
        if best is None:
            # the path conditions of the enclosing statement
            return self.enclosing(f, node)
        return self.off_pc(best[1])

    def enclosing(self, f, node):
        n = node
        while n is not None and n.parent is not None:
            p = n.parent
            if p.k == "IfStmt":
                for e in self.graph(f).g.events:
                    if e.node is not None and any(x is e.node for x in n.walk()) and self.off_pc(e) is False:
                        return False
            n = p
        return None

    def inside(self, f):
        k = ("inside", f.key)
        if k not in self.memo:
            d = {}
            for n in f.walk():
                if n.k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    d[id(n)] = {id(x) for x in n.walk()}
            self.memo[k] = d
        return self.memo[k]

    # ------------------------------------------------------------- output sites
    def output(self):
        loud = {}  # function key -> reason why calling it prints although printing is off
        sites = 0
        self.guarded = 0
        for f in sorted(self.reach.values(), key=lambda f: f.q):
            if f.q in ASKED or f.key == self.main.key:
                continue
            for n in f.walk():
                if n.k == "DeclRefExpr" and n.decl() is not None and (n.decl().q in STDOUT or n.decl().q in ("fprintf", "fputs", "fwrite", "fputc") and self.tofile(n)):
                    sites += 1
                    if self.reached(f, n) is False:
                        self.guarded += 1
                    else:
                        loud.setdefault(f.key, (f, n, "writes to standard output"))
            for n, g in self.calls[f.key]:
                if g.name in SETTERS and f.name != "parseOptions":
                    sites += 1
                    if self.reached(f, n) is not False:
                        self.ck.viol("switch", "%s %s" % (site(f), n.line), "%s() is called although no option asked for it" % g.name)
                    else:
                        self.ck.ok("switch", "%s %s" % (site(f), n.line), "%s() only if printing is on" % g.name)
        todo = list(loud)
        why = {}
        callers = {}
        for k, l in self.calls.items():
            for n, g in l:
                callers.setdefault(g.key, []).append((self.reach[k], n))
        while todo:
            k = todo.pop()
            for f, n in callers.get(k, ()):
                if f.q in ASKED or f.key == self.main.key or f.key in loud:
                    continue
                if self.reached(f, n) is not False:
                    loud[f.key] = (f, n, "calls %s" % self.reach[k].q)
                    todo.append(f.key)
        # loud functions are called by main only where printing is on
        done = set()
        for n, g in self.calls[self.main.key]:
            if g.key in loud and g.key not in done and self.reached(self.main, n) is not False:
                done.add(g.key)
                path, k = [], g.key
                while k is not None and len(path) < 12:
                    f, m, r = loud[k]
                    path.append("%s %s" % (f.q, m.line))
                    k = next((h.key for x, h in self.calls[k] if x is m and h.key in loud), None)
                self.ck.viol("quiet", path[-1], "reached with printing off: main -> %s" % " -> ".join(path))
        for f in sorted(self.reach.values(), key=lambda f: (f.q, f.l)):
            for n in f.walk():
                if f.key != self.main.key and n.k == "DeclRefExpr" and n.decl() is not None and n.decl().q in STDOUT:
                    r = loud.get(f.key)
                    self.ck.cond("quiet", "%s %s" % (site(f), n.line), True if r is None or not self.exposed(f.key, loud, callers) else False, "only with printing on", "%s writes to standard output although printing is off" % f.q)

    def exposed(self, k, loud, callers, seen=None):
        seen = seen or set()
        seen.add(k)
        for f, n in callers.get(k, ()):
            if f.q in ASKED:
                continue
            if f.key == self.main.key:
                if self.reached(f, n) is not False:
                    return True
            elif f.key in loud and f.key not in seen and self.reached(f, n) is not False and self.exposed(f.key, loud, callers, seen):
                return True
        return False

    def tofile(self, n):
        p = n.parent
        while p is not None and p.k != "CallExpr":
            p = p.parent
        return p is not None and any(x.k == "DeclRefExpr" and x.decl() is not None and x.decl().q == "stdout" for x in p.walk())

    # ------------------------------------------------------------- main
    def results(self):
        G = Fun(self.ck, self.main, lambda g: not self.tiny(g))
        # an insertion into cout: the chain of operator<< starts at cout
        out = []
        for e in G.g.events:
            if e.k != "call" or e.node is None or e.a["q"].split("::")[-1] != "operator<<":
                continue
            if not any(x.k == "DeclRefExpr" and x.decl() is not None and x.decl().q in STDOUT for x in e.node.walk()):
                continue
            if self.off_pc(e) is False:
                continue
            if any(isinstance(c, tuple) or c.op == "bvar" and isinstance(c.args[0], tuple) and c.args[0][:1] == ("exc",) for c in e.pc):
                self.ck.viol("result", "%s %s" % (site(self.main), e.line), "the diagnostic is written to standard output")
                continue
            out.append(e)
        vals = []
        for e in out:
            for x in e.a["args"]:
                if not isinstance(x, T) or x.op in ("addr", "deref") or x.op == "call" and x.args[0].split("::")[-1] == "operator<<":
                    continue
                vals.append((x, e))
        what = []
        for x, e in vals:
            if x.op == "fn" and "endl" in str(x.args) or x.op == "str" and x.args[0] == "\n" or x.op == "c" and x.args[0] == 10:
                what.append("end of line")
            elif x.op == "str":
                what.append("'%s'" % x.args[0])
            else:
                what.append("a value")
            if e.loops:
                what[-1] += " (repeatedly)"
        at = "%s output" % site(self.main)
        if "a value" not in what:
            if not any(w.startswith("a value") for w in what):
                self.ck.cond("result", at, False if out or not self.unknown_out() else None, "", "no value is printed by default")
                return
        self.ck.cond("result", at, what.count("a value") == 1 and what.index("a value") == 0 and what[1:] in ([], ["end of line"]), "the result, end of line", "by default %s are printed" % ", ".join(what))
        # other output functions called from main
        for n, g in self.calls[self.main.key]:
            if g.q == "primesum::print_seconds":
                self.ck.cond("result", "%s %s" % (site(self.main), n.line), True if self.reached(self.main, n) is False else False, "only on request", "the elapsed time is printed by default")

    def unknown_out(self):
        return any(g.q not in ASKED and self.prints(g) for n, g in self.calls[self.main.key])

    def prints(self, g):
        return any(n.k == "DeclRefExpr" and n.decl() is not None and n.decl().q in STDOUT for n in g.walk())

    # ------------------------------------------------------------- purity
    def pure(self):
        for f in sorted(self.reach.values(), key=lambda f: (f.q, f.l)):
            if f.key == self.main.key or f.q in ASKED or f.name == "parseOptions" or f.file.startswith("lib/"):
                continue
            if not any(g.key in self.switchers() for n, g in self.calls[f.key]) and not any(n.k == "DeclRefExpr" and n.decl() is not None and ("G", n.decl().key) in self.flags for n in f.walk()):
                continue
            if self.tiny(f) or f.name in SETTERS:
                continue
            G = self.graph(f)
            at = site(f)
            r = G.g.retval
            bad = None
            if r is not None and any(self.isflag(x) for x in subterms(r)):
                bad = "the value returned depends on whether printing is on"
            for e in G.g.events:
                dep = any(self.isflag(x) for c in e.pc if isinstance(c, T) for x in subterms(c))
                if e.k == "throw" and dep:
                    bad = bad or "line %s: an error depends on whether printing is on" % e.line
                if e.k == "store" and e.a["loc"][0][0] in ("G", "P") and e.a["loc"][0] not in self.flags:
                    if (dep and self.off_pc(e) is False or any(self.isflag(x) for x in subterms(e.a["val"]))) and not self.statusobj(f, e):
                        bad = bad or "line %s: %s is changed depending on whether printing is on" % (e.line, e.a["loc"][0][1])
            for k, v in (G.g.final.mem.items() if G.g.final is not None else ()):
                if k[0] == "P" and isinstance(v, T) and any(self.isflag(x) for x in subterms(v)) and not self.statusmem(f, k):
                    bad = bad or "the operand %s depends on whether printing is on" % k[1]
            for e in G.g.events:
                if e.k == "call" and e.a["q"].split("::")[-1] not in ("operator<<", "print") and not self.printer(e):
                    for x in e.a["args"]:
                        if isinstance(x, T) and any(self.isflag(y) for y in subterms(x)) and "Status" not in str(x)[:400]:
                            bad = bad or "line %s: an operand of %s depends on whether printing is on" % (e.line, e.a["q"].split("::")[-1])
            self.ck.cond("pure", at, not bad, "results do not depend on the switches", bad or "")

    def switchers(self):
        if "sw" not in self.memo:
            self.memo["sw"] = {f.key for f in self.reach.values() if self.tiny(f) and f.name in ("is_print", "print_variables", "print_result") or self.tiny(f) and any(n.k == "DeclRefExpr" and n.decl() is not None and ("G", n.decl().key) in self.flags for n in f.walk())}
        return self.memo["sw"]

    def printer(self, e):
        f = self.prog.functions.get(e.a["decl"].key) if e.a.get("decl") is not None else None
        return e.a["q"].startswith("std::") or f is not None and (self.prints(f) or f.name in SETTERS)

    def statusobj(self, f, e):
        return "tatus" in str(e.a["loc"])

    def statusmem(self, f, k):
        return "tatus" in str(k)
