"""C10: arithmetic expressions on the command line are evaluated exactly.

The value graphs of the expression parser's functions (both copies of
calculator.hpp, every instantiation) are compared, case by case, with the
grammar and the arithmetic they have to implement: the operator table against
the C precedence order, the arithmetic of every operator code against exact
integer arithmetic with a range test, the loops (powers, shifts, digits) by
their step invariants, and the shift-reduce loop by its reduce condition and
its two actions.  Recursive calls and other parser functions are uninterpreted
where a function is examined."""
import random
from terms import T, mk, subterms
from points import Ev, Fun, Throw, Unknown, DivZero, tq, handler, loops_of
from widths import LOOPS

TITLE = "Arithmetic expressions on the command line are evaluated exactly"
CL = "calculator::ExpressionParser<"


def has_loop(f, prog, seen=None):
    return any(n.k in LOOPS for n in f.body.walk())


def calls_of(f, prog):
    return {g.key for n in f.body.walk() for g in [prog.callee(n)] if g is not None}


def run(ck):
    ck.rule("operator", "every operator token maps to its operation, with the C precedence order and associativity, and is consumed exactly")
    ck.rule("arithmetic", "every operation yields its exact value, or an error when it is undefined or does not fit the type")
    ck.rule("loop", "powers, shifts and digit sequences keep their invariant in every step and signal an error exactly when the value does not fit")
    ck.rule("value", "every first character of an operand leads to its parser or to an error")
    ck.rule("reduce", "the shift-reduce loop applies operators by precedence and associativity with the right operands")
    ck.rule("whole", "an expression is evaluated from its first character and all of it must be consumed")
    prog = ck.prog
    parsers = {}
    for f in prog.functions.values():
        if f.q.startswith(CL) and f.body is not None and not f.file.startswith("/"):
            q = f.q[len(CL):].split("::")
            if len(q) == 2:
                parsers.setdefault((f.file, q[0].rstrip(">")), {}).setdefault(q[1], []).append(f)
    files = sorted({k[0] for k in parsers})
    for want in ("include/calculator.hpp", "lib/primesieve/include/primesieve/calculator.hpp"):
        if want not in files:
            ck.und("whole", want, "the expression parser was not found there")
    for (file, ty), fs in sorted(parsers.items()):
        Parser(ck, file, ty, fs).run()


class Parser:
    def __init__(self, ck, file, ty, fs):
        self.ck, self.file, self.ty, self.fs = ck, file, ty, fs
        self.tag = "%s <%s>" % (file, ty)
        self.bits = {"int": 32, "__int128": 128, "long": 64, "long long": 64, "unsigned long": 64, "unsigned int": 32, "unsigned __int128": 128}.get(ty)
        self.unsigned = ty.startswith("unsigned")
        self.lo = 0 if self.unsigned else -(1 << (self.bits or 64) - 1)
        self.hi = (1 << (self.bits or 64) - (not self.unsigned)) - 1
        prog = ck.prog
        allf = {f.key: f for l in fs.values() for f in l}
        edges = {k: calls_of(f, prog) & set(allf) for k, f in allf.items()}
        rec = set()
        for k in allf:
            seen, work = set(), list(edges[k])
            while work:
                x = work.pop()
                if x not in seen:
                    seen.add(x)
                    work += edges[x]
            if k in seen:
                rec.add(k)
        self.opaq = {k for k, f in allf.items() if k in rec or has_loop(f, prog)}
        self.cache = {}
        self.contract = {}      # short name -> "pow" | "shl" | ...

    def fun(self, name, nargs=None):
        l = [f for f in self.fs.get(name, ()) if nargs is None or len(f.params) == nargs]
        if not l:
            return None
        f = l[0]
        if f.key not in self.cache:
            k = f.key
            self.cache[k] = Fun(self.ck, f, lambda x: x.q.startswith("std::") or x.key in self.opaq and x.key != k)
        return self.cache[k] if False else self.cache[f.key]

    def fits(self, v):
        return self.lo <= v <= self.hi

    # ------------------------------------------------------------ uninterpreted parser functions
    def stub(self, n, args, s):
        c = self.contract.get(n)
        if c == "pow":
            x, k = args
            if k < 0:
                raise Throw()
            if abs(x) <= 1:
                return (1 if k == 0 else x if k % 2 else x * x), s
            if k > 200 or not self.fits(x ** k):
                raise Throw()
            return x ** k, s
        if c == "shl":
            x, k = args
            if k < 0 or k >= self.bits or not self.fits(x << k):
                raise Throw()
            return x << k, s
        if n == "eatSpaces":
            i = s["index_"]
            while i < len(s["expr_"]) and s["expr_"][i] in " \t\n\v\f\r":
                i += 1
            return None, dict(s, index_=i)
        if n in ("parseDecimal", "parseHex", "parseExpr", "parseValue"):
            k = (n, s["index_"], s["expr_"])
            adv = {"parseDecimal": 1, "parseHex": 3, "parseExpr": 1, "parseValue": 1}[n]
            v = self.values.get(n, 5)
            self.log.append((n, s["index_"], s.get("stack_")))
            return v, dict(s, index_=s["index_"] + adv)
        if n == "calculate":
            return ("calc", args[0], args[1], str(args[2])), s
        if n == "parseOp":
            return self.op, s
        raise Unknown("call of " + n)

    def case(self, rule, what, fn):
        """one obligation; Unknown -> undecided"""
        site = "%s %s" % (self.tag, what)
        try:
            bad = fn()
        except Unknown as e:
            self.ck.und(rule, site, "not understood: %s" % e)
            return
        except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
            self.ck.und(rule, site, "not understood: %r" % e)
            return
        self.ck.cond(rule, site, not bad, "holds on all cases", str(bad))

    def run(self):
        ck = self.ck
        if self.bits is None:
            ck.und("arithmetic", self.tag, "unknown value type")
            return
        for n in ("parseOp", "calculate", "parseValue", "parseExpr", "eval"):
            if not self.fun(n):
                ck.und("whole", self.tag, "no function " + n)
                return
        # 'parseExpr' etc. are uninterpreted in each other
        self.values, self.log = {}, []
        for n, l in sorted(self.fs.items()):
            f = l[0]
            if f.key in self.opaq and len(f.params) == 2 and n not in ("parseExpr", "parseValue", "calculate"):
                self.powlike(n, f)
        if "eatSpaces" in self.fs:
            self.case("whole", "eatSpaces", self.eat)
        self.digits("parseDecimal", 10, 0)
        self.digits("parseHex", 16, 2)
        self.case("value", "isHex", self.ishex)
        self.operators()
        self.operands()
        self.reduce()
        for l in self.fs["eval"]:
            if l.params and l.params[0].type() is not None and l.params[0].type().strip_ref().k == "rec":
                self.case("whole", "eval", lambda: self.whole(l))

    # ------------------------------------------------------------ loops
    def theloop(self, F):
        L = [i for i in F.g.loopinfo]
        if len(L) != 1:
            raise Unknown("%d loops in %s" % (len(L), F.f.name))
        return L[0], F.g.loopinfo[L[0]]

    def powlike(self, n, f):
        F = self.fun(n)
        site = "%s %s" % (self.tag, n)
        if not F.g.loopinfo:
            return
        try:
            lid, I = self.theloop(F)
            P = {p: I["phi"][p] for p in I["phi"] if p in I["next"]}
            x, k = F.names
            pe = Ev(F.env(**{x: 7, k: 5}))
            ini = {}
            for p in P:
                try:
                    ini[p] = pe(I["init"][p])
                except Unknown:
                    ini[p] = None
            acc = [p for p in P if ini[p] == 1] or [p for p in P if ini[p] == 7]
            base = [p for p in P if ini[p] == 7 and p not in acc]
            ex = [p for p in P if ini[p] == 5]
            if len(acc) != 1 or len(ex) != 1:
                raise Unknown("loop variables of " + n)
            acc, ex = acc[0], ex[0]
            kind = "pow" if ini[acc] == 1 else "shl" if ini[acc] == 7 else None
            if kind is None or kind == "pow" and len(base) > 1:
                raise Unknown("the accumulator starts with %s" % ini[acc])
        except (Unknown, Throw) as e:
            self.ck.und("loop", site, str(e))
            return
        self.contract[n] = kind
        b0 = base[0] if base else None

        def total(a, b, e):
            return a * (b if kind == "pow" else 2) ** e

        def step():
            rnd = random.Random(7)
            st = [(a, b, e) for a in (1, -1, 2, 3, -7, 10, 1 << 15, 1 << 30, -(1 << 30)) for b in (0, 1, -1, 2, -2, 3, 10, -10, 46341, 1 << 16, 1 << 20, 3037000500, 1 << 40) for e in (0, 1, 2, 3, 4, 5, 8, 19, 31)]
            for a, b, e in st:
                if not self.fits(a) or not self.fits(b) or kind == "shl" and e >= self.bits:
                    continue
                env = F.env(this={}, **{x: b if kind == "pow" else a, k: e})
                env.update({P[acc]: a, P[ex]: e})
                if b0:
                    env[P[b0]] = b
                elif kind == "pow":
                    env[mk("var", x)] = b
                ev = Ev(env, self.stub)
                go = F.goes(lid, I, ev)
                if go != (e > 0):
                    return "with exponent %d left the loop %s" % (e, "continues" if go else "ends")
                if not go:
                    continue
                # events inside the loop
                th = any(ev.pc(t) for t in F.g.events if t.k == "throw" and lid in loops_of(t))
                t = total(a, b, e)
                if th:
                    if self.fits(t):
                        return "an overflow is reported although %d * %d ^ %d fits" % (a, b if kind == "pow" else 2, e)
                    continue
                a2, e2 = ev(I["next"][acc]), ev(I["next"][ex])
                b2 = ev(I["next"][b0]) if b0 else b
                if not 0 <= e2 < e:
                    return "the exponent goes from %d to %d" % (e, e2)
                if total(a2, b2, e2) != t:
                    return "%d * %d^%d becomes %d * %d^%d" % (a, b, e, a2, b2, e2)
                if not self.fits(a2) or not self.fits(b2):
                    return "an overflow of %d is not reported" % (a2 if not self.fits(a2) else b2)

        def entry():
            for b in (0, 1, 2, -3, 10):
                for e in (-5, -1, 0, 1, 2, 7, self.bits - 1, self.bits, self.bits + 1, 1000):
                    if self.unsigned and e < 0:
                        continue
                    env = F.env(this={}, **{x: b, k: e})
                    env.update({P[acc]: 17, P[ex]: 0})
                    if b0:
                        env[P[b0]] = b
                    ev = Ev(env, self.stub)
                    th = False
                    for t in F.g.events:
                        if t.k == "throw" and lid not in loops_of(t):
                            th = th or ev.pc(t)
                    if e < 0 and not th:
                        return "a negative second operand is not an error"
                    if e >= 0 and th and not (kind == "shl" and e >= self.bits - 1):
                        return "%d as the second operand is an error" % e
                    if not th:
                        want = (1 if kind == "pow" else b)
                        if ev(I["init"][acc]) != want or ev(I["init"][ex]) != e or b0 and ev(I["init"][b0]) != b:
                            return "the loop does not start with the operands"
                        if e == 0 or True:
                            if ev(F.g.retval) != 17:
                                return "the accumulated value is not what is returned"
        self.case("loop", n + " entry", entry)
        self.case("loop", n + " step", step)

    def eat(self):
        F = self.fun("eatSpaces")
        lid, I = self.theloop(F)
        for c in list(range(1, 127)) + [None]:
            s = {"expr_": "ab" + (chr(c) if c else ""), "index_": 2, "stack_": ()}
            ev = Ev(self.loopenv(F, I, s), self.stub)
            go = F.goes(lid, I, ev)
            if bool(go) != (c is not None and chr(c) in " \t\n\v\f\r"):
                return "character %r is %s" % (chr(c) if c else "end", "skipped" if go else "not skipped")
            if go:
                s2 = self.loopnext(F, I, ev, s)
                if s2["index_"] != 3:
                    return "a space advances the index from 2 to %d" % s2["index_"]

    def loopenv(self, F, I, s, **kw):
        """state of *this at the loop head, whichever fields the loop carries"""
        env = F.env(this=s, **kw)
        for p, t in I["phi"].items():
            if p == "P:this":
                env[t] = s
            elif p.startswith("P:this."):
                env[t] = s[p[7:]]
        return env

    def loopnext(self, F, I, ev, s):
        s2 = dict(s)
        if "P:this" in I["next"]:
            s2 = dict(ev(I["next"]["P:this"]))
        for p in I["next"]:
            if p.startswith("P:this."):
                s2[p[7:]] = ev(I["next"][p])
        return s2

    def digits(self, name, base, skip):
        F = self.fun(name)
        if F is None:
            self.ck.und("loop", "%s %s" % (self.tag, name), "not found")
            return

        def go():
            lid, I = self.theloop(F)
            val = [p for p in I["phi"] if I["phi"][p] in subterms(F.g.retval)]
            if len(val) != 1:
                raise Unknown("loop variables")
            val = val[0]
            s0 = {"expr_": "0x1234567", "index_": 0, "stack_": ()}
            ev = Ev(F.env(this=s0), self.stub)
            if ev(I["init"][val]) != 0:
                return "the value starts with %s" % ev(I["init"][val])
            i0 = ev(I["init"]["P:this.index_"]) if "P:this.index_" in I["init"] else ev(I["init"]["P:this"])["index_"] if "P:this" in I["init"] else None
            if i0 != skip:
                return "the first digit is expected at offset %s" % i0
            used = {x for t in [I["cond"]] + [I["next"][p] for p in I["next"] if p == val or p.startswith("P:")] for x in subterms(t)}
            rot = [p for p in I["phi"] if not p.startswith("P:") and p != val and I["phi"][p] in used]

            def ahead(st):
                """loop variables that run ahead of the index, as functions of the state"""
                e0 = Ev(F.env(this=dict(st, index_=st["index_"] - skip)), self.stub)
                return {I["phi"][p]: e0(I["init"][p]) for p in rot}
            edge = sorted({self.hi // base + d for d in (-1, 0, 1)} | {0, 1, 99, self.hi})
            for c in range(0, 127):
                ch = chr(c) if c else ""
                d = "0123456789abcdef".find(ch.lower()) if c and ch in "0123456789abcdefABCDEF" else 99
                for v in edge:
                    s = {"expr_": "12" + ch, "index_": 2, "stack_": ()}
                    env = self.loopenv(F, I, s)
                    env[I["phi"][val]] = v
                    env.update(ahead(s))
                    ev = Ev(env, self.stub)
                    g = F.goes(lid, I, ev)
                    if g != (d < base):
                        return "character %r %s a base %d number" % (ch or "end", "continues" if g else "ends", base)
                    if not g:
                        break
                    th = F.throws(ev)
                    if th != (not self.fits(v * base + d)):
                        return "%d followed by the digit %r %s" % (v, ch, "is an error" if th else "overflows without an error")
                    if th:
                        continue
                    if ev(I["next"][val]) != v * base + d:
                        return "%d followed by the digit %r becomes %d" % (v, ch, ev(I["next"][val]))
                    s2 = self.loopnext(F, I, ev, s)
                    if s2["index_"] != 3:
                        return "the index does not advance by one per digit"
                    for p, x in ahead(s2).items():
                        if ev(I["next"][p.args[1]]) != x:
                            raise Unknown("loop variable " + p.args[1])
            env = self.loopenv(F, I, {"expr_": "12", "index_": 2, "stack_": ()})
            env[I["phi"][val]] = 77
            env.update({I["phi"][p]: 16 for p in rot})
            if Ev(env, self.stub)(F.g.retval) != 77:
                return "the accumulated value is not what is returned"
        self.case("loop", name, go)

    def ishex(self):
        F = self.fun("isHex")
        if F is None:
            raise Unknown("no function isHex")
        for e, i, want in (("0x1", 0, 1), ("0Xf", 0, 1), ("0xF", 0, 1), ("0xg", 0, 0), ("0x", 0, 0), ("0", 0, 0), ("01", 0, 0), ("1+0xA*2", 2, 1), ("0y1", 0, 0), ("00x1", 0, 0), ("0x ", 0, 0), ("0x0", 0, 1), ("5+0x", 2, 0)):
            o = F.outcome(Ev(F.env(this={"expr_": e, "index_": i, "stack_": ()}), self.stub))
            if o[0] == "throw" or bool(o[1]) != bool(want):
                return "%r at %d is %s" % (e, i, "no hexadecimal number" if want else "taken for a hexadecimal number")

    # ------------------------------------------------------------ operators
    TOK = (("|", "or", 1), ("&", "and", 2), ("<<", "shl", 3), (">>", "shr", 3), ("+", "add", 4), ("-", "sub", 4), ("*", "mul", 5), ("/", "div", 5), ("%", "mod", 5), ("**", "pow", 6), ("^", "pow", 6), ("e", "exp", 7), ("E", "exp", 7))

    def operators(self):
        F, K = self.fun("parseOp"), self.fun("calculate")
        rows = {}
        null = None
        for rest in ("", "3", " 3"):
            for tok, sem, lev in self.TOK + (("", "null", 0),):
                what = "token %r" % (tok or "end of operand")

                def one():
                    if tok == "" and rest:
                        for c in ")],x#.!~(":
                            s = {"expr_": "7" + c, "index_": 1, "stack_": ()}
                            o = F.outcome(Ev(F.env(this=s), self.stub))
                            if o[0] == "throw":
                                return None     # rejected here and now: also an error
                            if o[2]["index_"] != 1 or o[1]["op"] != rows[""]["op"]:
                                return "%r is taken for an operator" % c
                        return
                    for i in (2, 1, 9, 40):
                        for st in ((), ({"op": {"op": 1, "precedence": 4, "associativity": 76}, "value": 5},) * 3):
                            s = {"expr_": "7" * (i - 1) + " " + tok + rest, "index_": i - 1, "stack_": st}
                            o = F.outcome(Ev(F.env(this=s), self.stub))
                            if o[0] == "throw":
                                return "operator %s is rejected" % tok
                            if o[2]["index_"] != i + len(tok):
                                return "operator %s advances the index by %d" % (tok, o[2]["index_"] - i)
                            if o[2]["stack_"] != st:
                                return "reading the operator %s changes the stack" % tok
                            if rows.setdefault(tok, o[1]) != o[1]:
                                return "operator %s depends on what surrounds it" % tok
                self.case("operator", what, one)
        if len(rows) < len(self.TOK) + 1:
            return

        def prec():
            r = sorted(((t, s, l) for t, s, l in self.TOK), key=lambda x: x[2])
            for t1, s1, l1 in r:
                for t2, s2, l2 in r:
                    p1, p2 = rows[t1]["precedence"], rows[t2]["precedence"]
                    if (l1 < l2) != (p1 < p2) or (l1 == l2) != (p1 == p2):
                        return "%s has precedence %d, %s has %d" % (t1, p1, t2, p2)
                if not rows[""]["precedence"] < rows[t1]["precedence"]:
                    return "the end of an operand does not have the lowest precedence"
                if (rows[t1]["associativity"] == ord("L")) != (l1 < 6):
                    return "%s has associativity %r" % (t1, chr(rows[t1]["associativity"]))
            if rows[""]["associativity"] != ord("L"):
                return "the end of an operand is not left-associative"
        self.case("operator", "precedence", prec)
        for t in "<>":
            def half():
                for rest in ("", "3", " <", " >", "=" + t):
                    s = {"expr_": "7" + t + rest, "index_": 1, "stack_": ()}
                    if F.outcome(Ev(F.env(this=s), self.stub))[0] != "throw":
                        return "%r is accepted as an operator" % (t + rest)
            self.case("operator", "half of %s%s" % (t, t), half)
        rnd = random.Random(10)
        vals = [v for v in {0, 1, 2, 3, 4, 5, 7, 10, 16, 31, 32, 38, 62, 63, 64, 65, 100, 126, 127, 128, 129, 255, 1000, -1, -2, -3, -7, -10, -64, 46340, 46341, 1 << 20, (1 << 31) - 1, -(1 << 31), 1 << 31, 1 << 62, (1 << 63) - 1, 1 << 63, -(1 << 63), 3037000499, 3037000500,
                            self.lo, self.lo + 1, self.hi, self.hi - 1, self.hi // 2, self.hi // 2 + 1, self.lo // 2, self.lo // 2 - 1, rnd.randrange(self.hi), -rnd.randrange(self.hi) - 1 if not self.unsigned else 9} if self.fits(v)]
        vals.sort()
        for tok, sem, lev in self.TOK:
            def arith():
                n1, n2, n3 = K.names
                for v1 in vals:
                    for v2 in vals:
                        want = self.exact(sem, v1, v2)
                        if want == "any":
                            continue
                        o = ("throw",)
                        for ix in (3, 4, 30) if v2 == 0 or want is None else (4,):
                            try:
                                o = K.outcome(Ev(K.env(this={"expr_": " " * (ix - 3) + "1%s2" % tok, "index_": ix, "stack_": ()}, **{n1: v1, n2: v2, n3: rows[tok]}), self.stub))
                            except DivZero:
                                return "%d %s %d is not an error" % (v1, tok, v2)
                            if o[0] != "throw":
                                break
                        if want is None and o[0] != "throw":
                            return "%d %s %d is %s instead of an error" % (v1, tok, v2, o[1])
                        if want is not None and (o[0] == "throw" or o[1] != want):
                            return "%d %s %d is %s instead of %d" % (v1, tok, v2, "an error" if o[0] == "throw" else o[1], want)
            self.case("arithmetic", "operator %s" % tok, arith)

        def isnull():
            for r in rows.values():
                I = self.fun("parseExpr")
            return None
        self.rows = rows

    def exact(self, sem, x, y):
        if sem in ("or", "and"):
            return x | y if sem == "or" else x & y
        if sem == "shl":
            if y < 0 or (y >= self.bits and x != 0):
                return None
            if y >= self.bits:
                return "any"
            r = x << y
        elif sem == "shr":
            if y < 0:
                return None
            r = x >> min(y, 300)
        elif sem in ("add", "sub", "mul"):
            r = x + y if sem == "add" else x - y if sem == "sub" else x * y
        elif sem in ("div", "mod"):
            if y == 0:
                return None
            r = tq(x, y) if sem == "div" else x - tq(x, y) * y
        else:
            if y < 0:
                return None
            a, b = (1, x) if sem == "pow" else (x, 10)
            if y > 300:
                if abs(b) > 1:
                    return None if a else "any"
                r = a * (b if y % 2 else b * b)
            else:
                r = a * b ** y
                if a == 0 and y > 8:
                    return "any"
        return r if self.fits(r) else None

    # ------------------------------------------------------------ operands
    def operands(self):
        F = self.fun("parseValue")
        for c in [chr(i) for i in range(33, 127)] + [""]:
            def one():
                for rest in ((")", "x1)", "5", "", "12") if c in "0123456789" else (")", "", "7")):
                    for v in (5, 0, -9, self.hi, self.lo):
                        if not self.fits(v):
                            continue
                        self.values = {"parseDecimal": v, "parseHex": v, "parseValue": v, "parseExpr": v}
                        self.log = []
                        pre = "(1+ "
                        s = {"expr_": pre + c + rest, "index_": 3, "stack_": ()}
                        if c == "" and rest:
                            continue
                        if c == "(":
                            s["expr_"] = pre + "(5" + {")": ")", "": " ", "7": " ) "}[rest]
                        i0 = 4
                        o = F.outcome(Ev(F.env(this=s), self.stub))
                        calls = {x[0] for x in self.log}
                        bad = self.operand(c, rest, v, o, calls, s["expr_"], i0)
                        if bad:
                            return bad
            self.case("value", "character %r" % (c or "end"), one)

    def operand(self, c, rest, v, o, calls, e, i0):
        txt = e[i0:]
        if c != "" and c in "0123456789":
            want = "parseHex" if c == "0" and rest == "x1)" else "parseDecimal"
            other = "parseDecimal" if want == "parseHex" else "parseHex"
            if o[0] == "throw":
                return "%r is rejected" % txt
            if want not in calls or other in calls and o[2]["index_"] != i0 + (3 if want == "parseHex" else 1):
                return "%r is not read by %s" % (txt, want)
            if o[1] != v:
                return "%r has the value %s instead of %d" % (txt, o[1], v)
            return None
        if c == "(":
            if not rest:
                return None if o[0] == "throw" else "a missing `)' is accepted"
            if o[0] == "throw" or o[1] != v:
                return "a parenthesis has %s" % ("no value" if o[0] == "throw" else "the value %s instead of %d" % (o[1], v))
            if o[2]["index_"] != i0 + (3 if rest == ")" else 4):
                return "after `)' the index has advanced by %d" % (o[2]["index_"] - i0)
            return None
        if c in ("~", "+", "-") and c:
            want = ~v if c == "~" else v if c == "+" else -v
            if not self.fits(want):
                return None if o[0] == "throw" else "the negation of %d is %s" % (v, o[1])
            if o[0] == "throw" or o[1] != want:
                return "%s%d is %s" % (c, v, "an error" if o[0] == "throw" else o[1])
            if o[2]["index_"] != i0 + 2:
                return "after %s the index has advanced by %d" % (c, o[2]["index_"] - i0)
            return None
        return None if o[0] == "throw" else "%r is accepted as an operand" % (c or "end of input")

    # ------------------------------------------------------------ shift / reduce
    def reduce(self):
        F = self.fun("parseExpr")
        rows = getattr(self, "rows", None)
        if rows is None:
            return
        LI = F.g.loopinfo
        inner = [i for i in LI if LI[i]["outer"]]
        outer = [i for i in LI if not LI[i]["outer"]]
        site = "%s parseExpr" % self.tag
        if len(inner) != 1 or len(outer) != 1:
            self.ck.und("reduce", site, "%d nested and %d outer loops" % (len(inner), len(outer)))
            return
        I, O = LI[inner[0]], LI[outer[0]]
        null = rows[""]
        stk = lambda *ops: tuple({"op": rows[t], "value": 100 + i} for i, t in enumerate(ops))
        vphi = [p for p in I["phi"] if not p.startswith("P:")]
        ovphi = [p for p in O["phi"] if not p.startswith("P:")]
        if len(vphi) != 1:
            self.ck.und("reduce", site, "loop variables %s" % vphi)
            return
        vphi = vphi[0]

        def point(stack, op, value):
            s = {"expr_": "zz" + (op or ")") + "5", "index_": 2, "stack_": stack}
            env = self.loopenv(F, I, s)
            for p, t in O["phi"].items():
                env[t] = dict(s) if p == "P:this" else s[p[7:]] if p.startswith("P:this.") else value
            env[I["phi"][vphi]] = value
            self.op = rows[op]
            self.log = []
            return Ev(env, self.stub), s

        toks = [t for t, _, _ in self.TOK] + [""]
        lev = dict([(t, l) for t, _, l in self.TOK] + [("", 0)])

        def cond():
            for t in toks:
                for u in toks:
                    ev, s = point(stk("", t), u, 9)
                    c = F.goes(inner[0], I, ev, False)
                    want = lev[u] < lev[t] or lev[u] == lev[t] and lev[u] < 6
                    if c != want:
                        return "before %r, the operator %r on the stack is %s" % (u or "end", t or "start", "applied" if c else "not applied")

        def action():
            for t, sem, _ in self.TOK:
                for deep in (("", "+"), ("", "+", "", "", "+", "", "", "|")):
                    ev, s = point(stk(*deep) + ({"op": rows[t], "value": 13},), "", 3)
                    nv = ev(I["next"][vphi])
                    s2 = self.loopnext(F, I, ev, s)
                    if nv not in (("calc", 13, 3, str(rows[t])), self.exact(sem, 13, 3)):
                        return "the value after applying %s is not that of left operand %s right operand" % (t, t)
                    if s2["stack_"] != s["stack_"][:-1]:
                        return "%d entries are left of %d after applying one operator" % (len(s2["stack_"]), len(s["stack_"]))

        def leave():
            rets = [e for e in F.g.events if e.k == "ret" and inner[0] in loops_of(e)]
            for t in toks:
                ev, s = point(stk("+", t), "", 9)
                if not F.goes(inner[0], I, ev, False):
                    continue
                hit = [e for e in rets if ev.pc(e)]
                if bool(hit) != (t == ""):
                    return "with %r on top of the stack the evaluation %s" % (t or "the start marker", "ends" if hit else "goes on")
                for e in hit:
                    if ev(e.a["val"]) != 9:
                        return "the value returned is not the value of the expression"

        def shift():
            for t in toks[:-1]:
                for st in (stk(""), stk("", "|"), stk("", "", "", "", "|")):
                    self.values = {"parseValue": 55}
                    ev, s = point(st, t, 9)
                    if F.goes(inner[0], I, ev, False):
                        continue
                    if ovphi:
                        v = ev(O["next"][ovphi[0]]) if ovphi[0] in O["next"] else None
                        if v != 55:
                            return "the right operand of %s is not the next value" % t
                    s2 = self.loopnext(F, O, ev, s)
                    pv = [x for x in self.log if x[0] == "parseValue"]
                    if not pv:
                        return "no operand is read after %s" % t
                    if any(x[2] != s["stack_"] + ({"op": rows[t], "value": 9},) for x in pv):
                        return "%s and its left operand are not what is pushed" % t

        def start():
            self.values = {"parseValue": 55}
            self.log = []
            s = {"expr_": "zz", "index_": 1, "stack_": stk("+")}
            ev = Ev(F.env(this=s), self.stub)
            if ovphi and ev(O["init"][ovphi[0]]) != 55:
                return "the first value is not the first operand"
            for p in O["init"]:
                if p.startswith("P:"):
                    ev(O["init"][p])
            pv = [x for x in self.log if x[0] == "parseValue"]
            for x in pv:
                if len(x[2]) != 2 or x[2][:1] != s["stack_"] or any(x[2][1]["op"][k] != null[k] for k in ("precedence", "op", "associativity")):
                    return "the parenthesis level does not start with the start marker on the stack"
            if not pv:
                raise Unknown("first operand")
        for n, fn in (("start", start), ("reduce condition", cond), ("reduce action", action), ("end", leave), ("shift", shift)):
            self.case("reduce", "parseExpr " + n, fn)

    def whole(self, f):
        F = self.fun("eval") if self.fs["eval"][0] is f else Fun(self.ck, f, lambda x: x.q.startswith("std::") or x.key in self.opaq)
        n = F.names[0]
        for e in ("1", "12", "123"):
            self.values = {"parseExpr": 55}
            self.log = []
            ev = Ev(F.env(this={"expr_": "old", "index_": 9, "stack_": ()}, **{n: e}), self.stub)
            th = False
            for t in F.g.events:
                if t.k == "throw" and not "exc" in handler(t):
                    th = th or ev.pc(t)
            left = len(e) > 1
            if th != left:
                return "with %d characters left over the expression is %s" % (len(e) - 1, "rejected" if th else "accepted")
            if not left and ev(F.g.retval) != 55:
                return "the value of the expression is not what is returned"
            pe = [x for x in self.log if x[0] == "parseExpr"]
            if not pe or any(x[1] != 0 for x in pe):
                return "the evaluation does not start at the first character"
