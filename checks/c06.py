"""C06: out-of-range inputs are rejected, never silently wrapped.

Value graphs in which every integer conversion that can change a number is kept
are evaluated at the boundaries of every type and documented limit: a number
reaches the computation unchanged, or an error is raised before."""
import math
import re
from terms import T, mk, subterms
from points import Fun, Unknown, DivZero
from sites import site
from effects import strip
import c08
from c08 import OEv, ArgEv, Map, Sum, Sieve, CALL, ALIAS, SALIAS, handler

TITLE = "Out-of-range inputs are rejected, never silently wrapped"
I31, I63, I127 = (1 << 31) - 1, (1 << 63) - 1, (1 << 127) - 1
U64 = (1 << 64) - 1
LIMIT = 10 ** 24 + 7
EDGES = [-I127 - 1, -U64 - 4, -U64 - 1, -I63 - 2, -I63 - 1, -I31 - 2, -I31 - 1, -5, -1, 0, 1, 2, 5, 6, 17, I31 - 1, I31, I31 + 1, 2 * I31 + 1, 2 * I31 + 2, 2 * I31 + 7, I63 - 1, I63, I63 + 1, U64 - 1, U64, U64 + 1, U64 + 6, I127]


def run(ck):
    ck.rule("option", "a number given to an option or as operand reaches its destination unchanged or is refused")
    ck.rule("dispatch", "the number is handed to the selected computation unchanged or is refused")
    ck.rule("limit", "a computation refuses x above its limit before anything is computed, and accepts every x up to it")
    ck.rule("documented", "the documented maximum is accepted")
    ck.rule("convert", "a checked conversion refuses exactly the numbers its result type cannot hold")
    C06(ck).run()


class FEv(OEv):
    """floating point constants and functions are evaluated, too"""

    def num(self, t):
        v = self(t)
        if isinstance(v, float):
            return v
        return super().num(t)

    def ev(self, t):
        o, a = t.op, t.args
        if o in ("flt", "fle", "feq"):
            x, y = self.num(a[0]), self.num(a[1])
            return x < y if o == "flt" else x <= y if o == "fle" else x == y
        if o == "trunc":
            v = self.num(a[0])
            return int(v)
        if o in ("fdiv", "div") and len(a) == 2:
            x, y = self.num(a[0]), self.num(a[1])
            if isinstance(x, float) or isinstance(y, float):
                if not y:
                    raise DivZero("division by zero")
                return x / y
        if o == "sel" and a[1][0] == "f":
            v = self(a[0])
            if isinstance(v, (int, float)) and a[1][1] == 0:
                return v
        return super().ev(t)

    def lib(self, o, q, n, args):
        f = {"pow": math.pow, "log": math.log, "sqrt": math.sqrt, "exp": math.exp, "cbrt": lambda x: round(x ** (1 / 3)), "log2": math.log2, "fabs": abs, "floor": math.floor, "ceil": math.ceil}.get(n)
        if f and all(isinstance(x, (int, float)) for x in args):
            return float(f(*args))
        if n in ("min", "max") and all(isinstance(x, (int, float)) for x in args):
            return (min if n == "min" else max)(args)
        return super().lib(o, q, n, args)


def opq(*names):
    return lambda x: x.q.startswith("std::") or x.q.split("::")[-1].split("<")[0] in names


class C06:
    def __init__(self, ck):
        self.ck, self.prog = ck, ck.prog

    def case(self, rule, at, fn):
        try:
            r = fn()
        except (Unknown, KeyError, TypeError, AttributeError, IndexError, ValueError, OverflowError) as e:
            self.ck.und(rule, at, "not understood: %s" % (e if isinstance(e, Unknown) else repr(e)))
            return
        self.ck.cond(rule, at, not r, "holds", str(r))

    def run(self):
        self.sum, self.sieve = Sum(self.ck), Sieve(self.ck)
        for o in (self.sum, self.sieve):
            t = {}
            for k, e in o.table().items():
                t[k] = e
            o.tab = o.enumvals(t) if o is self.sum else {k: int(e[0].get("value")) if e[0].get("value") is not None else None for k, e in t.items()}
            if None in o.tab.values():
                o.tab = o.enumvals(t)
        self.sumoptions()
        self.sieveoptions()
        self.dispatch()
        self.entries()
        self.documented()
        self.conversions()
        self.tables()
        self.nth()

    def fn(self, q=None, name=None, where=lambda f: True):
        return [f for f in self.prog.functions.values() if f.body is not None and (f.q == q or f.name == name) and where(f)]

    # ------------------------------------------------------------- options
    def opt(self, o, F, stub, m, k, kinds):
        """numbers handed to option k arrive unchanged or are refused"""
        for v in EDGES:
            ev = ArgEv(OEv(o.selector(F), lambda n, a, s: stub(n, a, s, v), m))
            thrown = any(o.holds(ev, e) for e in F.g.events if e.k == "throw" and e.loops and not handler(e))
            if thrown:
                if 0 < v <= {"--number": U64}.get(ALIAS.get(k, k), I31):
                    return "option %s: %d is refused" % (k, v)
                continue
            got = [x for x in o.effects(F, ev) if x[0] != "throw"]
            nums = [x[-1] for x in got if x[0] in kinds or x[0] == "set" and x[1] in kinds]
            if not nums:
                return "option %s: the number is not used" % k
            for n in nums:
                if not isinstance(n, int):
                    raise Unknown("value %s" % (n,))
                if n != v:
                    return "option %s: %d is accepted and becomes %d" % (k, v, n)

    def sumoptions(self):
        f = self.sum.one("parseOptions")
        if f is None:
            self.ck.und("option", "primesum", "parseOptions not found")
            return
        F = Fun(self.ck, f, opq(*(self.sum.watch | {"makeOption", "initOptionMap", "to_double", "to_int128"})), exact=True)
        for k in sorted(self.sum.tab):
            if ALIAS.get(k, k) not in ("--threads", "--status", "--number"):
                continue

            def stub(n, a, s, v, k=k):
                if n == "makeOption":
                    return {"id": k, "value": str(v)}, s
                if n == "to_int128":
                    return v, s
                raise Unknown(n)
            self.case("option", "primesum %s (%s)" % (k, site(f)), lambda: self.opt(self.sum, F, stub, Map(self.sum.tab), k, {"set_num_threads", "set_status_precision", "push_back", "emplace_back", "x"}))

        def operand():
            for v in EDGES:
                env = self.sum.selector(F)
                for e in F.g.events:
                    for x in list(e.pc) + [e.a.get("val")]:
                        if isinstance(x, T):
                            for t in subterms(x):
                                if t.op in ("phi", "lv") and "numbers" in str(t.args):
                                    env[t] = (v,)
                got = self.sum.effects(F, ArgEv(OEv(env, None, Map(self.sum.tab))), inloop=False)
                for x in got:
                    if x[0] == "set" and x[1] == "x" and x[2] != v:
                        return "operand %d becomes %d" % (v, x[2])
        self.case("option", "primesum x (%s)" % site(f), operand)

    def sieveoptions(self):
        o = self.sieve
        f = o.one("parseOptions")
        if f is None:
            self.ck.und("option", "primesieve", "parseOptions not found")
            return
        F = Fun(self.ck, f, opq(*(o.watch | {"parseOption", "eval"})), exact=True)
        pairs = {k: (v, 0) for k, v in o.tab.items()}
        for k in sorted(o.tab):
            if SALIAS.get(k, k) not in ("--threads", "--size", "--number"):
                continue

            def stub(n, a, s, v, k=k):
                if n == "parseOption":
                    return {"opt": k, "val": str(v), "str": k}, s
                if n == "eval":
                    return v, s
                raise Unknown(n)
            self.case("option", "primesieve %s (%s)" % (k, site(f)), lambda: self.opt(o, F, stub, Map(pairs), k, {"threads", "sieveSize", "push_back", "emplace_back"}))
        for nm, kind in (("optionDistance", "--dist"), ("optionPrint", "--print"), ("optionCount", "--count")):
            g = o.one(nm)
            if g is None:
                self.ck.und("option", "primesieve " + kind, nm + " not found")
                continue
            G = Fun(self.ck, g, opq("eval"), exact=True)
            self.case("option", "primesieve %s (%s)" % (kind, site(g)), lambda: self.selected(G, kind))

    def selected(self, G, kind):
        o, p = G.names[:2]
        for v in EDGES:
            def stub(n, a, s):
                if n == "eval":
                    return v, s
                raise Unknown(n)
            for numbers in ((), (100,), (U64 - 3,)):
                ev = OEv(G.env(**{o: {"val": str(v), "str": "-x", "opt": "-x"}, p: {"numbers": numbers, "flags": 0, "quiet": 0}}), stub)
                thrown = any(self.sum.holds(ev, e) for e in G.g.events if e.k == "throw" and not e.loops and not handler(e))
                if thrown:
                    if kind == "--dist" and 0 <= v + sum(numbers) <= U64 and v >= 0:
                        return "--dist=%d after START %d is refused" % (v, sum(numbers))
                    continue
                if kind == "--dist":
                    r = ev(G.g.final.mem[("P", p)])["numbers"]
                    if r[-1] != v + sum(numbers) or not 0 <= v + sum(numbers) <= U64 or v < 0:
                        return "--dist=%d after START %d is accepted and STOP becomes %d" % (v, sum(numbers), r[-1])
                elif kind == "--print" and not 1 <= v <= 6:
                    return "--print=%d is accepted" % v
                elif kind == "--count" and (v < 1 or v > I31):
                    return "--count=%d is accepted" % v

    # ------------------------------------------------------------- dispatch
    def dispatch(self):
        f = self.sum.one("main")
        if f is None:
            self.ck.und("dispatch", "primesum", "main not found")
        else:
            names = {c[0] for c in CALL.values()}
            F = Fun(self.ck, f, opq(*(names | {"parseOptions", "get_time", "get_num_threads", "print_result", "is_print", "print_seconds", "operator<<"})), exact=True)
            calls = [e for e in F.g.events if e.k == "call" and e.a["q"].split("::")[-1] in names and not handler(e)]
            for k in sorted(self.sum.tab):
                c = ALIAS.get(k, k)
                if c in CALL:
                    self.case("dispatch", "primesum %s (%s)" % (k, site(f)), lambda k=k, c=c: self.handed(F, calls, k, CALL[c][0]))
        o = self.sieve
        for nm, want in (("sieve", ("setStart", "setStop")), ("nthPrime", ("nthPrime",))):
            f = o.one(nm)
            if f is None:
                self.ck.und("dispatch", "primesieve " + nm, "not found")
                continue
            G = Fun(self.ck, f, opq("setFlags", "addFlags", "setSieveSize", "setNumThreads", "setStart", "setStop", "sieve", "nthPrime", "isPrint", "isCount", "getCount", "printSettings", "printSeconds", "getSeconds", "ParallelSieve", "operator<<"), exact=True)
            self.case("dispatch", "primesieve %s (%s)" % (nm, site(f)), lambda G=G, nm=nm: self.sieved(G, nm))

    def handed(self, F, calls, k, want):
        hit = 0
        for v in EDGES:
            def stub(n, a, s):
                if n == "parseOptions":
                    return {"x": v, "option": self.sum.tab[k], "time": False}, s
                if n == "get_num_threads":
                    return 17, s
                raise Unknown(n)
            ev = ArgEv(OEv(F.env(), stub))
            first = [i for i, e in enumerate(F.g.events) if e.k == "throw" and not handler(e) and self.sum.holds(ev, e)][:1]
            thrown = bool(first)
            before = {id(e) for e in F.g.events[:first[0]]} if first else None
            got = [e for e in calls if e.a["q"].split("::")[-1] == want and (before is None or id(e) in before) and self.sum.holds(ev, e)]
            for e in got:
                x = self.sum.val(ev, e.a["args"][0])
                hit += 1
                if x != v:
                    return "x = %d reaches %s as %s" % (v, want, x)
            if not got and not thrown:
                return "x = %d is neither refused nor computed" % v
            if thrown and 0 <= v <= I63:
                return "x = %d is refused" % v
        if not hit:
            return "%s is never reached" % want

    def sieved(self, G, nm):
        o = G.names[0]
        for numbers in ((5,), (I63,), (I63 + 1,), (U64,), (I31 + 1, 2 * I31 + 7), (I63 + 1, U64), (7, I63 + 9), (0, U64 - 1)):
            def stub(n, a, st):
                return 0, {}
            ev = OEv(G.env(**{o: {"numbers": numbers, "flags": 0, "sieveSize": 0, "threads": 0, "status": 0, "quiet": 1, "time": 0, "nthPrime": 0}}), stub)
            if any(self.sum.holds(ev, e) for e in G.g.events if e.k == "throw" and not handler(e)):
                if nm == "sieve" or numbers[0] <= I63:
                    return "%s is refused" % (numbers,)
                continue
            for e in G.g.events:
                if e.k != "call" or e.loops or not self.sum.holds(ev, e):
                    continue
                n = e.a["q"].split("::")[-1]
                if nm == "sieve" and n in ("setStart", "setStop"):
                    x = self.sum.val(ev, e.a["args"][-1])
                    want = ((0,) + numbers)[-2:][n == "setStop"]
                    if x != want:
                        return "with numbers %s %s is called with %s" % (numbers, n, x)
                if nm == "nthPrime" and n == "nthPrime":
                    x = [self.sum.val(ev, y) for y in e.a["args"][-2:]]
                    if x[0] != numbers[0] or x[1] != (numbers + (0,))[1]:
                        return "with numbers %s the %d-th prime after %d is searched" % (numbers, x[0], x[1])

    # ------------------------------------------------------------- limits
    def entries(self):
        """the computations that accept a 128-bit x and have a limit"""
        wide = lambda f: f.params and f.params[0].type().bits == 128
        done = set()
        for nm in sorted({c[0] for c in CALL.values()}):
            for f in self.fn(name=nm, where=lambda f: wide(f) and len(f.params) <= 2 and f.q.startswith("primesum::")):
                if not any(n.k == "CallExpr" and getattr(self.prog.callee(n), "n", getattr(self.prog.callee(n), "name", "")) == "get_max_x" for n in f.body.walk()):
                    # must hand x over unchanged to a function that has a limit, or to a 64-bit one never
                    if self.forwards(f):
                        self.case("limit", site(f), lambda f=f: self.forward(f))
                else:
                    done.add(nm)
                    self.case("limit", site(f), lambda f=f: self.limit(f))
        for nm in ("P2", "S1", "S2_trivial", "S2_easy", "S2_hard"):
            if nm not in done:
                for f in self.fn(name=nm, where=lambda f: wide(f) and len(f.params) == 2):
                    self.ck.viol("limit", site(f), "x is not compared with get_max_x()")
        if "pi_deleglise_rivat_parallel1" not in done:
            for f in self.fn(name="pi_deleglise_rivat_parallel1", where=lambda f: wide(f)):
                self.ck.viol("limit", site(f), "x is not compared with get_max_x()")
        for f in self.fn(name="pi", where=lambda f: f.q == "primesum::pi" and f.params and not f.params[0].type().bits):
            self.case("limit", site(f) + " string", lambda f=f: self.forward(f, True))

    def params(self, e):
        f = self.prog.functions.get(e.a["decl"].key)
        return f.params if f is not None else []

    def forwards(self, f):
        """the function only hands its operands over"""
        return f.body is not None and not any(n.k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "DeclStmt") for n in f.body.walk())

    def forward(self, f, string=False):
        names = {c[0] for c in CALL.values()}
        F = Fun(self.ck, f, lambda g: g.q.startswith("std::") or not (g.name in names and len(g.params) <= 2 and (not g.params[0].type().bits or self.forwards(g))), exact=True)
        x = F.names[0]
        calls = [e for e in F.g.events if e.k == "call" and e.a["q"].split("::")[-1] in names and (self.params(e)[:1] or [None])[0] is not None and self.params(e)[0].type().bits]
        if not calls:
            raise Unknown("no computation is called")
        for v in EDGES:
            def stub(n, a, s):
                return v if n in ("to_int128", "eval") else 17 if n == "get_num_threads" else 0, s
            ev = OEv(F.env(**{x: "expr" if string else v}), stub)
            if any(self.sum.holds(ev, e) for e in F.g.events if e.k == "throw" and not handler(e)):
                continue
            for e in calls:
                if self.sum.holds(ev, e):
                    y = self.sum.val(ev, e.a["args"][0])
                    if y != v:
                        return "x = %d is handed over as %s" % (v, y)

    def limit(self, f):
        F = Fun(self.ck, f, lambda g: g.q.startswith("std::") or g.q.split("::")[-1].split("<")[0].split("[")[0] not in ("max", "min", "in_between") and g.body is not None and not (g.name == f.name and len(g.params) == len(f.params) and g.params and g.params[0].type().bits == 128), exact=True)
        x = F.names[0]
        alpha, t = 3, 17
        helpers = ("get_alpha", "get_max_x", "to_int128", "iroot", "isqrt", "is_print", "set_print", "print", "get_c", "get_num_threads", "get_time", "pi_legendre", "log", "sqrt")
        calls = [e for e in F.g.events if e.k == "call" and not handler(e) and not e.a["q"].startswith("std::") and not e.a["q"].split("::")[-1].startswith(helpers) and e.a.get("decl") is not None and len(e.a["args"]) >= 2]
        if not calls:
            raise Unknown("no computation is called")
        for v in [-I127 - 1, -U64 - 2, -5, 0, 2, 100, 10 ** 6, I63, I63 + 1, U64, U64 + 9, LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + (1 << 64), 10 ** 32, I127]:
            def stub(n, a, s):
                n = n.split("<")[0].split("[")[0]
                a = ([s] if s is not None else []) + list(a)
                if n == "get_alpha_deleglise_rivat":
                    return alpha, s
                if n == "get_max_x":
                    return "max:%s" % (a[0] if a else 1), s
                if n == "to_int128" or n == "eval":
                    m = re.match(r"max:(\d+)$", str(a[0]))
                    if not m:
                        raise Unknown("to_int128(%s)" % (a[0],))
                    return LIMIT + (int(m.group(1)) - alpha) * 10 ** 20, s
                if n == "iroot":
                    return int(round(max(0, v) ** (1 / 3))), s
                if n == "isqrt":
                    return math.isqrt(max(0, v)), s
                if n in ("is_print", "get_c"):
                    return 1, s
                return 12345, s
            ev = FEv(F.env(**{x: v, F.names[-1]: t} if len(F.names) > 1 else {x: v}), stub)
            ev.env[mk("ld", ("P", x))] = v
            thrown = any(self.sum.holds(ev, e) for e in F.g.events if e.k == "throw" and not handler(e))
            if thrown:
                if 0 <= v <= LIMIT:
                    return "x = %d is refused although the limit is %d" % (v, LIMIT)
                continue
            got = [e for e in calls if self.sum.holds(ev, e)]
            if v > LIMIT:
                return "x = %d is accepted although the limit for the chosen alpha is %d" % (v, LIMIT)
            if v >= 2 and not got:
                return "nothing is computed for x = %d" % v
            if v < 0 and got:
                return "%s is computed for x = %d" % (got[0].a["q"].split("::")[-1], v)
            if v < 2:
                continue
            xs = 0
            for e in got:
                y = self.sum.val(ev, e.a["args"][0])
                first = (self.params(e)[:1] or [e])[0]
                first = getattr(first, "n", "")
                if first == x or y == v:
                    xs += 1
                    if y != v:
                        return "x = %d is handed to %s as %s" % (v, e.a["q"].split("::")[-1], y)
            if not xs:
                raise Unknown("no computation gets x")

    # ------------------------------------------------------------- documented maximum
    def documented(self):
        text = self.sum.helptext() or ""
        m = re.search(r"x <= (10\^\d+|\d+)", text)
        if not m:
            self.ck.und("documented", "primesum help text", "no maximum found")
            return
        b = m.group(1)
        M = 10 ** int(b[3:]) if b.startswith("10^") else int(b)
        mx = [f for f in self.prog.functions.values() if f.body is not None and f.name == "get_max_x"]
        al = [f for f in self.prog.functions.values() if f.body is not None and f.name == "get_alpha_deleglise_rivat"]
        if len(mx) != 1 or len(al) != 1:
            self.ck.und("documented", "primesum help text", "get_max_x or get_alpha_deleglise_rivat not found")
            return

        def value(f, v, user=-1.0):
            F = Fun(self.ck, f, lambda g: g.q.startswith("std::") or g.name in ("get_alpha", "iroot", "operator<<"), exact=False)

            def stub(n, a, s):
                n = n.split("<")[0]
                if n == "get_alpha":
                    return user, s
                if n == "iroot":
                    return int(round(v ** (1 / 6))), s
                raise Unknown(n)
            ev = FEv(F.env(**{F.names[0]: v}), stub)
            if f is mx[0]:
                outs = [x for e in F.g.events if e.k == "call" and e.a["q"].split("::")[-1] in ("operator<<", "to_string", "to_str") for x in e.a["args"] if isinstance(x, T) and x.op not in ("addr", "obj", "str", "fn", "undef")]
                r = []
                for x in outs:
                    try:
                        y = ev(x)
                    except Unknown:
                        continue
                    if isinstance(y, (int, float)) and not isinstance(y, bool):
                        r.append(int(y))
                if len(r) != 1:
                    raise Unknown("value of get_max_x")
                return r[0]
            return float(ev(F.g.retval))

        def safe():
            for a in (1.0, 1.5, 2.0, 10.0, 135.6, 1e3, 1e5, 2.3e6):
                lim = value(mx[0], a)
                if lim > ((2 ** 62) * a) ** 1.5 * (1 + 1e-9):
                    return "for alpha = %s x = %d is accepted, but z = x^(2/3) / alpha exceeds 2^62" % (a, lim)
                if lim < 10 ** 24:
                    return "for alpha = %s only x <= %d is accepted" % (a, lim)
        self.case("documented", site(mx[0]) + " z < 2^62", safe)

        def go():
            for e, d in [(e, d) for e in range(20, 40) for d in (1, 2, 5)]:
                x = d * 10 ** e
                if x > M:
                    break
                if value(mx[0], value(al[0], x)) < x:
                    self.ck.viol("documented", "primesum x <= %s: x = %s10^%d" % (b, "%d*" % d if d > 1 else "", e), "refused: get_max_x is %d with the alpha that is chosen for it" % value(mx[0], value(al[0], x)), key="documented %s10^%d" % ("%d*" % d if d > 1 else "", e))
                else:
                    self.ck.ok("documented", "primesum x <= %s: x = %s10^%d" % (b, "%d*" % d if d > 1 else "", e), "accepted")
        try:
            go()
        except (Unknown, KeyError, TypeError, AttributeError, IndexError, ValueError, OverflowError) as e:
            self.ck.und("documented", "primesum x <= " + b, "not understood: %s" % (e if isinstance(e, Unknown) else repr(e)))

    # ------------------------------------------------------------- conversions
    def conversions(self):
        """checked conversions: Option::to<T>, Option::getValue<T>, int64_cast"""
        for f in self.fn(name="int64_cast"):
            F = Fun(self.ck, f, opq(), exact=True)
            self.case("convert", site(f), lambda F=F: self.table(F, lambda v: OEv(F.env(**{F.names[0]: v})), -I63 - 1, I63))
        for f in self.prog.functions.values():
            if f.body is None or f.name not in ("to", "getValue") or f.params or "app/" not in f.file:
                continue
            F = Fun(self.ck, f, opq("to_int128", "eval"), exact=True)
            bits, uns = self.rettype(f)
            if not bits:
                self.ck.und("convert", site(f), "result type")
                continue
            lo, hi = (0, (1 << bits) - 1) if uns else (-(1 << bits - 1), (1 << bits - 1) - 1)

            def ev(v, F=F):
                def stub(n, a, s):
                    if n in ("to_int128", "eval"):
                        return v, s
                    raise Unknown(n)
                e = OEv(F.env(this={"value": str(v), "val": str(v), "id": "-x", "opt": "-x", "str": "-x"}), stub)
                return e
            self.case("convert", "%s %d bits" % (site(f), bits), lambda F=F, ev=ev, lo=lo, hi=hi: self.table(F, ev, lo, hi))

    def rettype(self, f):
        t = f.ret
        return (t.bits, bool(t.unsigned)) if t is not None else (None, None)

    def table(self, F, mk_ev, lo, hi):
        for v in EDGES + [lo - 1, lo, hi, hi + 1]:
            if not -I127 - 1 <= v <= I127:
                continue
            ev = mk_ev(v)
            thrown = any(self.sum.holds(ev, e) for e in F.g.events if e.k == "throw" and not handler(e))
            if thrown and lo <= v <= hi:
                return "%d is refused" % v
            if not thrown:
                got = [self.sum.val(ev, e.a["val"]) for e in F.g.events if e.k == "ret" and not handler(e) and self.sum.holds(ev, e)]
                if len(got) != 1:
                    raise Unknown("%d results" % len(got))
                if not lo <= v <= hi:
                    return "%d is accepted and becomes %s" % (v, got[0])
                if got[0] != v:
                    return "%d becomes %s" % (v, got[0])
        if any(e.k == "throw" and not handler(e) for e in F.g.events) and any(n.k == "CXXTryStmt" for n in F.f.body.walk()):
            if not any(e.k == "throw" and handler(e) for e in F.g.events):
                return "the error for a number out of range is swallowed"

    # ------------------------------------------------------------- tables
    def tables(self):
        for f in self.prog.functions.values():
            if f.body is None or not re.match(r"primesum::FactorTable<.*>::FactorTable$", f.q) or len(f.params) != 2:
                continue
            T_ = f.q[f.q.index("<") + 1:f.q.index(">::")]
            bits = {"unsigned short": 16, "unsigned int": 32}.get(T_)
            F = Fun(self.ck, f, lambda g: g.q.startswith("std::") or g.q.split("::")[-1].split("<")[0] not in ("max",), exact=True)

            def go(F=F, bits=bits):
                if bits is None:
                    raise Unknown("entry type")
                m = ((1 << bits) - 2) ** 2 - 1
                for y in (1, 8, 1000, m - 1, m, m + 1, m + 2, I63):
                    if y > I63:
                        continue
                    def stub(n, a, s):
                        if n.split("<")[0] in ("ipow", "pow"):
                            return a[0] ** a[1], s
                        raise Unknown(n)
                    ev = OEv(F.env(**{F.names[0]: y}), stub)
                    thrown = any(self.sum.holds(ev, e) for e in F.g.events if e.k == "throw" and not handler(e) and not e.loops)
                    if thrown and y < m:
                        return "y = %d is refused" % y
                    if not thrown and y > m:
                        return "y = %d is accepted, but the table entries have only %d bits" % (y, bits)
            self.case("convert", "%s %s" % (site(f), T_), go)
        for nm, top in (("generate_primes", I31), ("generate_moebius", I31 - 1), ("generate_lpf", I31 - 1)):
            for f in self.fn(q="primesum::" + nm, where=lambda f: f.file.startswith("src/")):
                F = Fun(self.ck, f, lambda g: True, exact=True)

                def go(F=F, top=top):
                    for y in (0, 1, 2, 1000, top, I31 + 1, I31 + 2, 1 << 40, I63):
                        ev = OEv(F.env(**{F.names[0]: y}))
                        thrown = any(self.sum.holds(ev, e) for e in F.g.events if e.k == "throw" and not handler(e) and not e.loops)
                        if thrown and y <= top:
                            return "max = %d is refused" % y
                        if not thrown and y > I31:
                            return "max = %d is accepted, but the primes are stored as 32-bit numbers" % y
                self.case("convert", site(f), go)

    def nth(self):
        for f in self.fn(q="primesum::nth_prime"):
            F = Fun(self.ck, f, opq(), exact=True)

            def go():
                for n in (10, 11, 256 + 5, I31 + 3, 2 * I31 + 7, I63):
                    ev = OEv(F.env(**{F.names[0]: n}))
                    if not any(self.sum.holds(ev, e) for e in F.g.events if e.k == "throw"):
                        return "n = %d is accepted, but only 9 primes are stored" % n
                for n in range(1, 10):
                    ev = OEv(F.env(**{F.names[0]: n}))
                    if any(self.sum.holds(ev, e) for e in F.g.events if e.k == "throw"):
                        return "n = %d is refused" % n
            self.case("limit", site(f), go)
