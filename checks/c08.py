"""C08: every command-line option does what the help text says.

The option tables are read off the type-checked program; the functions that
split an argument, act on an option, and run the selected computation are turned
into value graphs whose decision tables (which option leads to which calls with
which arguments) are evaluated for every option and compared with the documented
meaning."""
import re
from terms import T, mk, subterms
from points import Ev, Fun, Unknown
from effects import strip
from sites import site
from harness import short

TITLE = "Every command-line option does what the help text says"
PS = "primesum::"
MAXU64 = (1 << 64) - 1

# primesum: option -> documented meaning
CALL = {
    "--deleglise_rivat": ("pi_deleglise_rivat", "x", "threads"), "--deleglise_rivat_parallel1": ("pi_deleglise_rivat_parallel1", "x", "threads"),
    "--lmo": ("pi_lmo", "x", "threads"), "--lmo1": ("pi_lmo1", "x"), "--lmo2": ("pi_lmo2", "x"), "--lmo3": ("pi_lmo3", "x"),
    "--lmo4": ("pi_lmo4", "x"), "--lmo5": ("pi_lmo5", "x"), "--lmo_parallel1": ("pi_lmo_parallel1", "x", "threads"),
    "--P2": ("P2", "x", "threads"), "--pi": ("pi", "x", "threads"), "--S1": ("S1", "x", "threads"),
    "--S2_easy": ("S2_easy", "x", "threads"), "--S2_hard": ("S2_hard", "x", "threads"), "--S2_trivial": ("S2_trivial", "x", "threads"),
}
ACT = {"--alpha", "--help", "--number", "--status", "--test", "--time", "--threads", "--version"}
ALIAS = {"-a": "--alpha", "-d": "--deleglise_rivat", "-h": "--help", "-l": "--lmo", "-s": "--status", "-t": "--threads", "-v": "--version"}
VALUE = {"--alpha", "--threads", "--status", "--number"}

# primesieve: option -> (meaning, parameter)
SACT = {"--count": "o", "--cpu-info": "n", "--help": "n", "--nth-prime": "n", "--no-status": "n", "--number": "r", "--dist": "r", "--print": "o",
        "--quiet": "n", "--size": "r", "--test": "n", "--threads": "r", "--time": "n", "--version": "n"}
SALIAS = {"-c": "--count", "-h": "--help", "-n": "--nth-prime", "--nthprime": "--nth-prime", "-d": "--dist", "-p": "--print", "-q": "--quiet",
          "-s": "--size", "-t": "--threads", "-v": "--version"}


def run(ck):
    ck.rule("table", "every documented spelling is an option, and short and long form select the same one")
    ck.rule("split", "an argument is split into option and value, and everything that is neither option nor number is refused")
    ck.rule("act", "each option has exactly its documented effect")
    ck.rule("dispatch", "each selected computation is run on the operands in their documented order and its result is printed")
    for name, fn in (("primesum", Sum(ck).run), ("primesieve", Sieve(ck).run)):
        fn()


class Ex(Exception):
    pass


class Map:
    """the option table while an argument is interpreted: which options exist, and the entry found"""

    def __init__(self, table, entry=None):
        self.table, self.entry = table, entry


class OEv(Ev):
    def __init__(self, env, stub=None, m=None, exc=False):
        super().__init__(env, stub)
        self.m, self.exc = m, exc

    def ev(self, t):
        o, a = t.op, t.args
        if o == "bvar" and isinstance(a[0], tuple) and a[0] and a[0][0] == "exc":
            return self.exc
        if self.m is not None and o in ("ld", "phi", "var", "lv") and "optionMap" in str(a):
            return self.m
        if o == "out" and len(a) == 2 and isinstance(a[1], T) and a[1].op == "call":
            raise Unknown("out")
        if o == "sel" and a[1][0] == "i":
            v = self(a[0])
            k = self.num(a[1][1])
            if isinstance(v, (tuple, list)):
                if not 0 <= k < len(v):
                    raise Unknown("element %d of %d" % (k, len(v)))
                return v[k]
        if o == "sel" and a[1][0] == "f":
            v = self(a[0])
            if isinstance(v, tuple) and len(v) == 2 and a[1][1] in ("first", "second"):
                return v[a[1][1] == "second"]
        if o == "addr":
            return ("addr", str(a))
        if o == "obj" and "basic_string::basic_string" in re.sub("<.*?>", "", str(a[0])):
            for x in a[1:]:
                if isinstance(x, T) and x.op not in ("addr",):
                    v = self(x)
                    if isinstance(v, str):
                        return v
                    raise Unknown("string from %s" % (v,))
            return ""
        if o == "poly" and len(a[0]) == 1:
            ms, c = a[0][0]
            if c == 1 and len(ms) == 1:
                return self(ms[0])
        return super().ev(t)

    def lib(self, o, q, n, args):
        if args and isinstance(args[0], Map):
            m = args[0]
            if o == "eff":
                return m
            if n == "count":
                return int(args[1] in m.table)
            if n in ("operator[]", "at"):
                if m.entry is not None:
                    return m.entry
                if args[1] not in m.table:
                    if n == "at" or not m.table:
                        raise Unknown("entry of " + str(args[1]))
                    # std::map creates a value-initialised entry
                    return (0, 0) if isinstance(next(iter(m.table.values())), tuple) else 0
                return m.table[args[1]]
            if n == "find":
                return ("it", args[1] if args[1] in m.table else None)
            if n in ("end", "cend"):
                return ("it", None)
        if n in ("operator==", "operator!=") and len(args) == 2 and all(isinstance(x, tuple) and x[:1] == ("it",) for x in args):
            return (args[0] == args[1]) == (n == "operator==")
        if args and isinstance(args[0], str):
            s = args[0]
            if o == "eff":
                if n == "operator=":
                    return args[1] if isinstance(args[1], str) else s
                if n == "operator+=":
                    return s + args[1]
                return s
            if n in ("find_first_of", "find"):
                p = args[2] if len(args) > 2 else 0
                c = args[1] if isinstance(args[1], str) else chr(args[1])
                r = -1
                if n == "find":
                    r = s.find(c, p)
                else:
                    r = next((i for i in range(p, len(s)) if s[i] in c), -1)
                return r if r >= 0 else MAXU64
            if n == "substr":
                return s[args[1]:args[1] + args[2]] if len(args) > 2 else s[args[1]:]
            if n == "compare" and len(args) == 2:
                return (s > args[1]) - (s < args[1])
            if n in ("front", "back"):
                return ord(s[0 if n == "front" else -1])
            if n == "operator+":
                return "msg"
            if n == "basic_string":
                return args[-1] if len(args) > 1 and isinstance(args[1], str) else s
        if n == "operator+":
            return "msg"
        if n in ("abs", "llabs", "labs") and isinstance(args[0], int):
            return abs(args[0])
        if n == "operator=" and o == "eff" and len(args) == 2 and isinstance(args[1], str):
            return args[1]
        if isinstance(args[0] if args else None, tuple):
            s = args[0]
            if o == "eff" and n in ("front", "back", "at", "operator[]", "begin", "end", "size", "empty"):
                return s
            if n == "push_front":
                return (args[1],) + s
            if n in ("push_back", "emplace_back"):
                return s + (args[1],)
            if n in ("front", "at", "operator[]"):
                return s[0 if n == "front" else args[1]]
        return super().lib(o, q, n, args)


def handler(e):
    """the event lies in an exception handler"""
    return any(isinstance(c, tuple) or c.op == "bvar" and isinstance(c.args[0], tuple) and c.args[0][:1] == ("exc",) for c in e.pc)


def strlits(n):
    return [x for x in n.walk() if x.k == "StringLiteral"]


def enums(n):
    return [x.decl() for x in n.walk() if x.k == "DeclRefExpr" and x.decl() is not None and x.decl().key is not None and str(x.decl().key).startswith("enum:")]


class Cli:
    def __init__(self, ck):
        self.ck, self.prog = ck, ck.prog

    def fs(self, name, where):
        return [f for f in self.prog.functions.values() if f.name == name and f.body is not None and where(f.file)]

    def one(self, name):
        l = self.fs(name, self.mine)
        return l[0] if len(l) == 1 else None

    def und(self, rule, at, why):
        self.ck.und(rule, at, why)

    def case(self, rule, at, fn):
        try:
            r = fn()
        except (Unknown, KeyError, TypeError, AttributeError, IndexError, ValueError) as e:
            self.ck.und(rule, at, "not understood: %s" % (e if isinstance(e, Unknown) else repr(e)))
            return
        self.ck.cond(rule, at, not r, "as documented", str(r))

    # ------------------------------------------------------------- tables
    def roots(self):
        for f in self.prog.functions.values():
            if f.body is not None and self.mine(f.file):
                yield f.body
        for g in self.prog.globals.values():
            if g.get("init") is not None and self.mine(g["l"].rsplit(":", 2)[0]):
                yield g["init"]

    def table(self):
        """spelling -> list of the enumerators it is paired with"""
        out = {}
        for r in self.roots():
            for s in strlits(r):
                t = s.a.get("s")
                if not isinstance(t, str) or not re.match(r"^--?[A-Za-z]", t) or re.search(r"[\s']", t):
                    continue
                n = s
                while n is not None and not enums(n):
                    n = n.parent
                    if n is not None and n.k in ("CompoundStmt", "ForStmt", "IfStmt", "SwitchStmt", "DeclStmt"):
                        n = None
                if n is None or len(strlits(n)) != 1:
                    continue
                out[t] = enums(n)
        return out

    def helptext(self):
        for r in self.roots():
            for s in strlits(r):
                if isinstance(s.a.get("s"), str) and "Usage:" in s.a["s"]:
                    return s.a["s"]
        return None

    def documented(self, text):
        """groups of spellings documented on one line of the help text"""
        out = []
        for l in text.split("\n"):
            if not re.match(r"^\s{2,}-", l):
                continue
            head = re.split(r"\s{2,}(?=[A-Z\[])", l.strip())[0]
            w = re.findall(r"(?<![\w-])(--?[A-Za-z][\w-]*)", head)
            if w:
                out.append(w)
        return out

    def tables(self, alias, names):
        ck = self.ck
        tab, text = self.table(), self.helptext()
        if len(tab) < 5:
            self.und("table", self.prog_name, "option table not found")
            return None
        ev = {}
        for k, e in tab.items():
            ev[k] = e[0]
        first = {}
        for k in list(names) + list(alias):
            c = alias.get(k, k)
            at = "%s %s" % (self.prog_name, k)
            if k not in ev:
                ck.viol("table", at, "the documented option is not in the option table")
            elif c in ev and ev[k].q != ev[c].q:
                ck.viol("table", at, "selects %s, but %s selects %s" % (ev[k].n, c, ev[c].n))
            else:
                ck.ok("table", at, ev[k].n)
        by = {}
        for k, e in ev.items():
            by.setdefault(e.q, set()).add(alias.get(k, k))
        for q, s in sorted(by.items()):
            ck.cond("table", "%s %s" % (self.prog_name, q.split("::")[-1]), len(s & set(names)) <= 1, "one meaning", "two options with different meaning select it: %s" % ", ".join(sorted(s)))
        if text is not None:
            for g in self.documented(text):
                miss = [w for w in g if w not in ev]
                ck.cond("table", "%s help text %s" % (self.prog_name, "/".join(g)), not miss and len({ev[w].q for w in g}) == 1, "spellings select one option",
                        "%s is not an option" % miss[0] if miss else "the spellings select different options")
        return tab

    # ------------------------------------------------------------- effects of one option
    def effects(self, F, ev, inloop=True):
        out = []
        for i, e in enumerate(F.g.events):
            if handler(e) or bool(e.loops) != inloop:
                continue
            if e.k == "call":
                n = e.a["q"].split("::")[-1]
                d = e.a.get("decl")
                if n in self.watch:
                    if self.holds(ev, e):
                        out.append((n,) + tuple(self.val(ev, x) for x in e.a["args"]))
                        if n in ("help", "version", "exit"):
                            break
                elif n in ("push_back", "emplace_back", "push_front") and e.a.get("obj") is not None:
                    if self.holds(ev, e):
                        out.append((n,) + tuple(self.val(ev, x) for x in e.a["args"]))
            elif e.k == "store" and e.a["loc"][1] and e.a["loc"][1][-1][0] == "f":
                if self.holds(ev, e):
                    out.append(("set", e.a["loc"][1][-1][1], self.val(ev, e.a["val"])))
            elif e.k == "throw":
                if self.holds(ev, e):
                    out.append(("throw",))
        return out

    def val(self, ev, x):
        v = ev(x)
        return int(v) if isinstance(v, bool) else v

    def holds(self, ev, e):
        later = None
        for c in e.pc:
            if not isinstance(c, T):
                return False
            try:
                if not ev(c):
                    return False
            except Unknown as x:
                later = x
        if later is not None:
            raise later
        return True

    def selector(self, F):
        """the terms that stand for the argument vector and its counter"""
        env = F.env()
        for e in F.g.events:
            ts = set()
            for c in e.pc:
                if isinstance(c, T):
                    ts |= subterms(c)
            for x in e.a.get("args", ()):
                if isinstance(x, T):
                    ts |= subterms(x)
            if isinstance(e.a.get("val"), T):
                ts |= subterms(e.a["val"])
            for t in ts:
                if t in self.argc(F):
                    env[t] = 2
        for t in self.counter(F):
            env[t] = 1
        return env

    def argc(self, F):
        return {mk("ld", ("P", F.names[0])), mk("var", F.names[0])}

    def counter(self, F):
        """the loop counters that are compared with argc"""
        out = {}
        for lid, I in F.g.loopinfo.items():
            ts = subterms(I["cond"]) | {x for b in I["breaks"] for c in b if isinstance(c, T) for x in subterms(c)}
            if ts & self.argc(F):
                for nm, p in I["phi"].items():
                    if p in ts and "optionMap" not in str(p.args):
                        out[p] = I["init"].get(nm)
        return out

    def everyarg(self, F):
        """the arguments from 1 to argc - 1 are interpreted, and a value that cannot be converted is refused"""
        def start():
            c = {p: i for p, i in self.counter(F).items() if i is not None}
            if len(c) != 1:
                raise Unknown("loop over the arguments")
            for p, i in c.items():
                k = OEv({t: 9 for t in self.argc(F)})(i)
                if k != 1:
                    return "the arguments are interpreted from argv[%d] on" % k
        self.case("act", "%s arguments (%s)" % (self.prog_name, site(F.f)), start)
        if any(n.k == "CXXTryStmt" for n in F.f.body.walk()):
            hs = [e for e in F.g.events if handler(e)]
            self.ck.cond("act", "%s invalid values (%s)" % (self.prog_name, site(F.f)), True if any(e.k == "throw" or e.k == "call" and e.a["q"].split("::")[-1] in ("help", "exit", "abort", "terminate", "_Exit", "quick_exit") for e in hs) else False if all(e.k != "call" or e.a["q"].startswith("std::") for e in hs) else None,
                         "refused", "the exception for a value of the wrong kind is swallowed and the program goes on")

    def compare(self, got, want, what):
        """two multisets of effects"""
        g = list(got)
        for w in want:
            if w in g:
                g.remove(w)
            else:
                near = [x for x in g if x[0] == w[0] and (w[0] != "set" or x[1] == w[1])]
                if near:
                    return "%s: %s instead of %s" % (what, tell(near[0]), tell(w))
                return "%s: %s is missing%s" % (what, tell(w), " (got: %s)" % ", ".join(tell(x) for x in g) if g else "")
        if g:
            return "%s: additionally %s" % (what, tell(g[0]))
        return None


def tell(e):
    if e[0] == "set":
        return "%s = %s" % (e[1], e[2])
    return "%s(%s)" % (e[0], ", ".join(str(x) if not isinstance(x, tuple) else tell(x) for x in e[1:]))


class Sum(Cli):
    prog_name = "primesum"
    watch = {"set_alpha", "set_num_threads", "set_print", "set_status_precision", "help", "version", "test", "exit", "set_alpha_lmo", "set_alpha_deleglise_rivat", "set_print_variables"}

    def mine(self, f):
        return f.startswith("src/app/")

    def run(self):
        tab = self.tables(ALIAS, list(CALL) + sorted(ACT))
        if tab is None:
            return
        self.tab = {k: int(e[0].get("value")) if e[0].get("value") is not None else None for k, e in tab.items()}
        if None in self.tab.values():
            self.tab = self.enumvals(tab)
        self.split()
        self.act()
        self.dispatch()

    def enumvals(self, tab):
        vals = {}
        for r in self.roots():
            for x in r.walk():
                if x.k == "DeclRefExpr" and x.decl() is not None and str(x.decl().key).startswith("enum:") and x.a.get("cv") is not None:
                    vals[x.decl().q] = int(x.a["cv"])
        return {k: vals.get(e[0].q) for k, e in tab.items()}

    def split(self):
        f = self.one("makeOption")
        if f is None:
            self.und("split", "primesum", "makeOption not found")
            return
        F = self.fun(f)

        def go():
            for s, want in self.arguments():
                env = F.env(**{F.names[0]: s})
                ev = OEv(env, None, Map(self.tab))
                if F.throws(ev):
                    return "argument '%s' leads to an exception" % s
                r = ev(F.g.retval)
                got = (r.get("id", ""), r.get("value", ""))
                if want is None:
                    if self.tab.get(got[0]) != self.tab["--help"]:
                        return "unknown argument '%s' is taken as option %s" % (s, got[0])
                elif (self.tab.get(got[0], got[0]), got[1]) != (self.tab[want[0]], want[1]):
                    return "argument '%s' is taken as option '%s' with value '%s'" % (s, got[0], got[1])
        self.case("split", site(f), go)

    def arguments(self):
        for k in sorted(self.tab):
            yield k, (k, "")
            if ALIAS.get(k, k) in VALUE:
                for v in ("5", "12", "1.5", "1e3"):
                    yield k + "=" + v, (k, v)
                    yield k + v, (k, v)
        for v in ("0", "100", "1e13", "10^3", "2*10**6+7", "99999999999999999999999999999999"):
            yield v, ("--number", v)
        for v in ("--foo", "-x", "--foo=5", "-x5", "abc", "-", "--", "--Threads=4", "--helpme", "x=5", "-z=1"):
            yield v, None

    def fun(self, f, opaque=()):
        return Fun(self.ck, f, lambda x: x.q.startswith("std::") or x.q.split("::")[-1].split("<")[0] in opaque)

    def act(self):
        f = self.one("parseOptions")
        if f is None:
            self.und("act", "primesum", "parseOptions not found")
            return
        F = self.fun(f, self.watch | {"makeOption", "initOptionMap", "to_double", "to"})
        self.everyarg(F)

        def effects(k, value, test=True):
            def stub(n, a, s):
                if n == "makeOption":
                    return {"id": k, "value": value}, s
                if n == "to":
                    return ("number", s["value"]), s
                if n == "to_double":
                    return ("double", a[0]), s
                if n == "test":
                    return test, s
                raise Unknown(n)
            env = self.selector(F)
            ev = OEv(env, stub, Map(self.tab))
            return self.effects(F, ArgEv(ev))
        for k in sorted(self.tab):
            c = ALIAS.get(k, k)

            def go(k=k, c=c):
                for v in ("", "7") if c == "--status" else ("7",) if c in VALUE else ("",):
                    for test in (True, False) if c == "--test" else (True,):
                        if c == "--alpha":
                            want = [("set_alpha", ("double", v))]
                        elif c == "--number":
                            want = [("push_back", ("number", v))]
                        elif c == "--threads":
                            want = [("set_num_threads", ("number", v))]
                        elif c == "--status":
                            want = [("set_print", 1), ("set", "time", 1)] + ([("set_status_precision", ("number", v))] if v else [])
                        elif c == "--time":
                            want = [("set", "time", 1)]
                        elif c == "--test":
                            want = [("test",), ("exit", 0 if test else 1)]
                        elif c in ("--help", "--version"):
                            want = [(c[2:],)]
                        elif c in CALL:
                            want = [("set", "option", self.tab[k])]
                        else:
                            raise Unknown("undocumented option")
                        r = self.compare([("push_back",) + x[1:] if x[0] == "emplace_back" else x for x in effects(k, v, test)], want, "option " + k)
                        if r:
                            return r
            self.case("act", "primesum %s (%s)" % (k, site(f)), go)

        def operands():
            for numbers in ((), (41,), (41, 42)):
                env = self.selector(F)
                for e in F.g.events:
                    for c in e.pc:
                        if isinstance(c, T):
                            for t in subterms(c):
                                if t.op in ("phi", "lv") and "numbers" in str(t.args):
                                    env[t] = numbers
                    v = e.a.get("val")
                    if isinstance(v, T):
                        for t in subterms(v):
                            if t.op in ("phi", "lv") and "numbers" in str(t.args):
                                env[t] = numbers
                got = [x for x in self.effects(F, ArgEv(OEv(env, None, Map(self.tab))), inloop=False)]
                want = [("set", "x", 41)] if len(numbers) == 1 else [("help",)]
                r = self.compare(got, want, "%d numbers on the command line" % len(numbers))
                if r:
                    return r
        self.case("act", "primesum operands (%s)" % site(f), operands)

        def default():
            R = [r for k, r in self.prog.records.items() if k[0].split("::")[-1] == "PrimeSumOptions"]
            if not R:
                raise Unknown("PrimeSumOptions")
            d = {x["decl"].n: x["init"] for x in R[0]["fields"]}
            o = strip(d["option"]) if d.get("option") is not None else None
            if o is None or o.a.get("cv") is None:
                raise Unknown("default option")
            if int(o.a["cv"]) != self.tab["--pi"]:
                return "without an option computation %s is selected instead of --pi" % o.a["cv"]
            t = strip(d["time"]) if d.get("time") is not None else None
            if t is not None and t.a.get("cv") not in (None, "0", 0, "false") or t is not None and t.a.get("v") in (True, "true", 1):
                return "the elapsed time is printed without --time"
        self.case("act", "primesum defaults", default)

    def dispatch(self):
        f = self.one("main")
        if f is None:
            self.und("dispatch", "primesum", "main not found")
            return
        names = {c[0] for c in CALL.values()}
        F = self.fun(f, names | {"parseOptions", "get_time", "get_num_threads", "print_result", "is_print", "print_seconds", "int64_cast", "operator<<"})
        outs = [e for e in F.g.events if e.k == "call" and e.a["q"].split("::")[-1] == "operator<<" and not handler(e)]

        tok = {1000003: "x", 17: "threads"}

        def go(k, c, time, status=False):
            codes = {}

            def stub(n, a, s):
                a = ([s] if s is not None else []) + list(a)
                if n in names:
                    # a number that stands for this result
                    codes.setdefault((n,) + tuple(tok.get(v, v) for v in a), 10**9 + 7919 * len(codes))
                    return codes[(n,) + tuple(tok.get(v, v) for v in a)], s
                if n == "int64_cast":
                    return a[0], s
                if n == "parseOptions":
                    return {"x": 1000003, "option": self.tab[k], "time": time}, s
                if n == "get_num_threads":
                    return 17, s
                if n in ("get_time",):
                    return 0, s
                if n == "print_result":
                    return True, s
                if n == "is_print":
                    return status, s
                raise Unknown(n)
            ev = ArgEv(OEv(F.env(), stub))
            res = []
            for e in outs:
                if not self.holds(ev, e):
                    continue
                for x in e.a["args"]:
                    if x.op in ("addr", "fn", "str"):
                        continue
                    res.append(ev(x))
            back = {v: q for q, v in codes.items()}
            res = [back.get(v, v) for v in res]
            want = CALL[c]
            if len(res) != 1:
                return "option %s prints %d values" % (k, len(res)) if res else "option %s prints no result" % k
            if not isinstance(res[0], tuple):
                return "option %s prints %s instead of the result of %s" % (k, res[0], want[0])
            if res[0] != want:
                return "option %s prints the result of %s instead of %s" % (k, tell(res[0]), tell(want))
            return None
        for k in sorted(self.tab):
            c = ALIAS.get(k, k)
            if c in CALL:
                self.case("dispatch", "primesum %s" % k, lambda k=k, c=c: go(k, c, False) or go(k, c, False, True))

        def times():
            for time in (False, True):
                def stub(n, a, s):
                    if n == "parseOptions":
                        return {"x": 5, "option": self.tab["--pi"], "time": time}, s
                    if n == "print_result":
                        return True, s
                    if n == "is_print":
                        return False, s
                    return 0, s
                ev = ArgEv(OEv(F.env(), stub))
                ps = [e for e in F.g.events if e.k == "call" and e.a["q"].split("::")[-1] == "print_seconds"]
                if not ps:
                    raise Unknown("print_seconds")
                if any(self.holds(ev, e) for e in ps) != time:
                    return "the elapsed time is printed without --time" if not time else "--time does not print the elapsed time"
        self.case("dispatch", "primesum --time", times)


class ArgEv:
    """evaluator for parseOptions: the strings made from argv are irrelevant once makeOption is a stub"""

    def __init__(self, ev):
        self.base = ev
        self.env = ev.env
        sub = ev.ev

        def patched(t):
            try:
                return sub(t)
            except (Unknown, TypeError, KeyError, AttributeError, IndexError):
                if t.op == "call" and t.args[0].split("::")[-1] in ("makeOption", "parseOptions", "parseOption") and ev.stub is not None:
                    return ev.stub(t.args[0].split("::")[-1], [], None)[0]
                raise
        ev.ev = patched

    def __call__(self, t):
        return self.base(t)


class Sieve(Cli):
    prog_name = "primesieve"
    watch = {"optionCount", "optionPrint", "optionDistance", "optionCpuInfo", "help", "test", "version", "exit"}

    def mine(self, f):
        return f.startswith("lib/primesieve/src/app/")

    fun = Sum.fun
    enumvals = Sum.enumvals

    def run(self):
        tab = self.tables(SALIAS, sorted(SACT))
        if tab is None:
            return
        vals = self.enumvals(tab)
        par = self.enumvals({k: [e[1]] for k, e in tab.items() if len(e) > 1})
        self.tab = vals
        self.pairs = {k: (vals[k], par.get(k)) for k in tab}
        names = {e[1].n: par[k] for k, e in tab.items() if len(e) > 1}
        kind = {"n": "NO_PARAM", "r": "REQUIRED_PARAM", "o": "OPTIONAL_PARAM"}
        for k in sorted(tab):
            c = SALIAS.get(k, k)
            if c in SACT and len(tab[k]) > 1:
                want = names.get(kind[SACT[c]])
                self.ck.cond("table", "primesieve %s parameter" % k, par[k] == want if want is not None else None, kind[SACT[c]], "%s is registered as %s, documented: %s" % (k, tab[k][1].n, kind[SACT[c]]))
        self.split()
        self.act()
        self.selectors()
        self.dispatch()

    def split(self):
        f = self.one("parseOption")
        if f is None:
            self.und("split", "primesieve", "parseOption not found")
            return
        F = self.fun(f)

        def go(args, want):
            env = F.env(**{"argc": 1 + len(args), "i": 1})
            n = dict(zip(F.names, (1 + len(args), None, 1)))
            env = F.env(**{F.names[0]: n[F.names[0]], F.names[2]: 1})
            av = ("prog",) + tuple(args)
            for t in (mk("ld", ("P", F.names[1])), mk("var", F.names[1])):
                env[t] = av
            ev = OEv(env, None, Map(self.pairs))
            what = "arguments '%s'" % " ".join(args)
            try:
                thrown = F.throws(ev)
            except Unknown as e:
                raise Unknown("%s: %s" % (what, e))
            if thrown:
                return None if want is None else "%s are refused" % what
            r = ev(F.g.retval)
            got = (r.get("opt", ""), r.get("val", ""))
            if want is None:
                return "%s are accepted as option '%s' with value '%s'" % (what, got[0], got[1])
            m = F.g.final.mem.get(("P", F.names[2]))
            used = ev(m) if m is not None else 1
            if (self.tab.get(got[0], got[0]), got[1], used) != (self.tab[want[0]], want[1], want[2]):
                return "%s are taken as option '%s' with value '%s' (%d arguments used)" % (what, got[0], got[1], used)
        groups = {}
        for args, want in self.arguments():
            groups.setdefault(args[0] if args[0] in self.tab else "numbers and unknown arguments" if not args[0].startswith("-") or want is None else re.match(r"-*[A-Za-z-]*[A-Za-z]", args[0]).group(0), []).append((args, want))
        for g, l in sorted(groups.items()):
            def all_(l=l):
                for a, w in l:
                    r = go(a, w)
                    if r:
                        return r
            self.case("split", "%s %s" % (site(f), g), all_)

    def arguments(self):
        for k in sorted(self.tab):
            kind = SACT.get(SALIAS.get(k, k))
            if kind is None:
                continue
            if kind == "n":
                yield (k,), (k, "", 1)
                yield (k, "5"), (k, "", 1)
            elif kind == "r":
                yield (k, "5"), (k, "5", 2)
                yield (k, "1e3", "-q"), (k, "1e3", 2)
                yield (k,), None
                yield (k, "-q"), None
                yield (k, "--quiet"), None
                yield (k + "=7",), (k, "7", 1)
                yield (k + "=",), None
                yield (k + "42",), (k, "42", 1)
                yield (k + "=10^3", "5"), (k, "10^3", 1)
            else:
                yield (k,), (k, "", 1)
                yield (k, "2"), (k, "2", 2)
                yield (k, "-q"), (k, "", 1)
                yield (k, "--quiet"), (k, "", 1)
                yield (k + "=3",), (k, "3", 1)
                yield (k + "3",), (k, "3", 1)
                yield (k + "12", "100"), (k, "12", 1)
        for v in ("0", "100", "1e13", "10^3", "2*10**6+7", "(5+3)", "18446744073709551615"):
            yield (v,), ("--number", v, 1)
        for v in ("--foo", "-x", "--foo=5", "-x5", "abc", "-5", "-", "--", "-1e3", "--Threads=4", "--helpme", "-z=1", "", "+", "--foo5"):
            yield (v,), None
        yield ("--foo=5", "3"), None

    def act(self):
        f = self.one("parseOptions")
        if f is None:
            self.und("act", "primesieve", "parseOptions not found")
            return
        F = self.fun(f, self.watch | {"parseOption", "getValue"})
        self.everyarg(F)
        for k in sorted(self.tab):
            c = SALIAS.get(k, k)

            def go(k=k, c=c):
                def stub(n, a, s):
                    if n == "parseOption":
                        return {"opt": k, "val": "7", "str": k}, s
                    if n == "getValue":
                        return ("number", "7"), s
                    raise Unknown(n)
                ev = ArgEv(OEv(self.selector(F), stub, Map(self.pairs)))
                got = [x[:1] if x[0].startswith("option") else x for x in self.effects(F, ev)]
                got = [("push_back",) + x[1:] if x[0] == "emplace_back" else x for x in got]
                want = {"--count": [("optionCount",)], "--cpu-info": [("optionCpuInfo",)], "--dist": [("optionDistance",)], "--print": [("optionPrint",)],
                        "--size": [("set", "sieveSize", ("number", "7"))], "--threads": [("set", "threads", ("number", "7"))], "--quiet": [("set", "quiet", 1)],
                        "--nth-prime": [("set", "nthPrime", 1)], "--no-status": [("set", "status", 0)], "--time": [("set", "time", 1)],
                        "--number": [("push_back", ("number", "7"))], "--help": [("help", 0)], "--test": [("test",)], "--version": [("version",)]}.get(c)
                if want is None:
                    raise Unknown("undocumented option")
                return self.compare(got, want, "option " + k)
            self.case("act", "primesieve %s (%s)" % (k, site(f)), go)

        def after():
            for numbers in ((), (41,)):
                for quiet in (0, 1):
                    st = {"numbers": numbers, "quiet": quiet, "status": 1, "time": 0, "flags": 0, "nthPrime": 0}
                    env = self.selector(F)
                    ts = set(subterms(F.g.retval))
                    for e in F.g.events:
                        for c in e.pc:
                            if isinstance(c, T):
                                ts |= subterms(c)
                    for t in ts:
                        if t.op in ("phi", "lv") and re.search(r"opts", str(t.args)) and "optionMap" not in str(t.args):
                            m = re.search(r"opts(?:#\d+)?\.(\w+)", str(t.args))
                            env[t] = st[m.group(1)] if m else st
                    ev = ArgEv(OEv(env, None, Map(self.pairs)))
                    thrown = any(self.holds(ev, e) for e in F.g.events if e.k == "throw" and not e.loops and not handler(e))
                    if thrown != (not numbers):
                        return "a command line without numbers is accepted" if not thrown else "a command line with a number is refused"
                    if thrown:
                        continue
                    r = ev(F.g.retval)
                    if quiet and r.get("status"):
                        return "--quiet does not turn off the status"
                    if r.get("numbers", numbers) != numbers or r.get("flags", 0) or r.get("nthPrime", 0):
                        return "what was selected on the command line changes afterwards"
        self.case("act", "primesieve operands (%s)" % site(f), after)

    def selectors(self):
        """values of --count, --print and --dist"""
        f = self.one("optionPrint")
        if f is not None:
            F = self.fun(f, ("getValue",))

            def go():
                for v in ["", "0", "1", "2", "3", "4", "5", "6", "7", "8", "12", "64", "-1"]:
                    o, p = F.names[:2]
                    st = {"flags": 4096, "quiet": 0}
                    ev = OEv(F.env(**{o: {"val": v, "str": "-p" + v, "opt": "-p"}, p: st}), self.value)
                    if any(self.holds(ev, e) for e in F.g.events if e.k == "throw"):
                        if v in ("", "1", "2", "3", "4", "5", "6"):
                            return "--print=%s is refused" % v
                        continue
                    if v not in ("", "1", "2", "3", "4", "5", "6"):
                        return "--print=%s is accepted" % v
                    m = F.g.final.mem.get(("P", p))
                    r = ev(m)
                    want = 4096 | 64 << int(v or 1) - 1
                    if r["flags"] != want:
                        return "--print=%s selects flags %d instead of %d" % (v, r["flags"], want)
                    if not r["quiet"]:
                        return "--print does not switch to quiet output"
            self.case("act", site(f), go)
        else:
            self.und("act", "primesieve --print", "optionPrint not found")
        f = self.one("optionCount")
        if f is not None:
            G = self.fun(f, ("getValue",))
            self.case("act", site(f), lambda: self.digits(G))
        else:
            self.und("act", "primesieve --count", "optionCount not found")
        f = self.one("optionDistance")
        if f is not None:
            H = self.fun(f, ("getValue",))

            def go():
                o, p = H.names[:2]
                for numbers in ((), (0,), (100,), (MAXU64 - 5,)):
                    for d in (0, 1, 5, 6, 1000, MAXU64):
                        start = numbers[0] if numbers else 0
                        ev = OEv(H.env(**{o: {"val": str(d), "str": "-d", "opt": "-d"}, p: {"numbers": numbers}}), self.value)
                        thrown = any(self.holds(ev, e) for e in H.g.events if e.k == "throw")
                        what = "--dist=%d after %s" % (d, "START %d" % start if numbers else "no START")
                        if thrown != (start + d > MAXU64):
                            return "%s is %s" % (what, "refused" if thrown else "accepted although STOP exceeds 2^64-1")
                        if thrown:
                            continue
                        r = ev(H.g.final.mem[("P", p)])["numbers"]
                        if r != numbers + (start + d,):
                            return "%s leads to the numbers %s" % (what, r)
            self.case("act", site(f), go)
        else:
            self.und("act", "primesieve --dist", "optionDistance not found")

    def value(self, n, a, s):
        if n == "getValue":
            return int(s["val"]), s
        raise Unknown(n)

    def digits(self, G):
        o, p = G.names[:2]
        L = [(k, I) for k, I in G.g.loopinfo.items()]
        if len(L) != 1:
            raise Unknown("loops")
        lid, I = L[0]
        for v in ["", "1", "2", "3", "4", "5", "6", "12", "21", "66", "123456", "654321", "0", "-1", "-12", "7", "8", "9", "10", "17", "71", "101"]:
            env = G.env(**{o: {"val": v, "str": "-c" + v, "opt": "-c"}, p: {"flags": 4096, "quiet": 0}})
            good = re.match(r"^[1-6]*$", v) is not None
            ev = OEv(env, self.value)
            thrown = any(self.holds(ev, e) for e in G.g.events if e.k == "throw" and not e.loops)
            if not thrown:
                cur = {nm: ev(x) for nm, x in I["init"].items()}
                for _ in range(12):
                    env2 = dict(env)
                    env2.update({I["phi"][nm]: x for nm, x in cur.items()})
                    ev = OEv(env2, self.value)
                    if not ev(I["cond"]):
                        break
                    if any(self.holds(ev, e) for e in G.g.events if e.k == "throw" and e.loops):
                        thrown = True
                        break
                    if I["breaks"]:
                        raise Unknown("break")
                    cur = {nm: ev(x) for nm, x in I["next"].items()}
                else:
                    return "--count=%s does not end" % v
            if thrown == good:
                return "--count=%s is %s" % (v, "refused" if thrown else "accepted")
            if thrown:
                continue
            env2 = dict(env)
            env2.update({I["phi"][nm]: x for nm, x in cur.items()})
            fl = [x for nm, x in cur.items() if "flags" in nm]
            got = fl[0] if fl else OEv(env2, self.value)(G.g.final.mem[("P", p)])["flags"]
            want = 4096
            for d in v or "1":
                want |= 1 << int(d) - 1
            if got != want:
                return "--count=%s selects flags %d instead of %d" % (v, got, want)

    # ------------------------------------------------------------- running
    def dispatch(self):
        f = self.one("main")
        s, n = self.one("sieve"), self.one("nthPrime")
        if f is None or s is None or n is None:
            self.und("dispatch", "primesieve", "main, sieve or nthPrime not found")
            return
        F = self.fun(f, ("parseOptions", "sieve", "nthPrime", "operator<<"))

        def go():
            for nth in (0, 1):
                def stub(nm, a, st):
                    if nm == "parseOptions":
                        return {"nthPrime": nth}, st
                    raise Unknown(nm)
                ev = ArgEv(OEv(F.env(), stub))
                got = [e.a["q"].split("::")[-1] for e in F.g.events if e.k == "call" and e.a["q"].split("::")[-1] in ("sieve", "nthPrime") and not handler(e) and self.holds(ev, e)]
                want = ["nthPrime" if nth else "sieve"]
                if got != want:
                    return "%s --nth-prime %s is run" % ("with" if nth else "without", " and ".join(got) or "nothing")
        self.case("dispatch", "primesieve main", go)
        setters = {"setFlags", "addFlags", "setSieveSize", "setNumThreads", "setStart", "setStop", "sieve", "nthPrime", "isPrint", "isCount", "getCount", "printSettings", "printSeconds", "getSeconds", "ParallelSieve", "operator<<"}
        for fn in (s, n):
            G = self.fun(fn, setters)
            self.case("dispatch", site(fn), lambda G=G, fn=fn: self.runit(G, fn))

    def runit(self, G, fn):
        o = G.names[0]
        names = ("setFlags", "addFlags", "setSieveSize", "setNumThreads", "setStart", "setStop", "sieve", "nthPrime")
        for numbers in ((41,), (41, 43)):
            for fl, size, thr, status, pr in ((0, 0, 0, 0, False), (3, 0, 0, 1, False), (0, 256, 0, 0, False), (0, 0, 4, 1, False), (64, 512, 4, 1, True)):
                def stub(nm, a, st):
                    if nm == "isPrint":
                        return pr, {}
                    if nm in ("isCount", "getCount", "idealNumThreads", "getSieveSize", "nthPrime", "getSeconds"):
                        return 0, {}
                    return {}, {}
                ev = OEv(G.env(**{o: {"numbers": numbers, "flags": fl, "sieveSize": size, "threads": thr, "status": status, "quiet": 1, "time": 0, "nthPrime": 0}}), stub)
                got = []
                for e in G.g.events:
                    if e.k == "call" and not e.loops and e.a["q"].split("::")[-1] in names and self.holds(ev, e):
                        got.append((e.a["q"].split("::")[-1],) + tuple(self.val(ev, x) for x in e.a["args"]))
                if any(e.k == "throw" and self.holds(ev, e) for e in G.g.events):
                    return "numbers %s are refused" % (numbers,)
                run = [i for i, x in enumerate(got) if x[0] in ("sieve", "nthPrime")]
                if len(run) != 1:
                    return "nothing is computed" if not run else "two computations are run"
                last = {}
                for x in got[:run[0]]:
                    last[x[0]] = x[1:]
                what = "with numbers %s, flags %d, size %d, threads %d" % (numbers, fl, size, thr)
                if len(got) > run[0] + 1:
                    return "%s: %s only after the computation" % (what, tell(got[run[0] + 1]))
                if last.get("setFlags", (0,))[0] != fl:
                    return "%s: the flags are %s" % (what, last.get("setFlags"))
                if last.get("setSieveSize", (0,))[0] != size:
                    return "%s: the sieve size is %s" % (what, last.get("setSieveSize"))
                if fn.name == "sieve":
                    if last.get("setNumThreads", (0,))[0] != (1 if pr else thr):
                        return "%s: %s threads are used" % (what, last.get("setNumThreads"))
                    want = (0, 41) if len(numbers) == 1 else numbers
                    if (last.get("setStart", (None,))[0], last.get("setStop", (None,))[0]) != want:
                        return "%s: the interval is [%s, %s]" % (what, last.get("setStart"), last.get("setStop"))
                    if ("addFlags" in last) != bool(status):
                        return "the status is %s" % ("off although it was not switched off" if status else "shown with --no-status")
                    if status and [i for i, x in enumerate(got) if x[0] == "setFlags"] and [i for i, x in enumerate(got) if x[0] == "addFlags"][0] < [i for i, x in enumerate(got) if x[0] == "setFlags"][0]:
                        return "the status flag is overwritten by the flags of the options"
                else:
                    if last.get("setNumThreads", (0,))[0] != thr:
                        return "%s: %s threads are used" % (what, last.get("setNumThreads"))
                    if got[run[0]][1:] != (41, 0 if len(numbers) == 1 else 43):
                        return "%s: nthPrime%s is computed" % (what, got[run[0]][1:])
        if fn.name == "nthPrime":
            outs = [x for e in G.g.events if e.k == "call" and e.a["q"].split("::")[-1] == "operator<<" and not handler(e) for x in e.a["args"] if x.op not in ("addr", "fn", "str")]
            if not any(x.op == "call" and x.args[0].endswith("nthPrime") for x in outs):
                return "the nth prime is not printed"
        else:
            text = [x.args[0] for e in G.g.events if e.k == "call" and "basic_string" in e.a["q"] for x in e.a["args"] if x.op == "str"]
            words = ("primes", "twin", "triplet", "quadruplet", "quintuplet", "sextuplet")
            if len(text) == 6:
                for i, w in enumerate(words):
                    if w not in text[i].lower():
                        return "counter %d is printed as '%s'" % (i, text[i])
            co = [e for e in G.g.events if e.k == "call" and e.loops and e.a["q"].split("::")[-1] in ("isCount", "getCount")]
            ix = {e.a["args"][-1] for e in co}
            if len(co) == 2 and len(ix) != 1:
                return "the printed counter is not the one that was selected"
            get = [e for e in co if e.a["q"].endswith("getCount")]
            if len(get) == 1 and len(ix) == 1 and next(iter(ix)).op == "phi":
                ph = next(iter(ix))
                for lid, I in G.g.loopinfo.items():
                    for nm, p in I["phi"].items():
                        if p == ph:
                            i, seen = OEv({})(I["init"][nm]), []
                            while len(seen) < 9 and OEv({p: i})(I["cond"]):
                                seen.append(i)
                                i = OEv({p: i})(I["next"][nm])
                            if set(seen) != set(range(6)):
                                return "the counters %s are looked at instead of 0 to 5" % (sorted(set(seen)),)
                for i in range(6):
                    for count in (False, True):
                        def stub(nm, a, st):
                            return (count if nm == "isCount" else 0), {}
                        ev = OEv(G.env(**{o: {"numbers": (41, 43), "flags": 0, "sieveSize": 0, "threads": 0, "status": 0, "quiet": 1, "time": 0, "nthPrime": 0}}), stub)
                        ev.env[next(iter(ix))] = i
                        if self.holds(ev, get[0]) != count:
                            return "counter %d is %s" % (i, "not printed although it was selected" if count else "printed although it was not selected")
        return None


def Unknown_(m):
    raise Unknown(m)
