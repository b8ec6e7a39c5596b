"""Evaluation of value graphs at single points: a finite decision table of a
graph, with uninterpreted functions replaced by stubs."""
import re
from terms import T, mk, subterms
from loops import Loops


class Throw(Exception):
    pass


class Unknown(Exception):
    pass


class DivZero(Unknown):
    pass


def tq(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Ev:
    """evaluation of a value graph at one point: env gives atoms, stub(name, args, state) the results of uninterpreted calls"""

    def __init__(self, env, stub=None):
        self.env, self.stub = dict(env), stub
        self.memo = {}

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        if t not in self.memo:
            self.memo[t] = self.ev(t)
        return self.memo[t]

    def ev(self, t):
        o, a = t.op, t.args
        if o == "c":
            return a[0]
        if o == "poly":
            s = 0
            for ms, c in a[0]:
                x = c
                for f in ms:
                    x = x * self.num(f)
                s += x
            return s
        if o == "ite":
            return self(a[1]) if self(a[0]) else self(a[2])
        if o == "land":
            return self.conj(self.kids(t))
        if o == "lor":
            return self.conj(self.kids(t), False)
        if o == "not":
            return not self(a[0])
        if o == "gt0":
            return self.num(a[0]) > 0
        if o == "eq0":
            return self.num(a[0]) == 0
        if o == "bvar":
            return bool(self(a[0]))
        if o in ("true", "false"):
            return o == "true"
        if o in ("div", "mod"):
            x, y = self.num(a[0]), self.num(a[1])
            if y == 0:
                raise DivZero("division by zero")
            q = tq(x, y)
            return q if o == "div" else x - q * y
        if o in ("and_", "or_", "xor_", "shl", "shr"):
            x, y = [self.num(z) for z in self.kids(t)]
            if o in ("shl", "shr") and not 0 <= y < 512:
                raise Unknown("shift by %d" % y)
            return {"and_": lambda: x & y, "or_": lambda: x | y, "xor_": lambda: x ^ y, "shl": lambda: x << y, "shr": lambda: x >> y}[o]()
        if o in ("min", "max"):
            return (min if o == "min" else max)(self.num(x) for x in self.kids(t))
        if o == "low":
            return self.num(a[-1]) & (1 << a[0]) - 1
        if o == "sel":
            v = self(a[0])
            k = a[1][1]
            if a[1][0] == "f" and isinstance(v, dict):
                if k not in v:
                    raise Unknown("field " + str(k))
                return v[k]
            if a[1][0] == "i" and isinstance(v, str):
                i = self.num(k)
                return ord(v[i]) if 0 <= i < len(v) else 0
            raise Unknown("sel %s" % (a[1],))
        if o == "upd":
            v = self(a[0])
            if a[1][0] == "f" and isinstance(v, dict):
                v = dict(v)
                v[a[1][1]] = self(a[2])
                return v
            raise Unknown("upd")
        if o == "obj" and "basic_string::basic_string" in re.sub("<.*?>", "", str(a[0])) and len(a) > 1 and isinstance(a[1], T) and a[1].op == "str":
            return self(a[1])
        if o in ("undef", "obj", "zeroinit"):
            return {}
        if o == "wrap":
            # conversion to an integer type of a[0] bits (a[1]: unsigned)
            v = self.num(a[2])
            v &= (1 << a[0]) - 1
            return v - (1 << a[0]) if not a[1] and v >> a[0] - 1 else v
        if o == "deref":
            return self(a[0])
        if o in ("trunc",):
            return self(a[0])
        if o in ("call", "eff"):
            q = a[0]
            n = q.split("::")[-1]
            if o == "eff" and not isinstance(a[1], T):
                raise Unknown("eff")
            self.cur=str(t)
            args = [self(x) for x in a[1:] if isinstance(x, T)]
            if q.startswith("std::") or "::" not in q:
                return self.lib(o, q, n, args)
            if self.stub is None:
                raise Unknown("call of " + n)
            s = args[0] if args and isinstance(args[0], dict) else None
            r, s2 = self.stub(n, args[1:] if s is not None else args, s)
            return r if o == "call" else s2
        if o == "str":
            return a[0] if isinstance(a[0], str) else a[0]
        raise Unknown("%s %s" % (o, str(a)[:60]))

    def conj(self, l, land=True):
        """conjunction (disjunction); one operand can decide it although another one has no value"""
        later = None
        for x in l:
            try:
                if bool(self(x)) != land:
                    return not land
            except DivZero as e:
                later = e
        if later is not None:
            raise later
        return land

    def pc(self, e):
        return self.conj(c for c in e.pc if isinstance(c, T))

    def num(self, t):
        v = self(t)
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, int):
            raise Unknown("not a number: %s" % (str(v)[:80],))
        return v

    def kids(self, t):
        for x in t.args:
            if isinstance(x, T):
                yield x
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    if isinstance(y, T):
                        yield y

    def lib(self, o, q, n, args):
        if n in ("isspace", "tolower", "toupper", "isdigit", "isxdigit") and isinstance(args[0], int):
            c = args[0] & 0xff
            ch = chr(c)
            return {"isspace": int(ch in " \t\n\v\f\r" and c != 0), "tolower": ord(ch.lower()) if c < 128 else c, "toupper": ord(ch.upper()) if c < 128 else c,
                    "isdigit": int(ch in "0123456789"), "isxdigit": int(ch in "0123456789abcdefABCDEF")}[n]
        if args and isinstance(args[0], str):
            s = args[0]
            if o == "eff":
                return s
            if n in ("size", "length"):
                return len(s)
            if n == "empty":
                return not s
            if n in ("operator[]", "at"):
                i = args[1]
                return ord(s[i]) if 0 <= i < len(s) else 0
            if n == "compare" and len(args) == 6 and isinstance(args[3], str):
                x, y = s[args[1]:args[1] + args[2]], args[3][args[4]:args[4] + args[5]]
                return (x > y) - (x < y)
            if n == "compare" and len(args) == 4 and isinstance(args[3], str):
                x, y = s[args[1]:args[1] + args[2]], args[3]
                return (x > y) - (x < y)
            if n == "substr":
                return s[args[1]:args[1] + args[2]] if len(args) > 2 else s[args[1]:]
            if n in ("operator==", "operator!=") and isinstance(args[1], str):
                return (s == args[1]) == (n == "operator==")
        if args and isinstance(args[0], tuple):
            s = args[0]
            if n == "empty":
                return not s
            if n == "size":
                return len(s)
            if n == "push" or n == "push_back":
                return s + (args[1],)
            if n == "pop" or n == "pop_back":
                return s[:-1]
            if n in ("top", "back"):
                if o == "eff":
                    return s
                if not s:
                    raise Unknown("top of an empty stack")
                return s[-1]
        if n in ("basic_string", "string") and args:
            return args[-1]
        raise Unknown("%s%s %s" % (q, self.cur, [type(x).__name__ + ":" + str(x)[:40] for x in args]))


class Fun:
    def __init__(self, ck, f, opaque, exact=False):
        self.f = f
        self.g = ck.gvn(f, opaque=(), opaque_pred=opaque, exact=exact)
        self.site = "%s %s" % (f.q, f.l)
        self.names = [p.n for p in f.params]
        self.L = Loops(self.g)
        self.this = mk("ld", ("P", "this"))

    def env(self, this=None, **kw):
        e = {}
        if this is not None:
            e[self.this] = this
        for k, v in kw.items():
            e[mk("ld", ("P", k))] = v
            e[mk("var", k)] = v
        return e

    def final(self, ev):
        m = self.g.final.mem if self.g.final is not None else {}
        v = m.get(("P", "this"))
        return ev(v) if v is not None else ev.env.get(self.this)

    def throws(self, ev, loop=None):
        """some throw event's path condition holds"""
        for e in self.g.events:
            if e.k == "throw" and ev.pc(e):
                return True
        return False

    def outcome(self, ev):
        """("throw",) or ("ret", value, state)"""
        try:
            if self.throws(ev):
                return ("throw",)
            r = ev(self.g.retval) if self.g.retval is not None else None
            return ("ret", r, self.final(ev))
        except Throw:
            return ("throw",)

    def goes(self, lid, I, ev, rets=True):
        """at the loop head: does another iteration run to its end?"""
        if not ev(I["cond"]):
            return False
        if any(ev.conj(c for c in b if isinstance(c, T)) for b in I["breaks"]):
            return False
        return not (rets and any(ev.pc(e) for e in self.g.events if e.k == "ret" and lid in loops_of(e)))


def handler(e):
    """"exc" when the event lies in an exception handler"""
    return {"exc" for c in e.pc for x in ([c] if isinstance(c, tuple) else subterms(c)) for y in ([x] if isinstance(x, tuple) else x.args) if isinstance(y, tuple) and y and y[0] == "exc"}


def loops_of(e):
    return [x.args[0] for c in e.pc if isinstance(c, T) for x in subterms(c) if x.op == "phi"] if not hasattr(e, "loops") else list(e.loops)
