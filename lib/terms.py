"""Hash-consed value terms with an integer-polynomial normal form.

Equality of two terms is decided by their normal form.  Two different normal
forms are reported as different only if a polynomial-identity style separation
(random interpretation, Gulwani & Necula) also tells them apart, so that an
equivalent spelling that the normal form does not recognise is never called a
difference."""
import hashlib
from fractions import Fraction

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "args", "id", "_h")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _n[0] += 1
        t.id = _n[0]
        _tab[key] = t
    return t


def C(n):
    return mk("c", n)


TRUE = mk("true")
FALSE = mk("false")
ZERO = C(0)
ONE = C(1)


def is_c(t):
    return t.op == "c"


def cval(t):
    return t.args[0] if t.op == "c" else None


# ------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == "c":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {(t,): 1}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda x: (len(x[0]), tuple(a.id for a in x[0]))))
    return mk("poly", items)


def add(a, b):
    d = to_poly(a)
    for m, c in to_poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == "ite" and is_c(b):
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    d = {}
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 4000:
        return mk("bigmul", *sorted((a, b), key=lambda x: x.id))
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    return from_poly(d)


def tdiv(a, b):
    return abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)


def div(a, b):
    if is_c(b) and b.args[0] == 1:
        return a
    if is_c(a) and is_c(b) and b.args[0] != 0 and isinstance(a.args[0], int) and isinstance(b.args[0], int):
        return C(tdiv(a.args[0], b.args[0]))
    if a is b and is_c(a):
        return ONE
    # (x / p) / q == x / (p*q) for the non-negative values divided here
    if a.op == "div":
        return div(a.args[0], mul(a.args[1], b))
    return mk("div", a, b)


def mod(a, b):
    if is_c(a) and is_c(b) and b.args[0] != 0:
        return C(a.args[0] - b.args[0] * tdiv(a.args[0], b.args[0]))
    return mk("mod", a, b)


def shl(a, b):
    if is_c(b) and 0 <= b.args[0] < 512:
        return mul(a, C(1 << b.args[0]))
    return mk("shl", a, b)


def shr(a, b):
    if is_c(a) and is_c(b) and 0 <= b.args[0] < 512:
        return C(a.args[0] >> b.args[0])
    if is_c(b) and b.args[0] == 0:
        return a
    return mk("shr", a, b)


def band(a, b):
    if is_c(a) and is_c(b):
        return C(a.args[0] & b.args[0])
    if ZERO in (a, b):
        return ZERO
    return mk("and_", *sorted((a, b), key=lambda x: x.id))


def bor(a, b):
    if is_c(a) and is_c(b):
        return C(a.args[0] | b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return mk("or_", *sorted((a, b), key=lambda x: x.id))


def bxor(a, b):
    if is_c(a) and is_c(b):
        return C(a.args[0] ^ b.args[0])
    return mk("xor_", *sorted((a, b), key=lambda x: x.id))


def bnot(a, bits=None):
    if is_c(a):
        return C(~a.args[0] if bits is None else (~a.args[0]) & ((1 << bits) - 1))
    return sub(C(-1 if bits is None else (1 << bits) - 1), a)


# ------------------------------------------------------------- booleans
def gt0(p):
    """p > 0 over the integers"""
    if is_c(p):
        return TRUE if p.args[0] > 0 else FALSE
    return mk("gt0", p)


def lt(a, b, fl=False):
    if fl and not (is_c(a) and is_c(b)):
        return mk("flt", a, b)
    return gt0(sub(b, a))


def le(a, b, fl=False):
    if fl and not (is_c(a) and is_c(b)):
        return bnot_(mk("flt", b, a))
    return gt0(add(sub(b, a), ONE))


def eq(a, b):
    p = sub(a, b) if a.op != "addr" and b.op != "addr" else mk("cmp", a, b)
    if p.op == "cmp":
        return TRUE if a is b else mk("eq0", p)
    if is_c(p):
        return TRUE if p.args[0] == 0 else FALSE
    d = to_poly(p)
    first = min(d, key=lambda m: (-len(m), tuple(a.id for a in m)))
    if d[first] < 0:
        p = neg(p)
    return mk("eq0", p)


def bnot_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "gt0":
        return gt0(sub(ONE, c.args[0]))
    if c.op == "land":
        return lor(*[bnot_(x) for x in c.args])
    if c.op == "lor":
        return land(*[bnot_(x) for x in c.args])
    return mk("not", c)


def land(*cs):
    s = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in (c.args if c.op == "land" else (c,)):
            if x not in s:
                s.append(x)
    if any(bnot_(x) in s for x in s if x.op not in ("land", "lor")):
        return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("land", *sorted(s, key=lambda x: x.id))


def lor(*cs):
    s = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for x in (c.args if c.op == "lor" else (c,)):
            if x not in s:
                s.append(x)
    if any(bnot_(x) in s for x in s if x.op not in ("land", "lor")):
        return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk("lor", *sorted(s, key=lambda x: x.id))


def tobool(t):
    """C truth value of a numeric term"""
    if t.op in BOOL_OPS:
        return t
    if is_c(t):
        return TRUE if t.args[0] != 0 else FALSE
    if t.op == "ite" and all(is_c(x) for x in t.args[1:]):
        a, b = (tobool(x) for x in t.args[1:])
        if a is TRUE and b is FALSE:
            return t.args[0]
        if a is FALSE and b is TRUE:
            return bnot_(t.args[0])
    return bnot_(eq(t, ZERO))


BOOL_OPS = {"true", "false", "gt0", "eq0", "not", "land", "lor", "flt", "bvar"}


def tonum(t):
    if t.op in BOOL_OPS:
        return ite(t, ONE, ZERO)
    return t


# ------------------------------------------------------------- selection
def minmax(op, xs):
    s = []
    for x in xs:
        for y in (x.args if x.op == op else (x,)):
            if y not in s:
                s.append(y)
    cs = [x for x in s if is_c(x)]
    s = [x for x in s if not is_c(x)]
    if cs:
        v = (min if op == "min" else max)(x.args[0] for x in cs)
        s.append(C(v))
    if len(s) == 1:
        return s[0]
    # drop members that differ from another one by a constant
    keep = []
    for x in s:
        dom = False
        for y in s:
            if x is y:
                continue
            d = sub(x, y)
            if is_c(d) and (d.args[0] > 0 if op == "min" else d.args[0] < 0):
                dom = True
        if not dom:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    return mk(op, *sorted(keep, key=lambda x: x.id))


def tmin(*xs):
    return minmax("min", xs)


def tmax(*xs):
    return minmax("max", xs)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "gt0":
        # canonical polarity: keep the smaller-id of (c, not c)
        nc = bnot_(c)
        if a.op not in NONNUM and b.op not in NONNUM:
            d = sub(a, b)
            p = c.args[0]
            if d is p or d is sub(p, ONE) or d is add(p, ONE):
                # a-b > 0 (or a-b >= 0) ? a : b
                if d is p or d is sub(p, ONE):
                    return tmax(a, b)
            nd = neg(d)
            if nd is p or nd is sub(p, ONE):
                return tmin(a, b)
        if nc.id < c.id:
            c, a, b = nc, b, a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a in (TRUE, FALSE) or b in (TRUE, FALSE) or (a.op in BOOL_OPS and b.op in BOOL_OPS):
        if a.op in BOOL_OPS and b.op in BOOL_OPS:
            return lor(land(c, a), land(bnot_(c), b))
    # updates of one object under a condition are merged field by field
    if a.op == "upd" or b.op == "upd":
        m = merge_upd(c, a, b)
        if m is not None:
            return m
    return mk("ite", c, a, b)


NONNUM = {"addr", "upd", "str", "lam", "true", "false", "obj", "eff"}


def chain(v):
    out = []
    while v.op == "upd":
        out.append((v.args[1], v.args[2]))
        v = v.args[0]
    return v, out


def merge_upd(c, a, b):
    ba, ca = chain(a)
    bb, cb = chain(b)
    if ba is not bb:
        return None
    ea = [e for e, _ in ca]
    eb = [e for e, _ in cb]
    alls = []
    for e in reversed(eb):
        if e not in alls:
            alls.append(e)
    for e in reversed(ea):
        if e not in alls:
            alls.append(e)
    if any(not (e1 == e2 or distinct(e1, e2)) for e1 in alls for e2 in alls):
        return None
    v = ba
    for e in alls:
        v = upd(v, e, ite(c, sel(a, e), sel(b, e)))
    return v


# ------------------------------------------------------------- memory values
def distinct(e1, e2):
    if e1[0] != e2[0]:
        return True
    if e1[0] == "f":
        return e1[1] != e2[1]
    d = sub(e1[1], e2[1])
    return is_c(d) and d.args[0] != 0


def sel(v, e):
    if v.op == "upd":
        if v.args[1] == e:
            return v.args[2]
        if distinct(v.args[1], e):
            return sel(v.args[0], e)
    if v.op == "ite":
        return ite(v.args[0], sel(v.args[1], e), sel(v.args[2], e))
    if v.op == "zeroinit":
        return v if v.args else ZERO
    if v.op == "list" and e[0] == "i" and is_c(e[1]):
        i = e[1].args[0]
        if isinstance(i, int) and 0 <= i < len(v.args):
            return v.args[i]
        if isinstance(i, int) and i >= len(v.args):
            return ZERO
    return mk("sel", v, e)


def upd(v, e, x):
    # overwrite the same element; keep provably distinct elements sorted
    if v.op == "upd":
        if v.args[1] == e:
            return upd(v.args[0], e, x)
        if distinct(v.args[1], e):
            if ekey(e) < ekey(v.args[1]):
                return mk("upd", upd(v.args[0], e, x), v.args[1], v.args[2])
            inner = remove(v.args[0], e)
            if inner is not v.args[0]:
                return mk("upd", mk("upd", inner, v.args[1], v.args[2]), e, x)
    if x.op == "sel" and x.args == (v, e):
        return v
    return mk("upd", v, e, x)


def remove(v, e):
    if v.op == "upd":
        if v.args[1] == e:
            return remove(v.args[0], e)
        if distinct(v.args[1], e):
            r = remove(v.args[0], e)
            if r is not v.args[0]:
                return mk("upd", r, v.args[1], v.args[2])
    return v


def ekey(e):
    return (e[0], e[1] if e[0] == "f" else "", 0 if e[0] == "f" else e[1].id)


# ------------------------------------------------------------- traversal
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.args)
        elif isinstance(x, tuple):
            st.extend(x)
    return seen


REBUILD = {}


def subst(t, mp, memo=None):
    memo = {} if memo is None else memo
    return _subst(t, mp, memo)


def _subst(t, mp, memo):
    if isinstance(t, tuple):
        return tuple(_subst(x, mp, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in mp:
        return mp[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op == "c":
        r = t
    elif t.op == "poly":
        r = ZERO
        for m, c in t.args[0]:
            p = C(c)
            for a in m:
                p = mul(p, _subst(a, mp, memo))
            r = add(r, p)
    else:
        args = tuple(_subst(x, mp, memo) for x in t.args)
        r = rebuild(t.op, args) if args != t.args else t
    memo[t] = r
    return r


def rebuild(op, a):
    f = {"div": div, "mod": mod, "shl": shl, "shr": shr, "and_": band, "or_": bor, "xor_": bxor,
         "gt0": gt0, "not": bnot_, "land": land, "lor": lor, "ite": ite, "min": tmin, "max": tmax,
         "sel": sel, "upd": upd}.get(op)
    if f:
        return f(*a)
    if op == "eq0":
        return eq(a[0], ZERO) if a[0].op != "cmp" else eq(*a[0].args)
    return mk(op, *a)


# ------------------------------------------------------------- display
def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "..."
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == "c":
        return str(a[0])
    if o == "poly":
        out = []
        for m, c in a[0]:
            f = "*".join(s(x) for x in m)
            if not m:
                f = str(abs(c))
            elif abs(c) != 1:
                f = "%s*%s" % (abs(c), f)
            out.append(("-" if c < 0 else "+") + " " + f)
        r = " ".join(out)
        return "(" + (r[2:] if r.startswith("+ ") else "-" + r[2:]) + ")"
    if o in ("var", "bvar"):
        return str(a[0])
    if o == "gt0":
        d1 = to_poly(a[0])
        l = from_poly({m: -c for m, c in d1.items() if c < 0})
        r = from_poly({m: c for m, c in d1.items() if c > 0})
        return "%s < %s" % (s(l), s(r))
    if o == "eq0":
        return "%s == 0" % s(a[0])
    if o == "div":
        return "%s / %s" % (s(a[0]), s(a[1]))
    if o == "ite":
        return "(%s ? %s : %s)" % tuple(s(x) for x in a)
    if o == "sel":
        e = a[1]
        return s(a[0]) + ("." + str(e[1]) if e[0] == "f" else "[%s]" % s(e[1]))
    if o == "phi":
        return "%s@L%s" % (a[1], a[0])
    if o == "ld":
        return str(a[0][-1] if isinstance(a[0], tuple) else a[0])
    if o == "call":
        return "%s(%s)" % (a[0].split("::")[-1], ", ".join(s(x) for x in a[1:]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


# ------------------------------------------------------------- separation
class Undef(Exception):
    pass


def _hash(seed, *xs):
    h = hashlib.blake2b(repr((seed,) + xs).encode(), digest_size=16).digest()
    return int.from_bytes(h, "big")


class Interp:
    """One random interpretation: uninterpreted atoms get pseudo-random values
    that depend only on the atom's name and on the values of its arguments."""

    SCALES = (4, 12, 100, 5000, 1 << 20, 1 << 34)

    def __init__(self, seed, fixed=None, signed=False, big=False):
        self.seed = seed
        self.big = big
        self.scale = self.SCALES[seed % len(self.SCALES)]
        self.signed = signed
        self.memo = dict(fixed or {})

    def atom(self, *key):
        h = _hash(self.seed, *key)
        # mixed magnitudes so that min/max/clamp orderings all occur
        sc = self.SCALES[(h >> 64) % len(self.SCALES)] if (h >> 80) % 3 == 0 else self.scale
        v = h % (sc + 1)
        if self.big and (h >> 88) % 4 == 1:
            v = (1 << 64) - 1 - v % (1 << 40)       # unsigned 64-bit quantities close to the end of their range
        if self.signed and (h >> 90) & 1:
            v = -v
        return v

    def __call__(self, t):
        if isinstance(t, tuple):
            return tuple(self(x) for x in t)
        if not isinstance(t, T):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.ev(t)
            self.memo[t] = r
        return r

    def num(self, t):
        v = self(t)
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, (int, Fraction)):
            v = self.atom("coerce", v)
        return v

    def ev(self, t):
        o, a = t.op, t.args
        n = self.num
        if o == "c":
            return Fraction(a[0]).limit_denominator(10**12) if isinstance(a[0], float) else a[0]
        if o == "poly":
            s = 0
            for m, c in a[0]:
                p = c if not isinstance(c, float) else Fraction(c).limit_denominator(10**12)
                for x in m:
                    p = p * n(x)
                s += p
            return s
        if o == "bigmul":
            return n(a[0]) * n(a[1])
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "gt0":
            return n(a[0]) > 0
        if o == "flt":
            return n(a[0]) < n(a[1])
        if o == "eq0":
            if a[0].op == "cmp":
                return self(a[0].args[0]) == self(a[0].args[1])
            return n(a[0]) == 0
        if o == "not":
            return not self(a[0])
        if o == "land":
            return all(self(x) for x in a)
        if o == "lor":
            return any(self(x) for x in a)
        if o == "ite":
            return self(a[1]) if self(a[0]) else self(a[2])
        if o == "min":
            return min(n(x) for x in a)
        if o == "max":
            return max(n(x) for x in a)
        if o == "div":
            x, y = n(a[0]), n(a[1])
            if y == 0:
                raise Undef()
            if isinstance(x, Fraction) or isinstance(y, Fraction):
                x, y = int(x), int(y)
                if y == 0:
                    raise Undef()
            return tdiv(x, y)
        if o == "fdiv":
            y = n(a[1])
            if y == 0:
                raise Undef()
            return Fraction(n(a[0])) / Fraction(y)
        if o == "trunc":
            return int(n(a[0]))
        if o == "mod":
            x, y = n(a[0]), n(a[1])
            if y == 0:
                raise Undef()
            x, y = int(x), int(y)
            return x - y * tdiv(x, y)
        if o in ("shl", "shr"):
            k = n(a[1])
            if not 0 <= k < 1000:
                raise Undef()
            return int(n(a[0])) << k if o == "shl" else int(n(a[0])) >> k
        if o == "and_":
            return int(n(a[0])) & int(n(a[1]))
        if o == "or_":
            return int(n(a[0])) | int(n(a[1]))
        if o == "xor_":
            return int(n(a[0])) ^ int(n(a[1]))
        if o == "sel":
            return self.sel(a[0], a[1])
        if o == "bvar":
            return bool(self.atom(o, a) & 1)
        return self.atom(o, tuple(self(x) for x in a))

    def sel(self, v, e):
        ev = ("f", e[1]) if e[0] == "f" else (e[0], self.num(e[1]))
        while True:
            if v.op == "upd":
                f = v.args[1]
                fv = ("f", f[1]) if f[0] == "f" else (f[0], self.num(f[1]))
                if fv == ev:
                    return self(v.args[2])
                v = v.args[0]
                continue
            if v.op == "ite":
                v = v.args[1] if self(v.args[0]) else v.args[2]
                continue
            break
        return self.atom("sel", self(v), ev)


def same(a, b, assume=(), n=240, seeds=1, signed=False, big=False):
    """(verdict, witness): True if a and b have one normal form or no
    interpretation that satisfies the assumptions separates them; None if the
    assumptions leave too few interpretations to tell."""
    if a is b:
        return True, None
    tried = 0
    for s in range(n * 12):
        I = Interp(seeds * 100003 + s, signed=signed and s % 2 == 1, big=big and s % 3 == 1)
        try:
            if not all(I(x) for x in assume):
                continue
            va, vb = I(a), I(b)
        except Undef:
            continue
        tried += 1
        if va != vb:
            w = {}
            for x in subterms(a) | subterms(b):
                if x.op in ("var", "phi", "ld", "call", "bvar"):
                    try:
                        w[show(x)] = I(x)
                    except Undef:
                        pass
            return False, (va, vb, w)
        if tried >= n:
            break
    # too few interpretations satisfy the assumptions: no verdict
    return (True if tried >= 12 else None), None
