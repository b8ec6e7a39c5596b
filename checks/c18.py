"""C18: the 256-bit integer type is a two's complement integer.

Every operator, conversion and constructor of int256_t is turned into the exact
word-level value graph over its operand words (lib/words.py: widths, signedness,
wrap-around and undefined shifts are those of the C++ types in the tree that was
parsed); the graph is compared with the integer function it has to denote by
interpretation over operands on both sides of every boundary between words,
half-words, signs and carries.  The bit-serial division and the decimal output
are decided by their loop invariants."""
import random
from words import *
from terms import T, mk, sel, C, subterms, add, sub, div, mod, same
import terms as tt
from summ import summ
from sites import site
from model import AnalysisError

TITLE = "256-bit integers behave as two's complement integers"
Q = "primesum::int256_t::"
M128, M256 = (1 << 128) - 1, (1 << 256) - 1
LO, HI = -(1 << 255), (1 << 255) - 1


def s256(x):
    x &= M256
    return x - (1 << 256) if x >> 255 else x


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def grid():
    rnd = random.Random(18)
    v = {0, 1, 2, 3, 7, 10, 255, 256, 1000003}
    for k in (31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 193, 254):
        for d in (-1, 0, 1):
            v.add((1 << k) + d)
    v |= {HI, HI - 1, M128 << 127, M128 << 64, ((1 << 127) - 1) << 128, (1 << 128) * 10, (1 << 200) - (1 << 100)}
    for b in (20, 70, 100, 126, 127, 140, 180, 192, 230, 254, 255):
        v.add(rnd.getrandbits(b) | 1 << (b - 1))
    v |= {-x for x in v} | {LO, LO + 1}
    return sorted(v)


def tgrid(w, u):
    rnd = random.Random(w)
    v = set()
    for k in range(0, w, max(1, w // 8)):
        for d in (-1, 0, 1):
            v.add((1 << k) + d)
    v |= {0, 1, 2, 10, (1 << w) - 1, (1 << w) - 2, (1 << w - 1), (1 << w - 1) - 1, rnd.getrandbits(w), rnd.getrandbits(w - 3)}
    if w >= 64:
        v |= {(1 << 63) - 1, 1 << 63, (1 << 64) - 1}
    if w > 64:
        v |= {1 << 64, (1 << 64) + 1}
    v = {x & ((1 << w) - 1) for x in v}
    return sorted(v if u else {sgn(x, w) for x in v})


def word(v):
    """256-bit value of a result"""
    return v


def run(ck):
    ck.rule("operator", "the word-level value graph of the operator denotes the exact integer result whenever that is representable")
    ck.rule("conversion", "conversions from and to built-in integers keep every representable value")
    ck.rule("division", "the bit-serial division keeps quotient*divisor + remainder = dividend and remainder < divisor")
    ck.rule("output", "decimal output writes the sign and the digits of the value")
    ck.rule("uses", "word-level parts of the type are not reached around its operators")
    G = grid()
    fns = sorted((f for f in ck.prog.functions.values() if f.q.startswith(Q) and f.body is not None and f.decl.get("rec") is not None),
                 key=lambda f: (f.q, f.line, f.key))
    if not fns:
        raise AnalysisError("class int256_t not found")
    FUNCS["UQ"] = lambda a, b: a // b if b else 0
    FUNCS["UR"] = lambda a, b: a % b if b else 0
    FUNCS["MSB"] = lambda a: a.bit_length()
    udivs = [f for f in fns if f.name == "udiv256"]
    msbs = [f for f in fns if f.name == "find_most_significant_bit"]

    def join(r):
        lo, hi = r.f["low"], r.f["high"]
        return op("|", 256, op("<<", 256, op("zext", 256, hi), const(128, 64)), op("zext", 256, lo))

    def split(x):
        return Rec({"low": op("trunc", 128, x), "high": op("trunc", 128, op("u>>", 256, x, const(128, 64)))})

    def h_udiv(S, fn, this, args):
        a = join(S.load(this))
        b = join(S.load(args[0]) if isinstance(args[0], Ref) else args[0])
        return Rec({"first": split(op("f", 256, "UQ", a, b)), "second": split(op("f", 256, "UR", a, b))})

    def h_msb(S, fn, this, args):
        return op("f", 32, "MSB", join(S.load(this)))

    OPQ = {Q + "udiv256": h_udiv, Q + "find_most_significant_bit": h_msb}

    def big(n):
        return Rec({"low": var(n + ".low", 128), "high": var(n + ".high", 128)})

    def put(env, n, v):
        env[n + ".low"] = v & M128
        env[n + ".high"] = (v >> 128) & M128

    def value(S, v):
        if isinstance(v, Ref):
            v = S.load(v)
        if isinstance(v, Rec):
            if set(v.f) != {"low", "high"}:
                raise Unsup("record %s" % sorted(v.f))
            return join(v)
        return v

    def build(fn, skip=()):
        """(S, this ref, arg kinds, result value)"""
        S = Words(ck.prog, {k: v for k, v in OPQ.items() if k not in skip})
        S.env = {}
        this = S.cell(big("a"))
        args, kinds = [], []
        for i, p in enumerate(fn.params):
            t = p.type().strip_ref()
            if t.k == "rec":
                args.append(S.cell(big("b")) if p.type().k in ("ref", "rref") else big("b"))
                kinds.append(("big", 256, False))
            else:
                w = width(t)
                x = var("t%d" % i, w)
                args.append(S.cell(x) if p.type().k in ("ref", "rref") else x)
                kinds.append(("int", w, S.uns(t)))
        r = S.call(fn, this, args)
        return S, this, kinds, r

    def check(rule, fn, at, got, want, pre, kinds, B=None, bits=256, what=""):
        """got: word; want(a, b) -> int or None (operation not required there)"""
        n = 0
        bs = [None]
        if kinds:
            k = kinds[0]
            bs = B or (G if k[0] == "big" else tgrid(k[1], k[2]))
        for a in G:
            for b in bs:
                e = {}
                put(e, "a", a)
                if b is not None:
                    put(e, "b", b)
                    e["t0"] = b
                w = want(a, b)
                if w is None:
                    continue
                w &= (1 << bits) - 1
                try:
                    g = evalw(got, e)
                except Poison as x:
                    ck.viol(rule, at, "%s: %s for a=%s%s" % (what, x, a, "" if b is None else ", b=%s" % b))
                    return
                n += 1
                if g != w:
                    f = lambda z: str(sgn(z, bits)) if bits > 1 else str(z)
                    ck.viol(rule, at, "%s: the code computes %s, required is %s for a=%s%s" % (what, f(g), f(w), a, "" if b is None else ", b=%s" % b))
                    return
        if n == 0:
            ck.und(rule, at, what + ": no operands")
            return
        ck.ok(rule, at, "%s: value graph of %d words agrees on %d operands" % (what, size(got), n))

    def size(t):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            st.extend(y for y in x.a if isinstance(y, W))
        return len(seen)

    fit = lambda v: v if LO <= v <= HI else None
    shok = lambda b: b is not None and 0 <= b
    BIN = {
        "+": lambda a, b: fit(a + b), "-": lambda a, b: fit(a - b), "*": lambda a, b: fit(a * b),
        "/": lambda a, b: fit(tdiv(a, b)) if b else None,
        "%": lambda a, b: a - tdiv(a, b) * b if b and fit(tdiv(a, b)) is not None else None,
        "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
        "<<": lambda a, b: fit(a << b) if 0 <= b <= 600 else (0 if b > 600 and a == 0 else None),
        ">>": lambda a, b: (a >> b if b < 600 else 0) if a >= 0 and b >= 0 else None,
    }
    CMP = {"==": lambda a, b: int(a == b), "!=": lambda a, b: int(a != b), "<": lambda a, b: int(a < b), "<=": lambda a, b: int(a <= b),
           ">": lambda a, b: int(a > b), ">=": lambda a, b: int(a >= b)}
    UN = {"-": lambda a, b=None: fit(-a), "~": lambda a, b=None: ~a, "+": lambda a, b=None: a}
    SH = list(range(0, 300, 7)) + [1, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 257]

    for fn in fns:
        at = "%s (%s)" % (fn.q, fn.line) + (" for " + fn.params[0].type().s if fn.params else "")
        nm = fn.name
        try:
            if nm == "udiv256":
                division(ck, fn, at, G, build, OPQ, join, split, big, put, value)
                continue
            if nm == "find_most_significant_bit":
                msb(ck, fn, at, G, build, big, put, join)
                continue
            if fn.q == Q + "int256_t":
                S = Words(ck.prog, OPQ)
                S.env = {}
                this = S.cell(Rec({}))
                if not fn.params:
                    S.call(fn, this, [])
                    check("conversion", fn, at, value(S, this), lambda a, b: 0, None, [], what="default value")
                elif len(fn.params) == 1 and fn.params[0].type().k in ("int", "bool"):
                    t = fn.params[0].type()
                    S.call(fn, this, [var("t0", width(t))])
                    check("conversion", fn, at, value(S, this), lambda a, b: b, None, [("int", width(t), S.uns(t))], what="value from " + t.s)
                elif len(fn.params) == 2 and all(p.type().strip_ref().is_int() for p in fn.params):
                    S.call(fn, this, [var("a.low", 128), var("a.high", 128)])
                    r = S.load(this)
                    check("conversion", fn, at, join(r), lambda a, b: a, None, [], what="value from two halves")
                continue
            if nm.startswith("operator ") and nm[9:].strip() not in BIN and fn.ret.k in ("int", "bool"):
                S, this, kinds, r = build(fn)
                w, u = width(fn.ret), S.uns(fn.ret)
                lo, hi = (0, (1 << w) - 1) if u else (-(1 << w - 1), (1 << w - 1) - 1)
                check("conversion", fn, at, value(S, r), lambda a, b: a if lo <= a <= hi else None, None, [], bits=w, what="value as " + fn.ret.s)
                continue
            if not nm.startswith("operator"):
                continue
            o = nm[8:].strip()
            if o == "=":
                if fn.params and not fn.decl.get("implicit") and fn.body.ch:
                    S, this, kinds, r = build(fn)
                    check("operator", fn, at, value(S, this), lambda a, b: b, None, kinds, what="assignment")
                continue
            if o in ("++", "--"):
                S, this, kinds, r = build(fn)
                d = 1 if o == "++" else -1
                check("operator", fn, at, value(S, this), lambda a, b: fit(a + d), None, [], what="operand after " + o)
                post = bool(fn.params)
                check("operator", fn, at, value(S, r), (lambda a, b: a) if post else (lambda a, b: fit(a + d)), None, [], what=("postfix " if post else "prefix ") + o)
                continue
            if o in CMP and len(fn.params) == 1:
                S, this, kinds, r = build(fn)
                check("operator", fn, at, value(S, r), CMP[o], None, kinds, bits=1, what=o)
                continue
            if o.endswith("=") and o[:-1] in BIN and len(fn.params) == 1:
                S, this, kinds, r = build(fn)
                B = SH if o[:-1] in ("<<", ">>") else None
                check("operator", fn, at, value(S, this), BIN[o[:-1]], None, kinds, B=B, what="operand after " + o)
                check("operator", fn, at, value(S, r), BIN[o[:-1]], None, kinds, B=B, what="value of " + o)
                continue
            if not fn.params and o in UN:
                S, this, kinds, r = build(fn)
                check("operator", fn, at, value(S, r), UN[o], None, [], what="unary " + o)
                continue
            if o in BIN and len(fn.params) == 1:
                S, this, kinds, r = build(fn)
                B = SH if o in ("<<", ">>") else None
                check("operator", fn, at, value(S, r), BIN[o], None, kinds, B=B, what=o)
                continue
        except Unsup as x:
            ck.und("operator", at, "not modelled: %s" % x)
    output(ck)
    ck.need("operator", 15)
    ck.need("conversion", 5)
    ck.assumptions += ["operands of the 128-bit and 64-bit operations have the widths of the target gcc/clang x86-64 ABI",
                       "the right shift of negative numbers and results outside the 256-bit range are not constrained"]


def msb(ck, fn, at, G, build, big, put, join):
    """position of the highest set bit, counted from 1"""
    found = {}

    def loop(S, s):
        cond, body = s.get("cond"), s.get("body")
        pre = dict(S.env)
        found["pre"] = pre
        S.env = dict(pre)
        # symbolic state: every cell that the body may change
        writ = changed(S, s)
        for c in writ:
            S.env[c] = fresh(S.env[c], c)
        found["state"] = {c: S.env[c] for c in writ}
        found["cond"] = S.truth(S.rv(cond))
        S.stmt(body)
        if s.get("inc") is not None:
            S.ev(s.get("inc"))
        found["next"] = {c: S.env[c] for c in writ}
        S.env = dict(pre)
        for c in writ:
            S.env[c] = fresh(pre[c], c + "'")
        found["post"] = {c: S.env[c] for c in writ}

    S = Words(ck.prog, {}, on_loop=loop)
    S.env = {}
    this = S.cell(big("a"))
    r = S.call(fn, this, [])
    if not found:
        for a in G:
            e = {}
            put(e, "a", a)
            g = evalw(r, e)
            if g != (a & M256).bit_length():
                ck.viol("division", at, "number of significant bits: the code computes %d for %d" % (g, a & M256))
                return
        ck.ok("division", at, "number of significant bits")
        return
    st = found["state"]
    recs = [c for c in st if isinstance(st[c], Rec)]
    ints = [c for c in st if isinstance(st[c], W)]
    if len(recs) != 1 or len(ints) != 1:
        ck.und("division", at, "loop state not recognised")
        return
    x, p = recs[0], ints[0]
    good = True
    for a in G:
        e = {}
        put(e, "a", a)
        e0 = dict(e)
        put(e, x, a)
        e[p] = 5
        v = a & M256
        if evalw(join(found["pre"][x]), e0) != v or evalw(found["pre"][p], e0) != 0:
            ck.viol("division", at, "the search for the highest bit does not start from the number itself and 0")
            return
        if bool(evalw(found["cond"], e)) != (v != 0):
            ck.viol("division", at, "the search for the highest bit stops at %d" % v if v else "the search for the highest bit does not stop at 0")
            return
        if v and (evalw(join(found["next"][x]), e) != v >> 1 or evalw(found["next"][p], e) != 6):
            ck.viol("division", at, "one step of the search for the highest bit does not drop one bit and count it (at %d)" % v)
            return
    if r is not found["post"][p]:
        ck.und("division", at, "result of the search not recognised")
        return
    ck.ok("division", at, "counts one per bit shifted out until none is left")


def fresh(v, n):
    if isinstance(v, Rec):
        return Rec({k: var("%s.%s" % (n, k), x.w) for k, x in v.f.items()})
    return var(n, v.w)


def changed(S, s):
    """cells that one run of the loop may write"""
    pre = dict(S.env)
    pb = dict(S.bind)
    out = set()
    for _ in range(3):
        S.env = dict(pre)
        for c in out:
            S.env[c] = fresh(S.env[c], c + "?")
        base = dict(S.env)
        S.rv(s.get("cond"))
        o = S.stmt(s.get("body"))
        if o.rets or o.fall is None:
            raise Unsup("exit from a loop")
        S.env = dict(o.fall[1])
        if s.get("inc") is not None:
            S.ev(s.get("inc"))
        more = {c for c in base if S.env.get(c) is not base[c] and not eqv(S.env.get(c), base[c])}
        if more <= out:
            break
        out |= more
    S.env = dict(pre)
    S.bind = pb
    return sorted(out)


def eqv(a, b):
    if a is b:
        return True
    if isinstance(a, Rec) and isinstance(b, Rec) and a.f.keys() == b.f.keys():
        return all(eqv(a.f[k], b.f[k]) for k in a.f)
    return False


def division(ck, fn, at, G, build, OPQ, join, split, big, put, value):
    found = {}

    def loop(S, s):
        if found:
            raise Unsup("second loop")
        if s.k == "ForStmt" and s.get("init") is not None:
            o = S.stmt(s.get("init"))
            S.env = dict(o.fall[1])
        pre = dict(S.env)
        writ = changed(S, s)
        found["pre"] = pre
        S.env = dict(pre)
        for c in writ:
            S.env[c] = fresh(pre[c], c)
        found["state"] = {c: S.env[c] for c in writ}
        found["cond"] = S.truth(S.rv(s.get("cond")))
        o = S.stmt(s.get("body"))
        S.env = dict(o.fall[1])
        if s.get("inc") is not None:
            S.ev(s.get("inc"))
        found["next"] = {c: S.env[c] for c in writ}
        S.env = dict(pre)
        for c in writ:
            S.env[c] = fresh(pre[c], c + "'")
        found["post"] = {c: S.env[c] for c in writ}

    opq = {k: v for k, v in OPQ.items() if not k.endswith("udiv256")}
    S = Words(ck.prog, opq, on_loop=loop)
    S.env = {}
    this = S.cell(big("a"))
    b = S.cell(big("b"))
    r = S.call(fn, this, [b])
    if not isinstance(r, Rec):
        ck.und("division", at, "result is no pair")
        return
    r = Rec({("first" if k in (0, "first") else "second"): (S.load(v) if isinstance(v, Ref) else v) for k, v in r.f.items()})
    quo, rem = join(r.f["first"]), join(r.f["second"])
    roles = None
    if found:
        st = found["state"]
        recs = [c for c in st if isinstance(st[c], Rec)]
        ints = [c for c in st if isinstance(st[c], W)]
        if len(recs) != 2 or len(ints) != 1:
            ck.und("division", at, "loop state not recognised (%d wide, %d narrow)" % (len(recs), len(ints)))
            return
        # remainder: the one whose value reaches the second result
        i = ints[0]
        iw = st[i].w
        names = lambda t: {x for x in leaves(t)}
        rn = [c for c in recs if (c + "'.low") in names(rem)]
        qn = [c for c in recs if (c + "'.low") in names(quo)]
        if len(rn) != 1 or len(qn) != 1 or rn == qn:
            ck.und("division", at, "roles of the loop variables not recognised")
            return
        roles = rn[0], qn[0]
        R, Qc = roles
        rnd = random.Random(5)
        vals = [1, 2, 3, 10, (1 << 64) - 1, 1 << 64, M128, 1 << 128, (1 << 128) + 1, (1 << 192) + 5, (1 << 254) + 9, (1 << 255) - 1, 1 << 255,
                rnd.getrandbits(200), rnd.getrandbits(150), rnd.getrandbits(255)]
        n = 0
        for bv in vals:
            for rv in {0, bv - 1, bv // 2, (bv + 1) // 2, bv // 3, min(bv - 1, M128), min(bv - 1, (1 << 127))}:
                if not 0 <= rv < bv:
                    continue
                for iv in (0, 1, 63, 64, 127, 128, 129, 200, 254, 255):
                    for av in (0, M256, 1 << iv, M256 ^ (1 << iv), rnd.getrandbits(256)):
                        e = {i: iv}
                        put(e, "a", av)
                        put(e, "b", bv)
                        put(e, R, rv)
                        qv = rnd.getrandbits(256) >> (iv + 1) << (iv + 1)
                        put(e, Qc, qv)
                        memo = {}
                        try:
                            if not evalw(found["cond"], e, memo):
                                ck.viol("division", at, "the division stops before bit %d" % iv)
                                return
                            r2 = evalw(join(found["next"][R]), e, memo)
                            q2 = evalw(join(found["next"][Qc]), e, memo)
                            i2 = evalw(found["next"][i], e, memo)
                        except Poison as x:
                            ck.viol("division", at, "%s at bit %d" % (x, iv))
                            return
                        t = 2 * rv + (av >> iv & 1)
                        wr, wq = (t - bv, qv | 1 << iv) if t >= bv else (t, qv)
                        n += 1
                        if (r2, q2) != (wr, wq):
                            ck.viol("division", at, "one step at bit %d with remainder %d, divisor %d yields remainder %d and quotient bit %d, required are %d and %d" % (
                                iv, rv, bv, r2, (q2 ^ qv) >> iv & 1, wr, (wq ^ qv) >> iv & 1))
                            return
                        if sgn(i2, iw) != iv - 1:
                            ck.viol("division", at, "after bit %d comes bit %d" % (iv, sgn(i2, iw)))
                            return
        ck.ok("division", at, "one step brings down a bit, subtracts the divisor if it fits and records the quotient bit (%d cases)" % n)
        # start and end
        for a in G:
            e = {}
            put(e, "a", a)
            put(e, "b", 3)
            a &= M256
            if evalw(join(found["pre"][R]), e) != 0 or evalw(join(found["pre"][Qc]), e) != 0:
                ck.viol("division", at, "quotient and remainder do not start at 0")
                return
            i0 = sgn(evalw(found["pre"][i], e), iw)
            if i0 < a.bit_length() - 1 or i0 > 255:
                ck.viol("division", at, "the division of %d starts at bit %d" % (a, i0))
                return
            e[i] = (1 << iw) - 1
            if evalw(found["cond"], e):
                ck.viol("division", at, "the division does not end after bit 0")
                return
        ck.ok("division", at, "from the highest set bit down to bit 0, starting with quotient and remainder 0")
    # all cases together: after the loop its variables hold quotient and remainder
    n = 0
    for a in G:
        for bv in G:
            A, B = a & M256, bv & M256
            if B == 0:
                continue
            e = {}
            put(e, "a", A)
            put(e, "b", B)
            if roles:
                put(e, roles[0] + "'", A % B)
                put(e, roles[1] + "'", A // B)
                e[ints[0] + "'"] = (1 << iw) - 1
            try:
                memo = {}
                g = evalw(quo, e, memo), evalw(rem, e, memo)
            except Poison as x:
                ck.viol("division", at, "%s for %d / %d" % (x, A, B))
                return
            n += 1
            if g != (A // B, A % B):
                ck.viol("division", at, "%d / %d: quotient %d, remainder %d, required %d, %d" % (A, B, g[0], g[1], A // B, A % B))
                return
    ck.ok("division", at, "every case returns quotient and remainder (%d operand pairs)" % n)


def leaves(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "v":
            yield x.a[0]
        st.extend(y for y in x.a if isinstance(y, W))


def output(ck):
    """sign, digits (each = value mod 10, value /= 10 until 0), "0" for zero, reversed"""
    import gvn
    from loops import Loops
    fns = sorted((f for f in ck.prog.functions.values() if f.name == "operator<<" and f.q == "primesum::operator<<" and f.body is not None
                  and len(f.params) == 2 and "128" in f.params[1].type().s + f.params[1].type().strip_ref().s or
                  f.q == "primesum::operator<<" and f.body is not None and len(f.params) == 2 and "int256_t" in f.params[1].type().s),
                 key=lambda f: f.line)
    for f in fns:
        ty = f.params[1].type().strip_ref()
        at = "operator<< of %s (%s)" % (ty.s.split("::")[-1], f.line)
        unsigned = ty.s.startswith("unsigned")
        g = gvn.GVN(ck.prog, opaque_pred=lambda x: x.q.startswith("std::") or x.q == "primesum::operator<<")
        g.run(f)
        n = mk("var", f.params[1].n)
        L = Loops(g)
        ev = [e for e in g.events if e.k == "call"]
        outs = [e for e in ev if e.q.split("::")[-1] == "operator<<" or e.q.endswith("::put") or e.q.endswith("::write")]
        minus = [e for e in outs if any(isinstance(a, T) and a.op == "str" and a.args[0] == "-" or a is C(45) for a in e.args)]
        neg = tt.lt(n, C(0))
        if not unsigned:
            if not minus:
                loose = [a for e in outs for a in e.args if isinstance(a, T) and a.op == "str"]
                (ck.viol if not any("-" in str(x.args[0]) for x in loose) and len(outs) <= 2 else ck.und)("output", at, "no minus sign is written")
            else:
                e = minus[0]
                pc = [x for x in e.pc]
                cond = tt.land(*pc) if pc else C(1)
                b, w = same(cond, neg, signed=True)
                if len(minus) == 1 and b is True:
                    ck.ok("output", at, "minus sign exactly for numbers below 0")
                elif b is False:
                    ck.viol("output", at, "the minus sign is written under the condition %s" % tt.show(cond)[:120])
                else:
                    ck.und("output", at, "condition of the minus sign")
                if outs and outs[0] is not e and not any("string" in x.q for x in []):
                    ck.viol("output", at, "something is written before the minus sign")
        loops = []
        for lid, I in L.info.items():
            strs = [(nm, nx) for nm, nx in I["next"].items() if isinstance(nx, T) and nx.op == "eff"]
            nums = [(nm, p, I["next"][nm]) for nm, p in I["phi"].items() if isinstance(I["next"].get(nm), T) and I["next"][nm].op != "eff"]
            if strs and nums:
                loops.append((I, strs, nums))
        if not loops:
            sub_ = [e for e in outs if e.q == "primesum::operator<<" and len(e.args) == 2]
            if len(sub_) == 1 and not unsigned:
                v = sub_[0].args[1]
                b, w = same(v, tt.ite(neg, tt.neg(n), n), signed=True)
                pc = sub_[0].pc
                if b is True and not pc:
                    ck.ok("output", at, "digits of the absolute value")
                elif b is False:
                    ck.viol("output", at, "writes %s instead of the absolute value" % tt.show(v)[:120])
                else:
                    ck.und("output", at, "delegation not recognised")
            else:
                ck.und("output", at, "digits not recognised")
            continue
        I, strs, nums = loops[0]
        if len(nums) != 1 or len(strs) != 1:
            ck.und("output", at, "digit loop not recognised")
            continue
        nm, p, nx = nums[0]
        st = strs[0][1]
        ini = I["init"].get(nm)
        raw = ini is n
        absv, _ = same(ini, tt.ite(neg, tt.neg(n), n), signed=True)
        if not raw and not absv:
            ck.viol("output", at, "the digits are those of %s" % tt.show(ini)[:100])
            continue
        sg = raw and not unsigned
        asm = [] if sg else [tt.le(C(0), p)]
        ck.same("output", at, nx, div(p, C(10)), "each step drops the last digit", signed=sg)
        c = tt.tobool(I["cond"])
        want = tt.bnot_(tt.eq(p, C(0))) if sg else tt.lt(C(0), p)
        if sg or c is not want:
            b, w = same(c, tt.bnot_(tt.eq(p, C(0))), assume=asm, signed=sg)
            ck.cond("output", at, b, "until no digit is left", "the loop runs while %s" % tt.show(c)[:100])
        else:
            ck.ok("output", at, "until no digit is left")
        q = st.args[0]
        ch = [a for a in st.args[2:] if isinstance(a, T)]
        if not (q.endswith("operator+=") or q.endswith("push_back")) or not ch:
            ck.und("output", at, "digits are collected by " + q)
            continue
        d = ch[0] if len(ch) == 1 else (ch[1] if len(ch) == 2 and ch[0] is C(1) else ch[0])
        while d.op == "low":
            d = d.args[1]
        m = mod(p, C(10))
        am = tt.ite(tt.lt(m, C(0)), tt.neg(m), m) if sg else m
        ck.same("output", at, d, add(C(48), am), "digit character", assume=asm, signed=sg)
        sp = I["phi"].get(strs[0][0])
        emp = [e for e in ev if e.q.endswith("::empty") or e.q.endswith("::size") or e.q.endswith("::length")]
        zero = [e for e in ev if ("operator=" in e.q or "operator+=" in e.q or "push_back" in e.q or "assign" in e.q) and e.a.get("args") and (
            any(isinstance(a, T) and a.op == "str" and a.args[0] == "0" for a in e.args) or C(48) in list(e.args))]
        if zero:
            pc = tt.land(*zero[-1].pc) if zero[-1].pc else C(1)
            good = any(e.a.get("res") is not None and pc is tt.tobool(e.res) for e in emp) or same(pc, tt.eq(n, C(0)), signed=True)[0]
            ck.cond("output", at, True if good else None, "0 is written as 0", "")
        else:
            ck.viol("output", at, "nothing is written for 0") if not any(x.op == "do" for x in []) and not I.get("do") else ck.ok("output", at, "0 is written as 0")
        fin = [e for e in ev if e.a.get("ctor") and e.q.endswith("basic_string") and e.args]
        names = {x.args[0].split("::")[-1] for e in fin for a in e.args if isinstance(a, T) for x in [a] if x.op == "call"}
        rev = any(e.q == "std::reverse" for e in ev)
        if {"rbegin", "rend"} <= names or rev:
            ck.ok("output", at, "digits are written in reverse order of their computation")
        elif {"begin", "end"} <= names:
            ck.viol("output", at, "digits are written from the last to the first")
        else:
            direct = [e for e in outs if e.q.startswith("std::") and e not in minus]
            ck.und("output", at, "order of the digits")
    ck.need("output", 3)
