"""C07: accumulators and products are wide enough for every legal input."""
from widths import *

TITLE = "Accumulators and products are wide enough for every legal input"
NUMBERS = {"phi", "pi_legendre", "pi_primesieve", "nth_prime", "PiTable", "PhiTiny", "PhiCache", "to_int128", "get_max_x", "to", "FactorTable", "AbstractFactorTable"}
UNITS = {"mu", "generate_moebius"}


def infile(f):
    return not f.file.startswith("lib/") and not f.file.startswith("/") and "int256_t.hpp" not in f.file and "int128_t.hpp" not in f.file and "test.cpp" not in f.file


def run(ck):
    ck.rule("width", "a sum of numbers <= N, or a product with such a sum, that flows into a result is computed and stored in a type of at least 2 log2 N bits")
    ck.rule("product", "a product of numbers that flows into a result is computed in a type that holds it")
    ck.rule("guard", "a number is handed to an implementation for a narrower type only where a test shows that it fits")
    ck.rule("result", "the computing functions return 256-bit results")
    W = Widths(ck.prog, infile, NUMBERS, UNITS)
    roots = [f for f in W.fns if is256(ret(f)) and not W.local(f)]
    names = {f.q.split("::")[-1] for f in roots}
    for n in ("P2", "S1", "S2_trivial", "S2_easy", "S2_hard", "pi_lmo1", "pi_lmo2", "pi_lmo3", "pi_lmo4", "pi_lmo5", "pi_lmo_parallel1", "pi_deleglise_rivat_parallel1"):
        fs = [f for f in W.fns if f.q == "primesum::" + n]
        if not fs:
            ck.und("result", n, "not found")
        for f in fs:
            b = vbits(ret(f))
            x = max([vbits(p.type()) for p in f.params if intlike(p.type())], default=63)
            ck.cond("result", "%s %s" % (f.q, f.l), None if b is None else b >= 2 * x - 1, "%d bits for sums up to a %d-bit number" % (b or 0, x), "a sum of primes up to a %d-bit number is returned in %s bits" % (x, b))
            if f not in roots:
                roots.append(f)
    sl = W.slice(roots)
    def demand():
        for x in sl:
            if x[0] == "expr":
                W.eval(x[1], x[2])
            elif x[0] == "acc":
                W.eval(x[1].a["args"][1], x[2])
            elif x[0] == "loc":
                W.val(x[1], None)
            else:
                W.ret(x[1])
                W.X(x[1])
    if W.solve(demand) is None:
        ck.und("width", "src", "the width equations have no stable solution")
        return
    fset = {x[1].key for x in sl if x[0] == "fn"}
    done = set()
    for x in sl:
        if x[0] in ("expr", "acc"):
            node(ck, W, x[1], x[2], x[0], x[3])
        elif x[0] == "loc":
            place(ck, W, x[1])
        elif x[0] == "fn":
            k, b = W.ret(x[1])
            t = ret(x[1])
            if k == "S" and intlike(t):
                ck.cond("width", "%s %s" % (x[1].q, x[1].l), vbits(t) >= b, "returns a sum of %d bits" % b, "a sum of up to %d bits is returned in the %d-bit type %s" % (b, vbits(t), t.s))
    guards(ck, W, fset)


def ret(f):
    return f.ret


def where(n, f):
    return "%s %s" % (f.q if f is not None else "?", n.l)


def node(ck, W, n, f, what, origin):
    t = n.type()
    tb = vbits(t)
    if tb is None or n.cv() is not None:
        return
    op = n.get("op")
    if what == "acc":
        ct = n.a.get("ct")
        if ct is not None:
            tb = min(tb, vbits(n.tu.types[ct]) or tb)
        a = n.a["args"]
        k, b = W.eval(a[1], f)
        if op == "*=":
            return
        if k == "S":
            ck.cond("width", where(n, f), tb >= b, "%s of a %d-bit sum in %d bits" % (op, b, tb), "a sum of up to %d bits is added in the %d-bit type %s" % (b, tb, t.s))
        return
    if n.k in CASTS or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        a = n.get("args") or ()
        if len(a) == 1 and intlike(a[0].type()):
            k, b = W.eval(a[0], f)
            ib = vbits(a[0].type())
            if k == "S" and tb != ib:
                ck.cond("width", where(n, f), tb >= b, "a %d-bit sum is converted to %d bits" % (b, tb), "a sum of up to %d bits is converted to the %d-bit type %s" % (b, tb, t.s))
        return
    if op in ("+", "-", "*", "<<") and len(n.get("args") or ()) == 2:
        k, b = W.eval(n, f)
        if k == "S":
            ck.cond("width", where(n, f), tb >= b, "%s of a sum: %d bits in %d" % (op, b, tb), "the result of %s, up to %d bits, is computed in the %d-bit type %s" % (op, b, tb, t.s))
        elif op == "*" and origin not in W.induction:
            ck.cond("product", where(n, f), tb >= b, "%d bits in %d" % (b, tb), "a product of up to %d bits is computed in the %d-bit type %s" % (b, tb, t.s))


def place(ck, W, l):
    k, b = W.val(l, None)
    if k != "S":
        return
    tb = vbits(W.ltype.get(l)) if l[0] != "e" else W.eltype(l) or vbits(W.ltype.get(l))
    nm = W.lname.get(l)
    m = l
    while nm is None and m[0] == "e":
        m = m[1]
        nm = W.lname.get(W.find(m))
    ds = W.defs.get(l, ())
    site = "%s %s" % (ds[0][3].q if ds and ds[0][3] is not None else "", ds[0][2].l if ds else "")
    if tb is None:
        ck.und("width", site, "type of %s" % (nm,))
    else:
        ck.cond("width", "%s %s" % (site, nm), tb >= b, "holds a sum of %d bits in %d" % (b, tb), "%s holds a sum of up to %d bits in a %d-bit type" % (nm, b, tb))


def guards(ck, W, fset):
    """narrowing conversions in the arguments of functions of the slice"""
    for key in sorted(fset):
        g = ck.prog.functions[key]
        for n, c in W.calls.get(key, ()):
            for i, a in W.cargs(n, g):
                m = a
                while m is not None and (m.k in CASTS) and m.get("args"):
                    y = m.a["args"][0]
                    tb, ib = vbits(m.type()), vbits(y.type())
                    if tb is not None and ib is not None and tb < ib and m.cv() is None and tb > 1:
                        l = W.loc(y)
                        k, b = W.eval(y, c)
                        site = "%s call of %s" % (where(m, c), g.q.split("::")[-1])
                        if k == "S":
                            break
                        F = W.facts(m)
                        if b <= tb:
                            ck.ok("guard", site, "at most %d bits" % b)
                        elif l is not None:
                            lim = F.get(W.find(l))
                            if lim is None and W.find(l) in W.opaque:
                                ck.und("guard", site, "%s is tested in a form that is not understood" % W.lname.get(W.find(l)))
                                break
                            ck.viol("guard", site, "%s, %s, is converted to the %d-bit type %s" % (W.lname.get(W.find(l)), "tested only to be <= %d" % lim if lim is not None else "which no test bounds", tb, m.type().s))
                        else:
                            ck.und("guard", site, "an expression of up to %d bits is converted to %d bits" % (b, tb))
                        break
                    m = y
