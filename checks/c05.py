"""Lookup tables: every entry is recomputed from the definition of the quantity
the table stands for and compared with the value the compiler would store."""
import re
from math import gcd, prod, isqrt
from terms import *
from loops import *
from spec import Spec
from summ import Summ, summ
from sites import site
import gvn
from harness import short

TITLE = "Every built-in table entry equals the quantity it stands for"

BITS = [7, 11, 13, 17, 19, 23, 29, 31]
ALL = (1 << 64) - 1


def primes_upto(n):
    s = bytearray([1]) * (n + 1)
    s[0:2] = b"\0\0"
    for i in range(2, isqrt(n) + 1):
        if s[i]:
            s[i * i::i] = bytes(len(range(i * i, n + 1, i)))
    return [i for i in range(n + 1) if s[i]]


P = primes_upto(20000)
PI = []
_c = 0
_ps = set(P)
for _i in range(20001):
    _c += _i in _ps
    PI.append(_c)


def ints(v):
    if isinstance(v, list):
        return [ints(x) for x in v]
    try:
        return int(v)
    except (TypeError, ValueError):
        return v


def table(ck, short_name, where=""):
    """constant tables by the last component of their name"""
    out = []
    for k, g in ck.prog.globals.items():
        d = g["decl"]
        q = d.q.split("::")
        if q[-1] == short_name and (where in g["l"] or where in d.q):
            v = ints(g.get("value"))
            while isinstance(v, list) and len(v) == 1 and isinstance(v[0], list):
                v = v[0]
            out.append((k, g, v))
    return out


def compare(ck, name, where, want, what, signed_bits=None, exact=True):
    """every entry of a constant table"""
    ts = [t for t in table(ck, name, where)]
    if not ts:
        ck.und("table", name, "no such table any more")
        return
    for k, g, v in ts:
        at = "%s (%s)" % (g["decl"].q, g["l"])
        if not isinstance(v, list):
            ck.und("table", at, "initialiser is not a constant the compiler knows")
            continue
        w = want(len(v)) if callable(want) else want
        if len(v) < len(w):
            ck.viol("table", at, "table has %d entries, needs %d" % (len(v), len(w)))
            continue
        bad = 0
        for i, (a, b) in enumerate(zip(v, w)):
            if b is None:
                continue
            if a != b:
                bad += 1
                if bad <= 3:
                    ck.viol("table", "%s [%d]" % (at, i), "%s: entry %d is %s, %s is %s" % (what, i, a, what, b), key="table|%s|%d" % (name, i))
        if not bad:
            ck.ok("table", at, "%d entries: %s" % (len(w), what))


def coprime(m):
    return [r for r in range(1, m) if gcd(r, m) == 1]


def wheel_init(m):
    c = coprime(m)
    out = []
    for q in range(m):
        f = 0
        while gcd(q + f, m) != 1:
            f += 1
        out.append([f, c.index((q + f) % m)])
    return out


def byteidx(n):
    return (n - 7) // 30


def bitof(n):
    r = n % 30
    return BITS.index(r if r >= 7 else r + 30)


def wheel(m):
    """the cross-off wheel: for primes = r (mod 30) and quotients coprime to m"""
    c = coprime(m)
    n = len(c)
    out = []
    for r in [7, 11, 13, 17, 19, 23, 29, 1]:
        for w in range(n):
            q = c[w]
            f = (c[w + 1] if w + 1 < n else c[0] + m) - q
            out.append([0xff ^ (1 << bitof(r * q)), f, byteidx(r * (q + f)) - byteidx(r * q), 1 if w + 1 < n else -(n - 1)])
    return out


def tuples(k):
    return {1: [(0, 2)], 2: [(0, 2, 6), (0, 4, 6)], 3: [(0, 2, 6, 8)], 4: [(0, 2, 6, 8, 12), (0, 4, 6, 10, 12)], 5: [(0, 4, 6, 10, 12, 16)]}[k]


def constants(ck):
    compare(ck, "primes", "BitSieve.cpp", lambda n: [0] + P[:9], "the i-th prime")
    compare(ck, "primes", "nth_prime", lambda n: [0] + P[:9], "the i-th prime")
    compare(ck, "small_primes_", "", lambda n: [0] + P[:9], "the i-th prime")
    compare(ck, "masks", "BitSieve.cpp", [0] + [sum(1 << j for j in range(0, 64, p)) for p in P[:9]], "mask of the multiples of the i-th prime")
    compare(ck, "set_bit_", "", [1 << (i // 2) for i in range(128)], "bit of the odd number at offset i")
    compare(ck, "primes", "PhiTiny", lambda n: [0] + P[:n - 1], "the i-th prime")
    compare(ck, "prime_products", "PhiTiny", lambda n: [prod(P[:i]) for i in range(n)], "product of the first i primes")
    compare(ck, "totients", "PhiTiny", lambda n: [prod(p - 1 for p in P[:i]) for i in range(n)], "product of p-1 over the first i primes")
    compare(ck, "pi", "PhiTiny", lambda n: PI[:n], "number of primes <= i")
    compare(ck, "numbers_", "FactorTable", coprime(210), "the i-th number coprime to 210")
    c210 = coprime(210)
    compare(ck, "indexes_", "FactorTable", [sum(1 for c in c210 if c <= r) - 1 for r in range(210)], "index of the largest coprime number <= i")
    compare(ck, "init", "primesum::Wheel", wheel_init(210), "distance to the next quotient coprime to 210 and its wheel index")
    compare(ck, "next", "primesum::Wheel", [[(c210[i + 1] if i < 47 else 211) - c210[i], (i + 1) % 48] for i in range(48)], "distance to the next coprime quotient and its wheel index")
    bv = [30 * (i // 8) + BITS[i % 8] for i in range(64)]
    compare(ck, "bitValues", "", bv, "number represented by bit i")
    deb, shift = 0x3F08A4C6ACB9DBD, 58
    try:
        import model
        src = open(model.REPO + "/lib/primesieve/include/primesieve/Erat.hpp").read()
        mm = re.search(r"debruijn\s*=\s*(0x[0-9A-Fa-f]+)", src)
        if mm:
            deb = int(mm.group(1), 16)
    except Exception:
        pass
    br = {}
    for i in range(64):
        bits = (ALL << i) & ALL
        h = (((bits ^ (bits - 1)) & ALL) * deb & ALL) >> shift
        br[h] = bv[i]
    if len(br) == 64:
        compare(ck, "bruijnBitValues", "", [br[h] for h in range(64)], "number of the lowest bit with De Bruijn hash i")
    else:
        ck.viol("table", "Erat::nextPrime", "the De Bruijn constant maps two bit positions to the same hash")
    compare(ck, "wheel30Init", "", wheel_init(30), "distance to the next quotient coprime to 30 and its wheel index")
    compare(ck, "wheel210Init", "", wheel_init(210), "distance to the next quotient coprime to 210 and its wheel index")
    compare(ck, "wheel30", "", wheel(30), "(mask, quotient distance, byte correction, index step)")
    compare(ck, "wheel210", "", wheel(210), "(mask, quotient distance, byte correction, index step)")
    for k, g, v in table(ck, "wheelOffsets_"):
        size = 48 if "ILi210" in k else 8
        w = [None] * 30
        for i, r in enumerate([7, 11, 13, 17, 19, 23, 29, 1]):
            w[r] = size * i
        at = "%s (%s)" % (g["decl"].q[:60], g["l"])
        bad = [r for r in range(30) if w[r] is not None and v[r] != w[r]]
        ck.cond("table", at + " %d" % size, not bad, "wheel section of primes = i mod 30", "wheel section for primes = %s mod 30 is %s, not %s" % (bad[:1], [v[r] for r in bad[:1]], [w[r] for r in bad[:1]]))
    mk_ = lambda f: [sum(1 << i for i in range(8) if f(BITS[i])) for _ in [0]][0]
    compare(ck, "unsetSmaller", "", [mk_(lambda b: b >= r) for r in range(37)], "mask that keeps numbers >= i")
    compare(ck, "unsetLarger", "", [mk_(lambda b: b <= r) for r in range(37)], "mask that keeps numbers <= i")
    compare(ck, "primes", "PreSieve", lambda n: P[3:3 + n], "the i-th prime >= 7")
    compare(ck, "primeProducts", "PreSieve", lambda n: [prod(P[:4 + i]) for i in range(n)], "product of the primes up to the i-th prime >= 7")
    compare(ck, "smallPrimes", "PrimeGenerator", lambda n: P[:n], "the i-th prime")
    compare(ck, "primePi", "PrimeGenerator", lambda n: PI[:n], "number of primes <= i")
    a, b = table(ck, "smallPrimes", "PrimeGenerator"), table(ck, "primePi", "PrimeGenerator")
    if a and b and isinstance(a[0][2], list) and isinstance(b[0][2], list):
        ck.cond("table", "PrimeGenerator: smallPrimes/primePi", len(b[0][2]) >= a[0][2][-1] + 1, "the count table reaches up to the last tabulated prime", "count table ends at %d, below the last tabulated prime %d" % (len(b[0][2]) - 1, a[0][2][-1]))
    for k, g, v in table(ck, "bitmasks"):
        at = "%s (%s)" % (g["decl"].q, g["l"])
        for t in range(1, 6):
            want = sorted(sum(1 << BITS.index(s + d) for d in pat) for pat in tuples(t) for s in BITS if all(s + d in BITS for d in pat))
            got = list(v[t])
            e = got.index(ALL) if ALL in got else None
            if e is None:
                ck.viol("table", at + " [%d]" % t, "list of %d-tuplet masks has no end mark" % (t + 1))
            elif got[:e] != want:
                ck.viol("table", at + " [%d]" % t, "masks of the prime %d-tuplets are %s, required are %s" % (t + 1, [hex(x) for x in got[:e]], [hex(x) for x in want]))
            else:
                ck.ok("table", at + " [%d]" % t, "bit patterns of all prime %d-tuplets inside 30 numbers" % (t + 1))
    small_tuples(ck)
    for k, g in ck.prog.globals.items():
        if k.startswith("sqrt_max@"):
            want = {"IlE": isqrt((1 << 63) - 1), "InE": isqrt((1 << 127) - 1), "IoE": (1 << 64) - 1}
            for s, w in want.items():
                if s in k:
                    ck.cond("table", "%s (%s)" % (k, g["l"]), ints(g.get("value")) == w, "floor of the root of the type's largest value", "sqrt_max is %s, must be %s" % (g.get("value"), w))


def small_tuples(ck):
    want = set()
    for p in (2, 3, 5):
        want.add((p, p, 0, str(p)))
    for t in range(1, 6):
        for pat in tuples(t):
            for s in (3, 5):
                m = [s + d for d in pat]
                if all(x in _ps for x in m):
                    want.add((m[0], m[-1], t, "(%s)" % ", ".join(map(str, m))))
    for k, g, v in table(ck, "smallPrimes", "PrimeSieve.cpp"):
        at = "%s (%s)" % (g["decl"].q, g["l"])
        rows = []

        def val(n):
            if n.a.get("cv") is not None:
                return int(n.a["cv"])
            for x in n.walk():
                if x.k == "StringLiteral":
                    return x.a["s"]
            return None
        def rec(n):
            if n.k == "InitListExpr" and len(n.ch) == 4 and all(c.k != "InitListExpr" for c in n.ch):
                rows.append(tuple(val(c) for c in n.ch))
                return
            for c in n.ch:
                if c is not None:
                    rec(c)
        rec(g["init"])
        if not rows:
            ck.und("table", at, "rows not recognised")
            continue
        for r in rows:
            ck.cond("table", "%s %s" % (at, r), r in want, "constellation with a prime <= 5", "%s is not a constellation with its bounds and selector" % (r,))
        for w in want - set(rows):
            ck.viol("table", at, "%s is missing" % (w,))


# ------------------------------------------------------------ unrolled steps
class Lin(dict):
    """a*sievingPrime + b"""


def linear(n, env):
    from effects import strip
    n = strip(n)
    if n is None:
        return None
    if n.a.get("cv") is not None:
        try:
            return (0, int(n.a["cv"]))
        except ValueError:
            return None
    if n.k == "ParenExpr":
        return linear(n.a["args"][0], env)
    if n.k == "DeclRefExpr":
        return env.get(n.decl())
    if n.k == "BinaryOperator":
        a, b = (linear(x, env) for x in n.a["args"])
        if a is None or b is None:
            return None
        if n.a["op"] == "+":
            return (a[0] + b[0], a[1] + b[1])
        if n.a["op"] == "-":
            return (a[0] - b[0], a[1] - b[1])
        if n.a["op"] == "*":
            if a[0] == 0:
                return (a[1] * b[0], a[1] * b[1])
            if b[0] == 0:
                return (b[1] * a[0], b[1] * a[1])
    return None


def unrolled(ck, cls):
    from effects import strip
    W = wheel(30)
    seen = {}
    for f in ck.prog.functions.values():
        if f.body is None or not f.q.startswith("primesieve::%s::crossOff" % cls):
            continue
        if not any(n.k == "CaseStmt" for n in f.body.walk()) or not any(n.k == "CompoundAssignOperator" and n.a["op"] == "&=" for n in f.body.walk()):
            continue
        env, ptr, maxd = {}, None, {}
        cur, order, ev = None, [], {}
        loop_of_case = {}

        def enclosing_for(n):
            p = n.parent
            while p is not None and p.k not in ("ForStmt", "WhileStmt", "SwitchStmt"):
                p = p.parent
            return p

        def visit(n, inl):
            nonlocal cur
            if n.k == "DeclStmt":
                for d, x in n.a["decls"]:
                    y = strip(x)
                    if y is not None and y.k == "CXXMemberCallExpr" and y.decl() is not None and y.decl().n == "getSievingPrime":
                        env[d] = (1, 0)
                    elif x is not None:
                        l = linear(x, env)
                        if l is not None:
                            env[d] = l
            if n.k == "CaseStmt":
                cur = int(n.a["val"].a.get("cv"))
                order.append(cur)
                ev[cur] = []
                loop_of_case[cur] = enclosing_for(n)
            if cur is not None and n.k == "CompoundAssignOperator":
                l, r = n.a["args"]
                l = strip(l)
                if n.a["op"] == "&=":
                    m = r.a.get("cv")
                    off = (0, 0)
                    if l.k == "ArraySubscriptExpr":
                        off = linear(l.a["args"][1], env)
                    elif l.k == "UnaryOperator" and l.a["op"] == "*":
                        b = strip(l.a["args"][0])
                        if b.k == "ParenExpr":
                            b = strip(b.a["args"][0])
                        if b.k == "BinaryOperator" and b.a["op"] == "+":
                            off = linear(b.a["args"][1], env)
                    ev[cur].append(("and", off, int(m) & 0xff if m is not None else None, inl, n.line))
                elif n.a["op"] == "+=" and l.type() is not None and l.type().k == "ptr":
                    ev[cur].append(("inc", linear(r, env), None, inl, n.line))
            if cur is not None and n.k == "CXXMemberCallExpr" and n.decl() is not None and n.decl().n == "set":
                a = n.a["args"][-1].a.get("cv")
                ev[cur].append(("park", int(a) if a is not None else None, None, inl, n.line))
            inner = n if n.k in ("ForStmt", "WhileStmt") and cur is not None and n.a.get("cond") is not None else inl
            for c in n.ch:
                if c is not None:
                    visit(c, inner)
        visit(f.body, None)
        for k in order:
            at = "%s case %d (%s)" % (f.q, k, f.line)
            g, w = divmod(k, 8)
            e1 = [e for e in ev[k] if e[3] is None]
            lo = [e for e in ev[k] if e[3] is not None]
            seen[k] = seen.get(k, 0) + 1
            for e in e1:
                if e[0] == "park" and e[1] is not None:
                    ck.cond("unrolled", at, e[1] == k, "parked with its own wheel index", "a sieving prime that leaves the segment in case %d is stored with wheel index %s" % (k, e[1]))
            ands = [e for e in e1 if e[0] == "and"]
            incs = [e for e in e1 if e[0] == "inc"]
            if len(ands) != 1 or len(incs) != 1 or ands[0][2] is None or incs[0][1] is None:
                ck.und("unrolled", at, "step not recognised")
                continue
            ck.cond("unrolled", at, ands[0][2] == W[k][0], "clears the bit of the multiple", "clears with mask %#x, the multiple's mask is %#x" % (ands[0][2], W[k][0]))
            ck.cond("unrolled", at, incs[0][1] == (W[k][1], W[k][2]), "steps to the next multiple", "steps by %d*p/30 + %d, the next multiple is at %d*p/30 + %d" % (incs[0][1] + (W[k][1], W[k][2])))
            if e1.index(incs[0]) < e1.index(ands[0]):
                ck.viol("unrolled", at, "steps before clearing")
            lc = loop_of_case[k]
            first = [j for j in order if loop_of_case[j] is lc]
            ck.cond("unrolled", at, first == list(range(8 * g, 8 * g + 8)) or None, "cases of one residue class form one cycle", "")
            if lo:
                L8 = [e for e in lo if e[0] == "and"]
                st = [e for e in lo if e[0] == "inc"]
                loopn = lo[0][3]
                off, want = (0, 0), []
                for i in range(8):
                    want.append((off, W[8 * g + (w + i) % 8][0]))
                    x = W[8 * g + (w + i) % 8]
                    off = (off[0] + x[1], off[1] + x[2])
                if any(e[1] is None or e[2] is None for e in L8) or len(st) != 1 or st[0][1] is None:
                    ck.und("unrolled", at, "unrolled loop not recognised")
                    continue
                got = sorted((e[1], e[2]) for e in L8)
                ck.cond("unrolled", at, got == sorted(want), "the unrolled loop clears the next eight multiples", "the unrolled loop clears %s, required %s" % (sorted(set(got) - set(want))[:2], sorted(set(want) - set(got))[:2]))
                ck.cond("unrolled", at, st[0][1] == off, "the unrolled loop steps over eight multiples", "the unrolled loop steps by %s, must be %s" % (st[0][1], off))
                far = max(o for o, m in want)
                md = [v for d, v in env.items() if d.n == "maxLoopDist"]
                if md:
                    ck.cond("unrolled", at, md[0][0] >= far[0] and md[0][1] >= far[1], "last multiple of the unrolled loop inside the sieve", "the unrolled loop touches p[%d*s+%d] but only p[%d*s+%d] is known to be inside the sieve" % (far + md[0]))
                else:
                    ck.und("unrolled", at, "bound of the unrolled loop")
    miss = [k for k in range(64) if not seen.get(k)]
    if seen and miss:
        ck.viol("unrolled", cls, "no step for wheel index %s" % miss[:4])
    if not seen:
        ck.und("unrolled", cls, "no unrolled cross-off steps found")
    dup = [k for k in seen if seen[k] > 1]
    if dup:
        ck.und("unrolled", cls, "several steps for wheel index %s" % dup[:4])


def dispatch(ck):
    """EratMedium::crossOff: list i goes to the function whose cases contain i"""
    from effects import strip
    for f in ck.prog.functions.values():
        if f.body is None or f.q != "primesieve::EratMedium::crossOff":
            continue
        cases = {}
        cur = None
        for n in f.body.walk():
            if n.k == "CaseStmt":
                cur = int(n.a["val"].a.get("cv"))
            if n.k == "CXXMemberCallExpr" and n.decl() is not None and n.decl().n.startswith("crossOff") and cur is not None:
                cases.setdefault(cur, []).append(n)
        for c, ns in sorted(cases.items()):
            for n in ns:
                t = ck.prog.callee(n)
                if t is None or t.body is None:
                    continue
                ks = sorted({int(x.a["val"].a["cv"]) for x in t.body.walk() if x.k == "CaseStmt"})
                ck.cond("unrolled", "%s %s" % (site(f), n.line), ks == list(range(8 * c, 8 * c + 8)), "residue class %d goes to its own routine" % c, "wheel indices %d..%d are sent to the routine for %s" % (8 * c, 8 * c + 7, ks[:2]))


# ------------------------------------------------------------ formulas
def builders(ck):
    """tables filled at start-up, and the index arithmetic of their readers"""
    g210 = lambda nm: [k for k, g, v in table(ck, nm, "FactorTable")]
    fs = [f for f in ck.prog.fns(q="primesum::SumBits::SumBits") if f.body is not None and not f.params]
    for f in fs:
        g = gvn.GVN(ck.prog, opaque_pred=lambda x: x.q.startswith("std::"))
        g.run(f)
        L = Loops(g)
        at = site(f)
        done = False
        for I in L.info.values():
            if not I["outer"]:
                continue
            O = L.info[I["outer"][-1]]
            for n, p in I["phi"].items():
                nx = I["next"].get(n)
                if not (isinstance(nx, T) and nx.op == "upd" and nx.args[1][0] == "i"):
                    continue
                iv = nx.args[1][1]
                j = [(m, q) for m, q in I["phi"].items() if m != n]
                if len(j) != 1:
                    continue
                jn, jp = j[0]
                done = True
                d = sub(nx.args[2], sel(p, ("i", iv)))
                ctz = [x for x in subterms(d) if x.op == "call" and "ctz" in x.args[0]]
                ck.cond("builder", at, len(ctz) == 1 and ctz[0].args[1] is jp, "adds the position of the lowest bit", "does not add the position of the lowest set bit: " + short(d))
                if ctz:
                    if d.op == "low" and d.args[0] >= 5:   # a bit position is at most 15
                        d = d.args[1]
                    ck.same("builder", at, d, mul(C(2), ctz[0]), "weight 2 per bit position", assume=[le(ctz[0], C(15))])
                ck.same("builder", at, I["next"][jn], band(jp, sub(jp, ONE)), "clears the lowest bit")
                ck.same("builder", at, I["init"][jn], iv, "starts with the index itself")
                ck.same("builder", at, sel(I["init"][n], ("i", iv)), ZERO, "starts with 0")
                ck.same("builder", at, L.trip(O["id"]), C(65536), "all 16-bit indexes")
                ck.same("builder", at, L.at(iv, O["id"], ZERO), ZERO, "from index 0")
        if not done:
            ck.und("builder", at, "table construction not recognised")
    for f in ck.prog.fns(q="primesum::PhiTiny::PhiTiny"):
        if f.body is None or f.params:
            continue
        g = gvn.GVN(ck.prog, opaque_pred=lambda x: x.q.startswith("std::"))
        g.run(f)
        L = Loops(g)
        at = site(f)
        done = False
        for I in L.info.values():
            if not I["outer"]:
                continue
            O = L.info[I["outer"][-1]]
            for n, p in I["phi"].items():
                nx = I["next"].get(n)
                if not (isinstance(nx, T) and nx.op == "upd" and isinstance(nx.args[2], T) and nx.args[2].op == "upd"):
                    continue
                a, x = nx.args[1][1], nx.args[2].args[1][1]
                pp = [y for y in subterms(nx) if y.op == "sel" and any("prime_products" in str(z.args) for z in subterms(y) if z.op == "ld")]
                G = {k: v["decl"].q for k, v in ck.prog.globals.items() if "PhiTiny" in k}
                gk = lambda nm: next(k for k, q in G.items() if q.endswith("::" + nm))
                ld = lambda nm, i: sel(mk("ld", ("G", gk(nm))), ("i", i))
                t1 = lambda y: add(sel(sel(p, ("i", sub(a, ONE))), ("i", mod(y, ld("prime_products", sub(a, ONE))))), mul(div(y, ld("prime_products", sub(a, ONE))), ld("totients", sub(a, ONE))))
                want = sub(t1(x), t1(div(x, ld("primes", a))))
                got = nx.args[2].args[2]
                if got.op == "low":
                    got = got.args[1]
                done = True
                ck.same("builder", at, got, want, "phi(x, a) = phi(x, a-1) - phi(x / p_a, a-1)")
                ck.same("builder", at, L.trip(I["id"]), ld("prime_products", L.lin(a)), "all residues of the primorial")
                ck.same("builder", at, L.at(a, O["id"], ZERO), ONE, "from a = 1")
                ck.same("builder", at, L.trip(O["id"]), C(6), "all a")
        if not done:
            ck.und("builder", at, "table construction not recognised")
    for S in summ(ck, "primesum::PhiTiny::phi"):
        if S.fn.params and len(S.names) == 2:
            G = {v["decl"].n: k for k, v in ck.prog.globals.items() if "PhiTiny" in k}
            ld = lambda nm, i: sel(mk("ld", ("G", G[nm])), ("i", i))
            x, a = mk("var", S.names[0]), mk("var", S.names[1])
            th = mk("ld", ("P", "this"))
            S.eq("reader", "phi(x, a) from quotient and remainder by the primorial", S.ret,
                 add(mul(div(x, ld("prime_products", a)), ld("totients", a)), sel(sel(sel(th, ("f", "phi_")), ("i", a)), ("i", mod(x, ld("prime_products", a))))))
    for S in summ(ck, "primesum::PhiTiny::get_c"):
        y = mk("var", S.names[0])
        G = {v["decl"].n: k for k, v in ck.prog.globals.items() if "PhiTiny" in k}
        t = table(ck, "primes", "PhiTiny")
        if t and t[0][2] and isinstance(S.ret, T):
            last = t[0][2][-1]
            r = subst(S.ret, {x: C(last) for x in subterms(S.ret) if x.op == "call" and callq(x).endswith("back")})
            r = subst(r, {x: C(last) for x in subterms(r) if x.op == "deref" and x.args[0] is C(last)})
            for x in list(subterms(r)):
                if x.op in ("deref", "rd", "out") and any(z is C(last) for z in x.args):
                    r = subst(r, {x: C(last)})
            S.eq("reader", "c = pi(y), at most the number of tabulated primes", r, ite(le(C(last), y), C(len(t[0][2]) - 1), sel(mk("ld", ("G", G["pi"])), ("i", y))))
    for q, nm, e in (("primesum::AbstractFactorTable::get_index", "indexes_", "48 * (n // 210) + T"), ("primesum::AbstractFactorTable::get_number", "numbers_", "210 * (n // 48) + T")):
        for S in summ(ck, q):
            n = mk("var", S.names[0])
            k = [k for k, g, v in table(ck, nm, "FactorTable")]
            if not k:
                continue
            m = 210 if nm == "indexes_" else 48
            t = sel(mk("ld", ("G", k[0])), ("i", mod(n, C(m))))
            S.eq("reader", "index arithmetic", S.ret, Spec(dict(n=n, T=t))(e))
    for S in summ(ck, "primesum::nth_prime"):
        n = mk("var", S.names[0])
        k = [k for k, g, v in table(ck, "primes", "nth_prime")]
        if k and isinstance(S.ret, T):
            S.eq("reader", "n-th prime", S.ret, sel(mk("ld", ("G", k[0])), ("i", n)), assume=[le(C(2), n)])
    pp = [k for k, g, v in table(ck, "primePi", "PrimeGenerator")]
    if pp:
        pi = lambda i: sel(mk("ld", ("G", pp[0])), ("i", i))
        th = mk("ld", ("P", "this"))
        st, sp = sel(th, ("f", "start_")), sel(th, ("f", "stop_"))
        for S in summ(ck, "primesieve::PrimeGenerator::getStartIdx"):
            S.eq("reader", "index of the first prime >= start", S.ret, ite(lt(ONE, st), pi(sub(st, ONE)), ZERO))
        for S in summ(ck, "primesieve::PrimeGenerator::getStopIdx"):
            b = [x for x in subterms(S.ret) if x.op == "deref"] if isinstance(S.ret, T) else []
            r = subst(S.ret, {x: C(719) for x in b}) if b else S.ret
            t = table(ck, "smallPrimes", "PrimeGenerator")
            if t:
                n = len(t[0][2])
                r = subst(S.ret, {x: C(t[0][2][-1]) for x in b}) if b else S.ret
                S.eq("reader", "index behind the last prime <= stop", r, ite(lt(sp, C(t[0][2][-1])), pi(sp), C(n)))
    counts_table(ck)


def counts_table(ck):
    for f in ck.prog.fns(q="primesieve::PrintPrimes::initCounts"):
        g = gvn.GVN(ck.prog, opaque_pred=lambda x: x.q.startswith("std::"))
        g.run(f)
        L = Loops(g)
        at = site(f)
        ok = False
        for I in L.info.values():
            if len(I["outer"]) != 2:
                continue
            J, K = L.info[I["outer"][1]], L.info[I["outer"][0]]
            for n, p in I["phi"].items():
                nx = I["next"].get(n)
                if not (isinstance(nx, T) and nx.op == "ite"):
                    continue
                bs = [q for m, q in I["phi"].items() if m != n]
                if len(bs) != 1:
                    continue
                b = bs[0]
                der = [x for x in subterms(nx) if x.op in ("deref", "rd") and b in subterms(x)]
                js = [q for m, q in J["phi"].items() if q in L.lin_map]
                if not der or not js:
                    continue
                ok = True
                ck.same("builder", at, nx, ite(eq(band(der[0], js[0]), der[0]), add(p, ONE), p), "counts the patterns contained in the byte")
                ck.same("builder", at, I["init"][n], ZERO, "count starts at 0")
                ck.same("builder", at, L.trip(J["id"]), C(256), "all byte values")
                ck.same("builder", at, L.lin(js[0]), L.kap(J["id"]), "byte values from 0")
                st = [nx2 for m, nx2 in J["next"].items() if isinstance(nx2, T) and nx2.op == "upd"]
                for u in st:
                    v = u.args[2]
                    if isinstance(v, T) and v.op == "upd":
                        ck.same("builder", at, v.args[1][1], js[0], "entry of the byte value")
                        ck.cond("builder", at, v.args[2] is p or None, "stores the count", "")
        if not ok:
            ck.und("builder", at, "table construction not recognised")


def run(ck):
    ck.rule("table", "every entry of a constant table equals the value recomputed from the definition of the quantity")
    ck.rule("unrolled", "every unrolled cross-off step clears the bit and makes the step that the wheel definition gives for its index")
    ck.rule("builder", "the code that fills a table implements the table's recurrence for all indexes")
    ck.rule("reader", "index arithmetic around the table")
    ck.assumptions.append("values of initialisers as evaluated by clang's constant evaluator")
    constants(ck)
    unrolled(ck, "EratSmall")
    unrolled(ck, "EratMedium")
    dispatch(ck)
    builders(ck)
    ck.need("table", 30)
