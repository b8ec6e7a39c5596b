"""C17: the alternative implementations enumerate the same leaves with the same
weights and assemble the result by the same formula.

Every implementation is reduced to the value graph of its accumulators.  The
contribution of one iteration of every loop that feeds the returned sum is then
compared with one common definition, so two implementations that both match it
agree with each other."""
import gvn
from terms import *
from loops import *
from sites import *
from spec import Spec
from harness import short

TITLE = "Alternative implementations of one computation agree"

V = lambda n: mk("var", n)
X, Y, ZZ, CC = V("x"), V("y"), V("z"), V("c")
PRIMES, PSUMS = V("primes"), V("prime_sums")


def idx(base, i):
    return sel(base, ("i", i))


def pi(t):
    return mk("call", "pi", t)


CONTAINERS = ("primes", "prime_sums", "lpf", "mu", "pi", "factors")


# ------------------------------------------------------------ normal form
class Norm:
    """one vocabulary for the data structures: pi tables, prime arrays,
    dividers"""

    def __init__(self, params, L=None, gen=False):
        self.params = set(params)
        self.memo = {}
        self.L = L
        self.gen = gen

    def root(self, b):
        """the parameter a container value denotes, however it was passed on to
        functions that only read it"""
        for _ in range(12):
            if not isinstance(b, T):
                return None
            if b.op == "var":
                return b.args[0] if b.args[0] in CONTAINERS else None
            if b.op in ("ld", "addr") and isinstance(b.args[0], tuple) and b.args[0][0] == "P":
                return b.args[0][1] if b.args[0][1] in CONTAINERS else None
            if self.gen and b.op == "call" and b.args[0].split("::")[-1].split("<")[0] in ("generate_primes", "generate_n_primes"):
                return "primes"
            if b.op == "phi" and self.L is not None:
                I = self.L.info.get(b.args[0])
                nm = phi_name(self.L, b)
                if I is None or nm is None or not passed_on(I["next"].get(nm), b):
                    return None
                b = I["init"].get(nm)
            elif b.op == "eff" and len(b.args) > 1:
                b = b.args[1]
            elif b.op == "out" and len(b.args) == 2 and isinstance(b.args[0], int) and isinstance(b.args[1], T) and len(b.args[1].args) > b.args[0] + 1:
                b = b.args[1].args[b.args[0] + 1]
            elif b.op == "out" and len(b.args) == 2 and is_c(b.args[0]) and len(b.args[1].args) > cval(b.args[0]) + 1:
                b = b.args[1].args[cval(b.args[0]) + 1]
            else:
                return None
        return None

    def __call__(self, t):
        if isinstance(t, tuple):
            return tuple(self(x) for x in t)
        if not isinstance(t, T):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.step(t)
            self.memo[t] = r
        return r

    def step(self, t):
        if not t.args or t.op == "c":
            return t
        if t.op == "sel" and t.args[1][0] == "i":
            i = self(t.args[1][1])
            r = self.root(t.args[0])
            if r == "pi":
                return pi(i)
            if r is not None:
                return idx(V(r), i)
        if t.op == "ld" and isinstance(t.args[0], tuple) and t.args[0][0] == "P" and len(t.args[0]) == 2:
            return V(t.args[0][1])
        if t.op == "poly":
            r = ZERO
            for m, c in t.args[0]:
                p = C(c)
                for a in m:
                    p = mul(p, tonum(self(a)))
                r = add(r, p)
            return r
        if t.op == "call":
            q = t.args[0].split("::")[-1].split("<")[0]
            if q == "fast_div" and len(t.args) == 3:
                return div(self(t.args[1]), self(t.args[2]))
            if q == "operator/" and len(t.args) == 3:
                d = t.args[2]
                if isinstance(d, T) and d.op == "sel" and d.args[1][0] == "i" and any(x.op == "call" and x.args[0].endswith("libdivide_divisors") for x in subterms(d.args[0])):
                    return div(self(t.args[1]), idx(PRIMES, self(d.args[1][1])))
            if "PiTable" in t.args[0] and q == "operator[]":
                return pi(self(t.args[-1]))
            if q in ("lpf", "mu") and len(t.args) == 3 and self.root(t.args[1]) == "factors":
                return mk("call", q, self(t.args[2]))
            if q == "get_number":
                return mk("call", q, self(t.args[-1]))
        args = tuple(self(x) for x in t.args)
        return rebuild(t.op, args) if args != t.args else t


def passed_on(t, p):
    """p, or p behind calls that were handed a reference to it"""
    if t is p:
        return True
    if isinstance(t, T) and t.op == "ite":
        return passed_on(t.args[1], p) and passed_on(t.args[2], p)
    return isinstance(t, T) and t.op == "out" and p in t.args[1].args


def norm_of(fn):
    return Norm([p.n for p in fn.params])


# ------------------------------------------------------------ contributions
class Con:
    """one contribution: per iteration of the innermost loop of path, inc is
    added to the result"""
    __slots__ = ("path", "inc", "acc")

    def __init__(self, path, inc, acc):
        self.path, self.inc, self.acc = path, inc, acc


def conditional_diff(nx, acc):
    """nx - acc below its case distinctions"""
    if nx is acc:
        return ZERO
    if isinstance(nx, T) and nx.op == "ite":
        a, b = conditional_diff(nx.args[1], acc), conditional_diff(nx.args[2], acc)
        if a is None or b is None:
            return None
        return ite(nx.args[0], a, b)
    d = sub(nx, acc)
    if acc in subterms(d):
        return None
    return d


class Unknown(Exception):
    pass


def branches(t):
    if isinstance(t, T) and t.op == "ite":
        return branches(t.args[1]) + branches(t.args[2])
    return [t]


def contributions(L, t, path=(), w=ONE, stop=None, budget=None, expand=False):
    """contributions of the loops to value t, which is computed behind the loops
    of t's phis and inside the loops of path"""
    budget = budget if budget is not None else [200]
    out, rest = [], ZERO
    budget[0] -= 1
    if budget[0] < 0:
        raise Unknown("too many contributions")
    if isinstance(t, T) and t.op == "ite":
        rs = []
        for b in t.args[1:]:
            o, r = contributions(L, b, path, w, stop, budget, expand)
            out += o
            rs.append(r)
        return dedupe(out), ite(t.args[0], *rs)
    for m, c in to_poly(t).items():
        ph = [a for a in m if a.op == "phi" and a.args[0] not in path and a is not stop]
        if not expand and (len(m) > 1 or c != 1):
            ph = []
        if len(ph) > 1:
            raise Unknown("product of two loop results")
        if not ph:
            p = C(c)
            for a in m:
                p = mul(p, a)
            rest = add(rest, mul(w, p))
            continue
        p = ph[0]
        I = L.info.get(p.args[0])
        nm = next((n for n, q in I["phi"].items() if q is p), None) if I else None
        if nm is None or nm not in I["next"]:
            raise Unknown("loop value %s" % short(p, 60))
        ww = C(c)
        k = list(m)
        k.remove(p)
        for a in k:
            ww = mul(ww, a)
        out += accumulate(L, I, nm, p, path, mul(w, ww), budget, expand)
        o, r = contributions(L, I["init"][nm], path, mul(w, ww), stop, budget, expand)
        out += o
        rest = add(rest, r)
    return dedupe(out), rest


def accumulate(L, I, nm, p, path, w, budget, expand):
    """contributions of one loop to its accumulator p"""
    pt = path + (I["id"],)
    nx = I["next"][nm]
    d = conditional_diff(nx, p)
    if d is not None and not [q for q in phis(d) if q.args[0] not in pt and tops(d, q, expand)]:
        return [Con(pt, wmul(w, d), p)] if d is not ZERO else []
    # the value is carried through loops inside the body
    out = []
    for b in branches(nx):
        o, r = contributions(L, b, pt, w, p, budget, expand)
        r = sub(r, mul(w, p))
        for x in branches(r):
            if p in subterms(x):
                raise Unknown("the carried value is not a plain sum")
        out += o
        if r is not ZERO:
            out.append(Con(pt, r, p))
    return dedupe(out)


def wmul(w, d):
    if d.op == "ite":
        return ite(d.args[0], wmul(w, d.args[1]), wmul(w, d.args[2]))
    return mul(w, tonum(d))


def dedupe(cs):
    seen, out = set(), []
    for c in cs:
        k = (c.path, c.inc)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def tops(d, q, expand):
    """q is a term (or, with expand, a factor) of d, not part of an index"""
    if d.op == "ite":
        return any(tops(x, q, expand) for x in d.args[1:])
    return any(q in m for m in to_poly(d)) if expand else to_poly(d).get((q,)) == 1


# ------------------------------------------------------------ matching
def vocabulary(t):
    return {x for x in subterms(t) if x.op in ("call", "out", "eff", "ld", "bvar", "site", "obj") or x.op == "var"}


def known_words(t, allowed):
    """no construct in t outside of the vocabulary of the specification"""
    for x in subterms(t):
        if x.op == "var" and x.args[0] not in allowed:
            return False
        if x.op == "call" and x.args[0].split("::")[-1].split("<")[0] not in allowed:
            return False
        if x.op in ("out", "eff", "ld", "bvar", "site", "obj", "undef"):
            return False
    return True


def own_phis(L, N, lid):
    I = L.info[lid]
    return [p for n, p in I["phi"].items()]


WORDS = {"x", "y", "z", "c", "primes", "prime_sums", "pi", "isqrt", "iroot", "lpf", "mu", "get_number"}


def decide(ck, rule, s, got, want, what, assume=(), words=None):
    """violation only if the code's value is made of the words of the
    specification"""
    ok, w = same(got, want, assume=assume)
    if ok:
        ck.ok(rule, s, "%s: %s" % (what, short(want, 160)))
        return True
    if ok is None or not known_words(got, words or WORDS):
        ck.und(rule, s, "%s: value not in the expected form: %s" % (what, short(got, 200)))
        return None
    ck.viol(rule, s, "%s: the code adds %s, required is %s" % (what, short(got, 260), short(want, 260)))
    return False


def match(ck, rule, s, con, N, L, wants, what):
    """one of the bindings of the loop variables makes the contribution equal to
    the specification"""
    got = N(con.inc)
    cands = wants(con)
    if not cands:
        ck.und(rule, s, what + ": loop variables not recognised")
        return None
    for w in cands:
        if same(got, w)[0]:
            ck.ok(rule, s, "%s: %s" % (what, short(w, 160)))
            return True
    return decide(ck, rule, s, got, cands[0], what)


# ------------------------------------------------------------ S2_easy
def index_phi(L, N, con, lvl):
    """phis of the lvl-th loop of the path of a contribution that index the
    prime array in its increment"""
    lid = con.path[lvl]
    inc = N(con.inc)
    ids = {x.args[1][1] for x in subterms(inc) if x.op == "sel" and x.args[0] is PRIMES}
    ids |= {a for i in ids for a in subterms(i) if a.op == "phi"}
    return sorted((p for p in own_phis(L, N, lid) if p in ids and p is not con.acc), key=lambda p: p.id)


def easy(ck):
    n = 0
    for fn in ck.prog.fns(name="S2_easy_OpenMP"):
        if fn.body is None:
            continue
        s = site(fn)
        try:
            g = master(ck, fn, names=["x", "y", "z", "c", "primes", "prime_sums", "threads"], extra=("fast_div", "libdivide_divisors"), opaque=OPQ | {"fast_div"})
            L, N = g.L, Norm(["x", "y", "z", "c", "primes", "prime_sums", "threads"])
            cons, rest = contributions(L, g.retval, expand=True)
        except (gvn.Unsupported, Unknown, RecursionError) as e:
            ck.und("easy-leaves", s, str(e))
            continue
        ck.same("sum-start", s, rest, ZERO, "the sum of the easy leaves starts at 0")
        for con in cons:
            if len(con.path) != 2:
                ck.und("easy-leaves", s, "contribution of a loop nest of depth %d" % len(con.path))
                continue
            n += 1
            easy_leaf(ck, fn, L, N, con, cons)
        starts(ck, fn, L, N, cons)


def outer_b(L, con):
    """the phi of the loop over b, and the term of its prime"""
    I = L.info[con.path[0]]
    r = []
    for nm, p in I["phi"].items():
        if p is con.acc:
            continue
        nx = I["next"].get(nm)
        if nx is not None and same(nx, add(p, ONE))[0]:
            r.append(p)
    return r


def easy_terms(b):
    prime = idx(PRIMES, b)
    x2 = div(X, prime)
    min_hard = tmax(div(Y, prime), prime)
    cl = lambda v: ite(lt(v, min_hard), min_hard, tmin(v, Y))
    isq = mk("call", "primesum::isqrt", x2)
    return prime, x2, cl(isq), cl(div(ZZ, prime))


def easy_leaf(ck, fn, L, N, con, cons):
    I = L.info[con.path[1]]
    s = "%s %s" % (fn.q.split("::")[-1], I["node"].line)
    bs = outer_b(L, con)
    got = N(con.inc)
    for b in bs:
        prime, x2, mincl, minsp = easy_terms(b)
        ls = [p for p in own_phis(L, N, con.path[1]) if not p is con.acc and p in {x for q in subterms(got) if q.op == "sel" for x in subterms(q.args[1][1])}]
        inner_acc = {p for p in own_phis(L, N, con.path[1]) if p.args[1:] == con.acc.args[1:]}
        for l in ls:
            if l in inner_acc:
                continue
            nm = next(n for n, q in I["phi"].items() if q is l)
            nx = N(I["next"][nm])
            pl = idx(PRIMES, l)
            xn = div(x2, pl)
            psum = sub(add(idx(PSUMS, pi(xn)), ONE), idx(PSUMS, sub(b, ONE)))
            cond = N(I["cond"]) if isinstance(I["cond"], T) else None
            # p <= x^(1/3) <= y
            asm = [le(tmax(div(Y, prime), prime), Y)]
            if same(nx, sub(l, ONE))[0]:
                # one leaf per iteration
                decide(ck, "easy-leaves", s, got, mul(psum, mul(prime, pl)), "weight of the sparse leaf primes[b] * primes[l]")
                ck_cond(ck, "leaf-range", s, cond, lt(pi(minsp), l), "sparse leaves end at max(y / prime, prime) or z / prime", asm)
            else:
                xm = tmax(div(x2, idx(PRIMES, add(pi(xn), ONE))), mincl)
                l2 = pi(xm)
                decide(ck, "easy-leaves", s, got, mul(mul(psum, prime), sub(idx(PSUMS, l), idx(PSUMS, l2))), "weight of a cluster of leaves with the same phi", asm)
                decide(ck, "cluster-step", s, nx, l2, "the next cluster starts where this one ended", asm)
                ck_cond(ck, "leaf-range", s, cond, lt(pi(mincl), l), "clustered leaves end at sqrt(x / prime)", asm)
            return
    ck.und("easy-leaves", s, "loop over the leaves not recognised")


def ck_cond(ck, rule, s, got, want, what, asm=()):
    if got is None:
        ck.und(rule, s, what)
        return
    decide(ck, rule, s, got, want, what, asm)


def starts(ck, fn, L, N, cons):
    """first leaf of a prime, and the sparse loop continues where the clusters
    ended"""
    by = {}
    for con in cons:
        if len(con.path) == 2:
            by.setdefault(con.path[0], []).append(con)
    for o, cs in by.items():
        bs = outer_b(L, cs[0])
        if len(bs) != 1:
            ck.und("leaf-start", site(fn), "loop over b")
            continue
        b = bs[0]
        prime, x2, mincl, minsp = easy_terms(b)
        loops = {c.path[1] for c in cs}
        first = pi(tmin(div(x2, prime), Y))
        for lid in sorted(loops):
            I = L.info[lid]
            s = "%s %s" % (fn.q.split("::")[-1], I["node"].line)
            for nm, p in I["phi"].items():
                c = N(I["cond"]) if isinstance(I["cond"], T) else None
                if c is None or p not in subterms(c) or not isinstance(I["init"].get(nm), T):
                    continue
                ini = I["init"][nm]
                q = next((q for j in loops for n2, q in L.info[j]["phi"].items() if q is ini), None)
                if q is not None and q.args[0] in loops:
                    ck.ok("leaf-start", s, "the loop continues with the leaf at which the previous one ended")
                    continue
                decide(ck, "leaf-start", s, N(ini), first, "first leaf primes[b] * primes[l] of a prime")


# ------------------------------------------------------------ special leaves of a sieve
def leaf_weights(ck):
    n = 0
    todo = []
    for fn in ck.prog.fns(name="S2_hard_OpenMP_thread"):
        todo.append((fn, ["x", "y", "z", "c", "segment_size", "segments_per_thread", "thread_num", "low", "limit", "alpha", "factors", "pi", "primes", "mu_sum", "phi"], True))
    for fn in ck.prog.fns(name="S2_thread"):
        todo.append((fn, ["x", "y", "c", "segment_size", "segments_per_thread", "thread_num", "low", "limit", "pi", "primes", "lpf", "mu", "mu_sum", "phi"], True))
    for u in ("2", "3", "4", "5"):
        for fn in ck.prog.fns(name="S2", file="src/lmo/pi_lmo%s.cpp" % u):
            todo.append((fn, ["x", "y", "c", "primes", "lpf", "mu"], False))
    for fn, names, split in todo:
        if fn.body is None:
            continue
        s = site(fn)
        try:
            g = master(ck, fn, names=names, extra=("fast_div",), opaque=OPQ | {"fast_div"})
            L, N = g.L, Norm(names)
            N.params.update(p.n for p in fn.params)
            cons, rest = contributions(L, g.retval)
        except (gvn.Unsupported, Unknown, RecursionError) as e:
            ck.und("leaf-weight", s, str(e))
            continue
        ck.same("sum-start", s, rest, ZERO, "the sum of the special leaves starts at 0")
        done = set()
        for con in cons:
            lid = con.path[-1]
            I = L.info[lid]
            sl = "%s %s" % (fn.q.split("::")[-1], I["node"].line)
            if (lid, con.inc) in done:
                continue
            done.add((lid, con.inc))
            n += 1
            leaf(ck, sl, L, N, con, I, split)


def case_list(t, c=TRUE):
    if isinstance(t, T) and t.op == "ite":
        return case_list(t.args[1], land(c, t.args[0])) + case_list(t.args[2], land(c, bnot_(t.args[0])))
    return [(c, t)]


def factor_out(t, w):
    """Q with t == w * Q for a product w of atoms"""
    wp = to_poly(w)
    if len(wp) != 1:
        return None
    (wm, wc), = wp.items()
    out = {}
    for m, c in to_poly(t).items():
        k = list(m)
        for a in wm:
            if a not in k:
                return None
            k.remove(a)
        if c % wc:
            return None
        out[tuple(k)] = c // wc
    return from_poly(out)


def leaf(ck, s, L, N, con, I, split):
    lid = con.path[-1]
    inc = N(con.inc)
    # loop variables
    bs = []
    for o in con.path[:-1]:
        for nm, p in L.info[o]["phi"].items():
            if idx(PRIMES, p) in subterms(inc):
                bs.append(p)
    ms = [p for p in own_phis(L, N, lid) if p is not con.acc]
    if len(bs) != 1:
        ck.und("leaf-weight", s, "loop over the primes")
        return
    b = bs[0]
    prime = idx(PRIMES, b)
    cases = [(c, v) for c, v in case_list(inc) if v is not ZERO]
    if len({v for c, v in cases}) > 1:
        ck.und("leaf-weight", s, "two kinds of leaves in one loop")
        return
    guard, body = lor(*[c for c, v in cases]) if len(cases) > 1 else cases[0][0] if cases else FALSE, cases[0][1] if cases else ZERO
    ok = None
    # the code's own words for a number and its Moebius value
    for m in ms:
        nm = next(n for n, q in I["phi"].items() if q is m)
        nx = I["next"].get(nm)
        forms = [("m", mul(mul(idx(V("mu"), m), m), prime), neg(ONE), land(bnot_(eq(idx(V("mu"), m), ZERO)), lt(prime, idx(V("lpf"), m)))),
                 ("factor", mul(mul(mk("call", "mu", m), mk("call", "get_number", m)), prime), neg(ONE), lt(prime, mk("call", "lpf", m))),
                 ("prime", mul(idx(PRIMES, m), prime), ONE, TRUE)]
        for kind, w, sign, gd in forms:
            if not any(a in subterms(body) for a in to_poly(w).keys().__iter__().__next__() if a is not prime and a is not m and kind != "x"):
                continue
            Q = factor_out(body, w)
            if Q is None:
                if kind == "prime" and same_atoms(body, w):
                    continue
                if known_words(strip_phi(body), WORDS | PHIWORDS):
                    ck.viol("leaf-weight", s, "the leaf adds %s, which is not a multiple of its weight %s" % (short(body, 240), short(w, 100)))
                else:
                    ck.und("leaf-weight", s, "weight of the leaf: %s" % short(body, 200))
                return
            Q = mul(Q, sign)
            if nx is None or not same(nx, sub(m, ONE))[0]:
                ck.und("leaf-order", s, "the leaves are not visited one by one from above")
            else:
                ck.ok("leaf-order", s, "leaves are visited one by one, from above")
            decide(ck, "leaf-guard", s, guard, gd, "which numbers are leaves")
            ck.ok("leaf-weight", s, "weight %s" % short(w, 120))
            xn = div(X, mul(prime, m)) if kind == "m" else div(div(X, prime), mk("call", "get_number", m)) if kind == "factor" else div(X, mul(prime, idx(PRIMES, m)))
            xns = [xn, div(div(X, prime), idx(PRIMES, m)), div(X, mul(prime, m))]
            phi_value(ck, s, L, N, Q, b, xn, guard, con)
            arrs = {phi_name(L, x.args[0]) for x in subterms(Q) if x.op == "sel" and x.args[1] == ("i", b) and x.args[0].op == "phi"}
            if not arrs and any(x.op == "sel" and x.args[1] == ("i", b) and x.args[0] is not PRIMES for x in subterms(Q)):
                arrs = {None}
            if len(arrs) == 1:
                totals(ck, s, L, N, con, b, arrs.pop())
            elif len(con.path) > 2:
                ck.und("segment-total", s, "phi array")
            if split:
                mu_sums(ck, s, L, N, con, I, b, w, sign, guard)
            return
    ck.und("leaf-weight", s, "kind of leaf not recognised: %s" % short(body, 200))


PHIWORDS = {"low", "limit", "segment_size", "segments_per_thread", "thread_num", "alpha", "sum", "phi", "sieve", "operator[]"}


def strip_phi(t):
    """t with the counting structures (sieve, tree, phi array) replaced"""
    mp = {}
    for x in subterms(t):
        if x.op == "call" and x.args[0].split("::")[-1] == "sum":
            mp[x] = V("phi")
        if x.op == "sel" and x.args[0].op in ("phi", "var") and x.args[0] not in (PRIMES, PSUMS, V("mu"), V("lpf")):
            mp[x] = V("phi")
    return subst(t, mp)


def same_atoms(a, b):
    return False


def phi_value(ck, s, L, N, Q, b, xn, guard, con):
    """Q = sum of the unsieved numbers up to x / n: phi[b] of the earlier
    segments plus the numbers of this segment"""
    d = to_poly(Q)
    parts = []
    for m, c in d.items():
        if len(m) != 1 or c != 1:
            if known_words(strip_phi(Q), WORDS | PHIWORDS):
                ck.viol("leaf-phi", s, "the weight of the leaf is multiplied by %s instead of phi(x/n, b-1)" % short(Q, 200))
            else:
                ck.und("leaf-phi", s, "phi value %s" % short(Q, 160))
            return
        parts.append(m[0])
    kinds = {}
    for a in parts:
        if a.op == "sel" and a.args[1][0] == "i" and a.args[1][1] is b:
            kinds.setdefault("phi[b]", []).append(a)
        elif a.op == "call" and a.args[0].split("::")[-1] == "sum":
            kinds.setdefault("tree" if len(a.args) == 3 else "range", []).append(a)
        elif a.op == "phi":
            kinds.setdefault("sum", []).append(a)
        else:
            ck.und("leaf-phi", s, "phi value %s" % short(Q, 160))
            return
    if any(len(v) > 1 for v in kinds.values()):
        ck.viol("leaf-phi", s, "a part of phi(x/n, b-1) is counted twice: %s" % short(Q, 200))
        return
    ks = set(kinds)
    if ks == {"phi[b]"}:
        # all numbers of the segment up to x/n were added to phi[b] before
        a = kinds["phi[b]"][0]
        counted(ck, s, L, N, a.args[0], b, xn)
        return
    if ks == {"sum"}:
        counted(ck, s, L, N, kinds["sum"][0], None, xn)
        return
    if ks == {"phi[b]", "tree"}:
        t = kinds["tree"][0]
        pos = t.args[-1]
        low = sub(xn, pos)
        starts_ = {N(e.a["args"][-1]) for e in L.g.events if e.k == "call" and e.a["q"].endswith("BinaryIndexedTree::init") and e.a["args"]}
        if not starts_:
            ck.und("leaf-phi", s, "start of the tree")
        elif not any(same(low, q)[0] for q in starts_):
            if any(is_c(sub(low, q)) for q in starts_) or (low.op == "poly" and any(a.op == "div" for m in to_poly(low) for a in m)):
                ck.viol("leaf-phi", s, "the tree is read at %s, required is x/n - low with x/n = %s" % (short(pos, 160), short(xn, 100)))
            else:
                ck.und("leaf-phi", s, "tree position %s" % short(pos, 120))
        else:
            ck.ok("leaf-phi", s, "phi[b] + numbers of the segment up to x/n (tree)")
        return
    if ks == {"phi[b]", "sum", "range"}:
        r, p = kinds["range"][0], kinds["sum"][0]
        a = r.args[2:]
        # BitSieve::sum(start, stop, low, high, sum, sum_low_high)
        if len(a) != 6:
            ck.und("leaf-phi", s, "range sum")
            return
        low = sub(xn, a[1])
        if low is not a[2] and not same(low, a[2])[0]:
            if a[2].op in ("phi", "poly", "var"):
                ck.viol("leaf-phi", s, "the range sum ends at %s, required is x/n - low with x/n = %s" % (short(a[1], 160), short(xn, 100)))
            else:
                ck.und("leaf-phi", s, "range end")
            return
        if a[4] is not p:
            ck.viol("leaf-phi", s, "the range sum is given %s as the sum of the numbers before it, the running sum is %s" % (short(a[4], 80), short(p, 80)))
            return
        I = L.info[con.path[-1]]
        nm = next(n for n, q in I["phi"].items() if q is p)
        if p.args[0] != I["id"]:
            ck.und("leaf-phi", s, "running sum")
            return
        nx = N(I["next"][nm])
        decide_any(ck, "leaf-phi", s, nx, ite(guard, add(p, r), p), "running sum of the segment")
        decide_any(ck, "leaf-phi", s, N(I["init"][nm]), ZERO, "running sum starts at 0")
        st = a[0]
        if st.op == "phi" and st.args[0] == I["id"]:
            n2 = next(n for n, q in I["phi"].items() if q is st)
            decide_any(ck, "leaf-phi", s, N(I["next"][n2]), ite(guard, add(a[1], ONE), st), "the next range starts behind this one")
            decide_any(ck, "leaf-phi", s, N(I["init"][n2]), ZERO, "the first range starts at the segment start")
        else:
            ck.und("leaf-phi", s, "range start")
        return
    miss = {"phi[b]"} - ks
    if ks <= {"tree", "range", "sum"} and miss and ("tree" in ks or "range" in ks):
        ck.viol("leaf-phi", s, "the numbers of the earlier segments, phi[b], are missing from %s" % short(Q, 200))
    elif ks == {"phi[b]", "sum"} or ks == {"phi[b]", "range"}:
        ck.viol("leaf-phi", s, "phi(x/n, b-1) is taken as %s, without all numbers of this segment up to x/n" % short(Q, 200))
    else:
        ck.und("leaf-phi", s, "phi value %s" % short(Q, 160))


def decide_any(ck, rule, s, got, want, what):
    ok, w = same(got, want)
    if ok is None:
        ck.und(rule, s, what)
    elif ok:
        ck.ok(rule, s, what)
    else:
        ck.viol(rule, s, "%s: the code computes %s, required is %s" % (what, short(got, 200), short(want, 200)))


def segment_start(L, low):
    """a value that advances by the segment size: a loop's induction value"""
    if low is None:
        return False
    if low.op == "phi":
        return low in L.lin_map
    d = to_poly(low)
    return any(a.op == "phi" and a in L.lin_map for m in d for a in m) and not any(a.op == "div" for m in d for a in m)


def counted(ck, s, L, N, base, b, xn):
    """the running total is advanced up to x/n by a loop over the sieve"""
    if base.op != "phi":
        ck.und("leaf-phi", s, "phi value not computed by a loop")
        return
    I = L.info.get(base.args[0])
    nm = next((n for n, q in I["phi"].items() if q is base), None)
    nx = N(I["next"].get(nm))
    if b is None:
        d = conditional_diff(nx, base)
    else:
        new = sel(nx, ("i", b))
        d = conditional_diff(new, sel(base, ("i", b)))
        if nx.op == "upd" and nx.args[1] != ("i", b):
            ck.viol("leaf-phi", s, "the numbers are added to phi[%s], the leaf reads phi[%s]" % (short(nx.args[1][1], 60), short(b, 60)))
            return
    if d is None:
        ck.und("leaf-phi", s, "running total")
        return
    # the position: the loop's induction value
    ps = [p for n, p in I["phi"].items() if p is not base and p in L.lin_map]
    for p in ps:
        n2 = next(n for n, q in I["phi"].items() if q is p)
        bnd = bound_of(N(I["cond"]), p)
        if bnd is None:
            continue
        off = sub(add(xn, ONE), bnd)          # cond: p < x/n + 1 - low
        if any(a.op == "div" for m in to_poly(off) for a in m):
            ck.viol("leaf-phi", s, "numbers are counted up to %s, required is x/n = %s" % (short(sub(bnd, ONE), 160), short(xn, 100)))
            return
        number = add(p, off)
        if adds(ck, "leaf-phi", s, d, p, number):
            first(ck, s, L, N, p, n2, I, off)
        return
    ck.und("leaf-phi", s, "loop over the sieve")


def adds(ck, rule, s, d, pos, number):
    """d = number if the sieve's cell at pos is set, else 0"""
    cells = [x for x in subterms(d) if (x.op == "sel" and x.args[1] == ("i", pos)) or (x.op == "call" and x.args[0].endswith("operator[]") and x.args[-1] is pos)]
    cells = [x for x in cells if not (x.op == "sel" and x.args[0] in (PRIMES, PSUMS))]
    if not cells:
        other = [x for x in subterms(d) if x.op == "call" and x.args[0].endswith("operator[]") or x.op == "sel"]
        if other and known_words(strip_phi(d), WORDS | PHIWORDS):
            ck.viol(rule, s, "the loop over the positions %s adds %s, which does not look at the sieve there" % (short(pos, 40), short(d, 160)))
        else:
            ck.und(rule, s, "sieve access")
        return False
    cell = cells[0]
    v = at_cell(d, cell)
    if v is None:
        ck.und(rule, s, "sieve access")
        return False
    decide_any(ck, rule, s, v[0], number, "every unsieved number is counted as itself")
    decide_any(ck, rule, s, v[1], ZERO, "sieved numbers are not counted")
    return True


def at_cell(d, cell):
    """d for a set and for a cleared cell of the sieve"""
    one, nil = (ONE, ZERO) if cell.op == "sel" else (TRUE, FALSE)
    v = [subst(d, {cell: r, mk("bvar", cell): tobool(r)}) for r in (one, nil)]
    if cell in subterms(v[0]):
        return None
    return v


# ------------------------------------------------------------ totals of a segment
def phi_name(L, p):
    I = L.info.get(p.args[0])
    return next((n for n, q in I["phi"].items() if q is p), None) if I else None


def totals(ck, s, L, N, con, b, arr):
    """behind the leaves of prime b, phi[b] grows by the sum of all numbers of
    the segment that are coprime to the first b-1 primes"""
    seg = L.info[con.path[0]]
    J = L.info[con.path[-2]]
    low = high = None
    for nm, p in seg["phi"].items():
        if p in L.lin_map and isinstance(seg["cond"], T) and isinstance(seg["next"].get(nm), T):
            lim = bound_of(seg["cond"], p)
            if lim is not None:
                low, step = p, sub(seg["next"][nm], p)
                high = tmin(add(low, step), lim)
    if low is None or len(con.path) < 3:
        return
    low, high = N(low), N(high)
    nm = arr
    pj = J["phi"].get(nm)
    if pj is None or J["next"].get(nm) is None:
        ck.viol("segment-total", s, "phi[b] is read for the leaves but not advanced by the numbers of the segment")
        return
    nx = N(J["next"][nm])
    new, old = sel(nx, ("i", b)), sel(pj, ("i", b))
    if nx.op == "phi":
        R = L.info.get(nx.args[0])
        if R is None or R["id"] == con.path[-1]:
            ck.viol("segment-total", s, "phi[b] does not get the numbers of the segment behind the last leaf")
            return
        rest_of_segment(ck, s, L, N, con, b, nx, R, low, high)
        return
    d = conditional_diff(new, old)
    if d is None:
        ck.und("segment-total", s, "growth of phi[b]")
        return
    if d is ZERO:
        ck.viol("segment-total", s, "phi[b] is not advanced by the numbers of the segment")
        return
    if d.op == "call" and d.args[0].split("::")[-1] == "sum" and len(d.args) == 3:
        decide_any(ck, "segment-total", s, d.args[2], sub(sub(high, ONE), low), "the tree is read up to the last number of the segment")
        t = d.args[1]
        if not (t.op == "phi" and (t.args[0] == J["id"] or J["id"] in L.info[t.args[0]]["outer"])):
            ck.viol("segment-total", s, "the tree is not updated when multiples of the prime are crossed off")
            return
        if t.args[0] != J["id"]:
            ck.viol("segment-total", s, "phi[b] is advanced with the tree %s, the leaves of the prime used %s" % (short(t, 80), "the tree before the multiples of the prime are crossed off")) if t.op == "phi" else ck.und("segment-total", s, "tree")
            return
        tree_update(ck, s, L, N, J, t, low)
        return
    if d.op == "phi" and d.args[0] == J["id"]:
        running_total(ck, s, L, N, J, d, low, high)
        return
    if (d.op == "call" and d.args[0].split("::")[-1] == "sum" and len(d.args) == 5) or (d.op == "phi" and d.args[0] in con.path):
        ck.viol("segment-total", s, "the sum of the segment does not lose the multiples of the prime")
        return
    if d.op == "poly" and any(m and m[0].op == "phi" for m in to_poly(d)):
        ck.viol("segment-total", s, "phi[b] is advanced by %s, required is the sum of the segment before the multiples of prime b are crossed off" % short(d, 200))
        return
    ck.und("segment-total", s, "growth of phi[b]: %s" % short(d, 160))


def rest_of_segment(ck, s, L, N, con, b, nx, R, low, high):
    new = sel(N(R["next"][phi_name(L, nx)]), ("i", b))
    d = conditional_diff(new, sel(nx, ("i", b)))
    ps = [(n, p) for n, p in R["phi"].items() if p is not nx and p in L.lin_map and bound_of(N(R["cond"]), p) is not None]
    if d is None or len(ps) != 1:
        ck.und("segment-total", s, "loop over the rest of the segment")
        return
    n2, p = ps[0]
    bnd = bound_of(N(R["cond"]), p)
    decide_any(ck, "segment-total", s, bnd, sub(high, low), "the rest of the segment is counted up to its end")
    adds(ck, "segment-total", s, d, p, add(p, low))
    ini = R["init"].get(n2)
    lid = con.path[-1]
    if ini is not None and ini.op == "phi" and ini.args[0] == lid:
        ck.ok("segment-total", s, "counting continues behind the last leaf")
    elif ini is not None and is_c(ini):
        ck.viol("segment-total", s, "counting restarts at position %s: numbers already counted for the leaves are counted twice" % short(ini))
    else:
        ck.und("segment-total", s, "start of the rest of the segment")


def tree_update(ck, s, L, N, J, t, low):
    nx = N(J["next"].get(phi_name(L, t)))
    if nx is t:
        ck.viol("segment-total", s, "the tree is not updated when multiples of the prime are crossed off")
        return
    if nx.op != "phi":
        ck.und("segment-total", s, "update of the tree")
        return
    K = L.info[nx.args[0]]
    kn = N(K["next"][phi_name(L, nx)])
    crossed = [m for m in own_phis(L, N, K["id"]) if m is not nx and isinstance(K["cond"], T) and m in subterms(K["cond"])]
    if len(crossed) != 1 or kn.op not in ("ite", "eff", "phi"):
        ck.und("segment-total", s, "loop that crosses off")
        return
    m = crossed[0]
    ups = [x for x in subterms(kn) if x.op == "eff" and x.args[0].endswith("BinaryIndexedTree::update")]
    if not ups:
        ck.viol("segment-total", s, "the tree is not updated when multiples of the prime are crossed off")
        return
    for u in ups:
        decide_any(ck, "segment-total", s, u.args[2], m, "the crossed-off number leaves the tree")
        decide_any(ck, "segment-total", s, u.args[3], low, "the tree position is relative to the segment start")
    if kn.op == "ite":
        cell = cell_at(kn.args[0], sub(m, low))
        if cell is None:
            ck.und("segment-total", s, "condition of the tree update")
            return
        v = at_cell(kn, cell)
        ck.cond("segment-total", s, None if v is None else v[0] in ups and v[1] is nx, "a number leaves the tree iff it was still in the sieve", "the tree is updated for numbers that are not in the sieve: %s" % short(kn, 200))
    else:
        ck.viol("segment-total", s, "the tree is updated even if the number was crossed off before")


def cell_at(t, pos):
    for x in subterms(t):
        if x.op == "call" and x.args[0].endswith("operator[]") and same(x.args[-1], pos)[0]:
            return x
        if x.op == "sel" and x.args[1][0] == "i" and same(x.args[1][1], pos)[0] and x.args[0] not in (PRIMES, PSUMS):
            return x
    return None


def running_total(ck, s, L, N, J, t, low, high):
    """the sum of the segment starts with all its numbers and loses what is
    crossed off for every prime"""
    nx = N(J["next"].get(phi_name(L, t)))
    if nx is t:
        ck.viol("segment-total", s, "the sum of the segment does not lose the multiples of the prime")
        return
    d = sub(nx, t)
    dp = to_poly(d)
    (m1, c1), = dp.items() if len(dp) == 1 else (((), 0),)
    if len(m1) != 1 or m1[0].op != "phi":
        ck.und("segment-total", s, "change of the segment sum: %s" % short(d, 120))
        return
    if c1 != -1:
        ck.viol("segment-total", s, "the sum of the segment changes by %s * (crossed-off numbers), required is -1" % c1)
        return
    k = m1[0]
    K = L.info[k.args[0]]
    decide_any(ck, "segment-total", s, N(K["init"][phi_name(L, k)]), ZERO, "the sum of the crossed-off numbers starts at 0")
    kd = conditional_diff(N(K["next"][phi_name(L, k)]), k)
    crossed = [m for m in own_phis(L, N, K["id"]) if m is not k and isinstance(K["cond"], T) and m in subterms(K["cond"])]
    if kd is None or len(crossed) != 1:
        ck.und("segment-total", s, "loop that crosses off")
        return
    m = crossed[0]
    cell = cell_at(kd, sub(m, low))
    if cell is None:
        if known_words(strip_phi(kd), WORDS | PHIWORDS):
            ck.viol("segment-total", s, "the sum of the segment loses %s without regard to the sieve" % short(kd, 160))
        else:
            ck.und("segment-total", s, "crossed-off numbers")
        return
    v = at_cell(kd, cell)
    if v is None:
        ck.und("segment-total", s, "crossed-off numbers")
        return
    decide_any(ck, "segment-total", s, v[0], m, "a number crossed off the first time leaves the sum as itself")
    decide_any(ck, "segment-total", s, v[1], ZERO, "a number crossed off before has left the sum already")
    # start: the whole segment, or what the loop over the smaller primes left
    ini = N(J["init"].get(phi_name(L, t)))
    if ini.op == "call" and ini.args[0].split("::")[-1] == "sum" and len(ini.args) == 5:
        decide_any(ck, "segment-total", s, ini.args[3], ZERO, "the sum of the segment starts with its first number")
        decide_any(ck, "segment-total", s, ini.args[4], sub(sub(high, ONE), low), "the sum of the segment ends with its last number")
    elif ini.op == "phi":
        ck.ok("segment-total", s, "the sum continues from the smaller primes")
    else:
        ck.und("segment-total", s, "start of the segment sum")


def first(ck, s, L, N, p, nm, I, off):
    """the count starts with the first number of the segment"""
    ini = I["init"].get(nm)
    for _ in range(6):
        if not isinstance(ini, T) or ini.op != "phi":
            break
        J = L.info.get(ini.args[0])
        n2 = next((n for n, q in J["phi"].items() if q is ini), None) if J else None
        if n2 is None:
            ini = None
            break
        ini = J["init"].get(n2)
    if not isinstance(ini, T) or not is_c(ini):
        ck.und("leaf-phi", s, "first position of the count")
        return
    want = ONE if off is ZERO else ZERO
    decide_any(ck, "leaf-phi", s, ini, want, "the count starts with the first number of the segment")


def mu_sums(ck, s, L, N, con, I, b, w, sign, guard):
    """mu_sum[b] collects the same weights, for the phi values of the segments
    before this worker's interval"""
    hits = []
    for nm, p in I["phi"].items():
        nx = N(I["next"].get(nm))
        if isinstance(p, T) and isinstance(nx, T) and ("mu_sum" in str(nm) or "mu_sum" in short(p, 60)):
            hits.append((nm, p, nx))
    if len(hits) != 1:
        ck.und("mu-sum", s, "mu_sum not found in the leaf loop")
        return
    nm, p, nx = hits[0]
    at = ("i", b)
    if nx is p:
        ck.viol("mu-sum", s, "the weights of the leaves are not collected in mu_sum")
        return
    if nx.op == "upd" and nx.args[1] != at:
        ck.viol("mu-sum", s, "the weight of a leaf of prime %s is added to mu_sum[%s]" % (short(b, 40), short(nx.args[1][1], 60)))
        return
    d = conditional_diff(sel(nx, at), sel(p, at))
    if d is None:
        ck.und("mu-sum", s, "change of mu_sum")
        return
    want = mul(w, sign)
    decide_any(ck, "mu-sum", s, d, ite(guard, want, ZERO), "mu_sum[b] gets the weight with which phi enters the sum")


# ------------------------------------------------------------ reconstruction
def reconstruct(ck):
    for nm, worker, names in (("S2_hard_OpenMP_master", "S2_hard_OpenMP_thread", ["x", "y", "z", "c", "primes", "factors", "threads"]),
                              ("S2", "S2_thread", ["x", "y", "c", "primes", "lpf", "mu", "threads"])):
        for fn in ck.prog.fns(name=nm):
            if fn.body is None or (nm == "S2" and not fn.file.endswith("pi_lmo_parallel1.cpp")):
                continue
            s = site(fn)
            try:
                g = master(ck, fn, names=names, extra=(worker,))
            except gvn.Unsupported as e:
                ck.und("reconstruct", s, str(e))
                continue
            L = g.L
            found = 0
            for lid, I in L.info.items():
                J = I["outer"][-1] if I["outer"] else None
                for n, p in I["phi"].items():
                    nx = I["next"].get(n)
                    if not isinstance(nx, T) or nx is p:
                        continue
                    d = conditional_diff(nx, p) if nx.op != "upd" else None
                    if d is None or d is ZERO or J is None:
                        continue
                    js = [q for q in own_phis(L, None, lid) if q in L.lin_map]
                    is_ = [q for q in own_phis(L, None, J) if q in L.lin_map]
                    for j in js:
                        for i in is_:
                            cells = [x for x in subterms(d) if x.op == "sel" and x.args[1] == ("i", j)]
                            grid = [x for x in cells if x.args[0].op == "sel" and x.args[0].args[1] == ("i", i)]
                            tot = [x for x in cells if x.args[0].op == "phi" and x.args[0].args[0] == lid]
                            if not grid:
                                continue
                            found += 1
                            if len(tot) != 1 or len(grid) != 1:
                                # the total must be read before this worker's own numbers are added
                                up = [x for x in subterms(d) if x.op == "sel" and x.args[0].op in ("upd", "phi")]
                                ck.viol("reconstruct", s + " " + I["node"].line, "the contribution of a worker's leaves is %s, required is mu_sum[i][j] * phi_total[j] with phi_total before this worker" % short(d, 220))
                                continue
                            decide_any(ck, "reconstruct", s + " " + I["node"].line, d, mul(grid[0], tot[0]), "every worker's leaf weights meet the phi values of all numbers before its interval")
                            P = tot[0].args[0]
                            pn = next(k for k, q in I["phi"].items() if q is P)
                            pnx = I["next"][pn]
                            dd = conditional_diff(sel(pnx, ("i", j)), sel(P, ("i", j)))
                            ce = [x for x in subterms(dd) if x.op == "sel" and x.args[1] == ("i", j) and x.args[0].op == "sel" and x.args[0].args[1] == ("i", i)] if dd is not None else []
                            if len(ce) != 1:
                                ck.und("reconstruct", s, "update of phi_total")
                            else:
                                decide_any(ck, "reconstruct", s + " " + I["node"].line, dd, ce[0], "phi_total[j] grows by the worker's phi[j]")
                                ck.cond("reconstruct", s, ce[0].args[0].args[0] is not grid[0].args[0].args[0], "weights and phi values come from different arrays", "phi_total is advanced by the weights themselves")
                            order(ck, s, L, L.info[J], i)
            if not found:
                ck.und("reconstruct", s, "loop that combines the workers' results not found")


def order(ck, s, L, J, i):
    nm = next(n for n, q in J["phi"].items() if q is i)
    ini, nx = J["init"].get(nm), J["next"].get(nm)
    decide_any(ck, "reconstruct", s, L.lin(ini), ZERO, "the workers' results are combined starting with the first interval")
    decide_any(ck, "reconstruct", s, nx, add(i, ONE), "the workers' results are combined in the order of their intervals")


# ------------------------------------------------------------ assembly
def top_call(t, name):
    return [x for x in subterms(t) if x.op == "call" and x.args[0].split("::")[-1].split("<")[0] == name]


ASM_OPQ = OPQ | {"P2", "S1", "S2", "S2_trivial", "S2_easy", "S2_hard", "get_alpha_lmo", "get_alpha_deleglise_rivat", "print_seconds"}


def assemble(ck):
    algos = [("pi_lmo2", 1), ("pi_lmo3", 1), ("pi_lmo4", 1), ("pi_lmo5", 1), ("pi_lmo_parallel1", None), ("pi_deleglise_rivat_parallel1", None), ("pi_lmo1", 1)]
    for name, thr in algos:
        fns = [f for f in ck.prog.fns(name=name) if f.body is not None and len(f.params) == (1 if thr else 2)]
        if not fns:
            ck.und("assembly", name, "function not found")
        for fn in fns:
            s = site(fn)
            names = ["x"] if thr else ["x", "threads"]
            try:
                g = master(ck, fn, names=names, opaque=ASM_OPQ)
            except gvn.Unsupported as e:
                ck.und("assembly", s, str(e))
                continue
            t = g.retval
            T_ = C(1) if thr else V("threads")
            val = subst(t, {lt(X, C(2)): FALSE, le(C(2), X): TRUE})
            zero = subst(t, {lt(X, C(2)): TRUE, le(C(2), X): FALSE})
            decide_any(ck, "assembly", s, zero, ZERO, "no primes below 2")
            for p2 in top_call(val, "P2")[:1]:
                y = p2.args[2] if len(p2.args) == 4 else None
                if y is None:
                    ck.und("assembly", s, "arguments of P2")
                    continue
                cube = [x for x in subterms(y) if x.op == "call" and "iroot" in x.args[0] and x.args[-1] is X]
                ck.cond("assembly", s, len(cube) >= 1 or None, "y is a multiple of the cube root of x", "")
                c = mk("call", "primesum::PhiTiny::get_c", y)
                gc = top_call(val, "get_c")
                q = {k: top_call(val, k)[0].args[0] if top_call(val, k) else None for k in ("P2", "S1", "S2", "S2_trivial", "S2_easy", "S2_hard", "prime_sum_tiny", "get_c")}
                if gc:
                    decide_any(ck, "assembly", s, gc[0].args[1], y, "c = number of pre-sieved primes for y")
                    c = gc[0]
                tail = sub(call_(q["prime_sum_tiny"], y), ONE)
                if q["prime_sum_tiny"] is None:
                    ck.und("assembly", s, "sum of the primes up to y")
                    continue
                P2 = call_(p2.args[0], X, y, T_)
                if name == "pi_lmo1":
                    lmo1(ck, s, g, val, y, c, tail, P2)
                    continue
                if q["S1"] is None:
                    ck.und("assembly", s, "S1")
                    continue
                S1 = call_(q["S1"], X, y, c, T_)
                s2 = top_call(val, "S2") or []
                if not s2:
                    ck.und("assembly", s, "S2")
                    continue
                s2 = s2[0]
                a = s2.args[1:]
                if name.startswith("pi_del"):
                    want = (X, y, div(X, y), c, T_)
                    for k, (u, v) in enumerate(zip(a, want)):
                        decide_any(ck, "assembly", s, u, v, "argument %d of S2" % (k + 1))
                else:
                    for k, v in enumerate((X, y, c)):
                        decide_any(ck, "assembly", s, a[k], v, "argument %d of S2" % (k + 1))
                    for k, gen in ((3, "generate_primes"), (4, "generate_lpf"), (5, "generate_moebius")):
                        tc = [x for x in subterms(a[k]) if x.op == "call" and gen in x.args[0]] if k < len(a) and isinstance(a[k], T) else []
                        if not tc:
                            others = [x for x in subterms(a[k]) if x.op == "call" and "generate_" in x.args[0]] if k < len(a) and isinstance(a[k], T) else []
                            if others:
                                ck.viol("assembly", s, "argument %d of S2 is %s, required is %s(y)" % (k + 1, short(a[k], 80), gen))
                            else:
                                ck.und("assembly", s, "argument %d of S2" % (k + 1))
                        else:
                            decide_any(ck, "assembly", s, tc[0].args[1], y, "%s covers [0, y]" % gen)
                want = sub(add(add(S1, s2), tail), P2)
                decide_any(ck, "assembly", s, val, want, "S1 + S2 + sum of the primes up to y - 1 - P2")
            if not top_call(val, "P2"):
                ck.und("assembly", s, "P2 not called")
    parts(ck)
    legendre(ck)


def call_(q, *a):
    return mk("call", q, *a) if q else V("?")


def lmo1(ck, s, g, val, y, c, tail, P2):
    """the reference implementation sums S1 and S2 by definition"""
    L = g.L
    rest = sub(sub(val, tail), neg(P2))
    N = Norm([])
    try:
        cons, r = contributions(L, rest)
    except Unknown as e:
        ck.und("assembly", s, str(e))
        return
    decide_any(ck, "assembly", s, r, ZERO, "S1 + S2 + sum of the primes up to y - 1 - P2")
    depths = sorted(len(k.path) for k in cons)
    if depths != [1, 2]:
        ck.und("definition", s, "loops of S1 and S2")
        return
    arr = {}
    for x in subterms(tuple(k.inc for k in cons)):
        if x.op == "sel" and x.args[1][0] == "i":
            for n in ("generate_primes", "generate_lpf", "generate_moebius"):
                if any(z.op == "call" and n in z.args[0] for z in subterms(x.args[0])):
                    arr.setdefault(n, set()).add(x.args[0])
    mp = {}
    for x in subterms(tuple(k.inc for k in cons)):
        if x.op == "sel" and x.args[1][0] == "i":
            for n, vs in arr.items():
                if x.args[0] in vs:
                    mp[x] = idx(V(n), x.args[1][1])
    PR, LP, MU = V("generate_primes"), V("generate_lpf"), V("generate_moebius")

    def nz(t):
        for _ in range(4):
            u = subst(t, {x: idx(V(next(n for n, vs in arr.items() if x.args[0] in vs)), x.args[1][1]) for x in subterms(t) if x.op == "sel" and any(x.args[0] in vs for vs in arr.values())})
            if u is t:
                break
            t = u
        return t
    for k in cons:
        inc = nz(k.inc)
        ps = top_call(inc, "phi_sum")
        if not ps:
            ck.und("definition", s, "phi_sum")
            continue
        q = ps[0].args[0]
        I = L.info[k.path[-1]]
        own = [p for p in own_phis(L, None, k.path[-1]) if p is not k.acc]
        if len(k.path) == 1:
            cand = [ite(lt(idx(PR, c), idx(LP, n)), mul(mk("call", q, div(X, n), c), mul(idx(MU, n), n)), ZERO) for n in own]
            what = "ordinary leaves: mu(n) * n * phi(x / n, c)"
        else:
            up = own_phis(L, None, k.path[0])
            cand = []
            for b in up:
                for m in own:
                    if idx(PR, b) not in subterms(inc):
                        continue
                    p = idx(PR, b)
                    cand.append(ite(lt(p, idx(LP, m)), neg(mul(mk("call", q, div(X, mul(p, m)), sub(b, ONE)), mul(mul(idx(MU, m), m), p))), ZERO))
            what = "special leaves: -mu(m) * m * p * phi(x / (m p), b - 1)"
        if not cand:
            ck.und("definition", s, what)
        elif any(same(inc, w)[0] for w in cand):
            ck.ok("definition", s, what)
        else:
            ck.viol("definition", s, "%s; the code adds %s" % (what, short(inc, 240)))


def parts(ck):
    """S2 of Deleglise-Rivat = trivial + easy + hard, over the same x, y, z, c"""
    for fn in ck.prog.fns(name="S2", file="src/deleglise-rivat/pi_deleglise_rivat_parallel1.cpp"):
        s = site(fn)
        try:
            g = gvn.GVN(ck.prog, opaque={"S2_trivial", "S2_easy", "S2_hard"}, opaque_pred=pred())
            g.run(fn, names=["x", "y", "z", "c", "threads"])
        except gvn.Unsupported as e:
            ck.und("assembly", s, str(e))
            continue
        t = g.retval
        want = ZERO
        for nm in ("S2_trivial", "S2_easy", "S2_hard"):
            tc = top_call(t, nm)
            if not tc:
                ck.viol("assembly", s, "%s is not part of the sum" % nm)
                continue
            want = add(want, mk("call", tc[0].args[0], X, Y, ZZ, CC, V("threads")))
        decide_any(ck, "assembly", s, t, want, "S2 = trivial + easy + hard leaves of the same x, y, z, c")


def legendre(ck):
    for fn in [f for f in ck.prog.fns(q="primesum::pi_legendre") if f.body is not None and len(f.params) == 2]:
        s = site(fn)
        g = gvn.GVN(ck.prog, opaque={"phi", "isqrt", "pi_primesieve"}, opaque_pred=lambda f: f.name == "pi_legendre")
        try:
            g.run(fn, names=["x", "threads"])
        except gvn.Unsupported as e:
            ck.und("assembly", s, str(e))
            continue
        t = g.retval
        ph = top_call(t, "phi")
        if not ph:
            ck.und("assembly", s, "phi")
            continue
        a = ph[0].args[2]
        want = ite(lt(X, C(2)), ZERO, sub(add(ph[0], a), ONE))
        decide_any(ck, "assembly", s, t, want, "pi(x) = phi(x, a) + a - 1")
        decide_any(ck, "assembly", s, ph[0].args[1], X, "phi of x")
        rec = [x for x in subterms(a) if x.op == "call" and x.args[0].split("::")[-1] == "isqrt"]
        ok = rec and a.op == "call" and a.args[1] is rec[0] and rec[0].args[1] is X
        ck.cond("assembly", s, bool(ok) or None, "a = pi(sqrt x)", "")


# ------------------------------------------------------------ trivial leaves
def trivial(ck):
    for fn in ck.prog.fns(name="S2_trivial_OpenMP"):
        if fn.body is None:
            continue
        s = site(fn)
        try:
            g = master(ck, fn, names=["x", "y", "z", "c", "prime_sums", "threads"])
            L, N = g.L, Norm(["x", "y", "z", "c", "prime_sums"])
            cons, rest = contributions(L, g.retval)
        except (gvn.Unsupported, Unknown, RecursionError) as e:
            ck.und("trivial-leaves", s, str(e))
            continue
        decide_any(ck, "sum-start", s, rest, ZERO, "the sum of the trivial leaves starts at 0")
        for con in cons:
            inc = N(con.inc)
            I = L.info[con.path[-1]]
            pr = [x for x in subterms(inc) if x.op == "call" and x.args[0].endswith("next_prime")] or [p for n, p in I["phi"].items() if I["next"].get(n) is not None and I["next"][n].op == "call" and I["next"][n].args[0].endswith("next_prime")]
            pr = sorted(set(pr), key=lambda x: x.id)
            if len(pr) != 1:
                ck.und("trivial-leaves", s, "loop over the primes")
                continue
            p = pr[0]
            inc = subst(inc, {p: V("prime")})
            prime = V("prime")
            want = mul(prime, sub(idx(PSUMS, pi(Y)), idx(PSUMS, pi(tmax(prime, div(X, mul(prime, prime)))))))
            want2 = mul(prime, sub(idx(PSUMS, pi(Y)), idx(PSUMS, pi(tmax(prime, div(div(X, prime), prime))))))
            ok, w = same(inc, want)
            if not ok:
                ok, w = same(inc, want2)
            if ok:
                ck.ok("trivial-leaves", s, "prime * (sum of the primes in (max(x/p^2, p), y])")
            elif ok is False and known_words(inc, WORDS | {"prime"}):
                ck.viol("trivial-leaves", s, "the trivial leaves of a prime add %s, required is %s" % (short(inc, 240), short(want, 200)))
            else:
                ck.und("trivial-leaves", s, "value %s" % short(inc, 160))


# ------------------------------------------------------------ partial sieve sums
def run_fn(ck, fn, names, opaque):
    g = gvn.GVN(ck.prog, opaque=OPQ | set(opaque), opaque_pred=pred())
    g.opaque.discard(fn.q)
    g.run(fn, names=names)
    g.L = Loops(g)
    return g


def base_name(t):
    return t.args[0].split("::")[-1].split("<")[0] if isinstance(t, T) and t.op == "call" else None


def rec_events(ck, g, names):
    out = []
    for e in g.events:
        if e.k == "call" and e.a["q"].split("::")[-1].split("<")[0] in names:
            out.append(e)
    return out


REC = mk("var", "recursion")


def callee_key(e):
    d = e.a.get("decl")
    return d.key if d is not None else None


def phi_sums(ck):
    """phi_sum128 and phi_sum256 follow one recursion: phi(x, a) = phi(x, a-1) -
    prime * phi(x / prime, a-1), phi(x, 0) = 1 + 2 + ... + x; the sign of a
    template instance alternates with the depth of the recursion"""
    names = ("phi_sum128", "phi_sum256")
    sign, gs = {}, {}
    x, a = V("x"), V("a")
    for nm in names:
        for fn in ck.prog.fns(name=nm):
            if fn.body is None:
                continue
            s = "%s %s [%s]" % (nm, fn.line, fn.key[-60:])
            try:
                g = run_fn(ck, fn, ["x", "a", "primes"], set(names) | {"fast_div"})
            except gvn.Unsupported as e:
                ck.und("phi-recursion", s, str(e))
                continue
            L = g.L
            N = Norm(["primes"], L)
            ret = N(g.retval)
            ph = [(I, n, p) for I in L.info.values() for n, p in I["phi"].items()]
            av = [p for I, n, p in ph if I["init"].get(n) is V("a")]
            sv = [(I, n, p) for I, n, p in ph if I["init"].get(n) is ZERO and p in subterms(ret)]
            if len(av) != 1 or len(sv) != 1:
                ck.und("phi-recursion", s, "loop over the primes")
                continue
            ap = av[0]
            I, n, sp = sv[0]
            pr = idx(PRIMES, ap)
            tri = shr(mul(x, add(x, ONE)), ONE)
            # x = prime may stop here or at any later level: phi is 1 either way
            hit = [sg for sg in (1, -1) if any(same(ret, ite(land(lt(ZERO, ap), st), add(sp, C(sg)), add(sp, mul(C(sg), tri))), assume=[le(ONE, x)])[0] for st in (le(x, pr), lt(x, pr)))]
            if len(hit) != 1:
                if known_words(ret, WORDS | {"a"}):
                    ck.viol("phi-recursion", s, "the recursion ends with %s, required is sum + sign for x <= prime and sum + sign * x(x+1)/2 without primes left" % short(ret, 260))
                else:
                    ck.und("phi-recursion", s, "end of the recursion: %s" % short(ret, 200))
                continue
            sign[fn.key], gs[fn.key] = hit[0], (g, s, L, N, ap, sp, I, n, pr)
            ck.ok("phi-recursion", s, "ends with sign %+d" % hit[0])
    x = V("x")
    for k, (g, s, L, N, ap, sp, I, n, pr) in gs.items():
        x2 = div(x, pr)
        inc = sub(N(I["next"][n]), sp)
        mp = {}
        for t in subterms(inc):
            if base_name(t) in names:
                ok = same(t.args[1], x2)[0] and same(t.args[2], sub(ap, ONE))[0]
                if ok:
                    mp[t] = REC
                else:
                    ck.viol("phi-recursion", s, "the recursion continues with %s, required is phi(x / prime, a - 1)" % short(t, 160))
        decide_any(ck, "phi-recursion", s, subst(inc, mp), mul(pr, REC), "prime * phi(x / prime, a - 1) is added with the opposite sign")
        decide_any(ck, "phi-recursion", s, N(I["next"][phi_name(L, ap)]), sub(ap, ONE), "every prime once")
        for e in rec_events(ck, g, names):
            ck_ = callee_key(e)
            if ck_ not in sign:
                ck.und("phi-recursion", s, "instance called at %s" % e.line)
            else:
                ck.cond("phi-recursion", s + " " + e.line, sign[ck_] == -sign[k], "the next level has the opposite sign", "the next level of the recursion has the same sign")
    for fn in ck.prog.fns(q="primesum::phi_sum"):
        if fn.body is None or len(fn.params) != 2:
            continue
        s = site(fn)
        g = run_fn(ck, fn, ["x", "a"], set(names) | {"phi_sum"})
        mp, ret = {}, g.retval
        for t in subterms(ret):
            if base_name(t) in names or base_name(t) == "phi_sum":
                decide_any(ck, "phi-recursion", s, t.args[1], V("x"), "phi of x")
                decide_any(ck, "phi-recursion", s, t.args[2], V("a"), "phi for the first a primes")
                if len(t.args) > 3:
                    for q in subterms(t.args[3]):
                        if base_name(q) == "generate_n_primes":
                            decide_any(ck, "phi-recursion", s, q.args[1], V("a"), "the first a primes are generated")
                mp[t] = REC
        ret = subst(ret, mp)
        ok = same(ret, REC, assume=[le(ONE, V("x"))])[0]
        ck.cond("phi-recursion", s, ok or (None if REC not in subterms(ret) else False), "one of the equivalent recursions", "phi_sum returns %s" % short(ret, 160))
        for e in rec_events(ck, g, names):
            k = callee_key(e)
            if k in sign:
                ck.cond("phi-recursion", s + " " + e.line, sign[k] == 1, "starts with sign +", "the recursion starts with sign -")


def ordinary(ck):
    """S1: the sum of mu(n) n phi(x/n, c) over the square-free n <= y without
    prime factors among the first c primes"""
    sign, gs = {}, {}
    for fn in ck.prog.fns(name="S1_OpenMP_thread"):
        if fn.body is None:
            continue
        s = "%s %s [%s]" % (fn.name, fn.line, fn.key[-70:])
        try:
            g = run_fn(ck, fn, ["x", "y", "b", "c", "square_free", "primes"], {"S1_OpenMP_thread", "phi_sum"})
        except gvn.Unsupported as e:
            ck.und("ordinary-leaves", s, str(e))
            continue
        L = g.L
        N = Norm(["primes"], L)
        try:
            cons, rest = contributions(L, g.retval)
        except Unknown as e:
            ck.und("ordinary-leaves", s, str(e))
            continue
        decide_any(ck, "ordinary-leaves", s, rest, ZERO, "sum starts at 0")
        if len(cons) != 1:
            ck.und("ordinary-leaves", s, "%d contributions" % len(cons))
            continue
        con = cons[0]
        I = L.info[con.path[0]]
        inc = N(con.inc)
        bs = [p for p in own_phis(L, N, con.path[0]) if idx(PRIMES, p) in subterms(inc)]
        if len(bs) != 1:
            ck.und("ordinary-leaves", s, "loop over the primes")
            continue
        b = bs[0]
        nb = phi_name(L, b)
        decide_any(ck, "ordinary-leaves", s, I["init"][nb], add(V("b"), ONE), "primes behind the last factor")
        decide_any(ck, "ordinary-leaves", s, N(I["next"][nb]), add(b, ONE), "every prime once")
        n = mul(V("square_free"), idx(PRIMES, b))
        mp = {}
        for t in subterms(inc):
            if base_name(t) == "S1_OpenMP_thread":
                for k, v in zip(range(1, 6), (X, Y, b, CC, n)):
                    decide_any(ck, "ordinary-leaves", s, t.args[k], v, "argument %d of the recursion" % k)
                mp[t] = REC
        ps = [t for t in subterms(inc) if base_name(t) == "phi_sum"]
        if len(ps) != 1:
            ck.und("ordinary-leaves", s, "phi_sum")
            continue
        w = mul(n, mk("call", ps[0].args[0], div(X, n), CC))
        got = subst(inc, mp)
        hit = [sg for sg in (1, -1) if same(got, add(REC, mul(C(sg), w)))[0]]
        if len(hit) != 1:
            if known_words(got, WORDS | {"phi_sum", "square_free", "b", "recursion"}):
                ck.viol("ordinary-leaves", s, "a leaf n adds %s, required is mu(n) * n * phi(x / n, c) + the leaves that contain n" % short(got, 240))
            else:
                ck.und("ordinary-leaves", s, "a leaf n adds %s" % short(got, 200))
            continue
        ck.ok("ordinary-leaves", s, "mu(n) * n * phi(x / n, c) with mu(n) = %+d" % hit[0])
        sign[fn.key], gs[fn.key] = hit[0], (g, s)
        # the loop stays below the end of the primes and while n <= y
        st = N(stay(I))
        conj = [q for q in (st.args if st.op == "land" else (st,)) if idx(PRIMES, b) in subterms(q)]
        decide(ck, "ordinary-leaves", s, land(*conj) if conj else ONE, le(n, Y), "the leaves are the n up to y: the loop continues while", (), WORDS | {"square_free", "b"})
    for k, (g, s) in gs.items():
        for e in rec_events(ck, g, ("S1_OpenMP_thread",)):
            q = callee_key(e)
            if q in sign:
                ck.cond("ordinary-leaves", s, sign[q] == -sign[k], "mu changes its sign with every further prime factor", "mu does not change its sign with a further prime factor")
            else:
                ck.und("ordinary-leaves", s, "instance of the recursion")
    for fn in ck.prog.fns(name="S1_OpenMP_master"):
        if fn.body is None:
            continue
        s = site(fn) + " [%s]" % fn.key[-50:]
        try:
            g = run_fn(ck, fn, ["x", "y", "c", "threads"], {"S1_OpenMP_thread", "phi_sum"})
            L = g.L
            N = Norm([], L, gen=True)
            cons, rest = contributions(L, g.retval)
        except (gvn.Unsupported, Unknown) as e:
            ck.und("ordinary-leaves", s, str(e))
            continue
        rest = N(rest)
        ok = base_name(rest) == "phi_sum" and rest.args[1] is X and rest.args[2] is CC
        ck.cond("ordinary-leaves", s, ok or (False if known_words(rest, WORDS | {"phi_sum"}) else None), "the leaf n = 1 adds phi(x, c)", "the sum starts with %s, required is phi(x, c)" % short(rest, 120))
        if len(cons) != 1 or not ok:
            ck.und("ordinary-leaves", s, "%d contributions" % len(cons))
            continue
        con = cons[0]
        inc = N(con.inc)
        bs = [p for p in own_phis(L, N, con.path[0]) if idx(PRIMES, p) in subterms(inc)]
        if len(bs) != 1:
            ck.und("ordinary-leaves", s, "loop over the primes")
            continue
        b = bs[0]
        pr = idx(PRIMES, b)
        nb = phi_name(L, b)
        decide_any(ck, "ordinary-leaves", s, L.info[b.args[0]]["init"][nb], add(CC, ONE), "the smallest prime factor of a leaf is at least the prime behind the first c")
        decide_any(ck, "ordinary-leaves", s, N(L.info[b.args[0]]["next"][nb]), add(b, ONE), "every prime once")
        mp = {}
        for t in subterms(inc):
            if base_name(t) == "S1_OpenMP_thread":
                for k, v in zip(range(1, 6), (X, Y, b, CC, pr)):
                    decide_any(ck, "ordinary-leaves", s, t.args[k], v, "argument %d of the recursion" % k)
                mp[t] = REC
        want = sub(REC, mul(pr, mk("call", rest.args[0], div(X, pr), CC)))
        decide_any(ck, "ordinary-leaves", s, subst(inc, mp), want, "a prime p adds -p * phi(x / p, c) + the leaves with smallest prime factor p")
        for e in rec_events(ck, g, ("S1_OpenMP_thread",)):
            q = callee_key(e)
            if q in sign:
                ck.cond("ordinary-leaves", s, sign[q] == 1, "two prime factors: mu = +1", "numbers with two prime factors enter with mu = -1")


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    else:
        yield x


def stay(I):
    """the condition under which a loop enters its next iteration"""
    c = [I["cond"]] if isinstance(I["cond"], T) else []
    for br in I["breaks"]:
        b = [t for t in br if isinstance(t, T)]
        b = [t for t in b if t not in c]
        c.append(bnot_(land(*b)) if b else ZERO)
    return land(*c) if c else ONE


def second_sieve(ck):
    """P2: a prime p in (y, sqrt x] adds p * (sum of the primes in [p, x/p])"""
    for fn in ck.prog.fns(name="P2_OpenMP_thread"):
        if fn.body is None:
            continue
        s = site(fn)
        try:
            g = master(ck, fn, names=["x", "y", "z", "thread_distance", "thread_num", "low", "prime_sum", "correct"])
            L = g.L
            cons, rest = contributions(L, g.retval)
            outs = {}
            for nm in ("prime_sum", "correct"):
                v = g.final.mem.get(("P", nm))
                outs[nm] = contributions(L, v) if isinstance(v, T) else None
        except (gvn.Unsupported, Unknown) as e:
            ck.und("p2-terms", s, str(e))
            continue
        decide_any(ck, "p2-terms", s, rest, ZERO, "sum starts at 0")
        isq = mk("call", "primesum::isqrt", X)
        ind = {}
        for lid, I in L.info.items():
            for n, p in I["phi"].items():
                nx = I["next"].get(n)
                if isinstance(nx, T) and nx.op == "call" and nx.args[0].endswith(("next_prime", "prev_prime")):
                    ind[lid] = (p, "f" if nx.args[0].endswith("next_prime") else "b")
        lo = add(V("low"), mul(V("thread_distance"), V("thread_num")))
        hi = tmin(add(lo, V("thread_distance")), V("z"))
        outer = []
        for lid, (p, d) in ind.items():
            if d == "b":
                outer.append(stay(L.info[lid]))
        pos = [le(ONE, v) for v in (X, Y, V("z"), V("low"), V("thread_distance"))] + [le(ZERO, V("thread_num"))]
        for lid, (p, d) in ind.items():
            I = L.info[lid]
            sl = "%s %s" % (fn.name, I["node"].line)
            st = stay(I)
            w = WORDS | {"low", "thread_distance", "thread_num"}
            if d == "b":
                want, what, asm = land(lt(Y, p), lt(div(X, p), hi)), "the primes p > y with x/p in the worker's interval are visited", pos + [le(ONE, p), le(lo, div(X, p))]
            elif I["outer"] and I["outer"][-1] in ind:
                q = ind[I["outer"][-1]][0]
                want, what, asm = le(p, div(X, q)), "the primes up to x/p are summed before p is added", pos + [le(ONE, q)] + outer
            else:
                want, what, asm = lt(p, hi), "the primes of the worker's interval are summed", pos
            decide(ck, "p2-range", sl, st, want, what + " while", asm, w)
        for what, cs in (("P2", (cons, rest)), ("prime_sum", outs["prime_sum"]), ("correct", outs["correct"])):
            if cs is None:
                ck.und("p2-terms", s, what)
                continue
            decide_any(ck, "p2-terms", s, cs[1], ZERO, "%s starts at 0" % what)
            seen = set()
            for con in cs[0]:
                lid = con.path[-1]
                if lid not in ind or (lid, con.inc) in seen:
                    if lid not in ind:
                        ck.und("p2-terms", s, "%s: loop" % what)
                    continue
                seen.add((lid, con.inc))
                p, d = ind[lid]
                I = L.info[lid]
                sl = "%s %s" % (fn.name, I["node"].line)
                pn = next((n for n, q in I["phi"].items() if n == "P:prime_sum"), None)
                gd = land(lt(Y, p), le(p, isq))
                if what == "prime_sum":
                    want = p if d == "f" else ZERO
                elif what == "correct":
                    want = ite(gd, neg(p), ZERO) if d == "f" else p
                elif pn is None:
                    ck.und("p2-terms", sl, "sum of the primes")
                    continue
                else:
                    ps = I["phi"][pn] if d == "f" else I["next"][pn]
                    want = ite(gd, neg(mul(ps, p)), ZERO) if d == "f" else mul(ps, p)
                decide_any(ck, "p2-terms", sl, con.inc, want, {"P2": "p * (sum of the primes <= x/p) - p * (sum of the primes < p)", "correct": "weight of the primes before the worker's interval", "prime_sum": "sum of the primes of the interval"}[what])
            for lid, (p, d) in ind.items():
                if any(x[0] == lid for x in seen) or (what == "prime_sum" and d == "b"):
                    continue
                sl = "%s %s" % (fn.name, L.info[lid]["node"].line)
                if {x[0] for x in seen} and all(con.path[-1] in ind for con in cs[0]):
                    ck.viol("p2-terms", sl, "the primes of this loop add nothing to %s" % what)
                else:
                    ck.und("p2-terms", sl, "contribution to %s" % what)
    for fn in ck.prog.fns(name="P2_OpenMP_master"):
        if fn.body is None:
            continue
        s = site(fn)
        try:
            g = master(ck, fn, names=["x", "y", "threads"], extra=("P2_OpenMP_thread",))
        except gvn.Unsupported as e:
            ck.und("p2-terms", s, str(e))
            continue
        L = g.L
        found = 0
        for lid, I in L.info.items():
            for n, p in I["phi"].items():
                nx = I["next"].get(n)
                if not isinstance(nx, T) or p.op != "phi" or nx.op == "upd":
                    continue
                d = conditional_diff(nx, p)
                if d is None or d is ZERO or d.op in ("ite",):
                    continue
                for i in [q for q in own_phis(L, None, lid) if q in L.lin_map]:
                    cells = [t for t in subterms(d) if t.op == "sel" and t.args[1] == ("i", i)]
                    tot = [q for m in to_poly(d) for q in m if q.op == "phi" and q.args[0] == lid]
                    if len(cells) == 2 and len(tot) == 1 and any(same(d, mul(u, add(tot[0], v)))[0] for u, v in (cells, cells[::-1])):
                        found += 1
                        ck.viol("p2-terms", s, "the weights of an interval are multiplied by the sum of the primes up to the end of the interval, required is the sum of the primes before it")
                        continue
                    if len(cells) == 1 and len(tot) == 1:
                        found += 1
                        decide_any(ck, "p2-terms", s, d, mul(cells[0], tot[0]), "weights of the interval times the sum of the primes before it")
                        tn = phi_name(L, tot[0])
                        dd = conditional_diff(I["next"][tn], tot[0])
                        c2 = [t for t in subterms(dd) if t.op == "sel" and t.args[1] == ("i", i)] if dd is not None else []
                        if len(c2) != 1:
                            ck.und("p2-terms", s, "running sum of the primes")
                        else:
                            decide_any(ck, "p2-terms", s, dd, c2[0], "the running sum grows by the sum of the interval's primes")
                        order(ck, s, L, I, i)
        if not found:
            ck.und("p2-terms", s, "combination of the intervals")


def run(ck):
    ck.rule("assembly", "every algorithm returns S1 + S2 + (sum of the primes up to y) - 1 - P2 with all parts computed for the same x, y, c; Legendre returns phi(x, a) + a - 1")
    ck.rule("definition", "pi_lmo1 adds mu(n) n phi(x/n, c) and -mu(m) m p phi(x/(m p), b-1)")
    ck.rule("easy-leaves", "each variant of S2_easy adds per iteration the defined weight of the leaf or cluster of leaves")
    ck.rule("leaf-range", "each leaf loop stops at the defined bound")
    ck.rule("leaf-start", "each leaf loop starts at the defined leaf or where the previous loop ended")
    ck.rule("cluster-step", "the next cluster of easy leaves starts where the previous one ended")
    ck.rule("trivial-leaves", "trivial leaves of prime p add p * (sum of the primes in (max(x/p^2, p), y])")
    ck.rule("leaf-weight", "hard leaves have weight -mu(m) m p or +q p")
    ck.rule("leaf-guard", "a number is a leaf iff it is square free and its least prime factor exceeds p")
    ck.rule("leaf-order", "the leaves of a prime are visited one by one from above")
    ck.rule("leaf-phi", "the factor of a leaf is phi[b] of the earlier segments + the unsieved numbers of the segment up to x/n")
    ck.rule("mu-sum", "mu_sum[b] collects the weights with which phi enters the sum")
    ck.rule("reconstruct", "workers' weights meet the phi total of all numbers before the worker's interval")
    ck.rule("segment-total", "behind the leaves of prime b, phi[b] grows by the numbers of the segment coprime to the first b-1 primes, whichever way the segment is summed")
    ck.rule("phi-recursion", "phi_sum128 and phi_sum256 compute phi(x, a) = phi(x, a-1) - prime * phi(x/prime, a-1) with alternating sign")
    ck.rule("ordinary-leaves", "S1 adds mu(n) n phi(x/n, c) for every square-free n <= y")
    ck.rule("p2-terms", "P2 adds p * (sum of the primes in [p, x/p]) for the primes p in (y, sqrt x]")
    ck.rule("p2-range", "P2's workers visit the primes p > y with x/p in their interval and sum the primes up to x/p before p is added")
    ck.rule("sum-start", "sums start at 0")
    assemble(ck)
    easy(ck)
    trivial(ck)
    leaf_weights(ck)
    reconstruct(ck)
    phi_sums(ck)
    ordinary(ck)
    second_sieve(ck)
