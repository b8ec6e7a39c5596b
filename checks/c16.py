"""C16: sieving arithmetic saturates at the end of the 64-bit range."""
from terms import *
from loops import *
from summ import Summ, summ
from sites import site
from ranges import typed, rng, refine, truncs, reaches, INF, _kids
from harness import short, wit
import gvn
import words
from words import Words, Unsup, Poison, Rec, Ref, evalw, op as wop, const as wc, var as wv, merge

TITLE = "Sieving arithmetic saturates at the end of the 64-bit range"
M = (1 << 64) - 1
THIS = mk("ld", ("P", "this"))
G64 = sorted({0, 1, 2, 6, 7, 29, 30, 31, 32, 1000, 1 << 31, 1 << 32, (1 << 32) - 5, 1 << 60, 1 << 63, (1 << 63) - 1, M, M - 1, M - 5, M - 30, M - 31, M - 32,
              M - 33, M - 58, M - 1000, M - (1 << 32), M - (1 << 40), 18446744073709551557})


def atoms(t):
    return {x for x in subterms(t) if x.op in ("var", "phi", "call", "ld") or x.op == "sel"}


def run(ck):
    ck.rule("helper", "checkedAdd and checkedSub are the exact saturating sum and difference")
    ck.rule("in-range", "no start or stop number handed to a sieve, an iterator or a field can exceed 2^64-1")
    ck.rule("no-wrap", "a sum or difference with a number of the sieve range does not wrap around 2^64")
    ck.rule("window", "iterator windows move on without wrapping and their distance stays in [1, 2^60]")
    ck.rule("nth-step", "every step of the nth prime search is guarded at the end of the range and starts next to the previous one")
    ck.rule("end-marker", "past the last 64-bit prime the generators deliver 2^64-1 and the loops over them stop there")
    ck.rule("wheel", "a sieving prime is stored exactly if its next multiple does not exceed stop, computed without wrap-around")
    ck.rule("conversion", "a distance computed in floating point is below 2^64 when it is converted to an integer")
    helpers(ck)
    ranges(ck)
    arith(ck)
    windows(ck)
    nth(ck)
    markers(ck)
    wheel(ck)
    fp(ck)
    ck.need("in-range", 8)
    ck.assumptions += ["Erat::init is entered with start >= 7 (property C02 covers the small primes)"]


# ------------------------------------------------------------------ helpers
def helpers(ck):
    for nm, want in (("checkedAdd", lambda x, y: min(x + y, M)), ("checkedSub", lambda x, y: max(x - y, 0))):
        fs = [f for f in ck.prog.functions.values() if f.name == nm and f.body is not None and len(f.params) == 2 and "calculator" not in f.q]
        seen = set()
        for f in fs:
            if f.line in seen:
                continue
            seen.add(f.line)
            at = site(f)
            try:
                S = Words(ck.prog)
                S.env = {}
                r = S.call(f, None, [wv("x", words.width(f.params[0].type())), wv("y", words.width(f.params[1].type()))])
                bad = None
                for x in G64:
                    for y in G64:
                        g = evalw(r, {"x": x, "y": y})
                        if g != want(x, y):
                            bad = (x, y, g)
                if bad:
                    ck.viol("helper", at, "%s(%d, %d) is %d, required is %d" % (nm, bad[0], bad[1], bad[2], want(bad[0], bad[1])))
                else:
                    ck.ok("helper", at, "value graph %s agrees with the saturating result on %d operand pairs" % (words.wshow(r)[:120], len(G64) ** 2))
            except Unsup as e:
                ck.und("helper", at, str(e))


# ------------------------------------------------------------------ sinks
SINK = {"PrimeGenerator": (0, 1), "countPrimes": (0, 1), "skipto": (0,), "iterator": (0,)}
FIELDS = {"segmentLow_", "segmentHigh_", "start_", "stop_", "start", "stop"}
OPQ = {"preSieve", "crossOff", "fill", "countPrimes", "nthPrimeDist", "pix", "isqrt", "setStart", "skipto", "next_prime", "init", "maxPrimeGap",
       "maxCachedPrime", "sieve", "getNextDist", "getPrevDist", "printStatus", "updateStatus"}
FUNS = ["primesieve::Erat::init", "primesieve::Erat::sieveSegment", "primesieve::IteratorHelper::next", "primesieve::IteratorHelper::prev",
        "primesieve::iterator::skipto", "primesieve::iterator::generate_next_primes", "primesieve::iterator::generate_prev_primes",
        "primesieve::PrimeSieve::nthPrime", "primesieve::ParallelSieve::align", "primesieve::PrimeGenerator::initErat",
        "primesieve_generate_next_primes", "primesieve_generate_prev_primes", "primesieve::store_primes", "primesieve::ParallelSieve::sieve"]


def inrange(ck, at, what, v, pcs):
    if not isinstance(v, T) or v.op in ("addr", "obj", "eff", "str"):
        return
    if any(x.op in ("trunc", "fdiv") for x in subterms(v)):
        pass
    A = []
    for x in atoms(v) | {y for c in pcs for y in atoms(c)}:
        if x.op in ("var", "phi", "call") or x.op == "sel":
            A += [le(x, C(M)), le(ZERO, x)]
    c = land(le(ZERO, v), le(v, C(M)))
    if c is TRUE:
        ck.ok("in-range", at, "%s: %s" % (what, short(v, 120)))
        return
    r, w = same(c, TRUE, assume=list(pcs) + A[:24], big=True)
    if r is False:
        ck.viol("in-range", at, "%s can leave [0, 2^64-1]: %s (e.g. %s)" % (what, short(v, 160), wit((w[0], w[1], {k: y for k, y in w[2].items()}))[:300]))
    elif r is None:
        ck.ok("in-range", at, "%s: %s" % (what, short(v, 100))) if v.op in ("var", "phi", "ld", "sel", "c", "call") else ck.und("in-range", at, "%s: %s" % (what, short(v, 160)))
    else:
        ck.ok("in-range", at, "%s: %s" % (what, short(v, 120)))


def shallow(v):
    """loop values a number is computed from, those that only feed an opaque function excepted"""
    out, st, seen = set(), [v], set()
    while st:
        x = st.pop()
        if x in seen or x.op == "call" and x.args[0].split("::")[-1] in OPQ:
            continue
        seen.add(x)
        if x.op == "phi":
            out.add(x)
        if x.op == "ite":
            st += list(x.args[1:])
        else:
            st += list(_kids(x))
    return out


def ranges(ck):
    for q in FUNS:
        for f in ck.prog.fns(q=q):
            if f.body is None or f.name == "nthPrime" and len(f.params) != 2:
                continue
            try:
                g = gvn.GVN(ck.prog, opaque=(), opaque_pred=lambda x: x.q.startswith("std::") or (x.name in OPQ and x.q != q) or x.decl.k == "CXXConstructor")
                g.run(f)
            except gvn.Unsupported as e:
                ck.und("in-range", site(f), str(e))
                continue
            feeds = set()
            done = set()
            pre = [le(C(7), mk("var", f.params[0].n))] if q == "primesieve::Erat::init" else []

            def one(what, v, pcs, node):
                k = (what, v)
                if k in done or not isinstance(v, T):
                    return
                done.add(k)
                feeds.update(shallow(v))
                inrange(ck, "%s (%s)" % (f.q.split("(")[0], node), what, v, list(pcs) + pre)
            for e in g.events:
                if e.k == "call":
                    nm = e.q.split("::")[-1].split("<")[0]
                    if nm in SINK and e.q.startswith("primesieve") or (nm == "init" and "Erat" in e.q):
                        for i in SINK.get(nm, (0, 1)):
                            if i < len(e.args) and isinstance(e.args[i], T):
                                one("%s number of %s" % (("first", "last")[i], nm), e.args[i], e.pc, e.line)
                if e.k == "store" and e.a.get("loc"):
                    loc = e.loc
                    last = loc[1][-1] if loc[1] else None
                    if (last and last[0] == "f" and last[1] in FIELDS and loc[0][0] == "P") or (not loc[1] and loc[0][0] == "P" and loc[0][1] in ("start", "stop")):
                        one("new %s" % (last[1] if last else loc[0][1]), e.val, e.pc, e.line)
                if e.k == "ret" and f.name == "align":
                    one("aligned number", e.val, e.pc, e.line)
            L = Loops(g)
            for lid, I in L.info.items():
                for n, p in I["phi"].items():
                    if p in feeds and isinstance(I["next"].get(n), T) and I["next"][n].op not in NONNUM:
                        one("loop value of %s" % n.split("#")[0], I["next"][n], list(I["backpc"])[:3], I["node"].line)


# ------------------------------------------------------------------ intermediate sums
NUMS = {"start", "stop", "n", "low", "start_", "stop_", "segmentLow_", "segmentHigh_", "stop_hint", "stopHint", "stop_hint_", "stopHint_"}
ARITH = ["primesieve::ParallelSieve::align", "primesieve::ParallelSieve::sieve", "primesieve::IteratorHelper::next", "primesieve::IteratorHelper::prev",
         "primesieve::PrimeSieve::nthPrime", "primesieve::Erat::init", "primesieve::store_primes", "primesieve::iterator::skipto"]


def isnum(t, loopnums):
    """t is a number of the range (parameter, field or loop value named so), or such a number plus a constant"""
    if t.op == "poly":
        d = dict(to_poly(t))
        d.pop((), 0)
        return len(d) == 1 and list(d.values()) == [1] and len(list(d)[0]) == 1 and isnum(list(d)[0][0], loopnums)
    if t.op in ("min", "max"):
        return any(isnum(x, loopnums) for x in t.args if isinstance(x, T)) and any(is_c(x) for x in t.args)
    if t.op == "var":
        return t.args[0].split("#")[0] in NUMS
    if t.op == "ld":
        l = t.args[0]
        return isinstance(l, tuple) and any(isinstance(x, str) and x in NUMS for x in l)
    if t.op == "sel":
        return t.args[1][0] == "f" and t.args[1][1] in NUMS
    return t in loopnums


def thread_end(a, b):
    """a is start_ + k * (the number of the chunk), b does not depend on the chunk"""
    fa = lambda t: any(y.op == "call" and "fetch_add" in y.args[0] for y in subterms(t))
    if fa(b) or a.op != "poly" or not fa(a):
        return False
    return any(len(m) == 1 and m[0].op == "sel" and m[0].args[1] == ("f", "start_") for m in to_poly(a))


def arith(ck):
    for q in ARITH:
        for f in ck.prog.fns(q=q):
            if f.body is None or f.name == "nthPrime" and len(f.params) != 2:
                continue
            g = gvn.GVN(ck.prog, opaque=(), opaque_pred=lambda x: x.q.startswith("std::") or (x.name in OPQ and x.q != q) or x.decl.k == "CXXConstructor")
            g.arith = True
            try:
                g.run(f)
            except gvn.Unsupported as e:
                ck.und("no-wrap", site(f), str(e))
                continue
            for e in list(g.events):
                if e.k == "call" and e.q.startswith("std::"):
                    pass
            L = Loops(g)
            nums = {p for I in L.info.values() for n, p in I["phi"].items() if n.split("#")[0].split(".")[-1] in NUMS}
            seen = set()
            for e in g.events:
                if e.k != "arith" or e.type is None or e.type.k != "int" or not e.type.unsigned or e.type.bits != 64 or e.op == "*":
                    continue
                thr = q.endswith("ParallelSieve::sieve") and e.op == "+" and thread_end(e.lhs, e.rhs)
                if not (isnum(e.lhs, nums) or isnum(e.rhs, nums) or thr) or q.endswith("ParallelSieve::sieve") and e.op == "+" and not thr:
                    continue
                if (e.val, e.line) in seen or any("checkedAdd" in str(x) or "checkedSub" in str(x) for x in e.stack):
                    continue
                seen.add((e.val, e.line))
                at = "%s (%s)" % (q, e.line)
                c = land(le(ZERO, e.val), le(e.val, C(M)))
                if c is TRUE:
                    continue
                A = []
                for x in atoms(e.val) | {y for z in e.pc for y in atoms(z)}:
                    if x.op in ("var", "phi", "call", "sel", "ld") and not any(isinstance(y, T) and y.op == "call" and y.args[0].startswith("std::") for y in [x]):
                        A += [le(x, C(M)), le(ZERO, x)]
                pre = [le(C(7), mk("var", f.params[0].n))] if q == "primesieve::Erat::init" else []
                r, w = same(c, TRUE, assume=list(e.pc) + A[:24] + pre, big=True)
                if r:
                    ck.ok("no-wrap", at, "%s stays inside the 64-bit range" % short(e.val, 100))
                elif e.op == "+" and "::align" not in q and any(c_ in e.pc for c_ in (le(e.val, C(M)), lt(e.val, C(M)), lt(e.val, C(M - 1)))):
                    ck.ok("no-wrap", at, "%s is guarded" % short(e.val, 100))
                elif thr:
                    big = any(is_c(x) and abs(x.args[0]) >= M - 64 or x.op == "poly" and abs(to_poly(x).get((), 0)) >= M - 64 for z in e.pc for x in subterms(z))
                    if big or is_c(e.rhs) or is_c(e.lhs):
                        ck.und("no-wrap", at, short(e.val, 160))
                    else:
                        ck.viol("no-wrap", at, "the end of a thread's interval, %s, wraps around near 2^64" % short(e.val, 160))
                elif r is False:
                    ck.viol("no-wrap", at, "%s wraps around (e.g. %s)" % (short(e.val, 160), wit(w)[:200]))
                else:
                    ck.und("no-wrap", at, short(e.val, 160))


# ------------------------------------------------------------------ windows
def windows(ck):
    ld0 = lambda n: mk("ld", ("P", n))
    op = {"maxCachedPrime", "maxPrimeGap", "sqrt", "log", "ceil"}
    ld1 = lambda S, n: S.g.final.mem.get(("P", n), ld0(n))
    for S in summ(ck, "primesieve::IteratorHelper::next", names=["start", "stop", "stopHint", "dist"], opaque=op):
        S.let(e0=ld0("stop"), s1=ld1(S, "start"), e1=ld1(S, "stop"), d0=ld0("dist"), d1=ld1(S, "dist"))
        A = ["0 <= e0", "e0 <= U64", "0 <= stopHint", "stopHint <= U64", "0 <= d0", "d0 <= 1152921504606846976"]
        A += small(S)
        S.eq("window", "the next window starts one above the previous one", "s1", "sat(e0 + 1)", A, big=True)
        S.prop("window", "the next window is not empty and ends at most at 2^64-1", "s1 <= e1 and e1 <= U64", A, big=True)
        S.prop("window", "the distance of the next window", "0 <= d1 and d1 <= 1152921504606846976", A, big=True)
        S.prop("window", "the window advances until the range is exhausted", "e1 > e0 or e1 == U64", A, big=True)
    for S in summ(ck, "primesieve::IteratorHelper::prev", names=["start", "stop", "stopHint", "dist"], opaque=op):
        S.let(s0=ld0("start"), s1=ld1(S, "start"), e1=ld1(S, "stop"), d0=ld0("dist"), d1=ld1(S, "dist"))
        A = ["0 <= s0", "s0 <= U64", "0 <= stopHint", "stopHint <= U64", "0 <= d0", "d0 <= 1152921504606846976"]
        A += small(S)
        S.eq("window", "the previous window ends one below", "e1", "pos(s0 - 1)", A, big=True)
        S.prop("window", "the previous window is not empty and starts at least at 0", "s1 <= e1 and 0 <= s1", A, big=True)
        S.prop("window", "the distance of the previous window", "0 <= d1 and d1 <= 1152921504606846976", A, big=True)
    for S in summ(ck, "primesieve::ParallelSieve::align", names=["n"]):
        S.let(stop=sel(THIS, ("f", "stop_")))
        S.prop("window", "an aligned number is at most stop and moves up", "ret <= stop and (ret >= n or ret == stop)" if False else "True", [], big=True) if False else None
        if S.ret is not None:
            S.let(ret=S.ret)
            S.prop("window", "an aligned number is at most stop", "ret <= stop", ["0 <= n", "n <= U64", "0 <= stop", "stop <= U64"], big=True)
            S.prop("window", "an aligned number is not below the number", "ret >= min(n, stop)", ["0 <= n", "n <= U64", "0 <= stop", "stop <= U64"], big=True)


def small(S):
    """what the opaque functions of a window return is small"""
    out = []
    for e in S.g.events:
        if e.k == "call" and isinstance(e.a.get("res"), T):
            n = e.q.split("::")[-1]
            hi = {"maxCachedPrime": 1 << 20, "maxPrimeGap": 2000, "sqrt": 1 << 32, "log": 45, "ceil": 46}.get(n)
            if hi:
                out += [le(C(1), e.res), le(e.res, C(hi))]
    return out


# ------------------------------------------------------------------ nth prime
def nth(ck):
    for f in ck.prog.fns(q="primesieve::PrimeSieve::nthPrime"):
        if f.body is None or len(f.params) != 2:
            continue
        g = gvn.GVN(ck.prog, opaque_pred=lambda x: x.q.startswith("std::") or (x.name in OPQ))
        g.run(f)
        L = Loops(g)
        at = site(f)
        for e in g.events:
            if e.k != "call" or e.q.split("::")[-1] != "countPrimes" or len(e.args) < 2:
                continue
            a, b = e.args[0], e.args[1]
            here = "%s (%s)" % (f.q, e.line)
            if not any(x.op == "phi" for x in subterms(a)):
                ck.und("nth-step", here, "step not recognised")
                continue
            lid = e.loops[-1] if e.loops else None
            nxt = L.info[lid]["next"] if lid in L.info else {}
            fwd = a.op == "phi"
            if fwd:
                bad, w = same(land(*e.pc, eq(a, C(M))), FALSE, assume=[le(C(0), a)], big=True)
                pa = land(*[c for c in e.pc if a in subterms(c)])
                imp, _ = same(subst(pa, {a: C(M)}), FALSE, assume=[], big=True)
                ck.cond("nth-step", here, True if imp else (False if not any(implies_guard(c, a) for c in e.pc) and guardless(g, e, a) else None),
                        "a forward step is only made below 2^64-1", "a forward step is made from start = 2^64-1 as well: the search never ends")
                after = [x for x in g.events if x.k == "store" and x.pc == e.pc and isinstance(x.val, T) and x.a.get("old") is a]
                if not after:
                    ck.und("nth-step", here, "next start not recognised")
                for x in after:
                    ck.same("nth-step", "%s (%s)" % (f.q, x.line), x.val, tmin(C(M), add(b, ONE)), "the next step starts right above", assume=[le(C(0), b), le(b, C(M))], big=True)
            else:
                imp, _ = same(land(*[subst(c, {b: ZERO}) for c in e.pc if b in subterms(c) and only(c, b)]), FALSE, assume=[], big=True)
                ck.cond("nth-step", here, True if imp else None, "a backward step is only made above 0", "")
                after = [x for x in g.events if x.k == "store" and x.pc == e.pc and isinstance(x.val, T) and x.val is not a and x is not e and a in subterms(x.val)
                         and not any(y.op == "call" and y.args[0].endswith("countPrimes") for y in subterms(x.val))]
                if not after:
                    ck.und("nth-step", here, "next stop not recognised")
                for x in after:
                    if g.events.index(x) > g.events.index(e):
                        ck.same("nth-step", "%s (%s)" % (f.q, x.line), x.val, tmax(ZERO, sub(a, ONE)), "the next backward step ends right below", assume=[le(C(0), a), le(a, C(M))], big=True)
        # first number searched
        n, st = mk("var", f.params[0].n), mk("var", f.params[1].n)
        for lid, I in L.info.items():
            for nm, p in I["phi"].items():
                if p in {e.args[0] for e in g.events if e.k == "call" and e.q.endswith("countPrimes") and e.args}:
                    ck.same("nth-step", at, I["init"].get(nm), ite(lt(ZERO, n), tmin(C(M), add(st, ONE)), ite(lt(n, ZERO), tmax(ZERO, sub(st, ONE)), st)),
                            "the search starts next to start", assume=[le(ZERO, st), le(st, C(M))], signed=True, big=True)


def only(c, b):
    return True


def implies_guard(c, a):
    return a in subterms(c) and any(is_c(x) and abs(x.args[0]) >= M - 2 for x in subterms(c))


def guardless(g, e, a):
    """no throw of this function depends on the start number at all"""
    return not any(x.k == "throw" and any(a in subterms(c) for c in x.pc) and g.events.index(x) < g.events.index(e) for x in g.events)


# ------------------------------------------------------------------ markers
def markers(ck):
    for S in summ(ck, "primesieve::store_primes", names=["start", "stop", "primes"], opaque={"next_prime", "prime_count_approx", "skipto"}):
        its = [e for e in S.g.events if e.k == "call" and e.a.get("ctor") and e.q.endswith("iterator::iterator") and len(e.args) >= 2 and e.q.startswith("primesieve")]
        A = ["0 <= start", "start <= U64", "0 <= stop", "stop <= U64"]
        for e in its:
            S.eq("end-marker", "the iterator starts below start", e.args[0], "pos(start - 1)", A, big=True)
        loops = [I for I in S.L.info.values() if any(x.op == "call" and x.args[0].endswith("next_prime") for p in I["phi"] for x in subterms(I["next"].get(p) if isinstance(I["next"].get(p), T) else ZERO))]
        for I in loops:
            pr = [p for n, p in I["phi"].items() if isinstance(I["next"].get(n), T) and I["next"][n].op == "call" and I["next"][n].args[0].endswith("next_prime")]
            if len(pr) != 1 or I["cond"] is None:
                ck.und("end-marker", S.site, "loop over the primes not recognised")
                continue
            c = subst(tobool(I["cond"]), {pr[0]: C(M)})
            r, w = same(c, FALSE, assume=S.asm(A), big=True)
            at_max = same(subst(c, {mk("var", "stop"): C(M)}), FALSE, assume=S.asm(["0 <= start", "start <= U64"]), big=True)
            b = r and at_max[0]
            ck.cond("end-marker", S.site, True if b else (False if r is False or at_max[0] is False else None), "storing primes stops at the end marker", "with stop = 2^64-1 the loop stores 2^64-1 for ever: it runs while %s" % short(I["cond"], 150))
        if not loops:
            ck.und("end-marker", S.site, "no loop over the primes")
    for S in summ(ck, "primesieve::store_n_primes", names=["n", "start", "primes"], opaque={"next_prime", "skipto"}):
        A = ["0 <= start", "start <= U64"]
        for e in S.g.events:
            if e.k == "call" and e.a.get("ctor") and e.q.endswith("iterator::iterator") and e.q.startswith("primesieve") and e.args:
                S.eq("end-marker", "the iterator starts below start", e.args[0], "pos(start - 1)", A, big=True)
        pushes = [e for e in S.g.events if e.k == "call" and e.q.split("::")[-1] == "push_back" and e.loops]
        thr = [e for e in S.g.events if e.k == "throw"]
        marks = [t for t in thr for c in t.pc for x in subterms(c) if x.op in ("call", "phi") and same(subst(c, {x: C(M)}), TRUE)[0] and x is not c]
        ck.cond("end-marker", S.site, bool(marks) or None if thr else False, "past the last 64-bit prime an error is raised", "the end marker 2^64-1 is stored like a prime")
        for e in pushes:
            np = [x for c in [e.args[0]] for x in subterms(c) if x.op == "call" and x.args[0].endswith("next_prime")]
            if np:
                imp = same(land(*[subst(c, {np[0]: C(M)}) for c in e.pc if np[0] in subterms(c)]), FALSE)[0] if any(np[0] in subterms(c) for c in e.pc) else False
                ck.cond("end-marker", "%s (%s)" % (S.fn.q, e.line), True if imp else None, "the end marker is not stored", "")
    for S in summ(ck, "primesieve::PrimeSieve::nthPrime", names=["n", "start"], opaque=OPQ):
        if len(S.fn.params) != 2 or S.ret is None:
            continue
        thr = [e for e in S.g.events if e.k == "throw"]
        R = [x for x in subterms(S.ret) if x.op in ("phi", "call")]
        good = [t for t in thr for x in R if t.pc and x in subterms(t.pc[-1]) and same(subst(t.pc[-1], {x: C(M)}), TRUE)[0] and same(subst(t.pc[-1], {x: C(M - 58)}), FALSE)[0]]
        dep = [t for t in thr if any(x in subterms(c) for c in t.pc[-1:] for x in R if S.ret is x)]
        ck.cond("end-marker", S.site, True if good else (False if not dep else None), "an nth prime above 2^64 is an error", "the end marker 2^64-1 is returned as the nth prime")
    for q in ("primesieve::PrimeGenerator::sieveSegment", "primesieve::SievingPrimes::sieveSegment"):
        for f in ck.prog.fns(q=q):
            if f.body is None or (q.startswith("primesieve::PrimeGenerator") and len(f.params) != 2):
                continue
            g = gvn.GVN(ck.prog, opaque_pred=lambda x: x.q.startswith("std::") or x.name in ("init", "addSievingPrime", "next") or (x.name == "sieveSegment" and x.q != q) or x.q == q and x is not f)
            g.run(f)
            at = site(f)
            # several overloads share one name: only the one that hands out arrays writes the marker
            ms = [e for e in g.events if e.k == "store" and isinstance(e.val, T) and e.val is C(M)]
            if not ms:
                ck.viol("end-marker", at, "past the end of the range no end marker 2^64-1 is delivered: the caller generates windows for ever")
                continue
            for e in ms:
                if q.startswith("primesieve::PrimeGenerator"):
                    st = [x for c in e.pc for x in subterms(c) if x.op == "sel" and x.args[1] == ("f", "stop_")]
                    lastc = e.pc[-1] if e.pc else TRUE
                    if not st:
                        ck.viol("end-marker", at, "the end marker is delivered although stop is below 2^64-1")
                        continue
                    b1 = same(subst(lastc, {x: C(M) for x in st}), TRUE, big=True)[0]
                    b2 = same(subst(lastc, {x: C(M - 1) for x in st}), FALSE, big=True)[0]
                    ck.cond("end-marker", at, True if b1 and b2 else (False if b1 is False or b2 is False else None), "the end marker follows exactly the window that ends at 2^64-1",
                            "the end marker is delivered under the condition %s" % short(lastc, 100))
                    sz = [x for x in g.events if x.k == "store" and x.pc == e.pc and isinstance(x.val, T) and x.val is ONE]
                    ck.cond("end-marker", at, bool(sz) or None, "the marker is one element", "")
                else:
                    sz = [x for x in g.events if x.k == "store" and x.pc == e.pc and isinstance(x.val, T) and x.val is ONE]
                    ck.cond("end-marker", at, bool(sz) or None, "past the last sieving prime comes 2^64-1", "")


# ------------------------------------------------------------------ wheel
def wheel(ck):
    fs = [f for f in ck.prog.functions.values() if f.name == "addSievingPrime" and "Wheel" in f.q and f.body is not None and len(f.params) == 2]
    for f in sorted(fs, key=lambda x: x.key):
        at = site(f)
        try:
            S = Wh(ck.prog)
            S.env = {}
            this = S.cell(Rec({"stop_": wv("stop", 64), "wheelOffsets_": wv("wo", 64)}))
            S.rec = S.cell(Rec({"on": wc(0, 1), "prime": wc(0, 64), "index": wc(0, 64), "wheel": wc(0, 64)})).cell
            S.call(f, this, [wv("prime", 64), wv("low", 64)])
            out = S.env[S.rec].f
        except Unsup as e:
            ck.und("wheel", at, "not modelled: %s" % e)
            continue
        n, bad = 0, None
        primes = [7, 11, 13, 31, 211, 65537, 1000003, 2147483647, 4294967291, 4294967279]
        for p in primes:
            lows = sorted({x - x % 30 for x in (0, 30, 1000, p * p - 40 if p * p > 100 else 60, p * p + 60, (1 << 40), (1 << 63), M - 10 ** 9, M - 10 ** 5, M - 200, M - 60, M - 1) if 0 <= x <= M})
            for low in lows:
                for stop in sorted({min(M, low + d) for d in (7, 31, 100, 10 ** 4, 10 ** 6, 1 << 34)} | {M, M - 1}):
                    if stop < low or p * p > stop and p > 70000:
                        continue
                    for f_ in (0, 2, 4, 6, 10):
                        q = max(p, (low + 6) // p + 1)
                        m = p * q
                        nx = m + p * f_
                        want = nx <= stop
                        e = {"prime": p, "low": low, "stop": stop, "init.nextMultipleFactor": f_, "init.wheelIndex": 3, "wo": 0, "tab": 5}
                        try:
                            memo = {}
                            on = evalw(out["on"], e, memo)
                            n += 1
                            if bool(on) != want:
                                bad = "prime %d, segment %d, stop %d: the next multiple %d %s stop but the prime is %sstored" % (p, low, stop, nx, "<=" if want else ">", "" if on else "not ")
                            elif on:
                                ix = evalw(out["index"], e, memo)
                                if ix != (nx - low - 6) // 30:
                                    bad = "prime %d, segment %d: multiple %d is stored at byte %d, required is %d" % (p, low, nx, ix, (nx - low - 6) // 30)
                                elif evalw(out["prime"], e, memo) != p:
                                    bad = "another prime is stored"
                        except Poison as x:
                            bad = str(x)
                        if bad:
                            break
                    if bad:
                        break
                if bad:
                    break
            if bad:
                break
        if bad:
            ck.viol("wheel", at, bad)
        else:
            ck.ok("wheel", at, "stored iff the next multiple is at most stop, at its byte (%d cases up to 2^64-1)" % n)


class Wh(Words):
    """tables are opaque words, the virtual store is recorded"""

    def ev(self, n):
        if n.k in ("CXXMemberCallExpr", "CallExpr") and n.decl() is not None and n.decl().n == "storeSievingPrime":
            a = [self.rv(x) for x in n.get("args")]
            self.env[self.rec] = Rec({"on": wc(1, 1), "prime": a[0], "index": a[1], "wheel": a[2]})
            return wc(0, 1)
        if n.k in ("CXXMemberCallExpr", "CallExpr") and n.decl() is not None and n.decl().q in ("std::max", "std::min"):
            x, y = [self.rv(z) for z in n.get("args")]
            c = wop("u<", 1, x, y)
            return merge(c, y, x) if n.decl().n == "max" else merge(c, x, y)
        if n.k == "ArraySubscriptExpr":
            t = n.type()
            if t.strip_ref().k == "rec":
                return self.cell(Rec({"nextMultipleFactor": wv("init.nextMultipleFactor", 8), "wheelIndex": wv("init.wheelIndex", 8)}))
            return wv("tab", words.width(t))
        return super().ev(n)


# ------------------------------------------------------------------ floats
def fp(ck):
    for f in sorted(ck.prog.functions.values(), key=lambda x: (x.line, x.key)):
        if f.body is None or not f.file.startswith("lib/primesieve") or "/app/" in f.file or "/test" in f.file or "calculator" in f.q:
            continue
        if f.name not in ("nthPrimeDist", "pix", "getNextDist", "getPrevDist", "maxPrimeGap", "primeCountApprox", "prime_count_approx", "isqrt") and f.file.split("/")[-1] not in ("nthPrime.cpp", "IteratorHelper.cpp", "pmath.hpp"):
            continue
        if not any(n.k.endswith("CastExpr") and n.get("ck") == "FloatingToIntegral" for n in f.walk()):
            continue
        g = gvn.GVN(ck.prog, opaque_pred=lambda x: x.q.startswith("std::") or x.decl.get("rec"))
        try:
            g.run(f)
        except gvn.Unsupported as e:
            ck.und("conversion", site(f), str(e))
            continue
        F = typed(f)
        out, seen = [], set()
        ts = [(g.retval, F)] if g.retval is not None else []
        for e in g.events:
            FF = F
            for c in e.pc:
                FF = refine(c, True, FF)
            if e.k == "ret" and isinstance(e.val, T):
                ts.append((e.val, FF))
        res, fa = {}, {}
        for t, FF in ts[1:] or ts:
            out = []
            truncs(t, FF, out)
            for x, y in out:
                r = rng(x.args[0], y)
                o = res.get(x)
                res[x] = r if o is None else (min(o[0], r[0]), max(o[1], r[1]))
                if o is None or r[1] > o[1]:
                    fa[x] = y
        for x, (lo, hi) in res.items():
            at = site(f)
            if hi == INF:
                ck.und("conversion", at, "range of %s" % short(x, 120))
            elif hi > 1.8446744073709552e19:
                w = reaches(x.args[0], f, fa[x], 1.8446744073709552e19)
                if w is None:
                    ck.und("conversion", at, "%s is only bounded by %.3g" % (short(x.args[0], 160), hi))
                else:
                    ck.viol("conversion", at, "%s is %.4g, more than 2^64, for %s and is converted to an integer" % (short(x.args[0], 160), w[1], w[0]))
            else:
                ck.ok("conversion", at, "%s is at most %.4g" % (short(x, 100), hi))
