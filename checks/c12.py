"""C12: settings and derived tuning values stay inside their legal range."""
from terms import *
from loops import *
from summ import Summ, summ
from sites import site
from harness import short, wit
import gvn
import words
from words import Words, Unsup, Poison, Rec, Ref, evalw, var as wv
from regions import *

TITLE = "Settings and derived tuning values stay inside their legal range"
THIS = mk("ld", ("P", "this"))
SIZES = [-2147483648, -4096, -1, 0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 100, 255, 256, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 3000, 4095, 4096, 4097, 8191, 8192, 65536, 1 << 30, 2147483647]


def pow2floor(v):
    return 1 << (v.bit_length() - 1) if v > 0 else 0


def run(ck):
    ck.rule("setting", "the value in effect is the legal value nearest to the requested one")
    ck.rule("default", "without a legal request the documented default is in effect, and it is legal")
    ck.rule("workers", "every parallel region is entered with at least one and never more than the useful number of workers")
    ck.rule("sizes", "interval, segment and table sizes are positive and inside their range")
    ck.rule("percent", "a displayed percentage is between 0 and 100")
    ck.rule("alpha", "the tuning factor is in [1, x^(1/6)] and a legal request is taken over")
    threads(ck)
    sizes(ck)
    precision(ck)
    alpha(ck)
    percent(ck)
    workers(ck)
    balance(ck)
    pow2(ck)


def gmem(S, name):
    """final value of the namespace-scope variable `name`"""
    r = [v for k, v in S.g.final.mem.items() if k[0] == "G" and ("%d%sE" % (len(name), name) in k[1] or k[1].split("::")[-1] == name)] if S.g.final is not None else []
    return r


def gread(t, name):
    return [x for x in subterms(t) if x.op == "ld" and x.args[0][0] == "G" and ("%d%sE" % (len(name), name) in x.args[0][1] or x.args[0][1].split("::")[-1] == name)]


def calls_of(t, name):
    return [x for x in subterms(t) if x.op == "call" and x.args[0].split("::")[-1] == name]


def written(S):
    return [(k, v) for k, v in (S.g.final.mem if S.g.final is not None else {}).items() if k[0] == "G"]


# ------------------------------------------------------------------ threads
def threads(ck):
    for S in summ(ck, "primesum::set_num_threads", names=["threads"], opaque={"getMaxThreads"}, keep=("primesieve::set_num_threads",)):
        for k, v in written(S):
            mx = calls_of(v, "omp_get_max_threads") + calls_of(v, "getMaxThreads")
            mx = sorted(set(mx), key=lambda x: x.id)
            if "primesieve" in k[1] or len(mx) != 1:
                continue
            S.let(mx=mx[0])
            S.eq("setting", "number of threads", v, "max(1, min(threads, mx))", ["mx >= 1"], signed=True)
        if not written(S):
            ck.viol("setting", S.site, "the number of threads is not stored")
        sub_ = [v for k, v in written(S) if "primesieve" in k[1]]
        for v in sub_:
            mx = sorted(set(calls_of(v, "omp_get_max_threads") + calls_of(v, "getMaxThreads")), key=lambda x: x.id)
            S.prop("setting", "primesieve uses at least one and at most the requested number of threads", land(le(ONE, v), le(v, tmax(ONE, mk("var", "threads")))), [le(ONE, m) for m in mx], signed=True)
    for q in ("primesieve::set_num_threads", "primesieve::ParallelSieve::setNumThreads"):
        for S in summ(ck, q, names=["threads"], opaque={"getMaxThreads"}):
            vs = [v for k, v in written(S)]
            if q.endswith("setNumThreads"):
                vs = [S.field("numThreads_")]
            if len(vs) != 1:
                ck.und("setting", S.site, "stored value not recognised")
            for v in vs:
                mx = calls_of(v, "getMaxThreads")
                if not mx:
                    S.prop("setting", "number of threads", land(le(ONE, v)), signed=True)
                    ck.cond("setting", S.site, None if any(x.op in ("call", "ld", "sel") for x in subterms(v)) else False, "", "the number of threads is limited to %s instead of the number of processors" % short(v, 60))
                    continue
                S.let(mx=mx[0])
                S.eq("setting", "number of threads", v, "max(1, min(threads, mx))", ["mx >= 1"], signed=True)
    for S in summ(ck, "primesieve::ParallelSieve::getMaxThreads"):
        S.let(r=S.ret)
        S.prop("default", "the maximum number of threads is at least 1", "r >= 1", signed=True)
    for q in ("primesum::get_num_threads", "primesieve::get_num_threads"):
        for S in summ(ck, q, opaque={"getMaxThreads"}):
            if S.ret is None:
                continue
            S.let(r=S.ret)
            g = gread(S.ret, "threads_") + gread(S.ret, "num_threads")
            A = [le(ZERO, x) for x in g] + [le(ONE, x) for x in calls_of(S.ret, "getMaxThreads")]
            S.prop("default", "the number of threads is at least 1", "r >= 1", A, signed=True)
            for x in g[:1]:
                S.eq("setting", "a number of threads that was set is in effect", S.ret, ite(lt(ZERO, x), x, S.ret), A, signed=True)
    for S in summ(ck, "primesum::ideal_num_threads", names=["threads", "limit", "threshold"]):
        S.eq("setting", "ideal number of threads", S.ret, "max(1, min(threads, limit // max(1, threshold)))", ["limit >= 0"], signed=True)
    for S in summ(ck, "primesieve::ParallelSieve::idealNumThreads", opaque={"isqrt"}):
        S.let(r=S.ret, nt=sel(THIS, ("f", "numThreads_")), start=sel(THIS, ("f", "start_")), stop=sel(THIS, ("f", "stop_")))
        S.prop("workers", "ideal number of threads is in [1, number of threads]", "1 <= r and r <= nt", ["nt >= 1"])
        S.prop("workers", "a thread is given at least 10^7 numbers", "r == 1 or r * 10000000 <= stop - start", ["nt >= 1"], big=True)
    for S in summ(ck, "primesieve::ParallelSieve::getThreadDistance", names=["threads"], opaque={"isqrt"}):
        S.let(r=S.ret, start=sel(THIS, ("f", "start_")), stop=sel(THIS, ("f", "stop_")))
        S.prop("sizes", "thread distance is a positive multiple of 30 of at least 10^7", "r >= 10000000 and r % 30 == 0", ["threads >= 1", "start < stop"])
        S.prop("sizes", "enough intervals for all threads unless they become too small", "r <= 10000030 or (r - 31) * threads <= stop - start + threads", ["threads >= 1", "start < stop"])


# ------------------------------------------------------------------ sieve sizes
def wordsetter(ck, q, get, want, rule="setting", argw=32, what="", signed=True):
    """evaluate a one-argument integer setter on the exact word level"""
    for f in ck.prog.fns(q=q):
        if f.body is None or len(f.params) != 1:
            continue
        at = site(f)
        try:
            S = WW(ck.prog)
            S.env = {}
            this = None
            if f.is_method if hasattr(f, "is_method") else f.decl.get("rec"):
                this = S.cell(Rec({}))
            S.call(f, this, [wv("x", words.width(f.params[0].type()))])
            out = get(S, this)
            bad, n = None, 0
            for x in SIZES:
                if x < 0 and not signed:
                    continue
                g = evalw(out, {"x": x & ((1 << words.width(f.params[0].type())) - 1)})
                n += 1
                if g != want(x):
                    bad = bad or (x, g, want(x))
            if bad:
                ck.viol(rule, at, "%s: for the request %d the value in effect is %d, required is %d" % ((what,) + bad))
            else:
                ck.ok(rule, at, "%s agrees on %d requests" % (what, n))
        except (Unsup, Poison) as e:
            ck.und(rule, at, "%s: %s" % (what, str(e)[:200]))


class WW(Words):
    """word evaluation with namespace-scope variables"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.globals, self.gname = {}, {}


def sizes(ck):
    legal = lambda x: pow2floor(max(8, min(x, 4096)))
    wordsetter(ck, "primesieve::PrimeSieve::setSieveSize", lambda S, t: S.env[t.cell].f["sieveSize_"], legal, what="sieve size in KiB")
    for q, w in (("primesieve::set_sieve_size", "sieve size in KiB"),):
        wordsetter(ck, q, lambda S, t: glob(S, "sieve_size"), legal, what=w)
    for S in summ(ck, "primesieve::Erat::initSieve", names=["size"], opaque={"floorPow2"}):
        v = S.field("sieveSize_")
        fp = calls_of(v, "floorPow2")
        if not fp:
            ck.und("sizes", S.site, "sieve size in bytes not recognised: " + short(v, 120))
            continue
        S.let(v=v, fp=fp[0])
        S.prop("sizes", "sieve size in bytes is a multiple of 1 KiB in [8 KiB, 4 MiB]", "8192 <= v and v <= 4194304 and v % 1024 == 0", ["fp >= 0", "fp <= size", "size < 8796093022208"])
        ck.cond("sizes", S.site, same(subst(v, {fp[0]: C(256)}), C(256 * 1024))[0] if fp[0].args[1] is mk("var", "size") else None, "a legal sieve size in KiB is taken over", "sieve size 256 KiB becomes %s bytes" % short(subst(v, {fp[0]: C(256)}), 60))
        al = [e for e in S.g.events if e.k == "new"]
        for e in al:
            n = e.a.get("size") or e.a.get("n")
            if isinstance(n, T):
                S.eq("sizes", "the sieve array has the size that is used", n, v)
    for S in summ(ck, "primesieve::Erat::getL1CacheSize"):
        S.let(r=S.ret, ss=sel(THIS, ("f", "sieveSize_")))
        S.prop("sizes", "the inner segment size is in [8 KiB, sieve size]", "8192 <= r and r <= ss", ["8192 <= ss", "ss <= 4194304"])
    for S in summ(ck, "primesieve::get_sieve_size"):
        if S.ret is None:
            continue
        g = gread(S.ret, "sieve_size")
        for x in g[:1]:
            S.eq("setting", "a sieve size that was set is in effect", S.ret, ite(lt(ZERO, x), x, S.ret), [le(ZERO, x)])


def glob(S, name):
    r = [v for k, v in S.gname.items() if k == name]
    if len(r) != 1:
        raise Unsup("variable %s is not written" % name)
    return S.load(r[0])


def pow2(ck):
    fs, seen = [f for f in ck.prog.functions.values() if f.name in ("floorPow2", "next_power_of_2", "prev_power_of_2", "numberOfBits", "ilog2", "ilog") and f.body is not None], set()
    for f in sorted(fs, key=lambda x: (x.file, x.line, x.key)):
        if f.name not in ("floorPow2", "next_power_of_2", "prev_power_of_2"):
            continue
        t = f.params[0].type().strip_ref()
        if t.k != "int" or (f.line, t.bits, t.unsigned) in seen:
            continue
        seen.add((f.line, t.bits, t.unsigned))
        want = (lambda x: 1 << (x - 1).bit_length() if x > 1 else 1) if f.name.startswith("next") else (lambda x: pow2floor(x))
        at = site(f)
        try:
            S = Words(ck.prog)
            S.env = {}
            r = S.call(f, None, [wv("x", t.bits)])
            top = (1 << t.bits - 1) - 1 if f.name.startswith("next") else (1 << t.bits - (0 if t.unsigned else 1)) - 1
            pts = sorted({y for k in range(t.bits) for y in ((1 << k) - 1, 1 << k, (1 << k) + 1, 3 << max(k - 1, 0)) if 1 <= y <= top and want(y) <= top})
            bad = None
            for x in pts:
                g = evalw(r, {"x": x})
                if g != want(x):
                    bad = bad or (x, g, want(x))
            if bad:
                ck.viol("sizes", at, "%s(%d) is %d, required is %d" % ((f.name,) + bad))
            else:
                ck.ok("sizes", at, "%s is exact at all %d points next to powers of two" % (f.name, len(pts)))
        except (Unsup, Poison) as e:
            ck.und("sizes", at, str(e)[:160])


# ------------------------------------------------------------------ precision
def precision(ck):
    for S in summ(ck, "primesum::set_status_precision", names=["p"]):
        w = written(S)
        if len(w) != 1:
            ck.und("setting", S.site, "stored value not recognised")
        for k, v in w:
            S.eq("setting", "status precision", v, "max(0, min(p, 5))", signed=True)
    for S in summ(ck, "primesum::get_status_precision", names=["x"]):
        g = gread(S.ret, "status_precision_")
        if not g:
            ck.und("setting", S.site, "precision not recognised")
            continue
        S.let(r=S.ret, g=g[0])
        S.prop("setting", "status precision is in [0, 5]", "0 <= r and r <= 5", ["g >= 0 - 1", "g <= 5"], signed=True)
        S.eq("setting", "a status precision that was set is in effect", "r", "g", ["g >= 0", "g <= 5"], signed=True)


# ------------------------------------------------------------------ alpha
def fcl(a, v, b):
    """clamp of a floating-point value"""
    return ite(mk("flt", v, a), a, ite(mk("flt", b, v), b, v))


def alpha(ck):
    for q in ("primesum::get_alpha_lmo", "primesum::get_alpha_deleglise_rivat"):
        for S in summ(ck, q, names=["x"], opaque={"iroot", "get_alpha"}):
            r = S.ret
            ir = [x for x in subterms(r) if x.op == "call" and "iroot" in x.args[0]]
            ga = calls_of(r, "get_alpha")
            if len(set(ir)) != 1 or not ga:
                ck.und("alpha", S.site, "tuning factor not recognised: " + short(r, 160))
                continue
            ir, ga = ir[0], ga[0]
            keys = {e.key for e in S.g.events if e.k == "call" and e.a.get("res") is ir}
            ck.cond("alpha", S.site, any("iroot" in str(k) and "ILi6E" in str(k) for k in keys) if keys and all("irootILi" in str(k) for k in keys) else None, "the upper limit is the 6th root of x", "the upper limit is another root: %s" % keys)
            bad = n = None
            import random
            rnd = random.Random(1)
            import ranges
            n = 0
            for a in (0.0, 0.5, 0.999, -1.0, 1.0, 1.5, 2.0, 7.25, 10.0, 1000.0, 1e9, -5.0, 99.5):
                for x, root in ((1, 1), (10, 1), (63, 1), (64, 2), (10 ** 6, 10), (10 ** 12, 100), (10 ** 18, 1000), (10 ** 24, 10 ** 4), (10 ** 29, 68129)):
                    m = {}
                    env = {ga: a, ir: root, mk("var", "x"): x, mk("ld", ("P", "x")): x}
                    v = ranges.feval(r, env, m)
                    if v is None:
                        continue
                    n += 1
                    if not (1 <= v <= root):
                        bad = bad or "for x = %d and the request %s the tuning factor is %s, outside [1, %d]" % (x, a, v, root)
                    elif a >= 1 and v != min(max(1, a), root):
                        bad = bad or "for x = %d the request %s is replaced by %s" % (x, a, v)
            if bad:
                ck.viol("alpha", S.site, bad)
            elif n:
                ck.ok("alpha", S.site, "in [1, x^(1/6)] and equal to a legal request: %s (%d cases)" % (short(r, 100), n))
            else:
                ck.und("alpha", S.site, "value graph has no numeric reading")
    for S in summ(ck, "primesum::set_alpha", names=["a"]):
        w = written(S)
        ck.cond("setting", S.site, len(w) == 1 and w[0][1] is mk("var", "a") or (None if w else False), "the requested tuning factor is stored", "the requested tuning factor is not stored")


# ------------------------------------------------------------------ percent
def percent(ck):
    import ranges
    for f in sorted(ck.prog.functions.values(), key=lambda x: (x.file, x.line, x.key)):
        if f.name not in ("get_percent", "skewed_percent") or f.body is None:
            continue
        S = Summ(ck, f, names=["low", "limit"], opaque={"x"})
        r = S.ret
        bad, n = None, 0
        for lo in (0, 1, 5, 50, 99, 100, 101, 1000, 10 ** 9, 10 ** 18, -1):
            for li in (0, 1, 2, 100, 1000, 10 ** 12, 10 ** 18):
                env = {mk("var", "low"): lo, mk("var", "limit"): li, mk("ld", ("P", "low")): lo, mk("ld", ("P", "limit")): li}
                v = ranges.feval(r, env, {})
                if v is None:
                    continue
                n += 1
                if not (-1e-9 <= v <= 100 + 1e-9):
                    bad = bad or "%s of %d is %s percent" % (lo, li, v)
        if bad:
            ck.viol("percent", S.site, bad)
        elif n:
            ck.ok("percent", S.site, "between 0 and 100 in %d cases: %s" % (n, short(r, 100)))
        else:
            ck.und("percent", S.site, short(r, 120))
    for S in summ(ck, "primesieve::PrimeSieve::updateStatus", names=["dist"], opaque={"printStatus", "tryUpdateStatus", "isFlag"}):
        v = S.field("percent_")
        bad, n = None, 0
        at = atoms_of(v)
        import itertools
        sd, st, sp, pa = (sel(THIS, ("f", x)) for x in ("sievedDistance_", "start_", "stop_", "parent_"))
        for d, s, a, b in itertools.product((0, 1, 100, 10 ** 9, 10 ** 18), (0, 1, 10, 10 ** 18), (0, 5), (0, 4, 5, 6, 100, 10 ** 18)):
            env = {mk("var", "dist"): d, sd: s, st: a, sp: b, pa: 0}
            env[sel(THIS, ("f", "percent_"))] = 0
            x = ranges.feval(v, env, {})
            if x is None:
                continue
            n += 1
            if not (0 <= x <= 100):
                bad = bad or "after %d of [%d, %d] the status is %s percent" % (s + d, a, b, x)
        if bad:
            ck.viol("percent", S.site, bad)
        elif n:
            ck.ok("percent", S.site, "between 0 and 100 in %d cases" % n)
        else:
            ck.und("percent", S.site, short(v, 160))
        for e in S.calls("printStatus"):
            if isinstance(e.args[-1], T):
                ck.same("percent", S.site, e.args[-1], v, "the percentage that is printed", assume=list(e.pc))


def atoms_of(t):
    return [x for x in subterms(t) if x.op in ("var", "ld", "sel", "call")]


# ------------------------------------------------------------------ workers
def workers(ck):
    """number of threads of every parallel region"""
    fs = [f for f in ck.prog.functions.values() if f.body is not None and any(n.k.startswith("OMP") and "parallel" in n.k.lower() for n in f.walk()) and "/test" not in f.file and not f.file.endswith("test.cpp")]
    done = set()
    for f in sorted(fs, key=lambda x: (x.file, x.line, x.key)):
        g = gvn.GVN(ck.prog, opaque_pred=lambda x: x is not f and (x.q.startswith("std::") or x.name not in ("ideal_num_threads", "in_between", "ceil_div", "max", "min")))
        try:
            g.run(f)
        except gvn.Unsupported as e:
            ck.und("workers", site(f), str(e))
            continue
        for e in g.events:
            if e.k != "omp":
                continue
            at = "%s (%s)" % (f.q, e.line)
            nt = e.a.get("nthreads")
            if not isinstance(nt, T):
                ck.viol("workers", at, "the number of workers is not given: not limited by the requested number of threads") if any(p.n == "threads" for p in f.params) else ck.und("workers", at, "number of workers is the default")
                continue
            th = mk("var", "threads")
            r, w = same(le(ONE, nt), TRUE, assume=list(e.pc)[:6], signed=True)
            k = (at, nt)
            if r is False:
                # the number of threads may be a loop value with its own lower limit
                L = Loops(g)
                hyp = [le(ONE, p) for I in L.info.values() for n, p in I["phi"].items() if any(z in n for z in ("thread", "size", "dist", "segments"))]
                hyp += [le(ZERO, p) for I in L.info.values() for n, p in I["phi"].items() if p in subterms(nt)]
                hyp += [le(ONE, th)] + [le(ONE, x) for x in subterms(nt) if x.op == "var"]
                hyp += [I["cond"] for lid, I in L.info.items() if lid in e.loops and I.get("cond") is not None]
                r, w = same(le(ONE, nt), TRUE, assume=list(e.pc)[:6] + [tobool(h) for h in hyp], signed=True)
            if r is False:
                ck.viol("workers", at, "the number of workers %s can be below 1 (%s)" % (short(nt, 120), wit(w)[:160]))
            else:
                ck.cond("workers", at, r, "%s is at least 1" % short(nt, 120), "")
            L = Loops(g)
            ph = [p for I in L.info.values() for n, p in I["phi"].items() if "thread" in n.split("#")[0] and p in subterms(nt)]
            up = [th] + ph
            hyp = [le(ONE, x) for x in up] + [le(p, th) for p in ph]
            if any(x in subterms(nt) for x in up):
                r, w = same(le(nt, th), TRUE, assume=list(e.pc)[:6] + hyp, signed=True)
                if r is False and not any(x.op == "call" for x in subterms(nt)):
                    ck.viol("workers", at, "the number of workers %s can exceed the requested number of threads" % short(nt, 120))
                else:
                    ck.cond("workers", at, r, "%s is at most the requested number of threads" % short(nt, 120), "")
    ck.need("workers", 5)


# ------------------------------------------------------------------ load balancing
def balance(ck):
    for f in [f for f in ck.prog.functions.values() if f.name == "balanceLoad" and f.body is not None]:
        S = Summ(ck, f, names=["dist", "low", "z", "threads", "t0"])
        d1 = S.g.final.mem.get(("P", "dist"), mk("ld", ("P", "dist")))
        S.let(d1=d1, d0=mk("ld", ("P", "dist")))
        A = ["1 <= d0", "low < z", "1 <= threads"]
        S.prop("sizes", "the thread distance stays positive", "d1 >= 1", A)
        S.prop("sizes", "the thread distance is at most an equal share of the rest", "d1 <= max(8388608, (z - low + threads - 1) // threads)", A)
        S.prop("sizes", "the thread distance is not below 2^23 while there is enough left", "d1 >= min(8388608, (z - low + threads - 1) // threads)", A)
        S.prop("sizes", "the thread distance changes by at most a factor of 2 inside its range", "d1 <= max(8388608, 2 * d0) and d1 >= min(d0 // 2, (z - low + threads - 1) // threads)", A)
    for S in summ(ck, "primesum::S2LoadBalancer::update_min_size", names=["divisor"], opaque={"next_power_of_2"}):
        v = S.field("min_size_")
        np = calls_of(v, "next_power_of_2")
        if v.op == "call" and np and np[0] is v:
            S.let(v=v.args[1])
            S.prop("sizes", "the minimum segment size is at least 2^9", "v >= 512", signed=True)
            ck.ok("sizes", S.site, "the minimum segment size is a power of two")
        else:
            ck.cond("sizes", S.site, None if np else False, "", "the minimum segment size %s is not a power of two" % short(v, 100))
    for f in ck.prog.fns(q="primesum::S2LoadBalancer::update"):
        if len(f.params) == 5:
            S = Summ(ck, f, names=["low", "threads", "size", "spt", "timings"], opaque={"get_avg", "rel_std_dev", "get_pivot", "is_increase", "is_decrease", "update_min_size", "get_avg_seconds"})
            s0, s1 = mk("ld", ("P", "size")), S.g.final.mem.get(("P", "size"), mk("ld", ("P", "size")))
            mins = sorted({x for x in subterms(s1) if x.op == "sel" and x.args[1] == ("f", "min_size_")}, key=lambda x: x.id)
            ms = [x for x in mins]
            sq = sel(THIS, ("f", "sqrtz_"))
            S.let(s0=s0, s1=s1, m0=sel(THIS, ("f", "min_size_")))
            A = ["s0 >= 1", "low >= 0", "threads >= 1"] + [le(C(512), m) for m in ms] + [le(C(512), sel(THIS, ("f", "min_size_")))]
            S.prop("sizes", "the segment size stays positive", "s1 >= 1", A, signed=True)
            alts = [s0, mul(C(2), s0), shr(s0, ONE)] + ms + [sel(THIS, ("f", "min_size_"))]
            S.prop("sizes", "the segment size stays a power of two: it is kept, doubled, halved or reset", lor(*[eq(s1, a) for a in alts]), A)
            S.prop("sizes", "the segment size is at most doubled", lor(le(s1, mul(C(2), s0)), *[eq(s1, m) for m in ms]), A)
            S.prop("sizes", "the segment size is not halved below the minimum", lor(le(s0, s1), le(sel(THIS, ("f", "min_size_")), mul(C(2), s1)), *[eq(s1, m) for m in ms]), A)
        if len(f.params) == 3:
            S = Summ(ck, f, names=["spt", "seconds", "pivot"], opaque={"is_increase", "is_decrease"})
            s0, s1 = mk("ld", ("P", "spt")), S.g.final.mem.get(("P", "spt"), mk("ld", ("P", "spt")))
            import ranges, itertools
            inc = calls_of(s1, "is_increase") + calls_of(s1, "is_decrease")
            bad, n = None, 0
            at = atoms_of(s1)
            for d, piv, rsd, sec, mn, b in itertools.product((1, 2, 3, 7, 1000, 10 ** 9), (0.001, 0.5, 1.0, 40.0, 1e6), (0.1, 1.0, 40.0, 400.0), (0.0, 0.01, 5.0), (0.01, 0.03), (0, 1)):
                env = {s0: d, mk("var", "pivot"): piv, mk("var", "seconds"): sec, sel(THIS, ("f", "rsd_")): rsd, sel(THIS, ("f", "min_seconds_")): mn}
                for c in inc:
                    env[c] = b
                    env[tobool(c)] = bool(b)
                v = ranges.feval(s1, env, {})
                if v is None:
                    continue
                n += 1
                if not (1 <= v <= 2 * d and v >= d // 2):
                    bad = bad or "%d segments per thread become %s (pivot %s, rsd %s)" % (d, v, piv, rsd)
            if bad:
                ck.viol("sizes", S.site, bad)
            elif n:
                ck.ok("sizes", S.site, "segments per thread stay in [1, 2n] and at least n/2 (%d cases)" % n)
            else:
                ck.und("sizes", S.site, short(s1, 200))
