import effects
from summ import summ
from sites import *
from spec import Spec, U64
from harness import short

TITLE = "Workers' intervals and segments tile the computed range"


def pick_batch(L, omp):
    """the batch loop around a parallel loop, its start value phi and its end"""
    if not omp["outer"]:
        return None
    B = L.info[omp["outer"][-1]]
    c = B["cond"]
    if not isinstance(c, T):
        return None
    for nm, p in B["phi"].items():
        Z = bound_of(c, p)
        if Z is not None and p in subterms(c):
            return B, nm, p, Z
    return None


def tile_obligations(ck, s, L, omp, lo, hi, Z, start, batch=None, assume=()):
    """lo/hi: half-open interval of worker k"""
    lid = omp["id"]
    k = L.kap(lid)
    lo, hi = L.lin(lo), L.lin(hi)
    ck.same("tile-meet", s, hi, tmin(L.at(lo, lid, add(k, ONE)), L.lin(Z)), "end of worker k's interval = start of worker k+1's, capped at the end of the range", assume=assume)
    ck.same("tile-first", s, L.at(lo, lid, ZERO), L.lin(start), "first worker starts at the start of the range", assume=assume)
    Tn = L.trip(lid)
    if Tn is None:
        ck.und("tile-last", s, "trip count of the parallel loop not in closed form")
        return
    if batch:
        B, nm, p, _ = batch
        ck.same("tile-next-batch", s, L.lin(B["next"].get(nm)), L.at(lo, lid, Tn), "next batch starts where worker T-1 ended", assume=assume)
    else:
        last = L.at(lo, lid, Tn)
        ck.same("tile-last", s, lt(last, L.lin(Z)), FALSE, "the last worker reaches the end of the range", assume=[le(ONE, Tn), lt(L.lin(start), L.lin(Z))] + list(assume))


def iters(g):
    """constructor arguments of prime iterators, with the direction they are used in"""
    out = []
    for e in g.events:
        if e.k == "call" and e.a["q"] == "primesieve::iterator::iterator" and e.a.get("ctor"):
            fw = any(x.k == "call" and x.a["q"].endswith("iterator::next_prime") and x.a["obj"] == e.a["obj"] for x in g.events)
            bw = any(x.k == "call" and x.a["q"].endswith("iterator::prev_prime") and x.a["obj"] == e.a["obj"] for x in g.events)
            out.append((e, "f" if fw and not bw else "b" if bw and not fw else "?"))
    return out


def prime_phis(L, lid, fname, within):
    """loops below loop lid whose phi carries successive results of fname"""
    out = []
    for I in L.inner(lid):
        for nm, nx in I["next"].items():
            if nx.op == "call" and nx.args[0].endswith(fname):
                out.append((I, nm, I["phi"][nm]))
    return out


def p2(ck):
    for fn in ck.prog.fns(name="P2_OpenMP_master"):
        g = master(ck, fn, names=["x", "y", "threads"])
        L = g.L
        s = site(fn)
        for omp in L.omp_loops():
            b = pick_batch(L, omp)
            if b is None:
                ck.und("tile-meet", s, "batch loop not recognised")
                continue
            B, nm, p, Z = b
            S = Spec(dict(x=mk("var", "x"), y=mk("var", "y"), z=Z, isq=mk("call", "primesum::isqrt", mk("var", "x"))))
            ck.same("range-start", s, B["init"][nm], C(2), "the first batch starts at 2")
            ck.same("range-end", s, Z, S("x // max(y, 1)"), "the last batch ends at x / y")
            fw = [e for e, d in iters(g) if d == "f" and omp["id"] in e.loops]
            bw = [e for e, d in iters(g) if d == "b" and omp["id"] in e.loops]
            if len(fw) != 1:
                ck.und("tile-meet", s, "%d forward iterators in the worker" % len(fw))
                continue
            lo = add(L.lin(fw[0].a["args"][0]), ONE)
            fl = [(I, n, q) for I, n, q in prime_phis(L, omp["id"], "next_prime", None)]
            outer = [x for x in fl if x[0]["outer"][-1] == omp["id"]]
            if not outer:
                ck.und("tile-meet", s, "no loop over the worker's primes")
                continue
            I, n, q = outer[-1]
            hi = bound_of(L.lin(I["cond"]), q)
            if hi is None:
                ck.und("tile-meet", s, "loop bound over the worker's primes not of the form p < b")
                continue
            tile_obligations(ck, s, L, omp, lo, hi, Z, p, b)
            hint = L.lin(fw[0].a["args"][1])
            ck.same("stop-hint", s, lt(hint, sub(L.lin(hi), ONE)), FALSE, "iterator hint does not cut the interval")
            # large primes: x/hi < p <= x/lo, clipped to (y, sqrt(x)]
            if len(bw) != 1:
                ck.und("tile-quotients", s, "%d backward iterators" % len(bw))
                continue
            SS = Spec(dict(S.env, lo=L.lin(lo), hi=L.lin(hi)))
            # with lo = 2 the quotient x/lo never cuts below sqrt(x)
            ck.same("tile-quotients", s, L.lin(bw[0].a["args"][0]), SS("min(x // lo, isq) + 1"), "largest prime of the worker is min(x/lo, sqrt x)")
            bl = prime_phis(L, omp["id"], "prev_prime", None)
            for I2, n2, q2 in bl:
                c = L.lin(I2["cond"])
                ck.same("tile-quotients", s, c, Spec(dict(SS.env, p=q2))("p > max(x // hi, y) and x // p < hi"), "primes with lo <= x/p < hi belong to this worker", assume=[gt0(q2)])
                inn = [x for x in fl if x[0]["outer"][-1] == I2["id"]]
                for I3, n3, q3 in inn:
                    b3 = bound_of(L.lin(I3["cond"]), q3)
                    if b3 is None:
                        ck.und("tile-quotients", s, "inner bound")
                        continue
                    ck.same("tile-quotients", s, b3, Spec(dict(SS.env, p=q2))("x // p + 1"), "partial sum extends to x/p inclusive", assume=[c, gt0(q2)])


def segment_worker(ck, name, names, zterm, rule_first=1):
    for fn in ck.prog.fns(name=name):
        try:
            g = master(ck, fn, names=names)
        except gvn.Unsupported as e:
            ck.und("tile-meet", site(fn), str(e))
            continue
        L = g.L
        s = site(fn)
        if not L.omp_loops():
            continue
        for omp in L.omp_loops():
            b = pick_batch(L, omp)
            if b is None:
                ck.und("tile-meet", s, "batch loop not recognised")
                continue
            B, nm, p, Z = b
            ck.same("range-start", s, B["init"][nm], C(rule_first), "the first batch starts at %d" % rule_first)
            if zterm is not None:
                ck.same("range-end", s, Z, zterm(g), "the last batch ends behind the range")
            segs = segments_in(ck, g, L, s, omp["id"])
            if segs is None:
                continue
            I, n, q, lo, hi, seg = segs
            tile_obligations(ck, s, L, omp, lo, hi, Z, p, b)


def segments_in(ck, g, L, s, lid):
    """the segment loop of a worker (or of a sequential algorithm): the loop
    that calls pre_sieve; returns interval and segment size"""
    ps = [e for e in calls(g, "pre_sieve") if lid is None or lid in e.loops]
    if len(ps) != 1:
        ck.und("segments", s, "%d pre_sieve calls" % len(ps))
        return None
    e = ps[0]
    I = L.info[e.loops[-1]]
    low = L.lin(e.a["args"][1])
    k = L.kap(I["id"])
    c = L.lin(I["cond"])
    q = None
    for nm, p in I["phi"].items():
        if L.lin(p) is low and p in L.lin_map:
            q, n = p, nm
    if q is None:
        ck.und("segments", s, "segment start is not an induction value")
        return None
    if I["breaks"]:
        ck.und("segments", s, "segment loop is left early")
    hi = bound_of(I["cond"], q)
    if hi is None:
        ck.und("segments", s, "segment loop bound")
        return None
    hi = L.lin(hi)
    step = sub(subst(low, {k: add(k, ONE)}), low)
    lo = subst(low, {k: ZERO})
    # the sieve covers exactly one step
    for ce in g.events:
        if ce.k == "call" and ce.a["q"].endswith("BitSieve::BitSieve") and (lid is None or lid in ce.loops or True):
            ck.same("segment-size", s, L.lin(ce.a["args"][0]), step, "segment step = size of the sieve array")
    # end of every segment: min(low + step, limit); every store that uses it
    want = tmin(add(low, step), hi)
    seen = 0
    for ce in g.events:
        if ce.k == "call" and I["id"] in ce.loops and ce.a["q"].split("::")[-1] == "cross_off":
            seen += 1
            a = ce.a["args"]
            ck.same("segment-end", s + " " + ce.line, L.lin(a[1]), low, "cross-off starts at the segment start")
            ck.same("segment-end", s + " " + ce.line, L.lin(a[2]), want, "cross-off ends where the next segment starts or the range ends")
        if ce.k == "call" and I["id"] in ce.loops and ce.a["q"].endswith("BitSieve::sum") and len(ce.a["args"]) == 3:
            seen += 1
            a = ce.a["args"]
            ck.same("segment-end", s + " " + ce.line, L.lin(add(a[0], a[1])), low, "whole-segment sum starts at the segment start")
            ck.same("segment-end", s + " " + ce.line, L.lin(add(a[0], a[2])), sub(want, ONE), "whole-segment sum ends at the last number of the segment")
    seg_quotients(ck, g, L, s, I, low, want)
    if not seen:
        ck.und("segment-end", s, "no use of the segment end found")
    for we in g.events:
        if we.k == "call" and we.a["q"].endswith("Wheel::Wheel"):
            if lid is None or lid in we.loops:
                ck.same("wheel-start", s, L.lin(we.a["args"][-1]), lo, "sieving primes are positioned at the first number of the interval")
    return I, n, q, lo, hi, step


def sequential(ck, name, unit):
    for fn in ck.prog.fns(name=name, file=unit):
        g = master(ck, fn, names=["x", "y", "c"])
        L = g.L
        if not calls(g, "pre_sieve"):
            lmo_sequential(ck, unit)
            continue
        s = site(fn)
        r = segments_in(ck, g, L, s, None)
        if r is None:
            continue
        I, n, q, lo, hi, step = r
        ck.same("range-start", s, lo, ONE, "the first segment starts at 1")
        ck.same("range-end", s, hi, Spec(dict(x=mk("var", "x"), y=mk("var", "y")))("x // y + 1"), "segments reach x / y")


def trivial(ck):
    for fn in ck.prog.fns(name="S2_trivial_OpenMP"):
        g = master(ck, fn, names=["x", "y", "z", "c", "prime_sums", "threads"])
        L = g.L
        s = site(fn)
        S = Spec(dict(x=mk("var", "x"), y=mk("var", "y"), z=mk("var", "z"), c=mk("var", "c")),
                 dict(isqrt="primesum::isqrt", nth="primesum::nth_prime"))
        for omp in L.omp_loops():
            fw = [e for e, d in iters(g) if omp["id"] in e.loops]
            if len(fw) != 1:
                ck.und("tile-meet", s, "iterators")
                continue
            lo = add(L.lin(fw[0].a["args"][0]), ONE)
            hi = None
            for I in L.inner(omp["id"]):
                cc = L.lin(I["cond"])
                for x in subterms(cc):
                    if x.op == "call" and x.args[0].endswith("next_prime"):
                        hi = bound_of(cc, x) or hi
                for nm, p in I["phi"].items():
                    if I["next"].get(nm) is not None and I["next"][nm].op == "call" and I["next"][nm].args[0].endswith("next_prime"):
                        hi = bound_of(cc, p) or hi
            if hi is None:
                ck.und("tile-meet", s, "loop over the worker's primes")
                continue
            start = S("max(nth(c), isqrt(z)) + 1")
            tile_obligations(ck, s, L, omp, lo, hi, mk("var", "y"), start)
            ck.same("stop-hint", s, lt(L.lin(fw[0].a["args"][1]), sub(L.lin(hi), ONE)), FALSE, "iterator hint does not cut the interval")


def factor_table(ck):
    for fn in ck.prog.fns(name="FactorTable", file="include/FactorTable.hpp"):
        if fn.body is None or len(fn.params) != 2:
            continue
        g = gvn.GVN(ck.prog, opaque={"isqrt", "ideal_num_threads", "next_multiple", "get_index", "get_number", "max", "ipow"},
                    opaque_pred=lambda f: f.file.startswith("lib/"))
        g.run(fn, names=["y", "threads"])
        L = Loops(g)
        s = site(fn)
        for omp in L.omp_loops():
            nm = [e for e in calls(g, "next_multiple") if omp["id"] in e.loops]
            lows = {L.lin(e.a["args"][1]) for e in nm}
            if len(lows) != 1:
                ck.und("tile-meet", s, "%d distinct worker starts" % len(lows))
                continue
            lo = lows.pop()
            Z = tmax(C(8), mk("var", "y"))
            his = []
            for I in L.inner(omp["id"]):
                c = L.lin(I["cond"])
                if not isinstance(c, T):
                    continue
                for n, p in I["phi"].items():
                    if I["init"][n].op == "call" and I["init"][n].args[0].endswith("next_multiple"):
                        h = bound_of(c, p)
                        if h is not None:
                            his.append((h, I))
            if not his:
                ck.und("tile-meet", s, "no loop over multiples")
                continue
            for h, I in his:
                # multiples in (lo, hi]; numbers start at 1, hence 1 itself is in no interval
                hi = sub(L.lin(h), ONE)
                k = L.kap(omp["id"])
                ck.same("tile-meet", s + " " + I["node"].line, hi, tmin(L.at(lo, omp["id"], add(k, ONE)), Z), "worker k's multiples end where worker k+1's start")
                ck.same("tile-first", s + " " + I["node"].line, L.at(lo, omp["id"], ZERO), ONE, "first worker starts at 1")
                Tn = L.trip(omp["id"])
                if Tn is None:
                    ck.und("tile-last", s, "trip count")
                else:
                    ck.same("tile-last", s + " " + I["node"].line, lt(L.at(lo, omp["id"], Tn), Z), FALSE, "last worker reaches y", assume=[le(ONE, Tn)])


def loop_range(ck, name, names, lo, hi, what, env=None, funcs=None, opaque=OPQ):
    """a parallel loop over an index range: first index and one past the last"""
    for fn in ck.prog.fns(name=name):
        if fn.body is None:
            continue
        g = master(ck, fn, names=names, opaque=opaque)
        L = g.L
        s = site(fn)
        for omp in L.omp_loops():
            ivs = []
            for nm, p in omp["phi"].items():
                if p in L.lin_map and p in subterms(omp["cond"]):
                    ivs.append(p)
            if len(ivs) != 1:
                ck.und("index-range", s, "index variable")
                continue
            p = ivs[0]
            k = L.kap(omp["id"])
            st = sub(subst(L.lin(p), {k: ONE}), subst(L.lin(p), {k: ZERO}))
            S = Spec({n: mk("var", n) for n in names}, funcs)
            for e in (env or {}):
                S.env[e] = env[e](g)
                if S.env[e] is None:
                    del S.env[e]
            try:
                wlo, whi = S(lo), S(hi)
            except KeyError as e:
                ck.und("index-range", s, "anchor %s not found" % e)
                continue
            ck.same("index-range", s, subst(L.lin(p), {k: ZERO}), wlo, what + ": first index")
            ck.same("index-range", s, st, ONE, what + ": no index is skipped")
            b = bound_of(omp["cond"], p)
            if b is None:
                ck.und("index-range", s, "loop bound")
            else:
                ck.same("index-range", s, L.lin(b), whi, what + ": one past the last index")
            if omp["breaks"]:
                ck.viol("index-range", s, "the parallel loop is left early")


def pitable(g, arg):
    """pi[arg] for the PiTable of the analysed function"""
    for x in g.events:
        if x.k == "call" and x.a["q"].endswith("PiTable::operator[]") and x.a["args"] and x.a["args"][0] is arg:
            return x.a.get("res")
    return None


def sizecall(g):
    for x in g.events:
        if x.k == "call" and x.a["q"].startswith("std::vector") and x.a["q"].endswith("::size"):
            return x.a.get("res")
    for I in g.loopinfo.values():
        if isinstance(I["cond"], T):
            for x in subterms(I["cond"]):
                if x.op in ("call", "size") and (x.op == "size" or x.args[0].endswith("::size")):
                    return x
    return None


def parallel_sieve(ck):
    fns = ck.prog.fns(q="primesieve::ParallelSieve::sieve")
    for fn in fns:
        g = gvn.GVN(ck.prog, opaque={"sieve", "reset", "setStatus", "idealNumThreads", "getThreadDistance", "isqrt"},
                    opaque_pred=lambda f: f.q.startswith("std::") or f.name in ("getCounts", "PrimeSieve"))
        g.opaque.discard("primesieve::ParallelSieve::sieve")
        g.run(fn)
        L = Loops(g)
        s = site(fn)
        sv = [e for e in g.events if e.k == "call" and e.a["q"].endswith("PrimeSieve::sieve") and len(e.a["args"]) >= 2 and e.loops]
        if len(sv) != 1:
            ck.und("tile-meet", s, "%d worker sieve calls" % len(sv))
            continue
        e = sv[0]
        start, stop = e.a["args"][0], e.a["args"][1]
        # start_/stop_ are not written while the tasks run (rule range-const), nor is the distance
        pcs = [c for c in e.pc if isinstance(c, T)]
        roots = [start, stop] + pcs
        m = {}
        for r in roots:
            for x in subterms(r):
                if x.op == "sel" and x.args[1] in (("f", "start_"), ("f", "stop_")):
                    m[x] = mk("var", "this." + x.args[1][1])
        start, stop = subst(start, m), subst(stop, m)
        pcs = [subst(c, m) for c in pcs]
        A, Z = mk("var", "this.start_"), mk("var", "this.stop_")
        for nm in ("getThreadDistance",):
            cs = {x for r in [start, stop] + pcs for x in subterms(r) if x.op == "call" and x.args[0].endswith(nm)}
            mm = {x: mk("var", "dist." + nm) for x in cs}
            start, stop = subst(start, mm), subst(stop, mm)
            pcs = [subst(c, mm) for c in pcs]
        ctr = [x for x in subterms(start) if x.op == "call" and x.args[0].endswith("fetch_add")]
        if len(ctr) != 1:
            ck.und("tile-meet", s, "shared task counter")
            continue
        i = ctr[0]
        ck.cond("task-counter", s, i.args[2] is ONE or ONE in i.args[1:], "workers draw consecutive task numbers", "the shared counter does not advance by 1: %s" % short(i))
        td = mk("var", "dist.getThreadDistance")
        if td not in subterms(start) | subterms(stop):
            ck.und("tile-meet", s, "thread distance")
            continue
        asm = [le(A, Z), le(C(30), td), le(ZERO, A), eq(mod(td, C(30)), ZERO), lt(Z, C(U64 - 64))]
        # worker i+1 starts right behind worker i's end unless the range ended there
        nxt = subst(start, {i: add(i, ONE)})
        ok, w = same(ite(lt(stop, Z), nxt, ZERO), ite(lt(stop, Z), add(stop, ONE), ZERO), assume=asm + [le(ZERO, i)])
        ck.cond("tile-meet", s, ok, "worker i+1 starts at the number behind worker i's last number", "worker i+1 does not start right behind worker i's end %s: %s" % (short(stop), str(w)[:200]))
        ck.same("tile-first", s, subst(start, {i: ZERO}), A, "first task starts at the start of the range", assume=asm)
        # k-tuplets are not split: the task ends at n % 30 == 2 (or at the end of the range)
        ok, w = same(ite(lt(stop, Z), mod(stop, C(30)), C(2)), C(2), assume=asm + [le(ZERO, i)])
        ck.cond("tile-ktuplet", s, ok, "tasks end at numbers congruent 2 mod 30", "a task may end inside a group of 30 numbers: %s" % short(stop))
        # iteration count covers the range
        cs = [c for c in pcs if i in subterms(c)]
        if not cs:
            ck.und("tile-last", s, "task loop condition")
        else:
            bnd = bound_of(cs[-1], i)
            if bnd is None:
                ck.und("tile-last", s, "task loop bound")
            else:
                last = subst(stop, {i: sub(bnd, ONE)})
                ck.same("tile-last", s, last, Z, "last task ends at the end of the range", assume=asm)


def ldthis(g):
    return mk("var", "this")


def run(ck):
    ck.rule("tile-meet", "hi(k) = min(lo(k+1), end) for the interval [lo(k), hi(k)) of worker k")
    ck.rule("tile-first", "lo(0) = start of the range or batch")
    ck.rule("tile-next-batch", "start of the next batch = lo(T), T = number of workers of this batch")
    ck.rule("tile-last", "lo(T) reaches the end of the range")
    ck.rule("range-start", "first number of the whole range")
    ck.rule("range-end", "end of the whole range")
    ck.rule("tile-quotients", "primes are assigned to the worker whose interval contains x/p")
    ck.rule("segment-size", "segment step equals the size of the sieve array")
    ck.rule("segment-end", "segment end = min(segment start + step, end of the worker's interval)")
    ck.rule("wheel-start", "sieving primes positioned at the interval start")
    ck.rule("index-range", "a parallel loop over indices runs over exactly the required index range")
    ck.rule("leaf-quotients", "special leaves are assigned to segments by quotients with exactly the segment's ends")
    ck.rule("leaf-tiling", "the leaves of one prime are split between consecutive segments without gap or overlap")
    ck.rule("segment-first/next/last/more", "the segments of the sieve of Eratosthenes start at the byte of start, advance by one sieve size, end behind their last byte or at stop")
    ck.rule("window-next/prev", "consecutive windows of a prime iterator meet without gap")
    ck.rule("stop-hint", "the iterator's stop hint lies at or behind the interval end")
    p2(ck)
    zz = lambda g: add(mk("var", "z"), ONE)
    segment_worker(ck, "S2_hard_OpenMP_master", ["x", "y", "z", "c", "primes", "factors", "threads"], zz)
    segment_worker_lmo(ck)
    for n in (2, 3, 4, 5):
        sequential(ck, "S2", "src/lmo/pi_lmo%d.cpp" % n)
    trivial(ck)
    factor_table(ck)
    loop_range(ck, "S2_easy_OpenMP", ["x", "y", "z", "c", "primes", "prime_sums", "threads"], "max(c, pis) + 1", "pi13 + 1", "easy leaves",
               env=dict(pis=lambda g: pitable(g, mk("call", "primesum::isqrt", mk("var", "y"))),
                        pi13=lambda g: pitable(g, mk("call", "primesum::iroot", mk("var", "x")))))
    loop_range(ck, "S1_OpenMP_master", ["x", "y", "c", "threads"], "c + 1", "n", "ordinary leaves", env=dict(n=sizecall), opaque=OPQ | {"S1_OpenMP_thread"})
    parallel_sieve(ck)
    erat(ck)
    ck.need("tile-meet", 4)
    ck.need("segment-end", 4)
    ck.need("index-range", 3)


def segment_worker_lmo(ck):
    for fn in ck.prog.fns(name="S2", file="src/lmo/pi_lmo_parallel1.cpp"):
        z = lambda g: add(div(mk("var", "x"), mk("var", "y")), ONE)
        segment_worker_fn(ck, fn, ["x", "y", "c", "primes", "lpf", "mu", "threads"], z)


def segment_worker_fn(ck, fn, names, zterm):
    g = master(ck, fn, names=names)
    L = g.L
    s = site(fn)
    for omp in L.omp_loops():
        b = pick_batch(L, omp)
        if b is None:
            ck.und("tile-meet", s, "batch loop not recognised")
            continue
        B, nm, p, Z = b
        ck.same("range-start", s, B["init"][nm], ONE, "the first batch starts at 1")
        ck.same("range-end", s, Z, zterm(g), "the last batch ends behind the range")
        r = segments_in(ck, g, L, s, omp["id"])
        if r:
            I, n, q, lo, hi, seg = r
            tile_obligations(ck, s, L, omp, lo, hi, Z, p, b)


def seg_quotients(ck, g, L, s, I, low, want):
    """the special leaves m of a prime p that belong to segment [low, high) are
    those with x/(p*high) < m <= x/(p*low): every quotient of x by a multiple of
    a position inside the segment uses exactly these two ends"""
    k = L.kap(I["id"])
    seen = {}
    roots = []
    for J in L.inner(I["id"]):
        for d in (J["init"], J["next"]):
            roots += [t for t in d.values() if isinstance(t, T)]
        if isinstance(J["cond"], T):
            roots.append(J["cond"])
    for e in g.events:
        if e.k == "call" and I["id"] in e.loops:
            roots += [t for t in e.a["args"] if isinstance(t, T)]
    st = set()
    for t in roots:
        subterms(L.lin(t), st)
    n = 0
    for t in st:
        if t.op != "div" or k not in subterms(t.args[1]) or t.args[0] is not mk("var", "x"):
            continue
        den = t.args[1]
        # den = P * D with D one of the two ends
        # only divisors built from the position of the segment itself
        allowed = {a for D in (low, want, add(low, step0(L, I, low))) for m in to_poly(D) for a in m} | {want}
        if any(k in subterms(a) and a not in allowed for m in to_poly(den) for a in m):
            continue
        hit = None
        for nm, D in (("low", low), ("high", want)):
            P = quotient(den, D)
            if P is not None and k not in subterms(P):
                hit = nm
        pm = {m for m in to_poly(den)}
        com = set.intersection(*[set(m) for m in pm]) if pm else set()
        com = [c for c in com if k not in subterms(c)]
        if hit is None:
            # a factor common to all monomials is the prime; the rest is the position
            if not com:
                ck.und("leaf-quotients", s, "divisor %s" % short(den, 120))
                continue
            ok = False
            for P in com:
                D = from_poly({tuple(x for i, x in enumerate(m) if i != m.index(P)): c for m, c in to_poly(den).items()})
                if k in subterms(D):
                    if same(D, low)[0] or same(D, want, assume=[lt(low, ghi(L, I))])[0]:
                        ok = True
            if ok:
                hit = "ends"
        n += 1
        if hit:
            ck.ok("leaf-quotients", s, "quotient x / (p * %s) uses an end of the segment" % hit)
        else:
            ck.viol("leaf-quotients", s, "leaves are selected with the divisor %s, which is neither p*low nor p*high of the segment" % short(den, 200))
    return n


def step0(L, I, low):
    k = L.kap(I["id"])
    return sub(subst(low, {k: add(k, ONE)}), low)


def ghi(L, I):
    for nm, p in I["phi"].items():
        if p in L.lin_map:
            b = bound_of(I["cond"], p)
            if b is not None:
                return L.lin(b)
    return mk("var", "?")


def quotient(den, D):
    """P with den == P*D, for a D that is one atom or a polynomial"""
    dp, Dp = to_poly(den), to_poly(D)
    if len(dp) % max(1, len(Dp)):
        return None
    for m in dp:
        for a in set(m):
            if to_poly(mul(a, D)) == dp:
                return a
    return None


def lmo_sequential(ck, unit):
    for fn in ck.prog.fns(name="S2", file=unit):
        g = master(ck, fn, names=["x", "y", "c", "primes", "lpf", "mu"])
        L = g.L
        s = site(fn)
        S = Spec(dict(x=mk("var", "x"), y=mk("var", "y")))
        best = None
        for I in L.top():
            if not isinstance(I["cond"], T) or not L.inner(I["id"]):
                continue
            for nm, p in I["phi"].items():
                if p in L.lin_map:
                    b = bound_of(I["cond"], p)
                    if b is not None and any(x.op == "div" and x.args[0] is mk("var", "x") for x in subterms(L.lin(b))):
                        best = (I, p, L.lin(b))
        if best is None:
            ck.und("segments", s, "segment loop")
            continue
        I, p, hi = best
        low = L.lin(p)
        k = L.kap(I["id"])
        step = sub(subst(low, {k: add(k, ONE)}), low)
        lo = subst(low, {k: ZERO})
        if I["breaks"]:
            ck.und("segments", s, "segment loop is left early")
        ck.same("range-start", s, lo, ONE, "the first segment starts at 1")
        ck.same("range-end", s, hi, S("x // y + 1"), "segments reach x / y")
        for ce in g.events:
            if ce.k == "call" and ce.a["q"].startswith("std::vector<char") and ce.a["q"].endswith("::vector") and not ce.loops and len(ce.a["args"]) >= 1:
                ck.same("segment-size", s, L.lin(ce.a["args"][0]), step, "segment step = size of the sieve array")
        want = tmin(add(low, step), hi)
        for J in L.inner(I["id"]):
            if not isinstance(J["cond"], T):
                continue
            for nm, q in J["phi"].items():
                b = bound_of(J["cond"], q)
                if b is None or k not in subterms(L.lin(b)):
                    continue
                if any(x.op == "div" for x in subterms(L.lin(b))):
                    continue
                ck.same("segment-end", s + " " + J["node"].line, L.lin(b), want, "crossing off ends where the next segment starts or the range ends")
        for e in calls(g, "sum"):
            if I["id"] in e.loops and len(e.a["args"]) == 1 and not any(x.op == "div" for x in subterms(L.lin(e.a["args"][0]))):
                ck.same("segment-end", s + " " + e.line, L.lin(add(e.a["args"][0], p)), sub(want, ONE), "whole-segment sum ends at the last number of the segment")
        if seg_quotients(ck, g, L, s, I, low, want) == 0:
            ck.und("leaf-quotients", s, "no leaf quotients")
        # leaves of one prime: descending m, upper end of the next segment meets the lower end of this one
        for J in L.inner(I["id"]):
            t = L.trip(J["id"])
            for nm, q in J["phi"].items():
                if q in L.lin_map and t is not None:
                    st = L.lin(q)
                    kj = L.kap(J["id"])
                    if sub(subst(st, {kj: add(kj, ONE)}), st) is not C(-1):
                        continue
                    M = L.at(q, J["id"], ZERO)
                    N = sub(M, L.lin(t))
                    if not any(x.op == "div" for x in subterms(M)):
                        continue
                    nxt = subst(M, {k: add(k, ONE)})
                    y = mk("var", "y")
                    fs = [x for x in subterms(N) if x.op == "div" and x.args[0] is y]
                    if len(fs) != 1:
                        ck.und("leaf-tiling", s, "lower bound of the leaves")
                        continue
                    F = fs[0]
                    asm = [lt(add(low, step), hi), lt(ZERO, k), lt(ZERO, step), lt(ZERO, F.args[1]), le(ZERO, y)]
                    ok, w = same(tmax(nxt, F), tmin(N, y), assume=asm)
                    ck.cond("leaf-tiling", s + " " + J["node"].line, ok, "the leaves of segment k+1 end where those of segment k start",
                            "leaves of segment k start above %s but those of the next segment end at %s" % (short(N), short(nxt)))


THIS = mk("ld", ("P", "this"))


def erat(ck):
    E = effects.Effects(ck.prog)
    """segments of the sieve of Eratosthenes and the windows of prime iterators"""
    for S in summ(ck, "primesieve::Erat::init", names=["start", "stop", "sieveSize", "preSieve"], keep=()):
        S.let(lo=S.field("segmentLow_"), hi=S.field("segmentHigh_"), ss=S.field("sieveSize_"))
        A = ["7 <= start", "start <= stop", "stop <= U64"]
        S.prop("segment-first", "the first segment starts at a multiple of 30", "lo % 30 == 0", A)
        S.prop("segment-first", "the first byte of the first segment contains start", "lo + 7 <= start and start <= lo + 36", A)
        S.eq("segment-first", "the first segment ends behind its last byte or at stop", "hi", "min(sat(lo + ss * 30 + 6), stop)", A, big=True)
    for S in summ(ck, "primesieve::Erat::sieveSegment", names=[], opaque={"preSieve", "crossOff", "sieveSmall"}):
        # state at entry: 30 | segmentLow, segmentHigh = min(segmentLow + 30*sieveSize + 6, stop)
        g = S.g
        lo0, hi0, st, ss = (sel(THIS, ("f", f)) for f in ("segmentLow_", "segmentHigh_", "stop_", "sieveSize_"))
        def clean(t):
            return effects.unframe(E, ck.prog, t)
        lo1, hi1, ss1 = (clean(S.field(f)) for f in ("segmentLow_", "segmentHigh_", "sieveSize_"))
        S.let(lo0=lo0, hi0=hi0, stop=st, ss=ss, lo1=lo1, hi1=hi1, ss1=ss1)
        A = ["stop <= U64", "hi0 != stop", "hi0 == lo0 + ss * 30 + 6", "0 < ss", "lo0 < stop", "hi0 <= stop"]
        for a in (["hi0 < stop"],):
            env = {hi0: S.t("lo0 + ss * 30 + 6")}
            B = [subst(tobool(S.t(x)), env) for x in ("stop <= U64", "hi0 < stop", "0 < ss")]
            S.eq("segment-next", "the next segment starts one sieve size further", subst(lo1, env), "lo0 + ss * 30", B)
            S.eq("segment-next", "the next segment ends behind its last byte or at stop", subst(hi1, env), "min(sat(lo0 + ss * 60 + 6), stop)", B, big=True)
        env = {hi0: st}
        B = [subst(tobool(S.t(x)), env) for x in ("stop <= U64", "lo0 % 30 == 0", "lo0 + 7 <= stop", "0 < ss")]
        l2, s2 = subst(lo1, env), subst(ss1, env)
        m30 = mul(C(30), mk("var", "q"))
        env2 = {lo0: m30}
        B = [subst(x, env2) for x in B]
        s2 = subst(s2, env2)
        S.let(s2=s2, lo0=m30)
        S.prop("segment-last", "the sieve array of the last segment ends with the byte of stop", "lo0 + s2 * 30 - 23 <= stop and stop <= lo0 + s2 * 30 + 6", B)
        S.eq("segment-last", "after the last segment the sieve is exhausted", subst(l2, env), "stop", B)
    for S in summ(ck, "primesieve::Erat::hasNextSegment", names=[]):
        if S.ret is not None:
            S.eq("segment-more", "segments follow while the last one does not reach stop", tonum(S.ret), ite(lt(sel(THIS, ("f", "segmentLow_")), sel(THIS, ("f", "stop_"))), ONE, ZERO))
    # windows of the prime iterators
    for S in summ(ck, "primesieve::IteratorHelper::next", names=["start", "stop", "stopHint", "dist"], opaque={"maxCachedPrime", "maxPrimeGap", "sqrt"}):
        S.let(s0=deref0(S, "start"), e0=deref0(S, "stop"), s1=deref1(S, "start"), e1=deref1(S, "stop"))
        A = ["0 <= e0", "e0 <= U64", "s0 <= e0"]
        S.eq("window-next", "a forward window starts right behind the previous one", "s1", "sat(e0 + 1)", A, big=True)
        S.prop("window-next", "a forward window is not empty", "s1 <= e1", A + ["0 <= stopHint"], big=True)
    for S in summ(ck, "primesieve::IteratorHelper::prev", names=["start", "stop", "stopHint", "dist"], opaque={"maxCachedPrime", "maxPrimeGap", "sqrt", "log", "ceil"}):
        S.let(s0=deref0(S, "start"), e0=deref0(S, "stop"), s1=deref1(S, "start"), e1=deref1(S, "stop"))
        A = ["0 <= s0", "s0 <= U64"]
        S.eq("window-prev", "a backward window ends right below the previous one", "e1", "pos(s0 - 1)", A, big=True)
        S.prop("window-prev", "a backward window is not empty", "s1 <= e1", A + ["0 <= stopHint"], big=True)


def deref0(S, n):
    return mk("ld", ("P", n))


def deref1(S, n):
    return S.g.final.mem.get(("P", n), mk("ld", ("P", n)))
