"""Recombination of partial results.

In the value graph of every function with a parallel loop O:
  s   the value reduced by O (its next value is s + w, w the worker's sum)
  R   the sequential loop nest behind O, in the same batch, that corrects s
  Tot a total carried through R and from batch to batch
  Inc, Cor  the per-worker slots that R reads
R must be  s += Tot * Cor;  Tot += Inc  for every slot in ascending order.  That
this is the right correction follows from the worker's own code: shifting the
slot element Inc by t at any point of the worker must change the worker's sum by
exactly t * (what is added to Cor at that point) and nothing else."""
from terms import *
from loops import *
from sites import *
from harness import short
from terms import *
import effects

TITLE = "Partial results are recombined completely and in order"


def key_of(t):
    return None


def walk_ite(t):
    """leaves of a conditional value"""
    if isinstance(t, T) and t.op == "ite":
        return walk_ite(t.args[1]) + walk_ite(t.args[2])
    return [t]


def loop_of(t):
    return t.args[0] if isinstance(t, T) and t.op == "phi" else None


def phikey(L, t):
    """(loop, variable key) of a phi term"""
    if not isinstance(t, T) or t.op != "phi":
        return None
    I = L.info.get(t.args[0])
    if I is None:
        return None
    for k, p in I["phi"].items():
        if p is t:
            return I, k
    return None


def elems(t, out=None):
    """sel(...(i,..)) chains in a term with their array root phi"""
    res = []
    for x in subterms(t):
        if x.op == "sel":
            p, r = [], x
            while r.op == "sel":
                p.append(r.args[1])
                r = r.args[0]
            if r.op == "phi" and all(q[0] == "i" for q in p):
                res.append((x, r, tuple(reversed(p))))
    return res


def upd_path(nx, root):
    """nx == root with one element (path) replaced: (path, new value)"""
    p = []
    base = root
    while isinstance(nx, T) and nx.op == "upd" and nx.args[0] is base:
        q = nx.args[1]
        p.append(q)
        v = nx.args[2]
        base = sel(base, q)
        if isinstance(v, T) and v.op == "upd" and v.args[0] is base:
            nx = v
            continue
        return tuple(p), v, base
    return None


def lifted(L, t, at):
    return t


def coeff(e, x):
    """e as polynomial in x: (coefficient, rest) if linear"""
    if isinstance(e, T) and e.op == "ite":
        if x in subterms(e.args[0]):
            return None
        a, b = coeff(e.args[1], x), coeff(e.args[2], x)
        if a is None or b is None:
            return None
        return ite(e.args[0], a[0], b[0]), ite(e.args[0], a[1], b[1])
    d = to_poly(e)
    c, r = ZERO, ZERO
    for m, k in d.items():
        n = sum(1 for y in m if y is x)
        t = C(k)
        for y in m:
            if y is not x:
                t = mul(t, y)
                if x in subterms(y):
                    if y.op == "ite" and n == 0 and len(m) == 1:
                        z = coeff(y, x)
                        if z is None:
                            return None
                        c, r = add(c, mul(C(k), z[0])), add(r, mul(C(k), z[1]))
                        t = None
                        break
                    return None
        if t is None:
            continue
        if n == 0:
            r = add(r, t)
        elif n == 1:
            c = add(c, t)
        else:
            return None
    return c, r


def monos(e):
    if isinstance(e, T) and e.op == "ite":
        return monos(e.args[1]) + monos(e.args[2])
    return [m for m in to_poly(e)]


def recombination(ck, g, s_site, O):
    L = g.L
    dirs = L.is_omp(O["id"])
    reds = [n for n, p in O["phi"].items() if isinstance(O["next"].get(n), T) and is_red(L, O, n)]
    for s in reds:
        w = sub(O["next"][s], O["phi"][s])
        once(ck, L, s_site, O, s, w)
        outer = L.info[O["outer"][-1]] if O["outer"] else None
        R = [I for I in L.info.values() if I["outer"] == O["outer"] and I is not O and s in I["phi"] and I["init"].get(s) is O["phi"][s]]
        if not R:
            flows(ck, g, s_site, O, s, outer)
            if slots(L, O, g):
                ck.viol("recombine", s_site, "the per-worker slots %s are filled but never combined with the total" % ", ".join(sorted(name(x) for x in slots(L, O, g))))
            continue
        if len(R) > 1:
            ck.und("recombine", s_site, "several loops behind the parallel loop change the total")
            continue
        recombine_loop(ck, g, s_site, O, s, w, R[0], outer)


def once(ck, L, at, O, s, w):
    own = {I["phi"][s] for I in [O] + L.inner(O["id"]) if s in I["phi"]}
    if not own & set(subterms(w)):
        ck.ok("sum-once", at, "reduced value %s = old value + worker's result" % name(s))
        return
    # accumulated in place: every loop of the worker adds something that does not depend on it
    for J in [O] + L.inner(O["id"]):
        if s not in J["phi"]:
            continue
        direct = L.inner(J["id"], direct=True)
        d = delta(L, J, s, direct)
        if d is None:
            ck.und("sum-once", at, "accumulation in place not in closed form")
        else:
            ck.cond("sum-once", at, not own & set(subterms(d[0])), "%s += %s" % (name(s), short(d[0], 80)), "the reduced value %s is not old value + result" % name(s))


def name(k):
    import re
    return re.sub(r"#\d+", "", str(k))


def is_red(L, O, n):
    """named in a reduction clause"""
    d = L.is_omp(O["id"])
    names = set()
    for c in d.a.get("clauses", []) or []:
        if c.get("kind") == "reduction":
            names |= {v.n for v in c.get("vars", [])}
    if not names:
        return False
    return name(n) in names


def slots(L, O, g):
    """arrays of which the worker updates element (i)"""
    out = set()
    for I in [O] + L.inner(O["id"]):
        for n, p in I["phi"].items():
            nx = I["next"].get(n)
            for x in subterms(nx) if isinstance(nx, T) else ():
                if x.op == "upd" and x.args[1][0] == "i" and isinstance(x.args[0], T) and phikey(L, x.args[0]) and phikey(L, x.args[0])[1] == n:
                    up = upd_path(x, x.args[0])
                    if up and not any("get_time" in str(y.args[0]) for y in subterms(up[1]) if y.op == "call"):
                        i = up[0][0][1]
                        if induct(L, i) is not None and L.at(i, O["id"], ONE) is not L.at(i, O["id"], ZERO):
                            out.add(n)
    return out


def induct(L, i):
    return L.lin(i) if isinstance(i, T) else None


def flows(ck, g, s_site, O, s, outer):
    """the reduced total is what leaves the function (or the batch)"""
    L = g.L
    p = O["phi"][s]
    if outer is not None:
        nx = outer["next"].get(s)
        if nx is not None:
            ck.cond("total-flows", s_site, nx is p, "total carried to the next batch", "the total after the workers is not carried to the next batch")
        return
    rs = walk_ite(g.retval) if isinstance(g.retval, T) else []
    hit = [r for r in rs if p in subterms(r)]
    if not hit:
        outs = [v for m in (g.final.mem if g.final else {}).values() for v in ([m] if isinstance(m, T) else []) if p in subterms(v)]
        if outs:
            ck.ok("total-flows", s_site, "total stored")
        else:
            ck.viol("total-flows", s_site, "the sum of the workers' results %s does not reach the function's result" % name(s))
        return
    for r in hit:
        c = coeff(r, p)
        if c is None:
            ck.und("total-flows", s_site, "result not linear in the total")
        else:
            ck.same("total-flows", s_site, c[0], ONE, "weight of the workers' total in the result")


def recombine_loop(ck, g, s_site, O, s, w, R, outer):
    L = g.L
    M = R
    inn = [I for I in L.inner(R["id"]) if s in I["phi"]]
    if len(inn) > 1:
        ck.und("recombine", s_site, "nested correction loops")
        return
    if inn:
        M = inn[0]
        if M["init"][s] is not R["phi"][s] or R["next"][s] is not M["phi"][s]:
            ck.viol("recombine", s_site, "the correction of one worker's slot does not continue from the previous worker's")
            return
    at = s_site + " " + R["node"].line
    # every worker, in ascending order
    To, Tr = L.trip(O["id"]), L.trip(R["id"])
    ck.same("every-worker", at, Tr, To, "workers visited by the recombination = workers started")
    iv = None
    for n, p in R["phi"].items():
        if p in L.lin_map and p in subterms(R["cond"]):
            iv = p
    if iv is None:
        ck.und("in-order", at, "worker index of the recombination loop not recognised")
        return
    ck.same("in-order", at, L.lin(iv), L.kap(R["id"]), "recombination visits worker 0, 1, 2, ... in this order")
    jv = None
    if M is not R:
        for n, p in M["phi"].items():
            if p in L.lin_map and p in subterms(M["cond"]):
                jv = p
        if jv is None:
            ck.und("every-slot", at, "slot index not recognised")
            return
        ck.same("every-slot", at, sub(L.at(jv, M["id"], add(L.kap(M["id"]), ONE)), L.at(jv, M["id"], L.kap(M["id"]))), ONE, "every slot is visited")
        first = L.at(jv, M["id"], ZERO)
        if is_const(first):
            ck.cond("every-slot", at, cval(first) <= 1, "slots from index %s" % short(first), "slots below index %s are left out" % short(first))
        else:
            lo = mk("var", "c")
            ck.same("every-slot", at, lt(add(lo, ONE), first), FALSE, "slots from %s" % short(first))
        b = bound_of(M["cond"], jv)
        good = b is not None and b.op == "call" and callq(b).endswith("size") and any(r.op == "phi" and r.args[0] == O["id"] for r in subterms(b))
        if good:
            ix = [p for x, r, p in elems(b)]
            good = any(q[0][1] is iv for q in ix)
        sz = [x for x in subterms(b) if x.op == "call" and callq(x).endswith("size")] if b is not None else []
        if b is None:
            ck.und("every-slot", at, "slot bound")
        elif not good and len(sz) == 1 and any(q[0][1] is iv for r, rr, q in elems(sz[0])):
            ck.same("every-slot", at, lt(b, sz[0]), FALSE, "slots up to the size of the worker's array")
        elif good:
            ck.ok("every-slot", at, "slots up to the size of the worker's array")
        else:
            ck.und("every-slot", at, "slot bound " + short(b))
    path = (("i", iv),) + ((("i", jv),) if jv is not None else ())
    want_tail = path[1:]
    ds = sub(M["next"][s], M["phi"][s])
    SL = slots(L, O, g)
    tots = []
    for n, p in M["phi"].items():
        if n == s or p is iv or p is jv:
            continue
        nx = M["next"].get(n)
        if not isinstance(nx, T):
            continue
        if jv is not None:
            up = upd_path(nx, p)
            if up and len(up[0]) == 1:
                tots.append((n, up[0], up[2], up[1]))
        elif nx.op not in NONNUM:
            tots.append((n, (), p, nx))
    if len(tots) != 1:
        ck.viol("recombine", at, "no running total of the lower intervals is carried along (%d candidates)" % len(tots))
        return
    n, tp, old, new = tots[0]
    if jv is not None:
        ck.same("recombine", at, tp[0][1], jv, "slot of the total = slot of the worker")
    inc = sub(new, old)

    def elem(k):
        x = O["phi"][k]
        for q in path:
            x = sel(x, q)
        return x
    Inc = [k for k in SL if inc is elem(k)]
    if len(Inc) != 1:
        ck.viol("recombine", at, "the total of the lower intervals grows by %s, not by one worker's own share" % short(inc))
        return
    X = Inc[0]
    Cor = [k for k in SL if sub(ds, mul(old, elem(k))) is ZERO]
    if len(Cor) != 1 or Cor[0] == X:
        ck.viol("recombine", at, "the correction added for one worker is %s; required is (total of all lower workers, before this worker's share) * (this worker's correction slot)" % short(ds))
        return
    Cr = Cor[0]
    ck.ok("recombine", at, "%s += %s[before] * %s; then %s += %s" % (name(s), name(n), name(Cr), name(n), name(X)))
    rest = [k for k in SL if k not in (X, Cr)]
    for k in rest:
        ck.und("recombine", at, "slot %s of the workers is not used" % name(k))
    # carried from batch to batch
    if outer is not None:
        ok = R["init"].get(n) is outer["phi"].get(n) and outer["phi"].get(n) is not None and outer["next"].get(n) is R["phi"][n]
        ck.cond("total-carried", at, ok, "%s continues from batch to batch" % name(n), "the total of the lower intervals is not carried over from one batch to the next")
        ck.cond("total-carried", at, outer["next"].get(s) is R["phi"][s] and O["init"].get(s) is outer["phi"].get(s), "%s continues from batch to batch" % name(s), "the total is not carried over from one batch to the next")
        flows2(ck, g, at, outer, s)
        if is_const(outer["init"].get(s)):
            ck.same("total-starts", at, outer["init"][s], ZERO, "total starts empty")
    # slots start empty in every batch
    for k in (X, Cr):
        fresh(ck, g, at, O, k, outer, len(path))
    derivative(ck, g, s_site, O, s, w, X, Cr, path)


def is_const(t):
    return isinstance(t, T) and t.op == "const" or isinstance(cval(t), int)


def cval(t):
    d = to_poly(t)
    if not d:
        return 0
    if set(d) == {()}:
        return int(d[()])
    return None


def flows2(ck, g, at, outer, s):
    p = outer["phi"][s]
    rs = [r for r in walk_ite(g.retval) if p in subterms(r)] if isinstance(g.retval, T) else []
    if not rs:
        ck.viol("total-flows", at, "the recombined total does not reach the function's result")
    for r in rs:
        c = coeff(r, p)
        if c is None:
            ck.und("total-flows", at, "result not linear in the total")
        else:
            ck.same("total-flows", at, c[0], ONE, "weight of the recombined total in the result")


def fresh(ck, g, at, O, k, outer, depth):
    """the slot does not carry values of an earlier batch"""
    L = g.L
    ini = O["init"].get(k)
    oph = outer["phi"].get(k) if outer is not None else None
    if oph is None or oph not in subterms(ini):
        ck.ok("slots-empty", at, "%s is created anew for every batch" % name(k))
        return
    # carried: the worker must reset its own element before use
    for I in L.inner(O["id"], direct=True):
        i0 = I["init"].get(k)
        if i0 is None or O["phi"][k] not in subterms(i0):
            continue
        up = upd_path(i0, O["phi"][k])
        if up is None:
            ck.viol("slots-empty", at, "%s still holds the previous batch's value when a worker starts" % name(k))
        else:
            ck.same("slots-empty", at, up[1], ZERO, "%s is reset by the worker" % name(k))


def derivative(ck, g, s_site, O, s, w, X, Cr, path):
    L = g.L
    # worker's sum variable inside O
    W = set()
    for leaf in walk_ite(w):
        for m, c in to_poly(leaf).items():
            for y in m:
                pk = phikey(L, y)
                if pk and O["id"] in pk[0]["outer"]:
                    W.add(pk[1])
                    ck.cond("sum-once", s_site, c == 1 and len(m) == 1, "worker's sum added once", "worker's sum enters with factor %s" % c)
    W = {k for k in W if k not in (X, Cr)}
    if len(W) != 1:
        ck.und("worker-share", s_site, "worker's sum not recognised (%s)" % sorted(W))
        return
    wk = W.pop()
    n = 0
    for J in [I for I in L.inner(O["id"])]:
        if wk not in J["phi"] and X not in J["phi"] and Cr not in J["phi"]:
            continue
        at = "%s %s" % (s_site, J["node"].line)
        outerphi = J["phi"].get(wk)
        direct = [K for K in L.inner(J["id"], direct=True)]
        wn, cn, xn = J["next"].get(wk), J["next"].get(Cr), J["next"].get(X)

        def resolve(t, k):
            return t
        # last inner loop's exit value or own phi as base
        base = {}
        for k in (wk, Cr, X):
            base[k] = J["phi"].get(k)
        if wk in J["phi"] and J["init"].get(wk) is not None:
            iw = J["init"][wk]
            pk = phikey(L, iw)
            if pk is None and iw is not ZERO:
                ck.viol("sum-starts", at, "the worker's sum does not start at 0 but at %s" % short(iw)) if is_const(iw) else ck.und("sum-starts", at, short(iw))
        d = delta(L, J, wk, direct)
        c = delta(L, J, Cr, direct, True)
        x = delta(L, J, X, direct, True)
        if d is None or c is None or x is None:
            ck.und("worker-share", at, "changes of %s in this loop not in closed form" % "/".join(name(k) for k, v in ((wk, d), (Cr, c), (X, x)) if v is None))
            continue
        if d[0] is ZERO and c[0] is ZERO and x[0] is ZERO:
            continue
        # the slot element read by this loop's additions
        xs = {}
        for t in (d[0], c[0], x[0]):
            for el, root, p in elems(t):
                pk = phikey(L, root)
                if pk and pk[1] == X and len(p) == len(path):
                    xs[el] = p
        if len(xs) > 1:
            ck.und("worker-share", at, "several slot elements used in one step")
            continue
        n += 1
        if not xs:
            good, wit = same(d[0], ZERO)
            if c[0] is ZERO:
                ck.ok("worker-share", at, "this step adds nothing that depends on lower intervals") if x[0] is not ZERO or d[0] is not ZERO else None
            else:
                ck.viol("worker-share", at, "the correction slot %s changes by %s but the worker's sum does not use %s there" % (name(Cr), short(c[0]), name(X)))
            continue
        el = list(xs)[0]
        # index of the slots involved agree
        for nm, dd in (("correction", c), ("share", x)):
            if dd[1] is not None and dd[1] != xs[el]:
                r = [same(a[1], b[1])[0] for a, b in zip(dd[1], xs[el])]
                if any(v is False for v in r):
                    ck.viol("worker-share", at, "the %s slot changed is not the one whose partial sum is used" % nm)
        cf = coeff(d[0], el)
        if cf is None:
            ck.und("worker-share", at, "sum not linear in the slot element")
            continue
        ck.same("worker-share", at, c[0], cf[0], "what is added to the correction slot = factor of the partial sum in what is added to the worker's sum")
        ix = x[0]
        if ix is not ZERO:
            ck.cond("worker-share", at, el not in subterms(ix), "own share independent of earlier shares", "the worker's own share depends on the accumulated share")
        # own share of this step must not be used yet
        if ix is not ZERO:
            im = monos(ix)
            bad = [m for m in monos(cf[1]) if any(set(q) <= set(m) and q for q in im)]
            ck.cond("before-own-share", at, not bad, "the partial sum is used before this step's share is added", "the partial sum used already contains this step's own share")
    ck.need_ = n


def delta(L, J, k, direct, arr=False):
    """what one iteration of J itself adds to k, with the contribution of inner
    loops taken out: (value, element path)"""
    nx = J["next"].get(k)
    if k not in J["phi"] or nx is None:
        return ZERO, None
    base = J["phi"][k]
    cands = [base] + [K["phi"][k] for K in direct if k in K["phi"]]
    leaves = walk_ite(nx)
    if arr:
        out, pth = None, None
        acc = []
        for b in cands:
            if nx is b:
                return ZERO, None
            up = upd_path(nx, b)
            if up:
                return sub(up[1], up[2]), up[0]
        # conditional update of the whole array
        if nx.op == "ite":
            res = []
            for lf in leaves:
                r = None
                for b in cands:
                    if lf is b:
                        r = (ZERO, None)
                        break
                    up = upd_path(lf, b)
                    if up:
                        r = (sub(up[1], up[2]), up[0])
                if r is None:
                    return None
                res.append(r)
            ps = [p for _, p in res if p is not None]
            if not ps:
                return ZERO, None
            if ps and all(p == ps[0] for p in ps):
                it = iter(res)

                def build(t):
                    if t.op == "ite":
                        return ite(t.args[0], build(t.args[1]), build(t.args[2]))
                    return next(it)[0]
                return build(nx), ps[0]
        return None
    if len(direct) and any(k in K["phi"] for K in direct):
        last = [K["phi"][k] for K in direct if k in K["phi"]]
        for b in reversed(last):
            d = sub(nx, b)
            if not any(c in subterms(d) for c in cands):
                return d, None
        # alternatives: some branch runs no inner loop
        if nx.op == "ite":
            def build(t):
                if t.op == "ite":
                    a, b = build(t.args[1]), build(t.args[2])
                    return None if a is None or b is None else ite(t.args[0], a, b)
                for b in [base] + last:
                    d = sub(t, b)
                    if not any(c in subterms(d) for c in cands):
                        return d
                return None
            r = build(nx)
            return None if r is None else (r, None)
    if nx.op == "ite":
        def build(t):
            if t.op == "ite":
                a, b = build(t.args[1]), build(t.args[2])
                return None if a is None or b is None else ite(t.args[0], a, b)
            d = sub(t, base)
            return d if base not in subterms(d) else None
        r = build(nx)
        return None if r is None else (r, None)
    d = sub(nx, base)
    if base in subterms(d):
        return None
    return d, None


def run(ck):
    ck.rule("sum-once", "the value reduced by a parallel loop is the old value plus the worker's result, factor 1")
    ck.rule("recombine", "behind the parallel loop: total += (sum of the shares of all lower workers) * (this worker's correction); only then the share is added")
    ck.rule("every-worker", "the recombination visits exactly the workers of the parallel loop")
    ck.rule("in-order", "the recombination visits the workers in ascending order")
    ck.rule("every-slot", "the recombination visits every slot that a worker may have filled")
    ck.rule("total-carried", "totals continue from batch to batch")
    ck.rule("total-flows", "the total reaches the result with weight 1")
    ck.rule("slots-empty", "slots do not contain values of an earlier batch")
    ck.rule("worker-share", "shifting the partial sum in the worker by t changes the worker's sum by t * (what is added to the correction slot)")
    ck.rule("before-own-share", "the partial sum used for an element excludes that element")
    ck.rule("future-counts", "parallel sieving: every worker's counters, summed over its tasks, are added once to the overall counters, which start at 0")
    ck.assumptions += ["sums do not overflow (C07)", "worker intervals tile the range (C02), no data races (C01)"]
    for fn in ck.prog.functions.values() if isinstance(ck.prog.functions, dict) else ck.prog.functions:
        if fn.body is None or fn.file.startswith("lib/"):
            continue
        if not any(n.k.startswith("OMPParallelFor") for n in fn.body.walk()):
            continue
        if not fn.file.startswith("src/"):
            continue
        if fn.name in ("pi_lmo5", "main") or "test" in fn.file:
            continue
        try:
            g = master(ck, fn, names=[p.n for p in fn.params])
        except gvn.Unsupported as e:
            ck.und("sum-once", site(fn), str(e))
            continue
        for O in g.L.omp_loops():
            recombination(ck, g, site(fn), O)
    futures(ck)
    ck.need("sum-once", 4)
    ck.need("recombine", 3)
    ck.need("worker-share", 8)


def array_sum(ck, at, L, I, what):
    """a loop over all elements that adds another array: key, addend array"""
    for n, p in I["phi"].items():
        nx = I["next"].get(n)
        up = upd_path(nx, p) if isinstance(nx, T) else None
        if not up or len(up[0]) != 1 or up[0][0][0] != "i":
            continue
        iv = up[0][0][1]
        d = sub(up[1], up[2])
        if d.op == "sel" and d.args[1] == ("i", iv):
            ck.same("future-counts", at, L.lin(iv), L.kap(I["id"]), what + ": elements 0, 1, 2, ...")
            tr = L.trip(I["id"])
            full = tr is not None and (cval(tr) == 6 or tr.op == "call" and callq(tr).endswith("size"))
            if full:
                ck.ok("future-counts", at, what + ": all elements")
            elif tr is not None and cval(tr) is not None:
                ck.viol("future-counts", at, "%s: only %s of 6 counters are added" % (what, cval(tr)))
            else:
                ck.und("future-counts", at, what + ": number of elements")
            return n, d.args[0]
    return None


def overwritten(L):
    """totals that a loop replaces where it should add"""
    out = []
    for I in L.info.values():
        own = {J["phi"][n] for J in L.info.values() for n in J["phi"]}
        for n, p in I["phi"].items():
            nx = I["next"].get(n)
            if not isinstance(nx, T):
                continue
            up = upd_path(nx, p)
            v, old = (up[1], up[2]) if up else (nx, p)
            src = [x for x in subterms(v) if x.op == "call" and callq(x).split("::")[-1] in ("getCounts", "get")]
            mine = {J["phi"][n] for J in L.info.values() if n in J["phi"]}
            if src and v.op != "eff" and not (mine & set(subterms(v))) and old not in subterms(v):
                out.append("%s is overwritten by %s where it should be added (%s)" % (name(n), short(v, 80), I["node"].line))
    return out


def futures(ck):
    fs = [f for f in ck.prog.fns(q="primesieve::ParallelSieve::sieve") if f.body is not None]
    for f in fs:
        g = gvn.GVN(ck.prog, opaque={"getCounts", "sieve", "align", "idealNumThreads", "getDistance", "getThreadDistance", "reset", "fill", "inBetween"},
                    opaque_pred=lambda x: x.q.startswith("std::"))
        g.run(f)
        L = Loops(g)
        at = site(f)
        asy = [e for e in g.events if e.k == "async"]
        if len(asy) != 1 or not asy[0].loops:
            ck.und("future-counts", at, "%d asynchronous calls" % len(asy))
            continue
        S = L.info[asy[0].loops[-1]]
        sums = []
        for I in L.info.values():
            r = array_sum(ck, "%s %s" % (at, I["node"].line), L, I, "adding counters")
            if r:
                sums.append((I, r))
        work = [(I, r) for I, r in sums if S["id"] in I["outer"]]
        coll = [(I, r) for I, r in sums if S["id"] not in I["outer"]]
        if len(work) != 1 or len(coll) != 1:
            bad = overwritten(L)
            if not [e for e in g.events if e.k == "call" and e.a["q"].endswith("::getCounts")]:
                bad.append("counters are never read from the sieve")
            nx = [v for I in L.info.values() for v in I["next"].values() if isinstance(v, T)]
            if not any(x.op == "call" and callq(x).endswith("::getCounts") for v in nx for x in subterms(v)):
                bad.append("no total grows by the counters of the sieved intervals")
            if bad:
                ck.viol("future-counts", at, "; ".join(bad))
            else:
                ck.und("future-counts", at, "collection not recognised")
            continue
        I, (n, add_) = work[0]
        W = L.info[I["outer"][-1]]
        q = [x for x in subterms(add_) if x.op == "call" and callq(x).endswith("getCounts")]
        sv = [x for x in subterms(add_) if x.op == "eff" and x.args[0].endswith("::sieve")]
        ck.cond("future-counts", at, bool(q) and bool(sv), "worker adds the counters of the interval just sieved", "the worker adds %s instead of the counters of the interval just sieved" % short(add_))
        ck.cond("future-counts", at, I["init"][n] is W["phi"].get(n) and W["next"].get(n) is I["phi"][n], "worker's total grows in every task", "the worker's total is not carried from task to task")
        ini = W["init"].get(n)
        ck.cond("future-counts", at, isinstance(ini, T) and ini.op == "eff" and ini.args[0].endswith("::fill") and cval(ini.args[-1]) == 0, "worker's total starts at 0", "the worker's total does not start at 0: " + short(ini))
        I, (n, add_) = coll[0]
        get = [x for x in subterms(add_) if x.op == "call" and callq(x).endswith("::get")]
        ck.cond("future-counts", at, bool(get), "the result of every future is added", "what is added is not a worker's result: " + short(add_))
        R = L.info[I["outer"][-1]] if I["outer"] else None
        if R is None:
            ck.viol("future-counts", at, "only one worker's result is collected")
            continue
        ck.cond("future-counts", at, R["next"].get(n) is I["phi"][n] and I["init"][n] is R["phi"].get(n), "total grows with every future", "the total does not grow with every worker")
        c = R["cond"]
        if isinstance(c, T) and R["node"].k == "ForStmt":
            ck.same("future-counts", at, L.trip(R["id"]), L.trip(S["id"]), "futures collected = workers started")
        elif R["node"].k == "CXXForRangeStmt" and not R["breaks"]:
            ck.ok("future-counts", at, "all futures visited")
        else:
            ck.und("future-counts", at, "loop over the futures")
        em = [e for e in g.events if e.k == "call" and e.a["q"].split("::")[-1] in ("emplace_back", "push_back") and e.loops and e.loops[-1] == S["id"]]
        ck.cond("future-counts", at, len(em) == 1 or None, "every started worker's future is kept", "")
        ini = R["init"].get(n)
        ck.cond("future-counts", at, any(x.op == "eff" and x.args[0].endswith("::reset") for x in subterms(ini)), "overall counters start from reset()", "the counters are not reset before the workers' results are added")
    for f in ck.prog.fns(q="primesieve::PrimeSieve::reset"):
        g = gvn.GVN(ck.prog, opaque_pred=lambda x: x.q.startswith("std::"))
        g.run(f)
        v = sel(g.final.mem.get(("P", "this"), mk("ld", ("P", "this"))), ("f", "counts_"))
        ck.cond("future-counts", site(f), isinstance(v, T) and v.op == "eff" and v.args[0].endswith("::fill") and cval(v.args[-1]) == 0, "reset() clears all counters", "reset() does not clear the counters: " + short(v))
    for f in ck.prog.fns(q="primesieve::PrimeSieve::sieve"):
        if f.body is None or f.params:
            continue
        g = gvn.GVN(ck.prog, opaque={"reset", "processSmallPrimes", "setStatus", "preSieve", "sieve", "PrintPrimes"}, opaque_pred=lambda x: x.q.startswith("std::") or "PrintPrimes" in x.q or "SievingPrimes" in x.q)
        g.run(f)
        cs = [e.a["q"].split("::")[-1] for e in g.events if e.k == "call"]
        if "reset" in cs:
            i = cs.index("reset")
            late = [c for c in cs[:i] if c in ("processSmallPrimes", "sieve", "PrintPrimes")]
            ck.cond("future-counts", site(f), not late, "counters are reset before the interval is sieved", "counters are reset after %s" % late)
        else:
            ck.viol("future-counts", site(f), "counters of the previous interval are not reset")
