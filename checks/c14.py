"""C14: k-tuplet selectors mean the same thing everywhere."""
import importlib
from terms import *
from loops import *
from summ import Summ, summ
from ranges import feval
from harness import short
import gvn

TITLE = "k-tuplet selectors mean the same thing everywhere"
KIND = ["PRIMES", "TWINS", "TRIPLETS", "QUADRUPLETS", "QUINTUPLETS", "SEXTUPLETS"]
LABEL = ["Primes", "Twin primes", "Prime triplets", "Prime quadruplets", "Prime quintuplets", "Prime sextuplets"]
PSV = "primesieve::PrimeSieve"
SETUP = {"PrimeSieve", "ParallelSieve", "setSieveSize", "get_sieve_size", "setNumThreads", "get_num_threads"}


def run(ck):
    ck.rule("flags", "each flag test of the sieve is true for exactly the selectors it is named after (all 2^13 flag words)")
    ck.rule("api", "each C++ entry point sieves its own arguments with its own selector and returns its own counter")
    ck.rule("success", "each C entry point calls the C++ function of its own name")
    ck.rule("error", "failures of the C entry points")
    ck.rule("dispatch", "after each segment exactly the selected countings and printings run")
    ck.rule("counter", "selector, pattern list, per-byte table and counter are indexed by the same kind")
    ck.rule("perbyte", "the number counted or printed for a sieve byte is the number of its kind's patterns it contains, every byte is visited once, and printed primes are based at the byte's own number")
    ck.rule("table", "the pattern lists and the small-number table hold the constellations of their kind")
    ck.rule("option", "the digits of --count and --print select the kind they are documented for, and other digits are rejected")
    ck.rule("label", "each printed count carries the label of its kind")
    V = values(ck)
    if V is None:
        ck.und("flags", "enum", "flag constants not found")
        return
    flags(ck, V)
    api(ck, V)
    capi(ck)
    dispatch(ck)
    counters(ck)
    perbyte(ck)
    tables(ck)
    options(ck, V)
    labels(ck)


def values(ck):
    out = {}
    for en in ck.prog.enums.values():
        if isinstance(en, dict) and "e" in en:
            for x in en["e"]:
                if x["name"].startswith(("COUNT_", "PRINT_")) and x["name"].split("_", 1)[1] in KIND + ["STATUS"]:
                    out[x["name"]] = int(x["v"])
    if any("%s_%s" % (a, k) not in out for a in ("COUNT", "PRINT") for k in KIND):
        return None
    vs = list(out.values())
    ck.cond("flags", "lib/primesieve/include/primesieve/PrimeSieve.hpp", len(set(vs)) == len(vs) and all(v > 0 and v & (v - 1) == 0 for v in vs),
            "%d selectors, each a bit of its own" % len(vs), "the selectors %s are not distinct bits" % out)
    return out


def at(f):
    return "%s %s" % (f.q, f.l)


def evaluate(t, flags, extra=None):
    env = dict(extra or {})
    for x in subterms(t):
        if x.op == "sel" and x.args[1] == ("f", "flags_") or x.op == "ld" and "flags_" in repr(x):
            env[x] = flags
    return feval(t, env)


def flags(ck, V):
    top = 1
    while top <= max(V.values()):
        top *= 2
    cnt = [V["COUNT_" + k] for k in KIND]
    prt = [V["PRINT_" + k] for k in KIND]
    tests = [("isCountPrimes", (), lambda f: bool(f & cnt[0])), ("isPrintPrimes", (), lambda f: bool(f & prt[0])),
             ("isCountkTuplets", (), lambda f: any(f & c for c in cnt[1:])), ("isPrintkTuplets", (), lambda f: any(f & c for c in prt[1:])),
             ("isPrint", (), lambda f: any(f & c for c in prt)), ("isStatus", (), lambda f: bool(f & V.get("PRINT_STATUS", 0)))]
    for i in range(6):
        tests.append(("isCount", (i,), lambda f, i=i: bool(f & cnt[i])))
        tests.append(("isPrint", (i,), lambda f, i=i: bool(f & prt[i])))
    for name, args, want in tests:
        fs = [f for f in ck.prog.fns(q=PSV + "::" + name) if len(f.params) == len(args)]
        if not fs:
            ck.und("flags", "%s::%s" % (PSV, name), "not found")
        for f in fs:
            S = Summ(ck, f, names=["i"] if args else [])
            ex = {mk("var", "i"): args[0]} if args else {}
            bad = None
            for w in range(top):
                r = evaluate(S.ret, w, ex)
                if r is None:
                    bad = "?"
                    break
                if bool(r) != want(w):
                    bad = (w, bool(r))
                    break
            what = "%s(%s)" % (name, ", ".join(map(str, args)))
            if bad == "?":
                ck.und("flags", at(f), "%s: %s" % (what, short(S.ret)))
            else:
                ck.cond("flags", at(f), bad is None, "%s is right for all %d flag words" % (what, top),
                        "" if bad is None else "%s is %s for the flags %s" % (what, bad[1], "+".join(n for n, v in V.items() if v & bad[0]) or "none"))


def sieves(S):
    return [e for e in S.calls("sieve") if e.a["q"].startswith("primesieve::")]


def api(ck, V):
    for act in ("count", "print"):
        for i, k in enumerate(KIND):
            q = "primesieve::%s_%s" % (act, k.lower())
            fs = [f for f in ck.prog.fns(q=q) if f.body is not None]
            if not fs:
                ck.und("api", q, "not found")
            for f in fs:
                S = Summ(ck, f, names=["start", "stop"], opaque=SETUP | {"sieve", "getCount", "countPrimes", "getCounts", "setFlags", "addFlags", "setStart", "setStop"})
                site = at(f)
                want = V["%s_%s" % (act.upper(), k)]
                sv = sieves(S)
                fl = st = sp = None
                if len(sv) == 1 and len(sv[0].a["args"]) == 3:
                    st, sp, fl = sv[0].a["args"]
                elif len(sv) == 1:
                    a = list(sv[0].a["args"])
                    sf = S.calls("setFlags")
                    if len(sf) == 1 and not S.calls("addFlags"):
                        fl = sf[0].a["args"][0]
                    if len(a) == 2:
                        st, sp = a
                    elif len(S.calls("setStart")) == 1 and len(S.calls("setStop")) == 1:
                        st, sp = S.calls("setStart")[0].a["args"][0], S.calls("setStop")[0].a["args"][0]
                elif not sv and S.calls("countPrimes"):
                    e = S.calls("countPrimes")[0]
                    st, sp = e.a["args"]
                    fl = C(V["COUNT_PRIMES"])
                if fl is None or st is None:
                    ck.und("api", site, "the call of the sieve is not recognised")
                    continue
                ck.same("api", site, fl, C(want), "selector handed to the sieve")
                ck.same("api", site, st, S.t("start"), "first number")
                ck.same("api", site, sp, S.t("stop"), "last number")
                if sv:
                    ck.cond("api", site, None if sv[0].loops else pcok(sv[0]), "the sieve runs on every path", "the sieve runs only under %s" % short(land(*sv[0].pc)) if sv[0].pc else "")
                if act == "count":
                    r = S.ret
                    c = [x for x in subterms(r) if x.op == "call" and x.args[0].split("::")[-1] == "getCount"] if r is not None else []
                    if len(c) == 1 and r == c[0]:
                        ck.same("api", site, c[0].args[-1], C(i), "counter returned")
                    elif r is not None and r.op == "call" and r.args[0].split("::")[-1] == "countPrimes":
                        ck.cond("api", site, i == 0, "countPrimes", "returns the number of primes")
                    elif r is not None and r.op == "c":
                        ck.viol("api", site, "returns %s" % short(r))
                    else:
                        ck.und("api", site, "result %s" % short(r) if r is not None else "no result")
    for f in ck.prog.fns(q=PSV + "::countPrimes"):
        if len(f.params) == 2:
            S = Summ(ck, f, names=["start", "stop"], opaque={"sieve", "getCount"})
            sv = sieves(S)
            if len(sv) == 1 and len(sv[0].a["args"]) == 3:
                for a, b, w in zip(sv[0].a["args"], ("start", "stop", V["COUNT_PRIMES"]), ("first number", "last number", "selector")):
                    ck.same("api", at(f), a, S.t(b) if isinstance(b, str) else C(b), w)
                if S.ret is not None and S.ret.op == "call":
                    ck.same("api", at(f), S.ret.args[-1], C(0), "counter returned")
            else:
                ck.und("api", at(f), "call of the sieve")
    # the setters really set, and a worker takes its parent's selectors over
    for f in ck.prog.fns(q=PSV + "::setFlags"):
        S = Summ(ck, f, names=["flags"])
        S.eq("api", "flags_ after setFlags", S.field("flags_"), "flags")
    for f in ck.prog.fns(q=PSV + "::addFlags"):
        S = Summ(ck, f, names=["flags"])
        ck.same("api", at(f), S.field("flags_"), bitor(sel(S.t("this"), ("f", "flags_")), mk("var", "flags")), "flags_ after addFlags")
    for f in ck.prog.fns(q=PSV + "::sieve"):
        if len(f.params) == 3:
            S = Summ(ck, f, names=["start", "stop", "flags"], opaque={"sieve"})
            sv = sieves(S)
            base = sv[0].a.get("ostate") if len(sv) == 1 and not sv[0].a["args"] else None
            for fld, n in (("flags_", "flags"), ("start_", "start"), ("stop_", "stop")):
                got = sel(base, ("f", fld)) if base is not None else None
                if got is None:
                    ck.und("api", at(f), "state when the sieve runs")
                else:
                    ck.same("api", at(f), got, S.t(n), "%s when the sieve runs" % fld)
    for f in ck.prog.fns(q=PSV + "::PrimeSieve"):
        if len(f.params) == 1:
            S = Summ(ck, f, names=["parent"])
            v = S.field("flags_")
            good = v.op in ("sel", "ld") and "flags_" in repr(v) and "parent" in repr(v)
            if v.op == "c":
                ck.viol("api", at(f), "a worker's flags_ is %s, not its parent's" % short(v))
            else:
                ck.cond("api", at(f), True if good else None, "a worker takes the parent's flags_ over", "")
    for f in ck.prog.fns(q=PSV + "::getCount"):
        S = Summ(ck, f, names=["i"])
        r = S.ret
        good = None
        if r is not None and r.op == "deref" and r.args and r.args[0].op == "call":
            r = r.args[0]
        if r is not None and "counts_" in repr(r):
            if r.op == "call" and r.args[0].split("::")[-1] == "at":
                good = r.args[-1] == mk("var", "i") or None
                if r.args[-1] != mk("var", "i") and r.args[-1].op in ("c", "poly"):
                    good = False
            elif r.op == "sel":
                good = r.args[1] == ("i", mk("var", "i")) or (False if isinstance(r.args[1], tuple) and r.args[1][0] == "i" and r.args[1][1].op in ("c", "poly") else None)
        ck.cond("api", at(f), good, "getCount(i) is counts_[i]", "getCount(i) is %s" % short(r))


def bitor(a, b):
    from terms import _subst
    return REBUILD["or_"](a, b) if "or_" in REBUILD else mk("or_", a, b)


def pcok(e):
    ok, _ = same(land(*e.pc) if e.pc else TRUE, TRUE)
    return ok


def capi(ck):
    c13 = importlib.import_module("checks.c13") if "checks.c13" in __import__("sys").modules else __import__("c13")
    from throws import Throws
    th = Throws(ck.prog)
    for act in ("count", "print"):
        for k in KIND:
            n = "%s_%s" % (act, k.lower())
            fs = [f for f in ck.prog.fns(q="primesieve_" + n) if f.body is not None]
            if not fs:
                ck.und("success", "primesieve_" + n, "not found")
            for f in fs:
                c13.wrapper(ck, th, f, n)


def outer(g, out=None):
    """the calls that a condition tests directly"""
    out = [] if out is None else out
    if g.op == "call":
        if g not in out:
            out.append(g)
    elif g.op in ("not", "land", "lor", "eq0", "gt0", "bvar", "poly"):
        for x in kids(g):
            outer(x, out)
    return out


def kids(t):
    from ranges import _kids
    return _kids(t)


def dispatch(ck):
    for f in ck.prog.fns(q="primesieve::PrintPrimes::print"):
        S = Summ(ck, f, opaque={"countPrimes", "countkTuplets", "printPrimes", "printkTuplets", "updateStatus", "isCountPrimes", "isCountkTuplets", "isPrintPrimes", "isPrintkTuplets", "isStatus"})
        for act, tst in (("countPrimes", "isCountPrimes"), ("countkTuplets", "isCountkTuplets"), ("printPrimes", "isPrintPrimes"), ("printkTuplets", "isPrintkTuplets"), ("updateStatus", "isStatus")):
            cs = S.calls(act)
            if not cs:
                ck.viol("dispatch", at(f), "%s is never run" % act) if not any(e.k == "call" and e.a["q"] == "<indirect>" for e in S.g.events) else ck.und("dispatch", at(f), act)
                continue
            if len(cs) > 1:
                ck.und("dispatch", at(f), "%s is run at several places" % act)
                continue
            g = land(*cs[0].pc) if cs[0].pc else TRUE
            tests = [x for x in outer(g) if x.args[0].split("::")[-1].startswith("is")]
            names = sorted({x.args[0].split("::")[-1] for x in tests})
            if g == TRUE or names and tst not in names:
                ck.viol("dispatch", at(f), "%s runs %s" % (act, "unconditionally" if g == TRUE else "when " + short(g)))
                continue
            mine = [x for x in tests if x.args[0].split("::")[-1] == tst]
            t1, t0 = (feval(g, {x: v for x in mine}) for v in (1, 0))
            t1, t0 = (None if v is None else TRUE if v else FALSE for v in (t1, t0))
            others = [x for x in tests if x not in mine]
            if t1 == TRUE and t0 == FALSE:
                ck.ok("dispatch", at(f), "%s runs exactly when %s" % (act, tst))
            elif t1 == FALSE and t0 == TRUE:
                ck.viol("dispatch", at(f), "%s runs when not %s" % (act, tst))
            elif others:
                ck.viol("dispatch", at(f), "%s runs when %s" % (act, short(g)))
            else:
                ck.und("dispatch", at(f), "%s runs when %s" % (act, short(g)))
    # counting needs its per-byte tables
    for f in ck.prog.fns(q="primesieve::PrintPrimes::PrintPrimes"):
        S = Summ(ck, f, opaque={"init", "initCounts", "isCountkTuplets"})
        cs = S.calls("initCounts")
        if len(cs) != 1:
            ck.und("dispatch", at(f), "initCounts is called %d times" % len(cs))
            continue
        g = land(*cs[0].pc) if cs[0].pc else TRUE
        tests = [x for x in outer(g) if x.args[0].split("::")[-1] == "isCountkTuplets"]
        r = feval(g, {x: 1 for x in tests})
        ck.cond("dispatch", at(f), None if r is None else bool(r), "the per-byte tables are made whenever k-tuplets are counted", "")


# ------------------------------------------------------- index consistency
def kinds_of(S, f):
    """every index by which this function selects a kind: (what, term, line, loops)"""
    out = []

    def note(what, t, e):
        out.append((what, t, e.line, e.loops))

    def scan(t, e):
        if not isinstance(t, T):
            return
        for x in subterms(t):
            if x.op == "sel" and isinstance(x.args[1], tuple) and x.args[1][0] == "i" and isinstance(x.args[1][1], T):
                b = x.args[0]
                n = basename(b)
                if n:
                    note(n, x.args[1][1], e)
            elif x.op == "addr":
                root, path = x.args[0], x.args[1]
                ps = [p for p in path if p[0] == "i"]
                if root[0] == "G" and "bitmasks" in root[1] and ps:
                    note("bitmasks", ps[0][1], e)
            elif x.op == "call" and x.args[0].split("::")[-1] in ("isCount", "isPrint") and len(x.args) > 1:
                note(x.args[0].split("::")[-1], x.args[-1], e)
    for e in S.g.events:
        for c in e.pc:
            scan(c, e)
        for v in e.a.values():
            scan(v, e)
        loc = e.a.get("loc")
        if e.k == "store" and loc is not None:
            ps = [p for p in loc[1]]
            n = None
            if any(p == ("f", "counts_") for p in ps) or loc[0][0] == "A" and "counts_" in repr(loc[0][1]):
                n = "counts_"
            elif any(p == ("f", "kCounts_") for p in ps):
                n = "kCounts_"
            ix = [p[1] for p in ps if p[0] == "i"]
            if n and ix:
                note(n, ix[0], e)
    for i, I in S.L.info.items():
        for n in I["phi"]:
            class E_:
                line, loops = "loop %s" % i, ()
            scan(I["init"].get(n), E_)
            scan(I["next"].get(n), E_)
        if I.get("cond") is not None and isinstance(I["cond"], T):
            scan(I["cond"], E_)
    return out


def basename(b):
    """counts_ / kCounts_ / bitmasks if `b` denotes that array itself"""
    if b.op == "phi" and len(b.args) > 1:
        n = str(b.args[1])
        for k in ("kCounts_", "counts_"):
            if n.endswith(k) or n.endswith(k + ")"):
                return k
        return None
    if b.op == "sel" and isinstance(b.args[1], tuple) and b.args[1][0] == "f" and b.args[1][1] in ("counts_", "kCounts_"):
        return b.args[1][1]
    if b.op == "upd":
        return basename(b.args[0])
    if b.op in ("ld", "deref") or b.op == "sel":
        r = repr(b)
        if b.op == "ld" and "bitmasks" in r and b.args[0][0] == "G":
            return "bitmasks"
    return None


def counters(ck):
    for q, need in (("primesieve::PrintPrimes::countkTuplets", {"counts_", "kCounts_", "isCount"}), ("primesieve::PrintPrimes::initCounts", {"kCounts_", "bitmasks", "isCount"}),
                    ("primesieve::PrintPrimes::printkTuplets", {"bitmasks", "isPrint"}), (PSV + "::processSmallPrimes", {"counts_", "isCount", "isPrint"})):
        for f in ck.prog.fns(q=q):
            S = Summ(ck, f, opaque={"isCount", "isPrint", "nextPrime", "isFlag"})
            ks = kinds_of(S, f)
            seen = {}
            for what, t, line, lp in ks:
                if what in ("bitmasks", "counts_", "kCounts_", "isCount", "isPrint"):
                    seen.setdefault(what, {})[t] = line
            miss = need - set(seen)
            if miss:
                ck.und("counter", at(f), "no use of %s found" % ", ".join(sorted(miss)))
                continue
            idx = {t for d in seen.values() for t in d}
            if len(idx) == 1:
                ck.ok("counter", at(f), "%s are all indexed by %s" % (", ".join(sorted(seen)), short(next(iter(idx)))))
                loops_cover(ck, f, S, next(iter(idx)))
                continue
            bad = None
            l = sorted(idx, key=repr)
            for a in l:
                for b in l:
                    if a is not b:
                        d = sub(a, b)
                        if d.op == "c" and d != ZERO:
                            bad = (a, b)
            fld = {(t.args[1] if t.op == "sel" else None) for t in l}
            if bad is None and len(fld) > 1 and None not in fld and len({t.args[0] for t in l}) == 1:
                bad = (l[0], l[1])
            if bad:
                ck.viol("counter", at(f), "different kinds are mixed: %s" % "; ".join("%s[%s]" % (w, short(t)) for w, d in sorted(seen.items()) for t in d))
            else:
                ck.und("counter", at(f), "indices %s" % "; ".join("%s[%s]" % (w, short(t)) for w, d in sorted(seen.items()) for t in d))
    for f in ck.prog.fns(q="primesieve::PrintPrimes::countPrimes"):
        S = Summ(ck, f, opaque={"popcount", "ceilDiv"})
        st = [e for e in S.g.events if e.k == "store" and "counts_" in repr(e.a["loc"])]
        ix = {p[1] for e in st for p in e.a["loc"][1] if p[0] == "i"}
        if len(ix) == 1:
            ck.same("counter", at(f), next(iter(ix)), C(0), "counter of the primes")
        else:
            ck.und("counter", at(f), "stores to counts_")


def phi_of(S, t):
    """(loop, name, init, next) of a loop-carried value"""
    if isinstance(t, T) and t.op == "phi":
        for i, I in S.L.info.items():
            if t.args[0] == i:
                for n in I["phi"]:
                    if mk("phi", i, n) == t:
                        return i, I, I["init"].get(n), I["next"].get(n)
    return None


def monos(t):
    return [(m, c) for m, c in to_poly(t).items() if m != () or c]


def perbyte(ck):
    import c05
    tab = {t: list(v[t]) for k, g, v in c05.table(ck, "bitmasks") for t in range(1, 6)}
    tab = {t: v[:v.index(c05.ALL) + 1] for t, v in tab.items() if c05.ALL in v}
    for f in ck.prog.fns(q="primesieve::PrintPrimes::countkTuplets"):
        S = Summ(ck, f, opaque={"isCount"})
        st = [e for e in S.g.events if e.k == "store" and "counts_" in repr(e.a["loc"]) and e.a.get("old") is not None]
        if len(st) != 1 or len(st[0].loops) != 1:
            ck.und("perbyte", at(f), "the store to the counter is not recognised")
            continue
        v, old = st[0].a["val"], st[0].a["old"]
        x = sub(v, old)
        if phi_of(S, v):
            ck.viol("perbyte", at(f), "the counter is overwritten by the count of the segment instead of being increased")
            continue
        p = phi_of(S, x)
        if not p:
            ck.und("perbyte", at(f), "the counter grows by %s" % short(x))
            continue
        i, I, init, nxt = p
        ck.same("perbyte", at(f), init, ZERO, "count of the segment before the first byte")
        inc = monos(sub(nxt, x))
        offs, j, bad = [], None, False
        for m, c in inc:
            t = m[0] if len(m) == 1 and c == 1 else None
            ix = t.args[1][1] if t is not None and t.op == "sel" and isinstance(t.args[1], tuple) and t.args[1][0] == "i" else None
            if ix is None or ix.op != "sel" or "sieve_" not in repr(ix) or not isinstance(ix.args[1], tuple) or ix.args[1][0] != "i":
                bad = True
                if t is not None and "kCounts_" in repr(t):
                    bad = "?"
                continue
            k = ix.args[1][1]
            j = j or next((y for y in subterms(k) if y.op == "phi" and y.args[0] == i), None)
            d = sub(k, j) if j is not None else None
            if d is None or d.op != "c":
                bad = "?"
            else:
                offs.append(d.args[0])
        pj = phi_of(S, j) if j is not None else None
        step = sub(pj[3], j) if pj else None
        if bad and any(c > 1 for m, c in inc) and step is not None:
            ck.viol("perbyte", at(f), "a byte is counted more than once: %s" % short(sub(nxt, x)))
        elif bad or step is None or step.op != "c":
            ck.und("perbyte", at(f), "bytes counted: %s" % short(sub(nxt, x)))
        else:
            ck.cond("perbyte", at(f), sorted(offs) == list(range(step.args[0])), "each of the %d bytes of a step is counted once" % step.args[0],
                    "a step of %d bytes counts the bytes +%s" % (step.args[0], sorted(offs)))
            ck.same("perbyte", at(f), pj[2], ZERO, "first byte counted")
            ck.cond("perbyte", at(f), last_byte(pj[1], j), "all bytes of the segment are counted", "the loop over the bytes runs while %s" % short(pj[1]["cond"]))
    for q, what in (("initCounts", "entry"), ("printkTuplets", "print")):
        for f in ck.prog.fns(q="primesieve::PrintPrimes::" + q):
            S = Summ(ck, f, opaque={"isCount", "isPrint", "nextPrime"})
            pat = None
            for i, I in S.L.info.items():
                for n in I["phi"]:
                    t0 = I["init"].get(n)
                    if isinstance(t0, T) and t0.op == "addr" and "bitmasks" in repr(t0):
                        pat = (i, I, mk("phi", i, n), I["next"].get(n))
            if pat is None or not isinstance(pat[1].get("cond"), T):
                ck.und("perbyte", at(f), "loop over the patterns not recognised")
                continue
            i, I, b, nb = pat
            ck.same("perbyte", at(f), nb, add(b, C(1)), "next pattern")
            db = [x for x in subterms(I["cond"]) if x.op == "deref" and x.args[0] == b]
            cond = I["cond"]
            if what == "entry":
                cs = [(mk("phi", i, n), I["next"].get(n)) for n in I["phi"] if mk("phi", i, n) != b and isinstance(I["init"].get(n), T)]
                cs = [(p, n) for p, n in cs if n is not None]
                hit = (lambda E: feval(cs[0][1], dict(E, **{}) | {cs[0][0]: 0})) if len(cs) == 1 else None
                if len(cs) == 1:
                    ck.same("perbyte", at(f), phi_of(S, cs[0][0])[2], ZERO, "number of patterns before the first")
                    stores = [e for e in S.g.events if e.k == "store" and "kCounts_" in repr(e.a["loc"])]
                    if len(stores) == 1:
                        ck.same("perbyte", at(f), stores[0].a["val"], cs[0][0], "entry of the per-byte table")
                atoms = [x for t in (cond, cs[0][1] if cs else ONE) for x in subterms(t) if x.op == "phi" and x != b and (not cs or x != cs[0][0])]
            else:
                ev = [e for e in S.g.events if e.k == "call" and e.a["q"].split("::")[-1] == "nextPrime"]
                g = None
                if len(ev) == 1:
                    g = [c for c in ev[0].pc if b in subterms(c) and not any(x.op == "phi" and x.args[0] != i and x.args[0] in ev[0].loops and x.args[0] not in outerloops(S, I) for x in subterms(c))]
                    g = land(*[c for c in g if c != cond]) if g else None
                hit = (lambda E: feval(g, E)) if g is not None else None
                atoms = [x for t in (cond, g if g is not None else ONE) for x in subterms(t) if x.op == "sel" and "sieve_" in repr(x) and isinstance(x.args[1], tuple) and x.args[1][0] == "i"]
            atoms = list(dict.fromkeys(atoms))
            if hit is None or len(set(db)) != 1 or len(atoms) != 1:
                ck.und("perbyte", at(f), "test of a pattern against a byte not recognised")
                continue
            bad = None
            for t, ms in tab.items():
                for y in range(256):
                    n = 0
                    for m in ms:
                        E = {db[0]: m, atoms[0]: y}
                        go = feval(cond, E)
                        h = hit(E) if go else 0
                        if go is None or h is None:
                            bad = "?"
                            break
                        if not go:
                            break
                        n += int(h)
                    else:
                        bad = bad or (t, y, "runs past the end mark")
                    w = sum(1 for m in ms if m != c05.ALL and m & y == m)
                    if bad is None and n != w:
                        bad = (t, y, "%d patterns are found instead of %d" % (n, w))
                    if bad:
                        break
                if bad:
                    break
            if bad == "?":
                ck.und("perbyte", at(f), "pattern test %s" % short(cond))
            else:
                ck.cond("perbyte", at(f), bad is None, "for all 5 x 256 kinds and bytes the patterns found are those contained in the byte",
                        "" if bad is None else "for %s and the byte 0x%02x %s" % (KIND[bad[0]].lower(), bad[1], bad[2]))
    for f in ck.prog.fns(q="primesieve::PrintPrimes::printkTuplets") + ck.prog.fns(q="primesieve::PrintPrimes::printPrimes"):
        S = Summ(ck, f, opaque={"isPrint", "nextPrime", "littleendian_cast"})
        ev = [e for e in S.g.events if e.k == "call" and e.a["q"].split("::")[-1] == "nextPrime"]
        if len(ev) != 1:
            ck.und("perbyte", at(f), "nextPrime is called at %d places" % len(ev))
            continue
        low = ev[0].a["args"][-1]
        p = phi_of(S, low)
        if not p:
            if low.op == "sel" or low.op == "ld":
                ck.viol("perbyte", at(f), "all bytes are printed relative to %s" % short(low))
            else:
                ck.und("perbyte", at(f), "base of the printed primes: %s" % short(low))
            continue
        idx = {x.args[1][1] for e in S.g.events for c in list(e.pc) + [v for v in e.a.values()] if isinstance(c, T) for x in subterms(c)
               if x.op == "sel" and "sieve_" in repr(x.args[0]) and isinstance(x.args[1], tuple) and x.args[1][0] == "i"}
        for n in p[1]["phi"]:
            t = mk("phi", p[0], n)
            if t in idx or any(("i", t) == y for I2 in S.L.info.values() for m2 in I2["phi"] for x in subterms_of(I2["init"].get(m2)) if x.op == "addr" for y in x.args[1]):
                d, dl = sub(p[1]["next"][n], t), sub(p[3], low)
                ck.same("perbyte", at(f), dl, mul(C(30), d), "growth of the base number per step of the byte index")
                break
        else:
            ck.und("perbyte", at(f), "byte index not recognised")


def outerloops(S, I):
    return set(I.get("outer", ()) or ())


def subterms_of(t):
    return subterms(t) if isinstance(t, T) else ()


def last_byte(I, j):
    c = I.get("cond")
    at_ = [x for x in subterms(c) if "sieveSize_" in repr(x) and x.op in ("sel", "ld")]
    if len(set(at_)) != 1:
        return None
    v = [feval(c, {j: k, at_[0]: 64}) for k in (0, 56, 60, 64)]
    if None in v:
        return None
    return [bool(x) for x in v] == [True, True, True, False]


def loops_cover(ck, f, S, t):
    """a loop over the kinds visits 1..5, each once"""
    if t.op != "phi":
        return
    for i, I in S.L.info.items():
        if t.args[0] != i:
            continue
        for n in I["phi"]:
            if mk("phi", i, n) == t:
                c = I.get("cond")
                ck.same("counter", at(f), I["init"].get(n), C(1), "first k-tuplet kind visited")
                nx = I["next"].get(n)
                if nx is not None:
                    ck.same("counter", at(f), nx, add(t, C(1)), "next kind visited")
                if isinstance(c, T) and c.op in ("lt", "not", "eq") or isinstance(c, T):
                    size = [x for x in subterms(c) if x.op == "call" and x.args[0].split("::")[-1] == "size"]
                    isp = [x for x in subterms(c) if x.op == "call" and x.args[0].split("::")[-1] == "isPrint"]
                    if isp:
                        continue
                    cc = subst(c, {x: C(6) for x in size})
                    vals = [feval(cc, {t: k}) for k in range(1, 8)]
                    if None in vals:
                        ck.und("counter", at(f), "last kind visited: %s" % short(c))
                    else:
                        ck.cond("counter", at(f), [bool(v) for v in vals] == [True] * 5 + [False] * 2, "the kinds 1..5 are visited", "the loop over the kinds runs while %s" % short(c))


def tables(ck):
    c05 = __import__("c05") if "c05" in __import__("sys").modules else importlib.import_module("checks.c05") if False else __import__("c05")
    c05.small_tuples(ck)
    for k, g, v in c05.table(ck, "bitmasks"):
        w = "%s (%s)" % (g["decl"].q, g["l"])
        for t in range(1, 6):
            want = sorted(sum(1 << c05.BITS.index(s + d) for d in pat) for pat in c05.tuples(t) for s in c05.BITS if all(s + d in c05.BITS for d in pat))
            got = list(v[t])
            e = got.index(c05.ALL) if c05.ALL in got else None
            ck.cond("table", w + " [%d]" % t, e is not None and got[:e] == want, "bit patterns of %s" % KIND[t].lower(),
                    "the masks of kind %d (%s) are %s, required are %s and an end mark" % (t, KIND[t].lower(), [hex(x) for x in got], [hex(x) for x in want]))


# ----------------------------------------------------------------- options
def options(ck, V):
    N = "(anonymous namespace)::"
    for q, act in (("optionPrint", "PRINT"), ("optionCount", "COUNT")):
        fs = [f for f in ck.prog.functions.values() if f.name == q and f.file.startswith("lib/primesieve/") and len(f.params) == 2 and f.body is not None]
        if not fs:
            ck.und("option", q, "not found")
        for f in fs:
            S = Summ(ck, f, names=["opt", "opts"], opaque={"getValue"})
            site = at(f)
            stores = [e for e in S.g.events if e.k == "store" and ("f", "flags") in e.a["loc"][1]]
            throws = [e for e in S.g.events if e.k == "throw"]
            gv = {x for e in stores + throws for c in e.pc for x in subterms(c) if x.op == "call" and x.args[0].split("::")[-1].startswith("getValue")}
            phis = {x for e in stores + throws for c in e.pc for x in subterms(c) if x.op == "phi" and len(x.args) > 1}
            if not stores:
                ck.und("option", site, "no flag is set")
                continue
            # in a digit loop, the digit is the loop's number; otherwise the option's value
            inloop = bool(stores[0].loops)
            key = None
            if inloop:
                cand = [p for p in phis if any(init_is_value(S, p) for _ in (0,))]
                key = cand[0] if len(cand) == 1 else None
            elif len(gv) == 1:
                key = next(iter(gv))
            if key is None:
                ck.und("option", site, "the selecting number is not recognised")
                continue
            for d in range(0, 10):
                setv = []
                # the digit as the whole number, in a loop in its first iteration
                num = C(d if not inloop or d else 10)
                at_d = {key: num}
                if inloop:
                    at_d.update({x: num for x in gv})
                for e in stores:
                    g = subst(land(*e.pc) if e.pc else TRUE, at_d)
                    g = drop_positive(g)
                    if g == TRUE:
                        setv.append((subst(e.a["val"], at_d), e))
                    elif g != FALSE:
                        setv.append((None, e))
                th = [e for e in throws if drop_positive(subst(land(*e.pc) if e.pc else TRUE, at_d)) == TRUE]
                s2 = "%s digit %d" % (site, d)
                if any(v is None for v, _ in setv):
                    ck.und("option", s2, "not decided")
                    continue
                if 1 <= d <= 6:
                    if not setv:
                        ck.viol("option", s2, "the digit %d selects nothing" % d)
                        continue
                    want = V["%s_%s" % (act, KIND[d - 1])]
                    v, e = setv[-1]
                    base = [x for x in subterms(v) if "flags" in repr(x) and x.op in ("sel", "ld", "phi")]
                    r = [feval(v, {b: 0 for b in base}), feval(v, {b: 4096 | 2 | 128 for b in base})]
                    if None in r:
                        ck.und("option", s2, "flags become %s" % short(v))
                    else:
                        ck.cond("option", s2, len(setv) == 1 and r == [want, want | 4096 | 2 | 128], "selects %s_%s and keeps the others" % (act, KIND[d - 1]),
                                "the digit %d turns the flags 0 and 0x1082 into %s, required is the bit %d (%s_%s)" % (d, r, want, act, KIND[d - 1]))
                else:
                    if setv:
                        ck.viol("option", s2, "the digit %d, which is not documented, selects %s" % (d, short(setv[0][0])))
                    else:
                        ck.cond("option", s2, True if th else None, "rejected", "")


def init_is_value(S, p):
    for i, I in S.L.info.items():
        if p.args[0] == i:
            v = I["init"].get(p.args[1])
            return v is not None and any(x.op == "call" and x.args[0].split("::")[-1].startswith("getValue") for x in subterms(v))
    return False


def drop_positive(g):
    return g


def labels(ck):
    fs = [f for f in ck.prog.functions.values() if f.name == "sieve" and f.file.endswith("app/main.cpp") and f.body is not None]
    if not fs:
        ck.und("label", "lib/primesieve/src/app/main.cpp", "function sieve not found")
    for f in fs:
        got = None
        for n in f.body.walk():
            if n.k == "InitListExpr":
                ss = [next((x.a["s"] for x in c.walk() if x.k == "StringLiteral"), None) if c is not None else None for c in n.ch]
                if len(ss) >= 6 and None not in ss[:6]:
                    got = (ss, n)
        if got is None:
            for g in ck.prog.globals.values():
                if g.get("init") is not None and "app/main.cpp" in g["l"]:
                    n = g["init"]
                    ss = [next((x.a["s"] for x in c.walk() if x.k == "StringLiteral"), None) if c is not None else None for c in n.ch]
                    if len(ss) >= 6 and None not in ss[:6]:
                        got = (ss, n)
        if got is None:
            ck.und("label", at(f), "label table not found")
        else:
            for i in range(6):
                ck.cond("label", "%s [%d]" % (got[1].line, i), got[0][i].rstrip(" :=") == LABEL[i] if got[0][i].rstrip(" :=") in LABEL else None, "kind %d is labelled %r" % (i, got[0][i]),
                        "the counter of %s is labelled %r" % (KIND[i].lower(), got[0][i]))
        # getCount, isCount and the label share one index
        S = Summ(ck, f, names=["opt"], opaque={"isCount", "getCount", "isPrint", "ParallelSieve", "setFlags", "addFlags", "setSieveSize", "setNumThreads", "setStart", "setStop", "printSettings", "printSeconds", "sieve", "getSeconds", "idealNumThreads"})
        gc = S.calls("getCount")
        if len(gc) != 1:
            ck.und("label", at(f), "getCount is called at %d places" % len(gc))
            continue
        ix = gc[0].a["args"][-1]
        ic = {x.args[-1] for c in gc[0].pc for x in subterms(c) if x.op == "call" and x.args[0].split("::")[-1] == "isCount"}
        lab = set()
        for e in S.g.events:
            if e.k == "call" and e.loops == gc[0].loops:
                for v in list(e.a.get("args") or ()) + [e.a.get("obj")]:
                    for x in labs(v):
                        lab.add(x)
        al = ic | lab | {ix}
        if len(al) == 1 and ic:
            ck.ok("label", at(f), "test, label and counter share the index %s" % short(ix))
            loop06(ck, f, S, ix)
        else:
            df = [sub(a, b) for a in al for b in al if a is not b]
            if any(d.op == "c" and d != ZERO for d in df):
                ck.viol("label", at(f), "test, label and counter use the indices %s" % ", ".join(short(x) for x in al))
            else:
                ck.und("label", at(f), "indices %s" % ", ".join(short(x) for x in al))
        sv = [e for e in S.g.events if e.k == "call" and e.a["q"].split("::")[-1] == "setFlags"]
        for e in sv:
            a = e.a["args"][-1]
            ck.cond("label", at(f), True if "flags" in repr(a) and a.op in ("sel", "ld") else False if a.op == "c" else None, "the sieve gets the selected flags", "the sieve gets the flags %s" % short(a))


def labs(v):
    out = []
    if v is None:
        return out
    st = [v]
    for x in (subterms(v) if isinstance(v, T) else ()):
        if x.op == "sel" and isinstance(x.args[1], tuple) and x.args[1][0] == "i" and "text" in repr(x.args[0])[:60]:
            out.append(x.args[1][1])
        if x.op == "addr" and len(x.args[1]) and x.args[1][-1][0] == "i" and "text" in repr(x.args[0]):
            out.append(x.args[1][-1][1])
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and v[1] and v[1][-1][0] == "i":
        pass
    return out


def loop06(ck, f, S, t):
    if t.op != "phi":
        return
    I = S.L.info.get(t.args[0])
    if I is None:
        return
    n = t.args[1]
    ck.same("label", at(f), I["init"].get(n), C(0), "first kind shown")
    ck.same("label", at(f), I["next"].get(n), add(t, C(1)), "next kind shown")
    c = I.get("cond")
    if isinstance(c, T):
        vals = [feval(c, {t: k}) for k in range(0, 8)]
        if None in vals:
            ck.und("label", at(f), "last kind shown: %s" % short(c))
        else:
            ck.cond("label", at(f), [bool(v) for v in vals] == [True] * 6 + [False] * 2, "the kinds 0..5 are shown", "kinds are shown while %s" % short(c))
