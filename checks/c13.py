"""C13: the C API reports errors and lets no exception escape."""
from terms import *
from loops import *
from summ import Summ, summ
from harness import short
from throws import Throws
import gvn

TITLE = "The C API reports errors and lets no exception escape"
EDOM = 33
ERR = (1 << 64) - 1
WIDTH = {"SHORT": (16, False), "USHORT": (16, True), "INT": (32, False), "UINT": (32, True), "LONG": (64, False), "ULONG": (64, True),
         "LONGLONG": (64, False), "ULONGLONG": (64, True), "INT16": (16, False), "UINT16": (16, True), "INT32": (32, False), "UINT32": (32, True),
         "INT64": (64, False), "UINT64": (64, True)}
WRAP = {"nth_prime", "count_primes", "count_twins", "count_triplets", "count_quadruplets", "count_quintuplets", "count_sextuplets",
        "print_primes", "print_twins", "print_triplets", "print_quadruplets", "print_quintuplets", "print_sextuplets",
        "get_sieve_size", "get_num_threads", "set_sieve_size", "set_num_threads", "get_max_stop", "store_primes", "store_n_primes"}


def run(ck):
    ck.rule("escape", "no C++ exception leaves a function with C linkage")
    ck.rule("error", "after a caught exception the function has set errno to EDOM and returns its documented error value (array functions: nullptr and a size of 0)")
    ck.rule("success", "without an exception the function hands its arguments unchanged to the C++ function of the same name and returns its result")
    ck.rule("selector", "each element-type selector fills an array of exactly that width and signedness; other selectors are rejected as an error")
    ck.rule("iterator", "after a caught exception the C iterator returns PRIMESIEVE_ERROR from memory it owns, and holds no generator")
    th = Throws(ck.prog)
    fs = [f for f in ck.prog.functions.values() if f.decl.get("externc") and f.body is not None and f.file.startswith("lib/primesieve/src/")]
    if len(fs) < 20:
        ck.und("escape", "lib/primesieve/src", "only %d functions with C linkage found" % len(fs))
    for f in fs:
        esc(ck, th, f)
        n = f.name[len("primesieve_"):] if f.name.startswith("primesieve_") else f.name
        if n in WRAP:
            wrapper(ck, th, f, n)
    arrays(ck, th)
    selectors(ck)
    iterator(ck)


def where(f):
    return "%s %s" % (f.q, f.l)


def esc(ck, th, f):
    raw = th.raw(f)
    bad = 0
    for (t, lab), w in sorted(raw.items()):
        if t == "?":
            ck.und("escape", where(f), "unknown whether %s throws" % lab)
            bad = 1
            continue
        bad = 1
        ck.viol("escape", where(f), "%s can leave the function: %s" % (t, " -> ".join((w[0],) + w[1]) if w else lab),
                key="escape %s %s %s" % (f.name, t, "handler" if lab == "handler" else "body"))
    if not bad:
        ck.ok("escape", where(f), "no exception leaves (exception flow over %d callees)" % len(th.memo))


def excs(t):
    return [x for x in subterms(t) if x.op == "bvar" and isinstance(x.args[0], tuple) and x.args[0][:1] == ("exc",)]


def has_exc(pc):
    return [x for c in pc for x in excs(c)]


def fails(S):
    """the ways in which the function fails: (description, condition)"""
    return [e for e in S.g.events if e.k == "catch"]


def errno_stores(S):
    out = []
    for e in S.g.events:
        if e.k == "store" and e.a["loc"][0][0] == "A" and isinstance(e.a["loc"][0][1], T) and "errno" in repr(e.a["loc"][0][1]) and not e.a["loc"][1]:
            out.append(e)
    return out


def pcs(e):
    return land(*e.pc) if e.pc else TRUE


def fallible(th, cpp):
    return any(th.of(g) for g in cpp)


def final(S, on):
    """substitution for 'nothing was thrown' / 'something was caught'"""
    atoms = set()
    for e in S.g.events:
        for x in has_exc(e.pc):
            atoms.add(x)
    if S.ret is not None:
        atoms |= set(excs(S.ret))
    return {a: TRUE if on else FALSE for a in atoms}


def checkerr(ck, S, rule="error"):
    """errno is EDOM on every path through a handler"""
    st = errno_stores(S)
    cond = lor(*[pcs(e) for e in st]) if st else FALSE
    for e in st:
        ck.same(rule, "%s %s" % (S.site, e.line), e.a["val"], C(EDOM), "errno")
    cs = fails(S)
    for c in cs:
        ok, w = same(lor(bnot_(pcs(c)), cond), TRUE)
        if ok is None:
            ck.und(rule, "%s %s" % (S.site, c.line), "errno is set after an exception")
        elif ok:
            ck.ok(rule, "%s %s" % (S.site, c.line), "errno = EDOM after an exception")
        else:
            ck.viol(rule, "%s %s" % (S.site, c.line), "an exception is caught here and errno is not set to EDOM")
    return cs


def calls(S, n, ns="primesieve::"):
    return [e for e in S.g.events if e.k == "call" and e.a["q"].split("<")[0] == ns + n]


def tsame(ck, rule, site, got, want, what):
    if any(x.op == "eff" and x.args[0] == "try" for x in subterms(got)):
        ck.und(rule, site, "%s: depends on how far the try block got: %s" % (what, short(got)))
    else:
        ck.same(rule, site, got, want, what)


def wrapper(ck, th, f, n):
    opq = WRAP - {f.name}
    S = Summ(ck, f, opaque=opq)
    cs = calls(S, n)
    other = [e for e in S.g.events if e.k == "call" and e.a["q"].startswith("primesieve::") and e.a["q"].split("::")[-1] in WRAP and e.a["q"] != "primesieve::" + n]
    site = where(f)
    if not cs:
        if other:
            ck.viol("success", site, "calls %s instead of %s" % (other[0].a["q"], n))
        else:
            ck.und("success", site, "no call of primesieve::%s" % n)
        return
    e = cs[0]
    cpp = ck.prog.fns(q="primesieve::" + n)
    good = len(cs) == 1 and not other
    if not good:
        ck.und("success", site, "several calls")
    else:
        want = [mk("var", p.n) for p in f.params]
        args = list(e.a["args"])
        if len(args) != len(want):
            ck.und("success", site, "arguments")
        for i, (a, b) in enumerate(zip(args, want)):
            ck.same("success", site, a, b, "argument %d of %s" % (i + 1, n))
        ok, _ = same(subst(pcs(e), final(S, False)), TRUE)
        ck.cond("success", site, True if ok else None if ok is None else False, "called on every path", "%s is called only under %s" % (n, short(pcs(e))))
    fal = fallible(th, cpp)
    hs = checkerr(ck, S)
    if fal and not hs:
        ck.und("error", site, "%s can throw and no handler is found (see escape)" % n)
    rt = f.ret
    if rt is None or rt.k == "void" or S.ret is None:
        return
    r0 = subst(S.ret, final(S, False))
    c0 = [x for x in subterms(r0) if x.op == "call" and x.args[0].split("::")[-1].split("<")[0] == n]
    if c0:
        ck.same("success", site, r0, c0[0], "result")
    elif r0.op == "c" or not [x for x in subterms(r0) if x.op in ("call", "eff", "out", "opq")]:
        ck.viol("success", site, "returns %s, not the result of %s" % (short(r0), n))
    else:
        ck.und("success", site, "result %s" % short(r0))
    if hs:
        tsame(ck, "error", site, subst(S.ret, final(S, True)), C(ERR), "value returned after an exception")


# ------------------------------------------------------------------ arrays
def sub_case(t, v):
    return subst(t, {mk("var", "type"): C(v)})


def live(e, v):
    p = sub_case(pcs(e), v)
    return None if p == FALSE else p


def enums(ck):
    for k, en in ck.prog.enums.items():
        ns = [x["name"] for x in en["e"]] if isinstance(en, dict) and "e" in en else []
        if "INT64_PRIMES" in ns or "UINT64_PRIMES" in ns or "SHORT_PRIMES" in ns:
            return {x["name"]: int(x["v"]) for x in en["e"]}
    return {}


def elem(ck, e):
    f = ck.prog.functions.get(e.a["key"])
    d = f.decl if f is not None else e.a["decl"]
    ts = f.params[-1].type().strip_ref() if f is not None and f.params else None
    if ts is None:
        return None
    a = ts.targs()
    return a[0] if a else None


def arrays(ck, th):
    en = enums(ck)
    for q, n, named in (("primesieve_generate_primes", "store_primes", ["start", "stop", "size", "type"]), ("primesieve_generate_n_primes", "store_n_primes", ["n", "start", "type"])):
        for f in ck.prog.fns(q=q):
            S = Summ(ck, f, names=named, opaque={"store_primes", "store_n_primes", "count_primes"})
            site = where(f)
            cs = calls(S, n)
            oth = calls(S, "store_n_primes" if n == "store_primes" else "store_primes")
            if oth:
                ck.viol("success", site, "uses %s" % oth[0].a["q"])
            if not cs:
                ck.und("success", site, "no call of %s" % n)
                continue
            checkerr(ck, S)
            st = errno_stores(S)
            size = S.g.final.mem.get(("P", "size")) if n == "store_primes" and S.g.final is not None else None
            for name, v in sorted(en.items(), key=lambda x: x[1]):
                base = name[:-len("_PRIMES")] if name.endswith("_PRIMES") else name
                if base not in WIDTH:
                    ck.und("selector", site, "unknown selector %s" % name)
                    continue
                lv = [e for e in cs if live(e, v) is not None]
                s2 = "%s %s" % (q, name)
                if not lv:
                    ck.viol("selector", s2, "the selector %s reaches no call of %s" % (name, n))
                    continue
                ts = [elem(ck, e) for e in lv]
                if len(lv) > 1 or ts[0] is None:
                    ck.und("selector", s2, "%d calls" % len(lv))
                    continue
                t, want = ts[0], WIDTH[base]
                ck.cond("selector", s2, (t.bits, bool(t.unsigned)) == want, "element type %s" % t.s,
                        "the selector %s yields elements of type %s (%d bits, %s)" % (name, t.s, t.bits, "unsigned" if t.unsigned else "signed"))
                e = lv[0]
                for i, w in enumerate(named[:2]):
                    ck.same("success", s2, e.a["args"][i], mk("var", w), "argument %d of %s" % (i + 1, n))
                body(ck, S, s2, e, v, size, st)
            bad = [-1, max(en.values()) + 1, 1000000] if en else []
            for v in bad:
                s2 = "%s selector %d" % (q, v)
                reach = [e for e in cs if live(e, v) is not None]
                if reach:
                    ck.viol("selector", s2, "the selector %d, which names no type, reaches %s" % (v, reach[0].a["q"]))
                    continue
                ck.same("selector", s2, sub_case(S.ret, v), C(0), "returned for an unknown selector")
                cond = lor(*[sub_case(pcs(e), v) for e in st]) if st else FALSE
                ok, _ = same(cond, TRUE)
                ck.cond("selector", s2, ok, "errno = EDOM for an unknown selector", "errno is not set for an unknown selector")
                if n == "store_primes":
                    sizes(ck, S, s2, size, v, {}, C(0), "selector")


def sizes(ck, S, s2, size, v, mp, want, rule):
    if size is None:
        ck.und(rule, s2, "size is not written")
        return
    got = nonnull(subst(sub_case(size, v), mp))
    tsame(ck, rule, s2, got, want, "*size")


def nonnull(t):
    """the caller passed a pointer for size"""
    a = mk("addr", ("P", "size"), ())
    return subst(t, {x: ONE for x in subterms(t) if x.op == "cmp" and a in x.args or x.op == "var" and x.args[0] == "size"})


def body(ck, S, s2, e, v, size, st):
    """success and failure of the array function for one selector"""
    ret = sub_case(S.ret, v)
    on = final(S, True)
    off = final(S, False)
    tsame(ck, "error", s2, subst(ret, on), C(0), "returned after an exception")
    if size is not None:
        sizes(ck, S, s2, size, v, on, C(0), "error")
    # nothing thrown: every throw statement's condition is false
    asm = [bnot_(subst(sub_case(pcs(x), v), off)) for x in S.g.events if x.k == "throw" and live(x, v) is not None and not x.loops]
    r = simp(subst(ret, off), asm)
    sz = simp(nonnull(subst(sub_case(size, v), off)), asm) if size is not None else None
    fr, fs = accessor(ck, "data"), accessor(ck, "size")
    if fr is None or fs is None:
        ck.und("success", s2, "accessors of malloc_vector")
        return
    b = strip(r, fr)
    if b is None:
        if r.op == "c":
            ck.viol("success", s2, "returns %s without an exception" % short(r))
        else:
            ck.und("success", s2, "result %s" % short(r))
        return
    filled = [x for x in subterms(b) if x.op in ("call", "out", "eff") and "store_" in repr(x)[:4000]]
    ck.cond("success", s2, bool(filled), "returns the array filled by the C++ function", "the returned array %s is not the one the C++ function filled" % short(b))
    if size is not None:
        ss = [x for x in subterms(sz) if x.op == "sel" and x.args[1] == fs and core(x.args[0]) == core(b)]
        if len(ss) == 1:
            ck.same("success", s2, sz, ss[0], "*size is the size of the returned array")
        elif sz.op == "c":
            ck.viol("success", s2, "*size is %s" % short(sz))
        else:
            ck.und("success", s2, "*size is %s" % short(sz))


def core(b):
    while b.op == "upd":
        b = b.args[0]
    return b


def strip(t, path):
    """X if t is the field `path` of X"""
    if t.op == "sel" and t.args[1] == path:
        return t.args[0]
    return None


_acc = {}


def accessor(ck, meth):
    if meth in _acc:
        return _acc[meth]
    r = None
    for f in ck.prog.functions.values():
        if f.name == meth and "malloc_vector" in f.q and f.body is not None and not f.params:
            t = Summ(ck, f).ret
            if t is not None and t.op == "sel":
                r = t.args[1]
            break
    _acc[meth] = r
    return r


def simp(t, asm):
    """prune conditionals decided by the assumptions"""
    mp = {}
    for a in asm:
        mp[a] = TRUE
        mp[bnot_(a)] = FALSE
        if a.op == "land":
            for x in a.args:
                mp[x] = TRUE
                mp[bnot_(x)] = FALSE
    return subst(t, mp)


def selectors(ck):
    en = enums(ck)
    vs = list(en.values())
    ck.cond("selector", "lib/primesieve/include/primesieve.h", len(set(vs)) == len(vs) if vs else None, "%d selectors with distinct values" % len(vs), "two selectors share a value")


# ---------------------------------------------------------------- iterator
def iterator(ck):
    for q in ("primesieve_generate_next_primes", "primesieve_generate_prev_primes"):
        for f in ck.prog.fns(q=q):
            S = Summ(ck, f, names=["it"], opaque={"next", "prev", "fill"})
            site = where(f)
            hs = checkerr(ck, S, "iterator")
            if not hs:
                ck.und("iterator", site, "no handler found")
                continue
            on = final(S, True)

            def fld(n):
                return subst(S.field(n, "it"), on)
            err = [e for e in S.g.events if e.k == "store" and has_exc(e.pc) and e.a["loc"][1][-1:] == (("i", ZERO),) and e.a["val"] == C(ERR)]
            vec = None
            if not err:
                ck.und("iterator", site, "no element set to PRIMESIEVE_ERROR is found")
                bad = [e for e in S.g.events if e.k == "store" and has_exc(e.pc) and e.a["loc"][1][-1:] == (("i", ZERO),) and e.a["val"].op == "c"]
                if bad:
                    ck.viol("iterator", "%s %s" % (site, bad[0].line), "the value returned after an exception is %s" % short(bad[0].a["val"]))
            else:
                ck.ok("iterator", site, "element 0 is PRIMESIEVE_ERROR")
                vec = mk("addr", err[0].a["loc"][0], err[0].a["loc"][1])
                p = fld("primes")
                if p == vec:
                    ck.ok("iterator", site, "primes points to that element")
                elif stale(p):
                    ck.viol("iterator", site, "primes keeps the pointer it had when the exception came (%s): it may be unset or dangling" % short(p))
                else:
                    ck.und("iterator", site, "primes is %s" % short(p))
            for n, w in (("is_error", TRUE), ("primeGenerator", ZERO)):
                g = fld(n)
                if stale(g):
                    ck.viol("iterator", site, "%s is not set after an exception (%s)" % (n, short(g)))
                else:
                    ck.same("iterator", site, tonum(g), tonum(w) if n == "is_error" else w, n + " after an exception")
            sz = [x for x in subterms(fld("last_idx")) | subterms(fld("i")) if x.op == "call" and x.args[0].split("::")[-1] == "size" and "resize" in repr(x)]
            mp = {}
            for x in sz:
                rs = [y for y in subterms(x) if y.op == "eff" and y.args[0].endswith("::resize")]
                if len(rs) == 1 and rs[0].args[-1].op == "c":
                    mp[x] = rs[0].args[-1]
            for n in ("i", "last_idx"):
                g = subst(fld(n), mp)
                if stale(g):
                    ck.viol("iterator", site, "%s is not set after an exception (%s)" % (n, short(g)))
                else:
                    ck.same("iterator", site, g, ZERO, n + " after an exception")


def stale(t):
    """the value an interrupted try block left behind"""
    return t.op == "eff" and t.args[0] == "try" or t.op == "sel" and t.args[0].op in ("ld", "phi") or t.op == "out"
