"""C19: memory is released exactly once on every path."""
from throws import Origins
from own import Own, base, smart, unc, CALLK
import own

TITLE = "Memory is released exactly once on every path"


def run(ck):
    ck.rule("paths", "on every path, including those on which an exception is raised, a block is released at most once, never used afterwards, and never lost")
    ck.rule("family", "a block is released by the counterpart of what obtained it (new/delete, new[]/delete[], malloc/free), also across the C API")
    ck.rule("final", "the function that ends the life of an object releases every block the object owns")
    ck.rule("array", "the pointer a C iterator shows its caller points into the current array of its vector")
    ck.rule("handout", "memory handed to a C caller is not released by the library")
    ck.rule("copy", "an object whose destructor releases memory is never copied")
    prog = ck.prog
    T = Origins(prog)
    owning = ownfields(prog)
    rs = roots(prog, owning)
    if len(rs) < 8:
        ck.und("paths", "lib/primesieve", "only %d functions that manage memory found" % len(rs))
    W = Own(prog, T)
    W.owning = set(owning)
    # two rounds: the first finds out which fields point into a vector
    for rnd in (0, 1):
        W.reports = {}
        for f in rs:
            before = set(W.reports)
            W.unk = {}
            fin = isfinal(f)
            try:
                outs, exc = W.root(f, init=isinit(f), final=fin)
            except RecursionError:
                W.unk["recursion"] = 1
                outs, exc = [], []
            if rnd == 0:
                continue
            site = "%s %s" % (f.q, f.l)
            new = [k for k in W.reports if k not in before]
            for k in new:
                r = W.reports[k]
                rule = {"mismatch": "family", "stale": "array", "copy": "copy", "dangling": "handout" if "returned" in r.msg else "paths"}.get(r.kind, "paths")
                ck.viol(rule, "%s %s" % (f.q, r.line), r.msg, key="%s|%s|%s" % (rule, f.q, r.msg))
            for u in W.unk:
                ck.und("paths", site, u)
            if not new and not W.unk:
                ck.ok("paths", site, "%d normal and %d exceptional exits" % (len(outs), len(exc)))
            if fin:
                final(ck, W, f, outs, owning, site)
    owners(ck, W, owning)
    family(ck, W)
    copies(ck, W)


def ownfields(prog):
    """fields that are assigned newly obtained blocks"""
    out = {}
    for f in prog.functions.values():
        if f.body is None or f.file.startswith("/"):
            continue
        for n in f.walk():
            if n.k == "BinaryOperator" and n.get("op") == "=":
                l, r = unc(n.a["args"][0]), unc(n.a["args"][1])
                src = r
                if r.k == "DeclRefExpr" and r.decl() is not None:
                    for m in f.walk():
                        if m.k == "DeclStmt":
                            for d, x in m.a["decls"]:
                                if d is r.decl() and x is not None:
                                    src = unc(x)
                if l.k == "MemberExpr" and (src.k == "CXXNewExpr" or src.k == "CallExpr" and src.decl() is not None and base(src.decl().q).replace("std::", "") in own.ALLOCF | {"realloc"}):
                    if not taken(f, l):
                        out.setdefault(l.decl().n, f)
    return out


def taken(f, l):
    """the function hands the same field to a smart pointer, which then owns the block"""
    for n in f.walk():
        if n.k in CALLK and n.decl() is not None and (n.decl().n in ("reset",) or "unique_ptr" in n.decl().q):
            for a in n.a["args"]:
                x = unc(a)
                if x.k == "MemberExpr" and x.decl() is not None and x.decl().n == l.decl().n:
                    return True
    return False


def isinit(f):
    return f.decl.k == "CXXConstructor" or f.name == "primesieve_init"


def isfinal(f):
    return f.name.startswith("~") or f.name in ("primesieve_free_iterator", "primesieve_free")


def direct(f, owning=()):
    for n in f.walk():
        if owning and n.k == "BinaryOperator" and n.get("op") == "=" and unc(n.a["args"][0]).k == "MemberExpr" and unc(n.a["args"][0]).decl().n in owning:
            return True
        if n.k in ("CXXNewExpr", "CXXDeleteExpr"):
            return True
        if n.k in CALLK and n.decl() is not None and n.decl().is_function:
            q = base(n.decl().q).replace("std::", "")
            if q in own.ALLOCF | own.FREEF | {"realloc"}:
                return True
            if n.decl().n in ("reset", "release") and n.a.get("obj") is not None and smart(n.a["obj"].type()):
                return True
    return False


def roots(prog, owning):
    fs = [f for f in prog.functions.values() if f.body is not None and not f.file.startswith("/")]
    d = {f.key: f for f in fs if direct(f, owning)}
    man = {f.q.rsplit("::~", 1)[0] for f in d.values() if f.name.startswith("~")}
    callers = {}
    for f in fs:
        for n in f.walk():
            if n.k in CALLK and n.decl() is not None:
                g = prog.callee(n)
                if g is not None:
                    callers.setdefault(g.key, set()).add(f.key)
            if n.k == "DeclStmt":
                for x, _ in n.a["decls"]:
                    t = x.type()
                    if t is not None and t.s.replace("const ", "") in man:
                        d.setdefault(f.key, f)
            if n.k == "CXXMemberCallExpr" and n.decl() is not None and any(n.decl().q.startswith(m + "::") for m in man):
                pass
    # callers of file-local helpers that manage memory, and of those that manage a C iterator
    ch = True
    while ch:
        ch = False
        for k, f in list(d.items()):
            if local(f):
                for c in callers.get(k, ()):
                    g = prog.functions[c]
                    if c not in d and g.file == f.file:
                        d[c] = g
                        ch = True
    for f in fs:
        if isfinal(f) and not f.name.startswith("~"):
            d.setdefault(f.key, f)
    out, seen = [], set()
    for f in d.values():
        if local(f) and any(prog.functions[c].file == f.file for c in callers.get(f.key, ())) and not f.name.startswith("~"):
            if f.decl.get("rec") is None and not any(prog.functions[c].decl.get("externc") is None for c in ()):
                if not templ(f):
                    continue
        if any(f.q.startswith(m + "::") for m in man) and not f.name.startswith("~") and not f.decl.k == "CXXConstructor" and not direct(f):
            continue
        if (f.q, f.l) in seen and not f.q.endswith(">"):
            if f.name not in ("get_primes", "get_n_primes"):
                continue
        if (f.q.split("<")[0], f.l) in seen:
            continue
        seen.add((f.q, f.l))
        seen.add((f.q.split("<")[0], f.l))
        out.append(f)
    return out


def templ(f):
    return bool(f.targs) if hasattr(f, "targs") else False


def local(f):
    return "(anonymous namespace)" in f.q or f.decl.get("static")


def final(ck, W, f, outs, owning, site):
    mine = {n for n, g in owning.items() if g.file == f.file or g.q.rsplit("::", 1)[0] == f.q.rsplit("::", 1)[0]}
    p = f.params[0].n if f.params else None
    if f.name == "primesieve_free":
        bad = [s for s, v in outs if not any(isinstance(k, tuple) and k[0] == "freed" for k in s) and s.get(("t", ("E", "P:" + (p or "")))) is not False]
        ck.cond("final", site, not bad, "frees its argument once", "does not free its argument on some path")
        return
    for n in sorted(mine):
        bad = None
        for s, v in outs:
            root = ("E", "P:" + p) if p else None
            if root is not None and s.get(("t", root)) is False:
                continue
            keys = [k for k in s if isinstance(k, str) and k.endswith("." + n)]
            fr = [k for k in s if isinstance(k, tuple) and k[0] == "freed" and (k[1][0] == "blk" or k[1][1].endswith("." + n))]
            nul = [k for k in s if isinstance(k, tuple) and k[0] == "t" and k[1][0] == "E" and k[1][1].endswith("." + n) and s[k] is False]
            flag = [k for k in s if isinstance(k, tuple) and k[0] == "t" and k[1][0] == "E" and isinstance(k[1][1], str) and s[k] is False and k[1][1].startswith("this.")]
            if not fr and not nul and not flag:
                bad = n
        ck.cond("final", site, bad is None, "releases %s" % n, "%s is not released on some path" % n)


def family(ck, W):
    fk = [x for x in getattr(W, "freedkinds", ()) if x[0].startswith("P:")]
    for nm, how, line in fk:
        if "malloc" in W.kinds or W.kinds:
            ck.cond("family", line, how in W.kinds, "memory handed out is obtained with malloc and released with free", "memory handed out is obtained with %s and released as if obtained with %s" % (", ".join(sorted(W.kinds)), how))


def copies(ck, W):
    man = W.manual()
    n = 0
    for f in ck.prog.functions.values():
        if f.body is None or f.file.startswith("/"):
            continue
        for x in f.walk():
            if x.k == "CXXConstructExpr" and W.manualrec(x.type()):
                n += 1
                a = x.a["args"]
                if len(a) == 1 and W.recname(a[0].type()) == W.recname(x.type()) and not x.get("elide"):
                    g = ck.prog.callee(x)
                    if g is None or g.body is None:
                        ck.viol("copy", "%s %s" % (f.q, x.line), "an object that owns memory is copied: both copies release it")
    ck.ok("copy", "classes that release memory in their destructor", "%s: %d constructions" % (", ".join(sorted({m.split("<")[0] for m in man})), n))


def owners(ck, W, owning):
    """a class that stores blocks it obtained has a destructor which releases them"""
    for n, f in sorted(owning.items()):
        if f.decl.get("rec") is None:
            continue
        cls = f.q.rsplit("::", 1)[0]
        site = "%s::%s" % (cls, n)
        if cls in W.manual():
            ck.ok("final", site, "released by %s" % W.manual()[cls].q)
        elif any(g.q == cls + "::~" + cls.split("::")[-1].split("<")[0] or g.q.startswith(cls + "::~") for g in ck.prog.functions.values() if g.body is not None and any(y.k in CALLK for y in g.walk())):
            ck.und("final", site, "whether the destructor releases the block")
        else:
            ck.viol("final", site, "%s keeps blocks it obtained (%s) in a raw pointer and no destructor releases them" % (cls, f.q))
