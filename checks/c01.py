"""C01: parallel regions are free of data races."""
import effects, regions
from effects import strip, id_of, norm
from sites import site

TITLE = "No two workers access the same location unsynchronised with one of them writing"


def overlap(p, q):
    n = min(len(p), len(q))
    for a, b in zip(p[:n], q[:n]):
        if a[0] != b[0]:
            return False
        if a[0] == "f" and a[1] != b[1]:
            return False
        if a[0] == "[]" and a[1] and b[1] and a[1][0] == "c" and b[1][0] == "c" and a[1] != b[1]:
            return False
    return True


def show(R, a, names):
    r = a.root
    o = {"P": lambda: R.fn.params[r[1]].n, "T": lambda: "this", "G": lambda: r[1].split("@")[-1], "L": lambda: names.get(r[1], "?"),
         "U": lambda: "?", "N": lambda: "new"}[r[0]]()
    for e in a.path:
        o += "." + e[1] if e[0] == "f" else "->" if e[0] == "*" else "[]"
    return o


def slot(R, p):
    """position of the path element indexed by the worker's own iteration number"""
    for i, e in enumerate(p):
        if e[0] == "[]" and e[1] and e[1][0] == "v" and e[1][1] in R.itervars:
            return i
    return None


def varying(R, p):
    """an index computed from variables private to the worker: which elements a
    worker touches is a question about values (intervals), not about sharing"""
    for e in p:
        if e[0] == "[]":
            if e[1] is None:
                return True
            if e[1][0] == "v" and e[1][1] in R.private:
                return True
            if e[1][0] == "e" and any(d in R.private for d in e[1][1]):
                return True
    return False


def elem_packed(R, a, E):
    """slots of a vector<bool> or bitset share bytes"""
    for n in [a.node] + list(a.via):
        if n is None:
            continue
        for m in n.walk():
            t = m.type()
            if t is not None and t.strip_ref().s.replace("const ", "").startswith(("std::vector<bool", "std::bitset")):
                return True
    return False


def where(a):
    s = regions.site_of(a)
    o = s.line
    if a.via and a.node is not None and a.node.line != s.line:
        o += " -> " + a.node.line
    return o


def run(ck):
    ck.rule("private-or-slot", "a location written by a worker is private to it, a slot indexed by its own iteration number, or a reduction variable")
    ck.rule("lock-consistent", "a location written under a lock is accessed only under the same held lock in every concurrent worker")
    ck.rule("slot-reads", "an element written by the worker of its index is read only by that worker during the region")
    ck.rule("reduction-use", "a reduction variable is only updated with its own operator inside the region")
    ck.rule("reentrant-library", "workers call no library function with hidden static state")
    ck.rule("try-lock-released", "a scoped try-lock releases the lock exactly when it was acquired")
    ck.assumptions.append("OpenMP and std::async synchronise at the region's end; standard streams and atomics are internally synchronised")
    ck.assumptions.append("containers' const member functions only read; memory reached through a worker-private owner (unique_ptr, container) is private")
    E = effects.Effects(ck.prog)
    regs = regions.regions(ck.prog)
    for R in regs:
        region(ck, E, R)
    locks(ck, E)
    import c02
    c02.factor_table(ck)
    ck.need("private-or-slot", 6)


def region(ck, E, R):
    s = "%s (%s)" % (site(R.fn), R.line)
    names = {id_of(x.decl()): x.decl().n for x in R.fn.walk() if x.decl() is not None}
    for n in R.fn.walk():
        if n.k == "DeclStmt":
            for d, _ in n.a["decls"]:
                names[id_of(d)] = d.n
    accs = list(regions.accesses(E, R))
    sh = [a for a in accs if regions.shared(R, a) and not (a.root[0] == "G" and a.root[1].startswith("std::c"))]
    writes = [a for a in sh if a.w]
    n_ok = 0
    done = set()
    for w in writes:
        key = (w.root, norm(w.path), w.locks)
        if key in done:
            continue
        nm = show(R, w, names)
        if is_sync(w):
            continue
        # (initialisation of an object under construction in this thread only)
        sl = slot(R, w.path)
        if w.locks:
            done.add(key)
            bad = None
            for o in sh:
                if o.root == w.root and overlap(o.path, w.path) and not (o.locks & w.locks) and not is_sync(o):
                    if not ctor_only(o):
                        bad = o
                        break
            if bad is None:
                ck.ok("lock-consistent", s, "%s: every access in the region holds the same lock" % nm)
            else:
                ck.viol("lock-consistent", s, "%s is written under a lock at %s but %s without it at %s" % (nm, where(w), "written" if bad.w else "read", chain(bad)))
            continue
        if sl is not None:
            done.add(key)
            if elem_packed(R, w, E):
                ck.viol("private-or-slot", s, "workers write neighbouring bits of %s at %s: elements of a packed bool vector share a memory location" % (nm, where(w)))
                continue
            bad = None
            for o in sh:
                if o.root != w.root or not overlap(o.path[:sl + 1], w.path[:sl + 1]) or len(o.path) <= sl:
                    continue
                os_ = slot(R, o.path)
                if os_ == sl:
                    continue
                if o.path[sl][1] is None and not o.w:
                    continue            # element not known
                if o.w is False and len(o.path) > sl and o.path[sl][1] and o.path[sl][1][0] == "e" and not (set(o.path[sl][1][1]) & R.itervars):
                    continue
                bad = o
                break
            if bad is None:
                ck.ok("slot-reads", s, "%s: element of the worker's own index only" % nm)
            else:
                ck.viol("slot-reads", s, "%s: an element written by one worker at %s is %s with another index at %s" % (nm, where(w), "written" if bad.w else "read", where(bad)))
            continue
        if w.root[0] == "U":
            done.add(key)
            ck.und("private-or-slot", s, "write through a pointer of unknown origin at %s" % where(w))
            continue
        if opaque_ptr(R, w):
            done.add(key)
            ck.und("private-or-slot", s, "%s written at %s: origin of the pointer not tracked" % (nm, where(w)))
            continue
        if varying(R, w.path):
            done.add(key)
            ck.und("private-or-slot", s, "%s: elements written at %s depend on the worker's interval (disjointness of the intervals is decided by the tiling rules)" % (nm, where(w)))
            continue
        done.add(key)
        ck.viol("private-or-slot", s, "every worker writes the shared location %s at %s without synchronisation" % (nm, where(w)))
    # private writes, for the record
    priv = {(a.root, norm(a.path)) for a in accs if a.w and not regions.shared(R, a)}
    ck.ok("private-or-slot", s, "%d locations written by a worker are its own (declared in the region, private, or reduction)" % len(priv))
    # reduction variables
    for d, op in R.reduction.items():
        for n in R.body.walk():
            if n.k == "DeclRefExpr" and n.decl() is not None and id_of(n.decl()) == d:
                p = n.parent
                while p is not None and p.k in effects.STRIP:
                    p = p.parent
                good = None
                if p is not None:
                    o = p.a.get("op")
                    base = (op or "operator+").replace("operator", "")
                    if p.k == "CompoundAssignOperator" or p.k == "CXXOperatorCallExpr" and o in ("+=", "-=", "*=", "|=", "&=", "^=", "="):
                        first = strip(p.a["args"][0])
                        if first is n and o == base + "=" or (base == "+" and o == "-="):
                            good = True
                        elif first is n and o == "=":
                            good = None
                        elif first is n:
                            good = False
                    elif p.k == "UnaryOperator" and o in ("++", "--") and base == "+":
                        good = True
                    elif p.k == "BinaryOperator" and o == "=" and strip(p.a["args"][0]) is n:
                        # x = x + e
                        r = strip(p.a["args"][1])
                        if r.k in ("BinaryOperator", "CXXOperatorCallExpr") and r.a.get("op") == base:
                            good = True
                    elif p.k in ("BinaryOperator", "CXXOperatorCallExpr") and o == base:
                        good = True
                if good:
                    ck.ok("reduction-use", s, "%s updated with %s" % (n.decl().n, base))
                elif good is None:
                    ck.und("reduction-use", s, "use of %s at %s" % (n.decl().n, n.line))
                else:
                    ck.viol("reduction-use", s, "reduction variable %s (operator %s) is updated with %s at %s" % (n.decl().n, base, o, n.line))
    # library functions with static state
    seen, todo = set(), [(R.body, R.fn)]
    bad = None
    cnt = 0
    while todo:
        b, f = todo.pop()
        for n in b.walk():
            if n.k in effects.CALLS and n.decl() is not None:
                d = n.decl()
                if d.n in regions.THREADUNSAFE and not d.q.startswith("primes"):
                    bad = (d.n, n.line)
                for g in E.targets(n):
                    if g.key not in seen and g.body is not None:
                        seen.add(g.key)
                        todo.append((g.body, g))
        cnt += 1
    ck.cond("reentrant-library", s, bad is None, "%d functions reachable from the region call reentrant library code only" % cnt, "workers call %s at %s" % (bad or ("", "")))


def is_sync(a):
    """accesses by the lock implementation itself, or of an atomic"""
    n = a.node
    if n is None:
        return False
    if n.k in effects.CALLS and n.decl() is not None and n.decl().n.startswith(("omp_", "pthread_mutex")):
        return True
    p = a.path[-1] if a.path else None
    if a.fn is not None and p is not None:
        for m in n.walk():
            t = m.type()
            if t is not None and ("std::mutex" in t.strip_ref().s or "omp_lock_t" in t.strip_ref().s or "OmpLock" in t.strip_ref().s or "std::atomic" in t.strip_ref().s):
                if m.k in ("MemberExpr", "DeclRefExpr") and m.decl() is not None and (m.decl().n == p[1]):
                    return True
    t = None
    for m in (n.walk()):
        if m.k == "DeclRefExpr" and m.decl() is not None and a.root == ("L", id_of(m.decl())) and m.type() is not None:
            t = m.type().strip_ref().s
            if "std::atomic<" in t or "std::mutex" in t:
                return True
    return False


def ctor_only(a):
    return a.node is None


def opaque_ptr(R, a):
    """reached through a pointer member of a shared object whose target is unknown"""
    for i, e in enumerate(a.path):
        if e[0] == "*" and a.root[0] in ("T", "P", "G"):
            return True
    return False


def locks(ck, E):
    """scoped lock classes of the program"""
    from terms import mk
    for f in E.fns:
        if not f.decl.n.startswith("~") or f.body is None:
            continue
        rel = [n for n in f.body.walk() if n.k in effects.CALLS and n.decl() is not None and n.decl().n in ("omp_unset_lock", "unlock")]
        if not rel:
            continue
        rec = f.decl.get("rec")
        ctors = [g for g in E.fns if g.decl.get("rec") == rec and g.decl.k == "CXXConstructor" and g.body is not None and g.params and not g.a.get("implicit")]
        for c in ctors:
            acq = [n for n in c.body.walk() if n.k in effects.CALLS and n.decl() is not None and n.decl().n in ("omp_test_lock", "try_lock", "omp_set_lock", "lock")]
            if not acq:
                continue
            s = site(c)
            tries = acq[0].decl().n in ("omp_test_lock", "try_lock")
            # the member that stores the result
            fld = None
            neg = False
            p = acq[0].parent
            while p is not None:
                if p.k == "BinaryOperator" and p.a.get("op") in ("==",) :
                    neg = not neg if any(strip(x).cv() == 0 for x in p.a["args"]) else neg
                if p.k == "UnaryOperator" and p.a.get("op") == "!":
                    neg = not neg
                if p.k == "BinaryOperator" and p.a.get("op") == "=":
                    l = strip(p.a["args"][0])
                    if l.k == "MemberExpr":
                        fld = l.decl().n
                    break
                p = p.parent
            if tries and fld is None:
                ck.und("try-lock-released", s, "result of the attempt is not stored in a member")
                continue
            good = None
            x = rel[0]
            q = x.parent
            cond = None
            child = x
            while q is not None:
                if q.k == "IfStmt":
                    cond = (q.a.get("cond"), q.a.get("then") is child)
                    break
                child, q = q, q.parent
            if tries:
                if cond is None:
                    good = False
                else:
                    c0 = strip(cond[0])
                    ng = not cond[1]
                    while c0.k == "UnaryOperator" and c0.a.get("op") == "!":
                        ng = not ng
                        c0 = strip(c0.a["args"][0])
                    if c0.k == "MemberExpr" and c0.decl().n == fld:
                        good = (ng == neg)
            else:
                good = cond is None or None
            ck.cond("try-lock-released", s, good, "the destructor releases the lock exactly when the constructor acquired it",
                    "the destructor releases the lock although it was not acquired, or keeps it although it was")


def chain(a):
    return " -> ".join(n.line for n in a.via) + (" -> " if a.via else "") + (a.node.line if a.node is not None else "")
