"""C15: sieving-prime storage never overflows or loses an entry.

Bit packing and bucket addressing are decided on the value graphs of the
accessors, the full-test-before-store protocol on the syntax tree of every
function that takes a slot, list handling (linking, recycling, moving to the
next segment) on value graphs and the order of their effects, and the ranges of
the packed fields on the configuration constants."""
import re
from terms import T, mk, subterms
from points import Ev, Fun, Unknown
from effects import strip
from sites import site
from harness import short
from c05 import table

TITLE = "Sieving-prime storage never overflows or loses an entry"
NS = "primesieve::"
THIS = mk("ld", ("P", "this"))


def run(ck):
    ck.rule("pack", "packing a position and a wheel index into one word and unpacking them is the identity on their whole ranges")
    ck.rule("address", "a slot address past the last slot of a block, and only such an address, tests as full; every slot address leads back to its block")
    ck.rule("protocol", "a slot is taken only after the full test of the same list, with a new block obtained if it is full")
    ck.rule("pool", "the pool links all its blocks, hands each one out empty and once, and loses none")
    ck.rule("lists", "every list is processed completely, with its end marked first, and its blocks are recycled after their successor is known")
    ck.rule("segment", "a sieving prime is moved to the list of the segment that contains its next multiple, and that list exists")
    ck.rule("range", "no position or wheel index that can occur exceeds its packed field")
    C = Ctx(ck)
    C.pack()
    C.address()
    C.protocol()
    C.pool()
    C.lists()
    C.segment()
    C.ranges()


class Ctx:
    def __init__(self, ck):
        self.ck, self.prog = ck, ck.prog
        self.rec = {k[0].split("::")[-1]: r for k, r in ck.prog.records.items() if k[0].startswith(NS)}
        self.mi_max = self.wi_max = None

    def f(self, q, n=None):
        l = [f for f in self.prog.functions.values() if f.q == NS + q and f.body is not None and (n is None or len(f.params) == n)]
        return l[0] if l else None

    def fun(self, f, opaque=()):
        return Fun(self.ck, f, lambda x: x.q.startswith("std::") or x.q.split("::")[-1] in opaque)

    def case(self, rule, at, fn):
        try:
            r = fn()
        except (Unknown, KeyError, TypeError, AttributeError, IndexError, ValueError) as e:
            self.ck.und(rule, at, "not understood: %s" % (e if isinstance(e, Unknown) else repr(e)))
            return None
        if isinstance(r, tuple):
            self.ck.ok(rule, at, r[1])
            return True
        self.ck.cond(rule, at, not r, "holds on all cases", str(r))
        return not r

    # ---------------------------------------------------------------- packing
    def pack(self):
        ck = self.ck
        sets = [f for f in self.prog.functions.values() if f.body is not None and f.q == NS + "SievingPrime::set"]
        get = {n: self.f("SievingPrime::" + n) for n in ("getSievingPrime", "getMultipleIndex", "getWheelIndex")}
        R = self.rec.get("SievingPrime")
        if not sets or None in get.values() or R is None:
            ck.und("pack", "SievingPrime", "accessors not found")
            return
        width = {f["decl"].n: f["decl"].type().bits for f in R["fields"]}
        G = {n: self.fun(f) for n, f in get.items()}

        def unpack(st):
            return [Ev(G[n].env(this=st))(G[n].g.retval) for n in ("getSievingPrime", "getMultipleIndex", "getWheelIndex")]

        def top(ix):
            """the largest value of a field that survives: what the mask or shift of its accessor leaves"""
            best = -1
            for b in range(32):
                st = {k: (1 << w) - 1 if w else 0 for k, w in width.items()}
            return unpack(st)[ix]
        try:
            self.mi_max, self.wi_max, = top(1), top(2)
        except Unknown as e:
            ck.und("pack", "SievingPrime", str(e))
            return
        ck.cond("pack", "SievingPrime field ranges", (self.mi_max + 1) & self.mi_max == 0 and (self.wi_max + 1) & self.wi_max == 0 or None,
                "position 0..%d, wheel index 0..%d" % (self.mi_max, self.wi_max), "")
        mis = sorted({0, 1, self.mi_max, self.mi_max - 1} | {1 << b for b in range(self.mi_max.bit_length())} | {0x155555 & self.mi_max, 0x2aaaaa & self.mi_max})
        wis = sorted({0, self.wi_max} | {1 << b for b in range(self.wi_max.bit_length())} | set(range(0, min(384, self.wi_max + 1), 7)) | {min(383, self.wi_max)})
        sps = (0, 1, 143165576, (1 << 27) - 1)

        def one(F, three):
            def go():
                nm = F.names
                for sp in sps if three else (77,):
                    for mi in mis:
                        for wi in wis:
                            v = dict(zip(nm, (sp, mi, wi) if three else (mi, wi)))
                            st = {"indexes_": 0, "sievingPrime_": 77}
                            st = {k: (77 if k == "sievingPrime_" else 0) for k in width}
                            ev = Ev(F.env(this=st, **v))
                            s2 = F.final(ev)
                            for k, w in width.items():
                                if w and s2[k] >> w:
                                    s2 = dict(s2, **{k: s2[k] & (1 << w) - 1})
                            got = unpack(s2)
                            if got[1:] != [mi, wi] or three and got[0] != sp:
                                return "position %d and wheel index %d (prime/30 = %d) are read back as %d and %d (%d)" % (mi, wi, sp, got[1], got[2], got[0])
                            if not three and got[0] != 77:
                                return "updating position and wheel index changes the sieving prime"
            return go
        for f in sets:
            F = self.fun(f)
            self.case("pack", site(f), one(F, len(f.params) == 3))

    # ---------------------------------------------------------------- addresses
    def address(self):
        ck = self.ck
        full, get, begin = self.f("Bucket::isFull"), self.f("Bucket::get"), self.f("Bucket::begin")
        R, S = self.rec.get("Bucket"), self.rec.get("SievingPrime")
        if None in (full, get, begin, R, S):
            ck.und("address", "Bucket", "accessors not found")
            return

        def go():
            esz = sum((f["decl"].type().bits or 0) // 8 for f in S["fields"])
            off, arr = 0, None
            for f in R["fields"]:
                t = f["decl"].type()
                if t.k == "ptr":
                    off += 8
                elif t.k == "array":
                    arr = (off, t.get("n"), f["decl"].n)
                    off += esz * t.get("n")
                else:
                    raise Unknown("field " + f["decl"].n)
            if arr is None:
                raise Unknown("no slot array")
            fb = self.fun(begin).g.retval
            if fb.op != "addr" or str(fb.args).count(arr[2]) != 1 or "('i', 0)" not in str(fb.args).replace("i,0", "'i', 0"):
                if short(fb).replace(" ", "") != "addr((P,this),((f,%s),(i,0)))" % arr[2]:
                    raise Unknown("begin() is %s" % short(fb))
            size = off
            F, G = self.fun(full), self.fun(get)

            def at(fun, a):
                env = fun.env()
                for t in subterms(fun.g.retval):
                    if t.op == "ptoi":
                        env[t] = a
                return Ev(env)(fun.g.retval)
            if not at(F, 0):
                return "an empty list does not test as full"
            for base in (size, 7 * size, (1 << 40) + 0 * size if (1 << 40) % size == 0 else 9 * size):
                for k in range(arr[1] + 1):
                    a = base + arr[0] + k * esz
                    fl = bool(at(F, a))
                    if fl != (k == arr[1]):
                        return "with %d of %d slots taken the block tests as %s" % (k, arr[1], "full" if fl else "not full")
                    if k and at(G, a) != base:
                        return "the address after slot %d leads to block %+d bytes away" % (k, at(G, a) - base)
                    if k == 0 and at(G, a) != base:
                        return "the address of the first slot does not lead to its block"
            if size & (size - 1):
                return "the block size %d is not a power of 2" % size
            self.bucket = (arr[0], arr[1], esz, size)
        self.case("address", "Bucket (%s)" % R["l"].rsplit(":", 1)[0], go)

    # ---------------------------------------------------------------- protocol
    def slotty(self, n):
        t = n.type()
        return t is not None and t.k == "ptr" and t.to() is not None and t.to().s.replace("class ", "").split("::")[-1] == "SievingPrime"

    def protocol(self):
        ck = self.ck
        takes = 0
        for f in list(self.prog.functions.values()):
            if f.body is None or not f.q.startswith(NS) or f.file.startswith("/"):
                continue
            refs = {}
            for n in f.body.walk():
                if n.k == "DeclStmt":
                    for d, x in n.a["decls"]:
                        if x is not None and d.type() is not None and d.type().k in ("ref", "rref"):
                            refs[d] = x
            for n in f.body.walk():
                if n.k == "UnaryOperator" and n.a.get("op") == "++" and self.slotty(n.a["args"][0]):
                    lv = strip(n.a["args"][0])
                elif n.k == "CompoundAssignOperator" and n.a.get("op") == "+=" and self.slotty(n.a["args"][0]):
                    lv = strip(n.a["args"][0])
                else:
                    continue
                if lv.k == "DeclRefExpr" and lv.decl() not in refs and lv.decl().type() is not None and lv.decl().type().k == "ptr" and not lv.decl().is_global and lv.decl().k in ("Var", "ParmVar", "Parm"):
                    continue        # a plain iterator
                takes += 1
                self.take(f, n, lv, refs)
        if not takes:
            ck.und("protocol", "lib/primesieve", "no slot is taken by ++ anywhere")

    def key(self, n, refs):
        n = strip(n)
        if n is None:
            return None
        if n.a.get("cv") is not None:
            return "#" + str(n.a["cv"])
        if n.k == "ParenExpr":
            return self.key(n.a["args"][0], refs)
        if n.k == "DeclRefExpr":
            d = n.decl()
            return self.key(refs[d], refs) if d in refs else d.key
        if n.k == "CXXThisExpr":
            return "this"
        if n.k == "MemberExpr":
            a = n.a.get("args") or []
            return "%s.%s" % (self.key(a[0], refs) if a else "this", n.decl().n)
        if n.k == "ArraySubscriptExpr" or n.k == "CXXOperatorCallExpr" and n.a.get("op") == "[]":
            a = n.a["args"]
            return "%s[%s]" % (self.key(a[0], refs), self.key(a[1], refs))
        if n.k == "UnaryOperator" and n.a.get("op") == "*":
            return "*(%s)" % self.key(n.a["args"][0], refs)
        if n.k == "CXXMemberCallExpr" and n.decl() is not None and n.decl().n in ("at", "data"):
            return "%s.%s(%s)" % (self.key(n.a.get("obj"), refs), n.decl().n, ",".join(str(self.key(x, refs)) for x in n.a["args"]))
        if n.k == "BinaryOperator":
            return "(%s%s%s)" % (self.key(n.a["args"][0], refs), n.a["op"], self.key(n.a["args"][1], refs))
        return "?%d" % id(n)

    def calls(self, n, name):
        if n is None:
            return []
        return [x for x in n.walk() if x.k in ("CallExpr", "CXXMemberCallExpr") and x.decl() is not None and x.decl().n == name and x.a.get("args")]

    def take(self, f, n, lv, refs):
        ck = self.ck
        at = "%s %s" % (f.q, n.line)
        k = self.key(lv, refs)
        parts = {x.decl().key for x in lv.walk() if x.k == "DeclRefExpr" and x.decl() is not None and not x.decl().is_function}
        for d in list(refs):
            if d.key in parts:
                parts |= {x.decl().key for x in refs[d].walk() if x.k == "DeclRefExpr" and x.decl() is not None}
        # statements before the take, innermost block first
        cur, seen, guard, other, helper = n, [], None, [], None
        while cur is not None and guard is None:
            p = cur.parent
            if p is None:
                break
            if p.k in ("CompoundStmt", "CaseStmt", "DefaultStmt", "SwitchStmt", "LabelStmt"):
                kids = [c for c in p.ch if c is not None]
                ix = [i for i, c in enumerate(kids) if c is cur]
                for c in reversed(kids[:ix[0]] if ix else []):
                    if c.k == "IfStmt" and self.calls(c.get("cond"), "isFull"):
                        tested = [self.key(x.a["args"][0], refs) for x in self.calls(c.get("cond"), "isFull")]
                        got = [self.key(x.a["args"][-1], refs) for x in self.calls(c, "addBucket")]
                        if k in tested:
                            guard = (c, got)
                            break
                        other.append((c, tested, got))
                    elif c.k == "CompoundStmt":
                        pass
                    for x in c.walk():
                        g = self.prog.callee(x) if x.k in ("CallExpr", "CXXMemberCallExpr") else None
                        if g is not None and g.body is not None and self.calls(g.body, "addBucket") and any(self.key(a, refs) == k for a in x.a.get("args") or []):
                            helper = g
                    if helper is not None:
                        break
                    seen.append(c)
            if p.k == "IfStmt" and helper is None and cur is not p.get("cond") and self.calls(p.get("cond"), "isFull"):
                # the take is itself inside a branch of a full test
                tested = [self.key(x.a["args"][0], refs) for x in self.calls(p.get("cond"), "isFull")]
                if k in tested:
                    guard = (None, None)
                    break
            if helper is not None:
                break
            cur = p
        if helper is not None:
            ck.ok("protocol", at, "full test in %s" % helper.q)
            return
        if guard is not None and guard[0] is None:
            ck.und("protocol", at, "the slot is taken inside a branch of the full test")
            return
        if guard is None:
            if lv.k == "DeclRefExpr" and lv.decl() not in refs:
                ck.und("protocol", at, "slot of a list passed in by the caller")
                return
            if "[" not in k or "?" in k:
                ck.und("protocol", at, "list %s" % show(k))
            elif other:
                ck.viol("protocol", at, "the slot of %s is taken after the full test of %s" % (show(k), show(other[0][1][0])))
            else:
                late = [c for c in self.calls(f.body, "isFull") if self.key(c.a["args"][0], refs) == k]
                ck.viol("protocol", at, "a slot of %s is taken without a preceding full test%s" % (show(k), " (it is tested only afterwards)" if late else ""))
            return
        c, got = guard
        cond = strip(c.get("cond"))
        neg = False
        while cond is not None and cond.k in ("UnaryOperator", "ParenExpr") and cond.a.get("op", "!") == "!":
            neg ^= cond.k == "UnaryOperator"
            cond = strip(cond.a["args"][0])
        branch = c.get("else") if neg else c.get("then")
        if cond is None or cond.k != "CallExpr":
            ck.und("protocol", at, "condition of the full test")
            return
        if not got:
            ck.viol("protocol", at, "no block is obtained for %s when it is full" % show(k))
            return
        inb = [self.key(x.a["args"][-1], refs) for x in self.calls(branch, "addBucket")]
        if k not in inb:
            if inb:
                ck.viol("protocol", at, "%s is full but the new block goes to %s" % (show(k), show(inb[0])))
            else:
                ck.viol("protocol", at, "the new block is obtained when %s is not full" % show(k))
            return
        # nothing between guard and take changes the list or its index
        for s in seen:
            for x in s.walk():
                w = None
                if x.k in ("BinaryOperator", "CompoundAssignOperator") and (x.k == "CompoundAssignOperator" or x.a.get("op") == "="):
                    w = x.a["args"][0]
                elif x.k == "UnaryOperator" and x.a.get("op") in ("++", "--"):
                    w = x.a["args"][0]
                if w is None:
                    continue
                w = strip(w)
                if self.key(w, refs) == k:
                    ck.viol("protocol", at, "another slot of %s is taken between its full test and this store" % show(k))
                    return
                if w.k == "DeclRefExpr" and w.decl().key in parts and w.decl() not in refs:
                    ck.viol("protocol", at, "%s changes between the full test and the store, so the tested list is not the one stored to" % w.decl().n)
                    return
        ck.ok("protocol", at, "full test of %s dominates the store" % show(k))

    # ---------------------------------------------------------------- pool
    def pool(self):
        ck = self.ck
        fb, ib, ab, al = self.f("MemoryPool::freeBucket"), self.f("MemoryPool::initBuckets"), self.f("MemoryPool::addBucket"), self.f("MemoryPool::allocateBuckets")
        for nm, f in (("freeBucket", fb), ("initBuckets", ib), ("addBucket", ab), ("allocateBuckets", al)):
            if f is None:
                ck.und("pool", "MemoryPool::" + nm, "not found")
        if fb is not None:
            def go():
                F = self.fun(fb)
                B = ("P", F.names[0])
                m = F.g.final.mem
                fld = fields(m.get(B))
                if short(fld.get("next_", THIS)) != "this.stock_":
                    return "a recycled block is not linked to the stock (its successor is %s)" % short(fld.get("next_", "unchanged"))
                s = fields(m.get(("P", "this")))
                if short(s.get("stock_", THIS)).replace(" ", "") != "addr((P,%s),())" % F.names[0]:
                    return "the stock does not start with the recycled block"
            self.case("pool", site(fb), go)
        if ib is not None:
            def go():
                F = self.fun(ib)
                g = F.g
                if len(g.loopinfo) != 1:
                    raise Unknown("loops")
                I = list(g.loopinfo.values())[0]
                P0, P1 = F.names[:2]
                size = getattr(self, "bucket", (16, 1022, 8, 8192))[3]
                iv = [p for p in I["phi"] if not p.startswith("P:")]
                if len(iv) != 1:
                    raise Unknown("loop variables")
                iv = iv[0]
                ph = I["phi"][iv]
                w = [e for e in g.events if e.k == "store" and "next_" in str(e.a["loc"])]
                for nb in (10 * size, 24 * size, 31 * size - 8, 24 * size + size - 1):
                    n = nb // size
                    s0 = {"count_": 5, "stock_": 0}
                    env = F.env(this=s0, **{P1: nb})

                    def block(e, v):
                        if v.op == "c" and v.args[0] == 0:
                            return None
                        if v.op == "ite":
                            return block(e, v.args[1] if e(v.args[0]) else v.args[2])
                        if v.op == "addr" and v.args[0] == ("P", P0):
                            if v.args[1] == ():
                                return 0
                            if len(v.args[1]) == 1 and v.args[1][0][0] == "i":
                                return e(v.args[1][0][1])
                        raise Unknown("link " + short(v))

                    def link(e, ev, pcs):
                        for c in pcs:
                            try:
                                if not e(c):
                                    return
                            except Unknown:
                                if "memory" not in short(c):
                                    raise
                        b, path = ev.a["loc"]
                        if b != ("P", P0) or path[-1] != ("f", "next_"):
                            raise Unknown("link place")
                        if len(path) == 1:
                            at = 0
                        elif len(path) == 2 and path[0][0] == "i":
                            at = e(path[0][1])
                        else:
                            raise Unknown("link place")
                        chain[at] = block(e, ev.a["val"])
                    chain = {}
                    i = Ev(env)(I["init"][iv])
                    for _ in range(2 * n + 10):
                        env[ph] = i
                        e = Ev(env)
                        if not e(I["cond"]):
                            break
                        for x in w:
                            if x.loops:
                                link(e, x, x.pc[len(I.get("pc") or ()):] if I.get("pc") is not None else x.pc)
                        i = e(I["next"][iv])
                    env[ph] = i
                    e = Ev(env)
                    for x in w:
                        if not x.loops:
                            link(e, x, x.pc)
                    st = fields(g.final.mem.get(("P", "this"))).get("stock_")
                    if st is None:
                        return "the stock is unchanged"
                    b, visited = block(e, st), []
                    while b is not None:
                        if b in visited:
                            return "with %d blocks the stock is circular: block %d is linked to block %d" % (n, visited[-1], b)
                        visited.append(b)
                        if b < 0 or b >= n:
                            return "with %d blocks the stock contains block %d" % (n, b)
                        if b not in chain:
                            return "with %d blocks the link of block %d is never set" % (n, b)
                        b = chain[b]
                    if not visited:
                        return "of %d blocks the stock contains only %d" % (n, len(visited))
            self.case("pool", site(ib), go)
        if ab is not None:
            def go():
                F = self.fun(ab, ("allocateBuckets", "get", "next", "setNext", "setEnd", "begin"))
                g = F.g
                ev = [e for e in g.events if e.k == "call"]
                byn = {}
                for i, e in enumerate(ev):
                    byn.setdefault(e.a["q"].split("::")[-1], []).append((i, e))
                if "allocateBuckets" not in byn:
                    return "an empty stock is never refilled" if not self.calls(ab.body, "allocateBuckets") else und("refill")
                pc = byn["allocateBuckets"][0][1].pc
                if [short(x).replace(" ", "") for x in pc] != ["this.stock_==0"]:
                    vals = {"stock_": 0}
                    env = F.env(this=vals)
                    for c in pc:
                        try:
                            on = Ev(env)(c)
                        except Exception:
                            continue
                        if not on:
                            return "an empty stock is not refilled (only if %s)" % short(c)
                    raise Unknown("refill condition " + short(pc[0]) if pc else "unconditional refill")
                slot = g.final.mem.get(("P", F.names[0]))
                if slot is None or slot.op != "call" or not slot.args[0].endswith("begin"):
                    return "the list does not continue in the new block" if slot is None or slot.op == "ld" else und("slot %s" % short(slot))
                st = fields(g.final.mem.get(("P", "this"))).get("stock_")
                if st is None:
                    return "the block handed out stays in the stock"
                if "next" not in short(st):
                    raise Unknown("stock " + short(st))
                sn = byn.get("setNext", [])
                nul = [x for x in sn if short(x[1].a["args"]) in ("[0]", "0")]
                old = [x for x in sn if x not in nul]
                nx = byn.get("next", [])
                if not nx or not sn:
                    raise Unknown("links")
                if nul and nul[0][0] < nx[0][0] or old and old[0][0] < nx[0][0]:
                    return "the new block's link is overwritten before the stock has moved on to it"
                if not nul and len(old) == 1 and len(old[0][1].pc):
                    return "the first block of a list keeps a stale successor"
                if not old:
                    return "the previous blocks of the list are lost"
                e = old[0][1]
                if "get(" not in short(e.a["args"]):
                    raise Unknown("link " + short(e.a["args"]))
                if nul and old and old[0][0] < nul[0][0] and not nul[0][1].pc:
                    return "the link to the previous blocks is overwritten"
                c = [short(x).replace(" ", "") for x in e.pc]
                if c and c[-1] not in ("not(%s==0)" % F.names[0],):
                    raise Unknown("condition " + c[-1])
                se = byn.get("setEnd", [])
                if not se:
                    return "the end of the full block is not marked"
                if short(se[0][1].a["args"]).strip("[]").replace(" ", "") not in ("addr((P,%s),())" % F.names[0], F.names[0]):
                    raise Unknown("end " + short(se[0][1].a["args"]))
            self.case("pool", site(ab), go)
        if al is not None:
            def go():
                F = self.fun(al, ("initBuckets", "increaseAllocCount"))
                g = F.g
                size = getattr(self, "bucket", (16, 1022, 8, 8192))[3]
                ev = [e for e in g.events if e.k == "call"]
                n = [e for e in g.events if e.k == "new"]
                a = [e for e in ev if e.a["q"].endswith("align")]
                i = [e for e in ev if e.a["q"].endswith("initBuckets")]
                if len(i) != 1:
                    raise Unknown("initBuckets")
                if not a:
                    return "the blocks are not aligned"
                for s0 in ({"count_": 64, "stock_": 0, "memory_": ()},):
                    e = Ev(F.env(this=s0))
                    al_, sz = e(a[0].a["args"][0]), e(a[0].a["args"][1])
                    if al_ != size:
                        return "blocks of %d bytes are aligned to %d" % (size, al_)
                    need = e(a[0].a.get("pvals", a[0].a["args"])[3])
                    if len(n) == 1 and len(n[0].a["args"]) == 1:
                        have = e(n[0].a["args"][0])
                        if have < need:
                            return "memory of %d bytes is allocated but %d bytes are used" % (have, need)
                    else:
                        raise Unknown("allocation")
                p = [short(x) for x in i[0].a["args"]]
                if "align" not in p[0] or "align" not in p[1]:
                    return "the blocks do not start at the aligned address" if "align" not in p[0] else "the bytes skipped by the alignment are not subtracted"
            self.case("pool", site(al), go)

    # ---------------------------------------------------------------- lists
    def lists(self):
        for cls in ("EratBig", "EratMedium"):
            fs = [f for f in self.prog.functions.values() if f.q == NS + cls + "::crossOff" and f.body is not None and self.calls(f.body, "freeBucket")]
            if not fs:
                self.ck.und("lists", cls, "no function recycles blocks")
                continue
            f = fs[0]
            workers = {g.name for n in f.body.walk() for g in [self.prog.callee(n)] if g is not None and g.name.startswith("crossOff")}
            F = self.fun(f, {"get", "freeBucket", "setEnd", "next", "addBucket"} | workers)
            self.case("lists", site(f), lambda: self.listrun(cls, f, F))
        for cls in ("EratBig", "EratMedium"):
            for f in self.prog.functions.values():
                if f.q.startswith(NS + cls + "::crossOff") and f.body is not None and len(f.params) in (2, 3) and any("Bucket" in p.type().s for p in f.params):
                    self.case("lists", site(f), lambda f=f: self.entries(f))

    def entries(self, f):
        """the loop over one block: from begin to end, in steps of one"""
        b = [p for p in f.params if "Bucket" in p.type().s][0]
        loops = [n for n in f.body.walk() if n.k == "ForStmt" and n.a.get("cond") is not None and any(self.slotty(x) for x in n.a["cond"].walk() if x.k == "DeclRefExpr")]
        if len(loops) != 1:
            raise Unknown("loop over the entries")
        L = loops[0]
        init = {}
        for n in f.body.walk():
            if n.k == "DeclStmt":
                for d, x in n.a["decls"]:
                    init[d] = strip(x)
        c = strip(L.a["cond"])
        if c.k != "BinaryOperator" or c.a["op"] not in ("!=", "<"):
            raise Unknown("condition")
        x, y = [strip(z) for z in c.a["args"]]
        if x.k != "DeclRefExpr":
            raise Unknown("condition")

        def src(e):
            e = strip(e)
            for _ in range(3):
                if e is not None and e.k == "DeclRefExpr" and e.decl() in init:
                    e = init[e.decl()]
            if e is not None and e.k == "CXXMemberCallExpr" and strip(e.a["obj"]).k == "DeclRefExpr" and strip(e.a["obj"]).decl() is b:
                return e.decl().n
            return None
        lo, hi = src(x), src(y)
        inc = strip(L.a.get("inc"))
        if lo == "begin" and hi == "end" and inc is not None and inc.k == "UnaryOperator" and inc.a["op"] == "++" and strip(inc.a["args"][0]).decl() is x.decl():
            d = x.decl()
            for n in f.body.walk():
                if n is not inc and (n.k == "UnaryOperator" and n.a.get("op") in ("++", "--") or n.k == "CompoundAssignOperator" or n.k == "BinaryOperator" and n.a.get("op") == "="):
                    w = strip(n.a["args"][0])
                    if w is not None and w.k == "DeclRefExpr" and w.decl() is d:
                        return "the iterator over the entries is changed inside the loop (%s)" % n.line
            return None
        if lo is not None and hi is not None and (lo, hi) != ("begin", "end"):
            return "the entries from %s() to %s() are processed" % (lo, hi)
        raise Unknown("bounds of the loop over the entries")

    def listrun(self, cls, f, F):
        g = F.g
        ev = [e for e in g.events if e.k == "call"]
        last = lambda e: e.a["q"].split("::")[-1]
        fr = [(i, e) for i, e in enumerate(ev) if last(e) == "freeBucket"]
        nx = [(i, e) for i, e in enumerate(ev) if last(e) == "next"]
        cr = [(i, e) for i, e in enumerate(ev) if last(e).startswith("crossOff")]
        se = [(i, e) for i, e in enumerate(ev) if last(e) == "setEnd"]
        if len(fr) != 1 or not nx or not cr:
            raise Unknown("%d blocks freed, %d successors read" % (len(fr), len(nx)))
        fi, fe = fr[0]
        bucket = fe.a["args"][0]
        lid = fe.loops[-1] if fe.loops else None
        if lid is None:
            raise Unknown("no loop")
        I = g.loopinfo[lid]
        bn = [p for p in I["phi"] if I["phi"][p] is bucket]
        if not bn:
            raise Unknown("freed block %s" % short(bucket))
        bn = bn[0]
        mine = [(i, e) for i, e in nx if e.a.get("obj") is not None and e.a["obj"][0] == ("A", bucket)]
        if not mine:
            raise Unknown("successor")
        if mine[0][0] > fi:
            return "the successor of a block is read after the block was recycled (%s)" % fe.line
        if any(i > fi for i, e in cr):
            return "a block is processed after it was recycled"
        if not any(x.op == "call" and x.args[0].endswith("next") for x in subterms(I["next"][bn])):
            raise Unknown("next block %s" % short(I["next"][bn]))
        if I["breaks"]:
            raise Unknown("break")
        if short(I["cond"]).replace(" ", "") != "not(%s==0)" % short(bucket):
            raise Unknown("loop condition " + short(I["cond"]))
        for i, e in cr:
            if e.a["args"][-1] is not bucket:
                raise Unknown("processed block")
        # the end of the first block is marked before the loop
        first = I["init"][bn]
        if first.op != "call" or not first.args[0].endswith("get"):
            raise Unknown("first block " + short(first))
        head = first.args[-1]
        good = [e for i, e in se if i < cr[0][0] and e.a["obj"] is not None and e.a["obj"][0] == ("A", first)]
        if not good:
            return "the number of entries in the first block is not recorded before it is processed" if not se else und("setEnd")
        if good[0].a["args"][0] is not head:
            raise Unknown("end %s" % short(good[0].a["args"][0]))
        outer = [g.loopinfo[x] for x in fe.loops[:-1]]
        if cls == "EratMedium":
            return self.medium(F, outer, head)
        return self.big(F, outer, head)

    def medium(self, F, outer, head):
        g = F.g
        if len(outer) != 1:
            raise Unknown("outer loops")
        O = outer[0]
        iv = [p for p in O["phi"] if not p.startswith(("P:", "A:")) and O["phi"][p] in subterms(head)]
        if len(iv) != 1:
            raise Unknown("list index in " + short(head))
        iv = iv[0]
        ph = O["phi"][iv]
        R = self.rec["EratMedium"]
        fld = [x["decl"] for x in R["fields"] if x["decl"].type().k == "rec" and "array" in x["decl"].type().s]
        n = int(re.search(r", (\d+)", fld[0].type().s).group(1))
        e = Ev({})
        if e(O["init"][iv]) != 0:
            return "the first list is not processed"
        for i in range(n + 1):
            c = bool(Ev({ph: i})(O["cond"]))
            if c != (i < n):
                return "the loop over the %d lists %s at list %d" % (n, "continues" if c else "ends", i)
            if c and Ev({ph: i})(O["next"][iv]) != i + 1:
                return "the loop skips lists"
        if O["breaks"]:
            return "the loop over the lists can end early"
        nm = fld[0].n
        if head.op != "sel" or "this" not in short(head) or "@" in short(head.args[0]):
            raise Unknown("list head " + short(head))
        st = O["init"].get("P:this")
        d = O["init"].get("P:this." + nm) if st is None else fields(st).get(nm)
        if d is None:
            return "the lists are not emptied before their sieving primes are stored again"
        if d.op == "eff" and d.args[0].endswith("fill") and short(d.args[-1]) == "0":
            return None
        raise Unknown("emptied lists " + short(d))

    def big(self, F, outer, head):
        g = F.g
        if not outer:
            return "the current segment's list is processed only once, although sieving primes are stored back into it meanwhile"
        if len(outer) != 1:
            raise Unknown("outer loops")
        O = outer[0]
        h = short(head).replace(" ", "")
        m = re.match(r"^(.*)\[(\d+)\]$", h)
        if not m:
            raise Unknown("list head " + h)
        if m.group(2) != "0":
            return "list %s is processed as the current segment's" % m.group(2)
        if short(O["cond"]).replace(" ", "") != "not(%s==0)" % h:
            raise Unknown("loop condition " + short(O["cond"]))
        clr = [e for e in g.events if e.k == "store" and "buckets_" in str(e.a["loc"]) and short(e.a["val"]) == "0"]
        if not clr:
            return "the current segment's list is not emptied before it is processed"
        ev = [e for e in g.events if e.k == "call"]
        cr = [i for i, e in enumerate(g.events) if e.k == "call" and e.a["q"].endswith("crossOff")]
        if g.events.index(clr[0]) > cr[0]:
            return "the current segment's list is emptied after sieving primes were stored into it"
        rot = [e for e in ev if e.a["q"].endswith("rotate")]
        if not rot:
            return "the lists do not move on to the next segment" if not any("move" in e.a["q"] for e in ev) else und("moved lists")
        if rot[0].loops:
            return "the lists are moved inside the loop"
        a = [n for n in F.f.body.walk() if n.k == "CallExpr" and n.decl() is not None and n.decl().n == "rotate"]
        if len(a) != 1:
            raise Unknown("rotate")
        x = [self.iterexpr(z) for z in a[0].a["args"]]
        if x == [("begin", 0), ("begin", 1), ("end", 0)]:
            return None
        if None not in x and x[0] == ("begin", 0) and x[2] == ("end", 0):
            return "the lists move on by %s" % (x[1],)
        raise Unknown("rotate %s" % x)

    def iterexpr(self, n):
        n = strip(n)
        while n is not None and n.k in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr"):
            n = strip((n.a.get("args") or n.ch)[0])
        if n.k == "CXXMemberCallExpr" and n.decl() is not None and n.decl().n in ("begin", "end"):
            return (n.decl().n, 0)
        if n.k == "CXXOperatorCallExpr" and n.a.get("op") in ("+", "-"):
            a, b = n.a["args"]
            x, c = self.iterexpr(a), strip(b).a.get("cv") or b.a.get("cv")
            if x and c is not None:
                return (x[0], x[1] + (int(c) if n.a["op"] == "+" else -int(c)))
        return None

    # ---------------------------------------------------------------- segments
    def segment(self):
        ck = self.ck
        ini = self.f("EratBig::init", 3)
        W = table(ck, "wheel210")
        if ini is None or not W:
            ck.und("segment", "EratBig", "init or its wheel not found")
            return
        wheel = W[0][2]
        fac, cor = max(w[1] for w in wheel), max(w[2] for w in wheel)
        best = max((w[1], w[2]) for w in wheel)
        F = self.fun(ini, ("ilog2", "isPow2"))

        def stub(n, args, s):
            if n == "ilog2":
                return args[0].bit_length() - 1, s
            if n == "getMaxFactor":
                return fac, s
            raise Unknown(n)

        def go():
            rz = [e for e in F.g.events if e.k == "call" and e.a["q"].split("::")[-1] in ("resize", "assign") and "buckets_" in str(e.a["obj"])]
            if len(rz) != 1:
                raise Unknown("size of the list array")
            m = fields(F.g.final.mem.get(("P", "this")))
            for S in (1 << 13, 1 << 15, 1 << 18, 1 << 20, 1 << 22):
                for P in (S * 5 + 2, S * 6, S * 30 - 1, S * 30, S * 30 + 7, 1000003, (1 << 32) - 5):
                    env = F.env(this={}, **dict(zip(F.names, (1 << 62, S, P))))
                    for t in subterms(rz[0].a["args"][0]):
                        if t.op == "sel" and t.args[1] == ("f", "nextMultipleFactor"):
                            env[t] = Ev({}).num(wheelat(t, wheel))
                    ev = Ev(env, stub)
                    if ev(m["moduloSieveSize_"]) != S - 1:
                        return "position mask %d for a sieve of %d bytes" % (ev(m["moduloSieveSize_"]), S)
                    if ev(m["log2SieveSize_"]) != S.bit_length() - 1:
                        return "shift %s for a sieve of %d bytes" % (ev(m["log2SieveSize_"]), S)
                    size = ev(rz[0].a["args"][0])
                    far = max(S - 1 + w[1] * (P // 30) + w[2] for w in wheel) // S
                    if size <= far:
                        return "%d lists for sieve size %d and largest prime %d, but a multiple can lie %d segments ahead" % (size, S, P, far)
        self.case("segment", site(ini), go)
        for nm in ("storeSievingPrime", "crossOff"):
            for f in [f for f in self.prog.functions.values() if f.q == NS + "EratBig::" + nm and f.body is not None and self.calls(f.body, "set")]:
                self.case("segment", site(f), lambda f=f: self.place(f))
        for cls in ("EratMedium", "EratSmall"):
            for f in [f for f in self.prog.functions.values() if f.q == NS + cls + "::storeSievingPrime" and f.body is not None]:
                self.case("segment", site(f), lambda f=f: self.stored(f))

    def place(self, f):
        F = self.fun(f, ("isFull", "addBucket", "set", "getMultipleIndex", "getWheelIndex", "getSievingPrime", "unsetBit"))
        g = F.g
        sets = [e for e in g.events if e.k == "call" and e.a["q"].endswith("SievingPrime::set")]
        if len(sets) != 1 or len(sets[0].a["args"]) != 3:
            raise Unknown("%d stores" % len(sets))
        e = sets[0]
        sp, mi, wi = e.a["args"]
        # the list index: the subscript inside the slot's address
        inc = [x for x in g.events if x.k == "store" and x.a["loc"][1] and x.a["loc"][1][-1][0] == "i" and ("buckets_" in str(x.a["loc"]))]
        if len(inc) != 1:
            raise Unknown("list index")
        ix = inc[0].a["loc"][1][-1][1]
        S = 1 << 14
        if f.name == "storeSievingPrime":
            p, m, w = F.names
            for prime in (S * 6 + 1, 1000003, 30 * S + 11):
                for pos in (0, 1, S - 1, S, S + 1, 5 * S - 1, 5 * S, 12345678):
                    for wv in (0, 7, 383):
                        env = F.env(this={"moduloSieveSize_": S - 1, "log2SieveSize_": 14, "maxPrime_": 1 << 32}, **{p: prime, m: pos, w: wv})
                        ev = Ev(env)
                        got = ev(ix), ev(mi), ev(wi), ev(sp)
                        if got != (pos // S, pos % S, wv, prime // 30):
                            return "prime %d at position %d is stored as (list, position, wheel index, prime/30) = %s, must be %s" % (prime, pos, got, (pos // S, pos % S, wv, prime // 30))
            return None
        outs = {}
        for t in subterms(mi) | subterms(wi) | subterms(sp) | subterms(ix):
            if t.op == "out" and any(isinstance(x, T) and x.op == "call" and x.args[0].endswith("unsetBit") for x in t.args):
                outs[t.args[0]] = t
        if set(outs) - {2, 3}:
            raise Unknown("results of unsetBit")
        if 2 not in outs:
            return "the next multiple's position is not used"
        if 3 not in outs:
            return "the next multiple's wheel index is not what is stored"
        gets = {t.args[0].split("::")[-1]: t for t in subterms(sp) if t.op == "call"}
        for pos in (0, 1, S - 1, S, S + 1, 5 * S - 1, 5 * S, 12345678):
            env = F.env(this={"moduloSieveSize_": S - 1, "log2SieveSize_": 14})
            env.update({outs[2]: pos, outs[3]: 97})
            for t in gets.values():
                env[t] = 4711
            ev = Ev(env)
            for t in subterms(mi) | subterms(ix):
                if t.op == "sel" and t.args[1][0] == "f" and t.args[1][1] in ("moduloSieveSize_", "log2SieveSize_"):
                    ev.memo[t] = {"moduloSieveSize_": S - 1, "log2SieveSize_": 14}[t.args[1][1]]
            got = ev(ix), ev(mi), ev(wi)
            if got != (pos // S, pos % S, 97):
                return "a next multiple at position %d with wheel index 97 is stored as (list, position, wheel index) = %s, must be %s" % (pos, got, (pos // S, pos % S, 97))
        if "getSievingPrime" not in gets or ev(sp) != 4711:
            raise Unknown("stored prime " + short(sp))
        a = [x for x in g.events if x.k == "call" and x.a["q"].endswith("unsetBit")]
        return None

    def stored(self, f):
        F = self.fun(f, ("isFull", "addBucket", "set", "emplace_back"))
        st = [e for e in F.g.events if e.k == "call" and e.a["q"].split("::")[-1] in ("set", "emplace_back")]
        if len(st) != 1 or len(st[0].a["args"]) != 3:
            raise Unknown("stores")
        p, m, w = F.names
        for prime in (7, 11, 31, 61, 1009, 999983, 20971520):
            env = F.env(this={"maxPrime_": 1 << 32}, **{p: prime, m: 12345, w: 43})
            ev = Ev(env)
            got = []
            for x, v in zip(st[0].a["args"], st[0].a.get("pvals") or st[0].a["args"]):
                got.append(ev(v if isinstance(v, T) and v.op != "addr" else x))
            if got != [prime // 30, 12345, 43]:
                return "prime %d at position 12345, wheel index 43 is stored as %s" % (prime, got)
        return None

    # ---------------------------------------------------------------- ranges
    def ranges(self):
        ck = self.ck
        if self.mi_max is None:
            return
        const = {}
        for n in ("FACTOR_ERATSMALL", "FACTOR_ERATMEDIUM"):
            v = [g.get("value") for k, g in self.prog.globals.items() if n in k]
            const[n] = float(v[0]) if v and v[0] is not None else None
        ss = self.f("PrimeSieve::setSieveSize")
        w30, w210, i30, i210 = (table(ck, x) for x in ("wheel30", "wheel210", "wheel30Init", "wheel210Init"))
        if None in const.values() or ss is None or not w210 or not i30 or not i210:
            ck.und("range", "config", "constants not found")
            return
        w210, i30, i210 = w210[0][2], i30[0][2], i210[0][2]
        smax = 0

        def size():
            nonlocal smax
            F = self.fun(ss, ("floorPow2",))
            m = fields(F.g.final.mem.get(("P", "this"))).get("sieveSize_")
            if m is None:
                raise Unknown("sieve size")

            def stub(n, a, s):
                if n == "floorPow2":
                    return 1 << a[0].bit_length() - 1, s
                raise Unknown(n)
            for v in (0, 1, 8, 9, 4095, 4096, 4097, 1 << 20, (1 << 31) - 1):
                smax = max(smax, Ev(F.env(this={}, **{F.names[0]: v}), stub)(m) * 1024)
        self.case("range", site(ss), lambda: size() or ("ok", "largest sieve size %d bytes" % smax))
        if not smax:
            return
        it = self.f("Erat::initErat")
        ad = self.f("Erat::addSievingPrime")
        S = smax
        msmall, mmed = int(S * const["FACTOR_ERATSMALL"]), int(S * const["FACTOR_ERATMEDIUM"])
        f30 = 1 + max(x[0] for x in i30)
        f210 = 1 + max(x[0] for x in i210)
        step = 6        # largest distance of two numbers coprime to 30
        for nm, mx, f in (("EratSmall", msmall, f30), ("EratMedium", mmed, f30)):
            first = max(S, mx * f // 30) + 1
            later = mx // 30 * step + step
            top = max(first, later)
            ck.cond("range", "%s position" % nm, top <= self.mi_max, "largest position %d fits the packed field" % top,
                    "with a sieve of %d bytes primes up to %d can have position %d, more than the packed maximum %d" % (S, mx, top, self.mi_max))
        ck.cond("range", "EratBig position", S - 1 <= self.mi_max, "positions below %d fit" % S, "positions up to %d exceed the packed maximum %d" % (S - 1, self.mi_max))
        ck.cond("range", "wheel index", len(w210) - 1 <= self.wi_max, "wheel indices up to %d fit" % (len(w210) - 1), "wheel index %d exceeds the packed maximum %d" % (len(w210) - 1, self.wi_max))
        if it is not None and ad is not None:
            self.case("range", site(it), lambda: self.routing(it, ad, const))

    def routing(self, it, ad, const):
        """the thresholds that route a prime are the largest primes the receivers were set up for, and the receivers are enabled for all primes routed to them"""
        F = self.fun(it, ("isqrt", "getL1CacheSize", "init"))
        A = self.fun(ad, ("addSievingPrime",))
        inits = [e for e in F.g.events if e.k == "call" and e.a["q"].split("::")[-1] == "init"]
        adds = [e for e in A.g.events if e.k == "call" and e.a["q"].split("::")[-1] == "addSievingPrime"]

        def recv(e):
            m = re.search(r"erat(Small|Medium|Big)_", str(e.a["obj"]))
            if not m:
                raise Unknown("receiver")
            return m.group(1)
        if len(inits) != 3 or len(adds) != 3:
            raise Unknown("%d receivers set up, %d used" % (len(inits), len(adds)))
        for S in (1 << 13, 1 << 18, 1 << 22):
            for L1 in (1 << 13, 1 << 15):
                if L1 > S:
                    continue
                for sq in (100, 163, 164, 165, L1 // 10, L1, S, 4 * S, 5 * S, 5 * S + 1, 6 * S, (1 << 32) - 1):
                    st = {"stop_": sq * sq, "sieveSize_": S, "maxPreSieve_": 163, "maxEratSmall_": 0, "maxEratMedium_": 0, "segmentLow_": 0}

                    def stub(n, a, s):
                        if n == "isqrt":
                            return sq, s
                        if n == "getL1CacheSize":
                            return L1, s
                        raise Unknown(n)
                    env = F.env(this=st)
                    ev = Ev(env, stub)
                    m = fields(F.g.final.mem.get(("P", "this")))
                    fl = {}
                    for k in ("maxEratSmall_", "maxEratMedium_"):
                        fl[k] = int(fval(ev, m[k], const))
                    on = {}
                    for e in inits:
                        ok = all(fbool(ev, c, const) for c in e.pc)
                        if ok:
                            on[recv(e)] = [int(fval(ev, x, const)) for x in e.a["args"]]
                    for p in sorted({164, 167, fl["maxEratSmall_"], fl["maxEratSmall_"] + 1, fl["maxEratMedium_"], fl["maxEratMedium_"] + 1, sq}):
                        if not 163 < p <= sq:
                            continue
                        e2 = Ev(A.env(this=dict(st, **fl), **{A.names[0]: p}))
                        tgt = [recv(e) for e in adds if all(e2(c) for c in e.pc)]
                        if len(tgt) != 1:
                            return "prime %d goes to %s" % (p, tgt)
                        if tgt[0] not in on:
                            return "prime %d is stored in Erat%s, which was not set up (sieve size %d, sqrt(stop) = %d)" % (p, tgt[0], S, sq)
                        if p > on[tgt[0]][2]:
                            return "prime %d is stored in Erat%s, which was set up for primes up to %d" % (p, tgt[0], on[tgt[0]][2])
                        cap = {"Small": const["FACTOR_ERATSMALL"] * L1, "Medium": const["FACTOR_ERATMEDIUM"] * S, "Big": 1 << 33}[tgt[0]]
                        if tgt[0] != "Small" and on[tgt[0]][1] != S:
                            return "Erat%s is set up for a sieve of %d bytes instead of %d" % (tgt[0], on[tgt[0]][1], S)
        return None


def fval(ev, t, const):
    """value with floating-point products"""
    if t.op == "ld" and t.args[0][0] == "G":
        for k in const:
            if k in t.args[0][1]:
                return const[k]
    if t.op in ("fmul", "fadd", "fsub", "fdiv"):
        a, b = [fval(ev, x, const) for x in t.args[-2:]]
        return {"fmul": a * b, "fadd": a + b, "fsub": a - b, "fdiv": a / b if b else 0.0}[t.op]
    if t.op == "trunc":
        return int(fval(ev, t.args[-1], const))
    if t.op == "poly":
        s = 0
        for ms, c in t.args[0]:
            x = c
            for f in ms:
                x = x * fval(ev, f, const)
            s += x
        return s
    if t.op in ("ite",):
        return fval(ev, t.args[1], const) if ev(t.args[0]) else fval(ev, t.args[2], const)
    return float(ev(t)) if isinstance(ev(t), float) else ev(t)


def fbool(ev, t, const):
    if t.op in ("gt0", "eq0"):
        v = fval(ev, t.args[0], const)
        return v > 0 if t.op == "gt0" else v == 0
    if t.op == "not":
        return not fbool(ev, t.args[0], const)
    return ev(t)


def zero(c, size):
    return None


def wheelat(t, wheel):
    b = t.args[0]
    if b.op == "sel" and b.args[1][0] == "i" and b.args[1][1].op == "c":
        return mk("c", wheel[b.args[1][1].args[0]][1])
    raise Unknown("wheel entry " + short(t))


def fields(t):
    """fields written by an upd chain"""
    out = {}
    while isinstance(t, T) and t.op == "upd":
        k = t.args[1]
        if k[0] == "f":
            out.setdefault(k[1], t.args[2])
        t = t.args[0]
    return out


def und(msg):
    raise Unknown(msg)


def show(k):
    return re.sub(r"local:[^#]*#", "v", k or "?").replace("this.", "")
