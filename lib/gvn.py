"""Global value numbering over the structured, type-resolved program.

A function is interpreted once, abstractly: every value becomes a term of
terms.py, branches join into gated (ite) values, loops become phi atoms with a
recorded (init, condition, next) triple, project helpers are inlined, and every
call/store/throw/return is recorded with its path condition.  Nothing is
executed and no path is handed to a solver."""
import re
from terms import *
import terms as TM

INT256 = "int256_t"


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("mem", "pc", "dead", "mod")

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.dead = False

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.dead = self.dead
        return s


class Ev:
    """One recorded event."""
    __slots__ = ("k", "pc", "loops", "node", "stack", "a")

    def __init__(self, k, pc, loops, node, stack, a):
        self.k, self.pc, self.loops, self.node, self.stack, self.a = k, pc, loops, node, stack, a

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    @property
    def line(self):
        return self.node.line if self.node is not None else "?"

    def __repr__(self):
        return "<%s %s pc=%s %s>" % (self.k, self.line, list(self.pc), self.a)


class Ctx:
    def __init__(self, fn, parent=None):
        self.fn = fn
        self.parent = parent
        self.rets = []
        self.labels = {}
        self.brk = []
        self.cont = []
        self.refs = {}


# functions that keep their identity: their meaning is fixed by other checks
def default_opaque(f):
    return False


class GVN:
    def __init__(self, prog, opaque=(), opaque_pred=None, max_depth=12, unroll=0, record=True, inline_lib=True,
                 pure=()):
        self.prog = prog
        self.opaque = set(opaque)
        self.opaque_pred = opaque_pred
        self.pure = set(pure)
        self.max_depth = max_depth
        self.unroll = unroll
        self.inline_lib = inline_lib
        self.events = []
        self.loops = []
        self.loopinfo = {}
        self.frames = 0
        self.nloop = 0
        self.quiet = 0
        self.wlogs = []
        self.unknown = []
        self.ctx = None
        self.stack = []
        self.lams = {}
        self.names = {}
        self.steps = 0
        self.max_steps = 3000000
        self.arith = False
        # exact: conversions that can change an integer are kept as "wrap" terms
        self.exact = False

    # ------------------------------------------------------------ entry
    def run(self, fn, names=None, this="this", args=None):
        """names: role names of the parameters (defaults to declared names)."""
        self.ctx = Ctx(fn)
        st = State()
        self.frames += 1
        self.ctx.frame = self.frames
        self.ctx.this = ("P", this) if this else None
        for ix, p in enumerate(fn.params):
            nm = names[ix] if names and ix < len(names) and names[ix] else (p.n or "arg%d" % ix)
            self.bind_param(st, p, nm, args[ix] if args and ix < len(args) else None)
        self.stack = [fn.q]
        if fn.inits:
            self.run_inits(fn, st)
        st = self.block(fn.body, st)
        if not st.dead:
            self.ctx.rets.append((st, None))
        live = [s for s, _ in self.ctx.rets]
        self.final = self.merge(live) if live else st
        self.rets = self.ctx.rets
        self.retval = None
        vals = [(s, v) for s, v in self.ctx.rets if v is not None]
        if vals:
            self.retval = self.merge_vals(vals)
        return self

    def bind_param(self, st, p, nm, val=None):
        ty = p.type()
        if ty.k in ("ref", "rref"):
            self.ctx.refs[p.key] = (("P", nm), ())
        else:
            loc = (("L", p.key, self.ctx.frame), ())
            v = val
            if v is None:
                v = mk("bvar", nm) if ty.k == "bool" else mk("var", nm)
                if ty.k == "ptr":
                    v = mk("addr", ("P", nm), ())
            st.mem[loc[0]] = v

    def run_inits(self, fn, st):
        for it in fn.inits:
            if "field" in it:
                fld = it["field"]
                loc = (self.ctx.this, (("f", fld.n),))
                if fld.type() is not None and fld.type().k in ("ref", "rref"):
                    l = self.lval(it["init"], st)
                    self.store(st, loc, mk("addr", l[0], l[1]))
                elif it["init"] is not None:
                    v = self.rval(it["init"], st)
                    self.store(st, loc, self.conv_rec(v))
            elif it.get("init") is not None:
                n = it["init"]
                self.construct(n, st, (self.ctx.this, ()))

    def conv_rec(self, v):
        return v

    # ------------------------------------------------------------ memory
    def base_init(self, base):
        if base[0] == "P":
            return mk("ld", base)
        if base[0] == "G":
            return mk("ld", base)
        if base[0] == "A":
            return mk("deref", base[1])
        return mk("undef", base)

    def load(self, st, loc):
        base, path = loc
        v = st.mem.get(base)
        if v is None:
            v = self.base_init(base)
        for e in path:
            if v.op == "addr" and e[0] == "f":   # should not happen
                pass
            v = sel(v, e)
        return v

    def store(self, st, loc, val):
        base, path = loc
        if self.wlogs:
            fp = []
            for e in path:
                if e[0] != "f":
                    break
                fp.append(e)
            for w in self.wlogs:
                w.add((base, tuple(fp)))
        if isinstance(val, T) and val.op in BOOL_OPS:
            pass
        if not path:
            st.mem[base] = val
            return
        old = st.mem.get(base)
        if old is None:
            old = self.base_init(base)
        st.mem[base] = self.upd_path(old, path, val)

    def upd_path(self, v, path, val):
        if len(path) == 1:
            return upd(v, path[0], val)
        return upd(v, path[0], self.upd_path(sel(v, path[0]), path[1:], val))

    def havoc(self, st, loc, val):
        self.store(st, loc, val)

    # ------------------------------------------------------------ merging
    def merge(self, states):
        states = [s for s in states if s is not None and not s.dead]
        if not states:
            s = State()
            s.dead = True
            return s
        r = states[0]
        for s in states[1:]:
            r = self.merge2(r, s)
        return r

    def gate(self, p1, p2):
        n = 0
        while n < len(p1) and n < len(p2) and p1[n] is p2[n]:
            n += 1
        r1 = land(*p1[n:])
        r2 = land(*p2[n:])
        j = lor(r1, r2)
        if j is not TRUE and r1 is bnot_(r2):
            j = TRUE
        # (a and b) or (not a)  ==  b or not a
        if j is not TRUE:
            j = self.simplify_or(p1[n:], p2[n:], j)
        pc = p1[:n] + ((j,) if j is not TRUE else ())
        if r1 is TRUE:
            return bnot_(r2), pc
        return r1, pc

    def simplify_or(self, a, b, j):
        if len(a) >= 1 and len(b) >= 1 and a[0] is bnot_(b[0]):
            ra, rb = land(*a[1:]), land(*b[1:])
            if ra is TRUE and rb is TRUE:
                return TRUE
            if ra is TRUE:
                return lor(a[0], rb)
            if rb is TRUE:
                return lor(b[0], ra)
        return j

    def merge2(self, a, b):
        g, pc = self.gate(a.pc, b.pc)
        r = State()
        r.pc = pc
        r.mem = dict(a.mem)
        if a.mem is b.mem:
            return r
        for base, vb in b.mem.items():
            va = a.mem.get(base)
            if va is None:
                if base[0] == "L":
                    r.mem[base] = vb
                    continue
                va = self.base_init(base)
            if va is not vb:
                r.mem[base] = ite(g, va, vb)
        for base, va in a.mem.items():
            if base not in b.mem and base[0] != "L":
                vb = self.base_init(base)
                if va is not vb:
                    r.mem[base] = ite(g, va, vb)
        return r

    def merge_vals(self, vals):
        """vals: [(state, value)] -> gated value"""
        s, v = vals[-1]
        pc = s.pc
        for s2, v2 in reversed(vals[:-1]):
            g, npc = self.gate(s2.pc, pc)
            v = ite(g, v2, v)
            pc = npc
        return v

    # ------------------------------------------------------------ events
    def emit(self, k, st, node, **a):
        if self.quiet:
            return
        ev = Ev(k, st.pc, tuple(self.loops), node, tuple(self.stack), a)
        self.events.append(ev)
        return ev

    def unk(self, node, why):
        if not self.quiet:
            self.unknown.append((node.line if node is not None else "?", why))

    def opq(self, st, node, tag, *args):
        return mk("opq", tag, *args)

    # ------------------------------------------------------------ statements
    def block(self, n, st):
        if n is None:
            return st
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("analysis budget exceeded in %s" % (self.stack[:1],))
        k = n.k
        if k == "LabelStmt":
            pend = self.ctx.labels.pop(n.get("label"), [])
            st = self.merge([st] + pend)
            if st.dead:
                return st
            for c in n.a["args"]:
                st = self.block(c, st)
            return st
        if k == "CompoundStmt":
            for c in n.a["args"]:
                if st.dead and not self.has_label(c):
                    continue
                st = self.block(c, st)
            return st
        if st.dead and not self.has_label(n):
            return st
        m = getattr(self, "s_" + k, None)
        if m:
            return m(n, st)
        if k.startswith("OMP"):
            nt = [c for c in (n.get("clauses") or []) if isinstance(c, dict) and c.get("kind") == "num_threads"]
            self.emit("omp", st, n, nthreads=self.rval(nt[0]["expr"], st) if nt and nt[0].get("expr") is not None else None)
            body = n.get("body")
            return self.block(body, st)
        # expression statement
        self.rval_or_void(n, st)
        return st

    def has_label(self, n):
        if n is None:
            return False
        c = getattr(n, "_haslabel", None) if False else None
        for x in n.walk():
            if x.k in ("LabelStmt",):
                return True
        return False

    def s_NullStmt(self, n, st):
        return st

    def s_DeclStmt(self, n, st):
        for d, init in n.a["decls"]:
            self.declare(d, init, st)
        return st

    def declare(self, d, init, st):
        ty = d.type()
        if ty is None:
            return
        if ty.k in ("ref", "rref"):
            if init is not None:
                self.ctx.refs[d.key] = self.lval(init, st)
            return
        if d.is_global:   # static local
            return
        base = ("L", d.key, self.ctx.frame)
        if init is None:
            self.store(st, (base, ()), mk("undef", d.n))
            return
        if init.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not self.is_num(ty):
            self.construct(init, st, (base, ()))
            return
        v = self.rval(init, st)
        if ty.k == "int" or ty.k == "float":
            v = tonum(v)
        if self.is_int(ty) and init.type() is not None and init.type().k == "float":
            v = self.trunc(v)
        self.store(st, (base, ()), v)

    def s_IfStmt(self, n, st):
        if n.get("init") is not None:
            st = self.block(n.get("init"), st)
        if n.get("condvar") is not None:
            st = self.block(n.get("condvar"), st)
        c = self.cond(n.get("cond"), st)
        if c is TRUE:
            return self.block(n.get("then"), st)
        if c is FALSE:
            e = n.get("else")
            if n.get("then") is not None and self.has_label(n.get("then")):
                pass
            return self.block(e, st) if e is not None else st
        s1, s2 = st.copy(), st.copy()
        s1.pc = st.pc + (c,)
        s2.pc = st.pc + (bnot_(c),)
        s1 = self.block(n.get("then"), s1)
        if n.get("else") is not None:
            s2 = self.block(n.get("else"), s2)
        if s1.dead:
            return s2
        if s2.dead:
            return s1
        r = self.merge2(s1, s2)
        return r

    def s_ReturnStmt(self, n, st):
        v = None
        if n.a["args"]:
            rt = self.ctx.fn.ret if self.ctx.fn is not None else None
            if rt is not None and rt.k in ("ref", "rref"):
                l = self.lval(n.a["args"][0], st)
                v = mk("addr", l[0], l[1])
            elif rt is not None and rt.k == "void":
                self.rval_or_void(n.a["args"][0], st)
            else:
                v = self.rval(n.a["args"][0], st)
                if rt is not None and rt.k in ("int", "float"):
                    v = tonum(v)
                if rt is not None and self.is_int(rt) and n.a["args"][0].type() is not None and n.a["args"][0].type().k == "float":
                    v = self.trunc(v)
        if self.ctx.parent is None:
            self.emit("ret", st, n, val=v)
        s = st.copy()
        self.ctx.rets.append((s, v))
        st = st.copy()
        st.dead = True
        return st

    def s_BreakStmt(self, n, st):
        if self.ctx.brk:
            self.ctx.brk[-1].append(st.copy())
        st = st.copy()
        st.dead = True
        return st

    def s_ContinueStmt(self, n, st):
        if self.ctx.cont:
            self.ctx.cont[-1].append(st.copy())
        st = st.copy()
        st.dead = True
        return st

    def s_GotoStmt(self, n, st):
        self.ctx.labels.setdefault(n.get("label"), []).append(st.copy())
        st = st.copy()
        st.dead = True
        return st

    def s_SwitchStmt(self, n, st):
        v = self.rval(n.get("cond"), st)
        body = n.get("body")
        stmts = body.a["args"] if body.k == "CompoundStmt" else [body]
        # collect labels
        vals = []

        def labels(x):
            out = []
            while x is not None and x.k in ("CaseStmt", "DefaultStmt"):
                out.append(x)
                x = x.get("body")
            return out, x
        for s in stmts:
            for l in labels(s)[0]:
                if l.k == "CaseStmt":
                    vals.append(l.get("val").cv())
        self.ctx.brk.append([])
        cur = st.copy()
        cur.dead = True
        has_default = False
        for s in stmts:
            ls, rest = labels(s)
            if ls:
                conds = []
                for l in ls:
                    if l.k == "CaseStmt":
                        cvv = l.get("val").cv()
                        conds.append(eq(v, C(cvv)) if cvv is not None else mk("bvar", "case"))
                    else:
                        has_default = True
                        conds.append(land(*[bnot_(eq(v, C(x))) for x in vals if x is not None]))
                c = lor(*conds)
                if c is not FALSE:
                    e = st.copy()
                    e.pc = st.pc + ((c,) if c is not TRUE else ())
                    cur = self.merge([cur, e])
                if rest is not None:
                    cur = self.block(rest, cur)
            else:
                cur = self.block(s, cur)
        outs = self.ctx.brk.pop()
        outs.append(cur)
        if not has_default:
            e = st.copy()
            c = land(*[bnot_(eq(v, C(x))) for x in vals if x is not None])
            if c is not FALSE:
                e.pc = st.pc + ((c,) if c is not TRUE else ())
                outs.append(e)
        r = self.merge(outs)
        if not r.dead:
            r.pc = st.pc if len(r.pc) >= len(st.pc) and has_default and not any(s.dead for s in outs[:-1]) and self.covers(outs, st) else r.pc
        return r

    def covers(self, outs, st):
        return False

    def s_CXXTryStmt(self, n, st):
        entry = st.copy()
        w = set()
        self.wlogs.append(w)
        nr, ne = len(self.ctx.rets), len(self.events)
        s1 = self.block(n.get("body"), st)
        self.wlogs.pop()
        k = len(entry.pc)
        # a location stored to only after everything that can throw keeps its
        # value at entry when a handler runs
        late, early = set(), set(w)
        if not self.quiet:
            evs = self.events[ne:]
            last = max((j for j, e in enumerate(evs) if self.may_throw(e)), default=-1)
            lp = tuple(self.loops)
            for j, e in enumerate(evs):
                if e.k == "store" and j > last and e.loops == lp:
                    late.add(e.a["loc"])
            for e in evs[:last + 1]:
                if e.k == "store":
                    late.discard(e.a["loc"])
                elif e.k == "call":
                    for x in list(e.a.get("args") or ()) + [e.a.get("obj")]:
                        for l in list(late):
                            if x is not None and repr(l[0]) in repr(x):
                                late.discard(l)
        quiet_ = tuple(bnot_(mk("bvar", ("exc", n.i, i))) for i in range(len(n.get("handlers") or ())))
        for s, _ in self.ctx.rets[nr:]:
            if s.pc[:k] == entry.pc:            # the body returned, so nothing was thrown
                s.pc = entry.pc + quiet_ + s.pc[k:]
        outs = [s1]
        for i, h in enumerate(n.get("handlers")):
            s = entry.copy()
            s.pc = entry.pc + (mk("bvar", ("exc", n.i, i)),)
            for loc in w:
                if loc[0][0] == "L" and loc[0] not in entry.mem:
                    continue
                if loc in late:
                    continue
                self.store(s, loc, mk("eff", "try", n.i, str(loc[1]), loc[0]))
            self.emit("catch", s, h, region=n.i)
            if h.decl() is not None:
                self.ctx.refs[h.decl().key] = (("P", "exc"), ())
            s = self.block(h.get("body"), s)
            outs.append(s)
        live = [s for s in outs if not s.dead]
        if len(live) == 1 and live[0] is s1:
            return s1
        return self.merge(outs)

    def may_throw(self, e):
        if e.k in ("new", "throw", "async", "loop"):
            return True
        if e.k != "call" or e.a.get("inlined"):
            return False
        d = e.a.get("decl")
        if d is not None and (d.get("noexcept") or d.get("externc")):
            return False
        import throws
        return e.a["q"].split("::")[-1].split("<")[0] not in throws.QUIET

    def s_CXXCatchStmt(self, n, st):
        return self.block(n.get("body"), st)

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, n, st):
        if n.get("init") is not None:
            st = self.block(n.get("init"), st)
        return self.loop(n, st, n.get("cond"), n.get("body"), n.get("inc"), False)

    def s_WhileStmt(self, n, st):
        return self.loop(n, st, n.get("cond"), n.get("body"), None, False)

    def s_DoStmt(self, n, st):
        return self.loop(n, st, n.get("cond"), n.get("body"), None, True)

    def s_CXXForRangeStmt(self, n, st):
        rng = n.get("range")
        l = None
        try:
            l = self.lval(rng, st)
        except Unsupported:
            pass
        d = n.decl()

        def bindvar(s, lid):
            idx = mk("phi", lid, "it")
            if l is not None:
                el = (l[0], l[1] + (("i", idx),))
            else:
                el = (("A", mk("opq", "range", lid)), (("i", idx),))
            if d is not None:
                if d.type().k in ("ref", "rref"):
                    self.ctx.refs[d.key] = el
                else:
                    self.store(s, (("L", d.key, self.ctx.frame), ()), self.load(s, el))
        return self.loop(n, st, None, n.get("body"), None, False, prologue=bindvar, range_=l)

    def iterate(self, n, st, cond, body, inc, do, lid, prologue):
        """one abstract iteration; returns (cond term, state at exit, states
        reaching the back edge merged, break states)"""
        self.ctx.brk.append([])
        self.ctx.cont.append([])
        c = TRUE
        s = st
        entry = None
        if not do:
            if prologue:
                c = mk("bvar", ("more", lid))
                prologue(s, lid)
            elif cond is not None:
                c = self.cond(cond, s)
            out = s.copy()
            out.pc = s.pc + ((bnot_(c),) if c is not FALSE else ())
            if c is TRUE:
                out.dead = True
            s = s.copy()
            if c is not TRUE:
                s.pc = s.pc + (c,)
        s = self.block(body, s)
        cs = self.ctx.cont.pop()
        s = self.merge([s] + cs)
        if not s.dead and inc is not None:
            self.rval_or_void(inc, s)
        if do:
            if not s.dead:
                c = self.cond(cond, s)
                out = s.copy()
                out.pc = s.pc + (bnot_(c),)
                if c is TRUE:
                    out.dead = True
                s.pc = s.pc + ((c,) if c is not TRUE else ())
            else:
                out = s
        br = self.ctx.brk.pop()
        return c, out, s, br

    def loop(self, n, st, cond, body, inc, do, prologue=None, range_=None):
        # labels inside the loop body may be the target of gotos in the body
        if self.unroll and not prologue:
            r = self.try_unroll(n, st, cond, body, inc, do)
            if r is not None:
                return r
        saved_labels = self.ctx.labels
        self.nloop += 1
        lid = self.nloop
        pre_bases = set(st.mem)
        # pass 1 (quiet): what may the loop modify?
        W = set()
        for _ in range(1 if self.quiet else 3):
            s = st.copy()
            for loc in W:
                self.store(s, loc, mk("phi", lid, self.locname(loc)))
            w = set()
            self.wlogs.append(w)
            self.quiet += 1
            nl = self.nloop
            self.loops.append(lid)
            self.ctx.labels = {}
            fr = self.frames
            nr = len(self.ctx.rets)
            try:
                self.iterate(n, s, cond, body, inc, do, lid, prologue)
            finally:
                self.quiet -= 1
                del self.ctx.rets[nr:]
                self.wlogs.pop()
                self.loops.pop()
                self.nloop = nl
                self.frames = fr
            w = {(b, p) for b, p in w if b[0] != "L" or b in pre_bases}
            if w <= W:
                break
            W |= w
        # drop locations covered by a shorter prefix
        W = {(b, p) for b, p in W if not any(b2 == b and p2 != p and p[:len(p2)] == p2 for b2, p2 in W)}
        init = {}
        phi = {}
        s = st.copy()
        for loc in sorted(W, key=self.locname):
            nm = self.locname(loc)
            init[nm] = self.load(st, loc)
            phi[nm] = mk("phi", lid, nm)
            self.store(s, loc, phi[nm])
        self.loops.append(lid)
        self.ctx.labels = {}
        c, out, back, br = self.iterate(n, s, cond, body, inc, do, lid, prologue)
        self.loops.pop()
        pend = self.ctx.labels
        self.ctx.labels = saved_labels
        for k, v in pend.items():
            self.ctx.labels.setdefault(k, []).extend(v)
        nxt = {}
        if not back.dead:
            for loc in W:
                nxt[self.locname(loc)] = self.load(back, loc)
        info = dict(id=lid, cond=c, init=init, phi=phi, next=nxt, do=do, node=n, pc=st.pc, outer=tuple(self.loops),
                    range=range_, breaks=[b.pc[len(st.pc):] for b in br], fn=self.stack[-1] if self.stack else "",
                    backpc=back.pc if not back.dead else None)
        if not self.quiet:
            self.loopinfo[lid] = info
            self.events.append(Ev("loop", st.pc, tuple(self.loops), n, tuple(self.stack), info))
        outs = [o for o in [out] + br if not o.dead]
        if not outs:
            return self.merge([])
        r = self.merge(outs)
        # leaving the loop does not constrain the caller's path
        if len(outs) == 1 and len(r.pc) > len(st.pc):
            r.pc = st.pc + r.pc[len(st.pc):]
        r.pc = st.pc
        return r

    def locname(self, loc):
        b, p = loc
        if b[0] == "L":
            nm = b[1]
            if nm.startswith("local:"):
                d = self.declname(nm)
                nm = d
            s = nm
        else:
            s = ":".join(str(x) for x in b)
        for e in p:
            s += "." + str(e[1])
        return s

    def declname(self, key):
        nm = self.names.get(key)
        if nm is None:
            rel, ix = key[6:].rsplit("#", 1)
            for tu in self.prog.tus:
                if tu.rel == rel:
                    nm = tu.decls[int(ix)].n + "#" + ix
                    break
            self.names[key] = nm or key
        return self.names[key]

    def try_unroll(self, n, st, cond, body, inc, do):
        if cond is None:
            return None
        # test the first iteration on a copy
        self.quiet += 1
        try:
            s = st.copy()
            c = self.cond(cond, s) if not do else None
        except Unsupported:
            c = None
        finally:
            self.quiet -= 1
        if c not in (TRUE, FALSE):
            return None
        ev, nl, fr, unk = len(self.events), self.nloop, self.frames, len(self.unknown)
        s = st.copy()
        brs = []
        pend0 = {k: list(v) for k, v in self.ctx.labels.items()}
        for it in range(self.unroll + 1):
            c, out, s2, br = self.iterate(n, s, cond, body, inc, do, ("u", n.i, it), None)
            brs += br
            if c is FALSE:
                return self.merge([out] + brs)
            if c is not TRUE:
                break
            if s2.dead:
                return self.merge(brs)
            s = s2
        # not a constant trip count: undo
        del self.events[ev:]
        del self.unknown[unk:]
        self.nloop, self.frames = nl, fr
        self.ctx.labels = pend0
        return None

    # ------------------------------------------------------------ expressions
    def cond(self, n, st):
        return tobool(self.rval(n, st))

    def rval_or_void(self, n, st):
        if n is None:
            return None
        t = n.type()
        if t is not None and t.k == "void":
            return self.rval(n, st)
        return self.rval(n, st)

    def is_num(self, ty):
        ty = ty.strip_ref()
        return ty.k in ("int", "bool", "enum", "float") or self.is_wide(ty)

    def is_wide(self, ty):
        return ty.k == "rec" and (ty.get("rec") or ty.s).split("::")[-1] == INT256

    def is_int(self, ty):
        return ty.k in ("int", "enum") or self.is_wide(ty)

    def is_float(self, ty):
        return ty is not None and ty.k == "float"

    def trunc(self, v):
        v = tonum(v)
        if is_c(v):
            return C(int(v.args[0]))
        if v.op == "trunc":
            return v
        return mk("trunc", v)

    def rval(self, n, st):
        """value of an expression"""
        if n is None:
            return mk("undef", "none")
        cv = n.a.get("cv")
        if cv is not None and n.type() is not None and n.type().k in ("int", "enum", "bool"):
            v = int(cv)
            if n.type().k == "bool":
                return TRUE if v else FALSE
            return C(v)
        m = getattr(self, "e_" + n.k, None)
        if m:
            return m(n, st)
        self.unk(n, "expression " + n.k)
        for c in n.ch:
            self.rval_or_void(c, st)
        return mk("opq", n.k, n.l)

    def e_IntegerLiteral(self, n, st):
        return C(n.cv())

    e_CharacterLiteral = e_IntegerLiteral

    def e_FloatingLiteral(self, n, st):
        v = n.get("fv")
        return C(int(v)) if v == int(v) else C(float(v))

    def e_StringLiteral(self, n, st):
        return mk("str", n.get("s"))

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return C(0)

    def e_CXXThisExpr(self, n, st):
        if self.ctx.this is None:
            return mk("addr", ("P", "this"), ())
        if isinstance(self.ctx.this, tuple) and self.ctx.this and self.ctx.this[0] == "loc":
            return mk("addr", self.ctx.this[1][0], self.ctx.this[1][1])
        return mk("addr", self.ctx.this, ())

    def e_DeclRefExpr(self, n, st):
        d = n.decl()
        if d.k == "EnumConstant":
            return C(int(d.get("v")))
        if d.is_function:
            return mk("fn", d.key)
        return self.load(st, self.lval(n, st))

    def e_MemberExpr(self, n, st):
        d = n.decl()
        if d.is_function:
            return mk("fn", d.key)
        if d.k == "EnumConstant":
            return C(int(d.get("v")))
        return self.load(st, self.lval(n, st))

    def e_ArraySubscriptExpr(self, n, st):
        return self.load(st, self.lval(n, st))

    def e_ImplicitCastExpr(self, n, st):
        ck = n.get("ck")
        sub_ = n.a["args"][0]
        if ck == "LValueToRValue":
            x = sub_
            while x.k == "ParenExpr":
                x = x.a["args"][0]
            if x.k == "ConditionalOperator":
                return self.e_ConditionalOperator(x, st, load=True)
            return self.load(st, self.lval(sub_, st))
        if ck == "ArrayToPointerDecay":
            if sub_.k == "StringLiteral":
                return mk("str", sub_.get("s"))
            l = self.lval(sub_, st)
            return mk("addr", l[0], l[1] + (("i", ZERO),))
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.rval(sub_, st)
        if ck == "NullToPointer":
            return C(0)
        v = self.rval(sub_, st)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
            return tobool(v)
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            t = n.type()
            if sub_.type() is not None and sub_.type().k == "bool" or v.op in BOOL_OPS:
                v = tonum(v)
            if t.k == "int":
                return self.intcast(v, sub_.type(), t, n, st)
            return v
        if ck == "FloatingToIntegral":
            return self.trunc(v)
        if ck in ("IntegralToFloating", "FloatingCast"):
            return tonum(v)
        if ck == "PointerToIntegral":
            return mk("ptoi", v)
        if ck == "ToVoid":
            return v
        if ck in ("UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "BitCast", "NoOp", "ConstructorConversion",
                  "UserDefinedConversion", "LValueBitCast", "IntegralToPointer"):
            return v
        return v

    def intcast(self, v, src, dst, n, st):
        if is_c(v) and dst.bits and not isinstance(v.args[0], float):
            x = v.args[0] & ((1 << dst.bits) - 1)
            if not dst.unsigned and x >> (dst.bits - 1):
                x -= 1 << dst.bits
            return C(x)
        if self.exact and dst.bits and src is not None and src.bits and not is_c(v):
            if dst.bits < src.bits or dst.bits == src.bits and bool(dst.unsigned) != bool(src.unsigned) or dst.unsigned and not src.unsigned:
                return mk("wrap", dst.bits, bool(dst.unsigned), v)
        if dst.bits and src is not None and src.bits and dst.bits < src.bits and dst.bits < 32:
            # a narrowing below int changes values in practice (limb access)
            return mk("low", dst.bits, v)
        return v

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_UnaryOperator(self, n, st):
        op = n.get("op")
        a = n.a["args"][0]
        if op == "&":
            if a.k == "DeclRefExpr" and a.decl().is_function:
                return mk("fn", a.decl().key)
            l = self.lval(a, st)
            return mk("addr", l[0], l[1])
        if op == "*":
            return self.load(st, self.lval(n, st))
        if op in ("++", "--"):
            l = self.lval(a, st)
            old = self.load(st, l)
            new = self.ptradd(old, ONE if op == "++" else C(-1))
            self.store(st, l, new)
            self.emit("store", st, n, loc=l, val=new, old=old)
            return old if n.get("post") else new
        v = self.rval(a, st)
        if op == "-":
            return neg(tonum(v))
        if op == "+":
            return tonum(v)
        if op == "!":
            return bnot_(tobool(v))
        if op == "~":
            t = n.type()
            if t is not None and t.k == "int":
                return bnot(tonum(v), t.bits if t.unsigned else None)
            return bnot(tonum(v))
        if op == "__extension__":
            return v
        self.unk(n, "unary " + op)
        return mk("opq", op, v)

    def ptradd(self, p, k):
        if p.op == "addr":
            path = p.args[1]
            if path and path[-1][0] == "i":
                return mk("addr", p.args[0], path[:-1] + (("i", add(path[-1][1], k)),))
            if k is ZERO:
                return p
            return mk("addr", p.args[0], path + (("i", k),)) if not path or path[-1][0] != "i" else p
        return add(tonum(p), tonum(k))

    def e_BinaryOperator(self, n, st):
        op = n.get("op")
        A, B = n.a["args"]
        if op == "&&" or op == "||":
            a = tobool(self.rval(A, st))
            if (a is FALSE and op == "&&"):
                return FALSE
            if (a is TRUE and op == "||"):
                return TRUE
            s2 = st.copy()
            g = a if op == "&&" else bnot_(a)
            s2.pc = st.pc + ((g,) if g is not TRUE else ())
            b = tobool(self.rval(B, s2))
            # side effects of the right operand
            pc = st.pc
            if s2.mem != st.mem:
                s1 = st.copy()
                s1.pc = st.pc + (bnot_(g),)
                r = self.merge2(s2, s1) if g is not TRUE else s2
                st.mem = r.mem
            st.pc = pc
            return land(a, b) if op == "&&" else lor(a, b)
        if op == ",":
            self.rval_or_void(A, st)
            return self.rval(B, st)
        if op == "=":
            v = self.rval(B, st)
            l = self.lval(A, st)
            t = A.type()
            if t is not None and t.k in ("int", "float"):
                v = tonum(v)
            elif t is not None and t.k == "bool":
                v = tobool(v)
            old = self.load(st, l) if not self.quiet else None
            self.store(st, l, v)
            self.emit("store", st, n, loc=l, val=v, old=old)
            return v
        if op in (".*", "->*"):
            self.unk(n, op)
            return mk("opq", op)
        a = self.rval(A, st)
        b = self.rval(B, st)
        r = self.binop(op, a, b, n, A.type(), B.type(), n.type())
        if self.arith and op in ("+", "-", "*") and isinstance(r, T):
            self.emit("arith", st, n, op=op, val=r, lhs=a, rhs=b, type=n.type())
        return r

    def wraptest(self, op, a, b, ta, tb):
        """x + y < x and x < x - y on unsigned numbers: the test whether the sum or difference wrapped around"""
        if ta is None or ta.k != "int" or not ta.unsigned or ta.bits < 32 or a is b:
            return None
        if op in (">", "<="):
            a, b = b, a
        # now a < b (or its negation)
        d = to_poly(sub(a, b))
        if not d or any(c <= 0 for c in d.values()) or not all(all(x.op != "c" for x in m) for m in d):
            return None
        if all(m == () for m in d) and is_c(a):
            return None
        neg_ = [c for c in to_poly(b).values() if c < 0]
        posa = to_poly(a)
        if neg_ and a.op != "poly":
            r = lt(b, ZERO)
        elif a.op == "poly" and not [c for c in posa.values() if c < 0]:
            r = lt(C((1 << ta.bits) - 1), a)
        else:
            return None
        return r if op in ("<", ">") else bnot_(r)

    def binop(self, op, a, b, n, ta, tb, tr):
        fl = self.is_float(ta) or self.is_float(tb)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if op in ("==", "!="):
                if a.op in BOOL_OPS and b.op in BOOL_OPS:
                    r = lor(land(a, b), land(bnot_(a), bnot_(b)))
                elif a.op in ("addr", "str", "fn") or b.op in ("addr", "str", "fn"):
                    r = self.ptreq(a, b)
                else:
                    r = eq(tonum(a), tonum(b))
                return r if op == "==" else bnot_(r)
            if a.op == "addr" or b.op == "addr":
                r = self.ptrcmp(op, a, b)
                return r
            a, b = tonum(a), tonum(b)
            w = self.wraptest(op, a, b, ta, tb)
            if w is not None:
                return w
            if op == "<":
                return lt(a, b, fl)
            if op == ">":
                return lt(b, a, fl)
            if op == "<=":
                return le(a, b, fl)
            return le(b, a, fl)
        if op in ("+", "-") and (a.op == "addr" or b.op == "addr"):
            if op == "+":
                return self.ptradd(a, b) if a.op == "addr" else self.ptradd(b, a)
            if b.op != "addr":
                return self.ptradd(a, neg(b))
            if a.args[0] == b.args[0] and a.args[1] and b.args[1] and a.args[1][:-1] == b.args[1][:-1] and a.args[1][-1][0] == "i" == b.args[1][-1][0]:
                return sub(a.args[1][-1][1], b.args[1][-1][1])
            return mk("pdiff", a, b)
        a, b = tonum(a), tonum(b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if fl:
                if is_c(b) and b.args[0] not in (0,):
                    return mul(a, C(1.0 / b.args[0])) if not is_c(a) else C(a.args[0] / b.args[0])
                return mk("fdiv", a, b)
            return div(a, b)
        if op == "%":
            return mod(a, b)
        if op == "<<":
            return shl(a, b)
        if op == ">>":
            return shr(a, b)
        if op == "&":
            return band(a, b)
        if op == "|":
            return bor(a, b)
        if op == "^":
            return bxor(a, b)
        self.unk(n, "operator " + op)
        return mk("opq", op, a, b)

    def ptreq(self, a, b):
        if a is b:
            return TRUE
        if a.op == "addr" and b.op == "addr" and a.args[0] == b.args[0] and a.args[1][:-1] == b.args[1][:-1] and a.args[1] and b.args[1] and a.args[1][-1][0] == "i" == b.args[1][-1][0]:
            return eq(a.args[1][-1][1], b.args[1][-1][1])
        return mk("eq0", mk("cmp", *sorted((a, b), key=lambda x: x.id)))

    def ptrcmp(self, op, a, b):
        if a.op == "addr" and b.op == "addr" and a.args[0] == b.args[0] and a.args[1] and b.args[1] and a.args[1][:-1] == b.args[1][:-1] and a.args[1][-1][0] == "i" == b.args[1][-1][0]:
            x, y = a.args[1][-1][1], b.args[1][-1][1]
            return {"<": lt(x, y), ">": lt(y, x), "<=": le(x, y), ">=": le(y, x)}[op]
        if op == "<":
            return mk("bvar", ("plt", a, b))
        if op == ">":
            return mk("bvar", ("plt", b, a))
        if op == "<=":
            return bnot_(mk("bvar", ("plt", b, a)))
        return bnot_(mk("bvar", ("plt", a, b)))

    def e_CompoundAssignOperator(self, n, st):
        op = n.get("op")[:-1]
        A, B = n.a["args"]
        b = self.rval(B, st)
        l = self.lval(A, st)
        a = self.load(st, l)
        ct = n.ty(n.get("ct")) if n.get("ct") is not None else None
        v = self.binop(op, a, b, n, ct or A.type(), B.type() if op not in ("<<", ">>") else ct, ct)
        if self.is_int(A.type()) and ct is not None and ct.k == "float":
            v = self.trunc(v)
        if self.arith and op in ("+", "-", "*") and isinstance(v, T):
            self.emit("arith", st, n, op=op, val=v, lhs=a, rhs=b, type=ct or A.type())
        self.store(st, l, v)
        self.emit("store", st, n, loc=l, val=v, old=a)
        return v

    def e_ConditionalOperator(self, n, st, load=False):
        Cn, A, B = n.a["args"]
        c = self.cond(Cn, st)
        rv = (lambda x, s: self.load(s, self.lval(x, s))) if load else self.rval
        if c is TRUE:
            return rv(A, st)
        if c is FALSE:
            return rv(B, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = st.pc + (c,)
        s2.pc = st.pc + (bnot_(c),)
        a = rv(A, s1)
        b = rv(B, s2)
        if s1.mem != st.mem or s2.mem != st.mem:
            r = self.merge2(s1, s2)
            st.mem = r.mem
        if n.type() is not None and n.type().k in ("int", "float"):
            a, b = tonum(a), tonum(b)
        return ite(c, a, b)

    def e_InitListExpr(self, n, st):
        vs = [self.rval(c, st) for c in n.a["args"]]
        t = n.type()
        if t is not None and (t.k in ("int", "float", "bool", "enum", "ptr")):
            return vs[0] if vs else ZERO
        return mk("list", *vs)

    def e_CXXStdInitializerListExpr(self, n, st):
        return self.rval(n.a["args"][0], st)

    def e_ImplicitValueInitExpr(self, n, st):
        return ZERO

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXDefaultArgExpr(self, n, st):
        return self.rval(n.a["args"][0], st)

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        return C(n.cv()) if n.cv() is not None else mk("opq", "sizeof", n.l)

    def e_CXXNewExpr(self, n, st):
        vals = [self.rval(c, st) for c in n.a["args"]]
        self.emit("new", st, n, args=vals)
        return mk("opq", "new", n.l)

    def e_CXXDeleteExpr(self, n, st):
        v = self.rval(n.a["args"][0], st)
        self.emit("delete", st, n, val=v)
        return ZERO

    def e_CXXThrowExpr(self, n, st):
        args = [self.rval(c, st) for c in n.a["args"]]
        self.emit("throw", st, n, args=args)
        st.dead = True
        return ZERO

    def e_LambdaExpr(self, n, st):
        key = (n.fn.key if n.fn is not None else "", n.i)
        self.lams[key] = (n, self.ctx, dict(self.ctx.refs))
        return mk("lam", key)

    def e_CXXConstructExpr(self, n, st):
        t = n.type()
        d = n.decl()
        args = n.a["args"]
        if t is not None and self.is_wide(t):
            if not args:
                return ZERO
            if len(args) == 1:
                return tonum(self.rval(args[0], st))
        if len(args) == 1 and d is not None:
            pt = d.get("pt") or []
            # copy or move construction
            if len(pt) == 1:
                p = d.tu.types[pt[0]]
                if p.k in ("ref", "rref") and self.same_rec(p.to(), t):
                    return self.rval(args[0], st)
        self.frames += 1
        base = ("L", "tmp:%s" % n.i, self.frames)
        self.construct(n, st, (base, ()))
        return self.load(st, (base, ()))

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def same_rec(self, a, b):
        return a is not None and b is not None and a.k == "rec" and b.k == "rec" and \
            (a.get("rec") or a.s) == (b.get("rec") or b.s)

    def construct(self, n, st, loc):
        """construct an object in place"""
        if n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            v = self.rval(n, st)
            self.store(st, loc, v)
            return
        d = n.decl()
        args = n.a["args"]
        t = n.type()
        if len(args) == 1 and d is not None:
            pt = d.get("pt") or []
            if len(pt) == 1:
                p = d.tu.types[pt[0]]
                if p.k in ("ref", "rref") and self.same_rec(p.to(), t):
                    v = self.rval(args[0], st)
                    self.store(st, loc, v)
                    return
        if n.a["args"] and args[0].k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.get("elide"):
            return self.construct(args[0], st, loc)
        f = self.prog.callee(n)
        q = d.q if d is not None else "ctor"
        if f is not None and self.may_inline(f, d):
            self.inline(f, d, n, st, loc, args)
            return
        vals = self.eval_args(d, args, st)
        self.emit("call", st, n, q=q, args=vals, obj=loc, ctor=True, key=d.key if d else None, decl=d)
        base = mk("obj", q, *vals)
        self.store(st, loc, base)
        self.escape(d, args, vals, st, n, base)

    # ------------------------------------------------------------ lvalues
    def lval(self, n, st):
        k = n.k
        if k == "DeclRefExpr":
            d = n.decl()
            c = self.ctx
            if d.key in c.refs:
                return c.refs[d.key]
            if d.is_global:
                t = d.type()
                return (("G", d.key), ())
            if d.k == "EnumConstant" or d.is_function:
                return (("A", self.rval(n, st)), ())
            # enclosing frame (lambda bodies share the frame of their function)
            if d.type() is not None and d.type().k in ("ref", "rref"):
                return (("P", d.n), ())
            return (("L", d.key, self.find_frame(d)), ())
        if k == "MemberExpr":
            d = n.decl()
            b = n.a["args"][0]
            if d.is_global or d.k == "Var":
                self.rval_or_void(b, st) if b.k != "CXXThisExpr" else None
                return (("G", d.key), ())
            if n.get("arrow"):
                p = self.rval(b, st)
                l = self.deref(p)
            else:
                l = self.lval(b, st)
            l = (l[0], l[1] + (("f", d.n),))
            if d.type() is not None and d.type().k in ("ref", "rref"):
                v = self.load(st, l)
                return self.deref(v)
            return l
        if k == "ArraySubscriptExpr":
            A, B = n.a["args"]
            p = self.rval(A, st)
            i = tonum(self.rval(B, st))
            p = self.ptradd(p, i) if p.op == "addr" else p
            if p.op == "addr":
                return (p.args[0], p.args[1])
            if p.op == "ite":
                return (("A", p), (("i", i),))
            return (("A", p), (("i", i),))
        if k == "UnaryOperator" and n.get("op") == "*":
            return self.deref(self.rval(n.a["args"][0], st))
        if k == "UnaryOperator" and n.get("op") in ("++", "--") and not n.get("post"):
            self.rval(n, st)
            return self.lval(n.a["args"][0], st)
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr"):
            ck = n.get("ck")
            sub_ = n.a["args"][0]
            if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "LValueBitCast", "BaseToDerived"):
                return self.lval(sub_, st)
            if ck == "LValueToRValue":
                return self.lval(sub_, st)
            return self.temp(self.rval(n, st), n, st)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            rt = self.ret_type(n)
            if rt is not None and rt.k in ("ref", "rref"):
                v = self.call(n, st)
                return self.deref(v)
            return self.temp(self.call(n, st), n, st)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if n.get("op", "").endswith("=") and n.get("op") not in ("==", "!=", "<=", ">="):
                self.rval(n, st)
                return self.lval(n.a["args"][0], st)
            if n.get("op") == ",":
                self.rval_or_void(n.a["args"][0], st)
                return self.lval(n.a["args"][1], st)
        if k == "ConditionalOperator":
            c = self.cond(n.a["args"][0], st)
            a = self.lval(n.a["args"][1], st)
            b = self.lval(n.a["args"][2], st)
            if a == b:
                return a
            if c is TRUE:
                return a
            if c is FALSE:
                return b
            return (("A", ite(c, mk("addr", *a), mk("addr", *b))), ())
        if k == "CXXThisExpr":
            return self.temp(self.rval(n, st), n, st)
        return self.temp(self.rval(n, st), n, st)

    def find_frame(self, d):
        c = self.ctx
        while c is not None:
            if getattr(c, "owns", None) is None or True:
                if getattr(c, "lam", False):
                    # a captured variable belongs to the lambda's creator
                    if ("L", d.key, c.frame) not in self._memkeys(c):
                        c = c.parent_lex
                        continue
                return c.frame
        return self.ctx.frame

    def _memkeys(self, c):
        return c.locals

    def temp(self, v, n, st):
        if v.op == "addr" and False:
            return (v.args[0], v.args[1])
        self.frames += 1
        base = ("L", "tmp:%s" % n.i, self.frames)
        st.mem[base] = v
        return (base, ())

    def deref(self, p):
        if p.op == "addr":
            return (p.args[0], p.args[1])
        return (("A", p), ())

    def ret_type(self, n):
        d = n.decl()
        if d is None or d.get("ret") is None:
            return None
        return d.tu.types[d.get("ret")]

    # ------------------------------------------------------------ calls
    def may_inline(self, f, d):
        if f.body is None or f.key in self.active():
            return False
        if len(self.stack) > self.max_depth:
            return False
        if f.q in self.opaque or f.name in self.opaque:
            return False
        if self.opaque_pred is not None and self.opaque_pred(f):
            return False
        return True

    def active(self):
        out = set()
        c = self.ctx
        while c is not None:
            if c.fn is not None:
                out.add(c.fn.key)
            c = c.parent
        return out

    def eval_args(self, d, args, st):
        pts = (d.get("pt") or []) if d is not None else []
        out = []
        for i, a in enumerate(args):
            if a.k == "CXXDefaultArgExpr" and not a.a["args"]:
                out.append(mk("opq", "default"))
                continue
            pt = d.tu.types[pts[i]] if i < len(pts) else None
            if pt is not None and pt.k in ("ref", "rref"):
                to = pt.to()
                if self.is_num(to) and (to.const or pt.k == "rref"):
                    out.append(tonum(self.rval(a, st)))
                else:
                    l = self.lval(a, st)
                    out.append(mk("addr", l[0], l[1]))
            else:
                v = self.rval(a, st)
                if pt is not None and pt.k in ("int", "float"):
                    v = tonum(v)
                out.append(v)
        return out

    def inline(self, f, d, n, st, thisloc, args):
        parent = self.ctx
        # evaluate arguments in the caller's context
        vals = []
        for i, p in enumerate(f.params):
            if i >= len(args):
                vals.append(("v", mk("opq", "default", p.n)))
                continue
            ty = p.type()
            if ty.k in ("ref", "rref"):
                vals.append(("r", self.lval(args[i], st)))
            else:
                a = args[i]
                v = self.rval(a, st)
                if ty.k in ("int", "float"):
                    v = tonum(v)
                if self.is_int(ty) and a.type() is not None and a.type().k == "float":
                    v = self.trunc(v)
                vals.append(("v", v))
        self.emit("call", st, n, q=f.q, args=[v if k == "v" else mk("addr", *v) for k, v in vals], obj=thisloc,
                  ctor=n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"), key=f.key, decl=d, inlined=True)
        c = Ctx(f, parent)
        self.frames += 1
        c.frame = self.frames
        c.this = ("loc", thisloc) if thisloc is not None else None
        for p, (k, v) in zip(f.params, vals):
            if k == "r":
                c.refs[p.key] = v
            else:
                st.mem[("L", p.key, c.frame)] = v
        self.ctx = c
        self.stack.append(f.q)
        pc0 = st.pc
        try:
            if f.inits:
                self.inline_inits(f, st, thisloc)
            s = State()
            s.mem, s.pc, s.dead = st.mem, st.pc, st.dead
            s = self.block(f.body, s)
            if not s.dead:
                c.rets.append((s, None))
        finally:
            self.ctx = parent
            self.stack.pop()
        if not c.rets:
            st.dead = True
            return mk("undef", "noret")
        m = self.merge([x for x, _ in c.rets])
        st.mem = m.mem
        # a call that may throw restricts the caller's path
        st.pc = m.pc if len(c.rets) >= 1 else pc0
        vs = [(x, v) for x, v in c.rets if v is not None]
        return self.merge_vals(vs) if vs else ZERO

    def inline_inits(self, f, st, thisloc):
        for it in f.inits:
            if "field" in it:
                fld = it["field"]
                loc = (thisloc[0], thisloc[1] + (("f", fld.n),))
                ini = it["init"]
                if fld.type() is not None and fld.type().k in ("ref", "rref"):
                    l = self.lval(ini, st)
                    self.store(st, loc, mk("addr", l[0], l[1]))
                elif ini is not None:
                    if ini.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not self.is_num(fld.type()):
                        self.construct(ini, st, loc)
                    else:
                        self.store(st, loc, tonum(self.rval(ini, st)))
            elif it.get("init") is not None:
                self.construct(it["init"], st, thisloc)

    IMPURE = {"get_time", "now", "rand", "clock", "time"}

    def is_ostream(self, t):
        return t is not None and t.k == "rec" and "basic_ostream" in (t.get("rec") or t.s) and "basic_ostringstream" not in t.s

    LIM = re.compile(r"std::numeric_limits<(.+)>::(max|min|lowest)$")
    WID = {"int": (32, 1), "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0),
           "short": (16, 1), "unsigned short": (16, 0), "unsigned char": (8, 0), "signed char": (8, 1), "char": (8, 1),
           "__int128": (128, 1), "unsigned __int128": (128, 0)}

    def limit(self, ty, what):
        w = self.WID.get(ty)
        if w is None:
            return None
        b, s = w
        if what == "max":
            return (1 << (b - s)) - 1
        return -(1 << (b - 1)) if s else 0

    PASS = {"std::move", "std::forward", "std::addressof"}

    def e_CallExpr(self, n, st):
        v = self.call(n, st)
        rt = self.ret_type(n)
        if rt is not None and rt.k in ("ref", "rref"):
            l = self.deref(v)
            return self.load(st, l)
        return v

    e_CXXMemberCallExpr = e_CXXOperatorCallExpr = e_CallExpr

    def obj_loc(self, n, st):
        o = n.get("obj")
        if n.get("arrow"):
            return self.deref(self.rval(o, st))
        return self.lval(o, st)

    def is_std_vec(self, q):
        return q.startswith("std::vector::") or q.startswith("std::array::") or q.startswith("primesum::aligned_vector::") \
            or q.startswith("std::deque::")

    def saturating(self, d):
        """the helper d is, as a word-level function, the saturating sum or difference"""
        c = self.prog.__dict__.setdefault("_saturating", {})
        if d.n not in c:
            import words
            c[d.n] = words.saturating(self.prog, d)
        return c[d.n]

    def call(self, n, st):
        """value of a call; a reference result is returned as an address"""
        d = n.decl()
        args = n.a["args"]
        if d is None:
            return self.call_indirect(n, st)
        q = d.q
        # wide integer operators are plain arithmetic
        r = self.wide_op(n, d, st)
        if r is not None:
            return r
        if d.n in ("checkedAdd", "checkedSub") and len(args) == 2 and "calculator" not in q and self.saturating(d):
            a, b = (tonum(self.rval(x, st)) for x in args)
            return tmin(C((1 << 64) - 1), add(a, b)) if d.n == "checkedAdd" else tmax(ZERO, sub(a, b))
        if q in ("std::min", "std::max") and len(args) == 2:
            a, b = (tonum(self.rval(x, st)) for x in args)
            rt = self.ret_type(n)
            v = tmin(a, b) if q == "std::min" else tmax(a, b)
            if rt is not None and rt.k in ("ref", "rref"):
                l = self.temp(v, n, st)
                return mk("addr", l[0], l[1])
            return v
        m = re.match(r"__builtin_([su]?)(add|sub|mul)(l{0,2})_overflow$", q)
        if m and len(args) == 3:
            a, b = (tonum(self.rval(x, st)) for x in args[:2])
            o = self.rval(args[2], st)
            pt = args[2].type()
            ty = pt.to() if pt is not None and pt.k in ("ptr", "ref") else None
            if o.op == "addr" and ty is not None and ty.k in ("int", "enum") and ty.bits:
                v = {"add": add, "sub": sub, "mul": mul}[m.group(2)](a, b)
                self.store(st, (o.args[0], o.args[1]), v)
                lo, hi = (0, (1 << ty.bits) - 1) if ty.unsigned else (-(1 << ty.bits - 1), (1 << ty.bits - 1) - 1)
                return lor(lt(v, C(lo)), lt(C(hi), v))
        if q in self.PASS and len(args) == 1:
            l = self.lval(args[0], st)
            return mk("addr", l[0], l[1])
        if q == "std::swap" and len(args) == 2:
            a, b = self.lval(args[0], st), self.lval(args[1], st)
            va, vb = self.load(st, a), self.load(st, b)
            self.store(st, a, vb)
            self.store(st, b, va)
            return ZERO
        m = self.LIM.match(q)
        if m:
            v = self.limit(m.group(1), m.group(2))
            if v is not None:
                return C(v)
        r = self.container(n, d, st)
        if r is not None:
            return r
        # lambda invocation
        if d.get("lambda") and n.k == "CXXOperatorCallExpr" and n.get("op") == "()":
            lv = self.rval(args[0], st)
            if lv.op == "lam":
                return self.call_lambda(lv, args[1:], n, st)
        if q in ("std::async",):
            vals = [self.rval(a, st) for a in args]
            lam = [v for v in vals if v.op == "lam"]
            self.emit("async", st, n, args=vals)
            if lam:
                rest = vals[vals.index(lam[0]) + 1:]
                r = self.call_lambda(lam[0], rest, n, st, asvals=True)
                return mk("future", r if isinstance(r, T) else ZERO)
        f = self.prog.callee(n)
        thisloc = None
        cargs = args
        if n.k == "CXXMemberCallExpr":
            thisloc = self.obj_loc(n, st)
        elif n.k == "CXXOperatorCallExpr" and n.get("member"):
            thisloc = self.lval(args[0], st)
            cargs = args[1:]
        if f is not None and self.may_inline(f, d):
            return self.inline(f, d, n, st, thisloc, cargs)
        vals = self.eval_args(d, cargs, st)
        ostate = None
        if thisloc is not None:
            ostate = self.load(st, thisloc)
        ev = self.emit("call", st, n, q=q, args=vals, obj=thisloc, ostate=ostate, key=d.key, decl=d, pvals=())
        rt = self.ret_type(n)
        if rt is not None and rt.k == "ref" and self.is_ostream(rt.to()):
            # stream insertion/manipulation: the stream itself is the result
            l = thisloc
            if l is None and vals and vals[0].op == "addr":
                l = (vals[0].args[0], vals[0].args[1])
            if l is not None:
                return mk("addr", l[0], l[1])
        pv = [self.argval(d, i, v, st) for i, v in enumerate(vals)]
        if d.n in self.IMPURE:
            self.frames += 1
            pv.append(mk("site", self.frames))
        res = mk("call", q, *([ostate] if ostate is not None else []), *pv)
        rt = self.ret_type(n)
        if rt is not None and rt.k == "bool":
            res = mk("bvar", res)
        if ev is not None:
            ev.a["pvals"], ev.a["res"] = tuple(pv), res
        if rt is not None and rt.k in ("ref", "rref") and q not in self.pure:
            pass
        if q not in self.pure:
            if thisloc is not None and not d.get("constm"):
                self.store(st, thisloc, mk("eff", q, ostate, *pv))
            self.escape(d, cargs, vals, st, n, res)
        if d.get("noret"):
            st.dead = True
        return res

    def argval(self, d, i, v, st):
        """reference arguments contribute the value they refer to"""
        if v.op == "addr":
            pts = d.get("pt") or []
            pt = d.tu.types[pts[i]] if i < len(pts) else None
            if pt is not None and pt.k in ("ref", "rref"):
                return self.load(st, (v.args[0], v.args[1]))
        return v

    def escape(self, d, args, vals, st, n, res):
        pts = (d.get("pt") or []) if d is not None else []
        for i, v in enumerate(vals):
            pt = d.tu.types[pts[i]] if d is not None and i < len(pts) else None
            if pt is None or v.op != "addr":
                continue
            to = pt.to() if pt.k in ("ref", "rref", "ptr") else None
            if to is None or to.const:
                continue
            if pt.k == "rref":
                continue
            loc = (v.args[0], v.args[1])
            if loc[1] and loc[1][-1][0] == "i" and pt.k == "ptr":
                loc = (loc[0], loc[1][:-1])
            self.store(st, loc, mk("out", i, res))

    def call_indirect(self, n, st):
        fn = n.get("fn")
        fv = self.rval(fn, st) if fn is not None else mk("opq", "fn")
        vals = [self.rval(a, st) for a in n.a["args"]]
        self.emit("call", st, n, q="<indirect>", args=vals, obj=None, key=None, decl=None, fnval=fv)
        return mk("call", "<indirect>", fv, *vals)

    def call_lambda(self, lv, args, n, st, asvals=False):
        ln, cctx, refs = self.lams[lv.args[0]]
        parent = self.ctx
        c = Ctx(None, parent)
        self.frames += 1
        c.frame = cctx.frame       # captures by reference share the creator's frame
        c.this = cctx.this
        c.refs = dict(refs)
        c.fn = None
        params = [ln.tu.decls[p] for p in ln.get("params", [])]
        for p, a in zip(params, args):
            v = a if asvals else None
            if p.type().k in ("ref", "rref") and not asvals:
                c.refs[p.key] = self.lval(a, st)
            else:
                if v is None:
                    v = self.rval(a, st)
                st.mem[("L", p.key, c.frame)] = v
        self.ctx = c
        self.stack.append("lambda@" + ln.line)
        try:
            s = State()
            s.mem, s.pc, s.dead = st.mem, st.pc, st.dead
            s = self.block(ln.get("body"), s)
            if not s.dead:
                c.rets.append((s, None))
        finally:
            self.ctx = parent
            self.stack.pop()
        if not c.rets:
            st.dead = True
            return ZERO
        m = self.merge([x for x, _ in c.rets])
        st.mem = m.mem
        st.pc = m.pc
        vs = [(x, v) for x, v in c.rets if v is not None]
        return self.merge_vals(vs) if vs else ZERO

    def wide_op(self, n, d, st):
        if n.k != "CXXOperatorCallExpr":
            # conversion operators of the wide type
            if n.k == "CXXMemberCallExpr" and d.n.startswith("operator ") and (d.get("rec") or "").split("::")[-1] == INT256:
                return tonum(self.load(st, self.obj_loc(n, st)))
            return None
        args = n.a["args"]
        if not any(a.type() is not None and self.is_wide(a.type().strip_ref()) for a in args):
            return None
        op = n.get("op")
        if op in ("<<", ">>") and not self.is_wide(args[0].type().strip_ref()):
            return None
        if len(args) == 1 or op in ("++", "--"):
            if op in ("++", "--"):
                l = self.lval(args[0], st)
                v = add(self.load(st, l), ONE if op == "++" else C(-1))
                self.store(st, l, v)
                self.emit("store", st, n, loc=l, val=v, old=None)
                return mk("addr", l[0], l[1]) if len(args) == 1 else v
            v = tonum(self.rval(args[0], st))
            return {"-": neg(v), "+": v, "~": bnot(v), "!": bnot_(tobool(v))}.get(op)
        if op in ("+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "<<", ">>", "&", "|", "^"):
            a, b = tonum(self.rval(args[0], st)), tonum(self.rval(args[1], st))
            return self.binop(op, a, b, n, None, None, None)
        if op == "=" or (op.endswith("=") and len(op) in (2, 3)):
            b = tonum(self.rval(args[1], st))
            l = self.lval(args[0], st)
            old = self.load(st, l)
            v = b if op == "=" else self.binop(op[:-1], tonum(old), b, n, None, None, None)
            self.store(st, l, v)
            self.emit("store", st, n, loc=l, val=v, old=old)
            return mk("addr", l[0], l[1])
        return None

    SIZE = ("f", "#size")

    def container(self, n, d, st):
        q = d.q
        name = d.n
        if n.k == "CXXOperatorCallExpr" and n.get("op") == "[]" and n.get("member") and \
                (q.startswith("std::vector") or q.startswith("std::array") or q.startswith("primesum::aligned_vector")
                 or q.startswith("std::deque") or q.startswith("std::unique_ptr")):
            if q.startswith("primesum::aligned_vector") and False:
                return None
            l = self.lval(n.a["args"][0], st)
            i = tonum(self.rval(n.a["args"][1], st))
            res = mk("addr", l[0], l[1] + (("i", i),))
            rt = self.ret_type(n)
            if rt is not None and rt.k not in ("ref", "rref"):
                return self.load(st, (l[0], l[1] + (("i", i),)))
            return res
        if n.k == "CXXOperatorCallExpr" and n.get("op") in ("=",) and n.get("member") and q.startswith("std::vector"):
            v = self.rval(n.a["args"][1], st)
            l = self.lval(n.a["args"][0], st)
            self.store(st, l, v)
            self.emit("store", st, n, loc=l, val=v, old=None)
            return mk("addr", l[0], l[1])
        if n.k == "CXXOperatorCallExpr" and n.get("op") == "=" and n.get("member") and self.prog.callee(n) is None:
            rec = n.a["args"][0].type()
            if rec is not None and rec.strip_ref().k == "rec" and len(n.a["args"]) == 2 and \
                    self.same_rec(rec.strip_ref(), n.a["args"][1].type().strip_ref() if n.a["args"][1].type() else None):
                v = self.rval(n.a["args"][1], st)
                l = self.lval(n.a["args"][0], st)
                self.store(st, l, v)
                self.emit("store", st, n, loc=l, val=v, old=None)
                return mk("addr", l[0], l[1])
        if n.k == "CXXOperatorCallExpr" and n.get("op") in ("*", "->") and n.get("member") and q.startswith("std::unique_ptr"):
            l = self.lval(n.a["args"][0], st)
            return mk("addr", l[0], l[1] + (("f", "*"),))
        if n.k == "CXXMemberCallExpr" and (q.startswith("std::vector::") or q.startswith("std::array::") or q.startswith("primesum::aligned_vector::")):
            l = self.obj_loc(n, st)
            if name == "size" and not q.startswith("primesum::"):
                return mk("call", "size", self.load(st, l))
            if name == "size":
                return mk("call", "size", self.load(st, l))
            if name == "empty":
                return eq(mk("call", "size", self.load(st, l)), ZERO)
            if name == "at":
                i = tonum(self.rval(n.a["args"][0], st))
                return mk("addr", l[0], l[1] + (("i", i),))
            if name == "front":
                return mk("addr", l[0], l[1] + (("i", ZERO),))
            if name == "back":
                return mk("addr", l[0], l[1] + (("i", sub(mk("call", "size", self.load(st, l)), ONE)),))
            if name in ("begin", "cbegin", "data"):
                return mk("addr", l[0], l[1] + (("i", ZERO),))
            if name in ("end", "cend"):
                return mk("addr", l[0], l[1] + (("i", mk("call", "size", self.load(st, l))),))
        # iterators over vectors
        if n.k == "CXXOperatorCallExpr" and "__normal_iterator" in q:
            op = n.get("op")
            args = n.a["args"]
            if op == "*" and len(args) == 1 or op == "->":
                return self.rval(args[0], st)
            if op in ("++", "--"):
                l = self.lval(args[0], st)
                old = self.load(st, l)
                new = self.ptradd(old, ONE if op == "++" else C(-1))
                self.store(st, l, new)
                return mk("addr", l[0], l[1]) if len(args) == 1 else old
            if op in ("+", "-") and len(args) == 2:
                return self.binop(op, self.rval(args[0], st), self.rval(args[1], st), n, None, None, None)
            if op == "+=" or op == "-=":
                l = self.lval(args[0], st)
                k = tonum(self.rval(args[1], st))
                new = self.ptradd(self.load(st, l), k if op == "+=" else neg(k))
                self.store(st, l, new)
                return mk("addr", l[0], l[1])
        if n.k == "CXXOperatorCallExpr" and n.get("op") in ("==", "!=", "-", "<") and "__gnu_cxx" in q:
            a, b = self.rval(n.a["args"][0], st), self.rval(n.a["args"][1], st)
            return self.binop(n.get("op"), a, b, n, None, None, None)
        return None


def loops_of(ev):
    return ev.loops
