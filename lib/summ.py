"""Function summaries compared with specification expressions.

The value graph of a function gives, for its return value, for every field of
*this / of a reference parameter and for every argument of its calls, one term
over the values at entry.  A specification is a Python expression over the same
names; `prop` requires a boolean expression to hold, `eq` an equality."""
from terms import *
import gvn
from spec import Spec, U64
from sites import site
from loops import Loops

_c = {}


class Summ:
    def __init__(self, ck, fn, names=None, opaque=(), std=True, keep=(), **kw):
        self.ck, self.fn = ck, fn
        op = set(opaque)
        def pr(f):
            if f.q in keep or f.name in keep:
                return False
            return (std and f.q.startswith("std::")) or f.name in op
        k = (fn.key, tuple(names or ()), tuple(sorted(op)), std, tuple(keep), tuple(sorted(kw.items())))
        if k not in _c:
            g = gvn.GVN(ck.prog, opaque=op, opaque_pred=pr, **kw)
            nm = [p.n for p in fn.params]
            for i, n in enumerate(names or ()):
                if i < len(nm):
                    nm[i] = n
            g.run(fn, names=nm)
            g.L = Loops(g)
            _c[k] = (g, nm)
        self.g, self.names = _c[k]
        self.L = self.g.L
        self.site = site(fn)
        th = mk("ld", ("P", "this"))
        env = {"this": th, "self": th, "true": TRUE, "false": FALSE, "U64": C(U64)}
        for n in self.names:
            env[n] = mk("var", n)
            env["p_" + n] = mk("ld", ("P", n))     # what a pointer or reference parameter refers to at entry
        self.spec = Spec(env)
        self.ret = self.g.retval

    def let(self, **kw):
        for k, v in kw.items():
            self.spec.env[k] = self.spec(v) if isinstance(v, str) else (v if isinstance(v, T) else C(v))
        return self

    def field(self, path, base="this"):
        m = self.g.final.mem if self.g.final is not None else {}
        v = m.get(("P", base))
        if v is None:
            v = mk("ld", ("P", base))
        for p in path.split(".") if path else ():
            v = sel(v, ("f", p))
        return v

    def t(self, x):
        if isinstance(x, T):
            return x
        return self.spec(x)

    def asm(self, a):
        return [tobool(self.t(x)) for x in a]

    def eq(self, rule, what, got, want, assume=(), signed=False, big=False):
        return self.ck.same(rule, self.site, self.t(got), self.t(want), what, assume=self.asm(assume), signed=signed, big=big)

    def prop(self, rule, what, cond, assume=(), signed=False, big=False):
        c = tobool(self.t(cond))
        ok, w = same(c, TRUE, assume=self.asm(assume), signed=signed, big=big)
        from harness import wit, short
        if ok is None:
            self.ck.und(rule, self.site, what)
        elif ok:
            self.ck.ok(rule, self.site, what)
        else:
            self.ck.viol(rule, self.site, "not so: %s: %s (%s)" % (what, short(c), wit(w)))
        return ok

    def calls(self, name, inlined=None):
        r = [e for e in self.g.events if e.k == "call" and e.a["q"].split("::")[-1].split("<")[0] == name]
        if inlined is not None:
            r = [e for e in r if bool(e.a.get("inlined")) == inlined]
        return r


def summ(ck, q, **kw):
    fs = ck.prog.fns(q=q)
    return [Summ(ck, f, **kw) for f in fs]
