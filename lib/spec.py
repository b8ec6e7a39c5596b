"""Specification terms: Python expression syntax over named code values."""
import ast
from terms import *

U64 = (1 << 64) - 1


def call(q, *args):
    return mk("call", q, *args)


class Spec:
    def __init__(self, env=None, funcs=None):
        self.env = dict(env or {})
        self.funcs = dict(funcs or {})

    def __call__(self, s, **kw):
        e = dict(self.env)
        e.update(kw)
        return self.ev(ast.parse(s.strip(), mode="eval").body, e)

    def ev(self, n, env):
        v = lambda x: self.ev(x, env)
        if isinstance(n, ast.Constant):
            return C(n.value)
        if isinstance(n, ast.Name):
            x = env.get(n.id)
            if x is None:
                raise KeyError(n.id)
            return x if isinstance(x, T) else C(x)
        if isinstance(n, ast.BinOp):
            f = {ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.FloorDiv: div, ast.Mod: mod, ast.BitAnd: band,
                 ast.BitOr: bor, ast.BitXor: bxor, ast.LShift: shl, ast.RShift: shr}[type(n.op)]
            return f(tonum(v(n.left)), tonum(v(n.right)))
        if isinstance(n, ast.UnaryOp):
            x = v(n.operand)
            if isinstance(n.op, ast.USub):
                return neg(x)
            if isinstance(n.op, ast.Not):
                return bnot_(tobool(x))
        if isinstance(n, ast.BoolOp):
            xs = [tobool(v(x)) for x in n.values]
            return land(*xs) if isinstance(n.op, ast.And) else lor(*xs)
        if isinstance(n, ast.Compare):
            out = []
            l = v(n.left)
            for op, r in zip(n.ops, n.comparators):
                r = v(r)
                out.append({ast.Lt: lambda a, b: lt(a, b), ast.LtE: lambda a, b: le(a, b), ast.Gt: lambda a, b: lt(b, a),
                            ast.GtE: lambda a, b: le(b, a), ast.Eq: eq, ast.NotEq: lambda a, b: bnot_(eq(a, b))}[type(op)](l, r))
                l = r
            return land(*out)
        if isinstance(n, ast.IfExp):
            return ite(tobool(v(n.test)), v(n.body), v(n.orelse))
        if isinstance(n, ast.Attribute):
            return sel(v(n.value), ("f", n.attr))
        if isinstance(n, ast.Subscript):
            return sel(v(n.value), ("i", v(n.slice)))
        if isinstance(n, ast.Call):
            f = n.func.id
            a = [v(x) for x in n.args]
            if f == "min":
                return tmin(*a)
            if f == "max":
                return tmax(*a)
            if f == "sat":         # saturating unsigned 64-bit result
                return tmin(C(U64), a[0])
            if f == "pos":         # saturating at 0 from below
                return tmax(ZERO, a[0])
            if f == "clamp":       # in_between(lo, x, hi): hi is ignored below lo
                return ite(lor(lt(a[1], a[0]), lt(a[2], a[0])), a[0], tmin(a[1], a[2]))
            if f in self.funcs:
                g = self.funcs[f]
                return g(*a) if callable(g) else mk("call", g, *a)
            raise KeyError(f)
        raise ValueError(ast.dump(n))


def fields(g, base="this"):
    """final value of the fields of *this as read at the exit of the function"""
    obj = g.final.mem.get(("P", base)) if g.final is not None else None
    return obj if obj is not None else mk("var", base)
