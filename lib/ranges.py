"""Interval analysis of value terms (integers and floating point)."""
import math
from terms import *

INF = float("inf")
U64 = (1 << 64) - 1


def type_range(ty):
    t = ty.strip_ref() if ty is not None else None
    if t is not None and t.k in ("int", "bool") and t.bits:
        if t.unsigned or t.k == "bool":
            return (0, (1 << t.bits) - 1)
        return (-(1 << t.bits - 1), (1 << t.bits - 1) - 1)
    return (-INF, INF)


def typed(fn, names=None):
    out = {}
    for i, p in enumerate(fn.params):
        n = names[i] if names and i < len(names) else p.n
        r = type_range(p.type())
        out[mk("var", n)] = r
        out[mk("ld", ("P", n))] = r
    return out


def refine(c, pos, facts):
    """facts after the condition c is known to be true (pos) or false"""
    f = dict(facts)

    def up(t, lo, hi):
        a, b = f.get(t, (-INF, INF))
        f[t] = (max(a, lo), min(b, hi))
    if c.op == "not":
        return refine(c.args[0], not pos, facts)
    if c.op == "land" and pos or c.op == "lor" and not pos:
        xs = c.args[0] if isinstance(c.args[0], (tuple, frozenset, list)) else c.args
        for x in xs:
            if isinstance(x, T):
                f = refine(x, pos, f)
        return f
    if c.op == "flt":
        a, b = c.args
        if pos:
            if is_c(b):
                up(a, -INF, b.args[0])
            if is_c(a):
                up(b, a.args[0], INF)
        else:
            if is_c(b):
                up(a, b.args[0], INF)
            if is_c(a):
                up(b, -INF, a.args[0])
        return f
    if c.op == "gt0":
        d = to_poly(c.args[0])
        k = d.pop((), 0)
        if len(d) == 1:
            (m, co), = d.items()
            if len(m) == 1:
                # co*m + k > 0 (or <= 0)
                t = m[0]
                if pos:
                    if co > 0:
                        up(t, math.floor(-k / co) + 1 if isinstance(k / co, float) and abs(k) > 1 << 52 else (-k) // co + 1, INF)
                    else:
                        up(t, -INF, -((-k) // -co) - 1 if False else (k - 1) // -co)
                else:
                    if co > 0:
                        up(t, -INF, (-k) // co)
                    else:
                        up(t, -((-k) // -co), INF)
        return f
    return f


def rng(t, facts, depth=0):
    r = _rng(t, facts, depth)
    k = facts.get(t)
    if k is not None:
        r = (max(r[0], k[0]), min(r[1], k[1]))
    return r


def mulr(a, b):
    xs = []
    for x in a:
        for y in b:
            xs.append(0 if x == 0 or y == 0 else x * y)
    return min(xs), max(xs)


def polyr(ms, r, depth=0):
    """interval of a sum of monomials; common factors are also taken out, because the expanded form loses correlation"""
    lo = hi = 0
    for m, c in ms:
        x = (c, c)
        for f in m:
            x = mulr(x, r(f))
        lo, hi = lo + x[0], hi + x[1]
    if depth < 4:
        n = {}
        for m, c in ms:
            for f in set(m):
                n[f] = n.get(f, 0) + 1
        for f in [f for f in n if n[f] >= 2]:
            a, b = [], []
            for m, c in ms:
                if f in m:
                    k = list(m)
                    k.remove(f)
                    a.append((tuple(k), c))
                else:
                    b.append((m, c))
            x = mulr(r(f), polyr(a, r, depth + 1))
            y = polyr(b, r, depth + 1) if b else (0, 0)
            lo, hi = max(lo, x[0] + y[0]), min(hi, x[1] + y[1])
    return lo, hi


def _rng(t, F, d):
    if d > 60:
        return (-INF, INF)
    o, a = t.op, t.args
    r = lambda x: rng(x, F, d + 1)
    if o == "c":
        return (a[0], a[0]) if not isinstance(a[0], bool) else (int(a[0]), int(a[0]))
    if o == "poly":
        return polyr(list(a[0]), r)
    if o == "min":
        xs = [r(x) for x in a]
        return min(x[0] for x in xs), min(x[1] for x in xs)
    if o == "max":
        xs = [r(x) for x in a]
        return max(x[0] for x in xs), max(x[1] for x in xs)
    if o == "ite":
        x = rng(a[1], refine(a[0], True, F), d + 1)
        y = rng(a[2], refine(a[0], False, F), d + 1)
        return min(x[0], y[0]), max(x[1], y[1])
    if o == "div":
        x, y = r(a[0]), r(a[1])
        if x[0] >= 0 and y[0] >= 1:
            return (0 if y[1] == INF else int(x[0] // y[1])), x[1] if x[1] == INF else x[1] // y[0]
        return (-INF, INF)
    if o == "fdiv":
        x, y = r(a[0]), r(a[1])
        if y[0] > 0:
            inv = (0 if y[1] == INF else 1 / y[1], 1 / y[0])
            return mulr(x, inv)
        return (-INF, INF)
    if o == "mod":
        x, y = r(a[0]), r(a[1])
        if x[0] >= 0 and y[1] < INF:
            return (0, min(x[1], y[1] - 1))
        return (-INF, INF)
    if o == "trunc":
        x = r(a[0])
        return (x[0] if abs(x[0]) == INF else math.trunc(x[0])), (x[1] if abs(x[1]) == INF else math.trunc(x[1]))
    if o == "low":
        x = r(a[1])
        n = (1 << a[0]) - 1
        return x if 0 <= x[0] and x[1] <= n else (0, n)
    if o in ("call",):
        q = a[0].split("::")[-1]
        xs = [r(x) for x in a[1:] if isinstance(x, T)]
        x = xs[0] if xs else (-INF, INF)
        if q in ("abs", "fabs"):
            return (0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))), max(abs(x[0]), abs(x[1]))
        if q in ("sqrt", "isqrt"):
            return (math.sqrt(max(0, x[0])), INF if x[1] == INF else math.sqrt(max(0, x[1])) + (1 if q == "isqrt" else 0))
        if q == "log":
            return (math.log(x[0]) if x[0] > 0 and x[0] < INF else -INF, INF if x[1] == INF else (math.log(x[1]) if x[1] > 0 else -INF))
        if q in ("ceil", "floor", "round"):
            return (x[0] - 1 if q != "ceil" else x[0], x[1] + (1 if q != "floor" else 0))
        if q == "pow" and len(xs) == 2 and xs[1][0] == xs[1][1] and x[0] >= 0 and x[1] < INF:
            return (x[0] ** xs[1][0], float(x[1]) ** xs[1][0])
    return (-INF, INF)


def truncs(t, F, out, seen=None, d=0):
    """every float-to-integer conversion inside t with the facts that hold there"""
    seen = set() if seen is None else seen
    k = (t.id, tuple(sorted((x.id, v) for x, v in F.items())))
    if k in seen or d > 60:
        return
    seen.add(k)
    if t.op == "trunc":
        out.append((t, dict(F)))
    if t.op == "ite":
        truncs(t.args[0], F, out, seen, d + 1)
        truncs(t.args[1], refine(t.args[0], True, F), out, seen, d + 1)
        truncs(t.args[2], refine(t.args[0], False, F), out, seen, d + 1)
        return
    for x in _kids(t):
        truncs(x, F, out, seen, d + 1)


def _kids(t):
    if t.op == "poly":
        for m, c in t.args[0]:
            for f in m:
                yield f
        return
    for x in t.args:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                if isinstance(y, T):
                    yield y


def feval(t, env, memo=None):
    """value of a term for concrete atoms; None if an atom has no value"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = None
    r = memo[t] = _feval(t, env, memo)
    return r


def _feval(t, E, m):
    o, a = t.op, t.args
    v = lambda x: feval(x, E, m)
    if t in E:
        return E[t]
    if o == "c":
        return a[0]
    if o == "poly":
        s = 0
        for ms, c in a[0]:
            x = c
            for f in ms:
                y = v(f)
                if y is None:
                    return None
                x = x * y
            s = s + x
        return s
    if o == "ite":
        c = v(a[0])
        return None if c is None else v(a[1]) if c else v(a[2])
    xs = [v(x) for x in _kids(t)]
    if any(x is None for x in xs):
        return None
    try:
        if o in ("min", "max"):
            return (min if o == "min" else max)(xs)
        if o == "gt0":
            return xs[0] > 0
        if o == "eq0":
            return xs[0] == 0
        if o == "flt":
            return xs[0] < xs[1]
        if o == "bvar":
            return bool(xs[0])
        if o == "not":
            return not xs[0]
        if o == "land":
            return all(xs)
        if o == "lor":
            return any(xs)
        if o == "div":
            return int(xs[0]) // int(xs[1])
        if o == "mod":
            return int(xs[0]) % int(xs[1])
        if o in ("and_", "or_", "xor_", "shl", "shr") and len(xs) == 2 and all(isinstance(x, int) for x in xs):
            if o in ("shl", "shr") and not 0 <= xs[1] < 512:
                return None
            return {"and_": lambda p, q: p & q, "or_": lambda p, q: p | q, "xor_": lambda p, q: p ^ q,
                    "shl": lambda p, q: p << q, "shr": lambda p, q: p >> q}[o](*xs)
        if o == "low":
            return int(xs[-1]) & (1 << a[0]) - 1
        if o == "fdiv":
            if xs[1] == 0:
                return math.nan if xs[0] == 0 or xs[0] != xs[0] else math.copysign(INF, xs[0])
            return xs[0] / xs[1]
        if o == "trunc":
            return math.trunc(xs[0])
        if o == "call":
            q = a[0].split("::")[-1]
            if q in ("abs", "fabs"):
                return abs(xs[0])
            if q in ("sqrt", "log", "ceil", "floor", "pow"):
                return getattr(math, q)(*xs)
            if q == "isqrt":
                return math.isqrt(int(xs[0]))
    except (ValueError, ZeroDivisionError, OverflowError):
        return None
    return None


def reaches(x, fn, facts, limit, n=4):
    """a concrete parameter assignment within the facts for which the term exceeds the limit"""
    import itertools
    grid = [0, 1, 2, 10, 1000, 10 ** 6, 10 ** 9, 1 << 32, 10 ** 12, 10 ** 15, 10 ** 17, 4 * 10 ** 17, 10 ** 18, 1 << 62, (1 << 63) - 1, 10 ** 19, U64]
    ps = []
    for p in fn.params:
        lo, hi = type_range(p.type())
        ps.append([y for s in (1, -1) for y in (s * g for g in grid) if lo <= y <= hi] or [0])
    for vs in itertools.islice(itertools.product(*ps), 40000):
        env = {}
        for p, v in zip(fn.params, vs):
            env[mk("var", p.n)] = v
            env[mk("ld", ("P", p.n))] = v
        memo = {}
        y = feval(x, env, memo)
        if y is None or y <= limit:
            continue
        if all(lo <= feval(k, env, memo) <= hi for k, (lo, hi) in facts.items() if feval(k, env, memo) is not None):
            return dict(zip([p.n for p in fn.params], vs)), y
    return None
