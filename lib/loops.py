"""Loop facts on top of the value graph: closed forms of linear induction
values, parallel-loop recognition, trip counts."""
from terms import *


def phis(t):
    return {x for x in subterms(t) if x.op == "phi"}


def callq(t):
    """qualified name of a call term"""
    return t.args[0] if isinstance(t, T) and t.op in ("call", "eff") else None


class Loops:
    def __init__(self, g):
        self.g = g
        self.info = {i: v for i, v in g.loopinfo.items()}
        self.lin_map = {}
        self._solve()

    def kap(self, lid):
        return mk("var", "k%s" % lid)

    def _solve(self):
        for lid in sorted(self.info, key=lambda i: len(self.info[i]["outer"])):
            I = self.info[lid]
            mp = {}
            changed = True
            while changed:
                changed = False
                for nm, p in I["phi"].items():
                    if p in mp or nm not in I["next"]:
                        continue
                    nx, ini = I["next"][nm], I["init"].get(nm)
                    if not isinstance(ini, T) or nx.op in NONNUM or ini.op in NONNUM:
                        continue
                    step = sub(nx, p)
                    if any(q.args[0] == lid or self._inside(q.args[0], lid) for q in phis(step)):
                        continue
                    if self._dep(step, lid):
                        continue
                    mp[p] = add(ini, mul(step, self.kap(lid)))
                    changed = True
            self.lin_map.update(mp)
        # close over outer loops
        for p in list(self.lin_map):
            self.lin_map[p] = self.lin(self.lin_map[p])

    def _dep(self, t, lid):
        return any(x.op in ("eff", "out") or (x.op == "ld") or (x.op == "site") for x in subterms(t))

    def _inside(self, inner, outer):
        i = self.info.get(inner)
        return i is not None and outer in i["outer"]

    def lin(self, t):
        for _ in range(6):
            u = subst(t, self.lin_map)
            if u is t:
                return t
            t = u
        return t

    # ------------------------------------------------------------
    def is_omp(self, lid):
        """the OpenMP directive that distributes this loop"""
        n = self.info[lid]["node"]
        p = n.parent
        for _ in range(8):
            if p is None:
                return None
            if p.k.startswith("OMP") and "Loop" not in p.k:
                return p
            if p.k in ("CompoundStmt", "ForStmt", "WhileStmt", "IfStmt"):
                return None
            p = p.parent
        return None

    def omp_loops(self):
        return [self.info[i] for i in sorted(self.info) if self.is_omp(i) is not None]

    def trip(self, lid):
        """T with: the loop runs for k = 0 .. T-1 (T may be <= 0: no iteration)"""
        I = self.info[lid]
        c = I["cond"]
        if not isinstance(c, T) or I["breaks"]:
            return None
        c = self.lin(c)
        k = self.kap(lid)
        if c.op == "gt0":
            d = to_poly(c.args[0])
            if d.get((k,)) == -1 and not any(k in m for m in d if m != (k,)):
                t = add(c.args[0], k)
                if k not in subterms(t):
                    return t
        return None

    def at(self, t, lid, v):
        return subst(self.lin(t), {self.kap(lid): v})

    def inner(self, lid, direct=False):
        r = [I for I in self.info.values() if lid in I["outer"]]
        if direct:
            r = [I for I in r if I["outer"][-1] == lid]
        return sorted(r, key=lambda I: I["id"])

    def top(self):
        return [I for I in self.info.values() if not I["outer"]]

    def phi_list(self, lid):
        return list(self.info[lid]["phi"].items())


def bound_of(cond, p):
    """b with cond == (p < b), for a conjunct of cond that bounds p from above"""
    cs = cond.args if cond.op == "land" else (cond,)
    for c in cs:
        if c.op == "gt0":
            d = to_poly(c.args[0])
            if d.get((p,)) == -1:
                b = add(c.args[0], p)
                if p not in subterms(b):
                    return b
    return None


def lower_of(cond, p):
    """b with cond == (b < p)"""
    cs = cond.args if cond.op == "land" else (cond,)
    for c in cs:
        if c.op == "gt0":
            d = to_poly(c.args[0])
            if d.get((p,)) == 1:
                b = neg(sub(c.args[0], p))
                if p not in subterms(b):
                    return b
    return None


def calls(g, name, obj=None):
    return [e for e in g.events if e.k == "call" and e.a["q"].split("::")[-1] == name and (obj is None or e.a["obj"] == obj)]


def calls_q(g, q):
    return [e for e in g.events if e.k == "call" and e.a["q"] == q]
