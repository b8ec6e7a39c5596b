"""The analysis entry points shared by several checks."""
from terms import *
from loops import *
from model import AnalysisError
import gvn

OPQ = {"isqrt", "iroot", "pi_legendre", "get_time", "is_print", "print_seconds", "get_percent", "get_status_precision", "prime_sum_tiny",
       "balanceLoad", "ideal_num_threads", "get_alpha", "get_alpha_lmo", "get_alpha_deleglise_rivat", "nth_prime",
       "phi", "phi_sum", "get_c", "print", "pi_primesieve"}
OPQ_CLS = ("PiTable", "BitSieve", "Wheel", "WheelItem", "BinaryIndexedTree", "FactorTable", "AbstractFactorTable", "SumBits",
           "S2LoadBalancer", "S2Status", "PhiTiny", "OmpLock")


def pred(extra=(), keep=()):
    def f(fn):
        if fn.q in keep or fn.name in keep:
            return False
        if fn.file.startswith("lib/") or fn.name in extra:
            return True
        if fn.name.startswith("print") or fn.name.startswith("generate_"):
            return True
        return any(c in OPQ_CLS for c in fn.q.replace("<", "::").split("::")[:-1])
    return f


_cache = {}


def master(ck, fn, extra=(), keep=(), opaque=OPQ, names=None, **kw):
    k = (fn.key, tuple(extra), tuple(keep), tuple(sorted(opaque)), tuple(names or ()), tuple(sorted(kw.items())))
    if k not in _cache:
        g = gvn.GVN(ck.prog, opaque=set(opaque) - set(keep), opaque_pred=pred(extra, keep), **kw)
        g.run(fn, names=names)
        g.L = Loops(g)
        _cache[k] = g
    return _cache[k]


def site(fn):
    return "%s (%s)" % (fn.q, fn.line)
