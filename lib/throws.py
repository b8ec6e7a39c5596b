"""Which exceptions can leave a function: explicit throw expressions, allocation,
library calls; try blocks remove what their handlers catch."""

BASE = {"std::bad_alloc": "std::exception", "std::runtime_error": "std::exception", "std::logic_error": "std::exception",
        "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error",
        "std::domain_error": "std::logic_error", "std::overflow_error": "std::runtime_error", "std::range_error": "std::runtime_error",
        "std::system_error": "std::runtime_error", "std::future_error": "std::logic_error", "std::bad_array_new_length": "std::bad_alloc"}
ALLOC = {"push_back", "emplace_back", "emplace", "reserve", "resize", "insert", "push", "push_front", "to_string", "operator+", "str", "append", "assign", "operator+=", "getline"}
SPECIAL = {"stoul": ("std::invalid_argument", "std::out_of_range"), "stoi": ("std::invalid_argument", "std::out_of_range"), "stoll": ("std::invalid_argument", "std::out_of_range"),
           "stoull": ("std::invalid_argument", "std::out_of_range"), "stod": ("std::invalid_argument", "std::out_of_range"), "stol": ("std::invalid_argument", "std::out_of_range"),
           "at": ("std::out_of_range",), "substr": ("std::out_of_range", "std::bad_alloc"), "async": ("std::system_error",), "erase": (), "random_device": ("std::runtime_error",),
           "thread": ("std::system_error",), "lock": ("std::system_error",)}
QUIET = {"min", "max", "swap", "find", "lower_bound", "upper_bound", "fill", "fill_n", "copy", "copy_n", "abs", "pow", "distance", "count", "empty", "top", "pop", "rotate", "setw", "setprecision",
         "operator<<", "operator>>", "operator bool", "operator!", "operator==", "operator!=", "operator<", "operator-", "operator/", "compare", "duration", "duration_cast", "time_since_epoch",
         "get", "operator()", "uniform_int_distribution", "mersenne_twister_engine", "unique_lock", "pair", "size", "begin", "end", "back", "front", "data", "clear", "operator[]", "isqrt", "array",
         "is_open", "peek", "eof", "good", "fail", "rdbuf", "flush", "open", "close", "move", "forward", "make_pair", "accumulate", "sort", "unique", "reverse", "iota", "ceil", "floor", "log", "sqrt",
         "fabs", "exp", "round", "lock_guard", "unlock", "fixed", "endl", "hardware_concurrency", "now", "exchange", "fetch_add", "load", "store", "tie", "next", "prev", "advance", "isdigit", "atoi", "exit", "transform"}


def tname(t):
    if t is None:
        return "?"
    t = t.strip_ref()
    n = t.s
    return n.replace("const ", "").replace("class ", "").replace("struct ", "").strip(" &")


class Throws:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.unknown = set()
        self.base = dict(BASE)
        for r in prog.records.values():
            for b in r.get("bases") or ():
                t = tname(r["tu"].types[r["t"]])
                self.base.setdefault(t, tname(r["tu"].types[b]))

    def isa(self, t, h):
        if h in ("...", t):
            return True
        seen = set()
        while t in self.base and t not in seen:
            seen.add(t)
            t = self.base[t]
            if t == h:
                return True
        return False

    def of(self, f, stack=()):
        """{exception type: (line, chain)} that can leave f"""
        if f.key in self.memo:
            return self.memo[f.key]
        if f.key in stack:
            return {}
        out = {}
        st = stack + (f.key,)
        for i in f.inits or ():
            e = i.get("init") if isinstance(i, dict) else None
            if e is not None:
                self.walk(e, out, st, ())
        if f.body is not None:
            self.walk(f.body, out, st, ())
        r = {} if self.nothrow(f) else {t: w for (t, _), w in reversed(list(out.items()))}
        self.memo[f.key] = r
        return r

    def raw(self, f):
        """{(exception type, the construct it comes from): (line, chain)} reaching the outermost block of f, noexcept or not"""
        out = {}
        for i in f.inits or ():
            e = i.get("init") if isinstance(i, dict) else None
            if e is not None:
                self.walk(e, out, (f.key,), ())
        if f.body is not None:
            self.walk(f.body, out, (f.key,), ())
        return out

    def nothrow(self, f):
        d = f.decl
        return bool(d.get("noexcept")) or f.name.startswith("~") or d.k == "CXXDestructor"

    def add(self, out, t, n, chain=()):
        out.setdefault((t, chain[0] if chain else "throw" if n.k == "CXXThrowExpr" else "new " + n.type().s if n.k == "CXXNewExpr" else n.k), (n.line, tuple(chain)))

    def walk(self, n, out, st, hs):
        if n is None:
            return
        k = n.k
        if k == "CXXTryStmt":
            inner = {}
            self.walk(n.get("body"), inner, st, hs)
            left = dict(inner)
            for h in n.get("handlers") or ():
                d = h.decl()
                ht = "..." if d is None else tname(d.type())
                if ht == "...":
                    ct = h.a.get("ct")
                    ht = tname(h.ty(ct)) if ct is not None else "..."
                caught = {t: w for t, w in left.items() if self.isa(t[0], ht) or t[0] == "?" and ht in ("...", "std::exception")}
                for t in caught:
                    left.pop(t)
                body = {}
                self.walk(h.get("body"), body, st, hs + (caught,))
                for t, w in body.items():
                    out.setdefault((t[0], "handler") + t[2:], w)
            for t, w in left.items():
                out.setdefault(t, w)
            return
        if k == "LambdaExpr":
            self.walk(n.get("body"), out, st, hs)
            return
        for c in n.kids() if hasattr(n, "kids") else n.ch:
            self.walk(c, out, st, hs)
        if k == "CXXThrowExpr":
            a = [x for x in n.ch]
            if not a:
                for t, w in (hs[-1] if hs else {("?", ""): None}).items():
                    self.add(out, t[0], n)
            else:
                self.add(out, tname(a[0].type()), n)
            return
        if k == "CXXNewExpr":
            self.add(out, "std::bad_alloc", n)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXConstructExpr", "CXXOperatorCallExpr", "CXXTemporaryObjectExpr", "CXXNewExpr"):
            d = n.decl()
            if d is None or not d.is_function:
                return
            f = self.prog.callee(n)
            if f is not None and (f.body is not None or f.inits):
                for g in [f] + self.overriders(d, f):
                    for t, w in self.of(g, st).items():
                        self.add(out, t, n, self.link(g, w))
                return
            if d.get("noexcept") or d.k == "CXXDestructor":
                return
            gs = self.overriders(d, None)
            if gs:
                for g in gs:
                    for t, w in self.of(g, st).items():
                        self.add(out, t, n, self.link(g, w))
                return
            for t in self.lib(n, d):
                self.add(out, t, n, (d.q,))

    def link(self, g, w):
        return ((g.q,) + w[1]) if len(w[1]) < 12 else w[1]

    def overriders(self, d, f):
        if not d.get("virtual") and d.n not in ("storeSievingPrime", "sieve"):
            return []
        return [g for g in self.prog.functions.values() if g.name == d.n and g.body is not None and g is not f and g.decl.get("rec") and len(g.params) == len(d.get("pt") or [])]

    def lib(self, n, d):
        nm, q = d.n, d.q
        if d.get("externc") or q.startswith("__builtin") or q.startswith("omp_") or q.startswith("_mm") or not q.startswith("std::") and "::" not in q:
            return ()
        if d.get("noret"):
            return ()
        if d.k == "CXXConstructor" or k_ctor(n):
            cls = q.split("::")[-1].split("<")[0]
            if cls in SPECIAL:
                return SPECIAL[cls]
            if cls in QUIET:
                return ()
            if cls in ("vector", "basic_string", "deque", "stack", "map", "set", "basic_ifstream", "basic_istringstream", "basic_ostringstream", "basic_stringstream", "runtime_error", "logic_error"):
                return ("std::bad_alloc",) if n.ch else ()
        if nm in SPECIAL:
            return SPECIAL[nm]
        if nm in ALLOC:
            if nm in ("operator+", "operator+=") and "string" not in q and "std::operator+" != q:
                return ()
            return ("std::bad_alloc",)
        if nm in ("operator=", "operator[]") and ("string" in q or "map" in q or "vector" in q):
            return ("std::bad_alloc",) if "vector" not in q or nm == "operator=" else ()
        if nm in QUIET or q.startswith("std::chrono") or q.startswith("libdivide"):
            return ()
        self.unknown.add(q)
        return ("?",)


def k_ctor(n):
    return n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr")


class Origins(Throws):
    """Like Throws, but every construct that can raise is kept apart:
    {(exception type, function containing the construct, line): chain of callees}"""

    def of(self, f, stack=()):
        if f.key in self.memo:
            return self.memo[f.key]
        if f.key in stack:
            return {}
        out = {}
        self.fn = getattr(self, "fn", [])
        self.fn.append(f)
        st = stack + (f.key,)
        for i in f.inits or ():
            e = i.get("init") if isinstance(i, dict) else None
            if e is not None:
                self.walk(e, out, st, ())
        if f.body is not None:
            self.walk(f.body, out, st, ())
        self.fn.pop()
        r = {} if self.nothrow(f) else out
        self.memo[f.key] = r
        return r

    def inside(self, f, body):
        """what leaves a block of function f"""
        out = {}
        self.fn = [f]
        self.walk(body, out, (f.key,), ())
        return out

    def raw(self, f):
        out = {}
        self.fn = [f]
        for i in f.inits or ():
            e = i.get("init") if isinstance(i, dict) else None
            if e is not None:
                self.walk(e, out, (f.key,), ())
        if f.body is not None:
            self.walk(f.body, out, (f.key,), ())
        return out

    def add(self, out, t, n, chain=()):
        if isinstance(t, tuple):
            out.setdefault(t, tuple(chain))
        else:
            out.setdefault((t, self.fn[-1].q, n.line), tuple(chain))

    def link(self, g, w):
        return (g.q,) + w if len(w) < 12 else w
