"""Program model: runs the libTooling extractor over every translation unit of
/repo's *current* tree and merges the per-TU facts into one resolved program.

Nothing of /repo is executed.  A parse error in any unit, or a unit count below
the confirmed minimum, is an analysis error (exit 2), never a verdict."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL = os.path.join(VERIF, "build", "facts")
CLANGXX = "/usr/bin/clang++-18"


class AnalysisError(Exception):
    pass


def ensure_tool():
    src = os.path.join(VERIF, "tool", "facts.cpp")
    stamp = os.path.join(VERIF, "build", "facts.sha")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    flags = subprocess.check_output(["/usr/bin/llvm-config-18", "--cppflags"], text=True).split()
    tmp = TOOL + ".%d" % os.getpid()
    cmd = [CLANGXX, "-O1", "-std=c++17", "-fno-rtti", *flags, src, "-o", tmp,
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    subprocess.check_call(cmd)
    os.replace(tmp, TOOL)
    with open(stamp, "w") as f:
        f.write(h)


# Flags of the real Release build (cmake -DCMAKE_BUILD_TYPE=Release; g++'s
# default dialect is gnu++17), see /repo/CMakeLists.txt.
def flags_for(rel):
    base = ["-std=gnu++17", "-DNDEBUG", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
            "-I" + os.path.join(REPO, "lib/primesieve/include"), "-ferror-limit=0", "-w"]
    if not rel.startswith("lib/primesieve/"):
        base += ["-fopenmp", "-mpopcnt", "-I" + os.path.join(REPO, "include"),
                 "-isystem", os.path.join(VERIF, "tool/include")]
    return base


def discover_units():
    us = []
    for top in ("src", "lib/primesieve/src"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in sorted(fs):
                if f.endswith((".cpp", ".cc", ".cxx")):
                    us.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(us)


# ---------------------------------------------------------------- nodes
class Node:
    __slots__ = ("k", "i", "l", "t", "ch", "a", "parent", "fn", "tu", "role")

    def __init__(self):
        self.ch = []
        self.parent = None

    def __repr__(self):
        return "<%s %s %s>" % (self.k, self.l, self.a.get("op", ""))

    def get(self, n, d=None):
        return self.a.get(n, d)

    @property
    def line(self):
        p = self.l.rsplit(":", 2)
        return ":".join(p[:2]) if len(p) == 3 else self.l

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.ch))

    def decl(self):
        d = self.a.get("d")
        return None if d is None else self.tu.decls[d]

    def type(self):
        return None if self.t is None else self.tu.types[self.t]

    def ty(self, i):
        return self.tu.types[i]

    def cv(self):
        v = self.a.get("cv")
        return None if v is None else int(v)


ROLE_KEYS = ("init", "cond", "inc", "body", "then", "else", "val", "obj", "fn", "range", "condvar", "chunk", "expr")


class Decl:
    __slots__ = ("k", "n", "q", "l", "a", "tu", "idx", "key", "fn")

    def __repr__(self):
        return "<Decl %s %s>" % (self.k, self.q)

    def get(self, n, d=None):
        return self.a.get(n, d)

    def type(self):
        t = self.a.get("t")
        return None if t is None else self.tu.types[t]

    @property
    def is_global(self):
        return bool(self.a.get("global"))

    @property
    def is_function(self):
        return "pt" in self.a


class Type:
    __slots__ = ("s", "k", "a", "tu")

    def get(self, n, d=None):
        return self.a.get(n, d)

    def to(self):
        i = self.a.get("to")
        return None if i is None else self.tu.types[i]

    def strip_ref(self):
        t = self
        while t.k in ("ref", "rref"):
            t = t.to()
        return t

    def targs(self):
        return [self.tu.types[x] if isinstance(x, int) else x for x in self.a.get("targs", [])]

    @property
    def bits(self):
        return self.a.get("bits")

    @property
    def unsigned(self):
        return self.a.get("u")

    @property
    def const(self):
        return self.a.get("const")

    def is_int(self):
        return self.k in ("int", "bool", "enum")

    def __repr__(self):
        return "<T %s>" % self.s


class Function:
    __slots__ = ("key", "q", "l", "decl", "params", "body", "inits", "cfg", "tu", "a", "ids", "_dom", "nodes")

    def __repr__(self):
        return "<Fn %s>" % self.q

    @property
    def name(self):
        return self.decl.n

    @property
    def file(self):
        return self.l.rsplit(":", 2)[0]

    @property
    def line(self):
        return ":".join(self.l.rsplit(":", 2)[:2])

    @property
    def ret(self):
        return self.tu.types[self.a["ret"]]

    @property
    def targs(self):
        return [self.tu.types[x] for x in self.decl.get("targs", [])]

    def walk(self):
        for it in self.inits:
            if it.get("init") is not None:
                yield from it["init"].walk()
        if self.body is not None:
            yield from self.body.walk()


class TU:
    pass


def _node(tu, fn, j, parent, role=None):
    if j is None:
        return None
    n = Node()
    n.k = j["k"]
    n.i = j["i"]
    n.l = j.get("l", "")
    n.t = j.get("t")
    n.tu = tu
    n.fn = fn
    n.parent = parent
    n.role = role
    n.a = {}
    for key, v in j.items():
        if key in ("k", "i", "l", "t", "c"):
            continue
        if key in ROLE_KEYS and isinstance(v, dict):
            c = _node(tu, fn, v, n, key)
            n.a[key] = c
        elif key in ("handlers", "hidden"):
            lst = [_node(tu, fn, x, n, key) for x in v]
            n.a[key] = lst
        elif key == "decls":
            lst = []
            for x in v:
                lst.append((tu.decls[x["d"]], _node(tu, fn, x["init"], n, "declinit")))
            n.a[key] = lst
        elif key == "clauses":
            lst = []
            for x in v:
                y = dict(x)
                y["vars"] = [tu.decls[d] for d in x.get("vars", [])]
                for e in ("expr", "chunk"):
                    if isinstance(x.get(e), dict):
                        y[e] = _node(tu, fn, x[e], n, e)
                lst.append(y)
            n.a[key] = lst
        elif key == "caps":
            n.a[key] = [dict(x, decl=tu.decls[x["d"]]) if "d" in x else x for x in v]
        else:
            n.a[key] = v
    kids = [_node(tu, fn, x, n, "c%d" % ix) for ix, x in enumerate(j.get("c", []))]
    n.a["args"] = kids
    # source-order children
    order = []
    if n.k == "ForStmt":
        order = [n.a.get(x) for x in ("init", "cond", "inc", "body")]
    elif n.k in ("WhileStmt",):
        order = [n.a.get("cond"), n.a.get("body")]
    elif n.k == "DoStmt":
        order = [n.a.get("body"), n.a.get("cond")]
    elif n.k == "IfStmt":
        order = [n.a.get(x) for x in ("init", "condvar", "cond", "then", "else")]
    elif n.k == "CXXForRangeStmt":
        order = [n.a.get("range"), n.a.get("body")]
    elif n.k == "DeclStmt":
        order = [x for _, x in n.a["decls"]]
    elif n.k == "CXXTryStmt":
        order = [n.a.get("body")] + n.a.get("handlers", [])
    elif n.k.startswith("OMP"):
        order = []
        for c in n.a.get("clauses", []):
            for e in ("expr", "chunk"):
                if isinstance(c.get(e), Node):
                    order.append(c[e])
        order.append(n.a.get("body"))
    else:
        order = [n.a.get(x) for x in ("obj", "fn", "cond", "val", "body") if isinstance(n.a.get(x), Node)]
        order += kids
    n.ch = [x for x in order if x is not None]
    if fn is not None:
        fn.ids[n.i] = n
    return n


class Program:
    def __init__(self):
        self.tus = []
        self.functions = {}     # key -> Function
        self.alts = {}          # symbol key -> keys of further definitions
        self.globals = {}       # key -> dict(decl, init, value, l, ...)
        self.records = {}       # (name, type string) -> record
        self.enums = {}
        self.units = []

    # ---- construction
    def add_tu(self, rel, j):
        tu = TU()
        tu.rel = rel
        tu.types = []
        for a in j["types"]:
            t = Type()
            t.a = a or {}
            t.s = t.a.get("s", "")
            t.k = t.a.get("k", "other")
            t.tu = tu
            tu.types.append(t)
        tu.decls = []
        for ix, a in enumerate(j["decls"]):
            d = Decl()
            d.a = a
            d.k = a["k"]
            d.n = a.get("n", "")
            d.q = a.get("q", "")
            d.l = a.get("l", "")
            d.tu = tu
            d.idx = ix
            d.fn = None
            if "key" in a:
                d.key = a["key"]
            elif d.k == "Field":
                d.key = "field:" + d.q + "@" + d.l
            elif d.k == "EnumConstant":
                d.key = "enum:" + d.q
            else:
                d.key = "local:%s#%d" % (rel, ix)
            tu.decls.append(d)
        self.tus.append(tu)
        for f in j["functions"]:
            d = tu.decls[f["d"]]
            key = d.key
            dl = (f.get("body") or {}).get("l") or d.l     # definition, not first declaration
            if key in self.functions:
                # the same definition seen through a header in another unit
                # is skipped; a *different* definition of the same symbol
                # (alternative build configuration, or the two executables)
                # is kept under a key of its own.
                if self.functions[key].l == dl:
                    continue
                key = d.key + "#" + dl.rsplit(":", 2)[0]
                if key in self.functions:
                    continue
                self.alts.setdefault(d.key, []).append(key)
            fn = Function()
            fn.key = key
            fn.q = d.q
            fn.l = dl
            fn.decl = d
            fn.tu = tu
            fn.a = f
            fn.ids = {}
            fn._dom = None
            fn.params = [tu.decls[p] for p in f["params"]]
            fn.inits = []
            for it in f.get("inits", []):
                y = dict(it)
                y["init"] = _node(tu, fn, it.get("init"), None)
                if "field" in it:
                    y["field"] = tu.decls[it["field"]]
                fn.inits.append(y)
            fn.body = _node(tu, fn, f["body"], None)
            fn.cfg = f.get("cfg")
            self.functions[key] = fn
        for g in j["globals"]:
            d = tu.decls[g["d"]]
            old = self.globals.get(d.key)
            if old is None or (not old["defined"] and g["defined"]):
                y = dict(g)
                y["decl"] = d
                if isinstance(g.get("init"), dict):
                    y["init"] = _node(tu, None, g["init"], None)
                self.globals[d.key] = y
        for r in j["records"]:
            key = (r["name"], tu.types[r["t"]].s)
            if key in self.records:
                continue
            y = dict(r)
            y["tu"] = tu
            y["fields"] = [dict(x, decl=tu.decls[x["d"]], init=_node(tu, None, x.get("init"), None) if isinstance(x.get("init"), dict) else None) for x in r["fields"]]
            y["methods"] = [dict(x, decl=tu.decls[x["d"]]) for x in r["methods"]]
            self.records[key] = y
        for e in j["enums"]:
            self.enums.setdefault(e["name"], dict(e, tu=tu))

    # ---- queries
    def fns(self, q=None, name=None, file=None):
        out = []
        for f in self.functions.values():
            if q is not None and f.q != q:
                continue
            if name is not None and f.name != name:
                continue
            if file is not None and not f.file.startswith(file):
                continue
            out.append(f)
        return out

    def fn1(self, q, **kw):
        r = self.fns(q=q, **kw)
        if not r:
            raise AnalysisError("anchor vanished: function %s" % q)
        return r[0]

    def callee(self, node):
        """Function definition called by a call/construct node, or None."""
        d = node.decl()
        if d is None or not d.is_function:
            return None
        return self.resolve(d, node.tu.rel)

    def resolve(self, d, rel):
        f = self.functions.get(d.key)
        alts = self.alts.get(d.key)
        if f is not None and alts:
            cands = [f] + [self.functions[a] for a in alts]
            for c in cands:
                if c.file == rel:
                    return c
            top = "lib/" if rel.startswith("lib/") else ""
            for c in cands:
                if c.file.startswith("lib/") == bool(top):
                    return c
        return f


def load(repo=None):
    global REPO
    if repo:
        REPO = repo
    ensure_tool()
    units = discover_units()
    if len(units) < 40:
        raise AnalysisError("only %d translation units found under %s" % (len(units), REPO))
    tmp = tempfile.mkdtemp(prefix="verif-facts-")
    prog = Program()

    def one(rel):
        out = os.path.join(tmp, rel.replace("/", "_") + ".json")
        cmd = [TOOL, REPO.rstrip("/") + "/", out, os.path.join(REPO, rel), "--", *flags_for(rel)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            return rel, None, p.stdout[-2000:]
        with open(out) as f:
            j = json.load(f)
        if j.get("errors"):
            return rel, None, p.stdout[-2000:]
        return rel, j, ""

    try:
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(one, units))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.setrecursionlimit(20000)
    for rel, j, err in res:
        if j is None:
            raise AnalysisError("cannot parse %s:\n%s" % (rel, err))
        prog.add_tu(rel, j)
    prog.units = units
    for f in prog.functions.values():
        for n in f.walk():
            pass
    return prog
