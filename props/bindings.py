"""Python bindings: the global interpreter lock, forwarding of virtual functions, arguments and properties."""
import re

from .common import *
from vsa import extract
from vsa.sim import Client, Engine, Frame, reaching
from vsa.model import is_call, call_base, call_args, short
from . import pyround

PYDIRS = ["audiointerfaces", "efl", "objectmodel", "panning", "panningdsp", "pml", "rbbl", "rcl", "reverbobject", "rrl",
          "signalflows", "visr", "libpythonbindinghelpers"]
DEFS = ("def", "def_static", "def_property", "def_property_readonly", "def_property_static", "def_property_readonly_static",
        "def_readwrite", "def_readonly")


def py_program(dirs=None, extra_libs=()):
    return program(["python/" + d for d in (dirs or PYDIRS)] + list(extra_libs))


class Binding(object):
    __slots__ = ("fn", "node", "kind", "name", "args", "cls")

    def __init__(self, fn, node, kind, name, args, cls):
        self.fn, self.node, self.kind, self.name, self.args, self.cls = fn, node, kind, name, args, cls


def template_arg(t):
    """First template argument of a type string."""
    i = t.find("<")
    if i < 0:
        return ""
    d = 0
    for j in range(i + 1, len(t)):
        c = t[j]
        if c == "<":
            d += 1
        elif c == ">":
            if d == 0:
                return t[i + 1:j].strip()
            d -= 1
        elif c == "," and d == 0:
            return t[i + 1:j].strip()
    return ""


def literal(n):
    for m in n.walk():
        if m.k == "StringLiteral":
            return m.x.get("s")
    return None


def bindings(prog):
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line, f.id)):
        if f.body is None or "/python/" not in (f.file or "") and not (f.file or "").startswith("src/python"):
            continue
        for n in f.body.walk():
            if n.k != "CXXMemberCallExpr":
                continue
            cc = n.x.get("cc") or ""
            if not (cc.startswith("pybind11::class_<") or cc.startswith("pybind11::module_")):
                continue
            s = (n.x.get("cn") or "")[len(cc):].lstrip(":").split("<")[0] if (n.x.get("cn") or "").startswith(cc) \
                else (n.c[0].x.get("m") or short(n.x.get("cn") or ""))
            if s not in DEFS:
                continue
            a = call_args(n)
            if not a:
                continue
            nm = literal(a[0]) if a[0].k != "CallExpr" else None
            if nm is None and a[0].t and "initimpl" in a[0].t:
                yield Binding(f, n, s, "__init__", a, template_arg(cc))
            else:
                yield Binding(f, n, s, nm, a[1:], template_arg(cc))


def callable_of(prog, a):
    """('method', cid, cname) | ('func', cid, cname) | ('lambda', fid, name) | None"""
    m = a
    while m.k in ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "MaterializeTemporaryExpr",
                  "CXXFunctionalCastExpr", "ExprWithCleanups") and m.c:
        m = m.c[0]
    if m.k == "CXXConstructExpr" and len(m.c) == 1:
        return callable_of(prog, m.c[0])
    if m.k == "UnaryOperator" and m.x.get("op") == "&" and m.c:
        m = m.c[0]
    if m.k == "LambdaExpr" and m.x.get("lambda"):
        return ("lambda", m.x["lambda"], "lambda")
    if m.k == "DeclRefExpr" and m.x.get("dk") in ("CXXMethod", "Function"):
        return ("method" if m.x["dk"] == "CXXMethod" else "func", m.x.get("cid"), m.x.get("cn") or m.x.get("q"))
    if m.k == "CallExpr" and m.c[1:]:          # py::overload_cast<...>()( &C::f ), std::mem_fn
        return callable_of(prog, m.c[1])
    if m.k == "CXXOperatorCallExpr" and m.x.get("op") == "()" and len(m.c) > 1:
        return callable_of(prog, m.c[2] if len(m.c) > 2 else m.c[1])
    return None


def is_release(t):
    return "gil_scoped_release" in (t or "")


def optional_guard(t):
    """A lock object that may or may not exist at run time."""
    return any(x in (t or "") for x in ("unique_ptr<", "shared_ptr<", "optional<"))


# ---------------------------------------------------------------------------------------------------------------------
# The interpreter lock

WAITS = ("Pa_StopStream", "Pa_CloseStream", "Pa_AbortStream", "Pa_Terminate", "jack_deactivate", "jack_client_close")


def blocking(prog):
    """Functions that may wait for the parameter exchange lock or for the audio thread."""
    from . import threads

    def pred(n):
        if short(n.x.get("cn") or "") in WAITS and is_call(n):
            return True
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and threads.GUARD.search(" " + (n.x.get("cc") or n.t or "")) and \
                n.c and "timed_mutex" in (n.x.get("cc") or n.t or ""):
            return True
        if n.k == "CXXMemberCallExpr" and short(n.x.get("cn") or "") in ("lock", "try_lock_for", "try_lock_until") and \
                "timed_mutex" in (n.x.get("cc") or ""):
            return True
        return False
    rel = reaching(prog, pred)
    return pred, rel


class Gil(Client):
    """State: frozenset of the local objects that have released the interpreter lock."""

    def __init__(self, prog, rep, pred, rel, name):
        self.prog, self.rep, self.pred, self.rel, self.name = prog, rep, pred, rel, name

    def relevant(self, fn):
        return "python" in (fn.file or "") and fn.body is not None

    def after(self, eng, fr, st, n):
        if n.k == "DeclStmt":
            for v in n.x["vars"]:
                if optional_guard(v.t) and not (v.init is not None and any(
                        m.k == "CXXNewExpr" or is_call(m) and short(m.x.get("cn") or "").startswith("make_") for m in v.init.walk())):
                    continue
                if is_release(v.t):
                    st = st.client(st.c | {(fr.depth, v.did)})
                elif "gil_scoped_acquire" in (v.t or ""):
                    st = st.client(st.c | {("A", fr.depth, v.did)})
        return st

    def dtor(self, eng, fr, st, did, ty):
        c = frozenset(x for x in st.c if x[-2:] != (fr.depth, did))
        return st if c == st.c else st.client(c)

    def optional(self, fr, st, n):
        """Creation and removal of a lock object held by pointer."""
        b = call_base(n) if n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") else None
        if b is None or not optional_guard(b.t) or "gil_scoped" not in (b.t or ""):
            return None
        d = b
        while d.k != "DeclRefExpr" and d.c:
            d = d.c[0]
        if d.x.get("did") is None:
            return None
        s = short(n.x.get("cn") or "")
        g = ((fr.depth, d.x["did"]) if is_release(b.t) else ("A", fr.depth, d.x["did"]))
        if s == "emplace" or s == "reset" and call_args(n) and not any(a.k == "CXXNullPtrLiteralExpr" for m in call_args(n) for a in m.walk()) \
                or s == "operator=" and any(m.k == "CXXNewExpr" or is_call(m) and short(m.x.get("cn") or "").startswith("make_")
                                            for a in call_args(n) for m in a.walk()):
            return st.client(st.c | {g})
        if s in ("reset", "operator="):
            return st.client(st.c - {g})
        return None

    def released(self, st):
        return any(x[0] != "A" for x in st.c) and not any(x[0] == "A" for x in st.c)

    def element(self, eng, fr, st, n):
        return None

    def call(self, eng, fr, st, n, callees):
        o = self.optional(fr, st, n)
        if o is not None:
            return [(o, None)]
        if self.pred(n) and "timed_mutex" in (n.x.get("cc") or "") and short(n.x.get("cn") or "") == "lock":
            self.rep.count("bound lock operations")
        out = [f for f in callees if f.id in self.rel]
        if out and not any(self.relevant(f) for f in out) or self.pred(n) and is_call(n):
            self.rep.count("blocking calls of bound functions")
            if not self.released(st):
                self.rep.violation("waits-with-interpreter-lock", self.name, n.l,
                                   "%s may wait for the audio thread or the parameter lock while the interpreter lock is held; "
                                   "the owner of that lock may need the interpreter" % (short(n.x.get("cn") or "")),
                                   "waits-with-interpreter-lock|%s|%s" % (self.name, short(n.x.get("cn") or "")), fr.fn.file)
        if self.released(st) and self.python_op(n):
            self.rep.violation("python-without-interpreter-lock", fr.fn.name, n.l,
                               "%s uses a Python object while the interpreter lock is released" % short(n.x.get("cn") or ""),
                               "python-without-interpreter-lock|%s|%s" % (fr.fn.name, short(n.x.get("cn") or "")), fr.fn.file)
        return None

    @staticmethod
    def python_op(n):
        cn = n.x.get("cn") or ""
        if not cn.startswith("pybind11::") and not cn.startswith("Py"):
            # copies and destruction of handles change reference counts
            return False
        if "gil_scoped" in cn or short(cn) in ("pybind11_fail", "type_id"):
            return False                # takes the lock itself, or only throws a C++ exception
        # reading array geometry and data pointers touches no reference count
        return short(cn) not in ("data", "mutable_data", "strides", "shape", "ndim", "size", "itemsize", "nbytes", "unchecked")


def check_gil(rep):
    prog = program(["python/rrl", "python/audiointerfaces", "librrl", "libaudiointerfaces"])
    pred, rel = blocking(prog)
    if not rel:
        raise Broken("no function acquiring the parameter exchange lock found")
    gives = reaching(prog, lambda n: n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and "gil_scoped_release" in (n.x.get("cc") or n.t or ""))
    done = set()
    for b in bindings(prog):
        rep.count("bound functions")
        ext = " ".join((a.t or "") + " " + (a.x.get("cc") or "") for a in b.args)
        guard = "call_guard" in ext and is_release(ext)
        types = init_types(b)
        if types is not None:
            g = find_ctor(prog, b.cls, types)
            if g is not None and g.id in rel and ("", g.id) not in done:
                done.add(("", g.id))
                rep.count("bound constructors that may block")
                if "python" in (g.file or "") and g.blocks:
                    Engine(prog, Gil(prog, rep, pred, rel, "%s.__init__" % short(b.cls))).run(g, frozenset({(0, -1)}) if guard else frozenset())
                elif not guard:
                    rep.violation("waits-with-interpreter-lock", "%s.__init__" % short(b.cls), b.node.l,
                                  "the constructor of %s may wait for the audio thread or the parameter lock while the interpreter lock is held" % b.cls,
                                  "waits-with-interpreter-lock|%s.__init__" % short(b.cls), b.fn.file)
        for a in b.args:
            c = callable_of(prog, a)
            if c is None:
                continue
            kind, cid, cn = c
            f = prog.funcs.get(cid)
            targets = [f] if f is not None else []
            if f is not None and f.virt:
                targets += [prog.funcs[i] for i in prog.all_overriders(cid) if i in prog.funcs]
            if kind == "method" and f is None:
                # library type (the mutex itself) or pure virtual
                if "timed_mutex" in (cn or "") and short(cn) == "lock":
                    rep.count("bound lock operations")
                    if not guard:
                        rep.violation("waits-with-interpreter-lock", b.name or "?", b.node.l,
                                      "%s waits for the parameter lock while the interpreter lock is held" % cn,
                                      "waits-with-interpreter-lock|%s" % b.name, b.fn.file)
                    continue
                targets = [prog.funcs[i] for i in prog.all_overriders(cid) if i in prog.funcs] if cid else []
            for g in targets:
                if (b.name, g.id) in done or not (g.id in rel or g.id in gives or guard):
                    continue
                done.add((b.name, g.id))
                if g.id in rel:
                    rep.count("bound functions that may block")
                if "python" in (g.file or "") and g.blocks:
                    rep.count("bound functions walked")
                    Engine(prog, Gil(prog, rep, pred, rel, "%s.%s" % (short(b.cls), b.name))).run(
                        g, frozenset({(0, -1)}) if guard else frozenset())
                elif not guard and g.id in rel:
                    rep.violation("waits-with-interpreter-lock", "%s.%s" % (short(b.cls), b.name), b.node.l,
                                  "%s may wait for the audio thread or the parameter lock while the interpreter lock is held" % g.name,
                                  "waits-with-interpreter-lock|%s.%s" % (short(b.cls), b.name), b.fn.file)
    rep.need("bound functions that may block", 3)
    rep.need("bound lock operations", 1)
    components(rep)


class Held(Client):
    """State: frozenset of live guards that hold the interpreter lock."""
    exceptional_exits = True

    def __init__(self, prog, rep, fns, hs):
        self.prog, self.rep, self.fns, self.hs = prog, rep, fns, hs

    def relevant(self, fn):
        return fn.id in self.fns

    def after(self, eng, fr, st, n):
        if n.k == "DeclStmt":
            for v in n.x["vars"]:
                if "GilEnsureGuard" in (v.t or "") or "gil_scoped_acquire" in (v.t or ""):
                    st = st.client(st.c | {(fr.depth, v.did)})
        return st

    def dtor(self, eng, fr, st, did, ty):
        c = frozenset(x for x in st.c if x != (fr.depth, did))
        if c != st.c:
            return st.client(c)
        if ty and ("pybind11::" in ty) and "gil" not in ty:
            self.use(eng, fr, st, None, "destruction of a local %s" % ty.split("::")[-1])
        return st

    @staticmethod
    def guards(st):
        return [x for x in st.c if x[0] != "released"]

    def use(self, eng, fr, st, n, what):
        self.rep.count("uses of Python objects in C++ components")
        if not self.guards(st):
            self.rep.violation("python-without-interpreter-lock", fr.fn.name, n.l if n is not None else fr.fn.line,
                               "%s without holding the interpreter lock: %s" % (what, fr.describe()),
                               "python-without-interpreter-lock|%s|%s" % (fr.fn.name, what), fr.fn.file)

    def element(self, eng, fr, st, n):
        return None

    def call(self, eng, fr, st, n, callees):
        cn = n.x.get("cn") or ""
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (n.x.get("cc") or "") in self.hs:
            # a constructor that fails releases the members already set: the lock must outlive the object under construction
            self.rep.count("constructions of objects holding Python objects")
            if not self.guards(st):
                self.rep.violation("released-on-failure-without-interpreter-lock", fr.fn.name, n.l,
                                   "a %s is created without holding the interpreter lock: when its construction fails, the Python "
                                   "objects already stored in members are released without the lock" % short(n.x["cc"]),
                                   "released-on-failure-without-interpreter-lock|%s" % n.x["cc"], fr.fn.file)
        if n.k == "CXXConstructExpr" and cn.startswith("pybind11::") and not n.c:
            return None                 # an empty handle
        if (cn.startswith("pybind11::") or cn.startswith("Py") and n.x.get("extc")) and "gil_scoped" not in cn and \
                "initialize_interpreter" not in cn and "PyGILState" not in cn and "PyEval" not in cn:
            self.use(eng, fr, st, n, "call of " + short(cn.split("<")[0]))
        if short(cn) in ("reset", "operator=") and call_base(n) is not None:
            b = call_base(n)
            if "Impl" in (b.t or "") and "unique_ptr" in (b.t or ""):
                self.use(eng, fr, st, n, "release of the implementation object")
                return [(st.client(st.c | {("released", 0)}), None)]
        if "loadModule" in cn:
            self.use(eng, fr, st, n, "loading of a module")
        return None


def holders(prog):
    """Classes with members that are Python objects."""
    return {r.name for r in prog.records.values() if r.name.startswith("visr::") and
            any("pybind11::" in f.t and not f.t.rstrip().endswith(("*", "&")) for f in r.fields)}


def components(rep):
    prog = program(["libpythoncomponents"])
    hs = holders(prog)
    if not hs:
        raise Broken("no class with Python objects found")
    fns = {f.id for f in prog.funcs.values() if f.body is not None and f.name.startswith("visr::") and
           "python" in (f.file or "") and "pythonsupport" not in f.name}
    callers = {g.id for i in fns for n in prog.funcs[i].body.walk() if is_call(n) for g in prog.callees(n) if g.id != i}
    for f in sorted(prog.funcs.values(), key=lambda f: (f.name, f.id)):
        if f.id not in fns or not f.blocks or f.implicit:
            continue
        owner = f.cls or ""
        if owner in hs:
            continue                    # reached through the owner
        if (f.acc != 0 or not f.cls) and f.id in callers and f.sp not in ("ctor", "dtor"):
            continue                    # a helper: judged where it is called
        rep.count("functions of the Python component")
        Engine(prog, Held(prog, rep, fns, hs)).run(f, frozenset())
    for h in sorted(hs):
        rep.count("classes holding Python objects")
        # the objects are released by the destructor of the owner, with the lock held
        owners = [r for r in prog.records.values() if any(h in f.t and "unique_ptr" in f.t for f in r.fields)]
        for r in owners:
            m = [f.n for f in r.fields if h in f.t][0]
            d = next((f for f in prog.funcs.values() if f.cls == r.name and f.sp == "dtor" and f.blocks and
                      not f.implicit and not f.defaulted), None)
            ok = d is not None and all(("released", 0) in st.c for k, st, _v, _n in
                                       Engine(prog, Held(prog, rep, fns, hs)).run(d, frozenset()) if k == "ret")
            if not ok:
                rep.violation("python-without-interpreter-lock", r.name, d.line if d is not None else 0,
                              "the Python objects held by %s are released after the destructor has given up the interpreter lock" % m,
                              "python-without-interpreter-lock|~%s" % r.name, d.file if d is not None else "")
    guard_class(rep)
    rep.need("uses of Python objects in C++ components", 5)
    rep.need("constructions of objects holding Python objects", 1)


class Ensure(Client):
    """State: frozenset of: 'got' (lock acquired), 'got2', 'gave' (lock given back), 'member' (kept by a scoped object)."""

    def __init__(self, cls):
        self.cls = cls

    def relevant(self, fn):
        return bool(fn.cls) and fn.cls.startswith(self.cls)

    def call(self, eng, fr, st, n, callees):
        s = short(n.x.get("cn") or "")
        if s == "PyGILState_Ensure":
            return [(st.client(st.c | {"got2" if "got" in st.c else "got"}), None)]
        if s == "PyGILState_Release":
            return [(st.client(st.c | {"gave2" if "gave" in st.c else "gave"}), None)]
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and "gil_scoped_acquire" in (n.x.get("cc") or ""):
            return [(st.client(st.c | {"member"}), None)]
        return None


def guard_class(rep):
    """The guard object acquires the interpreter lock on construction, whatever happens, and gives it back on destruction."""
    prog = program(["libpythonsupport"])
    cls = "visr::pythonsupport::GilEnsureGuard"
    if cls not in prog.records:
        raise Broken("guard class for the interpreter lock not found")
    scoped = False
    for f in sorted(prog.funcs.values(), key=lambda f: f.id):
        if f.cls == cls and f.sp == "ctor" and f.blocks and not f.implicit:
            rep.count("constructors of the guard")
            for k, st, _v, _n in Engine(prog, Ensure(cls)).run(f, frozenset()):
                if k == "ret" and not ({"got", "member"} & st.c) or "got2" in st.c:
                    rep.violation("guard-without-lock", f.name, f.line, "a path through the constructor of the guard does not acquire the "
                                  "interpreter lock exactly once", "guard-without-lock|ctor", f.file)
                scoped = scoped or "member" in st.c
    ok = False
    for f in sorted(prog.funcs.values(), key=lambda f: f.id):
        if f.cls and f.cls.startswith(cls) and f.sp == "dtor" and f.blocks and not f.implicit:
            res = [st.c for k, st, _v, _n in Engine(prog, Ensure(cls)).run(f, frozenset()) if k == "ret"]
            if any("gave" in c for c in res):
                rep.count("destructors of the guard")
                ok = all("gave" in c and "gave2" not in c for c in res)
    if not ok and not scoped:
        rep.violation("guard-without-lock", cls, 0, "the guard does not give back the interpreter lock on every path of its destruction",
                      "guard-without-lock|dtor", "")
    rep.need("constructors of the guard", 1)


# ---------------------------------------------------------------------------------------------------------------------
# What a bound name reaches

def peel(n):
    while n.k in ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "MaterializeTemporaryExpr",
                  "CXXFunctionalCastExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "CXXConstCastExpr",
                  "CXXDynamicCastExpr") and n.c:
        n = n.c[0]
    return n


def norm(s):
    s = (s or "").replace("_", "").lower()
    return s


def arg_names(b):
    """Names given with py::arg for the arguments of a binding, in order."""
    out = []
    for a in b.args:
        t = a.t or ""
        if "pybind11::arg" not in t:
            continue
        s = literal(a)
        # the first literal is the argument name also for arguments with a default value
        out.append((s, a))
    return out


def init_types(b):
    """Parameter types of py::init<...>(), or None for factories and other definitions."""
    m = re.search(r"initimpl::constructor<(.*)>$", (b.args[0].t or "")) if b.args else None
    if not m:
        return None
    out, d, cur = [], 0, ""
    for ch in m.group(1):
        if ch == "<" or ch == "(":
            d += 1
        elif ch == ">" or ch == ")":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def canon(t):
    return re.sub(r"\s+", "", (t or "").replace("const ", "").replace(" const", "")).replace("class", "").replace("struct", "")


def find_ctor(prog, cls, types):
    """The constructor of cls whose parameter types agree best with the list of types."""
    best, score = None, -1
    for f in prog.funcs.values():
        if f.cls != cls or f.sp not in ("ctor", "copy", "move") or f.implicit or len(f.params) < len(types):
            continue
        s = sum(1 for p, t in zip(f.params, types) if canon(p[2]) == canon(t))
        if s == len(types) and (len(f.params) == len(types)):
            return f
        if s > score:
            best, score = f, s
    return best if best is not None and score >= max(1, len(types) - 2) else None


def fields_of(prog, fid, depth=0, seen=None):
    """(read, written): the attributes a function and the functions of the toolkit it calls read and write."""
    seen = {} if seen is None else seen
    if fid in seen:
        return seen[fid]
    f = prog.funcs.get(fid)
    r, w = set(), set()
    seen[fid] = (r, w)
    if f is None or f.body is None or depth > 6:
        return r, w
    for n in f.body.walk():
        if n.k == "MemberExpr" and n.x.get("mk") == "field":
            r.add(key_of(n))
            if modified(n):
                w.add(key_of(n))
        if n.k == "DeclRefExpr" and n.x.get("dk") == "CXXMethod" and n.x.get("cid") and n.p is not None and n.p.k == "UnaryOperator":
            # a pointer to a member function: called by whoever gets it
            rr, ww = fields_of(prog, n.x["cid"], depth + 1, seen)
            r |= rr
            w |= ww
        if is_call(n):
            cid = n.x.get("cid")
            o = call_base(n)
            if o is not None:
                o = peel(o)
                if o.k == "MemberExpr" or is_call(o):
                    # an operation on an attribute, or on what an accessor returns: a modification of that attribute
                    if is_call(o) and not n.x.get("mconst") and n.k == "CXXMemberCallExpr":
                        w |= fields_of(prog, o.x.get("cid"), depth + 1, seen)[0]
                    continue
            for k, a in enumerate(call_args(n)):
                a = peel(a)
                pt = (n.x.get("pt") or [])[k:k + 1]
                if is_call(a) and pt and pt[0].endswith("&") and "const" not in pt[0]:
                    w |= fields_of(prog, a.x.get("cid"), depth + 1, seen)[0]
            if cid and cid != fid and (n.x.get("cn") or "").startswith("visr::"):
                for i in [cid] + (list(prog.all_overriders(cid)) if n.x.get("virt") else []):
                    rr, ww = fields_of(prog, i, depth + 1, seen)
                    r |= rr
                    w |= ww
        if n.k == "CXXOperatorCallExpr" and (n.x.get("op") or "") in ("=", "+=", "-=", "*=") and n.c[1:]:
            l = peel(n.c[1])
            if is_call(l):
                w |= fields_of(prog, l.x.get("cid"), depth + 1, seen)[0]
    return r, w


def key_of(n):
    """Attribute, with the index where an element with a fixed index is selected."""
    q = n.x.get("q") or n.x.get("m")
    p, c = n.p, n
    while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr"):
        p, c = p.p, p
    if p is not None:
        i = None
        if p.k == "ArraySubscriptExpr" and p.c and p.c[0] is c:
            i = p.c[1]
        elif p.k == "CXXOperatorCallExpr" and p.x.get("op") == "[]" and len(p.c) == 3 and p.c[1] is c:
            i = p.c[2]
        elif p.k == "CXXOperatorCallExpr" and p.x.get("op") == "[]" and len(p.c) == 2 and p.c[0] is c:
            i = p.c[1]
        if i is not None:
            v = peel(i)
            if v.k == "IntegerLiteral":
                return "%s[%s]" % (q, v.x.get("v"))
    return q


def modified(n):
    """The attribute (or a part of it) is assigned, passed by reference, or the object of a modifying call."""
    c, p = n, n.p
    while p is not None:
        if p.k == "ImplicitCastExpr" and (p.x.get("ck") == "LValueToRValue"):
            return False
        if p.k in ("ImplicitCastExpr", "ParenExpr", "ArraySubscriptExpr") or p.k == "MemberExpr" and p.x.get("mk") == "field":
            c, p = p, p.p
            continue
        if p.k in ("BinaryOperator", "CompoundAssignOperator"):
            return bool((p.x.get("op") or "").endswith("=") and p.x["op"] not in ("==", "!=", "<=", ">=") and p.c[0] is c)
        if p.k == "UnaryOperator":
            return p.x.get("op") in ("++", "--", "&")
        if p.k == "CXXOperatorCallExpr":
            if p.x.get("op") == "[]":
                c, p = p, p.p
                continue
            a = call_args(p)
            return (p.x.get("op") or "").endswith("=") and p.x["op"] not in ("==", "!=", "<=", ">=")
        if p.k == "MemberExpr":
            c, p = p, p.p
            continue
        if p.k == "CXXMemberCallExpr":
            return not p.x.get("mconst")
        if p.k == "CallExpr":
            return True
        return False
    return False


def stores(prog, f, did, depth=0, seen=None):
    """Place where a function keeps a reference or pointer to what its parameter refers to, or None."""
    seen = set() if seen is None else seen
    if (f.id, did) in seen or depth > 5:
        return None
    seen.add((f.id, did))

    def is_param(n, addr):
        n = peel(n)
        if n.k == "UnaryOperator" and n.x.get("op") == "&" and n.c:
            return is_param(n.c[0], True)
        return n.k == "DeclRefExpr" and n.x.get("did") == did and addr

    ptype = next((p[2] for p in f.params if p[0] == did), "")
    direct = ptype.rstrip().endswith("*")
    for i in f.inits:
        fld, e = i.get("m"), i.get("e")
        if e is None:
            continue
        pe = peel(e)
        if fld:
            ft = fld_type(prog, f.cls, fld) or ""
            if ft.rstrip().endswith("&") and part_of(prog, pe, did):
                return fld
            if ft.rstrip().endswith("&") and is_param(pe, True) or ft.rstrip().endswith("*") and is_param(pe, direct):
                return fld
    roots = [f.body] + [i["e"] for i in f.inits if i.get("e") is not None]
    for root in roots:
        if root is None:
            continue
        for n in root.walk():
            if n.k == "BinaryOperator" and n.x.get("op") == "=" and (n.t or "").rstrip().endswith("*") and is_param(n.c[1], direct):
                l = peel(n.c[0])
                if l.k == "MemberExpr" and l.x.get("mk") == "field":
                    return l.x.get("m")
            if is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                cid = n.x.get("cid")
                g = prog.funcs.get(cid) if cid else None
                args = call_args(n) if is_call(n) else list(n.c)
                pts = n.x.get("pt") or []
                for k, a in enumerate(args):
                    pt = (pts[k] if k < len(pts) else "") or ""
                    if not is_param(a, direct or pt.rstrip().endswith("&")):
                        continue
                    if pt.replace(" ", "") == "void*":
                        return "the user pointer of " + short(n.x.get("cn") or "")
                    if g is not None and k < len(g.params):
                        s = stores(prog, g, g.params[k][0], depth + 1, seen)
                        if s:
                            return s
    return None


def part_of(prog, n, did):
    """n is the result by reference of a function of the parameter: a part of what the parameter refers to."""
    n = peel(n)
    if n.k != "CXXMemberCallExpr":
        return False
    g = prog.funcs.get(n.x.get("cid"))
    ret = (g.ret if g is not None else "") or ""
    b = call_base(n)
    if b is None or not ret.rstrip().endswith(("&", "*")):
        return False
    b = peel(b)
    return b.k == "DeclRefExpr" and b.x.get("did") == did or part_of(prog, b, did)


def fld_type(prog, cls, name):
    r = prog.records.get(cls)
    if r is None:
        r = next((x for x in prog.records.values() if x.name == cls), None)
    if r is None:
        return None
    return next((f.t for f in r.fields if f.n == name), None)


def object_param(t):
    """Reference or pointer to an object of the toolkit."""
    t = (t or "").strip()
    if t.endswith("&&") or not t.endswith(("&", "*")):
        return False
    return "visr::" in t or "mutex" in t


def check_bindings(rep):
    from .init import LIBS
    prog = py_program(extra_libs=LIBS)
    trampolines(rep, prog)
    methods = {}
    for f in prog.funcs.values():
        if f.cls and f.sp in (None, "", "method", "conv", "op") and f.acc == 0:
            methods.setdefault(f.cls, {}).setdefault(short(f.name.split("<")[0] if f.name.endswith(">") else f.name), []).append(f)
    bs = []
    for b in bindings(prog):
        rep.count("bound definitions")
        where = "%s.%s" % (short(b.cls) if b.cls else "module", b.name)
        tg = [(a, callable_of(prog, a)) for a in b.args]
        tg = [(a, c) for a, c in tg if c]
        bs.append((b, tg))
        forwards(rep, prog, b, where, tg, methods)
        if b.kind in ("def_property",) and len(tg) >= 2:
            pair(rep, prog, b, where, tg[0][1], tg[1][1])
        for a, c in tg:
            if c[0] in ("lambda", "func"):
                dropped(rep, prog, where, c[1])
        names = arg_names(b)
        target = None
        off = 0
        if b.name == "__init__" and init_types(b) is not None:
            target = find_ctor(prog, b.cls, init_types(b))
        elif tg and b.kind in ("def", "def_static"):
            target = prog.funcs.get(tg[0][1][1])
            if target is not None and b.kind == "def" and b.cls and tg[0][1][0] in ("lambda", "func"):
                off = 1
        if target is None:
            continue
        params = [p for p in target.params][off:]
        rep.count("callables with known parameters")
        if names:
            order(rep, b, where, names, params, target)
        keep(rep, prog, b, where, target, off, params)
    pyround.check(rep, prog, bs, methods)
    rep.need("bound definitions", 400)
    rep.need("properties with a setter", 20)
    rep.need("overridable functions", 5)
    rep.need("named arguments", 100)
    rep.need("arguments that are kept", 2)


def trampolines(rep, prog):
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line, f.id)):
        if f.body is None:
            continue
        for n in f.body.walk():
            if n.k != "CallExpr" or short((n.x.get("cn") or "").split("<")[0]) not in ("get_override", "get_overload"):
                continue
            if not (n.x.get("cn") or "").startswith("pybind11::"):
                continue
            if (f.name or "").startswith("pybind11::"):
                continue
            rep.count("overridable functions")
            s = literal(n)
            m = short(f.name)
            if s != m and s is not None:
                rep.violation("override-under-other-name", f.name, n.l,
                              "a call of %s is answered by the Python method %s" % (m, s),
                              "override-under-other-name|%s" % f.name, f.file)
            # the arguments handed to the override, in order
            used = []
            for c in f.body.walk():
                if c.k == "CXXOperatorCallExpr" and c.x.get("op") == "()" and len(c.c) > 1:
                    for a in c.c[1:]:
                        a = peel(a)
                        while a.k in ("UnaryOperator", "CallExpr") and a.c:
                            a = peel(a.c[-1])
                        if a.k == "DeclRefExpr" and any(a.x.get("did") == p[0] for p in f.params):
                            used.append(a.x["did"])
                    break
            want = [p[0] for p in f.params]
            if used and used != want:
                rep.violation("override-arguments", f.name, n.l, "the arguments of the call are not passed on one by one, in order",
                              "override-arguments|%s" % f.name, f.file)
            elif want and not used:
                rep.violation("override-arguments", f.name, n.l, "the arguments of the call are not passed on",
                              "override-arguments|%s" % f.name, f.file)


def called(prog, fid):
    f = prog.funcs.get(fid)
    out = set()
    if f is not None and f.body is not None:
        for n in f.body.walk():
            if is_call(n):
                out.add(short((n.x.get("cn") or "").split("<")[0]))
    return out


def forwards(rep, prog, b, where, tg, methods):
    """A name that the C++ class has as well reaches the C++ function of that name."""
    if not b.name or not b.cls or not tg or b.name.startswith("__"):
        return
    kind, cid, cn = tg[0][1]
    if kind != "method" or not (cn or "").startswith("visr::"):
        return
    rep.count("methods bound by name")
    m = short(cn.split("<")[0] if cn.endswith(">") else cn)
    if m == b.name:
        return
    owners = [b.cls] + base_names(prog, b.cls)
    same = [g for o in owners for g in methods.get(o, {}).get(b.name, ())]
    if same and m not in called(prog, same[0].id) and b.name not in called(prog, cid):
        rep.violation("bound-to-other-function", where, b.node.l,
                      "%s is bound to %s although the class has a function of that name" % (b.name, m),
                      "bound-to-other-function|%s" % where, b.fn.file)


def dropped(rep, prog, where, fid):
    """A result that a callee stores in a local variable of a bound function is used."""
    f = prog.funcs.get(fid)
    if f is None or f.body is None:
        return
    uses = {}
    for n in f.body.walk():
        if n.k == "DeclStmt":
            for v in n.x["vars"]:
                empty = v.init is None or peel(v.init).k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not peel(v.init).c
                if v.did and empty and not (v.t or "").rstrip().endswith(("&", "*")) and not v.static:
                    uses.setdefault(v.did, [])
        elif n.k == "DeclRefExpr" and n.x.get("did") in uses:
            uses[n.x["did"]].append(n)
    for did, u in sorted(uses.items()):
        outs = []
        for n in u:
            c = n.p
            if c is not None and is_call(c) and (c.x.get("cn") or "").startswith("visr::"):
                a = call_args(c)
                k = next((i for i, x in enumerate(a) if x is n), None)
                pt = (c.x.get("pt") or [])
                if k is not None and k < len(pt) and pt[k].endswith("&") and "const" not in pt[k]:
                    outs.append((n, c))
                    continue
            outs = []
            break
        rep.count("local results of bound functions")
        if len(outs) == 1 and len(u) == 1:
            n, c = outs[0]
            rep.violation("result-dropped", where, n.l, "the result that %s stores in a local variable is never used"
                          % short(c.x.get("cn") or ""), "result-dropped|%s" % where, f.file)


def base_names(prog, cls):
    r = next((x for x in prog.records.values() if x.name == cls), None)
    out = []
    for x in (r.bases if r is not None else ()):
        nm = x if isinstance(x, str) else getattr(x, "name", None) or getattr(x, "n", None)
        if nm:
            out += [nm] + base_names(prog, nm)
    return out


def pair(rep, prog, b, where, g, s):
    rep.count("properties with a setter")
    r, _ = fields_of(prog, g[1])
    _, w = fields_of(prog, s[1])
    if g[1] not in prog.funcs or s[1] not in prog.funcs:
        return
    if g[1] == s[1]:
        rep.violation("setter-without-effect", where, b.node.l, "assigning the property calls its getter",
                      "setter-without-effect|%s" % where, b.fn.file)
        return
    rep.sample("%s: reads %s, writes %s" % (where, sorted(x.split("::")[-1] for x in r), sorted(x.split("::")[-1] for x in w)))
    if r and w and not compatible(r, w):
        rep.violation("property-reads-other-attribute", where, b.node.l,
                      "the getter reads %s but the setter writes %s" % (", ".join(sorted(x.split("::")[-1] for x in r)),
                                                                        ", ".join(sorted(x.split("::")[-1] for x in w))),
                      "property-reads-other-attribute|%s" % where, b.fn.file)


def compatible(r, w):
    if r & w:
        return True
    strip = lambda x: x.split("[")[0]
    # an indexed element against the whole container
    for a in r:
        for c in w:
            if strip(a) == strip(c) and ("[" not in a or "[" not in c):
                return True
    return False


def order(rep, b, where, names, params, target):
    if len(names) > len(params):
        return
    # keyword names belong to the parameters in order; names may differ from the C++ names, but not swap them
    pn = [norm(p[1]) for p in params]
    for i, j in pyround.exchanged([s for s, _a in names], [(p[1], p[2]) for p in params]):
        rep.violation("argument-name-of-other-parameter", where, names[i][1].l or b.node.l, "the keywords %s and %s denote the parameters %s and %s"
                      % (names[i][0], names[j][0], params[i][1], params[j][1]), "argument-name-of-other-parameter|%s|%s" % (where, names[i][0]), b.fn.file)
    for k, (s, a) in enumerate(names):
        rep.count("named arguments")
        if s is None:
            continue
        t = norm(s)
        if not pn[k] or t == pn[k]:
            continue
        if t in pn and norm(names[pn.index(t)][0] if pn.index(t) < len(names) else "") in pn:
            rep.violation("argument-name-of-other-parameter", where, a.l or b.node.l,
                          "the keyword %s denotes parameter %d (%s) although the function has a parameter of that name at position %d"
                          % (s, k + 1, params[k][1], pn.index(t) + 1),
                          "argument-name-of-other-parameter|%s|%s" % (where, s), b.fn.file)


def keep(rep, prog, b, where, target, off, params):
    ka = [a.t for a in b.args if "keep_alive<" in (a.t or "")]
    for k, p in enumerate(params):
        if not object_param(p[2]):
            continue
        s = stores(prog, target, p[0])
        if not s:
            continue
        rep.count("arguments that are kept")
        nth = k + 2 if b.cls else k + 1
        if not any("keep_alive<1, %d>" % nth in t or "keep_alive<1,%d>" % nth in t for t in ka):
            rep.violation("argument-not-kept-alive", where, b.node.l,
                          "the object keeps a reference to its argument %s (%s), which Python may release before the object" % (p[1], s),
                          "argument-not-kept-alive|%s|%s" % (where, p[1]), b.fn.file)
