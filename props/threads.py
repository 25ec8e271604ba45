"""Threads: shared state under its lock, asynchronous network operations, life time of the worker threads."""
import re

from .common import *
from vsa import extract
from vsa.sim import Client, Engine, Frame
from vsa.model import is_call, call_base, call_args, short

GUARD = re.compile(r"(?:^|[ :])(?:lock_guard|unique_lock|scoped_lock|shared_lock|strict_lock)<")
MUTEX = re.compile(r"(?:^|[ :<])(?:[a-z_]*mutex)\b")
THREAD = re.compile(r"(?:^|[ :<])(?:boost|std)::thread\b")
STABLE = ("std::deque", "std::list", "std::forward_list", "std::map", "std::set", "std::unordered_map", "std::multimap")
APPEND = ("push_back", "emplace_back", "push", "emplace")
REMOVE = ("pop_front", "pop_back", "erase", "clear", "pop", "swap", "resize", "assign")
THREADSAFE = ("boost::asio::io_service", "boost::asio::io_context", "boost::asio::execution_context")
PROFILED = ["librrl/audio_signal_flow.cpp", "librrl/runtime_profiler.cpp"]

NONMUT = set("size empty at front back begin end cbegin cend rbegin rend data get find count c_str str length capacity "
             "operator* operator-> operator bool operator[] owns_lock joinable row numberOfRows numberOfColumns max_size "
             "get_io_service get_executor is_open local_endpoint".split())


def programs():
    """The libraries as they are built, and the engine with run-time profiling compiled in."""
    a = program(["librcl", "librrl", "libaudiointerfaces"])
    fs = [os.path.join(extract.SRC, f) for f in PROFILED]
    fs = [f for f in fs if os.path.exists(f)]
    if not fs:
        raise Broken("sources of the rendering engine not found")
    b = model.Program(extract.extract(fs, extra=["-DVISR_RRL_RUNTIME_SYSTEM_PROFILING=1"]))
    return [("default", a), ("profiling", b)]


def bare(t):
    return (t or "").replace("const ", "").replace(" const", "").strip(" &*")


def method_refs(f):
    """Methods whose address is taken in f (bind expressions, callback registrations) and lambdas created in it."""
    for n in f.body.walk() if f.body is not None else ():
        if n.k == "UnaryOperator" and n.x.get("op") == "&" and n.c and n.c[0].k == "DeclRefExpr" and \
                n.c[0].x.get("dk") == "CXXMethod":
            yield n, n.c[0].x["q"]


def handed_over(prog, cls):
    """{method name} handed to another thread or to the asynchronous I/O service by methods of the class."""
    out = {}
    for f in prog.funcs.values():
        if f.cls != cls or f.body is None:
            continue
        for n, q in method_refs(f):
            if q.startswith(cls + "::"):
                out.setdefault(q, (f, n))
    return out


def lambda_handlers(prog, cls):
    """Lambdas passed to thread constructors and asynchronous operations."""
    out = []
    for f in prog.funcs.values():
        if f.cls != cls or f.body is None:
            continue
        for n in f.body.walk():
            tgt = (is_call(n) and short(n.x.get("cn") or "").startswith("async_")) or \
                (n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXNewExpr") and THREAD.search(n.t or ""))
            if not tgt:
                continue
            for m in n.walk():
                if m.k == "LambdaExpr" and m.x.get("lambda"):
                    g = prog.funcs.get(m.x["lambda"])
                    if g is not None and all(g is not x[0] for x in out):
                        out.append((g, f))
    return out


class Access(object):
    __slots__ = ("field", "write", "ops", "locks", "entry", "fr", "node", "asyncside", "facts")

    def __init__(self, field, write, ops, locks, entry, fr, node, asyncside, facts):
        self.facts = facts
        self.field, self.write, self.ops, self.locks = field, write, ops, locks
        self.entry, self.fr, self.node, self.asyncside = entry, fr, node, asyncside


def use_of(n):
    """(is a write, operation) of the field access n: how the expression it is part of uses it."""
    m = n
    while m.p is not None:
        p = m.p
        i = p.c.index(m) if m in p.c else -1
        if p.k in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups"):
            m = p
            continue
        if p.k == "MemberExpr":
            if p.x.get("mk") == "field":
                m = p
                continue
            m = p                       # base of a method call: judged at the call
            continue
        if p.k == "CXXOperatorCallExpr":
            op = p.x.get("op")
            if i == 1 and op in ("*", "->", "[]"):
                m = p
                continue
            if i == 1 and op in ("=", "+=", "-=", "<<", "++", "--", "|=", "&="):
                return (True, "operator" + op)
            return (False, "")
        if p.k == "ArraySubscriptExpr" and i == 0:
            m = p
            continue
        if p.k == "UnaryOperator":
            op = p.x.get("op") or ""
            if op.startswith(("++", "--")):
                return (True, op)
            if op in ("*", "&"):
                m = p
                continue
            return (False, "")
        if p.k in ("BinaryOperator",) and p.x.get("op") == "=" and i == 0:
            return (True, "=")
        if p.k == "CompoundAssignOperator" and i == 0:
            return (True, p.x.get("op"))
        if p.k == "CXXMemberCallExpr":
            if i == 0:
                s = short(p.x.get("cn") or "")
                if p.x.get("mconst") or s in NONMUT:
                    if s in ("front", "back", "at", "get", "row", "data", "begin", "find"):
                        m = p
                        continue
                    return (False, s)
                return (True, s)
        if is_call(p) or p.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            args = call_args(p) if is_call(p) else p.c
            for j, a in enumerate(args):
                if a is m:
                    pt = p.x.get("pt") or []
                    t = pt[j] if j < len(pt) else ""
                    if (t.endswith("&") or t.endswith("*")) and not t.startswith("const ") and " const &" not in t and \
                            " const *" not in t and not t.endswith("&&"):
                        if short(p.x.get("cn") or "") in ("buffer", "bind", "ref"):
                            return (False, "")
                        return (True, "passed to " + short(p.x.get("cn") or "?"))
            return (False, "")
        return (False, "")
    return (False, "")


class Locks(Client):
    exceptional_exits = True

    def __init__(self, prog, rep, classes, entry, asyncside, out):
        self.prog, self.rep, self.classes = prog, rep, classes
        self.entry, self.asyncside, self.out = entry, asyncside, out
        self.seen = set()
        self.threads = None             # in a destructor: the members that hold the worker thread

    def relevant(self, fn):
        return fn.cls in self.classes and fn.body is not None

    # -- locks -----------------------------------------------------------------------------------------------------
    def mkey(self, eng, fr, e):
        p = eng.path(fr, e)
        if p is None:
            return None
        return p.rstrip("[]").rsplit(".", 1)[-1]

    def held(self, st):
        return frozenset(k.rstrip("~") for _g, k in st.c if _g[0] not in ("D", "J"))

    def protecting(self, st, write):
        """Locks that protect an access: a lock held for sharing protects reading only."""
        return frozenset(k.rstrip("~") for _g, k in st.c if _g[0] not in ("D", "J") and not (write and k.endswith("~")))

    def acquire(self, fr, st, n, g, k):
        if k.rstrip("~") in self.held(st):
            self.rep.violation("lock-acquired-twice", self.entry, n.l,
                               "acquires %s while already holding it: %s" % (k, fr.describe()),
                               "lock-acquired-twice|%s|%s|%s" % (self.entry, fr.fn.name, k), fr.fn.file)
        self.rep.count("lock acquisitions")
        return st.client(st.c | {(g, k)})

    def after(self, eng, fr, st, n):
        if n.k != "DeclStmt":
            return None
        for v in n.x["vars"]:
            if not GUARD.search(v.t or "") or v.init is None:
                continue
            args = [a for a in v.init.c]
            if v.init.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
                args = [v.init]
            if not args:
                continue
            if args[0].k == "InitListExpr":
                args = args[0].c
            k = self.mkey(eng, fr, args[0])
            if k is None:
                continue
            if re.search(r"(?:^|[ :])shared_lock<", v.t or ""):
                k += "~"
            opt = " ".join((a.t or "") for a in args[1:])
            g = (fr.depth, v.did)
            if "try_to_lock" in opt:
                st = st.client(st.c | {(("D", "T") + g, k)})
                continue
            if "defer_lock" in opt or "adopt_lock" in opt and k not in self.held(st):
                st = st.client(st.c | {(("D",) + g, k)})
                continue
            if "adopt_lock" in opt:
                st = st.client(frozenset(x for x in st.c if x[1] != k) | {(g, k)})
                continue
            st = self.acquire(fr, st, n, g, k)
        return st

    def call(self, eng, fr, st, n, callees):
        s = short(n.x.get("cn") or "")
        if s in ("owns_lock", "operator bool", "operator!"):
            b = call_base(n) if n.k == "CXXMemberCallExpr" else n.c[1] if n.k == "CXXOperatorCallExpr" and len(n.c) > 1 else None
            if b is not None and GUARD.search(bare(b.t)):
                d = b
                while d.k != "DeclRefExpr" and d.c:
                    d = d.c[0]
                g = (fr.depth, d.x.get("did"))
                pos = s != "operator!"
                for gg, k in sorted(st.c, key=str):
                    if gg[-2:] == g:
                        if gg[:2] == ("D", "T"):
                            rest = frozenset(x for x in st.c if x[0][-2:] != g)
                            return [(self.acquire(fr, st.client(rest), n, g, k), pos),
                                    (st.client(rest | {(("D",) + g, k)}), not pos)]
                        return [(st, (gg[0] != "D") == pos)]
        if n.k == "CXXMemberCallExpr" and s in ("lock", "unlock", "try_lock", "try_lock_for", "lock_shared", "unlock_shared"):
            b = call_base(n)
            t = bare(b.t) if b is not None else ""
            if GUARD.search(t):
                d = b
                while d.k != "DeclRefExpr" and d.c:
                    d = d.c[0]
                g = (fr.depth, d.x.get("did"))
                ks = [k for gg, k in st.c if gg[-2:] == g]
                k = ks[0] if ks else None
                if k is None:
                    return [(st, None)]
                rest = frozenset(x for x in st.c if x[0][-2:] != g)
                if s == "unlock":
                    return [(st.client(rest | {(("D",) + g, k)}), None)]
                if s == "lock":
                    return [(self.acquire(fr, st.client(rest), n, g, k), None)]
                return [(self.acquire(fr, st.client(rest), n, g, k), True), (st, False)]
            if MUTEX.search(" " + t):
                k = self.mkey(eng, fr, b)
                if k is None:
                    return None
                if s.startswith("unlock"):
                    return [(st.client(frozenset(x for x in st.c if x[1].rstrip("~") != k)), None)]
                if s.endswith("_shared"):
                    k += "~"
                if s.startswith("try"):
                    return [(self.acquire(fr, st, n, ("X", k), k), True), (st, False)]
                return [(self.acquire(fr, st, n, ("X", k), k), None)]
        if s in ("poll", "poll_one", "run", "run_one", "run_for") and n.k == "CXXMemberCallExpr":
            b = call_base(n)
            if b is not None and any(x in bare(b.t) for x in THREADSAFE):
                self.out.append(("dispatch", self.held(st), self.entry, fr, n))
        if s.startswith("async_") and not self.asyncside:
            self.out.append(("start", self.facts(st), self.entry, fr, n))
        if s == "join" and n.k == "CXXMemberCallExpr":
            self.out.append(("join", self.held(st), self.entry, fr, n))
            return [(st.client(st.c | {(("J",), "")}), None)]
        return None

    def dtor(self, eng, fr, st, did, ty):
        c = frozenset(x for x in st.c if x[0][-2:] != (fr.depth, did))
        return st if c == st.c else st.client(c)

    # -- accesses --------------------------------------------------------------------------------------------------
    def element(self, eng, fr, st, n):
        for m in self.fieldrefs(fr, n):
            self.note(eng, fr, st, m)
        return None

    def fieldrefs(self, fr, n):
        stack = [n]
        while stack:
            m = stack.pop()
            if m.k == "LambdaExpr":
                continue
            if m.k == "DeclStmt":
                for v in m.x["vars"]:
                    if v.init is not None:
                        stack.append(v.init)
                continue
            yield m
            stack.extend(m.c)

    def note(self, eng, fr, st, m):
        if m.k == "MemberExpr" and m.x.get("mk") == "field":
            q = m.x.get("q") or ""
            cls, _, name = q.rpartition("::")
            if cls not in self.classes:
                return
            w, op = use_of(m)
        elif m.k == "DeclRefExpr" and m.x.get("did") is not None:
            al = eng.alias(fr.fn, m.x["did"])
            if al is None:
                return
            if m.p is not None and m.p.k == "DeclStmt":
                return
            f = None
            for d in al.walk():
                if d.k == "MemberExpr" and d.x.get("mk") == "field" and (d.x.get("q") or "").rpartition("::")[0] in self.classes:
                    f = d
            if f is None:
                return
            cls, _, name = f.x["q"].rpartition("::")
            w, op = use_of(m)
            if not w:
                # a reference to an element: reading it needs no more than the element's own stability
                return
        else:
            return
        facts = self.facts(st)
        if self.threads is not None and ((("J",), "") in st.c or any(known_null(st, t) for t in self.threads)):
            return                          # during destruction, with the thread ended or never started
        locks = self.protecting(st, w)
        key = (cls + "::" + name, w, op, locks, fr.fn.id, m.i, facts)
        if key in self.seen:
            return
        self.seen.add(key)
        self.out.append(("access", Access(cls + "::" + name, w, op, locks, self.entry, fr, m, self.asyncside, facts)))

    @staticmethod
    def facts(st):
        """What the path knows about members of the object (its operating mode, for instance)."""
        return frozenset((k, v) for k, v in st.env if isinstance(k, str) and k.startswith("this.") and "." not in k[5:]
                         and isinstance(v, (int, bool)))


def mutex_classes(prog):
    """Classes whose methods acquire a lock, with the lock field (or the method naming it)."""
    out = set()
    for f in prog.funcs.values():
        if f.body is None or not f.cls:
            continue
        for n in f.body.walk():
            if n.k == "DeclStmt" and any(GUARD.search(v.t or "") for v in n.x["vars"]):
                out.add(f.cls)
            if n.k == "CXXMemberCallExpr" and short(n.x.get("cn") or "") == "lock":
                b = call_base(n)
                if b is not None and MUTEX.search(" " + bare(b.t)):
                    out.add(f.cls)
    for r in prog.records.values():
        if any(MUTEX.search(" " + bare(f.t)) for f in r.fields) and r.name.startswith("visr::"):
            out.add(r.name)
    return {c for c in out if c.startswith("visr::")}


def field_decl(prog, q):
    cls, _, name = q.rpartition("::")
    r = prog.records.get(cls)
    for f in (r.fields if r is not None else ()):
        if f.n == name:
            return f
    return None


def compatible(a, b, fixed):
    d = dict(b)
    return all(k not in fixed or k not in d or d[k] == v for k, v in a)


_fixed = {}


def fixed_fields(prog, cls):
    """Access paths of the members that only constructors and destructors modify."""
    key = (id(prog), cls)
    if key not in _fixed:
        r = prog.records.get(cls)
        names = {f.n for f in (r.fields if r is not None else ())}
        for f in prog.funcs.values():
            if f.body is None or f.sp in ("ctor", "dtor"):
                continue
            for m in f.body.walk():
                if m.k == "MemberExpr" and (m.x.get("q") or "").rpartition("::")[0] == cls and use_of(m)[0]:
                    names.discard(m.x["m"])
        _fixed[key] = {"this." + n for n in names}
    return _fixed[key]


class Starts(Client):
    def __init__(self, cls, out):
        self.cls, self.out = cls, out

    def relevant(self, fn):
        return fn.cls == self.cls

    def call(self, eng, fr, st, n, callees):
        if short(n.x.get("cn") or "").startswith("async_"):
            self.out.append(Locks.facts(st))
        return None


def ctor_starts(prog, cls):
    """Facts under which constructors start asynchronous operations."""
    out = []
    for f in prog.funcs.values():
        if f.cls == cls and f.sp == "ctor" and f.blocks:
            Engine(prog, Starts(cls, out)).run(f, frozenset())
    return out


def analyse(rep, tag, prog, done):
    classes = mutex_classes(prog)
    rep.count("classes with a lock [%s]" % tag, len(classes))
    events = []
    for cls in sorted(classes):
        handed = handed_over(prog, cls)
        lams = lambda_handlers(prog, cls)
        lamids = {g.id for g, _f in lams}
        r = prog.records.get(cls)
        threads = ["this." + f.n for f in (r.fields if r is not None else ()) if THREAD.search(" " + f.t)]
        entries = []
        for f in sorted(prog.funcs.values(), key=lambda f: (f.name, f.id)):
            if f.cls != cls or not f.blocks or f.sp == "ctor" or f.implicit:
                continue
            if f.sp == "dtor":
                if threads and not f.implicit:
                    entries.append((f, False))
            elif f.name in handed:
                entries.append((f, True))
            elif f.id in lamids:
                entries.append((f, True))
            elif f.acc == 0:
                entries.append((f, False))
        for f, asy in entries:
            out = []
            cl = Locks(prog, rep, classes, f.name, asy, out)
            cl.threads = threads if f.sp == "dtor" else None
            eng = Engine(prog, cl)
            res = eng.run(f, frozenset())
            rep.count("entry points [%s]" % tag)
            for kind, st, _v, rn in res:
                left = sorted({k for g, k in st.c if g[0] == "X"})
                for k in left:
                    rep.violation("lock-not-released", f.name, f.line,
                                  "a path leaves the function %swith %s still locked" %
                                  ("by an exception " if kind == "throw" else "", k),
                                  "lock-not-released|%s|%s" % (f.name, k), f.file)
            events += [(cls, e) for e in out]
    # private methods of one monitor class called by another one run on the caller's (audio) side
    acc = {}
    for cls, e in events:
        if e[0] == "access":
            a = e[1]
            own = a.field.rpartition("::")[0]
            if own != cls:
                a.asyncside = True          # reached through the class that drives the processing
            acc.setdefault(a.field, []).append(a)
    asyncfuncs = {a.fr.fn.id for l in acc.values() for a in l if a.asyncside}
    for field, l in sorted(acc.items()):
        d = field_decl(prog, field)
        t = bare(d.t) if d is not None else ""
        if d is not None and d.t.rstrip().endswith(("&", "*")):
            # the object belongs to somebody else: only rebinding the pointer counts
            l = [a for a in l if not a.write or a.ops == "="]
        if d is None or "atomic" in t or MUTEX.search(" " + t) or any(x in t for x in THREADSAFE):
            continue
        owner = field.rpartition("::")[0]
        owner = field.rpartition("::")[0]
        starts = [e[1] for c, e in events if c == owner and e[0] == "start"] + ctor_starts(prog, owner)
        if starts:
            # accesses in an operating mode in which nothing runs concurrently
            l = [a for a in l if a.asyncside or any(compatible(a.facts, s, fixed_fields(prog, owner)) for s in starts)]
        writes = [a for a in l if a.write]
        if not writes:
            continue
        both = any(a.asyncside for a in l) and any(not a.asyncside for a in l)
        hasasync = any(a.asyncside for c, e in events if e[0] == "access" and e[1].field.rpartition("::")[0] == owner
                       for a in [e[1]])
        # a class without an asynchronous side of its own: fields some method protects must be protected everywhere
        guarded = any(a.locks for a in l)
        if not (both or (not hasasync and guarded)):
            continue
        rep.count("shared fields [%s]" % tag)
        common = None
        for a in l:
            common = a.locks if common is None else common & a.locks
        rep.sample("%s: %d accesses from %s, common lock %s" %
                   (field, len(l), sorted({short(a.entry) for a in l}), sorted(common) or "none"))
        rep.count("accesses to shared fields", len(l))
        if common:
            continue
        bad = [a for a in l if not a.locks]
        if not bad:
            bad = l
        for a in bad:
            k = "unprotected-access|%s|%s" % (field, a.fr.fn.name)
            if k in done:
                continue
            done.add(k)
            rep.violation("unprotected-access", a.fr.fn.name, a.node.l,
                          "%s %s without the lock that protects it; it is also used by %s (entry %s)" %
                          ("modifies" if a.write else "reads", field,
                           ", ".join(sorted({short(b.entry) for b in l if b.entry != a.entry}) or {"another thread"}), a.entry),
                          k, a.fr.fn.file)
    # dispatching or waiting while holding a lock
    hl = set()
    for cls, e in events:
        if e[0] == "access" and e[1].asyncside:
            hl |= e[1].locks
    for cls, e in events:
        if e[0] in ("dispatch", "join"):
            rep.count("dispatch and join calls")
            if e[1] & hl:
                rep.violation("blocks-under-lock", e[2], e[4].l,
                              "calls %s while holding %s, which the asynchronous handlers acquire" %
                              (short(e[4].x.get("cn") or ""), ", ".join(sorted(e[1] & hl))),
                              "blocks-under-lock|%s" % e[2], e[3].fn.file)
    return events


def component_execution(rep, prog, tag):
    """All processing of components and the time step of the flow happen inside the parameter exchange lock."""
    from vsa.sim import reaching
    ATOM = "visr::AtomicComponent"

    def is_step(n):
        if n.k != "CXXMemberCallExpr":
            return False
        s = short(n.x.get("cn") or "")
        return (s == "process" and (n.x.get("cc") or "") == ATOM) or s == "advanceBlockCounter"
    rel = reaching(prog, is_step)
    cls = "visr::rrl::AudioSignalFlow"

    class Ex(Locks):
        def relevant(self, fn):
            return fn.id in rel and fn.cls == cls

        def element(self, eng, fr, st, n):
            return None

        def call(self, eng, fr, st, n, callees):
            if is_step(n):
                rep.count("component execution sites [%s]" % tag)
                if not self.held(st):
                    rep.violation("execution-outside-lock", fr.fn.name, n.l,
                                  "%s runs without the parameter exchange lock: %s" % (short(n.x["cn"]), fr.describe()),
                                  "execution-outside-lock|%s|%s" % (fr.fn.name, short(n.x["cn"])), fr.fn.file)
            return Locks.call(self, eng, fr, st, n, callees)
    n0 = 0
    for f in sorted(prog.funcs.values(), key=lambda f: f.name):
        if f.cls == cls and f.id in rel and f.blocks and f.acc == 0 and f.sp not in ("ctor", "dtor"):
            Engine(prog, Ex(prog, rep, {cls}, f.name, False, [])).run(f, frozenset())
            n0 += 1
    rep.count("entry points executing components", n0)


def check(rep):
    done = set()
    for tag, prog in programs():
        analyse(rep, tag, prog, done)
        component_execution(rep, prog, tag)
    rep.need("lock acquisitions", 5)
    rep.need("entry points executing components", 2)


# ---------------------------------------------------------------------------------------------------------------------
# Asynchronous network operations

CONT = re.compile(r"^std::(deque|list|vector|queue)<")


def completion_of(prog, n):
    """Function that runs when the asynchronous operation n completes."""
    for a in call_args(n):
        for m in a.walk():
            if m.k == "UnaryOperator" and m.x.get("op") == "&" and m.c and m.c[0].k == "DeclRefExpr" and \
                    m.c[0].x.get("dk") == "CXXMethod":
                fs = [f for f in prog.funcs.values() if f.name == m.c[0].x["q"] and f.body is not None]
                if fs:
                    return fs[0]
            if m.k == "LambdaExpr" and m.x.get("lambda"):
                return prog.funcs.get(m.x["lambda"])
    return None


def async_ops(prog):
    """[(function, call)] of the asynchronous operations of the program."""
    out = []
    for f in prog.funcs.values():
        if f.body is None or not f.name.startswith("visr::"):
            continue
        for n in f.body.walk():
            if is_call(n) and short(n.x.get("cn") or "").startswith("async_") and \
                    (n.x.get("cn") or "").startswith("boost::asio"):
                out.append((f, n))
    return sorted(out, key=lambda x: (x[0].name, x[1].i))


def buffer_expr(n):
    for a in call_args(n):
        for m in a.walk():
            if is_call(m) and short(m.x.get("cn") or "") == "buffer":
                return m
    a = call_args(n)
    return a[0] if a else None


def inside_async(m):
    while m is not None:
        if is_call(m) and short(m.x.get("cn") or "").startswith("async_"):
            return True
        m = m.p
    return False


def check_async(rep):
    from . import netmsg
    prog = program(["librcl", "librrl", "libaudiointerfaces"])
    ops = async_ops(prog)
    per = {}
    for f, n in ops:
        cls = f.cls or (f.name.rpartition("::")[0])
        per.setdefault(cls, []).append((f, n))
    for cls, l in sorted(per.items()):
        rep.count("classes with asynchronous operations")
        r = prog.records.get(cls)
        handlers = {}
        kinds = set()
        bufs = set()
        for f, n in l:
            rep.count("asynchronous operations")
            h = completion_of(prog, n)
            if h is None:
                rep.violation("no-completion-handler", f.name, n.l, "asynchronous operation without a completion handler of the class",
                              "no-completion-handler|%s" % f.name, f.file)
                continue
            handlers[h.id] = h
            kinds.add("receive" if ("receive" in n.x["cn"] or "read" in short(n.x["cn"])) else "send")
        for kind in sorted(kinds):
            conts = [x for x in (r.fields if r is not None else ()) if CONT.match(bare(x.t)) and "StringParameter" in x.t
                     or CONT.match(bare(x.t)) and "string" in x.t]
            cont = conts[0] if len(conts) == 1 else None
            rep.count("message containers", 1 if cont is not None else 0)
            # storage the operation works on
            for f, n in l:
                be = buffer_expr(n)
                eng = Engine(prog, Client())
                fr = Frame(f, "this", {})
                arg = call_args(be)[0] if is_call(be) and call_args(be) else be
                base = arg
                for _i in range(3):
                    d = base
                    while d.k != "DeclRefExpr" and len(d.c) == 1 and not is_call(d):
                        d = d.c[0]
                    if d.k == "DeclRefExpr" and "*" in (d.t or "") and eng.local_init(f, d.x.get("did")) is not None:
                        base = eng.local_init(f, d.x["did"])
                while is_call(base) and call_base(base) is not None:
                    base = call_base(base)
                p = eng.path(fr, base)
                for m in be.walk():
                    if m.k == "MemberExpr" and m.x.get("mk") == "field":
                        bufs.add(m.x["q"])
                if p is None or not p.startswith("this."):
                    rep.violation("buffer-not-owned", f.name, n.l,
                                  "the data handed to %s do not belong to the object: they may be gone when the operation is executed" %
                                  short(n.x["cn"]), "buffer-not-owned|%s|%s" % (f.name, short(n.x["cn"])), f.file)
                elif cont is not None and p.startswith("this." + cont.n):
                    rep.count("sends from the message container")
                    src = [m for m in (eng.alias(f, base.x["did"]).walk() if base.k == "DeclRefExpr" and
                                       eng.alias(f, base.x["did"]) is not None else be.walk())
                           if is_call(m) and call_base(m) is not None and eng.path(fr, call_base(m)) == "this." + cont.n]
                    if any(short(m.x["cn"]) in ("back", "rbegin") for m in src):
                        rep.violation("order-not-kept", f.name, n.l, "the newest message is sent before older ones",
                                      "order-not-kept|%s" % f.name, f.file)
                    if not bare(cont.t).startswith(STABLE):
                        rep.violation("unstable-message-storage", f.name, n.l,
                                      "messages being sent are stored in %s, which moves its elements when a message is added" %
                                      cont.t.split("<")[0], "unstable-message-storage|%s::%s" % (cls, cont.n), f.file)
            netmsg.machine(rep, prog, cls, kind, cont, bufs, handlers)
    cstring(rep)
    rep.need("classes with asynchronous operations", 2)
    rep.need("functions examined", 5)


def cstring(rep):
    """Message texts are copied with their length: never rebuilt from the C string of a text that may contain NULs."""
    prog = program(["librcl", "librrl", "libpml", "libaudiointerfaces"])
    for f in sorted(prog.funcs.values(), key=lambda f: f.name):
        if f.body is None or not f.name.startswith("visr::"):
            continue
        for n in f.body.walk():
            if n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or not n.c:
                continue
            t = bare(n.x.get("cc") or n.t)
            if "StringParameter" not in t:
                continue
            rep.count("message texts constructed")
            e = n
            while e is not None and e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and e.c:
                pt = e.x.get("pt") or []
                if pt and "char *" in pt[0] and len(pt) > 1 and "allocator" not in pt[1]:
                    e = None            # constructed with an explicit length
                    break
                e = e.c[0]
            if e is None:
                continue
            if e.k == "DeclRefExpr":
                for b in f.body.walk():
                    if b.k == "DeclStmt":
                        for v in b.x["vars"]:
                            if v.did == e.x.get("did") and v.init is not None and "char *" in v.t:
                                e = v.init
            while e is not None and e.k == "ImplicitCastExpr" and e.c:
                e = e.c[0]
            if e is not None and is_call(e) and short(e.x.get("cn") or "") in ("str", "c_str", "data") and \
                    "StringParameter" in (call_base(e).t if call_base(e) is not None else ""):
                rep.violation("text-through-c-string", f.name, n.l,
                              "a message is copied through its C string: everything after an embedded NUL is lost",
                              "text-through-c-string|%s" % f.name, f.file)


# ---------------------------------------------------------------------------------------------------------------------
# Life time of threads, callbacks and the objects they use

C_START = {"Pa_OpenStream": ("Pa_CloseStream", "Pa_Terminate"), "jack_client_open": ("jack_client_close",),
           "Pa_Initialize": ("Pa_Terminate",)}
# Pa_Terminate() closes all streams that are still open


class Life(Client):
    """State: set of facts: 'joined', 'stopped', 'started', C library calls done."""
    exceptional_exits = True

    def __init__(self, prog, rep, cls, threads, services):
        self.prog, self.rep, self.cls, self.threads, self.services = prog, rep, cls, threads, services

    used = frozenset()              # members the worker thread uses

    def relevant(self, fn):
        return fn.cls == self.cls or (self.cls.startswith(fn.cls + "::") if fn.cls else False)

    def element(self, eng, fr, st, n):
        """Destruction: nothing the running thread uses is taken away before it has ended."""
        if not self.used or any("joined:" + t in st.c or known_null(st, "this." + t) for t in self.threads):
            return None
        if not (is_call(n) or n.k == "BinaryOperator"):
            return None
        for m in n.walk():
            if m.k == "MemberExpr" and m.x.get("mk") == "field" and m.x.get("m") in self.used and \
                    (m.x.get("q") or "").rpartition("::")[0] == self.cls:
                w, op = use_of(m)
                if w and op in ("reset", "release", "swap", "clear", "=", "operator=", "move"):
                    self.rep.violation("destroyed-before-join", fr.fn.name, m.l,
                                       "%s, which the worker thread uses, is taken away before the thread has ended" % m.x["m"],
                                       "destroyed-before-join|%s|%s" % (self.cls, m.x["m"]), fr.fn.file)
        return None

    def root(self, eng, fr, e):
        p = eng.path(fr, e) if e is not None else None
        if p is None or not p.startswith("this."):
            return None
        return p[5:].split(".")[0].split("[")[0]

    def call(self, eng, fr, st, n, callees):
        s = short(n.x.get("cn") or "")
        b = call_base(n) if n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") else None
        if s in C_START or any(s in v for v in C_START.values()):
            return [(st.client(st.c | {s}), None)]
        if b is None:
            return None
        f = self.root(eng, fr, b)
        if f in self.threads:
            if s in ("join", "timed_join", "try_join_for"):
                if self.services and not all("stopped:" + y in st.c or known_null(st, "this." + y) for y in self.services):
                    self.rep.violation("join-before-stop", fr.fn.name, n.l,
                                       "waits for the worker thread without having told it to stop: %s" % fr.describe(),
                                       "join-before-stop|%s" % self.cls, fr.fn.file)
                return [(st.client(st.c | {"joined:" + f}), None)]
            if s == "detach":
                self.rep.violation("thread-detached", fr.fn.name, n.l,
                                   "the worker thread is detached: it may use the object after its destruction",
                                   "thread-detached|%s" % self.cls, fr.fn.file)
                return None
            if s == "joinable":
                return [(st, True), (st.set("this." + f, False), False)]
            if (s in ("reset",) and call_args(n)) or (s == "operator=" or n.x.get("op") == "="):
                self.rep.count("thread starts")
                return [(st.client(st.c | {"started:" + f}), None)]
            if s in ("reset", "release") and "joined:" + f not in st.c and fr.fn.sp == "dtor":
                return [(st.client(st.c | {"dropped:" + f}), None)]
        if s in ("stop", "reset", "operator="):
            # the service object may be named through the raw pointer as well
            t = bare(b.t)
            if s == "stop" and ("io_context" in t or "io_service" in t or "io_context" in (n.x.get("cc") or "")):
                return [(st.client(st.c | {"stopped:" + x for x in self.services}), None)]
            if f in self.services and s == "reset" and not call_args(n):
                return [(st.client(st.c | {"destroyed:" + f}), None)]
        return None

    def init(self, eng, fr, st, name):
        return st


def check_life(rep):
    prog = program(["librcl", "librrl", "libaudiointerfaces"])
    for f in sorted(prog.funcs.values(), key=lambda f: (f.name, f.id)):
        if f.body is None or not f.name.startswith("visr::"):
            continue
        for n in f.body.walk():
            if n.k == "CXXMemberCallExpr" and short(n.x.get("cn") or "") == "detach" and \
                    THREAD.search(" " + bare(n.x.get("cc") or "")):
                b = call_base(n)
                while b is not None and not (b.k == "MemberExpr" and b.x.get("mk") == "field") and b.c and \
                        b.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr"):
                    b = b.c[1] if b.k == "CXXOperatorCallExpr" and len(b.c) > 1 else b.c[0]
                own = b is not None and b.k == "MemberExpr"
                if not own:
                    rep.violation("thread-detached", f.name, n.l, "a thread is detached: it may use objects after their destruction",
                                  "thread-detached|%s" % f.name, f.file)
    # worker threads
    for r in sorted(prog.records.values(), key=lambda r: r.name):
        if not r.name.startswith("visr::"):
            continue
        th = [f for f in r.fields if THREAD.search(" " + f.t)]
        if not th:
            continue
        rep.count("classes owning a thread")
        services = [f for f in r.fields if any(x in f.t for x in ("io_service", "io_context")) and
                    ("unique_ptr" in f.t or "shared_ptr" in f.t or not f.t.rstrip().endswith(("*", "&"))) and
                    "work" not in f.t and "work" not in f.t.split("io_")[-1]]
        names = [f.n for f in th]
        snames = [f.n for f in services]
        order = [f.n for f in r.fields]
        # destruction
        ds = [f for f in prog.funcs.values() if f.cls == r.name and f.sp == "dtor"]
        d = next((f for f in ds if f.blocks and not f.implicit and not f.defaulted), None)
        if d is None:
            rep.violation("thread-not-joined", r.name, r.line if hasattr(r, "line") else 0,
                          "the class owns a thread but its destructor does not wait for it",
                          "thread-not-joined|%s" % r.name, getattr(r, "file", ""))
        else:
            cl = Life(prog, rep, r.name, names, snames)
            hs = set(handed_over(prog, r.name)) | {g.name for g, _f in lambda_handlers(prog, r.name)}
            cl.used = frozenset(m.x["m"] for f in prog.funcs.values() if f.name in hs and f.body is not None for m in f.body.walk()
                                if m.k == "MemberExpr" and m.x.get("mk") == "field" and
                                (m.x.get("q") or "").rpartition("::")[0] == r.name) | frozenset(snames)
            rep.count("members used by worker threads", len(cl.used))
            for k, st, _v, rn in Engine(prog, cl).run(d, frozenset()):
                rep.count("destructor exit states")
                for t in names:
                    if "joined:" + t not in st.c and not known_null(st, "this." + t):
                        rep.violation("thread-not-joined", d.name, d.line,
                                      "a path through the destructor does not wait for the worker thread %s" % t,
                                      "thread-not-joined|%s" % r.name, d.file)
        # construction
        for c in sorted((f for f in prog.funcs.values() if f.cls == r.name and f.sp == "ctor" and f.blocks), key=lambda f: f.id):
            cl = Life(prog, rep, r.name, names, snames)
            for k, st, _v, rn in Engine(prog, cl).run(c, frozenset()):
                rep.count("constructor exit states")
                if k == "throw" and any(x.startswith("started:") for x in st.c) and not any(x.startswith("joined:") for x in st.c):
                    n = c.nodes.get(rn) if isinstance(rn, int) else None
                    rep.violation("throws-with-running-thread", c.name, n.l if n is not None else c.line,
                                  "the constructor can fail after the worker thread has been started: the thread keeps using the "
                                  "object that is being destroyed", "throws-with-running-thread|%s" % r.name, c.file)
            order_of_start(rep, prog, r, c, names)
        # members constructed from another member
        deps = dependents(prog, r, snames)
        for a, b in sorted(deps):
            rep.count("dependent members")
            if order.index(a) < order.index(b):
                rep.violation("destroyed-too-early", r.name, getattr(r, "line", 0),
                              "%s refers to %s but is destroyed after it" % (a, b),
                              "destroyed-too-early|%s|%s|%s" % (r.name, a, b), getattr(r, "file", ""))
    # callbacks registered with C libraries
    for r in sorted(prog.records.values(), key=lambda r: r.name):
        if not r.name.startswith("visr::"):
            continue
        fs = [f for f in prog.funcs.values() if f.cls == r.name and f.body is not None]
        opened = set()
        for f in fs:
            for n in f.body.walk():
                if is_call(n) and short(n.x.get("cn") or "") in C_START:
                    opened.add(short(n.x["cn"]))
        if not opened:
            continue
        rep.count("classes registering callbacks with an audio library")
        d = next((f for f in fs if f.sp == "dtor" and f.blocks and not f.implicit), None)
        for o in sorted(opened):
            rep.count("audio library resources")
            want = C_START[o]
            if d is None:
                rep.violation("callback-not-removed", r.name, 0, "no destructor closes what %s opened" % o,
                              "callback-not-removed|%s|%s" % (r.name, o), "")
                continue
            cl = Life(prog, rep, r.name, [], [])
            for k, st, _v, rn in Engine(prog, cl).run(d, frozenset()):
                if k != "ret":
                    continue
                if not any(w in st.c for w in want) and not any(known_null(st, "this." + f.n) for f in r.fields
                                                                if f.t.rstrip().endswith("*")):
                    rep.violation("callback-not-removed", d.name, d.line,
                                  "a path through the destructor does not call %s: the audio library keeps calling into the "
                                  "destroyed object" % "/".join(want), "callback-not-removed|%s|%s" % (r.name, o), d.file)
    rep.need("classes owning a thread", 2)
    rep.need("classes registering callbacks with an audio library", 2)


def known_null(st, p):
    return any(k in (p, p + ".get()", p + ".joinable()") and v is False for k, v in st.env if isinstance(k, str))


def dependents(prog, r, snames):
    """(member, member it was constructed with) pairs: the constructor argument refers to the other member."""
    out = set()
    eng = Engine(prog, Client())
    names = {f.n for f in r.fields}
    for c in prog.funcs.values():
        if c.cls != r.name or c.body is None:
            continue
        fr = Frame(c, "this", {})
        raw = {}
        for n in c.body.walk():
            if n.k == "BinaryOperator" and n.x.get("op") == "=":
                a, b = eng.path(fr, n.c[0]), eng.path(fr, n.c[1])
                if a and b and a.startswith("this.") and b.startswith("this."):
                    raw[a[5:]] = b[5:]
        for n in c.body.walk():
            if n.k == "CXXMemberCallExpr" and short(n.x.get("cn") or "") == "reset" and call_args(n):
                m = eng.path(fr, call_base(n))
                if m is None or not m.startswith("this."):
                    continue
                m = m[5:]
                for x in call_args(n)[0].walk():
                    if x.k == "CXXConstructExpr" and "asio" in (x.x.get("cc") or x.t) and x.c:
                        for y in x.c:
                            p = eng.path(fr, y)
                            if p and p.startswith("this."):
                                q = raw.get(p[5:], p[5:])
                                if q in snames and m in names and m != q:
                                    out.add((m, q))
    return out


def order_of_start(rep, prog, r, c, names):
    """Nothing the handlers use is set up after the thread has been started."""
    start = None
    nodes = list(c.body.walk()) if c.body is not None else []
    for n in nodes:
        if n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr") and call_base(n) is not None:
            b = call_base(n)
            hit = [m for m in b.walk() if m.k == "MemberExpr" and m.x.get("m") in names]
            if hit and (short(n.x.get("cn") or "") == "reset" and call_args(n) or n.x.get("op") == "="):
                start = n
    if start is None:
        return
    inside = set(id(x) for x in start.walk())
    for n in nodes:
        if n.i <= start.i or id(n) in inside:
            continue
        if n.k == "MemberExpr" and n.x.get("mk") == "field" and (n.x.get("q") or "").rpartition("::")[0] == r.name and \
                use_of(n)[0] and n.x.get("m") not in names:
            rep.violation("set-up-after-start", c.name, n.l,
                          "%s is set up after the worker thread has been started" % n.x["m"],
                          "set-up-after-start|%s|%s" % (r.name, n.x["m"]), c.file)
