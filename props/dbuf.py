"""Double-buffered parameter connections: change flags are honoured, updates are published."""
from .common import *
from vsa.sim import Client, Engine, reaching
from vsa.model import is_call, call_base, call_args, short

LIBS = ["librcl", "libpanningdsp", "libreverbobject", "libsignalflows"]
ATOM = "visr::AtomicComponent"
IN = "DoubleBufferingProtocol::Input"
OUT = "DoubleBufferingProtocol::Output"
SHOUT = "SharedDataProtocol::Output"


def in_call(n):
    return n.k == "CXXMemberCallExpr" and IN in (n.x.get("cc") or "") and \
        short(n.x.get("cn") or "") in ("changed", "resetChanged", "data")


def out_call(n):
    return n.k == "CXXMemberCallExpr" and OUT in (n.x.get("cc") or "") and \
        short(n.x.get("cn") or "") in ("data", "swapBuffers")


def cget(c, p, d="-"):
    for q, s in c:
        if q == p:
            return s
    return d


def cput(c, p, s):
    return frozenset([x for x in c if x[0] != p] + [(p, s)])


def root_of(fr):
    while fr.caller is not None:
        fr = fr.caller
    return fr


class Flags(Client):
    """Per input: '-' untouched, 'd' data read (flag not tested), 'T' flag seen set, 'D' set and data read,
    'F' flag seen clear, 'Z' reset although unread, 'R' reset after/before reading."""

    def __init__(self, prog, rep, rel):
        self.prog = prog
        self.rep = rep
        self.rel = rel
        self.read = set()

    def relevant(self, fn):
        return fn.id in self.rel and "BufferingProtocol" not in fn.name

    def call(self, eng, fr, st, n, callees):
        if not in_call(n):
            return None
        p = eng.path(fr, call_base(n))
        if p is None:
            return None
        self.rep.count("operations evaluated")
        op = short(n.x["cn"])
        c = st.c
        s = cget(c, p)
        if op == "changed":
            if s in ("T", "D"):
                return [(st, True)]
            if s == "F":
                return [(st, False)]
            if s in ("R", "Z"):
                r = root_of(fr)
                self.rep.violation("tested-after-reset", r.fn.name, n.l,
                                   "the change flag of input %s is tested after it was reset in the same execution: the test can "
                                   "never succeed and the update is not acted upon (at %s)" % (p, fr.fn.loc(n)),
                                   "tested-after-reset|%s|%s" % (r.fn.name, p), fr.fn.file)
                return [(st, False)]
            return [(st.client(cput(c, p, "D" if s == "d" else "T")), True), (st.client(cput(c, p, "F")), False)]
        if op == "data":
            self.read.add(p)
            nxt = {"-": "d", "T": "D", "Z": "R"}.get(s, s)
            return [(st.client(cput(c, p, nxt)), None)]
        if op == "resetChanged":
            nxt = {"-": "Z", "T": "Z", "F": "F"}.get(s, "R")
            return [(st.client(cput(c, p, nxt)), None)]
        return None


class Publish(Client):
    """Per output: set of flags; 'W' written and not yet published.  Stale references: locals bound to the
    write buffer before a publish."""

    def __init__(self, prog, rep, rel):
        self.prog = prog
        self.rep = rep
        self.rel = rel
        self.written = set()

    def relevant(self, fn):
        return fn.id in self.rel and "BufferingProtocol" not in fn.name

    def path_of_call(self, eng, fr, n):
        if out_call(n) and short(n.x["cn"]) == "data":
            p = eng.path(fr, call_base(n))
            return None if p is None else p + "#data"
        return None

    def call(self, eng, fr, st, n, callees):
        if out_call(n):
            p = eng.path(fr, call_base(n))
            if p is None:
                return None
            self.rep.count("operations evaluated")
            if short(n.x["cn"]) == "swapBuffers":
                if cget(st.c, p) in ("-", "S"):
                    r = root_of(fr)
                    self.rep.violation("published-unwritten", r.fn.name, n.l,
                                       "output %s is published on a path that did not provide new data: receivers are handed an outdated buffer (at %s)" % (
                                           p, fr.fn.loc(n)), "published-unwritten|%s|%s" % (r.fn.name, p), fr.fn.file)
                c = cput(st.c, p, "S")
                # every local reference to the write buffer is stale from here on
                c = frozenset([(q, "stale") if q.startswith("&") and s == p else (q, s) for q, s in c])
                return [(st.client(c), None)]
            if cget(st.c, p) in ("-", "S"):
                st = st.client(cput(st.c, p, "A"))
            return [(st, None)]
        return None

    # -- writes through the reference
    def element(self, eng, fr, st, n):
        if n.k == "DeclStmt":
            c = st.c
            for v in n.x["vars"]:
                if v.init is not None and v.t.rstrip().endswith(("&", "*")):
                    p = eng.path(fr, v.init)
                    if p is not None and p.endswith("#data") and out_of(v.init) is not None:
                        c = cput(c, "&%d" % v.did, p[:-5])
            return st.client(c)
        return None

    def after(self, eng, fr, st, n):
        for e in written_exprs(n):
            p = eng.path(fr, e)
            if p is None or "#data" not in p:
                continue
            port = p[:p.index("#data")]
            did = root_did(e)
            c = st.c
            if did is not None and cget(c, "&%d" % did) == "stale":
                r = root_of(fr)
                self.rep.violation("write-after-publish", r.fn.name, n.l,
                                   "data of output %s is modified through a reference obtained before it was published; the "
                                   "modification goes to the already published buffer (at %s)" % (port, fr.fn.loc(n)),
                                   "write-after-publish|%s|%s" % (r.fn.name, port), fr.fn.file)
            self.written.add(port)
            st = st.client(cput(c, port, "W"))
        return st


def out_of(e):
    """The output data() call an alias initialiser directly denotes."""
    while e is not None:
        if is_call(e) and out_call(e):
            return e
        if e.k in ("UnaryOperator", "CXXStaticCastExpr") and e.c:
            e = e.c[0]
            continue
        return None


def root_did(e):
    while e is not None:
        if e.k == "DeclRefExpr":
            return e.x.get("did")
        if e.k == "MemberExpr":
            e = e.c[0] if e.c else None
        elif e.k in ("ArraySubscriptExpr", "UnaryOperator"):
            e = e.c[0]
        elif e.k == "CXXOperatorCallExpr":
            e = e.c[1] if len(e.c) > 1 else None
        elif is_call(e):
            e = call_base(e)
        elif e.k.endswith("CastExpr") and e.c:
            e = e.c[0]
        else:
            return None
    return None


def written_exprs(n):
    """Lvalue expressions this element may modify."""
    k = n.k
    if k in ("BinaryOperator", "CompoundAssignOperator") and n.x["op"] in ("=", "+=", "-=", "*=", "/=", "|=", "&="):
        yield n.c[0]
    elif k == "UnaryOperator" and n.x["op"] in ("++", "--", "++post", "--post"):
        yield n.c[0]
    elif k == "CXXOperatorCallExpr":
        if n.x["op"] in ("=", "+=", "-=", "*=", "/="):
            yield n.c[1]
    if is_call(n) or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        if n.k == "CXXMemberCallExpr" and not n.x.get("mconst") and not n.x.get("mstatic"):
            b = call_base(n)
            # accessors that only hand out a reference are judged where the reference is written
            if b is not None and short(n.x.get("cn") or "") not in ("begin", "end", "at", "data", "row", "size", "operator()",
                                                                  "operator[]", "get", "front", "back", "find"):
                yield b
        args = call_args(n)
        if n.k == "CXXOperatorCallExpr" and n.x.get("cc"):
            args = args[1:]
        for t, a in zip(n.x.get("pt") or (), args):
            if (t.endswith("&") and not t.endswith("&&") or t.endswith("*")) and not t.startswith("const "):
                yield a


def process_roots(prog, rel):
    fs = [f for f in prog.funcs.values() if f.cls and short(f.name) == "process" and not f.params and f.blocks
          and prog.is_derived(f.cls, ATOM)]
    return sorted([f for f in fs if f.id in rel], key=lambda f: f.name)


def check_flags(rep):
    prog = program(LIBS)
    rel = reaching(prog, in_call)
    for f in process_roots(prog, rel):
        rep.count("process functions")
        cl = Flags(prog, rep, rel)
        eng = Engine(prog, cl)
        res = eng.run(f, frozenset())
        ports = {}
        for kind, st, _v, rn in res:
            if kind != "ret":
                continue
            n = f.nodes.get(rn) if rn is not None else None
            line = n.l if n is not None else f.line
            for p, s in st.c:
                ports.setdefault(p, set()).add(s)
                if s in ("T", "D"):
                    rep.violation("not-acknowledged", f.name, line,
                                  "a path leaves process() with the change flag of input %s seen set %s but not reset: the same update "
                                  "is taken again in every period" % (p, "and processed" if s == "D" else ""),
                                  "not-acknowledged|%s|%s" % (f.name, p), f.file)
                elif s == "Z":
                    rep.violation("lost-update", f.name, line,
                                  "a path resets the change flag of input %s without reading the new value: the update is lost" % p,
                                  "lost-update|%s|%s" % (f.name, p), f.file)
        for p, ss in sorted(ports.items()):
            for kind, st, _v, rn in res:
                if kind != "ret":
                    continue
                n = f.nodes.get(rn) if rn is not None else None
                line = n.l if n is not None else f.line
                s = cget(st.c, p)
                if s == "-" and st.get(p) is not False:
                    rep.violation("ignored-on-a-path", f.name, line,
                                  "a path through process() never looks at input %s: a change signalled there is not applied in this period" % p,
                                  "ignored-on-a-path|%s|%s" % (f.name, p), f.file)
                elif s == "d" and ss & {"R", "Z"}:
                    rep.violation("not-acknowledged", f.name, line, "a path leaves process() with the change of input %s processed, but not reset" % p,
                                  "not-acknowledged|%s|%s" % (f.name, p), f.file)
        # a port that is consulted must be consumed somewhere
        for p in ports:
            if p not in cl.read:
                rep.violation("never-read", f.name, f.line, "the value of input %s is never read" % p,
                              "never-read|%s|%s" % (f.name, p), f.file)
        rep.count("inputs", len(ports))
        rep.count("paths explored", eng.steps)
        rep.sample("%s: %s" % (f.name, ", ".join("%s:%s" % (k, "/".join(sorted(v))) for k, v in sorted(ports.items()))))
        # declared but never touched inputs
        r = prog.records.get(f.cls)
        for fl in (r.fields if r else ()):
            if "ParameterInput<visr::pml::DoubleBufferingProtocol" in fl.t:
                rep.count("declared inputs")
                if not any(q == "this." + fl.n or q.startswith("this." + fl.n) for q in ports):
                    rep.violation("never-read", f.name, fl.l, "parameter input %s is never consulted by process()" % fl.n,
                                  "never-read|%s|this.%s" % (f.name, fl.n), r.file)
    rep.need("process functions", 10)
    rep.need("inputs", 14)


def check_publish(rep):
    prog = program(LIBS)
    rel = reaching(prog, out_call)
    # functions that receive the write buffer by reference matter too: follow every call that passes it
    for f in process_roots(prog, rel):
        rep.count("process functions")
        cl = Publish(prog, rep, rel)
        eng = Engine(prog, cl)
        res = eng.run(f, frozenset())
        ports = {}
        for kind, st, _v, rn in res:
            if kind != "ret":
                continue
            n = f.nodes.get(rn) if rn is not None else None
            line = n.l if n is not None else f.line
            for p, s in st.c:
                if p.startswith("&"):
                    continue
                ports.setdefault(p, set()).add(s)
                if s == "W":
                    rep.violation("not-published", f.name, line,
                                  "a path leaves process() with output %s modified but not published: receivers keep the old value" % p,
                                  "not-published|%s|%s" % (f.name, p), f.file)
        for p, ss in ports.items():
            if p not in cl.written:
                rep.violation("published-unwritten", f.name, f.line, "output %s is published but never written" % p,
                              "published-unwritten|%s|%s" % (f.name, p), f.file)
        rep.count("outputs", len(ports))
        rep.count("paths explored", eng.steps)
        rep.sample("%s: %s" % (f.name, ", ".join("%s:%s" % (k, "/".join(sorted(v))) for k, v in sorted(ports.items()))))
        r = prog.records.get(f.cls)
        for fl in (r.fields if r else ()):
            if "ParameterOutput<visr::pml::DoubleBufferingProtocol" in fl.t:
                rep.count("declared outputs")
                if not any(q.startswith("this." + fl.n) for q in ports):
                    rep.violation("never-published", f.name, fl.l, "parameter output %s is never published by process()" % fl.n,
                                  "never-published|%s|this.%s" % (f.name, fl.n), r.file)
    rep.need("process functions", 5)
    rep.need("outputs", 10)
