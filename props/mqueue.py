"""Message inputs: every queued message is looked at exactly once, consumed, and the queue drained in the same period."""
from .common import *
from vsa.effects import Effects
from vsa.sim import Client, Engine, reaching
from vsa.loops import domain, size_of
from vsa.term import Terms
from vsa.model import is_call, call_base, short

LIBS = ["librcl", "libpanningdsp", "libreverbobject", "libsignalflows"]
OPS = ("empty", "size", "front", "pop", "clear")
ATOM = "visr::AtomicComponent"


def is_port_call(n):
    return n.k == "CXXMemberCallExpr" and "MessageQueueProtocol::Input" in (n.x.get("cc") or "") and \
        short(n.x.get("cn") or "") in OPS


def is_port_type(t):
    return "ParameterInput<visr::pml::MessageQueueProtocol" in t


class MQ(Client):
    exceptional_exits = True

    def __init__(self, prog, rep, rel, E):
        self.E = E
        self.T = Terms(prog)
        self.prog = prog
        self.rep = rep
        self.rel = rel

    def relevant(self, fn):
        return fn.id in self.rel and not fn.name.startswith("visr::pml::MessageQueueProtocol")

    def throwing(self, eng, fr, st, n, tt):
        """Calls nothing is known to fail in (memory exhaustion aside) are followed into handlers only."""
        c = frozenset(x for x in st.c if x[0] != "?")
        if tt is None and not any(own for g in self.prog.callees(n) for _t, own in self.E.esc.get(g.id, ())):
            c |= {("?", "?", None)}
        return st.client(c)

    @staticmethod
    def get(c, p):
        for q, s, f in c:
            if q == p:
                return s, f
        return ("-", None)

    @staticmethod
    def put(c, p, s, f=None):
        return frozenset([x for x in c if x[0] != p] + [(p, s, f)])

    def viol(self, fr, n, rule, what, p):
        root = fr
        while root.caller is not None:
            root = root.caller
        self.rep.violation(rule, root.fn.name, n.l if n is not None else root.fn.line,
                           "%s (input %s; at %s in %s)" % (what, p, fr.fn.loc(n), fr.fn.name),
                           "%s|%s|%s" % (rule, root.fn.name, p), fr.fn.file)

    def call(self, eng, fr, st, n, callees):
        if not is_port_call(n):
            return None
        p = eng.path(fr, call_base(n))
        if p is None:
            return None
        self.rep.count("operations evaluated")
        op = short(n.x["cn"])
        c = st.c
        s, f = self.get(c, p)
        base = s.rstrip("~")
        rel = s.endswith("~")          # counted with size(): emptiness is tracked by a counter the rule does not follow
        r = "~" if rel else ""
        if op == "empty":
            if base in ("N", "X"):
                return [(st, False)]
            if base == "E":
                return [(st, True)]
            return [(st.client(self.put(c, p, "E" + r)), True), (st.client(self.put(c, p, "N" + r)), False)]
        if op == "size":
            if base in ("-", "U"):
                st = st.client(self.put(c, p, "U~"))
            return [(st, ("size", p))]
        if op == "front":
            if base in ("-", "U", "E") and not rel:
                self.viol(fr, n, "front-on-possibly-empty", "message read although the queue may be empty", p)
            ident = fr.chain + (n.i,)
            if base == "X" and f == ident:
                self.viol(fr, n, "processed-twice", "same message is processed again: no pop between two reads", p)
            return [(st.client(self.put(c, p, "X" + r, f if base == "X" and f is not None and f != ident else ident)), None)]
        if op == "pop":
            if base in ("-", "U", "E") and not rel:
                self.viol(fr, n, "pop-on-possibly-empty", "pop although the queue may be empty", p)
            elif base != "X":
                self.viol(fr, n, "discarded-unread", "message removed from the queue without having been read", p)
            if rel:
                self.counted(fr, n, p)
            return [(st.client(self.put(c, p, "U" + r)), None)]
        if op == "clear":
            if base != "E":
                self.viol(fr, n, "discarded-unread", "queue cleared with possibly unread messages", p)
            return [(st.client(self.put(c, p, "E")), None)]
        return None

    def counted(self, fr, n, p):
        """A loop that counts the messages with size() instead of asking for emptiness has to visit all of them."""
        l = n.p
        while l is not None and l.k not in ("ForStmt", "WhileStmt"):
            l = l.p
        d = domain(self.T, fr, l) if l is not None else None
        if d is not None and d.kind == "index":
            gap = d.gap
            if gap is None and size_of(d.what) is None and d.what[0] == "op" and any(size_of(t) is not None for t in d.what[2:] if isinstance(t, tuple)):
                gap = "does not count to the number of messages"
            if gap:
                self.viol(fr, n, "not-drained", "the loop over the pending messages " + gap, p)

    def compare(self, eng, fr, st, op, a, b, node):
        # size() against a constant
        if isinstance(b, tuple) and not isinstance(a, tuple):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if not (isinstance(a, tuple) and a[0] == "size" and isinstance(b, int)):
            return None
        nonempty = {(">", 0): True, (">=", 1): True, ("!=", 0): True, ("==", 0): False, ("<", 1): False, ("<=", 0): False}
        t = nonempty.get((op, int(b)))
        if t is None:
            return None
        return self._size(st, a[1], t)

    def _size(self, st, p, t):
        s, f = self.get(st.c, p)
        base = s.rstrip("~")
        if base in ("N", "X"):
            return [(st, t)]
        if base == "E":
            return [(st, not t)]
        return [(st.client(self.put(st.c, p, "N")), t), (st.client(self.put(st.c, p, "E")), not t)]

    def truth(self, eng, fr, st, val, node):
        if val[0] == "size":
            return self._size(st, val[1], True)
        return None


def ports_of(prog, cls):
    """Message-input members of a component class (searched in its fields and in its Impl)."""
    out = []
    r = prog.records.get(cls)
    if r is None:
        return out
    for f in r.fields:
        if is_port_type(f.t):
            out.append(f)
    return out


def configured(prog, f, e):
    """The limit is an attribute that the user of the component chooses (a constructor or setup function sets it from a parameter)."""
    ds = [d for d in e.walk() if d.k in ("DeclRefExpr", "MemberExpr")]
    names = set(d.x.get("q") for d in ds if d.k == "MemberExpr")
    for d in ds:                          # a local copy of the attribute
        for v in (v for n in f.body.walk() if n.k == "DeclStmt" for v in n.x["vars"]):
            if d.k == "DeclRefExpr" and v.did == d.x.get("did") and v.init is not None:
                names |= set(m.x.get("q") for m in v.init.walk() if m.k == "MemberExpr")
    for q in names:
        for g in prog.funcs.values():
            if g.cls != f.cls or not g.params:
                continue
            for i in g.inits or ():
                if i.get("m") and i["m"].split("::")[-1] == (q or "").split("::")[-1] and i.get("e") is not None and \
                        any(m.k == "DeclRefExpr" and m.x.get("did") in [a[0] for a in g.params] for m in i["e"].walk()):
                    return True
            for n in g.body.walk() if g.body is not None else ():
                if n.k == "BinaryOperator" and n.x["op"] == "=" and n.c[0].k == "MemberExpr" and n.c[0].x.get("q") == q and \
                        any(m.k == "DeclRefExpr" and m.x.get("did") in [a[0] for a in g.params] for m in n.c[1].walk()):
                    return True
    return False


def budgeted(prog, eng):
    """True if a message loop is left because of a per-period limit: the loop that pops counts its iterations and
    compares the counter."""
    for fid in eng.funcs_seen:
        f = prog.funcs[fid]
        if f.body is None:
            continue
        for loop in f.body.walk():
            if loop.k not in ("WhileStmt", "ForStmt", "DoStmt"):
                continue
            nodes = list(loop.walk())
            if not any(is_port_call(n) and short(n.x["cn"]) == "pop" for n in nodes):
                continue
            inc = set()
            for n in nodes:
                t = None
                if n.k == "UnaryOperator" and n.x["op"].startswith(("++", "--")):
                    t = n.c[0]
                elif n.k == "CompoundAssignOperator" and n.x["op"] in ("+=", "-="):
                    t = n.c[0]
                if t is not None and t.k in ("DeclRefExpr", "MemberExpr"):
                    inc.add(t.x.get("q"))
            for n in nodes:
                if n.k == "BinaryOperator" and n.x["op"] in ("<", ">", "<=", ">=", "==", "!="):
                    for i, c in enumerate(n.c):
                        if any(d.k in ("DeclRefExpr", "MemberExpr") and d.x.get("q") in inc for d in c.walk()) and configured(prog, f, n.c[1 - i]):
                            return True
    return False


def check(rep):
    prog = program(LIBS)
    rel = reaching(prog, is_port_call)
    E = Effects(prog)
    roots = [f for f in prog.funcs.values() if f.cls and short(f.name) == "process" and not f.params and f.blocks
             and prog.is_derived(f.cls, ATOM)]
    roots = [f for f in roots if f.id in rel]
    for f in sorted(roots, key=lambda f: f.name):
        rep.count("process functions")
        cl = MQ(prog, rep, rel, E)
        eng = Engine(prog, cl)
        res = eng.run(f, frozenset())
        ports = {}
        for kind, st, _v, rn in res:
            if kind != "ret":
                n = f.nodes.get(rn) if rn is not None else None
                rep.count("exceptional exits")
                if any(p == "?" for p, s, fnode in st.c):
                    continue
                for p, s, fnode in st.c:
                    if s.rstrip("~") == "X":
                        rep.violation("stuck", f.name, n.l if n is not None else f.line,
                                      "an error raised for a message leaves it in the queue: it is handled again in every later period (input %s)" % p,
                                      "stuck|%s|%s" % (f.name, p), f.file)
                continue
            rep.count("exit states")
            for p, s, fnode in st.c:
                if p == "?":
                    continue
                ports.setdefault(p, set()).add(s)
                b = s.rstrip("~")
                n = f.nodes.get(rn) if rn is not None else None
                line = n.l if n is not None else f.line
                if b == "X":
                    rep.violation("not-consumed", f.name, line,
                                  "a path leaves process() with a message read but not removed from the queue (input %s)" % p,
                                  "not-consumed|%s|%s" % (f.name, p), f.file)
                elif b == "N":
                    rep.violation("left-unprocessed", f.name, line,
                                  "a path leaves process() although a message is known to be waiting (input %s)" % p,
                                  "left-unprocessed|%s|%s" % (f.name, p), f.file)
                elif b == "U" and not s.endswith("~") and not budgeted(prog, eng):
                    rep.violation("not-drained", f.name, line,
                                  "a path leaves process() after one message without checking for more (input %s)" % p,
                                  "not-drained|%s|%s" % (f.name, p), f.file)
        # paths that never look at a connected input although others do
        for p in ports:
            for kind, st, _v, rn in res:
                if kind != "ret":
                    continue
                if all(q != p for q, _s, _f in st.c) and st.get(p) is not False:
                    rep.violation("ignored-on-a-path", f.name, f.line,
                                  "a path through process() never looks at message input %s" % p,
                                  "ignored-on-a-path|%s|%s" % (f.name, p), f.file)
        rep.count("message inputs", len(ports))
        rep.count("paths explored", eng.steps)
        rep.sample("%s: inputs %s" % (f.name, ", ".join("%s exits in %s" % (k, "/".join(sorted(v))) for k, v in sorted(ports.items()))))
    rep.need("process functions", 6)
    rep.need("message inputs", 8)
