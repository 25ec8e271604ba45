"""Semantics of the communication protocols: FIFO queues, atomic publication, exclusive and symmetric connection."""
import re
from .common import *
from vsa.sim import Client, Engine
from vsa.model import is_call, call_base, call_args, short

LIBS = ["libpml", "librcl"]
MQ = "visr::pml::MessageQueueProtocol"
DB = "visr::pml::DoubleBufferingProtocol"
SD = "visr::pml::SharedDataProtocol"
PUSH = {"push_front": "front", "emplace_front": "front", "push_back": "back", "emplace_back": "back", "push": "back", "emplace": "back"}
POP = {"pop_front": "front", "pop_back": "back", "pop": "front"}
READ = {"front": "front", "back": "back"}


def inproto(f):
    return f.file.startswith("src/libpml/") and "_protocol" in f.file


# ---------------------------------------------------------------------------------------------- queue
class Queue(Client):
    """Events on the queue container: client state is a tuple of events, plus emptiness."""
    exceptional_exits = True

    def __init__(self, qfield):
        self.q = qfield

    def relevant(self, fn):
        return inproto(fn)

    def isq(self, p):
        return p is not None and (p == "this." + self.q or p.endswith("." + self.q))

    def ev(self, st, e, **kw):
        c = dict(st.c)
        evs = c.get("ev", ())
        if len(evs) < 4:
            evs += (e,)
        c["ev"] = evs
        c.update(kw)
        return st.client(frozenset(c.items()))

    def call(self, eng, fr, st, n, callees):
        b = call_base(n)
        s = short(n.x.get("cn") or "")
        cn = n.x.get("cn") or ""
        if n.k == "CXXOperatorCallExpr" and n.x.get("op") == "=" and b is not None and self.isq(eng.path(fr, b)) and fresh(n.c[2]):
            return [(self.ev(st, ("clear", "", fr.fn.loc(n)), empty=True), None)]
        if s == "swap" and cn.startswith("std::"):
            two = ([b] if n.k == "CXXMemberCallExpr" else []) + call_args(n)
            if len(two) == 2 and any(self.isq(eng.path(fr, x)) for x in two) and any(fresh(x) for x in two):
                return [(self.ev(st, ("clear", "", fr.fn.loc(n)), empty=True), None)]
        if n.k == "CXXOperatorCallExpr" and b is not None and self.isq(eng.path(fr, b)):
            return [(self.ev(st, ("other", "operator" + (n.x.get("op") or ""), fr.fn.loc(n))), None)]
        if n.k != "CXXMemberCallExpr" or b is None or not cn.startswith("std::"):
            # the queue handed to an algorithm as a whole
            for a in call_args(n) if cn.startswith("std::") else ():
                p = eng.path(fr, a)
                if self.isq(p) and not a.t.startswith("const "):
                    return [(self.ev(st, ("other", s, fr.fn.loc(n))), None)]
            return None
        p = eng.path(fr, b)
        if not self.isq(p):
            return None
        c = dict(st.c)
        if s == "empty":
            e = c.get("empty")
            if e is not None:
                return [(st, e)]
            return [(st.client(frozenset(dict(c, empty=v, q="empty").items())), v) for v in (True, False)]
        if s == "size":
            return [(st, ("size",))]
        if s in PUSH:
            return [(self.ev(st, ("push", PUSH[s], fr.fn.loc(n)), empty=False), None)]
        if s in POP:
            safe = c.get("empty") is False
            return [(self.ev(st, ("pop", POP[s], fr.fn.loc(n), safe), empty=None), None)]
        if s in READ:
            safe = c.get("empty") is False
            return [(self.ev(st, ("read", READ[s], fr.fn.loc(n), safe)), ("elem", READ[s]))]
        if s == "clear":
            return [(self.ev(st, ("clear", "", fr.fn.loc(n)), empty=True), None)]
        if n.x.get("mconst") or s in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "at"):
            return [(st, None)]
        return [(self.ev(st, ("other", s, fr.fn.loc(n))), None)]

    def compare(self, eng, fr, st, op, a, b, node):
        if not isinstance(a, tuple):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if a[0] == "size" and isinstance(b, int):
            c = dict(st.c)
            out = set()
            for v in sorted({0, 1, 2, 100, max(b - 1, 0), b, b + 1}):
                if c.get("empty") is not None and c["empty"] != (v == 0):
                    continue
                t = {"==": v == b, "!=": v != b, "<": v < b, ">": v > b, "<=": v <= b, ">=": v >= b}[op]
                out.add((st.client(frozenset(dict(c, empty=(v == 0)).items())), t))
            return list(out)
        return [(st, True), (st, False)]

    def truth(self, eng, fr, st, val, node):
        if val[0] == "size":
            return self.compare(eng, fr, st, "!=", val, 0, node)
        return None


def fresh(n):
    """A newly created, empty container."""
    while n.k in ("MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups", "CXXFunctionalCastExpr", "ImplicitCastExpr") and n.c:
        n = n.c[0]
    return n.k in ("CXXTemporaryObjectExpr", "CXXConstructExpr", "CXXScalarValueInitExpr", "InitListExpr") and not n.c


def role(f):
    s = short(f.name)
    if s == "enqueue":
        return "push"
    if s in ("nextElement", "front"):
        return "read"
    if s in ("popNextElement", "pop"):
        return "pop"
    if s in ("empty", "numberOfElements", "size"):
        return "query"
    if s == "clear":
        return "clear"
    return None


def check_queue(rep, prog):
    rec = prog.records.get(MQ)
    if rec is None:
        raise Broken("message queue protocol not found")
    qf = [f.n for f in rec.fields if re.match(r"std::(deque|list|queue|vector|forward_list)<std::(unique|shared)_ptr<", f.t)]
    if len(qf) != 1:
        raise Broken("queue member of the message queue protocol not found: %s" % [(f.n, f.t) for f in rec.fields])
    q = qf[0]
    ends = {"push": {}, "read": {}, "pop": {}}
    fns = [f for f in prog.funcs.values() if f.name.startswith(MQ + "::") and f.blocks and not f.lambda_ and f.body is not None]
    for f in sorted(fns, key=lambda x: x.id):
        cl = Queue(q)
        eng = Engine(prog, cl)
        res = eng.run(f, frozenset())
        r = role(f)
        if r:
            rep.count("queue operations")
        for kind, st, v, rn in res:
            rep.count("exit states")
            evs = dict(st.c).get("ev", ())
            mods = [e for e in evs if e[0] != "read"]

            def viol(rule, what, e=None):
                rep.violation(rule, f.name, f.line, "%s: %s%s" % (f.name[len("visr::pml::"):], what, " at " + e[2] if e else ""),
                              "%s|%s" % (rule, re.sub(r"<.*>", "", f.name)), f.file)
            for e in evs:
                if e[0] in ends:
                    ends[e[0]].setdefault(e[1], (f, e[2]))
                if e[0] in ("read", "pop") and not e[3]:
                    viol("unguarded-access", "the queue is accessed without being known to be non-empty", e)
            if r is None:
                if mods:
                    viol("unexpected-modification", "modifies the message queue", mods[0])
            elif r == "push":
                if kind == "ret" and [e[0] for e in mods] != ["push"]:
                    viol("message-lost" if not mods else "unexpected-modification",
                         "a message is not added exactly once (%s)" % ([e[:2] for e in mods],), mods[0] if mods else None)
                if kind == "throw" and mods:
                    viol("unexpected-modification", "fails after modifying the queue", mods[0])
            elif r == "read":
                if mods:
                    viol("unexpected-modification", "reading a message modifies the queue", mods[0])
                if kind == "ret" and not evs:
                    viol("wrong-message", "returns without having read the queue")
            elif r == "pop":
                if kind == "ret" and [e[0] for e in mods] != ["pop"]:
                    viol("not-removed", "does not remove exactly one message (%s)" % ([e[:2] for e in mods],), mods[0] if mods else None)
                if kind == "throw" and mods:
                    viol("unexpected-modification", "fails after modifying the queue", mods[0])
            elif r == "query":
                if mods:
                    viol("unexpected-modification", "a query modifies the queue", mods[0])
                em = dict(st.c).get("q")
                if kind == "ret" and f.ret == "bool" and isinstance(v, tuple) and v != ("size",):
                    for st2, t in eng._truth_val(None, st, v, None) or [(st, None)]:
                        if t is None or t != (dict(st2.c).get("empty") is True):
                            viol("wrong-query", "does not report whether the queue is empty")
                            break
                elif kind == "ret" and f.ret == "bool":
                    if em is None and not (isinstance(v, tuple) and v[0] in ("cmp", "not")):
                        viol("wrong-query", "does not report the state of the queue")
                    elif em is not None and isinstance(v, bool) and v != dict(st.c).get("empty"):
                        viol("wrong-query", "reports %s although the queue is %sempty" % (v, "" if dict(st.c).get("empty") else "not "))
                elif kind == "ret" and v != ("size",):
                    viol("wrong-query", "does not report the number of messages")
            elif r == "clear":
                if kind == "ret" and ([e[0] for e in mods] != ["clear"] if all(e[0] == "clear" for e in mods) and mods else
                                      dict(st.c).get("empty") is not True or any(e[0] not in ("pop", "clear") for e in mods)):
                    viol("not-cleared", "does not clear the queue")
    for a in ends:
        if not ends[a]:
            raise Broken("no %s operation of the message queue recognised" % a)
        if len(ends[a]) > 1:
            x, y = sorted(ends[a].items())[:2]
            rep.violation("order", MQ, x[1][0].line, "%s operations use both ends of the queue (%s, %s)" % (a, x[1][1], y[1][1]),
                          "order|" + a, x[1][0].file)
    pe, re_, po = [sorted(ends[a])[0] for a in ("push", "read", "pop")]
    if re_ != po:
        rep.violation("order", MQ, ends["pop"][po][0].line, "messages are read from the %s but removed from the %s of the queue (%s, %s)" %
                      (re_, po, ends["read"][re_][1], ends["pop"][po][1]), "order|read-pop", ends["pop"][po][0].file)
    if pe == re_:
        rep.violation("order", MQ, ends["push"][pe][0].line, "messages are read from the end they are added to (%s, %s)" %
                      (ends["push"][pe][1], ends["read"][re_][1]), "order|push-read", ends["push"][pe][0].file)


# ---------------------------------------------------------------------------------------------- double buffering
class Buffers(Client):
    """Abstract heap: which buffer each smart pointer owns and what it contains."""
    loop_once = True

    def __init__(self, prog, inp, out, inputs):
        self.prog = prog
        self.inp = inp
        self.out = out
        self.inputs = inputs
        self.bad = []

    def relevant(self, fn):
        return inproto(fn)

    def get(self, st, k, d=None):
        return dict(st.c).get(k, d)

    def put(self, st, **kw):
        return st.client(frozenset(dict(dict(st.c), **kw).items()))

    def own(self, st, p, obj):
        c = dict(st.c)
        c[p] = obj
        return st.client(frozenset(c.items()))

    def tracked(self, st, p):
        return p is not None and p in dict(st.c)

    def call(self, eng, fr, st, n, callees):
        cn = n.x.get("cn") or ""
        s = short(cn)
        b = call_base(n)
        args = call_args(n)
        if n.k == "CXXMemberCallExpr" and b is not None:
            p = eng.path(fr, b)
            if self.tracked(st, p):
                if s == "swap" and cn.startswith("std::"):
                    q = eng.path(fr, args[0])
                    return [(self.swap(st, p, q), None)]
                if s == "reset" or s == "release":
                    return [(self.own(st, p, None), None)]
                if s == "assign":
                    q = eng.path(fr, args[0])
                    o, src = self.get(st, p), self.get(st, q)
                    return [(self.own(st, "content:" + str(o), self.get(st, "content:" + str(src))), None)]
            if s == "markChanged" or callees and all(self.sets_flag(f) for f in callees):
                if p and p.startswith(self.inputs + "[]"):
                    return [(self.own(st, "marked", True), None)]
        if n.k == "CXXMemberCallExpr" and s == "changed" and not args and b is not None:
            p = eng.path(fr, b)
            if p and p.startswith(self.inputs + "[]"):
                return [(self.own(st, "marked", True), True), (st, False)]      # already marked: nothing to do
        if s in ("swap", "iter_swap") and len(args) == 2 and cn.startswith("std::"):
            p, q = eng.path(fr, args[0]), eng.path(fr, args[1])
            if self.tracked(st, p) and self.tracked(st, q):
                return [(self.swap(st, p, q), None)]
        if n.k == "CXXOperatorCallExpr" and n.x.get("op") == "=":
            p, q = eng.path(fr, n.c[1]), eng.path(fr, n.c[2])
            if (self.tracked(st, p) or self.tracked(st, q)) and p is not None:
                o = self.get(st, q) if q else None
                st = self.own(st, p, o)
                if q and self.tracked(st, q):
                    st = self.own(st, q, None)
                return [(st, None)]
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.x.get("move") and len(n.c) == 1:
            q = eng.path(fr, n.c[0])
            if self.tracked(st, q):
                # the declared variable becomes the owner
                d = n.p
                while d is not None and d.k not in ("DeclStmt", "CompoundStmt"):
                    d = d.p
                if d is not None and d.k == "DeclStmt":
                    for v in d.x["vars"]:
                        if v.init is n or (v.init is not None and any(x is n for x in v.init.walk())):
                            o = self.get(st, q)
                            st = self.own(st, q, None)
                            st = self.own(st, "L%d" % v.did, o)
                return [(st, None)]
        # algorithms over the list of receivers
        if s in ("for_each",) and cn.startswith("std::") and len(args) == 3:
            if eng.path(fr, args[0]) == self.inputs + "[]":
                full = is_full(args[0], "begin") and is_full(args[1], "end")
                lam = eng._lambda_of(fr, args[2])
                if lam is not None and lam.blocks and full:
                    bind = {lam.params[0][0]: self.inputs + "[]"} if lam.params else {}
                    from vsa.sim import Frame
                    nf = Frame(lam, fr.this, bind, fr, fr.catching, fr.depth + 1, n, fr)
                    return [(s2, None) for k, s2, v, rn in eng._run(nf, st) if k == "ret"]
                if full and lam is None and any("markChanged" in (x.x.get("q") or "") for x in args[2].walk()):
                    return [(self.own(st, "marked", True), None)]     # member function reference
        return None

    def sets_flag(self, f):
        """A function whose only effect is to set a boolean member to true."""
        if f.body is None or f.params or len(f.body.c) != 1:
            return False
        a = f.body.c[0]
        return a.k == "BinaryOperator" and a.x["op"] == "=" and a.c[0].k == "MemberExpr" and a.c[1].x.get("cv") in ("1", "true") or \
            a.k == "BinaryOperator" and a.x["op"] == "=" and a.c[1].k == "CXXBoolLiteralExpr" and a.c[1].x["v"] == "1"

    def swap(self, st, p, q):
        c = dict(st.c)
        c[p], c[q] = c.get(q), c.get(p)
        return st.client(frozenset(c.items()))

    def element(self, eng, fr, st, n):
        # direct setting of the flag through a receiver
        if n.k == "BinaryOperator" and n.x["op"] == "=" and n.c[0].k == "MemberExpr" and n.c[0].t == "bool":
            p = eng.path(fr, n.c[0])
            if p and p.startswith(self.inputs + "[]") and eng.value(fr, st, n.c[1]) is True:
                return self.own(st, "marked", True)
        return None


def is_full(a, which):
    while a.k in ("CXXConstructExpr",) and len(a.c) == 1:
        a = a.c[0]
    return is_call(a) and short(a.x.get("cn") or "") in (which, "c" + which)


def check_buffers(rep, prog):
    rec = prog.records.get(DB)
    if rec is None:
        raise Broken("double buffering protocol not found")

    def data_path(cls, name):
        out = set()
        for f in prog.funcs.values():
            if re.sub(r"<.*>", "", f.name) == cls + "::" + name and f.body is not None and not f.lambda_ and \
                    (f.ret.endswith("&")):
                e = [n for n in f.body.walk() if n.k == "ReturnStmt" and n.c]
                eng = Engine(prog, Client())
                from vsa.sim import Frame
                for r in e:
                    p = eng.path(Frame(f, "this", {}), r.c[0])
                    out.add((p, f))
        return out
    ins = data_path(DB + "::InputBase", "data") | data_path(DB + "::Input", "data")
    outs = data_path(DB + "::OutputBase", "data") | data_path(DB + "::Output", "data")
    if not ins or not outs:
        raise Broken("data access of the double buffering ports not found")
    def norm(p):
        return None if p is None else p.replace("this.mProtocol", "this", 1) if p.startswith("this.mProtocol") else p
    ip = set(norm(p) for p, f in ins)
    op = set(norm(p) for p, f in outs)
    rep.count("data accessors", len(ins) + len(outs))
    for which, s, fs in (("inputs", ip, ins), ("outputs", op, outs)):
        if len(s) != 1:
            f = sorted(fs, key=lambda x: x[1].id)[0][1]
            rep.violation("different-buffers", f.name, f.line, "the %s do not all access the same buffer: %s" % (which, sorted(map(str, s))),
                          "different-buffers|" + which, f.file)
            return
    inp, out = ip.pop(), op.pop()
    if inp is None or out is None:
        raise Broken("buffers accessed by the double buffering ports not resolved (%s, %s)" % (inp, out))
    if inp == out:
        f = sorted(outs, key=lambda x: x[1].id)[0][1]
        rep.violation("same-buffer", f.name, f.line, "sender and receivers access the same buffer %s" % inp, None, f.file)
        return
    inputs = [f.n for f in rec.fields if re.match(r"std::(vector|list|set|deque)<.*InputBase", f.t)]
    if len(inputs) != 1:
        raise Broken("list of receivers not found")
    sw = [f for f in prog.by_name.get(DB + "::swapBuffers", ()) if f.blocks]
    if not sw:
        raise Broken("swapBuffers not found")
    for f in sw:
        for copy in (True, False):
            cl = Buffers(prog, inp, out, "this." + inputs[0])
            eng = Engine(prog, cl)
            st0 = frozenset({inp: "B", out: "F", "content:B": "old", "content:F": "new"}.items())
            env = frozenset([("L%d" % p[0], copy) for p in f.params if p[2] == "bool"])
            res = eng.run(f, st0, env=env)
            for kind, st, v, rn in res:
                rep.count("exit states")
                c = dict(st.c)
                a, b = c.get(inp), c.get(out)

                def viol(rule, what):
                    rep.violation(rule, f.name, f.line, "swapBuffers(copy=%s): %s" % (copy, what), "%s|swapBuffers|%s" % (rule, copy), f.file)
                if a is None or b is None or a == b:
                    viol("buffer-lost", "receivers and sender do not own separate buffers afterwards")
                    continue
                if c.get("content:" + a) != "new":
                    viol("not-published", "the receivers do not see the data written by the sender")
                if copy and c.get("content:" + b) != "new":
                    viol("not-copied", "the sender's next buffer does not start from the published value")
                if not c.get("marked"):
                    viol("not-signalled", "not all connected receivers are notified of the change")
        # loops over the receivers run to completion
        for n in f.body.walk():
            if n.k == "BreakStmt":
                rep.violation("not-signalled", f.name, n.l, "the notification of the receivers can be cut short at %s" % f.loc(n),
                              "not-signalled|break", f.file)
            if n.k == "ForStmt":
                txt = [short(x.x.get("cn") or "") for x in n.walk() if is_call(x)]
                if "begin" in txt and "end" in txt:
                    continue
    # the change flag
    flags = {"changed": set(), "resetChanged": set(), "markChanged": set(), "ctor": set()}
    for f in prog.funcs.values():
        if not f.name.startswith(DB + "::InputBase::") or f.body is None:
            continue
        s = short(f.name)
        if s == "changed":
            for r in f.body.walk():
                if r.k == "ReturnStmt" and r.c:
                    flags["changed"].add((Engine(prog, Client()).path(mkframe(f), r.c[0]), True))
        elif s in ("resetChanged", "markChanged"):
            e = Engine(prog, Client())
            for kind, st, v, rn in e.run(f, frozenset()):
                flags[s].add(tuple(sorted((k, x) for k, x in st.env if isinstance(k, str))))
        elif s == "InputBase" and f.sp == "ctor" or s == "InputBase":
            for i in f.inits:
                if i.get("m") and i["e"] is not None:
                    v = Engine(prog, Client()).value(mkframe(f), emptystate(), i["e"])
                    flags["ctor"].add(("this." + i["m"], v))
    fl = set(p for p, _b in flags["changed"])
    if len(fl) == 1 and None not in fl:
        p = fl.pop()
        f = prog.by_name[DB + "::InputBase::changed"][0]
        for s, want in (("resetChanged", False), ("markChanged", True)):
            if flags[s] and not all((p, want) in t for t in flags[s]):
                rep.violation("flag", f.name, f.line, "%s does not set the change flag to %s on every path" % (s, want), "flag|" + s, f.file)
        ini = dict(flags["ctor"])
        dm = [x for x in prog.records[DB + "::InputBase"].fields if "this." + x.n == p]
        if ini.get(p) is not False and not (dm and dm[0].dmi and dm[0].init is not None):
            rep.violation("flag", f.name, f.line, "the change flag is not cleared initially", "flag|init", f.file)
    elif fl:
        f = prog.by_name[DB + "::InputBase::changed"][0]
        if None in fl:
            rep.violation("flag", f.name, f.line, "changed() does not return the state of the change flag", "flag|changed", f.file)


def mkframe(f):
    from vsa.sim import Frame
    return Frame(f, "this", {})


def emptystate():
    from vsa.sim import State
    return State(frozenset(), frozenset())


# ---------------------------------------------------------------------------------------------- connecting
class Conn(Client):
    """Client state: dict of facts."""
    exceptional_exits = True

    def __init__(self, rep, portdid, slots, tables, fn):
        self.rep = rep
        self.port = "L%d" % portdid
        self.slots = slots
        self.tables = tables
        self.fn = fn

    def relevant(self, fn):
        return inproto(fn) and short(fn.name) != "setProtocolInstance"

    def up(self, st, **kw):
        return st.client(frozenset(dict(dict(st.c), **kw).items()))

    def path_of_call(self, eng, fr, n):
        if (n.x.get("cn") or "").startswith("std::find") and len(call_args(n)) == 3:
            return eng.path(fr, call_args(n)[2])
        return None

    def sym(self, eng, fr, st, n):
        if n.k in ("MemberExpr", "DeclRefExpr") and n.t.rstrip().endswith("*") or "* const" in n.t or n.t.endswith("*const"):
            p = eng.path(fr, n)
            if p == self.port:
                return ("port",)
            if p in self.slots:
                return ("slot", p)
            if p and p[-2:] == "[]" and p[:-2] in self.tables:
                return ("elem", p[:-2])
        return None

    def none_of(self, eng, fr, st, n, others):
        a = call_args(n)
        p = eng.path(fr, a[0])
        if p and p.rstrip("[]") in self.tables and is_full(a[0], "begin") and is_full(a[1], "end"):
            return self.up(st, found=False)
        return st

    def is_find(self, eng, fr, n):
        while n is not None and n.k == "CXXConstructExpr" and len(n.c) == 1:
            n = n.c[0]
        return n

    def call(self, eng, fr, st, n, callees):
        cn = n.x.get("cn") or ""
        s = short(cn)
        b = call_base(n)
        args = call_args(n)
        c = dict(st.c)
        if cn.startswith("std::find") and len(args) == 3:
            p = eng.path(fr, args[0])
            e = eng.path(fr, args[2])
            if p and p.rstrip("[]") in self.tables and e == self.port:
                if not (is_full(args[0], "begin") and is_full(args[1], "end")):
                    return [(st, None)]
                return [(st, ("find", p.rstrip("[]")))]
        if cn.startswith("std::count") and len(args) == 3:
            p, e = eng.path(fr, args[0]), eng.path(fr, args[2])
            if p and p.rstrip("[]") in self.tables and e == self.port:
                return [(st, ("counted", p.rstrip("[]")))]
        if n.k == "CXXMemberCallExpr" and b is not None:
            p = eng.path(fr, b)
            if p in self.tables and cn.startswith("std::"):
                if s in ("end", "cend"):
                    return [(st, ("end", p))]
                if s in ("push_back", "insert", "emplace_back"):
                    a = [eng.path(fr, x) for x in args]
                    return [(self.up(st, pushed="port" if self.port in a else "other", ev=True), None)]
                if s == "erase":
                    r = args[0] if args else None
                    while r is not None and not is_call(r) and len(r.c) == 1:
                        r = r.c[0]
                    if len(args) == 2 and r is not None and is_call(r) and (r.x.get("cn") or "") == "std::remove" and \
                            len(call_args(r)) == 3 and eng.path(fr, call_args(r)[2]) == self.port and is_full(args[1], "end"):
                        return [(self.up(st, erased="port", ev=True), None)]
                    if len(args) > 1:
                        return [(self.up(st, erased="other", ev=True), None)]
                    a = eng.path(fr, args[0]) if args else None
                    v = eng.value(fr, st, args[0]) if args else None
                    ok = a == self.port or isinstance(v, tuple) and v[0] == "find"
                    return [(self.up(st, erased="port" if ok else "other", ev=True), None)]
                if not n.x.get("mconst") and s not in ("begin", "cbegin"):
                    return [(self.up(st, erased="other", ev=True), None)]
            if s == "setProtocolInstance":
                tgt = None
                if p == self.port:
                    tgt = "port"
                elif p in self.slots:
                    tgt = "port" if c.get("slot:" + p) == "port" or c.get("eq:" + p) is True else "slot"
                    if c.get("slot:" + p) == "null":
                        tgt = "null"
                a = args[0]
                while a.c and a.k not in ("CXXThisExpr", "CXXNullPtrLiteralExpr", "DeclRefExpr"):
                    a = a.c[0]
                val = "this" if a.k == "CXXThisExpr" else "null" if a.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or a.x.get("cv") == "0" \
                    else "other"
                return [(self.up(st, inst=(tgt, val), ev=True), None)]
        return None

    def compare(self, eng, fr, st, op, a, b, node):
        c = dict(st.c)
        if not isinstance(a, tuple):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        kinds = {a[0], b[0]} if isinstance(b, tuple) else {a[0]}
        if kinds == {"port", "slot"} and op in ("==", "!="):
            p = a[1] if a[0] == "slot" else b[1]
            e = c.get("eq:" + p)
            out = []
            for v in ((e,) if e is not None else (True, False)):
                out.append((self.up(st, **{"eq:" + p: v}), v == (op == "==")))
            return out
        if kinds == {"port", "elem"} and op in ("==", "!="):
            return [(self.up(st, found=v), v == (op == "==")) for v in (True, False)]
        if kinds == {"find", "end"} and op in ("==", "!="):
            return [(self.up(st, found=v), (not v) == (op == "==")) for v in (True, False)]
        if a[0] == "counted" and isinstance(b, int):
            out = []
            for v in (0, 1):
                t = {"==": v == b, "!=": v != b, "<": v < b, ">": v > b, "<=": v <= b, ">=": v >= b}[op]
                out.append((self.up(st, found=bool(v)), t))
            return out
        return [(st, True), (st, False)]

    def truth(self, eng, fr, st, val, node):
        c = dict(st.c)
        if val[0] == "port":
            k = c.get("portok")
            return [(self.up(st, portok=v), v) for v in ((k,) if k is not None else (True, False))]
        if val[0] == "slot":
            k = c.get("slot:" + val[1])
            if k in ("null", "set", "port"):
                return [(st, k != "null")]
            return [(self.up(st, **{"slot:" + val[1]: "set"}), True), (self.up(st, **{"slot:" + val[1]: "null"}), False)]
        if val[0] == "counted":
            return [(self.up(st, found=v), v) for v in (True, False)]
        return None

    def element(self, eng, fr, st, n):
        if n.k == "BinaryOperator" and n.x["op"] == "=":
            p = eng.path(fr, n.c[0])
            if p in self.slots:
                c = dict(st.c)
                r = n.c[1]
                while r.c and r.k not in ("DeclRefExpr", "CXXNullPtrLiteralExpr"):
                    r = r.c[0]
                if r.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or r.x.get("cv") == "0":
                    return self.up(st, **{"slot:" + p: "null", "cleared": True, "ev": True})
                q = eng.path(fr, n.c[1])
                new = "port" if q == self.port else "other"
                prev = c.get("slot:" + p)
                return self.up(st, **{"slot:" + p: new, "wrote": (new, prev, c.get("portok")), "ev": True})
        return None


def check_connections(rep, prog):
    classes = [r for r in prog.records if prog.is_derived(r, "visr::CommunicationProtocolBase") and r.startswith("visr::pml::")]
    n = 0
    for cls in sorted(classes):
        rec = prog.records[cls]
        for side in ("Input", "Output"):
            slots = set("this." + f.n for f in rec.fields if f.t.rstrip().endswith("%sBase *" % side))
            tables = set("this." + f.n for f in rec.fields if re.match(r"std::(vector|set|list)<.*%sBase \*" % side, f.t))
            for what in ("connect", "disconnect"):
                for f in prog.by_name.get("%s::%s%s" % (cls, what, side), ()):
                    if not f.blocks:
                        continue
                    n += 1
                    rep.count("connection functions")
                    cl = Conn(rep, f.params[0][0], slots, tables, f)
                    eng = Engine(prog, cl)
                    for kind, st, v, rn in eng.run(f, frozenset()):
                        rep.count("exit states")
                        c = dict(st.c)

                        def viol(rule, text):
                            rep.violation(rule, f.name, f.line, "%s: %s" % (f.name[len("visr::pml::"):], text), "%s|%s" % (rule, f.name), f.file)
                        if c.get("inst") and c["inst"][0] == "null":
                            viol("null-use", "a port that has just been cleared is used")
                        if what == "connect":
                            if kind == "throw":
                                if c.get("ev"):
                                    viol("partial-connection", "fails after having modified the connection")
                                continue
                            if c.get("portok") is False:
                                viol("wrong-type-accepted", "a port of a different protocol is accepted")
                                continue
                            if slots:
                                w = c.get("wrote")
                                if not w or w[0] != "port":
                                    viol("not-connected", "completes without registering the port")
                                elif w[1] != "null":
                                    viol("replaced", "an existing connection can be replaced (no check that the %s is still free)" % side.lower())
                            elif c.get("pushed") == "port" and c.get("found") is not False:
                                viol("connected-twice", "a port that is connected already can be entered a second time")
                            elif not (c.get("found") is True or c.get("pushed") == "port"):
                                viol("not-connected", "completes without registering the port")
                            if c.get("inst") != ("port", "this") and not (tables and c.get("found") is True):
                                viol("not-linked", "completes without linking the port to this protocol instance")
                        else:
                            if kind == "throw":
                                continue
                            if v is True:
                                if slots and c.get("eq:" + sorted(slots)[0]) is not True or tables and c.get("found") is not True:
                                    viol("foreign-port", "a port that is not connected can be disconnected")
                                if not (c.get("cleared") if slots else c.get("erased") == "port"):
                                    viol("still-connected", "reports success without removing the port")
                                if c.get("inst") != ("port", "null"):
                                    viol("still-linked", "reports success without unlinking the port from this protocol instance")
                            elif v is False and c.get("ev"):
                                viol("changed-on-failure", "reports failure after having modified the connection")
    # ports store the instance they are given
    for f in prog.funcs.values():
        if short(f.name) == "setProtocolInstance" and inproto(f) and f.blocks and f.params:
            rep.count("port link functions")
            P = "L%d" % f.params[0][0]
            base = "CommunicationProtocolBase" in f.params[0][2]
            cl = Link(P)
            eng = Engine(prog, cl)
            for kind, st, v, rn in eng.run(f, frozenset()):
                if kind == "ret" and "stored" not in st.c:
                    rep.violation("not-linked", f.name, f.line, "%s completes without storing the protocol instance" % f.name, None, f.file)
                if kind == "throw" and "stored" in st.c:
                    rep.violation("not-linked", f.name, f.line, "%s fails after storing the protocol instance" % f.name, None, f.file)
                refcast = any(x.k == "CXXDynamicCastExpr" and not x.t.endswith("*") for x in f.body.walk())
                if kind == "ret" and base and ("bad" in st.c or "good" not in st.c and not refcast):
                    rep.violation("wrong-type-accepted", f.name, f.line, "%s accepts an instance of a different protocol" % f.name, None, f.file)
    rep.need("connection functions", 12)
    rep.need("port link functions", 8)


class Link(Client):
    exceptional_exits = True

    def __init__(self, p):
        self.p = p

    def relevant(self, fn):
        return inproto(fn)

    def sym(self, eng, fr, st, n):
        if n.k == "DeclRefExpr" and eng.path(fr, n) == self.p and fr.depth == 0:
            return ("inst",)
        return None

    def truth(self, eng, fr, st, val, node):
        if val[0] == "inst":
            if "bad" in st.c:
                return [(st, False)]
            if "good" in st.c:
                return [(st, True)]
            return [(st.client(st.c | {"good"}), True), (st.client(st.c | {"bad"}), False)]
        return None

    def element(self, eng, fr, st, n):
        if n.k == "BinaryOperator" and n.x["op"] == "=" and n.c[0].k == "MemberExpr":
            p, q = eng.path(fr, n.c[0]), eng.path(fr, n.c[1])
            if p and p.startswith("this.") and q == self.p:
                return st.client(st.c | {"stored"})
            if p and p.startswith("this.") and "stored" in st.c:
                return st.client(st.c - {"stored"})
        return None


def check(rep):
    prog = program(LIBS)
    check_queue(rep, prog)
    check_buffers(rep, prog)
    check_connections(rep, prog)
    from . import flowcheck
    flowcheck.check_wiring(rep)
    rep.need("queue operations", 8)
    rep.need("data accessors", 3)
