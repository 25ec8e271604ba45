"""Network messages: every datagram becomes one message, every message one datagram, and the next operation is started.

An abstract machine follows, path by path, the asynchronous operations of a class, the containers that hold messages, and
each message between being taken from one place and handed to the next.  The reachable states between two activations
(calls of the public functions, completions of an operation) are computed by running all of them until nothing new appears.
"""
from .common import *
import re

from vsa.sim import Client, Engine, Frame, State
from vsa.model import is_call, call_base, call_args, short
from . import threads as T

CASTK = ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "CXXBindTemporaryExpr",
         "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "ConstantExpr")
LOOPK = ("ForStmt", "WhileStmt", "DoStmt")


def strip(e, copies=True):
    """Without casts, copies and moves."""
    while e is not None:
        if e.k in CASTK and e.c:
            e = e.c[0]
        elif is_call(e) and (e.x.get("cn") or "") in ("std::move", "std::forward") and call_args(e):
            e = call_args(e)[0]
        elif copies and e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(real(e)) == 1 and \
                (e.x.get("copy") or e.x.get("move") or e.x.get("elid") or T.bare(real(e)[0].t) == T.bare(e.t)):
            e = real(e)[0]
        elif copies and e.k == "InitListExpr" and len(e.c) == 1 and T.bare(e.c[0].t) == T.bare(e.t):
            e = e.c[0]
        else:
            return e
    return e


def real(e):
    """Arguments of a construction without defaulted ones and allocators."""
    return [a for a in e.c if a.k != "CXXDefaultArgExpr" and "std::allocator<" not in (T.bare(a.t) or "")[:16]]


def is_msg_container(t):
    return bool(T.CONT.match(T.bare(t))) and ("StringParameter" in t or "string" in t)


class Net(Client):
    exceptional_exits = False

    def __init__(self, prog, rep, cls, cont, bufs, kind, entry, handler):
        self.prog, self.rep, self.cls, self.cont, self.bufs = prog, rep, cls, cont, bufs
        self.kind, self.entry, self.handler = kind, entry, handler
        self.main = "this." + cont if cont else None
        self.drains = set()             # containers whose messages the entry passes on
        self.ep = "L%d" % entry.params[0][0] if handler and entry.params else None

    def relevant(self, fn):
        return fn.cls == self.cls or bool(fn.lambda_ and fn.name.startswith(self.cls))

    def viol(self, fr, n, rule, what):
        self.rep.violation(rule, self.entry.name, n.l if n is not None else self.entry.line, what,
                           "%s|%s" % (rule, self.entry.name), fr.fn.file)

    # state: (operations outstanding, facts); facts: ("b",container,N|E|U) ("P",container) ("A",container) ("I",container,0|1)
    # ("H",local,container) ("R",local,container) ("D",local) ("err",ok|fail) ("st",1) ("K",)
    def b(self, st, p):
        for f in st.c[1]:
            if f[0] == "b" and f[1] == p:
                return f[2]
        return "U"

    def put(self, st, a=None, add=(), drop=lambda f: False):
        fs = frozenset(f for f in st.c[1] if not drop(f)) | frozenset(add)
        return st.client((st.c[0] if a is None else a, fs))

    def setb(self, st, p, v, keep=()):
        return self.put(st, add=[("b", p, v)], drop=lambda f: len(f) > 1 and f[1] == p and f[0] == "b" or
                        f[:2] == ("A", p) and "A" not in keep or f[:2] == ("P", p) and "P" not in keep)

    def err(self, st):
        for f in st.c[1]:
            if f[0] == "err":
                return f[1]
        return None

    def known(self, st, p):
        return p is not None and any(f[0] == "b" and f[1] == p for f in st.c[1])

    # -- containers ------------------------------------------------------------------------------------------------
    def cont_of(self, eng, fr, b):
        """Access path of a message container or message input port, or None."""
        if b is None:
            return None
        t = T.bare(b.t)
        if is_msg_container(t):
            p = eng.path(fr, b)
            return p
        if "MessageQueueProtocol" in t and ("ParameterInput" in t or "::Input<" in t):
            return eng.path(fr, b)
        return None

    def path_of_call(self, eng, fr, n):
        if n.k == "CXXMemberCallExpr" and short(n.x.get("cn") or "") in ("front", "back"):
            p = self.cont_of(eng, fr, call_base(n))
            if p is not None:
                return p + "[]"
        return None

    def elem(self, eng, fr, st, e):
        """(container, local or None) of the message e denotes, else None."""
        e = strip(e)
        if e is None:
            return None
        # conversions that keep the whole message
        if e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(real(e)) == 1 and \
                "StringParameter" in T.bare(e.t):
            i = strip(real(e)[0])
            if is_call(i) and short(i.x.get("cn") or "") in ("str", "c_str", "value"):
                pass
            else:
                return self.elem(eng, fr, st, i)
        if e.k == "DeclRefExpr" and e.x.get("did") is not None:
            l = "L%d" % e.x["did"]
            for f in st.c[1]:
                if f[0] in ("H", "R", "HP") and f[1] == l:
                    return (f[2], l)
                if f == ("D", l):
                    return ("dead", l)
        p = eng.path(fr, e)
        if p is not None and p.endswith("[]") and self.known(st, p[:-2]):
            return (p[:-2], None)
        return None

    def passed(self, eng, fr, st, n, el, what):
        p, l = el
        self.rep.count("messages passed on")
        if p == "dead":
            self.viol(fr, n, "message-used-after-removal", "a message is %s after it has been removed from the buffer that holds it" % what)
            return st
        if l is not None and any(f[0] in ("H", "HP") and f[1] == l for f in st.c[1]):
            if ("HP", l, p) in st.c[1]:
                self.viol(fr, n, "message-duplicated", "a message is %s twice" % what)
            self.drains.add(p)
            return self.put(st, add=[("HP", l, p)], drop=lambda f: f[:2] == ("H", l))
        self.drains.add(p)
        if not any(f[:2] == ("I", p) for f in st.c[1]) and fr.fn.lambda_ and fr.call is not None and is_call(fr.call) and (fr.call.x.get("cn") or "").startswith("std::"):
            return self.put(st, add=[("A", p)])
        for f in st.c[1]:
            if f[:2] == ("I", p):
                if f[2]:
                    self.viol(fr, n, "message-duplicated", "a message is %s twice in an iteration" % what)
                return self.put(st, add=[("I", p, 1)], drop=lambda g: g == f)
        if ("P", p) in st.c[1]:
            self.viol(fr, n, "message-duplicated", "a message is %s although this has already been done" % what)
        return self.put(st, add=[("P", p)])

    # -- loops over containers -------------------------------------------------------------------------------------
    def iterated(self, eng, fr, st, loop):
        if loop.k == "CXXForRangeStmt":
            for c in loop.c:
                if c.k == "DeclStmt":
                    for v in c.x["vars"]:
                        if v.init is not None and is_msg_container(T.bare(v.init.t)):
                            p = eng.path(fr, v.init)
                            return p if self.known(st, p) else None
            return None
        if loop.k not in LOOPK:
            return None
        cs = set()
        for m in loop.walk():
            if m.k != "CXXMemberCallExpr":
                continue
            s = short(m.x.get("cn") or "")
            p = self.cont_of(eng, fr, call_base(m))
            if p is None or not self.known(st, p):
                continue
            if s in ("pop_front", "pop_back", "pop", "erase", "clear") or s in T.APPEND:
                return None
            if s in ("end", "cend", "size"):
                cs.add(p)
            if s in ("rend", "crend", "rbegin"):
                self.viol(fr, m, "order-not-kept", "messages are handled newest first")
        if not cs:
            # the end iterator may have been taken before the loop
            for m in loop.walk():
                if m.k == "DeclRefExpr" and "iterator" in (m.t or "").lower():
                    p = eng.path(fr, m)
                    if p is not None and p.endswith("[]") and self.known(st, p[:-2]):
                        cs.add(p[:-2])
        return cs.pop() if len(cs) == 1 else None

    def loop(self, eng, fr, st, loop, entering):
        p = self.iterated(eng, fr, st, loop)
        if p is None:
            return st
        if ("I", p, 0) in st.c[1] and any(f[0] == "it" and f[1] == loop.i for f in st.c[1]) and p in self.passing(fr, loop, p):
            self.viol(fr, loop, "message-dropped", "an iteration over the messages passes one over")
        if entering:
            return self.put(st, add=[("I", p, 0), ("it", loop.i)], drop=lambda f: f[:2] in (("I", p), ("it", loop.i)))
        was = any(f[0] == "it" and f[1] == loop.i for f in st.c[1])
        done = ("I", p, 1) in st.c[1] or not was
        return self.put(st, add=[("A", p)] if done else [], drop=lambda f: f[:2] in (("I", p), ("it", loop.i)))

    def passing(self, fr, loop, p):
        """The container, if the loop hands messages on at all (and does not merely look at them)."""
        for m in loop.walk():
            if m.k == "CXXMemberCallExpr" and (short(m.x.get("cn") or "") in T.APPEND + ("enqueue", "send_to", "async_send_to")):
                return {p}
        return set()

    # -- contents --------------------------------------------------------------------------------------------------
    def buf_path(self, eng, fr, e):
        p = eng.path(fr, e)
        if p is None:
            return False
        q = p.rstrip("[]")
        return any(q == "this." + x.rpartition("::")[2] for x in self.bufs)

    def start(self, eng, fr, e):
        """e points at the first byte of the receive buffer: True, False (elsewhere in it), None (something else)."""
        e = strip(e)
        if e is None:
            return None
        if e.k == "UnaryOperator" and e.x.get("op") == "&":
            i = strip(e.c[0])
            sub = None
            if i.k == "ArraySubscriptExpr":
                bse, sub = i.c[0], i.c[1]
            elif i.k == "CXXOperatorCallExpr" and i.x.get("op") == "[]":
                bse, sub = i.c[1], i.c[2]
            elif is_call(i) and short(i.x.get("cn") or "") == "front":
                return True if self.buf_path(eng, fr, call_base(i)) else None
            elif is_call(i) and short(i.x.get("cn") or "") == "at":
                bse, sub = call_base(i), call_args(i)[0]
            elif i.k == "UnaryOperator" and i.x.get("op") == "*":
                return self.start(eng, fr, i.c[0])
            if sub is None:
                return True if self.buf_path(eng, fr, i) else None
            if not self.buf_path(eng, fr, bse):
                return None
            z = eng.value(fr, State0, sub)
            return z == 0 and not isinstance(z, bool)
        if is_call(e) and short(e.x.get("cn") or "") in ("data", "begin", "cbegin", "c_array"):
            b = call_base(e) if call_base(e) is not None else call_args(e)[0] if call_args(e) else None
            return True if self.buf_path(eng, fr, b) else None
        if e.k == "DeclRefExpr":
            i = eng.local_init(fr.fn, e.x.get("did"))
            if i is not None:
                return self.start(eng, fr, i)
            if self.buf_path(eng, fr, e):
                return True                 # a pointer handed to a helper
            return None
        if e.k in ("BinaryOperator", "CXXOperatorCallExpr") and e.x.get("op") in ("+", "-"):
            ops = e.c[-2:]
            if any(self.start(eng, fr, o) is not None for o in ops):
                return False
            return None
        if e.k == "MemberExpr" and self.buf_path(eng, fr, e):
            return True
        return None

    def count(self, eng, fr, st, e):
        """e is the number of bytes received."""
        v = eng.value(fr, st, e)
        if v == ("nb",):
            return True
        e = strip(e)
        if e is not None and e.k == "DeclRefExpr":
            i = eng.local_init(fr.fn, e.x.get("did"))
            if i is not None:
                return self.count(eng, fr, st, i)
        return False

    def stop(self, eng, fr, st, e):
        e = strip(e)
        if e is None:
            return False
        if e.k in ("BinaryOperator", "CXXOperatorCallExpr") and e.x.get("op") == "+":
            a, b = e.c[-2:]
            return self.start(eng, fr, a) is True and self.count(eng, fr, st, b) or \
                self.start(eng, fr, b) is True and self.count(eng, fr, st, a)
        if is_call(e) and short(e.x.get("cn") or "") == "next" and len(call_args(e)) == 2:
            return self.start(eng, fr, call_args(e)[0]) is True and self.count(eng, fr, st, call_args(e)[1])
        if e.k == "UnaryOperator" and e.x.get("op") == "&":
            i = strip(e.c[0])
            if i.k in ("ArraySubscriptExpr", "CXXOperatorCallExpr") and i.x.get("op", "[]") == "[]":
                return self.buf_path(eng, fr, i.c[-2]) and self.count(eng, fr, st, i.c[-1])
            return False
        if e.k == "DeclRefExpr":
            i = eng.local_init(fr.fn, e.x.get("did"))
            return i is not None and self.stop(eng, fr, st, i)
        return False

    def pair(self, eng, fr, st, a, b):
        """Contents described by two arguments: None if complete, a reason, or False if they do not concern the buffer."""
        s = self.start(eng, fr, a)
        if s is None:
            return False
        if s is False:
            return "does not start with the first byte received"
        if self.count(eng, fr, st, b) or self.stop(eng, fr, st, b):
            return None
        return "does not consist of exactly the bytes that were received"

    def content(self, eng, fr, st, e, depth=0):
        """None: exactly the received bytes; a string: the reason why not; False: unknown."""
        e = strip(e)
        if e is None or depth > 12:
            return False
        if e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
            a = real(e)
            if len(a) == 2:
                return self.pair(eng, fr, st, a[0], a[1])
            if len(a) == 1:
                i = strip(a[0])
                if "char" in T.bare(i.t) and "basic_string" not in i.t and "string" not in T.bare(i.t) or \
                        "array<char" in T.bare(i.t):
                    s = self.start(eng, fr, i)
                    if s is not None:
                        return "is built without the number of bytes received"
                return self.content(eng, fr, st, i, depth + 1)
            return False
        if is_call(e):
            s = short(e.x.get("cn") or "")
            if s in ("str", "c_str", "data", "value") and call_base(e) is not None:
                return self.content(eng, fr, st, call_base(e), depth + 1)
            if s == "substr":
                return "is only a part of the bytes received"
            fs = self.prog.callees(e)
            if len(fs) == 1:
                from vsa.sim import single_return
                r = single_return(fs[0])
                if r is not None:
                    nf = eng.bind_frame(fr, e, fs[0])
                    return self.content(eng, nf, eng._bind_values(fr, nf, st, e, fs[0]), r, depth + 1)
            return False
        if e.k == "DeclRefExpr" and e.x.get("did") is not None:
            i = eng.local_init(fr.fn, e.x["did"])
            v = self.decl(fr.fn, e.x["did"])
            if v is None:
                return False
            r = self.content(eng, fr, st, v.init, depth + 1) if v.init is not None and \
                (v.init.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr") or real(v.init)) else False
            for m in fr.fn.body.walk():
                if m.k == "CXXMemberCallExpr" and call_base(m) is not None and not m.x.get("mconst"):
                    bb = strip(call_base(m))
                    if bb.k == "DeclRefExpr" and bb.x.get("did") == e.x["did"]:
                        s = short(m.x.get("cn") or "")
                        a = [x for x in call_args(m) if x.k != "CXXDefaultArgExpr"]
                        if s == "assign" and len(a) == 2:
                            r = self.pair(eng, fr, st, a[0], a[1])
                        elif s in ("reserve", "shrink_to_fit", "begin", "end", "data", "operator[]", "front", "back", "at"):
                            pass
                        elif s in ("resize", "erase", "pop_back", "clear", "replace", "push_back", "insert", "append") and r is None:
                            r = "is altered before it is stored"
                if m.k == "CXXOperatorCallExpr" and m.x.get("op") in ("=", "+=") and len(m.c) > 2:
                    bb = strip(m.c[1])
                    if bb.k == "DeclRefExpr" and bb.x.get("did") == e.x["did"]:
                        r = self.content(eng, fr, st, m.c[2], depth + 1) if m.x["op"] == "=" else \
                            ("is altered before it is stored" if r is None else r)
            return r
        return False

    def decl(self, fn, did):
        for m in fn.body.walk():
            if m.k == "DeclStmt":
                for v in m.x["vars"]:
                    if v.did == did:
                        return v
        return None

    # -- hooks -----------------------------------------------------------------------------------------------------
    def element(self, eng, fr, st, n):
        if self.handler and self.kind == "receive" and st.c[0]:
            for m in n.walk():
                if m.k == "MemberExpr" and m.x.get("mk") == "field" and m.x.get("q") in self.bufs and not T.inside_async(m):
                    self.viol(fr, m, "buffer-used-after-rearm", "%s is read after the next receive operation has been started" % m.x["q"])
        return None

    def after(self, eng, fr, st, n):
        if n.k != "DeclStmt":
            return None
        for v in n.x["vars"]:
            l = "L%d" % v.did
            t = T.bare(v.t)
            isref = v.t.rstrip().endswith("&")
            if T.GUARD.search(v.t or "") and ("K",) in st.c[1]:
                st = self.other_thread(st)
            if is_msg_container(t) and not isref:
                st = self.put(st, add=[("b", l, "E")], drop=lambda f: len(f) > 1 and f[1] == l)
                src = self.cont_of(eng, fr, strip(v.init)) if v.init is not None else None
                if v.init is not None and src is None and strip(v.init) is not None:
                    a = real(strip(v.init)) if strip(v.init).k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") else []
                    if len(a) == 2:             # from a pair of iterators
                        p = eng.path(fr, a[0])
                        src = p[:-2] if p and p.endswith("[]") and self.known(st, p[:-2]) else None
                if self.known(st, src):
                    moved = any(is_call(m) and m.x.get("cn") == "std::move" for m in v.init.walk())
                    st = self.setb(st, l, self.b(st, src))
                    st = self.setb(st, src, "E") if moved else self.put(st, add=[("A", src)])
                continue
            st = self.put(st, drop=lambda f: len(f) > 1 and f[1] == l)
            if v.init is None:
                continue
            if "StringParameter" in t or "string" in t:
                el = self.elem(eng, fr, st, v.init)
                if el is not None and el[1] is None and not any(f[:2] == ("I", el[0]) for f in st.c[1]):
                    st = self.put(st, add=[("R" if isref else "H", l, el[0])])
        return st

    def other_thread(self, st):
        """The lock has been released in between: an operation may have completed meanwhile."""
        b = self.b(st, self.main)
        if self.kind == "send":
            return self.released(st, b)
        return self.setb(st, self.main, "U") if b == "E" else st

    def released(self, st, b):
        if st.c[0] >= 1 and b != "E":
            # the pending send may have been completed, the buffer emptied and no further one started
            st = self.setb(st, self.main, "U")
            return st.client((st.c[0], st.c[1] | {("maybe",)}))
        return st

    def dtor(self, eng, fr, st, did, ty):
        if T.GUARD.search(ty or ""):
            return self.put(st, add=[("K",)])
        return st

    def buffer_arg(self, eng, fr, st, n, call):
        """(message, reason it is incomplete) handed to a send operation."""
        m = T.buffer_expr(call)
        if m is None or not is_call(m):
            return None, None
        a = [x for x in call_args(m) if x.k != "CXXDefaultArgExpr"]
        if not a:
            return None, None
        e = strip(a[0])
        for _i in range(3):
            if e.k == "DeclRefExpr" and "*" in (e.t or "") and eng.local_init(fr.fn, e.x.get("did")) is not None:
                e = strip(eng.local_init(fr.fn, e.x["did"]))
        if is_call(e) and short(e.x.get("cn") or "") in ("str", "c_str", "data") and call_base(e) is not None:
            el = self.elem(eng, fr, st, call_base(e))
            if el is None:
                return None, None
            if len(a) < 2:
                return el, None if "basic_string" in T.bare(e.t) else "is sent without its length"
            s = strip(a[1])
            for _i in range(4):
                if s.k == "DeclRefExpr" and eng.local_init(fr.fn, s.x.get("did")) is not None:
                    s = strip(eng.local_init(fr.fn, s.x["did"]))
            if is_call(s) and short(s.x.get("cn") or "") in ("size", "length") and call_base(s) is not None:
                b = call_base(s)
                while is_call(strip(b)) and short(strip(b).x.get("cn") or "") in ("str", "value") and call_base(strip(b)) is not None:
                    b = call_base(strip(b))
                e2 = self.elem(eng, fr, st, b)
                if e2 is not None and e2[0] == el[0]:
                    return el, None
            if s.k == "ParmVarDecl" or s.k == "DeclRefExpr":
                return el, False
            return el, "is not sent with its full length"
        return self.elem(eng, fr, st, e), None

    def call(self, eng, fr, st, n, callees):
        cn = n.x.get("cn") or ""
        s = short(cn)
        a = st.c[0]
        if s.startswith("async_") and cn.startswith("boost::asio"):
            self.rep.count("asynchronous operations evaluated")
            if a >= 1:
                self.viol(fr, n, "second-operation-outstanding", "starts another %s while one is still outstanding: %s" % (s, fr.describe()))
            if self.kind == "send" and self.main and self.b(st, self.main) == "E":
                self.viol(fr, n, "sends-without-message", "starts a send although the message buffer is empty")
            if self.kind == "send":
                el, bad = self.buffer_arg(eng, fr, st, n, n)
                if bad:
                    self.viol(fr, n, "message-incomplete", "a message " + bad)
                if el is not None and el[0] == "dead":
                    self.viol(fr, n, "message-used-after-removal", "a message is sent after it has been removed from the buffer that holds it")
            else:
                m = T.buffer_expr(n)
                if m is not None and is_call(m) and len([x for x in call_args(m) if x.k != "CXXDefaultArgExpr"]) > 1:
                    e = call_args(m)[1]
                    v = eng.value(fr, st, e)
                    lim = [f for f in T_fields(self.prog, self.cls) if f.n in {b.rpartition("::")[2] for b in self.bufs}]
                    big = [int(x) for f in lim for x in re.findall(r"(?:, |\[)(\d+)U?L?[>\]]", f.t)]
                    if isinstance(v, int) and not isinstance(v, bool) and big and v < min(big):
                        self.viol(fr, n, "receive-buffer-limited", "only %d of %d bytes of the receive buffer are used: longer messages are cut off" % (v, min(big)))
            return [(self.put(st, a=min(a + 1, 2)), None)]
        if s == "send_to" and cn.startswith("boost::asio"):
            el, bad = self.buffer_arg(eng, fr, st, n, n)
            if bad:
                self.viol(fr, n, "message-incomplete", "a message " + bad)
            if el is not None:
                return [(self.passed(eng, fr, st, n, el, "sent"), None)]
            return [(st, None)]
        # outcome of the operation
        if self.ep is not None:
            if s in ("operator bool", "operator!", "failed"):
                b = call_base(n) if n.k == "CXXMemberCallExpr" else n.c[1] if len(n.c) > 1 else None
                if b is not None and eng.path(fr, b) == self.ep:
                    return self.outcome(st, s != "operator!")
            if s in ("operator==", "operator!=") and n.k == "CXXOperatorCallExpr" and len(n.c) > 2:
                for i, o in ((1, 2), (2, 1)):
                    if eng.path(fr, strip(n.c[i])) == self.ep:
                        ok = any(m.k == "DeclRefExpr" and (m.x.get("q") or "").endswith("::success") for m in n.c[o].walk()) or \
                            strip(n.c[o]).k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not real(strip(n.c[o]))
                        if ok:
                            return self.outcome(st, s == "operator!=")
                        eq = s == "operator=="
                        e = self.err(st)
                        if e == "ok":
                            return [(st, not eq)]
                        return [(self.put(st, add=[("err", "fail")], drop=lambda f: f[0] == "err"), eq), (st, not eq)]
            if s == "value" and n.k == "CXXMemberCallExpr" and eng.path(fr, call_base(n)) == self.ep:
                return [(st, ("errval",))]
        if n.k == "CXXOperatorCallExpr" and n.x.get("op") == "=" and len(n.c) > 2:
            p = self.cont_of(eng, fr, n.c[1])
            if p is not None:
                q = self.cont_of(eng, fr, strip(n.c[2]))
                if self.known(st, q):
                    moved = any(is_call(m) and m.x.get("cn") == "std::move" for m in n.c[2].walk())
                    st = self.emptied(fr, st, n, p, s)
                    st = self.setb(st, p, self.b(st, q))
                    return [(self.setb(st, q, "E") if moved else self.put(st, add=[("A", q)]), None)]
                e = strip(n.c[2])
                if e.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") and not e.c:
                    return [(self.setb(self.emptied(fr, st, n, p, s), p, "E"), None)]
                return None
            el = self.elem(eng, fr, st, n.c[2])
            t = strip(n.c[1])
            if el is not None and el[1] is None and t.k == "DeclRefExpr" and "StringParameter" in T.bare(t.t):
                return [(self.put(st, add=[("H", "L%d" % t.x["did"], el[0])],
                                  drop=lambda f: len(f) > 1 and f[1] == "L%d" % t.x["did"]), None)]
        if cn == "std::for_each" and len(call_args(n)) == 3:
            lam = eng._lambda_of(fr, call_args(n)[2])
            p = eng.path(fr, call_args(n)[0])
            p = p[:-2] if p is not None and p.endswith("[]") else None
            if lam is not None and lam.params and self.known(st, p):
                nf = Frame(lam, fr.this, {lam.params[0][0]: p + "[]"}, fr, fr.catching, fr.depth + 1, n, fr)
                out = [(self.put(st, add=[("A", p)]), None)] if self.b(st, p) != "N" else []
                for k, s2, _v, _rn in eng._run(nf, self.put(st, add=[("I", p, 0)])):
                    if k == "ret":
                        if ("I", p, 0) in s2.c[1] and self.passing(fr, lam.body, p):
                            self.viol(fr, n, "message-dropped", "an iteration over the messages passes one over")
                        ok = ("I", p, 1) in s2.c[1]
                        out.append((self.put(s2, add=[("A", p)] if ok else [], drop=lambda f: f[:2] == ("I", p)), None))
                return out
        if cn in ("std::swap",) and len(call_args(n)) == 2:
            p, q = (self.cont_of(eng, fr, x) for x in call_args(n))
            if p is not None and q is not None:
                return [(self.swap(fr, st, n, p, q), None)]
        if n.k != "CXXMemberCallExpr":
            return None
        base = call_base(n)
        if s in ("unlock",) and base is not None and (T.GUARD.search(T.bare(base.t)) or T.MUTEX.search(" " + T.bare(base.t))):
            return [(self.put(st, add=[("K",)]), None)]
        if s in ("lock",) and base is not None and (T.GUARD.search(T.bare(base.t)) or T.MUTEX.search(" " + T.bare(base.t))):
            return [(self.other_thread(st) if ("K",) in st.c[1] else st, None)]
        if s == "enqueue" and "MessageQueueProtocol" in T.bare(base.t):
            if call_args(n):
                el = self.elem(eng, fr, st, call_args(n)[0])
                if el is not None:
                    return [(self.passed(eng, fr, st, n, el, "passed on"), None)]
            return [(st, None)]
        p = self.cont_of(eng, fr, base)
        if p is None:
            return None
        b = self.b(st, p)
        main = p == self.main
        if not self.known(st, p):
            st = self.put(st, add=[("b", p, "U")])
        if s in T.APPEND:
            arg = call_args(n)[0] if call_args(n) else None
            el = self.elem(eng, fr, st, arg) if arg is not None else None
            if main and self.handler and self.kind == "receive":
                e = self.err(st)
                if e is None:
                    self.viol(fr, n, "error-not-examined", "received data are stored without looking at the error code of the operation")
                elif e == "fail":
                    self.viol(fr, n, "failed-operation-stored", "a message is stored although the operation failed")
                if ("st", 1) in st.c[1]:
                    self.viol(fr, n, "message-duplicated", "one datagram is stored twice")
                a2 = [x for x in call_args(n) if x.k != "CXXDefaultArgExpr"]
                r = self.pair(eng, fr, st, a2[0], a2[1]) if len(a2) == 2 else self.content(eng, fr, st, arg) if arg is not None else False
                self.rep.count("message contents decided" if r is not False else "message contents of unknown form")
                if r:
                    self.viol(fr, n, "message-incomplete", "the message stored " + r)
                st = self.put(st, add=[("st", 1)])
            if el is not None:
                st = self.passed(eng, fr, st, n, el, "stored")
            return [(self.setb(st, p, "N"), None)]
        if s in ("push_front", "emplace_front"):
            self.viol(fr, n, "order-not-kept", "messages are put in front of older ones")
            return [(self.setb(st, p, "N"), None)]
        if s == "empty":
            if b == "N":
                return [(st, False)]
            if b == "E":
                return [(st, True)]
            e = self.setb(st, p, "E", keep=("A",))
            f = self.setb(st, p, "N", keep=("P", "A"))
            if main and ("maybe",) in st.c[1]:
                f0 = self.put(f, drop=lambda x: x == ("maybe",))
                e0 = self.put(e, a=0, drop=lambda x: x == ("maybe",))
                return [(e0, True), (f0, False)]
            return [(e, True), (f, False)]
        if s == "size":
            return [(st, ("size", p))]
        if s in ("front", "back"):
            if s == "back" and main:
                self.viol(fr, n, "order-not-kept", "the newest message is taken before older ones")
            if b in ("E", "U"):
                self.viol(fr, n, "read-from-empty", "message read although the buffer may be empty")
            if s == "front":
                self.drains.add(p)
            return [(st, None)]
        if s in ("rbegin", "crbegin"):
            self.viol(fr, n, "order-not-kept", "messages are handled newest first")
            return [(st, None)]
        if s == "erase":
            a2 = [x for x in call_args(n) if x.k != "CXXDefaultArgExpr"]
            s = "pop_front" if len(a2) == 1 else "clear"
        if s in ("pop_front", "pop", "pop_back", "popElement"):
            if s == "pop_back":
                self.viol(fr, n, "order-not-kept", "the newest message is removed first")
            if b in ("E", "U"):
                self.viol(fr, n, "read-from-empty", "message removed although the buffer may be empty")
            else:
                held = [f for f in st.c[1] if f[0] in ("H", "HP") and f[2] == p]
                if ("P", p) not in st.c[1] and not held:
                    self.viol(fr, n, "message-dropped", "message removed from the buffer without having been passed on")
            if main and self.kind == "send" and not self.handler:
                self.viol(fr, n, "removed-while-sending",
                          "message removed from the buffer by a function that is not the completion handler: "
                          "the operating system may still be reading it")
            if main and self.kind == "receive" and self.handler:
                self.viol(fr, n, "message-dropped", "the completion handler removes messages")
            dead = [("D", f[1]) for f in st.c[1] if f[0] == "R" and f[2] == p]
            st = self.put(st, add=dead, drop=lambda f: f[0] in ("R", "HP") and f[2] == p)
            # a held message is now the only copy; it keeps its fact under another source
            st = self.put(st, add=[("H", f[1], "taken") for f in st.c[1] if f[0] == "H" and f[2] == p],
                          drop=lambda f: f[0] == "H" and f[2] == p)
            return [(self.setb(st, p, "U"), None)]
        if s in ("clear", "resize"):
            return [(self.setb(self.emptied(fr, st, n, p, s), p, "E"), None)]
        if s == "swap" and call_args(n):
            q = self.cont_of(eng, fr, call_args(n)[0])
            if q is not None:
                return [(self.swap(fr, st, n, p, q), None)]
        return None

    def emptied(self, fr, st, n, p, s):
        b = self.b(st, p)
        if p == self.main and self.kind == "send" and b != "E":
            self.viol(fr, n, "removed-while-sending", "buffer modified while a send may still be reading it")
        elif b != "E" and ("A", p) not in st.c[1]:
            self.viol(fr, n, "message-dropped", "messages removed from the buffer without having been passed on")
        return st

    def swap(self, fr, st, n, p, q):
        for x in (p, q):
            if x == self.main and self.kind == "send" and self.b(st, x) != "E":
                self.viol(fr, n, "removed-while-sending", "buffer modified while a send may still be reading it")
        bp, bq = self.b(st, p), self.b(st, q)
        return self.setb(self.setb(st, p, bq), q, bp)

    def outcome(self, st, failed):
        e = self.err(st)
        if e is not None:
            return [(st, (e == "fail") == failed)]
        return [(self.put(st, add=[("err", "fail")]), failed), (self.put(st, add=[("err", "ok")]), not failed)]

    def compare(self, eng, fr, st, op, a, b, node):
        if isinstance(b, tuple) and not isinstance(a, tuple):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if not (isinstance(a, tuple) and isinstance(b, int)):
            return None
        if a[0] == "errval" and op in ("==", "!=") and int(b) == 0:
            return self.outcome(st, op == "!=")
        if a[0] != "size":
            return None
        t = {(">", 0): True, (">=", 1): True, ("!=", 0): True, ("==", 0): False, ("<", 1): False, ("<=", 0): False}.get((op, int(b)))
        return None if t is None else self._size(st, a[1], t)

    def _size(self, st, p, t):
        b = self.b(st, p)
        if b == "N":
            return [(st, t)]
        if b == "E":
            return [(st, not t)]
        return [(self.setb(st, p, "N", keep=("P", "A")), t), (self.setb(st, p, "E", keep=("A",)), not t)]

    def truth(self, eng, fr, st, val, node):
        if val == ("errval",):
            return self.outcome(st, True)
        return self._size(st, val[1], True) if isinstance(val, tuple) and val[0] == "size" else None


def T_fields(prog, cls):
    r = prog.records.get(cls)
    return list(r.fields) if r is not None else []


State0 = State((0, frozenset()), frozenset())


def fields_env(prog, cls, st, moving):
    """What is known about members that only the class itself changes."""
    return frozenset((k, v) for k, v in st.env if isinstance(k, str) and k.startswith("this.") and "[" not in k and
                     "." not in k[5:] and "(" not in k and isinstance(v, (bool, int)))


def boolean(e):
    v = [m for m in e.walk() if m.k == "CXXBoolLiteralExpr"]
    return v[0].x["v"] == "1" if len(v) == 1 and not any(is_call(m) for m in e.walk()) else None


def machine(rep, prog, cls, kind, cont, bufs, handlers):
    """Runs all activations from all reachable states."""
    main = "this." + cont.n if cont is not None else None
    entries = []
    for f in sorted(prog.funcs.values(), key=lambda f: (f.name, f.id)):
        if not f.blocks or f.implicit or f.sp in ("dtor", "ctor"):
            continue
        if f.id in handlers:
            entries.append((f, True))
        elif f.cls == cls and f.acc == 0:
            entries.append((f, False))
    ctors = [f for f in prog.funcs.values() if f.cls == cls and f.sp == "ctor" and f.blocks and not f.implicit]
    r = prog.records.get(cls)
    flags = {}
    for x in (r.fields if r is not None else ()):
        if T.bare(x.t) == "bool" and x.init is not None:
            flags[x.n] = boolean(x.init)
    work, seen = [], set()

    def reached(a, b, env):
        s = (a, b, env)
        if s not in seen:
            seen.add(s)
            work.append(s)

    def line(f, rn):
        n = f.nodes.get(rn) if rn is not None else None
        return n.l if n is not None else f.line

    def activate(f, handler, a, b, env):
        cl = Net(prog, rep, cls, cont.n if cont is not None else None, bufs, kind, f, handler)
        facts = set()
        if main:
            facts.add(("b", main, b))
            if handler and kind == "send":
                facts.add(("P", main))
        e = dict(env)
        if handler and len(f.params) > 1:
            e["L%d" % f.params[1][0]] = ("nb",)
        for did, _n, ty in f.params:
            if "MessageQueueProtocol" in ty and "Input" in ty:
                facts.add(("b", "L%d" % did, "U"))
        res = Engine(prog, cl).run(f, (a, frozenset(facts)), env=frozenset(e.items()))
        outs = []
        for k, st, _v, rn in res:
            if k != "ret":
                continue
            rep.count("exit states")
            outs.append((st, rn))
        return cl, outs

    def judge(f, handler, cl, st, rn, a0, b0):
        a, fs = st.c
        b = cl.b(st, main) if main else "U"
        l = line(f, rn)
        if kind == "receive" and a == 0:
            rep.violation("not-rearmed", f.name, l,
                          "a path %s without starting the next receive operation: no further message is received" %
                          ("completes the construction" if f.sp == "ctor" else "leaves the function"),
                          "not-rearmed|%s" % f.name, f.file)
        if kind == "receive" and handler:
            if cl.err(st) != "fail" and ("st", 1) not in fs and not (cl.err(st) is None and cont is None):
                rep.violation("message-lost", f.name, l, "a path through the completion handler does not store the message that was received",
                              "message-lost|%s" % f.name, f.file)
        if kind == "send" and cont is not None:
            if a == 0 and b in ("N", "U") and f.sp != "ctor" and (a, b) != (a0, b0):
                rep.violation("send-not-started", f.name, l,
                              "a path leaves messages in the buffer without a send operation in progress (buffer %s)" %
                              {"U": "possibly not empty"}.get(b, "not empty"), "send-not-started|%s" % f.name, f.file)
            if ("maybe",) in fs and b == "N":
                rep.violation("send-not-started", f.name, l,
                              "the lock is released between looking for pending operations and adding a message: the operation "
                              "may have ended in between, and nothing sends the message", "send-not-started|%s" % f.name, f.file)
            if handler and ("P", main) in fs and cl.err(st) != "fail" and b == "N":
                rep.violation("message-duplicated", f.name, l, "a message that has been sent stays in the buffer",
                              "message-duplicated|%s" % f.name, f.file)
        for x in fs:
            if x[0] == "H" and x[2] == "taken":
                rep.violation("message-dropped", f.name, l, "a message taken from the buffer is not passed on on every path",
                              "message-dropped|%s" % f.name, f.file)
            if x[0] == "b" and x[1] != main and x[1] in locals_of(f) and x[2] != "E" and ("A", x[1]) not in fs:
                rep.violation("message-dropped", f.name, l, "messages moved to a local container are not all passed on",
                              "message-dropped|%s" % f.name, f.file)
        if main and ("A", main) in fs and b != "E":
            rep.violation("message-duplicated", f.name, l, "messages that have been passed on stay in the buffer",
                          "message-duplicated|%s" % f.name, f.file)
        if not handler:
            for p in sorted(cl.drains):
                if p == main and kind == "send" or p == "taken" or p in locals_of(f):
                    continue
                bb = cl.b(st, p)
                if bb != "E" and ("A", p) not in fs:
                    rep.violation("message-left", f.name, l, "a path leaves messages in the buffer although it passes messages on",
                                  "message-left|%s|%s" % (f.name, "own" if p == main else "port"), f.file)

    def locals_of(f):
        return {"L%d" % v.did for n in f.body.walk() if n.k == "DeclStmt" for v in n.x["vars"]}

    for f in ctors:
        rep.count("functions examined")
        env = {"this." + k: v for k, v in flags.items()}
        for d in f.inits:
            if d.get("m") in flags and d.get("e") is not None:
                env["this." + d["m"]] = boolean(d["e"])
        env = {k: v for k, v in env.items() if v is not None}
        cl, outs = activate(f, False, 0, "E", frozenset(env.items()))
        for st, rn in outs:
            judge(f, False, cl, st, rn, 0, "E")
            e = dict(fields_env(prog, cls, st, None))
            reached(max(st.c[0], 1) if kind == "receive" else st.c[0], cl.b(st, main) if main else "U", frozenset(e.items()))
    rep.count("functions examined", len(entries))
    while work and len(seen) < 200:
        a, b, env = work.pop()
        for f, handler in entries:
            if handler and (a < 1 or b == "E" and kind == "send"):
                continue
            cl, outs = activate(f, handler, a - 1 if handler else a, "N" if handler and kind == "send" else b, env)
            for st, rn in outs:
                judge(f, handler, cl, st, rn, a, b)
                a2, b2 = st.c[0], cl.b(st, main) if main else "U"
                if kind == "receive":
                    a2 = max(a2, 1)
                reached(min(a2, 1), b2, fields_env(prog, cls, st, None))
    rep.count("states between activations", len(seen))
