"""Audio outputs are produced completely in every period."""
import re

from .common import *
from vsa.sim import Client, Engine, reaching
from vsa.model import is_call, call_base, call_args, short, LOOPS
from .dbuf import process_roots, root_of, cget, cput

LIBS = ["librcl", "libpanningdsp", "libreverbobject", "libsignalflows", "librbbl"]


def out_port_type(t):
    return "visr::AudioOutputT<" in t or "visr::AudioOutputBase" in t


def is_out_access(n):
    if n.k == "CXXMemberCallExpr":
        return out_port_type(n.x.get("cc") or "") and short(n.x.get("cn") or "") in ("data", "at", "getChannelPointers")
    if n.k == "CXXOperatorCallExpr":
        return out_port_type(n.x.get("cc") or "") and n.x.get("op") == "[]"
    return False


def accumulating(n, prog=None):
    s = short(n.x.get("cn") or "").lower()
    if "inplace" in s or "accumulate" in s or s.endswith("addto"):
        return True
    if s.startswith("vectorrampscaling"):          # the flag selects between overwriting and accumulating
        for t, a in zip(n.x.get("pt") or (), call_args(n)):
            if t == "bool":
                v = a.x.get("cv") or a.x.get("v")
                return v in ("1", "true")
    return False


def block_processor(f):
    """Functions of the signal processing library that are handed buffers to fill."""
    return f.body is not None and bool(f.blocks) and f.name.startswith("visr::rbbl::") and f.sp not in ("ctor", "dtor") and \
        any("*" in t and not t.startswith("const ") and not t.split("*")[0].rstrip().endswith("const") for _d, _n, t in f.params)


def port_of(eng, fr, e, depth=0, st=None):
    """(port path, access node) if the pointer expression e points into an audio output buffer."""
    if e is None or depth > 20:
        return None
    if is_out_access(e) and short(e.x.get("cn") or "") != "getChannelPointers":
        p = eng.path(fr, call_base(e))
        return (p, e) if p else None
    if e.k == "BinaryOperator" and e.x["op"] in ("+", "-"):
        return port_of(eng, fr, e.c[0], depth + 1, st) or port_of(eng, fr, e.c[1], depth + 1, st)
    if e.k == "UnaryOperator" and e.x["op"] in ("&", "*"):
        return port_of(eng, fr, e.c[0], depth + 1, st)
    if e.k == "ArraySubscriptExpr":
        return port_of(eng, fr, e.c[0], depth + 1, st)
    if e.k.endswith("CastExpr") and e.c:
        return port_of(eng, fr, e.c[0], depth + 1, st)
    if e.k == "DeclRefExpr" and "did" in e.x:
        b = eng.lookup(fr, e.x["did"])
        if b is not None and b.rstrip("[]").endswith("#buf"):
            return (b.rstrip("[]")[:-4], e)
        if b is not None and st is not None:
            if b.rstrip("[]") in eng.client.ports:
                return (b.rstrip("[]"), e)
            port = cget(st.c, "@" + b.rstrip("[]").lstrip("&"), None)
            if port is not None:
                return (port, e)
        i = eng.local_init(fr.fn, e.x["did"])
        f = fr
        while i is None and f.parent is not None:
            f = f.parent
            i = eng.local_init(f.fn, e.x["did"])
        if i is not None:
            return port_of(eng, fr, i, depth + 1, st)
    return None


class Out(Client):
    loop_once = True
    pointer_paths = True

    def __init__(self, prog, rep, rel, ports):
        self.prog = prog
        self.ports = ports
        self.rep = rep
        self.rel = rel

    def relevant(self, fn):
        return (fn.id in self.rel or block_processor(fn)) and "AudioOutputT" not in fn.name

    def path_of_call(self, eng, fr, n):
        if is_out_access(n) and short(n.x.get("cn") or "") != "getChannelPointers":
            p = eng.path(fr, call_base(n))
            return p + "#buf" if p else None
        return None

    def write(self, eng, fr, st, n, port, acc, access):
        self.rep.count("writes evaluated")
        s = cget(st.c, port)
        r = root_of(fr)
        if acc and s != "W":
            self.rep.violation("accumulate-uninitialised", r.fn.name, n.l,
                               "output %s is accumulated into at %s on a path where it has not been written in this period: the previous "
                               "buffer content leaks into the signal" % (port, fr.fn.loc(n)),
                               "accumulate-uninitialised|%s|%s" % (r.fn.name, port), fr.fn.file)
        if not acc:
            self.check_extent(eng, fr, st, n, port, access)
            if s != "W" and self.selected(eng, fr, st, n, port):
                return st          # only the channels some table mentions
        return st.client(cput(st.c, port, "W"))

    def selected(self, eng, fr, st, n, port):
        """The channel written is named by an element of a table: only the channels that occur in it are written."""
        f, node = fr, n
        while f is not None and node is not None:
            used = self.index_vars(eng, f, st, node, port)
            loop = node
            while loop is not None and used:
                if loop.k == "CXXForRangeStmt":
                    for c in loop.c:
                        for v in c.x["vars"] if c is not None and c.k == "DeclStmt" else ():
                            if v.did in used and re.search(r"Routing|tuple<|pair<", v.t or ""):
                                self.rep.count("table-selected writes")
                                return True
                loop = loop.p
            node, f = f.call, f.caller
        return False

    def index_vars(self, eng, fr, st, node, port):
        """Variables that select the channel in the expressions of node that point into the output's buffers."""
        out = set()

        def ints(e, depth=0):
            for d in e.walk():
                if d.k == "DeclRefExpr" and d.x.get("did"):
                    if "*" in (d.t or "") or "&" in (d.t or ""):
                        i = eng.local_init(fr.fn, d.x["did"])
                        if i is not None and depth < 5:
                            ints(i, depth + 1)
                    else:
                        out.add(d.x["did"])
                        i = strip1(eng.local_init(fr.fn, d.x["did"]))
                        if i is not None and depth < 5 and not loop_vars_of(fr.fn, d.x["did"]):
                            ints(i, depth + 1)
        es = call_args(node) if is_call(node) else [node.c[0]] if node.c else []
        for e in es:
            po = port_of(eng, fr, e, 0, st)
            if po is None:
                p = eng.path(fr, e) if "*" in (e.t or "") else None
                if p is None or p.rstrip("[]").replace("#buf", "") != port and cget(st.c, "@" + p.rstrip("[]"), None) != port:
                    continue
            elif po[0] != port:
                continue
            ints(e)
        return out

    def wrong_bound(self, eng, fr, loop, v, port):
        """The loop counts to the width of something else than the output."""
        for c in loop.c:
            if c.k != "BinaryOperator" or c.x["op"] not in ("<", "!=") or c.c[0].k != "DeclRefExpr" or c.c[0].x.get("did") != v.did:
                continue
            b = c.c[1]
            seen = 0
            while b is not None and b.k == "DeclRefExpr" and seen < 4:
                i = strip1(eng.local_init(fr.fn, b.x.get("did", -1)))
                if i is None:
                    break
                b = i
                seen += 1
            if b is None or not is_call(b):
                return None
            s = short(b.x.get("cn") or "")
            if s in ("min", "fmin"):
                return "ends at the smaller of two numbers"
            if s == "width" and call_base(b) is not None:
                q = eng.path(fr, call_base(b))
                if q is not None and q != port and q.startswith("this.") and q.count(".") == 1:
                    a, w = self.widths(q[5:]), self.widths(port[5:])
                    if any(a[g] != w[g] for g in a if g in w):
                        return "runs over the channels of %s instead of the output's" % q
            if s in ("numberOfRows", "numberOfColumns") and len(b.c):
                mat = call_base(b)
                for e in loop.walk():       # a row counter used as column index or the other way round
                    if e.k == "CXXOperatorCallExpr" and e.x.get("op") == "()" and "BasicMatrix" in (e.x.get("cc") or "") and len(call_args(e)) == 3:
                        a = [strip_cast(x) for x in call_args(e)[1:]]
                        if [x.k == "DeclRefExpr" and x.x.get("did") == v.did for x in a] == [s != "numberOfRows", s == "numberOfRows"]:
                            return "counts the %s of the matrix although it selects a %s" % \
                                (("rows", "column") if s == "numberOfRows" else ("columns", "row"))
            m = re.match(r"(numberOf|num)(In|Out)put(s|Channels)$", s, re.I)
            if m and m.group(2) == "In":
                r = self.prog.records.get(fr.fn.cls)
                if fr.fn.cls and any(g.cls == fr.fn.cls and short(g.name) == s.replace("In", "Out").replace("in", "out") for g in self.prog.funcs.values()):
                    return "runs over the inputs instead of the outputs"
        return None

    def widths(self, field):
        """Texts of the widths a port of the analysed component is given."""
        cls = self.cls
        out = {}
        for g in self.prog.funcs.values():
            if g.cls != cls:
                continue
            for i in g.inits or ():
                if i.get("m") and i["m"].split("::")[-1] == field and i.get("e") is not None:
                    e = i["e"]
                    while e is not None and len(e.c) == 1 and e.k not in ("CXXConstructExpr",):
                        e = e.c[0]
                    a = e.c if e.k in ("CXXConstructExpr", "InitListExpr") else []
                    if len(a) > 2 and a[2] is not None and a[2].k != "CXXDefaultArgExpr":
                        out.setdefault(g.id, set()).add(spell(a[2]))
            for n in g.body.walk() if g.body is not None else ():
                if is_call(n) and short(n.x.get("cn") or "") == "setWidth" and call_base(n) is not None and call_base(n).k == "MemberExpr" and call_base(n).x.get("m") == field:
                    out.setdefault(g.id, set()).add(spell(call_args(n)[0]))
        return out

    def check_extent(self, eng, fr, st, n, port, access):
        """Channel loops run over all channels of the output; the length covers the period."""
        r = root_of(fr)
        f, node = fr, n
        while f is not None and node is not None:
            used = self.index_vars(eng, f, st, node, port)
            loop = node
            while loop is not None and used:
                if loop.k == "ForStmt":
                    for v in loop_vars(loop):
                        if v.did in used:
                            self.rep.count("channel loops checked")
                            why = loop_gap(eng, f, loop, v) or self.wrong_bound(eng, f, loop, v, port)
                            if why:
                                self.rep.violation("channels-skipped", r.fn.name, loop.l,
                                                   "the loop writing output %s %s" % (port, why),
                                                   "channels-skipped|%s|%s" % (r.fn.name, port), f.fn.file)
                loop = loop.p
            node, f = f.call, f.caller
        # length argument of the vector functions
        if (n.x.get("cn") or "").startswith("visr::efl::"):
            for a in call_args(n):
                g = short_length(eng, fr, a)
                if g:
                    self.rep.violation("samples-skipped", r.fn.name, n.l,
                                       "the write to output %s does not cover the period: length is %s" % (port, g),
                                       "samples-skipped|%s|%s" % (r.fn.name, port), fr.fn.file)

    def after(self, eng, fr, st, n):
        if is_call(n) and is_out_access(n) and short(n.x.get("cn") or "") == "getChannelPointers":
            port = eng.path(fr, call_base(n))
            a = call_args(n)
            if port and a:
                p = eng.path(fr, a[0])
                if p:
                    return st.client(cput(st.c, "@" + p.rstrip("[]"), port))
            return None
        if is_call(n) and not is_out_access(n):
            if self.prog.callees(n) and any(self.relevant(f) for f in self.prog.callees(n)):
                return None
            args = call_args(n)
            if n.k == "CXXOperatorCallExpr" and n.x.get("cc"):
                args = args[1:]
            for t, a in zip(n.x.get("pt") or (), args):
                if "*" not in t or t.startswith("const ") or ("const *" in t.replace("*const", "") and t.count("*") == 1):
                    continue
                po = port_of(eng, fr, a, 0, st)
                if po is not None:
                    st = self.write(eng, fr, st, n, po[0], accumulating(n), po[1])
                    continue
                p = eng.path(fr, a)
                if p is not None:
                    port = cget(st.c, "@" + p.rstrip("[]"), None)
                    if port is not None:
                        st = self.write(eng, fr, st, n, port, accumulating(n), None)
            return st
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.x["op"] in ("=", "+="):
            t = n.c[0]
            if t.k in ("ArraySubscriptExpr",) or t.k == "UnaryOperator" and t.x["op"] == "*":
                po = port_of(eng, fr, t, 0, st)
                if po is not None:
                    return self.write(eng, fr, st, n, po[0], n.x["op"] == "+=", po[1])
        return None


def spell(e):
    """A text for an expression: two expressions of one function with the same text have the same value."""
    e = strip1(e)
    return "%s(%s)" % (e.x.get("did") or e.x.get("m") or e.x.get("q") or e.x.get("v") or e.x.get("cn") or e.x.get("op") or e.k, ",".join(spell(c) for c in e.c if c is not None)) \
        if e.k not in ("ImplicitCastExpr", "CXXStaticCastExpr") or not e.c else spell(e.c[0])


def loop_vars_of(fn, did):
    for n in fn.body.walk():
        if n.k == "ForStmt" and any(v.did == did for v in loop_vars(n)):
            return True
    return False


def loop_vars(loop):
    for c in loop.c:
        if c.k == "DeclStmt":
            return c.x["vars"]
    return []


def strip1(e):
    while e is not None and e.k == "InitListExpr" and len(e.c) == 1:
        e = e.c[0]
    return e


def strip_cast(e):
    while e is not None and e.k.endswith("CastExpr") and len(e.c) == 1:
        e = e.c[0]
    return e


def const_of(e):
    e = strip1(e)
    if e is None:
        return None
    if e.k == "IntegerLiteral":
        return int(e.x["v"])
    if "cv" in e.x:
        try:
            return int(e.x["cv"])
        except ValueError:
            return None
    return None


def reduced(e):
    """Description if the bound is visibly a number of elements minus/divided by something."""
    for d in e.walk():
        if d.k == "BinaryOperator" and d.x["op"] in ("-", "/"):
            return "reduced by '%s'" % d.x["op"]
    return None


def own_break(loop):
    st = [c for c in loop.c if c is not None]
    while st:
        n = st.pop()
        if n.k == "BreakStmt":
            return n
        if n.k in LOOPS or n.k in ("SwitchStmt", "LambdaExpr"):
            continue
        st += [c for c in n.c if c is not None]
    return None


def loop_gap(eng, fr, loop, v):
    if own_break(loop) is not None:
        return "can be left before the last channel"
    c0 = const_of(v.init)
    if c0 is not None and c0 > 0:
        return "starts at channel %d" % c0
    for c in loop.c:
        if c.k == "BinaryOperator" and c.x["op"] in ("<", "!=", "<="):
            if c.c[0].k == "DeclRefExpr" and c.c[0].x.get("did") == v.did:
                b = c.c[1]
                seen = 0
                while b is not None and b.k == "DeclRefExpr" and seen < 4:
                    i = strip1(eng.local_init(fr.fn, b.x.get("did", -1)))
                    if i is None:
                        break
                    b = i
                    seen += 1
                if b is not None and c.x["op"] != "<=":
                    r = reduced(b)
                    if r:
                        return "ends before the last channel (bound %s)" % r
    for c in loop.c:
        if c.k == "CompoundAssignOperator" and c.x["op"] == "+=" and c.c[0].x.get("did") == v.did:
            k = const_of(c.c[1])
            if k is not None and k > 1:
                return "advances in steps of %d" % k
    return None


def short_length(eng, fr, a):
    e = a
    n = 0
    while e is not None and e.k == "DeclRefExpr" and n < 4:
        i = strip1(eng.local_init(fr.fn, e.x.get("did", -1)))
        if i is None:
            return None
        e = i
        n += 1
    if e is None:
        return None
    e = strip1(e)
    if e.k == "BinaryOperator" and e.x["op"] in ("-", "/"):
        for d in e.c[0].walk():
            i = strip1(eng.local_init(fr.fn, d.x["did"])) if d.k == "DeclRefExpr" and d.x.get("did") else None
            if d.k == "CXXMemberCallExpr" and short(d.x.get("cn") or "") in ("period", "blockLength", "blockSize") or \
                    d.k == "MemberExpr" and re.match(r"m?(block(Length|Size)|period(Size|Length)?)$", d.x.get("m") or "", re.I) or \
                    i is not None and is_call(i) and short(i.x.get("cn") or "") in ("period", "blockLength", "blockSize"):
                return "the period %s something" % ("minus" if e.x["op"] == "-" else "divided by")
    return None


def check(rep):
    prog = program(LIBS)
    rel = reaching(prog, is_out_access)
    roots = process_roots(prog, rel)
    declared = {}
    for f in prog.funcs.values():
        if f.cls and short(f.name) == "process" and not f.params and f.blocks and prog.is_derived(f.cls, "visr::AtomicComponent"):
            r = prog.records.get(f.cls)
            fl = [x for x in (r.fields if r else ()) if out_port_type(x.t)]
            if fl:
                declared[f] = fl
    for f, fields in sorted(declared.items(), key=lambda x: x[0].name):
        rep.count("process functions")
        cl = Out(prog, rep, rel, set("this." + x.n for x in fields))
        cl.cls = f.cls
        eng = Engine(prog, cl)
        res = eng.run(f, frozenset())
        rep.count("paths explored", eng.steps)
        for fl in fields:
            p = "this." + fl.n
            rep.count("outputs")
            st_ = set()
            for kind, st, _v, rn in res:
                if kind != "ret":
                    continue
                rep.count("exit states")
                s = cget(st.c, p)
                st_.add(s)
                if s == "W" or st.get(p + ".width()") == 0 or st.get(p) is False:
                    continue
                n = f.nodes.get(rn) if rn is not None else None
                rep.violation("not-written", f.name, n.l if n is not None else f.line,
                              "a path completes process() without writing audio output %s: the connected input sees the content of an "
                              "earlier period" % p, "not-written|%s|%s" % (f.name, p), f.file)
            rep.sample("%s: %s exits in %s" % (f.name, p, "/".join(sorted(st_))))
    rep.need("process functions", 12)
    rep.need("writes evaluated", 14)
