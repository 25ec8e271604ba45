"""An inconsistent signal flow is never brought to execution."""
import re
from .common import *
from vsa.sim import Client, Engine
from vsa.model import is_call, call_base, call_args, short, LOOPS

LIBS = ["librrl", "libvisr"]
ROOT = "visr::rrl::AudioSignalFlow::AudioSignalFlow"
ATTR = ("sampleType", "protocolType", "parameterType")
NAMED = ("sender", "receiver", "sendIndices", "receiveIndices", "allNonPlaceholderSendPorts", "allNonPlaceholderReceivePorts",
         "sendPorts", "receivePorts", "port")
PORTSET = re.compile(r"^(const )?std::set<.*PortBaseImplementation")
COUNTS = re.compile(r"^(const )?std::map<.*AudioChannel, (unsigned long|std::size_t|size_t|int|unsigned int)")

REQUIRED = {
    "sampleType": "the sample types of connected audio ports are compared",
    "protocolType": "the communication protocols of connected parameter ports are compared",
    "parameterType": "the parameter types of connected parameter ports are compared",
    "config": "the parameter configurations of connected parameter ports are compared",
    "index-send": "the send channel indices are compared to the width of the sending port",
    "index-recv": "the receive channel indices are compared to the width of the receiving port",
    "index-count": "the numbers of send and receive channel indices are compared",
    "audio-open-send": "audio outputs without connection are detected",
    "audio-open-recv": "audio inputs without connection are detected",
    "param-open-send": "parameter outputs without connection are detected",
    "param-open-recv": "parameter inputs without connection are detected",
}
LOCAL = ("sampleType", "audio-open-send", "audio-open-recv", "param-open-send", "param-open-recv")


def is_checker(f):
    return f.ret == "bool" and any(t in ("std::ostream &", "std::basic_ostream<char> &") for _d, _n, t in f.params)


def role_of(path):
    if path is None:
        return None
    i = max(path.rfind(x) for x in ("sender()", "sendIndices()", "SendPorts()", "sendPorts()", ".first"))
    j = max(path.rfind(x) for x in ("receiver()", "receiveIndices()", "ReceivePorts()", "receivePorts()", ".second"))
    if i == j:
        return None
    return "send" if i > j else "recv"


class Flow(Client):
    def __init__(self, prog, rep, rel):
        self.prog = prog
        self.rep = rep
        self.rel = rel
        self.atoms = {}
        self.descends = set()
        self.recsites = set()
        self.iterations = {}
        self.exits = {}

    counters = True

    def relevant(self, fn):
        return fn.id in self.rel

    # -- trace: which checks were made in the current iteration of each open loop and in each open function
    def did(self, fr, st, kind, n):
        """Record in the innermost open scope around n."""
        sc = ("fn", fr.fn.id)
        p = n.p if n is not None else None
        while p is not None:
            if p.k in LOOPS and st.get(("sc", fr.depth, ("loop", fr.fn.id, p.i))) is not None:
                sc = ("loop", fr.fn.id, p.i)
                break
            p = p.p
        k = ("sc", fr.depth, sc)
        v = st.get(k) or frozenset()
        return st if kind in v else st.set(k, v | {kind})

    def loop(self, eng, fr, st, loop, entering):
        key = ("loop", fr.fn.id, loop.i)
        k = ("sc", fr.depth, key)
        v = st.get(k)
        if v is not None:
            if not any(d == fr.depth for d, _w in st.c):
                self.iterations.setdefault(key, set()).add((v, False))
            st = st.set(k, None)
        st = self.did(fr, st, key, loop)
        if entering:
            st = st.set(k, frozenset())
        return st

    def none_of(self, eng, fr, st, n, others):
        for k, v in list(st.env):
            if isinstance(k, tuple) and k[0] == "sc" and k[1] == fr.depth:
                new = [o.get(k) or frozenset() for o in others]
                if new:
                    st = st.set(k, v | frozenset.intersection(*new))
        return st

    # -- marks: (depth, text)
    def mark(self, fr, st, kind, n, what, role=None):
        chain = set()
        f = fr
        while f is not None:
            chain.add(f.fn.id)
            f = f.caller
        self.atoms.setdefault(kind, []).append((fr.fn.loc(n), frozenset(chain)))
        return self.add(fr, st, n, what)

    def add(self, fr, st, n, what):
        if any(d == fr.depth for d, _w in st.c):
            return st
        return st.client(st.c | {(fr.depth, "%s at %s" % (what, fr.fn.loc(n)))})

    # -- naming
    def path_of_call(self, eng, fr, n):
        s = short(n.x.get("cn") or "")
        if n.k == "CXXMemberCallExpr" and s in NAMED and not call_args(n) and (n.x.get("cc") or "").startswith("visr::"):
            b = eng.path(fr, call_base(n))
            return "%s.%s()" % (b if b is not None else "?", s)
        if s == "max_element" and (n.x.get("cn") or "").startswith("std::"):
            return eng.path(fr, call_args(n)[0])
        if n.k == "CXXMemberCallExpr" and s in ("begin", "cbegin") and "ChannelList" in (n.x.get("cc") or ""):
            b = eng.path(fr, call_base(n))
            return None if b is None else b + "[]"
        if n.k == "CXXMemberCallExpr" and s == "find":
            b = eng.path(fr, call_base(n))
            return None if b is None else b + "[found]"
        return None

    def table_role(self, eng, fr, path):
        m = re.match(r"^L(\d+)\[\](\[\])?\.second$", path or "")
        if not m:
            return None
        did = int(m.group(1))
        f = fr
        while f is not None:
            i = eng.local_init(f.fn, did)
            if i is not None:
                names = set(short(x.x.get("cn") or "") for x in i.walk() if is_call(x))
                if "allNonPlaceholderSendPorts" in names:
                    return "send"
                if "allNonPlaceholderReceivePorts" in names:
                    return "recv"
                return None
            f = f.caller or f.parent
        return None

    def sym(self, eng, fr, st, n):
        if n.k == "MemberExpr" and n.x.get("m") == "second" and n.x.get("mk") == "field" and n.c:
            p = eng.path(fr, n)
            r = self.table_role(eng, fr, p)
            if r:
                return ("count", r)
        if n.k == "DeclRefExpr" and fr.fn.lambda_:
            p = eng.path(fr, n)
            if p and p.endswith("Indices()[]"):
                return ("idx", role_of(p))
        return None

    # -- calls
    def call(self, eng, fr, st, n, callees):
        cn = n.x.get("cn") or ""
        s = short(cn)
        cc = n.x.get("cc") or ""
        if n.k == "CXXMemberCallExpr":
            if s == "isComposite" and not call_args(n):
                p = eng.path(fr, n)
                was = st.get(p) if p is not None else None
                out = []
                for b in (True, False):
                    if not isinstance(was, bool) or was == b:
                        s2 = st.set(p, b) if p is not None else st
                        out.append((s2 if b else s2.set(("sc", fr.depth, ("atomic",)), frozenset()), b))
                return out
            if s in ATTR and "Port" in cc and not call_args(n):
                return [(st, ("attr", s, eng.path(fr, call_base(n)) or "?%d" % n.i))]
            if s == "compare" and "ParameterConfigBase" in cc or (s == "compare" and cc.startswith("visr::pml::") and "Config" in cc):
                st = self.did(fr, st, "config", n)
                x, y = eng.canon(fr, call_base(n)), eng.canon(fr, call_args(n)[0]) if call_args(n) else None
                if x is not None and x == y and "[]" not in x:
                    self.rep.violation("compared-with-itself", fr.fn.name, n.l, "a parameter configuration is compared with itself at %s" %
                                       fr.fn.loc(n), "compared-with-itself|%s|config" % fr.fn.name, fr.fn.file)
                    return [(st, True)]
                bad = self.mark(fr, st, "config", n, "incompatible parameter configurations found")
                return [(st, True), (bad, False), (bad, None, "throw")]
            if s in ("allNonPlaceholderSendPorts", "allNonPlaceholderReceivePorts"):
                kind = "audio" if "AudioPort" in n.t or "AudioPort" in cc else "param"
                return [(st, ("ports", kind, "send" if "Send" in s else "recv"))]
            if s == "empty" and not call_args(n):
                p = eng.path(fr, call_base(n)) or ""
                if p.endswith("Indices()"):
                    return [(self.did(fr, self.did(fr, st, "index-send", n), "index-recv", n), True), (st, False)]
            if s == "size" and not call_args(n):
                p = eng.path(fr, call_base(n))
                if p and p.endswith("Indices()"):
                    return [(st, ("isize", role_of(p)))]
            if s == "width" and "Port" in cc:
                r = role_of(eng.path(fr, call_base(n)))
                if r:
                    return [(st, ("width", r))]
            b = call_base(n)
            if b is not None and s in ("find", "end", "cend", "count") and cn.startswith("std::"):
                t = b.t.rstrip(" &")
                if PORTSET.match(t) or COUNTS.match(t):
                    if s == "find" or s == "count":
                        p = eng.path(fr, call_args(n)[0])
                        kind = "audio" if ("AudioPort" in t or "AudioChannel" in t) else "param"
                        return [(st, (s, kind, role_of(p), bool(p and "NonPlaceholder" in p)))]
                    return [(st, ("end",))]
        if n.k == "CXXOperatorCallExpr":
            op = n.x.get("op")
            if op in ("==", "!=") and len(n.c) > 2:
                a, b = eng.value(fr, st, n.c[1]), eng.value(fr, st, n.c[2])
                if isinstance(b, tuple) and b[0] == "ports":
                    a, b = b, a
                if isinstance(a, tuple) and a[0] == "ports":
                    if b == a:
                        self.rep.violation("compared-with-itself", fr.fn.name, n.l, "the set of ports is compared with itself at %s" %
                                           fr.fn.loc(n), None, fr.fn.file)
                    st = self.did(fr, st, "%s-open-%s" % (a[1], a[2]), n)
                    bad = self.mark(fr, st, "%s-open-%s" % (a[1], a[2]), n, "unconnected ports found")
                    return [(st, op == "=="), (bad, op == "!=")]
            if op == "<<" and len(n.c) > 2:
                l = n
                while l.k == "CXXOperatorCallExpr" and l.x.get("op") == "<<":
                    l = l.c[1]
                if l.k == "DeclRefExpr" and l.x.get("dk") == "ParmVar" and "ostream" in l.t and \
                        fr.fn.ret.find("ostream") < 0:
                    return [(self.add(fr, st, n, "problem reported"), None)]
            if op in ("*", "[]"):
                p = eng.path(fr, n)
                if p and re.search(r"Indices\(\)\[\]$", p) and not single(n):
                    return [(st, ("idx", role_of(p)))]
        if s == "includes" and cn.startswith("std::"):
            for a in call_args(n):
                p = eng.path(fr, a) or ""
                m = re.search(r"allNonPlaceholder(Send|Receive)Ports", p)
                if m:
                    kind = "param" if "ParameterPort" in a.t else "audio"
                    st = self.did(fr, st, "%s-open-%s" % (kind, "send" if m.group(1) == "Send" else "recv"), n)
                    bad = self.mark(fr, st, "%s-open-%s" % (kind, "send" if m.group(1) == "Send" else "recv"), n,
                                    "unconnected ports found")
                    return [(st, True), (bad, False)]
        if len(callees) == 1 and is_checker(callees[0]):
            f = callees[0]
            if f.id not in self.rel:
                st = self.did(fr, st, ("chk", f.id), n)
                return [(st, True), (self.add(fr, st, n, "negative result of %s" % short(f.name)), False)]
            if eng.active_fns.get(f.id, 0) >= 1:
                self.descends.add(f.id)
                self.recsites.add((fr.fn.id, n.i))
                st = self.did(fr, st, ("rec", f.id), n)
                for (_d, pn, pt), a in zip(f.params, call_args(n)):
                    if pt in ("bool", "const bool") and eng.value(fr, st, a) is False:
                        self.rep.violation("not-hierarchical", fr.fn.name, n.l, "the check of the components inside a composite component does "
                                           "not descend any further at %s (argument '%s' is false)" % (fr.fn.loc(n), pn),
                                           "not-hierarchical|" + f.name, fr.fn.file)
                return [(st, True), (self.add(fr, st, n, "negative result of %s" % short(f.name)), False)]
        return None

    def compare(self, eng, fr, st, op, a, b, node):
        if not isinstance(a, tuple):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if isinstance(b, tuple) and a[0] in ("end", "width") and b[0] not in ("end", "width"):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        both = [(st, True), (st, False)]
        if a[0] == "attr" and isinstance(b, tuple) and b[0] == "attr" and op in ("==", "!="):
            if a[1] != b[1]:
                return both
            if a[2] == b[2] and "[]" not in a[2] and "?" not in a[2]:
                self.rep.violation("compared-with-itself", fr.fn.name, node.l, "%s of one port is compared with itself at %s" %
                                   (a[1], fr.fn.loc(node)), "compared-with-itself|%s|%s" % (fr.fn.name, a[1]), fr.fn.file)
                return [(st, op == "==")]
            st = self.did(fr, st, a[1], node)
            bad = self.mark(fr, st, a[1], node, "%s mismatch found" % a[1])
            return [(st, op == "=="), (bad, op == "!=")]
        if a[0] == "find" and isinstance(b, tuple) and b[0] == "end" and op in ("==", "!="):
            kind = "%s-known-%s" % (a[1], a[2])
            if a[3]:
                kind = "%s-open-%s" % (a[1], a[2])
            st = self.did(fr, st, kind, node)
            bad = self.mark(fr, st, kind, node, "port lookup failed")
            return [(bad, op == "=="), (st, op == "!=")]
        if a[0] == "count" and len(a) == 4:
            if isinstance(b, int):
                out = []
                for v in (0, 1):
                    s2 = st if v else self.mark(fr, st, "%s-%s-%s" % (a[1], "open" if a[3] else "known", a[2]), node, "port lookup failed")
                    out.append((s2, ev(v, op, int(b))))
                return out
            return both
        if a[0] == "count" and isinstance(b, int):
            if ev(0, op, int(b)) != ev(1, op, int(b)):
                st = self.did(fr, st, "audio-open-" + a[1], node)
            out = []
            for v in (0, 1, 2, 9):
                bad = v == 0 or (a[1] == "recv" and v > 1)
                s2 = st
                t = ev(v, op, int(b))
                if bad:
                    # only a test that singles the bad case out is a detection
                    if t != ev(1, op, int(b)):
                        s2 = self.mark(fr, st, "audio-open-" + a[1] if v == 0 else "audio-multi", node, "badly connected channel found")
                out.append((s2, t))
            return list(set(out))
        if a[0] == "isize" and isinstance(b, tuple) and b[0] == "isize" and op in ("==", "!="):
            if a[1] == b[1]:
                self.rep.violation("compared-with-itself", fr.fn.name, node.l, "the number of channel indices is compared with itself at %s"
                                   % fr.fn.loc(node), None, fr.fn.file)
                return [(st, op == "==")]
            st = self.did(fr, st, "index-count", node)
            bad = self.mark(fr, st, "index-count", node, "different numbers of channel indices found")
            return [(st, op == "=="), (bad, op == "!=")]
        if a[0] == "isize" and isinstance(b, int):
            none = self.did(fr, self.did(fr, st, "index-send", node), "index-recv", node)        # nothing to check
            return list(set((none if v == 0 else st, ev(v, op, int(b))) for v in (0, 1, 5)))
        if a[0] == "idx" and isinstance(b, tuple) and b[0] == "width":
            st = self.did(fr, st, "index-" + a[1], node)
            if a[1] != b[1]:
                self.rep.violation("wrong-width", fr.fn.name, node.l, "channel indices of the %s side are compared with the width of the "
                                   "other side at %s" % (a[1], fr.fn.loc(node)), None, fr.fn.file)
            out = []
            for v in (0, 1, 2):      # below, at, beyond the width (1)
                s2 = st
                if v >= 1:
                    s2 = self.mark(fr, st, "index-" + a[1], node, "channel index %s the port width" % ("equal to" if v == 1 else "beyond"))
                out.append((s2, ev(v, op, 1)))
            return list(set(out))
        return both

    def truth(self, eng, fr, st, val, node):
        if val[0] == "count" and len(val) == 4:
            bad = self.mark(fr, st, "%s-%s-%s" % (val[1], "open" if val[3] else "known", val[2]), node, "port lookup failed")
            return [(st, True), (bad, False)]
        if val[0] == "count":
            return self.compare(eng, fr, st, "!=", val, 0, node)
        return None

    # -- exits
    def throwing(self, eng, fr, st, node, tt):
        if node.k == "CXXThrowExpr":
            return st.client(frozenset(m for m in st.c if m[0] < fr.depth))
        return st

    def unwind(self, eng, fr, st, trynode):
        if trynode is not None:
            c = frozenset(m for m in st.c if m[0] <= fr.depth)
            return self.add(fr, st.client(c), trynode, "exception caught")
        return st.client(frozenset(m for m in st.c if m[0] < fr.depth))

    def leave(self, eng, fr, st, kind):
        f = fr.fn
        if kind == "ret" and not any(m[0] >= fr.depth for m in st.c):
            r = st.get(("ret", fr.depth))
            v = st.get(("sc", fr.depth, ("fn", f.id))) or frozenset()
            full = eng.unstripped
            exempt = st.get(("sc", fr.depth, ("atomic",))) is not None or any(isinstance(k, str) and k.endswith("isComposite()") and x is False for k, x in full.env) or \
                any(t in ("bool", "const bool") and full.get("L%d" % d) is False for d, _n, t in f.params)
            if not (is_checker(f) and r is False) and not exempt:
                self.exits.setdefault(f.id, set()).add(v)
                for k, x in st.env:
                    if isinstance(k, tuple) and k[0] == "sc" and k[1] == fr.depth and k[2][0] == "loop":
                        self.iterations.setdefault(k[2], set()).add((x, True))
        st = st.kill(lambda k: isinstance(k, tuple) and k[0] == "sc" and k[1] >= fr.depth)
        if fr.caller is not None and fr.call is not None:
            st = self.did(fr.caller, st, ("fn", f.id), fr.call)
        return self.leave_(eng, fr, st, kind)

    def leave_(self, eng, fr, st, kind):
        own = [m for m in st.c if m[0] >= fr.depth]
        if not own:
            return st
        keep = frozenset(m for m in st.c if m[0] < fr.depth)
        if kind == "throw":
            return st.client(keep)
        f = fr.fn
        what = sorted(own)[0][1]
        if is_checker(f):
            r = st.get(("ret", fr.depth))
            if r is True:
                self.rep.violation("accepted-despite-problem", f.name, f.line, "%s returns a positive result although: %s" %
                                   (short(f.name), what), "accepted|%s|%s" % (f.name, re.sub(r" at \S+$", "", what)), f.file)
                return st.client(keep)
            if r is None:
                return st.client(keep)
            what = "negative result of %s (%s)" % (short(f.name), what)
        elif f.name == ROOT:
            self.rep.violation("accepted-despite-problem", f.name, f.line, "the signal flow is constructed although: %s" % what,
                               "accepted|%s|%s" % (f.name, re.sub(r" at \S+$", "", what)), f.file)
            return st.client(keep)
        if fr.depth == 0:
            return st.client(keep)
        if not any(d == fr.depth - 1 for d, _w in keep):
            keep |= {(fr.depth - 1, re.sub(r"( \(.*)?$", "", what) if False else what.split(" (negative")[0])}
        return st.client(keep)


def ev(a, op, b):
    return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]


def single(n):
    """Access to one particular element (the first, the last, the k-th)."""
    def strip(x):
        while x is not None and (x.k.endswith("CastExpr") or x.k in ("ParenExpr", "MaterializeTemporaryExpr", "CXXConstructExpr",
                                                                      "ExprWithCleanups", "CXXBindTemporaryExpr")) and len(x.c) == 1:
            x = x.c[0]
        return x
    if n.x.get("op") == "[]":
        i = strip(n.c[-1])
        return i.k != "DeclRefExpr"
    i = strip(n.c[-1])
    return is_call(i) and short(i.x.get("cn") or "") in ("begin", "cbegin", "prev", "next", "rbegin") or \
        i.k in ("CXXOperatorCallExpr", "BinaryOperator") and i.x.get("op") in ("+", "-")


def judge(f):
    """Helper that throws depending on a verdict passed to it."""
    return f.ret == "void" and any(t in ("bool", "const bool") for _d, _n, t in f.params) and f.body is not None and \
        any(n.k == "CXXThrowExpr" for n in f.body.walk())


def reach(prog, root):
    seen, todo = set(), [root]
    while todo:
        f = todo.pop()
        if f.id in seen:
            continue
        seen.add(f.id)
        for b in [f.body] + [i["e"] for i in f.inits]:
            if b is None:
                continue
            for n in b.walk():
                if is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    todo += prog.callees(n)
                if n.k == "LambdaExpr" and n.x.get("lambda") in prog.funcs:
                    todo.append(prog.funcs[n.x["lambda"]])
    return seen


def writes(n):
    """Output to a stream passed in by the caller."""
    if n.k == "CXXOperatorCallExpr" and n.x.get("op") == "<<" and len(n.c) > 2:
        l = n
        while l.k == "CXXOperatorCallExpr" and l.x.get("op") == "<<" and len(l.c) > 2:
            l = l.c[1]
        return l.k == "DeclRefExpr" and l.x.get("dk") == "ParmVar" and "ostream" in l.t
    return False


def interesting(n):
    if not is_call(n):
        return False
    s = short(n.x.get("cn") or "")
    cc = n.x.get("cc") or ""
    if s in ATTR and "Port" in cc:
        p = n.p
        while p is not None and p.k not in ("BinaryOperator", "CXXOperatorCallExpr", "DeclStmt", "CompoundStmt", "ReturnStmt"):
            p = p.p
        return p is not None and p.k in ("BinaryOperator", "CXXOperatorCallExpr", "DeclStmt") and not n.fn.lambda_
    if s in ("find", "count") and call_base(n) is not None and (PORTSET.match(call_base(n).t) or COUNTS.match(call_base(n).t)):
        return True
    return s in ("sendIndices", "receiveIndices", "allNonPlaceholderSendPorts", "allNonPlaceholderReceivePorts")


def trace_rules(rep, prog, cl, REQ, verdicts):
    """Each check that is made in some iteration of a loop (before some positive result) is made in all of them."""
    def kinds(ks, seen=()):
        out = set()
        for k in ks:
            if k in seen:
                continue
            if isinstance(k, tuple) and k[0] == "loop":
                out |= resp(k, seen + (k,))
            elif isinstance(k, tuple) and k[0] == "fn":
                ex = [kinds(x, seen + (k,)) for x in cl.exits.get(k[1], ())]
                if ex:
                    out |= set.union(*ex) if is_checker(prog.funcs[k[1]]) else set.intersection(*ex)
            else:
                out.add(k)
        return out

    def resp(key, seen=()):
        out = set()
        for ks, aborted in cl.iterations.get(key, ()):
            out |= kinds(ks, seen)
        return out

    def text(k):
        if isinstance(k, tuple):
            return "%s is applied" % short(prog.funcs[k[1]].name)
        return REQ[k]
    judged = lambda k: k in REQ or verdicts and isinstance(k, tuple)
    for key, its in sorted(cl.iterations.items(), key=str):
        g = prog.funcs[key[1]]
        need = set(k for k in resp(key) if judged(k))
        if not need:
            continue
        rep.count("loops making checks")
        n = g.nodes[key[2]]
        for ks, aborted in its:
            rep.count("iterations of loops making checks")
            miss = need - kinds(ks)
            if aborted:
                rep.violation("not-for-all", g.name, n.l, "the loop in which %s can be left before its end without a problem" %
                              text(sorted(need, key=str)[0]), "not-for-all|%s|aborted" % g.name, g.file)
            elif miss:
                k = sorted(miss, key=str)[0]
                rep.violation("not-for-all", g.name, n.l, "an iteration of the loop in which %s can be completed without this check" % text(k),
                              "not-for-all|%s|%s" % (g.name, k if not isinstance(k, tuple) else short(prog.funcs[k[1]].name)), g.file)
    for fid, exits in sorted(cl.exits.items()) if verdicts else ():
        g = prog.funcs[fid]
        if not is_checker(g) and g.name != ROOT:
            continue
        need = set(k for ks in exits for k in kinds(ks) if judged(k))
        for ks in exits:
            rep.count("positive results of verdict functions")
            miss = need - kinds(ks)
            if miss:
                k = sorted(miss, key=str)[0]
                rep.violation("not-always", g.name, g.line, "%s can give a positive result without the check by which %s" %
                              (short(g.name), text(k)),
                              "not-always|%s|%s" % (g.name, k if not isinstance(k, tuple) else short(prog.funcs[k[1]].name)), g.file)


# ---------------------------------------------------------------------------------------------- wiring
WIRED = {
    "linked-send": "each sender of a parameter connection is linked to the protocol instance",
    "linked-recv": "each receiver of a parameter connection is linked to the protocol instance",
    "kept": "the protocol instance of each parameter connection is stored",
    "classified": "each connected port is entered as a sender or a receiver",
}


class Wiring(Flow):
    def call(self, eng, fr, st, n, callees):
        s = short(n.x.get("cn") or "")
        if n.k == "CXXMemberCallExpr":
            if s in ("connectOutput", "connectInput") and (n.x.get("cc") or "").endswith("Protocol") or \
                    s in ("connectOutput", "connectInput") and "CommunicationProtocolBase" in (n.x.get("cc") or ""):
                ok = self.did(fr, st, "linked-send" if s == "connectOutput" else "linked-recv", n)
                return [(ok, None), (self.add(fr, st, n, "linking failed"), None, "throw")]
            b = call_base(n)
            if s in ("push_back", "emplace_back", "insert", "emplace") and b is not None and (n.x.get("cn") or "").startswith("std::"):
                t = b.t
                if "CommunicationProtocolBase>" in t and not re.search(r"(map|pair)<", t):
                    return [(self.did(fr, st, "kept", n), None)]
                if "ParameterPortBaseImplementation *" in t and "Graph" in fr.fn.name and not re.search(r"(map|pair)<", t):
                    return [(self.did(fr, st, "classified", n), None)]
        return Flow.call(self, eng, fr, st, n, callees)


def check_wiring(rep):
    """The protocol instances are connected to all senders and receivers of all parameter connections."""
    prog = program(LIBS)
    linking = lambda n: is_call(n) and short(n.x.get("cn") or "") in ("connectOutput", "connectInput") and n.fn is not None and \
        n.fn.file.startswith("src/librrl/")
    from vsa.sim import reaching
    rel = reaching(prog, linking)
    roots = [prog.funcs[i] for i in rel if prog.funcs[i].blocks and not prog.funcs[i].lambda_ and is_checker(prog.funcs[i])]
    roots += [f for f in prog.funcs.values() if f.sp == "ctor" and short(f.name) == "ParameterConnectionGraph" and f.blocks and f.params
              and f.file.startswith("src/librrl/")]
    if len(roots) < 2:
        raise Broken("functions that link the parameter connections not found")
    cl = Wiring(prog, Report0(), rel | set(f.id for f in roots))
    for f in roots:
        eng = Engine(prog, cl, max_steps=3000000)
        eng.run(f, frozenset())
        rep.count("steps", eng.steps)
    seen = set(k for its in cl.iterations.values() for ks, _a in its for k in ks)
    for k, what in WIRED.items():
        if k not in seen:
            rep.violation("not-wired", roots[0].name, roots[0].line, "no loop in which %s" % what, "not-wired|" + k, roots[0].file)
    trace_rules(rep, prog, cl, WIRED, False)


class Report0:
    """Takes the reports of the rules that are not judged here."""
    def violation(self, *a, **k):
        pass

    def count(self, *a, **k):
        pass


def check(rep):
    prog = program(LIBS)
    roots = [f for f in prog.by_name.get(ROOT, ()) if f.body is not None]
    if not roots:
        raise Broken("constructor of the signal flow not found")
    root = roots[0]
    rs = reach(prog, root)
    rep.count("functions reachable", len(rs))
    # functions to follow: verdict functions, and those that (transitively) contain or call one
    from vsa.sim import reaching
    rel = reaching(prog, lambda n: n.fn is not None and n.fn.file.startswith("src/librrl/") and "ostream" not in n.fn.ret and
                   (interesting(n) or writes(n)))
    rel |= set(f.id for f in prog.funcs.values() if any("ostream &" in t for _d, _n, t in f.params) and f.ret == "void")
    rel |= set(f.id for f in prog.funcs.values() if judge(f) or f.ret in ("bool", "unsigned long", "std::size_t", "int", "long") and
               any(re.search(r"ChannelList|ChannelCountTable|AudioConnectionCountTable", t) or PORTSET.match(t) or COUNTS.match(t)
                   for _d, _n, t in f.params))
    rel |= set(f.id for f in prog.funcs.values() if f.lambda_ and f.ret == "bool")
    rel = set(i for i in rel & rs if "ostream" not in prog.funcs[i].ret and
              re.match(r"src/librrl/", prog.funcs[i].file) and prog.funcs[i].blocks)
    cl = Flow(prog, rep, rel)
    eng = Engine(prog, cl, max_steps=3000000)
    eng.run(root, frozenset())
    chk = [prog.funcs[i] for i in rel if is_checker(prog.funcs[i])]
    rep.count("verdict functions", len([f for f in chk if f.id in eng.funcs_seen]))
    rep.count("functions followed", len(eng.funcs_seen))
    rep.count("steps", eng.steps)
    for k, v in sorted(cl.atoms.items()):
        rep.count("detections of " + k, len(set(x for x, _c in v)))
    # every kind of inconsistency is looked for
    for k, what in REQUIRED.items():
        occ = cl.atoms.get(k, ())
        if not occ:
            rep.violation("not-checked", root.name, root.line, "no check in the construction of the signal flow by which %s" % what,
                          "not-checked|" + k, root.file)
        elif k in LOCAL and not any(c & cl.descends for _l, c in occ):
            rep.violation("not-hierarchical", root.name, root.line, "the check by which %s is not applied to the components inside "
                          "composite components (%s)" % (what, occ[0][0]), "not-hierarchical|" + k, root.file)
    trace_rules(rep, prog, cl, REQUIRED, True)
    # cycles
    if not any(is_call(n) and short(n.x.get("cn") or "") in ("topological_sort", "depth_first_search", "depth_first_visit")
               for i in rs if prog.funcs[i].body is not None for n in prog.funcs[i].body.walk()):
        rep.violation("not-checked", root.name, root.line, "cyclic dependencies are not searched for", "not-checked|cycle", root.file)
    # exception objects that are built and dropped
    for f in prog.funcs.values():
        if f.body is None:
            continue
        for n in f.body.walk():
            if n.k in ("CXXTemporaryObjectExpr", "CXXConstructExpr", "CXXFunctionalCastExpr", "CXXBindTemporaryExpr") and \
                    n.p is not None and n.p.k in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt") and \
                    re.match(r"std::\w*(error|argument|exception|range)$", n.t):
                rep.violation("exception-not-thrown", f.name, n.l, "an exception object is created but not thrown at %s" % f.loc(n),
                              None, f.file)
    rep.need("verdict functions", 6)
