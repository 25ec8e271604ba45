"""Detected errors reach the caller: nothing that failed ends as if it had succeeded."""
import re

from .common import *
from vsa.effects import clean
from vsa.sim import Client, Engine, STD_EXC
from vsa.model import is_call, call_base, call_args, short
from .bindings import peel
from .init import LIBS as _LIBS

LIBS = _LIBS + ["libpythoncomponents", "libpythonsupport", "libsignalflowspython"]
STD_OK = re.compile(r"^(std|boost)::.*(error|exception|failure|argument|out_of_range|bad_\w+)\w*$|^pybind11::\w+")


def standard(prog, t):
    t = clean(t)
    seen = set()
    while t and t not in seen:
        seen.add(t)
        if t in STD_EXC or t == "std::exception" or STD_OK.match(t):
            return True
        r = prog.records.get(t)
        if r is None:
            return False
        if any(standard(prog, b) for b in r.bases):
            return True
        return False
    return False


EXC_NAME = re.compile(r"(error|exception|argument|out_of_range|bad_\w+|failure)$")


def discarded(n):
    """The value of expression n is not used."""
    c, p = n, n.p
    while p is not None and p.k in ("ExprWithCleanups", "ParenExpr", "ImplicitCastExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr",
                                    "CXXFunctionalCastExpr", "CStyleCastExpr", "CXXStaticCastExpr"):
        c, p = p, p.p
    if p is None:
        return True
    if p.k in ("CompoundStmt", "CaseStmt", "DefaultStmt", "LabelStmt", "CXXCatchStmt", "CXXTryStmt"):
        return True
    if p.k == "IfStmt":
        return p.c and p.c[0] is not c
    if p.k == "BinaryOperator" and p.x.get("op") == ",":
        return p.c[0] is c or discarded(p)
    if p.k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
        return c.k not in ("BinaryOperator", "CXXOperatorCallExpr", "UnaryOperator") and c is p.c[-1] and p.k != "DoStmt"
    return False


# --- status codes of external libraries ---------------------------------------------------------------------------------

STATUS = re.compile(r"^(jack_(client_open|set_\w+|activate|deactivate|client_close|connect|port_register|port_unregister|port_disconnect|set_buffer_size)"
                    r"|Pa_(Initialize|OpenStream|OpenDefaultStream|StartStream|StopStream|AbortStream|CloseStream|Terminate|IsFormatSupported)"
                    r"|sf_open\w*|ffts_init_\w+|kiss_fftr?_alloc\w*|posix_memalign|aligned_alloc)$")


class Status(Client):
    """Follows the failure outcome of library calls to the end of the function that made them."""

    def __init__(self, prog, rep, root):
        self.prog, self.rep, self.root = prog, rep, root

    def relevant(self, fn):
        """Helpers that see a status code: local functions of the file without a library call of their own (those are analysed for themselves)."""
        if fn.body is None or not fn.blocks or fn.id == self.root.id:
            return False
        return bool(fn.params) and (fn.lambda_ or fn.file == self.root.file and fn.sp not in ("ctor", "dtor") and sum(1 for _ in fn.body.walk()) < 150)

    def call(self, eng, fr, st, n, callees):
        cn = n.x.get("cn") or ""
        s = short(cn)
        if STATUS.match(cn):
            self.rep.count("outcomes of library calls")
            ptr = (n.t or "").rstrip().endswith("*")
            bad = st.client(st.c | frozenset([n.i]))
            return [(st, ("good", n.i) if ptr else 0), (bad, ("null", n.i) if ptr else ("fail", n.i))]
        if st.c and (s in ("operator<<", "write") and self.stream(n) or s == "status"):
            return [(st.client(frozenset()), None)]
        return None

    @staticmethod
    def stream(n):
        for m in n.walk():
            if m.k == "DeclRefExpr" and (m.x.get("q") in ("std::cerr", "std::clog", "std::cout") or "ostream" in (m.t or "")):
                return True
        return False

    def throwing(self, eng, fr, st, node, tt):
        return st.client(frozenset())

    def compare(self, eng, fr, st, op, a, b, node):
        if isinstance(a, tuple) and a[0] in ("fail", "good", "null") and not isinstance(b, tuple):
            pass
        elif isinstance(b, tuple) and b[0] in ("fail", "good", "null") and not isinstance(a, tuple):
            a, b = b, a
        else:
            return None
        if a[0] in ("good", "null") and op in ("==", "!="):           # only null is compared with
            return [(st, (a[0] == "null") == (op == "=="))]
        if b is None:
            return [(st, True), (st, False)]
        if int(b) == 0:
            return [(st, op in ("!=", "<", ">"))] if op in ("==", "!=", "<", ">") else None
        return [(st, True), (st, False)]

    def truth(self, eng, fr, st, val, node):
        if val[0] in ("fail", "good", "null"):
            return [(st, val[0] != "null")]
        return None


def libraries(prog, rep):
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line)):
        if f.body is None or not f.blocks:
            continue
        sites = [n for n in f.body.walk() if is_call(n) and STATUS.match(n.x.get("cn") or "")]
        if not sites:
            continue
        rep.count("library calls that can fail", len(sites))
        res = Engine(prog, Status(prog, rep, f)).run(f, frozenset())
        okv = set(v for kind, st, v, rn in res if kind == "ret" and not st.c)
        bad = {}
        for kind, st, v, rn in res:
            if kind != "ret" or not st.c:
                continue
            if isinstance(v, tuple) or f.ret not in ("void", "", None) and v is not None and v not in okv:
                continue
            for i in st.c:
                bad.setdefault(i, (v, rn))
        for i in bad:
            n = f.nodes[i]
            rep.violation("failure-ignored", f.name, n.l, "%s completes as if it had succeeded although %s failed" % (short(f.name), n.x["cn"]),
                          "failure-ignored|%s|%s" % (f.name, n.x["cn"]), f.file)


# --- handlers -----------------------------------------------------------------------------------------------------------

def handlers(prog, rep, f, processing):
    for h in f.body.walk():
        if h.k != "CXXCatchStmt":
            continue
        rep.count("exception handlers")
        body = [n for n in h.walk() if n is not h]
        if any(n.k == "CXXThrowExpr" or is_call(n) and (n.x.get("cn") or "") in ("std::terminate", "std::abort", "std::rethrow_exception", "abort", "exit")
               or
               is_call(n) and any(raises(prog, g, f) for g in prog.callees(n)) for n in body):
            continue
        report = any(is_call(n) and (Status.stream(n) and short(n.x.get("cn") or "") in ("operator<<", "write") or short(n.x.get("cn") or "") in ("status",)) or
                     is_call(n) and any(g.id != f.id and reports(prog, g) for g in prog.callees(n)) for n in body)
        negative = negative_result(prog, f, h)
        if negative:
            continue
        if not report:
            rep.violation("error-dropped", f.name, h.l, "an exception is caught and neither passed on nor reported", "error-dropped|%s|%s" % (f.name, h.x.get("ct")), f.file)
            continue
        if f.sp == "dtor" or f.nothrow or f.id in processing:
            continue
        rep.violation("only-printed", f.name, h.l, "an exception is caught and only printed, the caller takes the operation as successful",
                      "only-printed|%s|%s" % (f.name, h.x.get("ct")), f.file)


OPTIONAL = ("jack_connect", "jack_port_disconnect")


def printed(prog, rep, f):
    """A branch that does nothing but print a problem, in a function whose caller could have been told."""
    for i in f.body.walk():
        if i.k != "IfStmt":
            continue
        for br in i.c[1:]:
            if br is None or br.k == "IfStmt":
                continue
            ns = [n for n in br.walk() if n.k not in ("CompoundStmt", "NullStmt")]
            if not any(n.k == "DeclRefExpr" and n.x.get("q") == "std::cerr" for n in ns):
                continue
            rep.count("branches that print a problem")
            if any(n.k in ("CXXThrowExpr", "ReturnStmt", "ContinueStmt", "BreakStmt", "GotoStmt", "CompoundAssignOperator", "UnaryOperator") or
                   n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.x.get("op") == "=" or
                   is_call(n) and (n.x.get("cn") or "").startswith("visr::") and not n.x.get("mconst") and "operator" not in n.x["cn"] and discarded(n) for n in ns):
                continue
            if any(is_call(n) and n.x.get("cn") in OPTIONAL for n in i.c[0].walk()):
                continue
            p, inner = i.p, False
            while p is not None:
                inner = inner or p.k == "CXXCatchStmt"
                p = p.p
            if inner:
                continue
            t = [m.x.get("s") or "" for m in ns if m.k == "StringLiteral"]
            rep.violation("only-printed", f.name, br.l, "a problem is only printed, the caller takes the operation as successful",
                          "only-printed|%s|%s" % (f.name, "".join(t)[:60]), f.file)


def reports(prog, g, depth=0):
    if g.body is None or depth > 3:
        return False
    r = getattr(g, "_reports", None)
    if r is None:
        g._reports = False
        r = g._reports = any(n.k == "CXXThrowExpr" or is_call(n) and (Status.stream(n) and short(n.x.get("cn") or "") == "operator<<" or
                                                                   any(reports(prog, k, depth + 1) for k in prog.callees(n))) for n in g.body.walk())
    return r


def raises(prog, g, f, depth=0):
    """A helper that always ends by throwing."""
    if g.body is None or g.id == f.id or depth > 3:
        return False
    for c in g.body.c:
        for n in c.walk():
            if n.k == "CXXThrowExpr" and (c is n or c.k in ("ExprWithCleanups",) or c.k not in ("IfStmt", "CXXTryStmt", "ForStmt", "WhileStmt", "SwitchStmt", "CXXForRangeStmt")):
                return True
            if is_call(n) and c.k not in ("IfStmt", "CXXTryStmt", "ForStmt", "WhileStmt", "SwitchStmt", "CXXForRangeStmt") and any(raises(prog, k, f, depth + 1) for k in prog.callees(n)):
                return True
    return False


def negative_result(prog, f, h):
    """The handler makes the function return a value that its normal end does not return, or records the failure in a variable."""
    rets = [n for n in f.body.walk() if n.k == "ReturnStmt" and n.c]
    inside = [n for n in h.walk() if n.k == "ReturnStmt" and n.c]
    hs = set(id(n) for n in h.walk())

    def val(n):
        e = peel(n.c[0])
        return e.x.get("cv") or e.x.get("v") or e.x.get("q") or e.k
    t = (f.ret or "").replace("const ", "").strip()
    if inside and (t in ("bool", "int", "long", "unsigned int", "unsigned long", "short", "char") or t.endswith("*") or t in prog.enums or
                   re.search(r"optional|unique_ptr|shared_ptr", t)):
        last = [c for c in f.body.c if c.k == "ReturnStmt" and c.c]
        good = set(val(r) for r in last) if last else set(val(r) for r in rets if id(r) not in hs and not in_catch(r))
        if all(val(r) not in good for r in inside):
            return True
    for n in h.walk():
        if n.k == "BinaryOperator" and n.x.get("op") == "=" or n.k == "CompoundAssignOperator":
            l = peel(n.c[0])
            if l.k == "DeclRefExpr" and l.x.get("did") and any(l.x["did"] in [m.x.get("did") for m in r.walk()] for r in rets):
                return True
            if l.k == "MemberExpr":
                return True
    return False


def in_catch(n):
    while n is not None:
        if n.k == "CXXCatchStmt":
            return True
        n = n.p
    return False


def check(rep):
    prog = program(LIBS)
    processing = set()
    todo = [f.id for f in prog.funcs.values() if f.body is not None and (f.cls and short(f.name) == "process" or f.sp == "dtor" or f.nothrow)]
    for f in prog.funcs.values():           # callbacks have no caller that could be told
        for n in f.body.walk() if f.body is not None else ():
            if n.k == "DeclRefExpr" and n.x.get("cid") and not (n.p is not None and n.p.k == "ImplicitCastExpr" and n.p.p is not None and is_call(n.p.p) and n.p.p.c[0] is n.p) \
                    and not (n.p is not None and is_call(n.p) and n.p.c[0] is n):
                q, cb = n.p, False
                while q is not None and q.k not in ("CompoundStmt", "DeclStmt"):
                    cb = cb or is_call(q) and re.match(r"(async_\w+|jack_\w+|Pa_\w+)$", short(q.x.get("cn") or "").split("<")[0]) is not None
                    q = q.p
                if cb:
                    todo.append(n.x["cid"])
    while todo:
        i = todo.pop()
        f = prog.funcs.get(i)
        if f is None or i in processing or f.body is None:
            continue
        processing.add(i)
        for n in f.body.walk():
            if is_call(n):
                todo += [g.id for g in prog.callees(n)]
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line, f.id)):
        if f.body is None or not (f.file or "").startswith("src/"):
            continue
        rep.count("functions")
        used = None
        for n in f.body.walk():
            if n.k == "CXXThrowExpr" and n.c:
                rep.count("throw expressions")
                t = clean(n.x.get("tt") or n.c[0].t)
                if not standard(prog, t):
                    rep.violation("not-an-exception", f.name, n.l, "throws a %s, which no handler for exceptions catches" % t,
                                  "not-an-exception|%s|%s" % (f.name, re.sub(r"\d+", "", t)), f.file)
                e = peel(n.c[0])
                while e.k == "CXXConstructExpr" and len(e.c) == 1:
                    e = peel(e.c[0])
                if e.k == "DeclRefExpr":
                    h = n.p
                    while h is not None and h.k != "CXXCatchStmt":
                        h = h.p
                    if h is not None and clean(h.x.get("ct") or "") == t and t in ("std::exception",) + tuple(STD_EXC.values()) and is_caught(h, e):
                        rep.violation("sliced", f.name, n.l, "throws a copy of the caught exception that has lost its type and message", "sliced|%s" % f.name, f.file)
            elif n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and EXC_NAME.search(clean(n.t)) and standard(prog, n.t):
                rep.count("exception objects created")
                if discarded(n):
                    rep.violation("not-thrown", f.name, n.l, "a %s is created, but not thrown" % clean(n.t),
                                  "not-thrown|%s|%s" % (f.name, text(n)), f.file)
            elif n.k == "DeclStmt":
                for v in n.x["vars"]:
                    if standard(prog, v.t) and EXC_NAME.search(clean(v.t)) and not (v.t or "").endswith("&"):
                        if used is None:
                            used = {}
                            for m in f.body.walk():
                                if m.k == "DeclRefExpr" and m.x.get("did"):
                                    used[m.x["did"]] = used.get(m.x["did"], 0) + 1
                        if not used.get(v.did):
                            rep.violation("not-thrown", f.name, n.l, "the exception %s is created, but not thrown" % v.n, "not-thrown|%s|%s" % (f.name, v.n), f.file)
        if f.lambda_ or "/python" in f.file and False:
            continue
        handlers(prog, rep, f, processing)
        if f.id not in processing:
            printed(prog, rep, f)
    libraries(prog, rep)
    rep.need("throw expressions", 300)
    rep.need("exception objects created", 300)
    rep.need("exception handlers", 30)
    rep.need("library calls that can fail", 20)


def text(n):
    for m in n.walk():
        if m.k == "StringLiteral":
            return (m.x.get("s") or "")[:60]
    return ""


def is_caught(h, e):
    did = e.x.get("did")
    return (e.x.get("d") or "") and did is not None
