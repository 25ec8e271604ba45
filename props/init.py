"""Objects are completely initialised when their construction (and, for components, their setup) ends."""
import re
from .common import *
from vsa import extract, loops
from vsa.sim import Client, Engine, Frame
from vsa.model import is_call, call_args, call_base, short
from vsa.term import Terms, subterms

LIBS = ["libapputilities", "libaudiointerfaces", "libefl", "libobjectmodel", "libpanning", "libpanningdsp", "libpml", "librbbl", "librcl",
        "libreverbobject", "librrl", "libsignalflows", "libvisr"]
THIS = ("this",)
AR = ("int", "unsigned", "long", "short", "char", "bool", "float", "double", "size_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t",
      "int8_t", "int16_t", "int32_t", "int64_t", "ptrdiff_t")

# Fields whose value only exists between calls that establish it; reason on the right.
EXEMPT = {
    ("visr::panning::CAP", "m_sourcePos"): "working table, filled by setPlaneWave/setSourcePosition before calcGains reads it",
    ("visr::audiointerfaces::JackInterface::Config", "mVerbosePortConnections"): "assigned by the only function that creates the object",
    ("visr::rbbl::FIR", "m_gain"): "part of the filter coefficients, established by createWhiteTristateFIRs",
    ("visr::rbbl::FIR", "m_nBplus"): "part of the filter coefficients, established by createWhiteTristateFIRs",
    ("visr::rbbl::FIR", "m_nBminus"): "part of the filter coefficients, established by createWhiteTristateFIRs",
    ("ParseState", "mInIdx"): "assigned by the first grammar action before the second one reads it",
}
# Buffers that are written before being read within every use.
SCRATCH = {"mTempBuffer", "mCalcBuffer"}


def scalar(prog, t):
    t = t.replace("const ", "").replace("volatile ", "").strip()
    t = re.sub(r"\s*\[\d*\]", "", t).strip()
    if t.endswith("&"):
        return False
    if t.endswith("*"):
        return True
    if t in prog.enums:
        return True
    return all(w.replace("std::", "") in AR for w in t.split())


def needs(prog, r):
    return [f for f in r.fields if f.n and f.init is None and not f.dmi and
            (scalar(prog, f.t) or (f.trivdef and not f.t.startswith("std::") and pod(prog, f.t)))]


def pod(prog, t):
    r = prog.records.get(re.sub(r"\s*\[\d*\]", "", t.replace("const ", "")).strip())
    return r is not None and bool(r.fields) and all(scalar(prog, f.t) and f.init is None and not f.dmi for f in r.fields)


class Init(Client):
    loop_once = True

    def __init__(self, prog, rep, root, need, buffers):
        self.prog = prog
        self.rep = rep
        self.root = root
        self.T = Terms(prog)
        self.need = need
        self.buffers = buffers
        self.early = {}

    def relevant(self, f):
        return f.body is not None and not f.implicit and (f.cls == self.root.cls or bool(f.lambda_))

    def fld(self, t):
        for _ in range(12):
            if t[0] == "f":
                if t[1] == THIS:
                    return t[2]
                t = t[1]
            elif t[0] in ("idx", "elem"):
                t = t[1]
            elif t[0] == "op" and t[1] in ("+", "-"):
                t = t[2] if self.fld(t[2]) else t[3]
            elif t[0] == "call" and t[1] in ("begin", "end", "data", "row", "get") and len(t) > 2 and isinstance(t[2], tuple):
                t = t[2]
            else:
                return None
        return None

    def gap(self, fr, n):
        while fr is not None:
            p = n
            while p is not None:
                if p.k in ("ForStmt", "WhileStmt"):
                    d = loops.domain(self.T, fr, p)
                    if d is not None and d.gap:
                        return True
                p = p.p
            n, fr = fr.call, fr.caller
            if n is None:
                return False
        return False

    def reads(self, eng, fr, st, n):
        """Loads of fields that are not yet initialised."""
        stack = [n]
        while stack:
            m = stack.pop()
            if m.k == "LambdaExpr":
                continue
            if m.k == "DeclStmt":
                stack += [v.init for v in m.x["vars"] if v.init is not None and not v.t.endswith("&")]
                continue
            if m.k == "MemberExpr" and m.x["m"] in self.need and m.x["m"] not in st.c:
                f = self.need[m.x["m"]]
                if "[" not in f.t and self.T.term(fr, m) == ("f", THIS, f.n) and scalar(self.prog, f.t) and not self.lvalue(m):
                    self.early.setdefault(f.n, (fr, m))
                continue
            stack += [c for c in m.c if c is not None]

    def lvalue(self, m):
        p = m.p
        if p is None:
            return False
        if p.k in ("BinaryOperator", "CXXOperatorCallExpr") and p.x.get("op") == "=" and (p.c[0] if p.k == "BinaryOperator" else p.c[1]) is m:
            return True
        if p.k == "UnaryOperator" and p.x["op"] == "&":
            return True
        if p.k in ("UnaryExprOrTypeTraitExpr",):
            return True
        if is_call(p) or p.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            args = call_args(p) if is_call(p) else p.c
            for t, a in zip(p.x.get("pt") or (), args):
                if a is m:
                    return t.endswith("&") or t.endswith("*")
            return p.k == "CXXOperatorCallExpr" or not p.x.get("pt")
        if p.k == "InitListExpr":
            return False
        return False

    def element(self, eng, fr, st, n):
        if n.p is None or n.p.k in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "DoStmt", "SwitchStmt", "CaseStmt", "CXXForRangeStmt", "LabelStmt") \
                or n.k in ("DeclStmt", "ReturnStmt"):
            self.reads(eng, fr, st, n)
        names = set()
        if n.k == "BinaryOperator" and n.x["op"] == "=":
            m = n
            while m is not None and m.k == "BinaryOperator" and m.x["op"] == "=":     # a = b = value
                names.add(self.fld(self.T.term(fr, m.c[0])))
                m = loops.unwrap(m.c[1])
        elif n.k == "CXXOperatorCallExpr" and n.x.get("op") == "=":
            d = self.T.term(fr, n.c[1])
            names.add(self.fld(d))
            if d[0] == "call" and d[1] == "tie":
                names |= set(self.fld(x) for x in d[2:] if isinstance(x, tuple))
        elif is_call(n) and not any(self.relevant(f) for f in self.prog.callees(n)):
            pts = n.x.get("pt") or ()
            args = call_args(n)
            if n.k == "CXXOperatorCallExpr" and n.x.get("cc"):
                args = args[1:]
            s = short(n.x.get("cn") or "")
            for i, a in enumerate(args):
                t = pts[i] if i < len(pts) else ""
                if t.startswith("const ") and (t.endswith("&") or t.endswith("*")):
                    continue
                if t.endswith("&") or t.endswith("*") or s in ("fill", "fill_n", "copy", "copy_n", "generate", "iota", "transform", "memset", "memcpy",
                                                              "vectorZero", "vectorFill", "vectorCopy", "swap", "vectorRamp"):
                    x = self.fld(self.T.term(fr, a))
                    if x in self.buffers and s in ("copy", "copy_n", "vectorCopy", "memcpy", "transform", "vectorRamp") and i != (0 if s in ("memcpy", "vectorRamp") else
                                                                                    len(args) - 1 if s in ("copy", "copy_n", "transform") else 1):
                        continue
                    names.add(x)
            b = call_base(n)
            if b is not None and n.k == "CXXMemberCallExpr" and not n.x.get("mconst"):
                x = self.fld(self.T.term(fr, b))
                if x in self.buffers:
                    if s in ("resize",):
                        # new, uninitialised storage
                        if self.buffers[x].t.startswith("visr::efl::AlignedArray"):
                            return st.client(st.c - {x})
                    elif s not in ("data", "size", "at"):
                        names.add(x)
                elif x is not None:
                    names.add(x)
        names &= set(self.need) | set(self.buffers)
        if names and not self.gap(fr, n):
            return st.client(st.c | frozenset(names))
        return None

    def init(self, eng, fr, st, name):
        if self.T.this_term(fr) != THIS or fr.fn.cls != self.root.cls:
            return st
        for d in fr.fn.inits:
            if d.get("m") == name:
                e = d["e"]
                if e is not None:
                    self.reads(eng, fr, st, e)
                if name in self.buffers:
                    u = loops.unwrap(e) if e is not None else None
                    fresh = u is not None and u.k in ("CXXConstructExpr", "InitListExpr") and \
                        all((c.t or "").replace("const ", "") in ("unsigned long", "int", "unsigned int") or "cv" in c.x for c in u.c)
                    if fresh and len(u.c) > 1:
                        return st           # allocated, content undefined
                    return st.client(st.c | {name})
                if name in self.need and (d["w"] or e is not None) and not (e is not None and e.k == "CXXConstructExpr" and not d["w"]):
                    return st.client(st.c | {name})
        return st


def buffers_of(prog, r):
    return {f.n: f for f in r.fields if f.t.replace("const ", "").startswith("visr::efl::AlignedArray") and f.n not in SCRATCH}


def is_component(prog, cls):
    return prog.is_derived(cls, "visr::AtomicComponent") or prog.is_derived(cls, "visr::CompositeComponent")


def check(rep):
    prog = program(LIBS)
    done = set()
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if f.sp not in ("ctor",) or not f.cls or f.lambda_:
            continue
        r = prog.records.get(f.cls)
        if r is None or r.union or f.body is None:
            continue
        key = (f.file, f.line, re.sub("<.*", "", f.cls))
        if key in done:
            continue
        done.add(key)
        need = {x.n: x for x in needs(prog, r)}
        buf = buffers_of(prog, r)
        if not need and not buf:
            continue
        rep.count("constructors analysed")
        rep.count("attributes to be initialised", len(need))
        rep.count("buffers to be filled", len(buf))
        cl = Init(prog, rep, f, need, buf)
        rs = Engine(prog, cl).run(f, frozenset())
        miss = set()
        for x in rs:
            if x[0] == "ret":
                rep.count("paths to the end of construction")
                miss |= (set(need) | set(buf)) - x[1].c
        for n, (fr, m) in sorted(cl.early.items()):
            rep.violation("read-before-init", f.name, m.l, "attribute %s is read before it has been initialised" % n,
                          "read-before-init|%s|%s" % (f.cls, n), fr.fn.file)
        short_cls = re.sub("<.*", "", f.cls)
        miss = set(m for m in miss if (short_cls, m) not in EXEMPT and (short_cls.split("::")[-1], m) not in EXEMPT)
        if miss:
            miss -= two_phase(prog, rep, f, need, buf, miss)
        miss = set(m for m in miss if ever_read(prog, r, m))
        if miss:
            rep.violation("uninitialised", f.name, f.line, "construction can end without %s having been given a value" % ", ".join(sorted(miss)),
                          "uninitialised|%s|%s" % (short_cls, ",".join(sorted(miss))), f.file)
        if len(need) > 1:
            rep.sample("%s: %s" % (f.cls, ", ".join(sorted(need))))
    check_local_buffers(rep, prog)
    rep.need("constructors analysed", 120)
    rep.need("buffers to be filled", 5)


def two_phase(prog, rep, f, need, buf, miss):
    """Attributes that every setup function of a component establishes."""
    ok = None
    for g in prog.methods_of.get(f.cls, ()):
        if short(g.name) not in (("setup",) if is_component(prog, f.cls) else ("initialise", "initialize", "init")) or g.body is None:
            continue
        rep.count("setup functions analysed")
        cl = Init(prog, rep, g, need, buf)
        for x in Engine(prog, cl).run(g, frozenset()):
            if x[0] == "ret":
                got = x[1].c & miss
                ok = got if ok is None else ok & got
    return set(ok or ())


_reads = {}


def ever_read(prog, r, name):
    """Some function of the program uses the field other than as the target of an assignment."""
    if not _reads:
        for f in prog.funcs.values():
            if f.implicit or getattr(f, "defaulted", False):
                continue
            roots = [f.body] if f.body is not None else []
            roots += [d["e"] for d in f.inits if d["e"] is not None]
            for root in roots:
                for n in root.walk():
                    if n.k == "MemberExpr":
                        p = n.p
                        while p is not None and p.k == "ArraySubscriptExpr" and p.c[0] is n:
                            n, p = p, p.p
                        if p is not None and p.k == "BinaryOperator" and p.x["op"] == "=" and p.c[0] is n:
                            continue
                        m = n
                        while m.k == "ArraySubscriptExpr":
                            m = m.c[0]
                        _reads.setdefault((re.sub("<.*", "", m.x.get("mc") or ""), m.x["m"]), set()).add(f.cls)
    return (re.sub("<.*", "", r.name), name) in _reads


FILLS = ("fill", "fill_n", "copy", "copy_n", "generate", "vectorZero", "vectorFill", "vectorCopy", "memset", "memcpy", "swap", "iota", "transform")


def norm(t):
    """Product terms with sorted factors."""
    if isinstance(t, tuple) and t and t[0] == "op" and t[1] == "*":
        return ("*",) + tuple(sorted(map(repr, map(norm, factors(t)))))
    if isinstance(t, tuple):
        return tuple(norm(x) if isinstance(x, tuple) else x for x in t)
    return t


def factors(t):
    if t[0] == "op" and t[1] == "*":
        return factors(t[2]) + factors(t[3])
    return [t]


class Local(Client):
    """Aligned arrays allocated in a function, and handed over (returned or swapped into an attribute) only after having been filled."""
    loop_once = True

    def __init__(self, prog, root):
        self.prog = prog
        self.root = root
        self.T = Terms(prog)

    def relevant(self, g):
        return g.body is not None and g.file == self.root.file and g is not self.root and not g.name.startswith("visr::efl::AlignedArray")

    def element(self, eng, fr, st, n):
        T = self.T
        if n.k == "DeclStmt":
            return None
        if n.k == "ReturnStmt":
            if n.c and fr.caller is None:
                t = T.term(fr, n.c[0])
                if (t[0] == "l" and "AlignedArray" in self.root.ret and t not in st.c) or (t[0] == "new" and len(t) == 4 and "AlignedArray" in t[1]):
                    return st.client(st.c | {"bad"})
            return None
        ls = set()
        if n.k == "BinaryOperator" and n.x["op"] == "=":
            ls.add(leaf(T.term(fr, n.c[0])))
        elif is_call(n):
            s = short(n.x.get("cn") or "")
            if s == "swap":
                b = call_base(n)
                ts = [leaf(T.term(fr, a)) or T.term(fr, a) for a in ([b] if b is not None and n.k == "CXXMemberCallExpr" else []) + list(call_args(n))]
                tys = [a.t or "" for a in call_args(n)]
                if any("AlignedArray" in t for t in tys):
                    loc = [t for t in ts if t[0] in ("l", "new")]
                    if len(loc) == 1 and loc[0] not in st.c and not (loc[0][0] == "new" and len(loc[0]) != 4):
                        return st.client(st.c | {"bad"})
            if any(self.relevant(g) for g in self.prog.callees(n)):
                return None
            if s in FILLS:
                args = [T.term(fr, a) for a in call_args(n)]
                got = set(leaf(t) for t in args)
                if s in ("vectorZero", "fill_n", "vectorFill") and len(args) >= 2:
                    dst, cnt = (args[1], args[2]) if s == "vectorFill" and len(args) > 2 else (args[0], args[1])
                    size = self.length(fr, leaf(dst), n)
                    if size is not None and norm(cnt) != norm(size) and leaf(cnt) != leaf(dst):
                        got = set()
                ls |= got
        return st.client(st.c | {x for x in ls if x is not None}) if ls - {None} else None

    def length(self, fr, t, n):
        if t is None or t[0] != "l":
            return None
        for m in fr.fn.body.walk():
            if m.k == "DeclStmt":
                for v in m.x["vars"]:
                    if v.did == t[1] and v.init is not None:
                        e = loops.unwrap(v.init)
                        if e.k == "CXXConstructExpr" and len(e.c) == 2:
                            return self.T.term(fr, e.c[0])
        return None


def check_local_buffers(rep, prog=None):
    prog = prog or program(LIBS)
    done = set()
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if f.body is None or (f.file, f.line) in done or f.name.startswith("visr::efl::AlignedArray"):
            continue
        own = any(v.init is not None and v.t.startswith("visr::efl::AlignedArray") and not v.t.endswith("&")
                  for n in f.body.walk() if n.k == "DeclStmt" for v in n.x["vars"])
        if "AlignedArray" not in (f.ret or "") and not own:
            continue
        done.add((f.file, f.line))
        rep.count("functions handing over a newly allocated buffer")
        if any("bad" in x[1].c for x in Engine(prog, Local(prog, f)).run(f, frozenset()) if x[0] == "ret"):
            rep.violation("unfilled-buffer", f.name, f.line, "hands over a buffer whose content was not (completely) written",
                          "unfilled-buffer|%s" % re.sub("<.*?>", "", f.name), f.file)


def leaf(t):
    for _ in range(20):
        if t[0] == "l":
            return t
        if t[0] in ("idx", "elem", "f"):
            t = t[1]
        elif t[0] == "call" and len(t) > 2 and isinstance(t[2], tuple):
            t = t[2]
        elif t[0] == "op" and t[1] in ("+", "-"):
            t = t[2] if leaf(t[2]) else t[3]
        else:
            return None
    return None
