"""Vector functions: every implementation reads and writes exactly the elements asked for, whatever their number and alignment."""
import re
from fractions import Fraction
from .common import *
from vsa.model import is_call, call_args, short
from .wiring import facts

LIBS = ["libefl"]
SIZES = {"float": 4, "double": 8, "std::complex<float>": 8, "std::complex<double>": 16, "__m64": 8, "__m128": 16, "__m256": 32, "__m128d": 16,
         "__m256d": 32, "long double": 16, "std::complex<long double>": 32, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4,
         "unsigned int": 4, "long": 8, "unsigned long": 8, "_Complex float": 8}
INTS = {"char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "std::size_t", "size_t", "bool"}
WRAP = ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "CXXStaticCastExpr", "CStyleCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr",
        "CXXFunctionalCastExpr", "MaterializeTemporaryExpr", "ConstantExpr", "CXXBindTemporaryExpr", "SubstNonTypeTemplateParmExpr")
IDENTITY = ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr")
LOAD = re.compile(r"^_mm(256)?_(load|loadu|lddqu)_(ps|pd|si128|si256)$")
STORE = re.compile(r"^_mm(256)?_(store|storeu|stream)_(ps|pd|si128|si256)$")
ALGOS = ("fill", "copy", "transform", "generate", "for_each", "fill_n", "copy_n", "generate_n")


class GiveUp(Exception):
    pass


def base_type(t):
    t = re.sub(r"\b(const|volatile|__restrict|restrict)\b", "", t).replace("&", "").strip()
    t = re.sub(r"\s+", " ", t)
    return t


def is_ptr(t):
    return base_type(t).endswith("*")


def pointee(t):
    t = base_type(t)
    if not t.endswith("*"):
        return None
    t = t[:-1].strip()
    if "__vector_size__" in t:
        m = re.search(r"vector_size__\((\d+) \* sizeof\((\w+)\)", t)
        return int(m.group(1)) * SIZES[m.group(2)] if m and m.group(2) in SIZES else None
    return SIZES.get(t)


def const_ptr(t):
    """Pointer to const?"""
    s = t.strip()
    s = re.sub(r"\*\s*(const)?\s*$", "*", s)
    return bool(re.search(r"\bconst\b", s))


def add(a, b, k=1):
    out = dict(a)
    for x, v in b.items():
        out[x] = out.get(x, 0) + k * v
        if out[x] == 0:
            del out[x]
    return out


def scale(a, k):
    return {x: v * k for x, v in a.items() if v * k != 0}


def const(a):
    """Constant value of a linear form, or None."""
    if not a:
        return 0
    return a[()] if set(a) == {()} else None


def subst(a, atom, form):
    if atom not in a:
        return dict(a)
    k = a[atom]
    out = {x: v for x, v in a.items() if x != atom}
    return add(out, form, k)


def pmul(a, b):
    if a is None or b is None:
        return None
    out = {}
    for x, u in a.items():
        for y, v in b.items():
            m = tuple(sorted(x + y, key=repr))
            out[m] = out.get(m, 0) + u * v
    return {m: v for m, v in out.items() if v}


def padd(a, b, k=1):
    return None if a is None or b is None else add(a, b, k)


class State(object):
    def __init__(self):
        self.env, self.ub, self.zero = {}, None, True     # values of variables; elements left at most; nothing processed so far
        self.stored = {}        # output -> written for all elements processed so far
        self.whole = set()      # outputs written as a whole by an algorithm or another function
        self.straight = {}
        self.lb = 0
        self.fresh = set()      # single elements written and not read since

    def copy(self):
        s = State()
        s.env, s.ub, s.zero, s.lb = dict(self.env), self.ub, self.zero, self.lb
        s.fresh = set(self.fresh)
        s.stored, s.whole, s.straight = dict(self.stored), set(self.whole), {k: list(v) for k, v in self.straight.items()}
        return s


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    s = a.copy()
    s.ub = None if a.ub is None or b.ub is None else max(a.ub, b.ub)
    s.lb = min(a.lb, b.lb)
    s.zero = a.zero and b.zero
    if a.zero != b.zero:
        # values relative to no progress: in the branch without progress D = 0, its forms hold for D as well if they vanish with it
        z, o = (a, b) if a.zero else (b, a)
        env = {}
        for k, v in o.env.items():
            w = z.env.get(k)
            if v is not None and w is not None and v[0] == w[0] and v[0] in ("int", "ptr"):
                i = 1 if v[0] == "int" else 2
                if v[:i] == w[:i] and isinstance(v[i], dict) and isinstance(w[i], dict) and subst(v[i], "D", {}) == w[i]:
                    env[k] = v
                    continue
            env[k] = v if v == w else None
        s.env = env
    else:
        s.env = {k: (v if v == b.env.get(k) else None) for k, v in a.env.items()}
    s.whole = a.whole & b.whole
    s.stored = {k: a.stored.get(k, True) and b.stored.get(k, True) for k in set(a.stored) | set(b.stored)}
    s.straight = {d: [i for i in v if i in b.straight.get(d, [])] for d, v in a.straight.items()}
    s.fresh = a.fresh | b.fresh
    return s


class Kernel(object):
    def __init__(self, rep, prog, fn, names):
        self.rep, self.prog, self.fn, self.names = rep, prog, fn, names
        self.ptrs = {p[0]: p for p in fn.params if is_ptr(p[2])}
        self.index = {p[0]: i for i, p in enumerate(fn.params)}
        self.esize = {d: pointee(p[2]) for d, p in self.ptrs.items()}
        cands = [p for p in fn.params if base_type(p[2]) in INTS and base_type(p[2]) != "bool"]
        pick = [p for p in cands if re.search(r"num\w*(elem|sampl)|^(n|count|length|size|numElements)$|elements?$", p[1], re.I) and
                not re.search(r"align|stride|section", p[1], re.I)]
        self.n = pick[0][0] if pick else None
        al = [p for p in cands if re.search(r"align", p[1], re.I)]
        self.al = al[0][0] if al else None
        self.strides = {p[0]: p[1] for p in cands if re.search(r"stride", p[1], re.I)}
        self.vector = short(fn.name).startswith("vector")
        self.rec, self.st, self.loops, self.unknown = None, None, 0, set()
        self.lost = False
        self.polys = []
        self.locals = set()
        self.changed = set()
        self.quiet = 0
        self.tested = set()       # outputs of which single elements are written after tests of the number left

    def outputs(self):
        return [d for d, p in self.ptrs.items() if not const_ptr(p[2])]

    def bad(self, n, rule, what, key):
        if self.quiet:
            return
        f = self.fn
        nm = re.sub(r"<.*", "", f.name)
        self.rep.violation(rule, f.name, n.l if n is not None else f.line, what, "%s|%s|%s|%s" % (rule, nm, base_type(f.params[0][2]) if f.params else "", key), f.file)

    def pname(self, d):
        return self.ptrs[d][1]

    # --- expressions --------------------------------------------------------------------------------------------------
    def strip(self, n):
        while True:
            if n.k in WRAP and len(n.c) == 1:
                n = n.c[0]
            elif n.k in IDENTITY and len(n.c) == 1:
                n = n.c[0]
            else:
                return n

    def ev(self, n):
        st = self.st
        k = n.k
        if k in WRAP and len(n.c) == 1 or k in IDENTITY and len(n.c) == 1:
            return self.ev(n.c[0])
        if k == "IntegerLiteral":
            return ("int", {(): int(n.x["v"])} if int(n.x["v"]) else {})
        if k == "FloatingLiteral":
            try:
                v = Fraction(str(n.x.get("v")))
            except Exception:
                return None
            return ("poly", {(): v} if v else {})
        if k == "DeclRefExpr":
            d = n.x.get("did")
            if d in st.env:
                return st.env[d]
            if d == self.n:
                return ("int", {"N": 1})
            for p in self.fn.params:
                if p[0] == d:
                    if is_ptr(p[2]):
                        return ("ptr", d, {})
                    if base_type(p[2]) in INTS:
                        return ("int", {("P", d): 1})
                    return ("poly", {(("s", self.index[d]),): 1})
            return None
        if k == "UnaryOperator":
            op = n.x["op"]
            if op in ("++", "--"):
                v = self.ev(n.c[0])
                w = self.step(v, {(): 1 if op == "++" else -1}, n.c[0].t)
                self.assign(n.c[0], w)
                return v if n.x.get("post") else w
            if op == "*":
                return self.access("load", n, self.ev(n.c[0]), pointee(n.c[0].t) or pointee(self.strip(n.c[0]).t))
            if op == "&":
                c = self.strip(n.c[0])
                if c.k == "ArraySubscriptExpr":
                    b, i = self.ev(c.c[0]), self.ev(c.c[1])
                    return self.step(b, i[1] if i and i[0] == "int" else None, c.c[0].t)
                if c.k == "UnaryOperator" and c.x["op"] == "*":
                    return self.ev(c.c[0])
                if c.k == "DeclRefExpr":
                    v = self.ev(c)
                    return ("addr", v)
                return None
            v = self.ev(n.c[0])
            if op == "-" and v is not None and v[0] == "poly" and v[1] is not None:
                return ("poly", scale(v[1], -1))
            return v if op == "+" else None
        if k == "ArraySubscriptExpr":
            b, i = self.ev(n.c[0]), self.ev(n.c[1])
            return self.access("load", n, self.step(b, i[1] if i and i[0] == "int" else None, n.c[0].t), pointee(n.c[0].t))
        if k == "CompoundAssignOperator" or k == "CXXOperatorCallExpr" and n.x.get("op") in ("+=", "-=", "*=", "/="):
            l, r = (n.c[0], n.c[1]) if k == "CompoundAssignOperator" else (n.c[1], n.c[2])
            op = n.x["op"]
            rv = self.ev(r)
            c = self.strip(l)
            lv = self.ev(l)
            if c.k == "DeclRefExpr":
                if op in ("+=", "-=") and lv is not None and lv[0] in ("int", "ptr") and rv is not None and rv[0] == "int":
                    w = self.step(lv, scale(rv[1], 1 if op == "+=" else -1), l.t)
                elif lv is not None and lv[0] == "poly":
                    w = self.arith(op[0], lv, rv)
                else:
                    w = None
                self.assign(l, w)
                return w
            w = self.arith(op[0], lv, rv)
            self.store(c, w)
            return w
        if k == "BinaryOperator" and n.x["op"] == "=" or k == "CXXOperatorCallExpr" and n.x.get("op") == "=":
            l, r = (n.c[0], n.c[1]) if k == "BinaryOperator" else (n.c[1], n.c[2])
            rv = self.ev(r)
            c = self.strip(l)
            if c.k == "DeclRefExpr":
                self.assign(l, rv)
            else:
                self.store(c, rv)
            return rv
        if k == "BinaryOperator" and n.x["op"] == ",":
            self.ev(n.c[0])
            return self.ev(n.c[1])
        if k == "BinaryOperator" or k == "CXXOperatorCallExpr" and n.x.get("op") in ("+", "-", "*", "/") and len(n.c) == 3:
            l, r = (n.c[0], n.c[1]) if k == "BinaryOperator" else (n.c[1], n.c[2])
            a, b = self.ev(l), self.ev(r)
            op = n.x["op"]
            if a is not None and a[0] == "ptr":
                if op in ("+", "-") and b is not None and b[0] == "int":
                    return self.step(a, scale(b[1], 1 if op == "+" else -1), l.t)
                if op in ("+", "-") and not (b is not None and b[0] == "ptr"):
                    return ("ptr", a[1], None)
                return None
            if b is not None and b[0] == "ptr" and op == "+" and a is not None and a[0] == "int":
                return self.step(b, a[1], r.t)
            return self.arith(op, a, b)
        if k == "ConditionalOperator":
            self.ev(n.c[0])
            a, b = self.ev(n.c[1]), self.ev(n.c[2])
            return a if a == b else None
        if k == "LambdaExpr":
            return None
        if is_call(n):
            return self.call(n)
        for c in n.c:
            self.ev(c)
        return None

    def arith(self, op, a, b):
        def poly(v):
            if v is None:
                return None
            if v[0] == "poly":
                return v[1]
            if v[0] == "int" and const(v[1]) is not None:
                return {(): const(v[1])} if const(v[1]) else {}
            return None
        if a is not None and b is not None and a[0] == b[0] == "int":
            if op in ("+", "-"):
                return ("int", add(a[1], b[1], 1 if op == "+" else -1))
            if op == "*":
                for x, y in ((a, b), (b, a)):
                    c = const(x[1])
                    if c is not None:
                        return ("int", scale(y[1], c))
            return None
        pa, pb = poly(a), poly(b)
        if pa is None or pb is None:
            return None
        if op in ("+", "-"):
            return ("poly", padd(pa, pb, 1 if op == "+" else -1))
        if op == "*":
            return ("poly", pmul(pa, pb))
        return None

    def step(self, v, by, t):
        if v is None or by is None:
            return ("ptr", v[1], None) if v is not None and v[0] == "ptr" else None
        if v[0] == "int":
            return ("int", add(v[1], by))
        if v[0] == "ptr":
            s = pointee(t)
            if s is None or v[2] is None:
                return ("ptr", v[1], None)
            return ("ptr", v[1], add(v[2], by, s))
        return None

    def assign(self, l, v):
        c = self.strip(l)
        if c.k == "DeclRefExpr":
            self.st.env[c.x.get("did")] = v
            self.changed.add(c.x.get("did"))

    def store(self, c, v):
        if c.k == "UnaryOperator" and c.x["op"] == "*":
            inner = self.strip(c.c[0])
            p = self.ev(c.c[0]) if not (inner.k == "UnaryOperator" and inner.x["op"] in ("++", "--")) else self.ev(c.c[0])
            self.access("store", c, p, pointee(c.c[0].t), v)
        elif c.k == "ArraySubscriptExpr":
            b, i = self.ev(c.c[0]), self.ev(c.c[1])
            self.access("store", c, self.step(b, i[1] if i and i[0] == "int" else None, c.c[0].t), pointee(c.c[0].t), v)
        else:
            for x in c.c:
                self.ev(x)

    def access(self, kind, n, p, width, val=None, aligned=False):
        if p is None or p[0] != "ptr":
            if p is not None and p[0] == "addr":
                return p[1]
            if kind == "store":
                self.lost = True
            return None
        d = p[1]
        if p[2] is None or width is None or self.esize.get(d) is None:
            self.unknown.add(d)
            return None
        rel = dict(p[2]) if self.st.zero else add(p[2], {"D": self.esize[d]}, -1)
        poly = val[1] if val is not None and val[0] == "poly" else None
        if val is not None and val[0] == "int" and const(val[1]) is not None:
            poly = {(): const(val[1])} if const(val[1]) else {}
        e = (kind, d, rel, width, n, poly, aligned)
        if self.rec is not None:
            self.rec.append(e)
        elif kind == "store":
            o = const(rel)
            if o is not None:
                self.st.straight.setdefault(d, []).append((o, o + width))
                if self.st.ub is not None and self.st.lb > 0:
                    self.tested.add(d)
                if not self.vector:
                    pass
                elif (d, o, width) in self.st.fresh:
                    self.bad(n, "every-element", "the value just written to %s is overwritten" % self.pname(d), "overwritten|" + self.pname(d))
                else:
                    self.st.fresh.add((d, o, width))
        elif kind == "load":
            self.st.fresh = set()
        o = const(rel)
        if kind == "load" and o is not None and width <= 2 * self.esize[d] * 8:
            return ("poly", {(("in", self.index[d], o),): 1})
        if kind == "load" and not (rel.keys() - {(), "D"}) and o is None:
            return ("poly", {(("in", self.index[d], tuple(sorted(rel.items(), key=repr))),): 1})
        return None

    def call(self, n):
        nm = short(n.x.get("cn") or "")
        args = call_args(n)
        m, s = LOAD.match(nm), STORE.match(nm)
        if m:
            w = 32 if m.group(1) else 16
            al = m.group(2) == "load"
            return self.access("load", n, self.ev(args[0]), w, None, al)
        if s:
            w = 32 if s.group(1) else 16
            p, v = self.ev(args[0]), self.ev(args[1])
            self.access("store", n, p, w, v, s.group(2) != "storeu")
            return None
        if nm in ("_mm_load_ss", "_mm_load_sd", "_mm_load1_ps", "_mm_load_ps1", "_mm_broadcast_ss", "_mm256_broadcast_ss", "_mm256_broadcast_sd", "_mm_load1_pd"):
            return self.access("load", n, self.ev(args[0]), 4 if nm[-1] == "s" and nm[-2:] in ("ss", "ps") or nm.endswith("ps1") else 8)
        if nm in ("_mm_store_ss", "_mm_store_sd"):
            p, v = self.ev(args[0]), self.ev(args[1])
            self.access("store", n, p, 4 if nm.endswith("ss") else 8, v)
            return None
        if nm in ("_mm_loadl_pi", "_mm_loadh_pi", "_mm_loadl_pd", "_mm_loadh_pd"):
            self.ev(args[0])
            self.access("load", n, self.ev(args[1]), 8)
            return None
        if nm in ("_mm_storel_pi", "_mm_storeh_pi", "_mm_storel_pd", "_mm_storeh_pd"):
            p = self.ev(args[0])
            self.ev(args[1])
            self.access("store", n, p, 8)
            return None
        o = re.match(r"^_mm(256)?_(mul|add|sub|fmadd|fmsub|fnmadd|set1|set_ps1)(_(ps|pd|ss|sd))?$", nm)
        if o:
            v = [self.ev(a) for a in args]
            op = o.group(2)
            if op in ("set1", "set_ps1"):
                return v[0]
            if op in ("mul", "add", "sub"):
                return self.arith({"mul": "*", "add": "+", "sub": "-"}[op], v[0], v[1])
            pr = self.arith("*", v[0], v[1])
            return self.arith("+", pr, v[2]) if op == "fmadd" else self.arith("-", pr, v[2]) if op == "fmsub" else self.arith("-", v[2], pr)
        if nm in ALGOS and (n.x.get("cn") or "").startswith("std::"):
            return self.algo(n, nm, args)
        if nm == "checkAlignment":
            return None
        g = self.prog.funcs.get(n.x.get("cid"))
        vals = [self.ev(a) for a in args]
        if any(v is not None and v[0] == "ptr" for v in vals):
            self.delegate(n, nm, args, vals, g)
        for a, t in zip(args, n.x.get("pt") or []):
            c = self.strip(a)
            if c.k == "DeclRefExpr" and t.strip().endswith("&") and not const_ptr(t[:-1] + "*"):
                self.st.env[c.x.get("did")] = None
                self.changed.add(c.x.get("did"))
                self.lost = True
        return None

    def here(self, v):
        """Pointer to the first element not yet processed?  True / False / None (not known)."""
        if v is None or v[0] != "ptr" or v[2] is None:
            return None
        e = self.esize.get(v[1])
        if e is None:
            return None
        rel = v[2] if self.st.zero else add(v[2], {"D": e}, -1)
        if any(isinstance(x, tuple) and x and x[0] == "P" for x in rel):
            return None
        return not rel

    def left(self):
        return {"N": 1} if self.st.zero else {"N": 1, "D": -1}

    def partial(self, n, a):
        """Is a a number of elements that is computed from the one asked for and differs from it?"""
        c = self.strip(a)
        if c.k == "DeclRefExpr":
            for x in self.fn.body.walk():
                for v in x.x.get("vars", []) if x.k == "DeclStmt" else []:
                    if v.did == c.x.get("did") and v.init is not None:
                        return self.partial(n, v.init)
            return False
        if c.k != "BinaryOperator" or not any(x.k == "DeclRefExpr" and x.x.get("did") == self.n for x in c.walk()):
            return False
        same = [x for x in self.fn.body.walk() if is_call(x) and short(x.x.get("cn") or "") == short(n.x.get("cn") or "")]
        return len(same) == 1 and any(x.k == "BinaryOperator" and x.x["op"] in ("/", "%", "-") for x in c.walk()) and not any(is_call(x) for x in c.walk())

    def algo(self, n, nm, args):
        vals = [self.ev(a) for a in args]
        R = "range-of-the-call"
        if self.rec is not None:
            self.unknown |= {v[1] for v in vals if v is not None and v[0] == "ptr"}
            return None
        ps = [(i, v) for i, v in enumerate(vals) if v is not None and v[0] == "ptr"]
        if not ps or ps[0][0] != 0:
            return None
        self.rep.count("ranges processed by algorithms")
        d = ps[0][1][1]
        if nm.endswith("_n"):
            c = vals[1]
            if c is not None and c[0] == "int" and c[1] != self.left() and not any(isinstance(x, tuple) and x for x in c[1]):
                self.bad(n, R, "%s processes another number of elements than was asked for" % nm, "count")
            elif c is None and self.partial(n, args[1]):
                self.bad(n, R, "%s processes another number of elements than was asked for" % nm, "count")
            rest = [v for i, v in ps if i > 1]
        else:
            if len(ps) < 2 or ps[1][0] != 1:
                return None
            e = ps[1][1]
            if e[1] != d:
                self.bad(n, R, "the range given to %s begins and ends in different vectors" % nm, "mixed")
            elif e[2] is None and ps[0][1][2] is not None and self.partial(n, args[1]) and re.match(r"vector(?!Ramp)", short(self.fn.name)):
                self.bad(n, R, "%s processes another number of elements of %s than was asked for" % (nm, self.pname(d)), "length")
            elif e[2] is not None and ps[0][1][2] is not None and self.esize.get(d):
                ln = add(e[2], ps[0][1][2], -1)
                want = scale(self.left(), self.esize[d])
                if ln != want and not any(isinstance(x, tuple) and x for x in ln):
                    self.bad(n, R, "%s processes another number of elements of %s than was asked for" % (nm, self.pname(d)), "length")
            rest = [v for i, v in ps if i > 1]
        for v in [ps[0][1]] + rest:
            if self.here(v) is False:
                self.bad(n, R, "%s does not begin at the first element of %s" % (nm, self.pname(v[1])), "start|" + self.pname(v[1]))
        out = d if nm in ("fill", "generate", "for_each", "fill_n", "generate_n") else rest[-1][1] if rest else None
        if nm == "for_each":
            lam = [m for a in args[2:] for m in a.walk() if m.k == "LambdaExpr"]
            g = self.prog.funcs.get(lam[0].x.get("lambda")) if lam else None
            if g is not None and g.params and not g.params[0][2].strip().endswith("&"):
                self.bad(n, R, "the elements of %s are modified in copies only" % self.pname(d), "copies")
        if out is not None:
            self.st.whole.add(out)
        else:
            self.lost = True
        return None

    def delegate(self, n, nm, args, vals, g):
        R = "range-of-the-call"
        kern = g is not None and g.body is not None and re.search(r"src/libefl/", g.file or "")
        k2 = Kernel(self.rep, self.prog, g, self.names) if kern else None
        if not kern or k2.n is None or self.rec is not None:
            self.unknown |= {v[1] for v in vals if v is not None and v[0] == "ptr"}
            self.lost = self.lost or any(v is not None and v[0] == "ptr" and v[2] is None for v in vals)
            return
        self.rep.count("calls between vector functions")
        byname = {}
        for p, v, a in zip(g.params, vals, args):
            if p[0] == k2.n and v is not None and v[0] == "int" and v[1] != self.left() and not any(isinstance(x, tuple) and x for x in v[1]):
                self.bad(n, R, "%s is asked for another number of elements" % nm, "count|" + nm)
            elif p[0] == k2.n and v is None and self.partial(n, a) and [w for w in vals if self.here(w)] and not [w for w in vals if self.here(w) is False]:
                self.bad(n, R, "%s is asked for another number of elements" % nm, "count|" + nm)
            if is_ptr(p[2]) and v is not None and v[0] == "ptr":
                if k2.vector and self.here(v) is False:
                    self.bad(n, R, "%s does not begin at the first element of %s" % (nm, self.pname(v[1])), "start|%s|%s" % (nm, self.pname(v[1])))
                if not const_ptr(p[2]):
                    self.st.whole.add(v[1])
            if p[0] in k2.strides:
                if v is not None and v[0] == "int":
                    at = [x for x in v[1] if isinstance(x, tuple) and x and x[0] == "P"]
                    if len(at) == 1 and at[0][1] in self.strides:
                        r1, r2 = role(self.strides[at[0][1]]), role(p[1])
                        if r1 and r2 and r1 != r2:
                            self.bad(n, "stride-of-its-vector", "the stride of the %s is passed as that of the %s" % (r1, r2), "%s|%s" % (nm, p[1]))
                    elif not at and const(v[1]) is not None and any(role(s) == role(p[1]) for s in self.strides.values()):
                        self.bad(n, "stride-of-its-vector", "the stride of the %s is not handed on" % role(p[1]), "%s|%s|lost" % (nm, p[1]))

    # --- conditions ---------------------------------------------------------------------------------------------------
    def relation(self, c):
        """(form, threshold | None for "not 0", unit): form >= threshold; None if not about the number of elements."""
        c = self.strip(c)
        if any(m.k == "UnaryOperator" and m.x["op"] in ("++", "--") or m.k in ("CompoundAssignOperator",) for m in c.walk()):
            return None
        if c.k == "BinaryOperator" and c.x["op"] in ("<", "<=", ">", ">=", "!=", "=="):
            q, r, save = self.quiet, self.rec, self.st
            self.rec, self.st = [], self.st.copy()
            a, b = self.ev(c.c[0]), self.ev(c.c[1])
            self.rec, self.st = r, save
            if a is None or b is None or a[0] != b[0] or a[0] not in ("int", "ptr"):
                return None
            unit = 1
            if a[0] == "ptr":
                if a[1] != b[1] or a[2] is None or b[2] is None or not self.esize.get(a[1]):
                    return None
                unit = self.esize[a[1]]
                a, b = ("int", a[2]), ("int", b[2])
            op = c.x["op"]
            if op in ("<", "<="):
                f, t = add(b[1], a[1], -1), unit if op == "<" else 0
            else:
                f, t = add(a[1], b[1], -1), unit if op == ">" else 0
            if op in ("!=", "=="):
                t = None
                if f.get("N", 0) < 0:
                    f = scale(f, -1)
            if not f.get("N") and not f.get("D"):
                return None
            return f, t, unit, op
        if c.k == "DeclRefExpr":
            v = self.ev(c)
            if v is not None and v[0] == "int" and v[1].get("N"):
                return v[1], None, 1, "!="
        return None

    def remaining(self, rel):
        """Smallest / exact number of elements left that the relation states: (bound, op) with bound relating to N - D."""
        f, t, unit, op = rel
        u = f.get("N", 0)
        sgn = 1
        if u < 0:
            sgn, u = -1, -u
        if u != unit:
            return None
        rest = add(f, scale(self.left(), sgn * unit), -1)
        c = const(rest)
        if c is None:
            return None
        if t is None:
            k = Fraction(-c, unit * sgn)          # unit*sgn*(R) + c == 0
            return ("==" if op == "==" else "!=", k)
        b = Fraction(t - c, unit)
        if sgn > 0:
            return (">=", -((-b.numerator) // b.denominator))       # ceil
        return ("<=", (-b).numerator // (-b).denominator)          # -R*unit + c >= t  ->  R <= (c - t)/unit

    def refine(self, c, truth):
        st = self.st
        c = self.strip(c)
        if c.k == "UnaryOperator" and c.x["op"] == "!":
            return self.refine(c.c[0], not truth)
        if c.k == "BinaryOperator" and c.x["op"] in ("&&", "||"):
            if (c.x["op"] == "&&") == truth:
                for x in c.c:
                    self.refine(x, truth)
            return
        rel = self.relation(c)
        if rel is None:
            return
        r = self.remaining(rel)
        if r is None:
            return
        op, k = r
        if not truth:
            op, k = {">=": ("<=", k - 1), "<=": (">=", k + 1), "==": ("!=", k), "!=": ("==", k)}[op]
        if op in ("<=", "=="):
            st.ub = k if st.ub is None else min(st.ub, k)
        if op in (">=", "=="):
            st.lb = max(st.lb, k)
        if op == "!=" and k == st.lb:
            st.lb = k + 1
        if op == "!=" and st.ub is not None and k == st.ub:
            st.ub = st.ub - 1

    # --- statements ---------------------------------------------------------------------------------------------------
    def run(self):
        self.st = State()
        if self.exec(self.fn.body) and self.fn.ret.strip() == "void":
            self.done(None)

    def exec(self, n):
        """True if control continues after n."""
        k = n.k
        if k == "CompoundStmt":
            for c in n.c:
                if not self.exec(c):
                    return False
            return True
        if k == "DeclStmt":
            for v in n.x.get("vars", []):
                val = self.ev(v.init) if v.init is not None else None
                self.st.env[v.did] = val
                self.locals.add(v.did)
            return True
        if k == "IfStmt":
            cs = list(n.c)
            if cs and cs[0].k == "DeclStmt":
                self.exec(cs[0])
                cs = cs[1:]
            cond = cs[0]
            self.ev(cond) if not any(is_call(m) for m in cond.walk()) else None
            base = self.st
            outs = []
            for i in (1, 0):
                self.st = base.copy()
                self.refine(cond, i == 1)
                if self.st.ub is not None and self.st.ub < self.st.lb:
                    continue
                mark = len(self.rec) if self.rec is not None else 0
                br = cs[1] if i == 1 else cs[2] if len(cs) > 2 else None
                if br is None or self.exec(br):
                    outs.append(self.st)
                if self.rec is not None:
                    part = self.rec[mark:]
                    del self.rec[mark:]
                    base.__dict__.setdefault("parts", []).append(part)
            if self.rec is not None:
                parts = base.__dict__.pop("parts", [])
                keys = [set((e[0], e[1], tuple(sorted(e[2].items(), key=repr)), e[3]) for e in p) for p in parts]
                for p in parts:
                    for e in p:
                        key = (e[0], e[1], tuple(sorted(e[2].items(), key=repr)), e[3])
                        if e[0] == "store" and not all(key in s for s in keys):
                            self.rec.append(("maystore",) + e[1:])
                        else:
                            self.rec.append(e)
            if not outs:
                self.st = base
                return False
            s = outs[0]
            for o in outs[1:]:
                s = join(s, o)
            self.st = s
            return True
        if k in ("WhileStmt", "ForStmt"):
            return self.loop(n)
        if k in ("DoStmt", "CXXForRangeStmt", "SwitchStmt", "GotoStmt"):
            raise GiveUp(k)
        if k == "ReturnStmt":
            if n.c:
                r = self.strip(n.c[0])
                if r.k == "DeclRefExpr" and r.x.get("dk") == "EnumConstant":
                    if (r.x.get("d") or "") == "noError":
                        self.done(n)
                    return False
                self.ev(n.c[0])
                if is_call(r):
                    self.done(n)
            else:
                self.done(n)
            return False
        if k in ("BreakStmt", "ContinueStmt"):
            raise GiveUp(k)
        if k == "NullStmt":
            return True
        self.ev(n)
        return True

    def done(self, n):
        if self.quiet:
            return
        R = "every-element"
        if self.rec is not None:
            raise GiveUp("return in a loop")
        st = self.st
        outs = [d for d in self.outputs() if self.vector or d in self.seen()]
        if not outs or self.lost:
            return
        self.rep.count("successful completions of vector functions")
        for d in outs:
            if d in st.whole or d in self.unknown:
                continue
            e = self.esize.get(d)
            if e is None:
                continue
            need = st.ub
            if d in self.tested:
                continue
            if need is not None and need > 0 and st.straight.get(d):
                got = sorted(st.straight[d])
                end = 0
                for a, b in got:
                    if a <= end:
                        end = max(end, b)
                if end >= need * e:
                    continue
            if need is None or need > 0:
                what = "up to %d elements of %s may be left" % (need, self.pname(d)) if need is not None else "not all elements of %s are processed" % self.pname(d)
                self.bad(n, R, "the function ends successfully although %s" % what, "left|" + self.pname(d))
            elif not st.stored.get(d, True):
                self.bad(n, R, "%s is not written for every element" % self.pname(d), "stored|" + self.pname(d))
            elif d not in st.stored and (st.lb > 0 or not st.zero):
                self.bad(n, R, "%s is not written" % self.pname(d), "never|" + self.pname(d))

    def seen(self):
        return self.__dict__.setdefault("_seen", set())

    def loop(self, n):
        cs = list(n.c)
        init = inc = None
        if n.k == "ForStmt":
            if cs and cs[0].k == "DeclStmt" and len(cs) > 2:
                init, cs = cs[0], cs[1:]
            elif len(cs) == 4:
                init, cs = cs[0], cs[1:]
            body = cs[-1]
            cond = cs[0] if len(cs) > 1 else None
            inc = cs[1] if len(cs) > 2 else None
        else:
            if cs[0].k == "DeclStmt":
                raise GiveUp("condition variable")
            cond, body = cs[0], cs[1]
        if init is not None:
            self.exec(init)
        if cond is None:
            raise GiveUp("endless loop")
        R1, R2 = "every-element", "range-of-the-call"
        rel = self.relation(cond)
        if rel is None:
            if self.strip(cond).k == "BinaryOperator" and self.strip(cond).x["op"] in ("&&", "||") or any(m.k == "UnaryOperator" and m.x["op"] in ("++", "--") for m in cond.walk()):
                raise GiveUp("condition")
            self.side_loop(n, body, inc)
            return True
        f, t, unit, op = rel
        self.st.fresh = set()
        if self.rec is None and self.st.zero and any(self.st.straight.get(d) for d in self.outputs()) and f != scale({"N": 1}, f.get("N", 0)):
            raise GiveUp("elements before the loop")
        # a pass that starts again at the first element
        if not self.st.zero and f.get("N") and not f.get("D") and not any(isinstance(x, tuple) and x and x[0] == "T" for x in f):
            self.loops += 1
            tk = ("T", self.loops)
            for d, v in list(self.st.env.items()):
                if v is not None and v[0] == "int":
                    self.st.env[d] = ("int", subst(v[1], "D", {tk: 1}))
                elif v is not None and v[0] == "ptr" and isinstance(v[2], dict):
                    self.st.env[d] = ("ptr", v[1], subst(v[2], "D", {tk: 1}))
            self.st.zero, self.st.ub, self.st.lb, self.st.stored = True, None, 0, {}
        r = self.remaining(rel)
        if r is None:
            raise GiveUp("remaining")
        if r[0] == ">=":
            low, left = r[1], r[1] - 1
        elif r[0] == "!=" and r[1] == 0:
            low, left = 1, 0
        elif r[0] == "!=":
            low, left = 1, r[1]
        else:
            raise GiveUp("relation %s" % r[0])
        # first pass: the steps of all variables
        before = self.st
        outer = self.rec
        self.quiet += 1
        lost, unknown, polys = self.lost, set(self.unknown), list(self.polys)
        self.st, self.rec = before.copy(), []
        changed0, self.changed = self.changed, set()
        go = self.exec(body)
        if go and inc is not None:
            self.ev(inc)
        after, self.rec = self.st, outer
        changed = self.changed
        self.changed = changed0 | changed
        self.quiet -= 1
        self.lost, self.unknown, self.polys = lost, unknown, polys
        if not go:
            raise GiveUp("loop left")
        self.st = after
        rel2 = self.relation(cond)
        self.st = before
        if rel2 is None:
            raise GiveUp("step")
        df = const(add(rel2[0], f, -1))
        if df is None or df == 0 or df > 0:
            raise GiveUp("step")
        g = Fraction(-df, unit)
        if g.denominator != 1:
            raise GiveUp("step")
        g = int(g)
        if outer is not None:
            raise GiveUp("nested")
        self.rep.count("loops over the elements")
        if g > low:
            self.bad(n, R2, "%d elements are processed in each round although only %d are known to be left" % (g, low), "underrun|%d" % g)
        if r[0] == "!=" and g > 1:
            raise GiveUp("step")
        # head of an arbitrary round
        head = before.copy()
        self.loops += 1
        tk = "D" if before.zero else ("T", self.loops)
        strided = {}
        for d in set(before.env) | set(self.ptrs) | changed:
            v0 = before.env.get(d) if d in before.env else ("ptr", d, {}) if d in self.ptrs else ("int", {"N": 1}) if d == self.n else None
            if d not in before.env and d not in changed and d not in self.ptrs:
                continue
            v1 = after.env.get(d, v0)
            if v0 is None or v0[0] not in ("int", "ptr"):
                head.env[d] = v0 if d not in changed else None
                continue
            i = 1 if v0[0] == "int" else 2
            a0 = v0[i]
            a1 = v1[i] if v1 is not None and v1[0] == v0[0] and v1[:i] == v0[:i] else None
            if a0 is None or a1 is None:
                head.env[d] = ("ptr", v0[1], None) if v0[0] == "ptr" else None
                continue
            delta = add(a1, a0, -1)
            base = a0 if before.zero else subst(a0, "D", {"D": 1, tk: -1})
            k = const(delta)
            if k is None:
                at = [x for x in delta if x != ()]
                if v0[0] == "ptr" and len(delta) == 1 and at[0][0] == "P" and at[0][1] in self.strides:
                    e = self.esize.get(v0[1])
                    sp = self.strides[at[0][1]]
                    self.rep.count("pointers advanced by a stride")
                    if e and delta[at[0]] != e * g:
                        self.bad(n, R1, "%s is advanced by %s strides while %d elements are processed" % (self.pname(v0[1]), Fraction(delta[at[0]], e), g), "stride|" + self.pname(v0[1]))
                    if role(sp) and role(sp) != ("source" if const_ptr(self.ptrs[v0[1]][2]) else "destination"):
                        self.bad(n, "stride-of-its-vector", "%s is advanced by %s" % (self.pname(v0[1]), sp), self.pname(v0[1]))
                    strided[v0[1]] = d
                    head.env[d] = ("ptr", v0[1], scale({"D": 1}, e) if e else None)
                    continue
                head.env[d] = ("ptr", v0[1], None) if v0[0] == "ptr" else None
                continue
            val = add(base, {tk: Fraction(k, g)} if k else {})
            head.env[d] = v0[:i] + (val,)
        head.zero = False
        head.lb = max(low, 0)
        head.ub = None
        entry = head.copy()
        self.st, self.rec = head, []
        self.exec(body)
        if inc is not None:
            self.ev(inc)
        rec, self.rec = self.rec, outer
        stores = {}
        told = set()
        for kind, d, relf, w, m, poly, aligned in rec:
            e = self.esize[d]
            o = const(relf)
            nm = self.pname(d)
            at = set(relf) - {()}
            if o is None:
                moving = {x for x in at if x == "D" or isinstance(x, tuple) and x and x[0] == "T"}
                if at - moving:
                    self.unknown.add(d)
                    continue
                if not self.vector and kind == "load":
                    continue
                if (kind, d) not in told:
                    told.add((kind, d))
                    verb = "read" if kind == "load" else "written"
                    if set(relf) <= {"D", ()} and relf.get("D") == -e:
                        self.bad(m, R1, "%s is %s at the same place in every round of the loop" % (nm, verb), "fixed|%s|%s" % (kind, nm))
                    else:
                        self.bad(m, R1, "the elements of %s that are %s are not those being processed" % (nm, verb), "lockstep|%s|%s" % (kind, nm))
                if kind != "load":
                    self.seen().add(d)
                    stores.setdefault(d, [])
                    self.unknown.add(d)
                continue
            self.rep.count("accesses to elements")
            self.seen().add(d)
            if o < 0:
                self.bad(m, R2, "%s is accessed before the elements being processed" % nm, "before|" + nm)
            elif o + w > e * low and g <= low:
                self.bad(m, R2, "%d bytes of %s are accessed although only %d elements are known to be left" % (o + w, nm, low), "beyond|%s|%d" % (nm, w))
            if aligned and self.al is not None and not self.guaranteed(m, w, e):
                self.bad(m, "alignment-guaranteed", "an instruction that requires an alignment of %d bytes accesses %s, which is not known to have it" % (w, nm), "%s|%d" % (nm, w))
            if kind == "store":
                stores.setdefault(d, []).append((o, o + w))
                if poly is not None and d not in strided:
                    self.polys.append((self.index[d], self.flags(m), poly, o, m))
        self.st = entry
        for d in self.outputs():
            if d in stores:
                end = 0
                for a, b in sorted(stores[d]):
                    if a <= end:
                        end = max(end, b)
                ok = end >= self.esize[d] * g
                if not ok and d not in self.unknown:
                    self.bad(n, R1, "%s: in each round %d bytes are written for %d elements" % (self.pname(d), end, g), "gap|%s" % self.pname(d))
                entry.stored[d] = before.stored.get(d, True)
            else:
                entry.stored[d] = False
        entry.ub, entry.lb = left, 0
        # the loop may run no round at all
        entry.zero = False
        entry.whole, entry.straight = set(before.whole), {}
        for d in changed:
            v = entry.env.get(d)
            if v is not None and v[0] == "poly":
                entry.env[d] = None
        return True

    def side_loop(self, n, body, inc):
        """A loop over something else: its variables are unknown, its calls are checked."""
        if self.rec is not None:
            raise GiveUp("nested")
        before = self.st
        self.quiet += 1
        lost, unknown = self.lost, set(self.unknown)
        ch0, self.changed = self.changed, set()
        self.st = before.copy()
        self.exec(body)
        if inc is not None:
            self.ev(inc)
        changed, self.changed = self.changed, ch0 | self.changed
        self.quiet -= 1
        self.lost, self.unknown = lost, unknown
        self.st = before.copy()
        for d in changed:
            v = self.st.env.get(d)
            self.st.env[d] = ("ptr", v[1], None) if v is not None and v[0] == "ptr" else None
        self.exec(body)
        st, self.st = self.st, before
        for d in changed:
            self.st.env[d] = None

    def guaranteed(self, m, w, e):
        need = Fraction(w, e)

        def holds(c, truth):
            c = self.strip(c)
            if c.k == "UnaryOperator" and c.x["op"] == "!":
                return holds(c.c[0], not truth)
            if c.k == "BinaryOperator" and c.x["op"] in ("&&", "||"):
                if (c.x["op"] == "&&") == truth:
                    return any(holds(x, truth) for x in c.c)
                return all(holds(x, truth) for x in c.c)
            if c.k == "DeclRefExpr" and c.x.get("did") in bools:
                return holds(bools[c.x["did"]], truth)
            if is_call(c) and short(c.x.get("cn") or "") == "checkAlignment":
                a = call_args(c)          # establishes no more than the alignment it is asked for
                v = self.ev(a[1]) if len(a) > 1 else None
                v = const(v[1]) if v is not None and v[0] == "int" else None
                return truth and v is not None and v >= need
            if is_call(c):
                return any(x.k == "DeclRefExpr" and x.x.get("did") == self.al for x in c.walk())          # not judged
            if c.k != "BinaryOperator":
                return False
            a, b = self.strip(c.c[0]), self.strip(c.c[1])
            op = c.x["op"]
            if b.k == "DeclRefExpr" and b.x.get("did") == self.al:
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if not (a.k == "DeclRefExpr" and a.x.get("did") == self.al):
                if any(x.k == "DeclRefExpr" and x.x.get("did") == self.al for x in c.walk()):
                    return True          # another test of the alignment: not judged
                return False
            v = self.ev(b)
            v = const(v[1]) if v is not None and v[0] == "int" else None
            if v is None:
                return True
            if not truth:
                op = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}[op]
            return op in (">=", "==") and v >= need or op == ">" and v + 1 >= need
        bools = {}
        for x in self.fn.body.walk():
            if x.k == "DeclStmt":
                for v in x.x.get("vars", []):
                    if base_type(v.t) == "bool" and v.init is not None:
                        bools[v.did] = v.init
        return any(holds(c, t) for c, t in facts(None, None, m))

    def flags(self, m):
        out = {}
        for c, t in facts(None, None, m):
            c = self.strip(c)
            while c.k == "UnaryOperator" and c.x["op"] == "!":
                c, t = self.strip(c.c[0]), not t
            if c.k == "DeclRefExpr" and c.x.get("did") in self.index:
                out[self.index[c.x["did"]]] = t
        return tuple(sorted(out.items()))


def role(name):
    if re.search(r"^(src|source|input|in(?=[A-Z]))", name, re.I):
        return "source"
    if re.search(r"^(dest|dst|output|out(?=[A-Z])|target)", name, re.I):
        return "destination"
    return None


def relative(poly, o):
    """Polynomial with element places relative to the one written; None if elements are mixed."""
    out = {}
    for m, v in poly.items():
        key = []
        for a in m:
            if a[0] == "in":
                if isinstance(a[2], tuple):
                    return None
                key.append(("in", a[1], a[2] - o))
            else:
                key.append(a)
        key = tuple(sorted(key, key=repr))
        out[key] = out.get(key, 0) + v
    return {k: v for k, v in out.items() if v}


def showpoly(p):
    def atom(a):
        return "v%d" % a[1] if a[0] == "in" and a[2] == 0 else "v%d[%s]" % (a[1], a[2]) if a[0] == "in" else "c%d" % a[1]
    return " + ".join("*".join([str(v)] * (v != 1 or not m) + [atom(a) for a in m]) for m, v in sorted(p.items(), key=repr)) or "0"


def check(rep):
    prog = program(LIBS)
    names, results = {}, {}
    judged = set()
    for f in sorted(prog.funcs.values(), key=lambda f: (f.name, f.id)):
        if f.body is None or f.lambda_ or not re.search(r"src/libefl/(reference|intel_x86_64)/", f.file or "") or f.cls:
            continue
        k = Kernel(rep, prog, f, names)
        if k.n is None or not k.ptrs:
            continue
        rep.count("implementations of vector functions")
        try:
            k.run()
        except GiveUp as g:
            rep.count("implementations not understood")
            continue
        judged.add(short(f.name))
        for d, nm in k.strides.items():
            if not any(x.k == "DeclRefExpr" and x.x.get("did") == d for x in f.body.walk()):
                k.bad(None, "stride-of-its-vector", "%s has no influence on the elements that are accessed" % nm, "unused|" + nm)
        e = base_type(f.params[[i for i, p in enumerate(f.params) if is_ptr(p[2])][0]][2])
        impl = "reference" if "reference/" in f.file else "optimised"
        if "complex" in e:
            continue
        results.setdefault((short(f.name), e), []).append((impl, f, k))
    rep.need("implementations of vector functions", 100)
    rep.need("loops over the elements", 50)
    rep.need("accesses to elements", 200)
    # the same expression for each element
    for (nm, e), rs in sorted(results.items()):
        ref = [r for r in rs if r[0] == "reference"]
        opt = [r for r in rs if r[0] == "optimised"]
        if not ref or not opt:
            continue
        want = {}
        for i, fl, p, o, m in ref[0][2].polys:
            q = relative(p, o)
            if q is not None:
                want.setdefault((i, fl), []).append(q)
        for _, f, k in opt:
            for i, fl, p, o, m in k.polys:
                q = relative(p, o)
                w = want.get((i, fl))
                if q is None or not w:
                    continue
                rep.count("expressions compared with the reference implementation")
                if q not in w:
                    k.bad(m, "same-expression", "each element becomes %s, in the reference implementation %s" % (showpoly(q), showpoly(w[0])), "expr|%s" % (fl,))
    dispatch(rep, prog)
    features(rep, prog)


def feature(cid):
    m = re.search(r"@E@Feature(\d+)>", cid or "")
    return m.group(1) if m else None


def features(rep, prog):
    """Implementations for a kind of processor are entered only where its instructions are available, and all of them are taken back."""
    R = "own-implementation"
    uses = {}
    fns = sorted(prog.funcs.values(), key=lambda f: (f.name, f.id))
    for f in fns:
        if f.body is not None and re.search(r"src/libefl/intel_x86_64/", f.file or "") and feature(f.id):
            for n in f.body.walk():
                if is_call(n):
                    nm = short(n.x.get("cn") or "")
                    if re.match(r"_mm(256)?_fn?m(add|sub)", nm):
                        uses.setdefault(feature(f.id), set()).add("FMA")
                    if nm.startswith("_mm256_"):
                        uses.setdefault(feature(f.id), set()).add("AVX")
    entered, restored = {}, set()
    back = {f.id for f in fns if f.body is not None and re.match("uninit", short(f.name)) and re.search(r"src/libefl/intel_x86_64/", f.file or "")}
    work = list(back)
    while work:
        f = prog.funcs.get(work.pop())
        for n in f.body.walk() if f is not None and f.body is not None else ():
            if is_call(n) and n.x.get("cid") in prog.funcs and n.x["cid"] not in back:
                back.add(n.x["cid"])
                work.append(n.x["cid"])
    for f in fns:
        if f.body is None or f.lambda_ or not re.search(r"src/libefl/intel_x86_64/", f.file or ""):
            continue
        for n in f.body.walk():
            if not is_call(n):
                continue
            cn = n.x.get("cn") or ""
            if short(cn) == "set" and re.search(r"Vector\w+Wrapper", cn):
                for x in [x for a in call_args(n) for x in a.walk() if x.k == "DeclRefExpr" and x.x.get("dk") == "Function"]:
                    ft = feature(x.x.get("cid"))
                    if feature(f.id) is not None and ft is not None and ft != feature(f.id):
                        rep.violation(R, f.name, n.l, "an implementation for another kind of processor is entered", "%s|feature|%s" % (R, short(x.x.get("q") or "")), f.file)
                    if "::reference::" in (x.x.get("q") or ""):
                        if f.id in back:
                            restored.add(cn)
                    else:
                        entered.setdefault(cn, (f, n, short(x.x.get("q") or "")))
            g = prog.funcs.get(n.x.get("cid"))
            ft = feature(n.x.get("cid"))
            if g is not None and ft is not None and feature(f.id) is None and short(g.name).startswith("initialise"):
                known = set()

                def collect(c, truth):
                    c = self_strip(c)
                    if c.k == "UnaryOperator" and c.x["op"] == "!":
                        collect(c.c[0], not truth)
                    elif c.k == "BinaryOperator" and c.x["op"] in ("&&", "||"):
                        if (c.x["op"] == "&&") == truth:
                            for x in c.c:
                                collect(x, truth)
                    elif c.k == "DeclRefExpr":
                        for x in f.body.walk():
                            for v in x.x.get("vars", []) if x.k == "DeclStmt" else []:
                                if v.did == c.x.get("did") and v.init is not None:
                                    collect(v.init, truth)
                    elif is_call(c) and truth:
                        known.add(short(c.x.get("cn") or ""))
                        h = prog.funcs.get(c.x.get("cid"))
                        if h is not None and h.body is not None:
                            known.update(short(x.x.get("cn") or "") for x in h.body.walk() if is_call(x))
                for c, t in facts(None, None, n):
                    collect(c, t)
                rep.count("choices by processor features")
                for need in sorted(uses.get(ft, ())):
                    if not any(re.match("has" + need, k) for k in known):
                        rep.violation(R, f.name, n.l, "implementations that use %s instructions are entered although the processor is not known to have them" % need, "%s|cpu|%s|%s" % (R, ft, need), f.file)
    for cn, (f, n, nm) in sorted(entered.items()):
        rep.count("optimised implementations that are taken back")
        if cn not in restored:
            rep.violation(R, f.name, n.l, "the implementation of %s is not replaced by the reference implementation when the library is uninitialised" % nm, "%s|restore|%s" % (R, cn), f.file)


def dispatch(rep, prog):
    """Each function pointer holds an implementation of the function it is named after."""
    R = "own-implementation"
    for f in sorted(prog.funcs.values(), key=lambda f: f.name):
        if f.body is None or f.lambda_ or not re.search(r"src/libefl/", f.file or ""):
            continue
        for n in f.body.walk():
            if not (is_call(n) and short(n.x.get("cn") or "") in ("set", "call")):
                continue
            m = re.search(r"(Vector\w+?)Wrapper(Base)?(<|::)", n.x.get("cn") or "")
            if not m:
                continue
            own = m.group(1)[0].lower() + m.group(1)[1:]
            if short(n.x["cn"]) == "set":
                tg = [x for a in call_args(n) for x in a.walk() if x.k == "DeclRefExpr" and x.x.get("dk") == "Function"]
                for x in tg:
                    rep.count("implementations entered for a function")
                    if short(x.x.get("q") or x.x.get("d") or "").split("<")[0] != own:
                        rep.violation(R, f.name, n.l, "%s is entered as implementation of %s" % (short(x.x.get("q") or ""), own), "%s|%s|%s" % (R, re.sub(r"<.*", "", f.name), own), f.file)
            elif short(f.name).split("<")[0] != own and short(f.name).startswith("vector"):
                rep.violation(R, f.name, n.l, "%s calls the implementation of %s" % (short(f.name), own), "%s|%s" % (R, short(f.name)), f.file)
            else:
                rep.count("calls of the selected implementation")
                a = call_args(n)
                ps = [p[0] for p in f.params]
                ds = [self_strip(x).x.get("did") for x in a]
                if all(d in ps for d in ds) and ds != ps[:len(ds)]:
                    rep.violation(R, f.name, n.l, "arguments are handed on in another order", "%s|%s|order" % (R, short(f.name)), f.file)


def self_strip(n):
    while (n.k in WRAP or n.k in IDENTITY) and len(n.c) == 1:
        n = n.c[0]
    return n
