"""Value semantics: copying, assigning, swapping, cloning and comparing parameters and objects takes every attribute into account;
an attribute that was set is the one that is returned."""
import re
from .common import *
from vsa.sim import Client, Engine, Frame, single_return
from vsa.model import is_call, call_args, call_base, short
from vsa.term import Terms, show, subterms, decls, assigned
from vsa import loops

LIBS = ["libefl", "libpml", "librbbl", "libobjectmodel", "libpanning", "libpanningdsp", "libvisr"]
THIS = ("this",)
RHS = ("rhs",)
# Not part of the value: the row pitch and the memory alignment are storage properties.
LAYOUT = {("visr::efl::BasicMatrix", "mStride"), ("visr::efl::AlignedArray", "mAlignment")}
TUPLES = ("tie", "make_tuple", "forward_as_tuple", "make_pair")
ARITH = ("int", "unsigned", "long", "short", "char", "bool", "float", "double", "size_t")
CONTENT_CALLS = ("begin", "end", "cbegin", "cend", "data", "c_str", "str", "row", "rows", "clone", "get", "release", "move", "forward",
                 "make_move_iterator", "static_pointer_cast", "operator[]", "front")
TRANSFERS = ("swap", "assign", "copy", "copy_n", "move", "vectorCopy", "memcpy", "memmove", "insert", "push_back", "emplace_back", "emplace",
             "reset", "clear", "iter_swap", "swap_ranges", "exchange", "operator=", "setRow", "transform", "emplace_hint", "append")


def strip_t(c):
    return c.split("<")[0]


def arith(t):
    t = (t or "").replace("const ", "").replace("std::", "").strip()
    return bool(t) and "*" not in t and "<" not in t and all(w in ARITH for w in t.rstrip(" &").split())


def all_fields(prog, cls, seen=()):
    """(class, Field) of cls and its bases."""
    r = prog.records.get(cls)
    if r is None or cls in seen:
        return []
    out = []
    for b in r.bases:
        out += all_fields(prog, b, seen + (cls,))
    for f in r.fields:
        if f.n and (strip_t(cls), f.n) not in LAYOUT:
            out.append((cls, f))
    return out


class Copy(Client):
    """State: the fields known to hold what the source held (names), ('eq'|'ne', field) facts, 'same' for self assignment."""

    def __init__(self, prog, fn, cls, rhs, fields):
        self.prog = prog
        self.fn = fn
        self.cls = cls
        self.rhs = rhs
        self.fields = {f.n: f for _c, f in fields}
        self.kind = None
        self.emptied = {}
        self.T = Terms(prog)
        self.storage = set(f.n for f in prog.records[cls].fields) if cls in prog.records else set()
        self.inl = {cls}
        st = [cls]
        while st:
            r = prog.records.get(st.pop())
            for b in (r.bases if r else ()):
                if b not in self.inl:
                    self.inl.add(b)
                    st.append(b)
        self.numeric = getattr(prog, "_numeric_fields", None)
        if self.numeric is None:
            num, non = set(), set()
            for r in prog.records.values():
                for f in r.fields:
                    (num if arith(f.t) else non).add(f.n)
            self.numeric = prog._numeric_fields = num - non

    def relevant(self, f):
        return f.body is not None and (f.cls in self.inl or (f.file == self.fn.file and not f.cls) or bool(f.lambda_)) and not f.implicit

    # ---- terms
    def norm(self, t):
        if not isinstance(t, tuple):
            return t
        if t[0] == "a" and t[1] == self.rhs:
            return RHS
        if t[0] == "l":
            v = decls(self.fn).get(t[1])
            if v is not None and v.init is not None and v.t.replace("const ", "").rstrip(" &") == self.cls and \
                    all(a.l for a in ()) and t[1] not in assigned(self.fn):
                e = loops.unwrap(v.init)
                if e is not None and e.k == "CXXConstructExpr" and len(e.c) == 1:
                    i = self.T.term(Frame(self.fn, "this", {}), e.c[0])
                    if i == ("a", self.rhs):
                        return RHS
            return t
        return tuple(self.norm(x) if isinstance(x, tuple) else x for x in t)

    def term(self, fr, n):
        return self.norm(self.T.term(fr, n))

    def content(self, t, root):
        """The field of root whose content t denotes, or None."""
        for _ in range(30):
            if t[0] == "f":
                if t[1] == root:
                    return t[2]
                if t[2] in self.numeric:
                    return None
                t = t[1]
            elif t[0] in ("idx", "elem"):
                t = t[1]
            elif t[0] == "u" and len(t) > 2:
                t = t[2]
            elif t[0] == "op" and t[1] in ("+", "-"):
                c = [x for x in (self.content(t[2], root), self.content(t[3], root)) if x]
                return c[0] if c else None
            elif t[0] == "call" and len(t) > 2 and isinstance(t[2], tuple):
                if t[1] not in CONTENT_CALLS:
                    c = self.helper(t, root)
                    return c
                t = t[2]
            elif t[0] == "?:":
                c = [x for x in (self.content(t[2], root), self.content(t[3], root)) if x]
                return c[0] if c else None
            elif t[0] in ("list", "new"):
                c = [x for x in (self.content(y, root) for y in t[1:] if isinstance(y, tuple)) if x]
                return c[0] if c else None
            else:
                return None
        return None

    def helper(self, t, root):
        """f(x, ...) where f is a repository function that returns a copy of its argument."""
        fs = [f for f in self.prog.funcs.values() if short(f.name) == t[1] and f.body is not None and len(f.params) == len(t) - 2]
        for i, a in enumerate(t[2:]):
            if isinstance(a, tuple):
                x = self.content(a, root)
                if x and fs and any(returns_copy(self.prog, f, i) for f in fs):
                    return x
        return None

    # ---- transfers
    def cover(self, st, names):
        names = frozenset(n for n in names if n in self.fields)
        return st.client(st.c | names) if names - st.c else st

    def leaf_local(self, t):
        for _ in range(20):
            if t[0] == "l":
                return t[1]
            if t[0] in ("idx", "elem") or t[0] == "f" and t[2] not in self.numeric:
                t = t[1]
            elif t[0] == "call" and t[1] in CONTENT_CALLS and len(t) > 2 and isinstance(t[2], tuple):
                t = t[2]
            else:
                return None
        return None

    def source(self, st, t):
        """Field of the source object whose content t denotes, directly or through a local copy."""
        x = self.content(t, RHS)
        if x:
            return x
        d = self.leaf_local(t)
        for c in st.c:
            if isinstance(c, tuple) and c[0] == "loc" and c[1] == d:
                return c[2]
        return None

    def incomplete_loop(self, fr, n):
        """n sits in a loop that leaves out part of its range."""
        while fr is not None:
            p = n
            while p is not None:
                if p.k in ("ForStmt", "WhileStmt", "CXXForRangeStmt"):
                    d = loops.domain(self.T, fr, p)
                    if d is not None and d.gap:
                        return True
                p = p.p
            n, fr = fr.call, fr.caller
            if n is None:
                return False
        return False

    def flow(self, st, dst, src, whole=False):
        """dst = src"""
        if dst[0] == "call" and dst[1] == "tie" and src[0] == "call" and src[1] in ("make_tuple", "tie", "forward_as_tuple") and len(dst) == len(src):
            for a, b in zip(dst[2:], src[2:]):
                st = self.flow(st, a, b, whole)
            return st
        d = self.leaf_local(dst)
        if d is not None:
            x = self.source(st, src)
            if x:
                return st.client(st.c | {("loc", d, x)})
            x = self.content(src, THIS)
            return st.client(st.c | {("own", d, x)}) if x else st
        b = self.content(dst, RHS)
        if b is not None:
            d = self.leaf_local(src)
            if b == self.content(src, THIS) and b not in st.c or d is not None and ("own", d, b) in st.c:
                return st.client(st.c | {("back", b)})
            return st
        if dst == THIS and src == RHS:
            return self.cover(st, list(self.fields))
        x = self.content(dst, THIS)
        if x is None:
            return st
        if src in (("c", "null"), ("list",)) and ("null", x) in st.c:
            return self.cover(st, [x])
        if x == self.source(st, src) or (dst == ("f", THIS, x) and self.derived(st, src)):
            return self.cover(st, [x])
        if whole and x in st.c and dst == ("f", THIS, x) and not any(s == ("f", RHS, x) for s in subterms(src)):
            return st.client(st.c - {x})
        return st

    def derived(self, st, src):
        """Computed from attributes that already were transferred (or from the source object as a whole)."""
        own = [s for s in subterms(src) if s[0] == "f" and s[1] == THIS]
        if any(s[0] == "call" and s[1] == "new" for s in subterms(src)):
            return False
        return bool(own) and all(s[2] in st.c for s in own)

    def element(self, eng, fr, st, n):
        r = self.transfer(eng, fr, st, n)
        if r is not None and r.c != st.c and self.incomplete_loop(fr, n):
            return st
        return r

    def transfer(self, eng, fr, st, n):
        if n.k == "DeclStmt":
            for v in n.x["vars"]:
                if v.init is not None and arith(v.t) and not v.t.endswith("&"):
                    x = self.content(self.term(fr, v.init), THIS)
                    if x:
                        st = st.client(st.c | {("own", v.did, x)})
                elif v.init is not None and not v.t.endswith("&"):
                    u = loops.unwrap(v.init)
                    for e in [v.init] + (list(u.c) if u is not None and u.k == "CXXConstructExpr" else []):
                        x = self.content(self.term(fr, e), RHS)
                        if x:
                            st = st.client(st.c | {("loc", v.did, x)})
                        x = self.content(self.term(fr, e), THIS)
                        if x:
                            st = st.client(st.c | {("own", v.did, x)})
            return st
        if n.k == "BinaryOperator" and n.x["op"] == "=":
            return self.flow(st, self.term(fr, n.c[0]), self.term(fr, n.c[1]), True)
        if n.k == "CXXOperatorCallExpr" and n.x.get("op") == "=" and len(n.c) == 3:
            if any(self.relevant(f) for f in self.prog.callees(n)):
                return None
            return self.flow(st, self.term(fr, n.c[1]), self.term(fr, n.c[2]), True)
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            from vsa.model import self_construct
            if self_construct(fr.fn, n) and len(n.c) == 1 and self.T.this_term(fr) == THIS:
                if not any(self.relevant(f) for f in self.prog.callees(n)) and self.term(fr, n.c[0]) == RHS:
                    return self.cover(st, [f.n for _c, f in all_fields(self.prog, n.x.get("cc") or "")])
            return None
        if is_call(n):
            s = short(n.x.get("cn") or "")
            if s not in TRANSFERS and s != "resize":
                return None
            cs = self.prog.callees(n)
            if any(self.relevant(f) for f in cs):
                return None
            b = call_base(n)
            args = ([b] if b is not None else []) + list(call_args(n))
            if n.k == "CXXMemberCallExpr" and b is None:
                return None
            ts = [self.term(fr, a) for a in args]
            if self.kind == "assign" and b is not None and ("no", "same") not in st.c and "same" not in st.c and \
                    (s == "clear" or s == "resize" and re.search(r"AlignedArray|BasicMatrix|BasicVector|ArrayType", (b.t or "") + (n.x.get("cc") or ""))):
                x = self.content(ts[0], THIS)
                if x and x not in st.c and not any(isinstance(y, tuple) and y[0] == "loc" and y[2] == x for y in st.c):
                    self.emptied.setdefault(x, n)
            if s == "resize":
                return None
            if THIS in ts and RHS in ts and b is not None:
                cc = n.x.get("cc") or ""
                fs = [f.n for _c, f in all_fields(self.prog, cc)]
                if s == "swap":
                    st = st.client(st.c | set(("back", x) for x in fs))
                return self.cover(st, fs)
            if s in ("swap", "swap_ranges", "iter_swap"):
                for x in set(self.content(d, THIS) for d in ts) & set(self.content(d, RHS) for d in ts):
                    if x:
                        st = st.client(st.c | {("back", x)})
            for d in ts:
                x = self.content(d, THIS)
                if x is not None:
                    if s == "clear" and d is ts[0]:
                        st = st.client(st.c | {("clr", x)})
                    if s in ("insert", "push_back", "emplace_back", "emplace", "emplace_hint", "append") and self.fn.sp not in ("copyctor", "movector") and ("clr", x) not in st.c:
                        continue        # adds to what the target held before
                    if s in ("reset", "clear") and len([t for t in ts if t != ("c", "null")]) == 1 and ("null", x) in st.c:
                        st = self.cover(st, [x])
                    if s in ("vectorCopy", "memcpy", "copy_n") and self.partial(ts):
                        continue
                    if any(self.source(st, a) == x for a in ts if a is not d):
                        st = self.cover(st, [x])
                else:
                    l = self.leaf_local(d)
                    if l is not None:
                        for a in ts:
                            y = self.content(a, RHS) if a is not d else None
                            if y and not (s in ("vectorCopy", "memcpy", "copy_n") and self.partial(ts)):
                                st = st.client(st.c | {("loc", l, y)})
            return st
        return None

    def partial(self, ts):
        """A copy of a number of elements that does not depend on the size of anything."""
        n = ts[2] if len(ts) > 2 else None
        if n is not None and {"mStride", "mNumberOfRows", "mNumberOfColumns"} <= self.storage:
            f = sorted(self.factors(n))
            if any(x[0] in ("idx", "elem") or x[0] == "op" and x[1] == "+" or x[0] == "call" and x[1] == "row" for t in ts[:2] for x in subterms(t)):
                return f not in (["mNumberOfColumns"], ["mStride"])
            return f != ["mNumberOfRows", "mStride"]
        return n is not None and (n[0] == "c" or any(x[0] == "op" and x[1] in ("-", "/") for x in subterms(n)))

    def factors(self, t):
        if t[0] == "op" and t[1] == "*":
            return self.factors(t[2]) + self.factors(t[3])
        if t[0] == "f" and t[1] in (THIS, RHS):
            return [t[2]]
        return [repr(t)]

    def init(self, eng, fr, st, name):
        if not fr.fn.cls or self.T.this_term(fr) != THIS:
            return st
        for d in fr.fn.inits:
            if d.get("m") == name and d["e"] is not None:
                e = d["e"]
                ts = [self.term(fr, e)]
                u = loops.unwrap(e)
                if u is not None and u.k in ("CXXConstructExpr", "InitListExpr"):
                    ts += [self.term(fr, a) for a in u.c]
                for t in ts:
                    f = self.fields.get(name)
                    if self.content(t, RHS) == name or self.derived(st, t):
                        return self.cover(st, [name])
                    if f is not None and arith(f.t) and t[0] == "?:" and any(s == ("f", RHS, name) for s in subterms(t)):
                        return self.cover(st, [name])
        return st

    def branch(self, eng, fr, st, n, taken):
        eq = None
        while n.k == "UnaryOperator" and n.x["op"] == "!" or n.k in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups") and n.c:
            if n.k == "UnaryOperator":
                taken = not taken
            n = n.c[0]
        if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.x.get("op") in ("==", "!="):
            a, b = (n.c[0], n.c[1]) if n.k == "BinaryOperator" else (n.c[1], n.c[2])
            ta, tb = self.term(fr, a), self.term(fr, b)
            eq = (n.x["op"] == "==") == taken
            for x, y in ((ta, tb), (tb, ta)):
                if x == THIS and y == RHS:
                    if eq:
                        return st.client(st.c | {"same"})
                    return st.client(st.c | {("no", "same")}) if "same" not in st.c else None
                p = self.peer(x, y)
                if p:
                    return self.fact(st, p, eq)
            if ta[0] == "call" and tb[0] == "call" and ta[1] in TUPLES and tb[1] in TUPLES and len(ta) == len(tb):
                ps = [self.peer(x, y) or self.peer(y, x) for x, y in zip(ta[2:], tb[2:])]
                if eq:
                    for p in ps:
                        st = self.fact(st, p, True) if p and st is not None else st
                    return st
                if all(ps):
                    return self.fact(st, ps[0], False) if len(ps) == 1 else st.client(st.c | {("eq?", "one"), ("ne", "one")})
        t = self.term(fr, n) if eq is None else None
        if t is not None:
            neg = False
            while t[0] == "u" and t[1] == "!":
                t, neg = t[2], not neg
            if t[0] == "f" and t[1] == RHS and taken == neg:
                return st.client(st.c | {("null", t[2])})
        if eq is not None:
            for x, y in ((ta, tb), (tb, ta)):
                if x[0] == "f" and x[1] == RHS and y == ("c", "null") and eq:
                    return st.client(st.c | {("null", x[2])})
        elif is_call(n) and short(n.x.get("cn") or "") in ("equal", "is_permutation", "compare"):
            ts = [self.term(fr, a) for a in ([call_base(n)] if call_base(n) is not None else []) + list(call_args(n))]
            for x in ts:
                for y in ts:
                    p = self.peer(x, y)
                    if p:
                        return self.fact(st, p, taken)
        return st

    def fact(self, st, p, eq):
        if ("eq" if not eq else "ne", p) in st.c:
            return None
        c = st.c | {("eq" if eq else "ne", p)}
        if eq:
            c = c | {p}
        return st.client(c)

    def peer(self, x, y):
        """x is this.F (or its content) and y is the same of rhs"""
        cx = self.content(x, THIS) if x[0] != "f" or x[1] != THIS else x[2]
        cy = self.content(y, RHS) if y[0] != "f" or y[1] != RHS else y[2]
        return cx if cx and cx == cy else None

    loop_once = True
    tell_flags = True


_copies = {}


def returns_copy(prog, f, i):
    """Every normal return of f yields the content of parameter i."""
    k = (f.id, i)
    if k in _copies:
        return _copies[k]
    _copies[k] = True
    T = Terms(prog)
    did = f.params[i][0]
    e = single_return(f)

    class C(Client):
        loop_once = True

        def relevant(self, g):
            return g.body is not None and g.file == f.file and g is not f

        def leaf(self, t):
            for _ in range(20):
                if t[0] in ("idx", "elem", "f"):
                    t = t[1]
                elif t[0] == "call" and len(t) > 2 and t[1] in CONTENT_CALLS and isinstance(t[2], tuple):
                    t = t[2]
                elif t[0] == "op" and t[1] in ("+", "-"):
                    t = t[2] if self.leaf(t[2])[0] in ("a", "l") else t[3]
                elif t[0] in ("new", "list") and len(t) == 2:
                    t = t[1]
                else:
                    return t
            return t

        def element(self, eng, fr, st, n):
            if n.k == "ReturnStmt" and n.c and fr.caller is None:
                t = self.leaf(T.term(fr, n.c[0]))
                if t == ("a", did) or t in st.c:
                    return st.client(st.c | {"ok"})
                return st.client(st.c | {"bad"})
            ts = None
            if n.k == "BinaryOperator" and n.x["op"] == "=":
                ts = [T.term(fr, x) for x in n.c]
            elif is_call(n) and short(n.x.get("cn") or "") in TRANSFERS and not any(self.relevant(g) for g in prog.callees(n)):
                b = call_base(n)
                ts = [T.term(fr, x) for x in ([b] if b is not None else []) + list(n.c[1:])]
            elif n.k == "DeclStmt":
                for v in n.x["vars"]:
                    if v.init is not None:
                        u = loops.unwrap(v.init)
                        ex = [v.init] + (list(u.c) if u is not None and u.k == "CXXConstructExpr" else [])
                        if any(x.t and not arith(x.t) and self.leaf(T.term(fr, x)) == ("a", did) for x in ex):
                            st = st.client(st.c | {("l", v.did)})
                return st
            if ts:
                ls = [self.leaf(t) for t in ts]
                if ("a", did) in ls:
                    return st.client(st.c | {l for l in ls if l[0] == "l"})
            return None
    if e is not None and C().leaf(T.term(Frame(f, "this", {}), e)) == ("a", did):
        return True
    rs = Engine(prog, C()).run(f, frozenset())
    ok = all("bad" not in r[1].c for r in rs if r[0] == "ret")
    _copies[k] = ok
    return ok


def show_fields(fs):
    return ", ".join(sorted(fs))


def special_functions(prog):
    seen = {}
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if not f.cls or f.body is None or f.defaulted or f.implicit or f.static or len(f.params) != 1:
            continue
        s = short(f.name)
        pt = f.params[0][2].replace("const ", "").rstrip(" &")
        kind = None
        if s in ("compare", "operator=="):
            kind = "compare"
        elif s == "swap":
            kind = "swap"
        elif s in ("assign", "operator=") or f.sp in ("copyassign", "moveassign"):
            kind = "assign"
        elif f.sp in ("copyctor", "movector"):
            kind = "copy"
        elif s == "copy":
            kind = "copy content"
        if kind is None:
            continue
        cls = f.cls
        if strip_t(cls).endswith("::TypedParameterBase"):
            if pt != "visr::ParameterBase":
                continue
            arg = first_targ(cls)
            seen.setdefault((f.file, f.line, arg), (f, kind, arg))
            continue
        if pt != cls and not (kind == "compare" and prog.is_derived(cls, pt)):
            continue
        seen.setdefault((f.file, f.line, strip_t(cls)), (f, kind, cls))
    return list(seen.values())


def first_targ(cls):
    a = cls[cls.index("<") + 1:]
    d = 0
    for i, c in enumerate(a):
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif c == "," and d == 0:
            return a[:i].strip()
    return a


def check_transfers(prog, rep):
    for f, kind, cls in special_functions(prog):
        fields = all_fields(prog, cls)
        if "iterator" in cls.split("::")[-1]:
            continue
        need = set(x.n for _c, x in fields)
        if kind in ("assign", "swap", "copy content"):
            need -= set(x.n for _c, x in fields if x.const)
        if kind in ("swap", "copy content") or (f.sp == "movector"):
            pass
        cl = Copy(prog, f, cls, f.params[0][0], fields)
        cl.kind = kind
        eng = Engine(prog, cl)
        rep.count("copy, assignment, swap and comparison functions analysed")
        rep.count("attributes per function", len(need))
        try:
            rs = eng.run(f, frozenset())
        except RecursionError:
            raise Broken("recursion in %s" % f.name)
        bad = {}
        for r in rs:
            if r[0] != "ret":
                continue
            c = r[1].c
            if "same" in c:
                continue
            if kind == "compare":
                val = r[2]
                eqs = set(x[1] for x in c if isinstance(x, tuple) and x[0] == "eq")
                nes = set(x[1] for x in c if isinstance(x, tuple) and x[0] == "ne")
                if val is True and need - eqs:
                    bad.setdefault("compares equal without having compared %s" % show_fields(need - eqs), 1)
                elif val is True and nes:
                    bad.setdefault("compares equal although %s differs" % show_fields(nes), 1)
                elif val is False and not nes:
                    bad.setdefault("compares unequal although no attribute differs", 1)
                elif val not in (True, False):
                    rep.notes.append("%s: undetermined result" % f.name)
                continue
            miss = need - c
            back = need - set(x[1] for x in c if isinstance(x, tuple) and x[0] in ("back", "eq"))
            if kind == "swap" and back and not miss:
                bad.setdefault("%s not handed over to the other object" % show_fields(back), 1)
            if miss:
                bad.setdefault("%s not taken over from the source" % show_fields(miss), 1)
        for x, n in cl.emptied.items():
            rep.violation("self-assignment", f.name, n.l, "%s: an object assigned to itself loses %s, which is emptied before it is taken over" % (kind, x),
                          "self-assignment|%s|%s" % (strip_t(cls), x), n.file if hasattr(n, "file") else f.file)
        for w in bad:
            rep.violation("attribute-lost", f.name, f.line, "%s: %s on some path" % (kind, w), "attribute-lost|%s|%s|%s" % (strip_t(cls), kind, w), f.file)
        rep.sample("%s %s: %s" % (kind, cls, show_fields(need) or "(no attributes)"))


# ------------------------------------------------------------------ clone
def constructs_of_self(prog, T, fr, seen, depth=0):
    out = []
    if fr.fn.body is None or depth > 4 or fr.fn.id in seen:
        return out
    for n in fr.fn.body.walk():
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(n.c) == 1:
            if T.term(fr, n.c[0]) == THIS or (n.c[0].k == "UnaryOperator" and n.c[0].x.get("op") == "*" and T.term(fr, n.c[0].c[0]) == THIS):
                out.append((n.x.get("cc") or n.t).replace("const ", ""))
        elif is_call(n):
            s = short(n.x.get("cn") or "")
            if s in ("make_unique", "make_shared"):
                if any(T.term(fr, a) == THIS for a in call_args(n)):
                    t = n.t
                    for p in ("std::unique_ptr<", "std::shared_ptr<"):
                        i = t.find(p)
                        if i >= 0:
                            out.append(first_targ(t[i:]))
            else:
                for g in prog.callees(n):
                    if g.body is not None and not n.x.get("virt"):
                        out += constructs_of_self(prog, T, T.frame(fr, n, g), seen | {fr.fn.id}, depth + 1)
    return out


def check_clone(prog, rep):
    T = Terms(prog)
    done = set()
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if short(f.name) != "clone" or not f.cls or f.body is None or f.params:
            continue
        cls = f.cls
        want = first_targ(cls) if strip_t(cls).endswith("::TypedParameterBase") else cls
        if want in done:
            continue
        done.add(want)
        rep.count("clone functions")
        got = [c for c in constructs_of_self(prog, T, Frame(f, "this", {}), frozenset()) if "unique_ptr" not in c and "shared_ptr" not in c]
        if not got:
            rep.violation("clone-not-a-copy", f.name, f.line, "clone() does not return a copy constructed from the object itself",
                          "clone-not-a-copy|%s" % strip_t(want), f.file)
        for g in set(got):
            if g != want:
                rep.violation("clone-slices", f.name, f.line, "clone() of %s creates an object of type %s" % (want, g),
                              "clone-slices|%s" % strip_t(want), f.file)
    # every concrete class of a cloneable hierarchy clones itself
    for r in sorted(prog.records.values(), key=lambda r: r.name):
        if r.abstract:
            continue
        own = any(m["n"] == "clone" and not m["pt"] for m in r.methods)
        if own:
            continue
        b = base_with_clone(prog, r)
        if b is None:
            continue
        rep.count("concrete cloneable classes without own clone function")
        if strip_t(b).endswith("::TypedParameterBase") and first_targ(b) == r.name:
            continue
        rep.violation("clone-missing", r.name, r.line, "class %s has no clone() of its own: cloning it yields a %s" % (r.name, b),
                      "clone-missing|%s" % strip_t(r.name), r.file)


def base_with_clone(prog, r):
    st = list(r.bases)
    while st:
        x = st.pop(0)
        q = prog.records.get(x)
        if q is None:
            continue
        if any(m["n"] == "clone" and not m["pt"] for m in q.methods):
            return x
        st += q.bases
    return None


# ------------------------------------------------------------------ accessors
def check_accessors(prog, rep):
    """setX(v) stores v in what x() returns."""
    T = Terms(prog)
    for cls, ms in sorted(prog.methods_of.items()):
        if not any(p in cls for p in ("objectmodel::", "pml::", "panningdsp::", "rbbl::", "panning::")):
            continue
        getters = {}
        for f in ms:
            if f.body is None or f.static or f.params:
                continue
            e = single_return(f)
            if e is None:
                continue
            t = T.term(Frame(f, "this", {}), e)
            if t[0] == "f" and t[1] == THIS and not t[2].startswith("?"):
                getters[short(f.name).lower()] = (f, t[2])
        for f in ms:
            s = short(f.name)
            if f.body is None or len(f.params) != 1 or not s.startswith("set"):
                continue
            g = getters.get(s[3:].lower()) or getters.get("get" + s[3:].lower())
            if g is None:
                continue
            rep.count("setter and getter pairs")
            fld = g[1]
            bad = stores(prog, T, f, fld, f.params[0][0])
            if bad:
                rep.violation("setter-getter", f.name, f.line, "%s: %s() returns %s" % (bad, short(g[0].name), fld),
                              "setter-getter|%s" % f.name, f.file)


def pure(t, did, idx=None):
    """t is the parameter itself, possibly moved or converted."""
    while True:
        if t == ("a", did):
            return True
        if idx is not None and t[0] in ("idx", "elem") and t[1] == ("a", did):
            return t[2:] == idx
        if t[0] == "call" and t[1] in ("move", "forward", "begin", "cbegin", "end", "cend", "data", "get") and len(t) == 3:
            t = t[2]
        elif t[0] in ("new", "list", "cast") and sum(isinstance(x, tuple) for x in t[1:]) == 1:
            t = [x for x in t[1:] if isinstance(x, tuple)][0]
        elif t[0] == "?:" and len(t) == 4 and ("throw" in (t[2][0], t[3][0])):
            t = t[2] if t[3][0] == "throw" else t[3]
        else:
            return False


def stores(prog, T, f, fld, did):
    class C(Client):
        loop_once = True
        tell_flags = True
        altered = None

        def relevant(self, g):
            return g.cls == f.cls and g.body is not None

        def mine(self, st, t):
            ls = [x[1] for x in st.c if isinstance(x, tuple)]
            return any(x == ("a", did) or x[0] == "l" and x[1] in ls for x in subterms(t))

        def element(self, eng, fr, st, n):
            if n.k == "DeclStmt":
                for v in n.x["vars"]:
                    if v.init is not None and self.mine(st, T.term(fr, v.init)):
                        st = st.client(st.c | {("loc", v.did)})
                return st
            if n.k == "BinaryOperator" and n.x["op"] == "=" or n.k == "CXXOperatorCallExpr" and n.x.get("op") == "=" and len(n.c) == 3:
                a, b = (n.c[0], n.c[1]) if n.k == "BinaryOperator" else (n.c[1], n.c[2])
                d = T.term(fr, a)
                src = T.term(fr, b)
                if d[0] in ("idx", "elem") and d[1] == ("f", THIS, fld) and self.mine(st, src):
                    return st.client(st.c | {"stored"})
                if d[0] == "l" and self.mine(st, src):
                    return st.client(st.c | {("loc", d[1])})
                if d == ("f", THIS, fld):
                    if self.mine(st, src):
                        if src[0] in ("a", "op", "u", "call") and not pure(src, did) and (src[0] != "call" or src[1] in ALTER):
                            self.altered = self.altered or "%s() stores %s" % (short(f.name), show(src))
                        return st.client(st.c | {"stored"})
                    return st.client(frozenset(st.c - {"stored"}) | {"other"})
            if is_call(n) and short(n.x.get("cn") or "") in TRANSFERS + ("resize",):
                ts = [T.term(fr, x) for x in ([call_base(n)] if call_base(n) is not None else []) + list(call_args(n))]
                if any(s == ("f", THIS, fld) for t in ts for s in subterms(t)) and any(self.mine(st, t) for t in ts):
                    return st.client(st.c | {"stored"})
            return None

        def branch(self, eng, fr, st, n, taken):
            n, taken = plain(n, taken)
            if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.x.get("op") in ("==", "!="):
                x, y = [T.term(fr, c) for c in (n.c if n.k == "BinaryOperator" else n.c[1:])]
                if (n.x["op"] == "==") == taken and ("a", did) in (x, y) and ("f", THIS, fld) in (x, y):
                    return st.client(st.c | {"stored"})
            return st
    c = C()
    for r in Engine(prog, c).run(f, frozenset()):
        if r[0] == "ret" and "stored" not in r[1].c:
            return "%s() returns without having stored its argument in %s" % (short(f.name), fld)
    return c.altered


ALTER = ("max", "min", "abs", "fabs", "clamp", "round", "floor", "ceil", "sqrt", "trunc", "fmod", "fmin", "fmax")
VALUE_CLASSES = ("::objectmodel::", "::pml::ListenerPosition", "::pml::IndexedValueParameter", "::rbbl::Position3D", "::rbbl::Quaternion",
                 "::rbbl::InterpolationParameter", "::rbbl::ParametricIirCoefficient", "::rbbl::BiquadCoefficient", "::efl::BasicMatrix",
                 "::efl::BasicVector", "::panning::LoudspeakerArray", "::panning::XYZ", "::pml::SignalRoutingParameter")


def plain(n, taken):
    while n.k == "UnaryOperator" and n.x["op"] == "!" or n.k in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups") and n.c:
        if n.k == "UnaryOperator":
            taken = not taken
        n = n.c[0]
    return n, taken


class Setter(Client):
    """State: ('st', p) parameter p has reached an attribute; ('loc', local, p)."""
    loop_once = True
    tell_flags = True

    def __init__(self, prog, fn):
        self.prog = prog
        self.fn = fn
        self.T = Terms(prog)
        self.ps = set(p[0] for p in fn.params if p[2].replace("const ", "").rstrip(" &") != "bool")
        self.types = {p[0]: p[2] for p in fn.params}

    def relevant(self, g):
        return g.body is not None and (g.cls == self.fn.cls or g.lambda_ or not g.cls and g.file == self.fn.file)

    def mine(self, t):
        for _ in range(40):
            if t == THIS:
                return True
            if t[0] in ("f", "idx", "elem"):
                t = t[1]
            elif t[0] == "u" and len(t) > 2:
                t = t[2]
            elif t[0] == "op" and t[1] in ("+", "-"):
                return self.mine(t[2]) or self.mine(t[3])
            elif t[0] == "call" and len(t) > 2 and isinstance(t[2], tuple):
                t = t[2]
            else:
                return False
        return False

    def attr(self, t):
        return self.mine(t) and t != THIS

    def used(self, st, t, value=False):
        """Parameters that t was computed from."""
        out = set()
        locs = {}
        for x in st.c:
            if x[0] == "loc":
                locs.setdefault(x[1], set()).add(x[2])

        def rec(t):
            if t[0] == "a" and t[1] in self.ps:
                out.add(t[1])
            elif t[0] == "l":
                out.update(locs.get(t[1], ()))
            elif value and t[0] == "idx" and t[1][0] == "a" and len(t) > 2 and isinstance(t[2], tuple) and t[2][0] == "c" \
                    and "vector<" in self.types.get(t[1][1], ""):
                return      # just one element of the given sequence
            elif value and t[0] == "call" and t[1] in ("front", "back", "size", "empty") and t[2:] and t[2][0] == "a":
                return
            else:
                for x in t[1:]:
                    if isinstance(x, tuple) and x:
                        rec(x)
        rec(t)
        return out

    def put(self, fr, st, ds, srcs):
        ps = set()
        for d in ds:
            ps |= self.used(st, d)
        for s in srcs:
            ps |= self.used(st, s, True)
        return st.client(st.c | set(("st", p) for p in ps))

    def bounds(self, fr, st, n):
        """Parameters that bound the loops around n."""
        ps = set()
        while fr is not None:
            p = n
            while p is not None:
                if p.k in ("ForStmt", "WhileStmt"):
                    for c in p.c:
                        if c.t == "bool":
                            ps |= self.used(st, self.T.term(fr, c))
                p = p.p
            n, fr = fr.call, fr.caller
            if n is None:
                break
        return st.client(st.c | set(("st", p) for p in ps))

    def element(self, eng, fr, st, n):
        if n.k == "DeclStmt":
            for v in n.x["vars"]:
                if v.init is not None:
                    for p in self.used(st, self.T.term(fr, v.init), True):
                        st = st.client(st.c | {("loc", v.did, p)})
            return st
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.x["op"].endswith("=") and n.x["op"] not in ("==", "!=", "<=", ">=") \
                or n.k == "CXXOperatorCallExpr" and n.x.get("op") == "=" and len(n.c) == 3:
            a, b = (n.c[0], n.c[1]) if n.k != "CXXOperatorCallExpr" else (n.c[1], n.c[2])
            return self.store(fr, st, n, [self.T.term(fr, a)], [self.T.term(fr, b)])
        if is_call(n):
            if any(self.relevant(g) for g in self.prog.callees(n)):
                return None
            s = short(n.x.get("cn") or "")
            ts = [self.T.term(fr, x) for x in ([call_base(n)] if call_base(n) is not None else []) + list(call_args(n))]
            if s in TRANSFERS + ("resize", "fill", "fill_n", "vectorZero", "vectorFill") or re.match("set|reset|assign|add|insert|initiali[sz]e", s):
                d = [t for t in ts if self.attr(t) or t == THIS and n.k == "CXXMemberCallExpr"]
                l = [t for t in ts if t[0] == "l" or t[0] == "call" and len(t) > 2 and t[2][0] == "l"]
                if d or l:
                    return self.store(fr, st, n, d or l, ts)
            elif "::operator" not in (n.x.get("cn") or "") and not n.x.get("mconst") and n.k != "CXXMemberCallExpr":
                d = [t for t in ts if self.attr(t)]
                if d and not any(g.body is None for g in self.prog.callees(n)) and self.prog.callees(n):
                    return self.store(fr, st, n, d, ts)
        return None

    def store(self, fr, st, n, ds, srcs):
        if any(self.attr(d) or d == THIS for d in ds):
            return self.bounds(fr, self.put(fr, st, ds, srcs), n)
        for d in ds:
            while d[0] in ("idx", "elem", "f") or d[0] == "call" and len(d) > 2:
                d = d[2] if d[0] == "call" else d[1]
            if d[0] == "l":
                for s in srcs:
                    for p in self.used(st, s, True):
                        st = st.client(st.c | {("loc", d[1], p)})
        return st

    def branch(self, eng, fr, st, n, taken):
        n, taken = plain(n, taken)
        if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.x.get("op") in ("==", "!=") and (n.x["op"] == "==") == taken:
            ts = [self.T.term(fr, c) for c in (n.c if n.k == "BinaryOperator" else n.c[1:])]
            for t, o in (ts, ts[::-1]):
                if t[0] == "a" and t[1] in self.ps and (re.search(r"int|long|short", self.types[t[1]]) or self.attr(o)):
                    st = st.client(st.c | {("st", t[1])})
        return st


def check_setters(prog, rep):
    """A function that sets an attribute stores everything it was given."""
    done = set()
    for cls, ms in sorted(prog.methods_of.items()):
        if not any(p in cls for p in VALUE_CLASSES):
            continue
        for f in ms:
            s = short(f.name)
            if f.body is None or not f.params or f.static or not re.match("set($|[A-Z])|resetNumber", s) or (f.file, f.line) in done:
                continue
            done.add((f.file, f.line))
            rep.count("setters: every argument is stored")
            cl = Setter(prog, f)
            lost = set()
            for r in Engine(prog, cl).run(f, frozenset()):
                if r[0] == "ret":
                    lost |= cl.ps - set(x[1] for x in r[1].c if x[0] == "st")
            for p in f.params:
                if p[0] in lost:
                    rep.violation("setter-store", f.name, f.line, "%s() can return without having stored what it was given as %s" % (s, p[1]),
                                  "setter-store|%s|%s" % (f.name, p[1]), f.file)
            check_rest(prog, rep, cl, f)


def index_range(T, fr, loop, var):
    """(first, end) of the values the loop variable takes, stepping by one; None if it is not the index."""
    if var[0] != "l":
        return None
    v = decls(fr.fn).get(var[1])
    cond = next((c for c in loop.c if c.k == "BinaryOperator" and c.t == "bool"), None)
    if v is None or v.init is None or cond is None:
        return None
    inside = [a for a in assigned(fr.fn).get(var[1], ()) if loops.within(a, loop)]
    if len(inside) != 1:
        return None
    lo = T.term(fr, v.init)
    x, y = T.term(fr, cond.c[0]), T.term(fr, cond.c[1])
    if inside[0].k != "UnaryOperator" or not inside[0].x["op"].startswith("++"):
        return (lo, ("?",))
    op = cond.x["op"]
    if y == var:
        x, y, op = y, x, {"<": ">", ">": "<"}.get(op, op)
    if x != var:
        return None
    return (lo, y if op in ("<", "!=") else ("?",))


def outer(t):
    """The attribute of this object that t is part of."""
    while t is not None and t[0] == "f" and t[1][0] == "f":
        t = t[1]
    return t


def check_rest(prog, rep, cl, f):
    """A setter that fills a container attribute in a loop leaves no element of it as it was."""
    T = cl.T
    fr = Frame(f, "this", {})
    ranges = {}
    whole = set()
    equal = set()
    ends = {}
    for n in f.body.walk():
        if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.x.get("op") in ("=", "==", "!="):
            a, b = (n.c[0], n.c[1]) if n.k == "BinaryOperator" else (n.c[1], n.c[2])
            d, e = T.term(fr, a), T.term(fr, b)
            if n.x["op"] != "=":
                equal |= {d, e}
                continue
            if d[0] == "f" and d[1] == THIS:
                whole.add(d)
            if d[0] == "call" and d[1] == "at" and len(d) == 4:
                d = ("idx", d[2], d[3])
            if d[0] in ("idx", "elem"):
                d = (d[0], outer(d[1])) + d[2:]
            if d[0] in ("idx", "elem") and d[1][0] == "f" and d[1][1] == THIS and len(d) > 2:
                p = n.p
                while p is not None and p.k != "ForStmt":
                    p = p.p
                r = index_range(T, fr, p, d[2]) if p is not None else None
                if r is not None:
                    if not any(v.did == d[2][1] for c in p.c if c.k == "DeclStmt" for v in c.x["vars"]):
                        r = (ends.get(d[2][1], r[0]), r[1])
                    ends[d[2][1]] = r[1]
                    ranges.setdefault(d[1], []).append(r + (n,))
        elif is_call(n) and short(n.x.get("cn") or "") in TRANSFERS + ("fill", "fill_n", "assign", "resize", "clear"):
            for x in ([call_base(n)] if call_base(n) is not None else []) + list(call_args(n)):
                for y in subterms(T.term(fr, x)):
                    if y[0] == "f" and y[1] == THIS:
                        whole.add(y)
    for fld, rs in ranges.items():
        if fld in whole:
            continue
        ty = next((x.t for _c, x in all_fields(prog, f.cls) if x.n == fld[2]), "")
        at = ("c", "0")
        used = set()
        while True:
            nx = [i for i, r in enumerate(rs) if i not in used and r[0] == at]
            if not nx:
                break
            used |= set(nx)
            at = rs[nx[0]][1]
        if outer(loops.size_of(at)) == fld or at[0] == "c" and at[1] != "0" or at in equal or "array<" in ty and at[0] != "call":
            if len(used) == len(rs):
                continue
        rep.violation("setter-rest", f.name, rs[0][2].l, "%s() leaves elements of %s as they were" % (short(f.name), fld[2]),
                      "setter-rest|%s|%s" % (f.name, fld[2]), f.file)


def check_unique_insert(prog, rep):
    """insert() into a set does nothing if it holds an equal element: the old one has to go first, or the result is looked at."""
    T = Terms(prog)
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.body is None or not f.cls or not f.cls.startswith("visr::objectmodel::") or f.sp or f.acc != 0:
            continue
        sites = {}
        for n in f.body.walk():
            if n.k == "CXXMemberCallExpr" and short(n.x.get("cn") or "") in ("insert", "emplace") and call_base(n) is not None:
                if re.search(r"\b(set|map)<", call_base(n).t or "") and n.p is not None and n.p.k in ("CompoundStmt", "ExprWithCleanups"):
                    t = T.term(Frame(f, "this", {}), call_base(n))
                    if t[0] == "f" and t[1] == THIS:
                        sites[n.i] = (n, t)
        if not sites or not any(p for p in f.params):
            continue

        class C(Client):
            loop_once = True
            pointer_paths = True
            tell_flags = True

            def relevant(self, g):
                return g.cls == f.cls and g.body is not None

            def element(self, eng, fr, st, n):
                if n.k == "CXXMemberCallExpr" and call_base(n) is not None:
                    s = short(n.x.get("cn") or "")
                    b = T.term(fr, call_base(n))
                    if s in ("erase", "clear", "extract") and b[0] == "f":
                        return st.client(st.c | {b})
                    if fr.fn is f and n.i in sites and b not in st.c:
                        bad.setdefault(n.i, n)
                return None

            def branch(self, eng, fr, st, n, taken):
                n, taken = plain(n, taken)
                if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.x.get("op") in ("==", "!="):
                    eq = (n.x["op"] == "==") == taken
                    for x in (n.c if n.k == "BinaryOperator" else n.c[1:]):
                        t = T.term(fr, x)
                        if eq and (t == ("c", "0") or t[0] == "call" and t[1] in ("end", "cend") and t[2][0] == "f"):
                            for y in ([t[2]] if t[0] == "call" else [i[1] for i in sites.values()]):
                                st = st.client(st.c | {y})
                return st
        bad = {}
        Engine(prog, C()).run(f, frozenset())
        rep.count("insertions that replace what was there")
        for n in bad.values():
            rep.violation("insert-replaces", f.name, n.l, "insert() keeps the old element if there is one with the same key: the new one is lost",
                          "insert-replaces|%s" % f.name, f.file)


def check(rep):
    prog = program(LIBS)
    check_transfers(prog, rep)
    check_clone(prog, rep)
    check_accessors(prog, rep)
    check_setters(prog, rep)
    check_unique_insert(prog, rep)
    rep.need("copy, assignment, swap and comparison functions analysed", 20)
    rep.need("clone functions", 12)
    rep.need("setter and getter pairs", 8)
