"""Symbolic terms of expressions: locals that are assigned once are replaced by their initialisers, parameters by the
caller's arguments, one-line accessors by what they return; casts, dereferences and address-of are dropped."""
from .model import self_construct, is_call, call_args, call_base, short
from .sim import CASTS, Frame, single_return

COMM = ("+", "*", "==", "!=", "&&", "||")


def assigned(fn):
    r = getattr(fn, "_assigned", None)
    if r is None:
        r = {}
        if fn.body is not None:
            for n in fn.body.walk():
                t = None
                if n.k == "BinaryOperator" and n.x["op"] == "=" or n.k == "CompoundAssignOperator":
                    t = n.c[0]
                elif n.k == "UnaryOperator" and n.x["op"] in ("++", "--", "++post", "--post"):
                    t = n.c[0]
                elif n.k == "CXXOperatorCallExpr" and n.x.get("op") in ("=", "+=", "-=", "++", "--"):
                    t = n.c[1]
                if t is not None and t.k == "DeclRefExpr" and "did" in t.x:
                    r.setdefault(t.x["did"], []).append(n)
        fn._assigned = r
    return r


def decls(fn):
    r = getattr(fn, "_decls", None)
    if r is None:
        r = {}
        roots = [fn.body] if fn.body is not None else []
        for b in fn.blocks.values():
            for el in b.e:
                if el[0] == "s" and el[1].k == "DeclStmt":
                    roots.append(el[1])
        for root in roots:
            for n in root.walk():
                if n.k == "DeclStmt":
                    for v in n.x["vars"]:
                        if v.did not in r or (r[v.did].init is None and v.init is not None):
                            r[v.did] = v
        fn._decls = r
    return r


class Terms(object):
    def __init__(self, prog, opaque=None):
        self.prog = prog
        self.opaque = opaque or (lambda f: False)     # accessors to keep as calls
        self.inducing = set()

    def term(self, fr, n, d=0):
        if n is None:
            return ("?",)
        if d > 40:
            return ("?", n.i)
        k = n.k
        if k == "DeclRefExpr" and n.x.get("dk") == "EnumConstant":
            return ("g", n.x["q"])
        if "cv" in n.x and (k != "DeclRefExpr" or n.x.get("dk") == "Var") and not (k.endswith("CastExpr") and n.c and n.c[0].k == "DeclRefExpr" and n.c[0].x.get("dk") == "EnumConstant"):
            return ("c", n.x["cv"])
        if k in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr", "CharacterLiteral", "StringLiteral"):
            return ("c", n.x.get("v"))
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return ("c", "null")
        if k == "CXXThisExpr":
            return self.this_term(fr, d)
        if k == "MemberExpr":
            b = self.term(fr, n.c[0], d + 1) if n.c else self.this_term(fr, d)
            return ("f", b, n.x["m"])
        if k == "DeclRefExpr":
            return self.var(fr, n, d)
        if k in CASTS or k in ("InitListExpr", "CXXDefaultArgExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ExprWithCleanups",
                               "ParenExpr", "ImplicitCastExpr", "CXXStdInitializerListExpr"):
            if len(n.c) == 1:
                return self.term(fr, n.c[0], d + 1)
            if not n.c and "cv" in n.x:
                return ("c", n.x["cv"])
            return ("list",) + tuple(self.term(fr, c, d + 1) for c in n.c)
        if k == "UnaryOperator":
            op = n.x["op"]
            if op in ("*", "&", "+"):
                return self.term(fr, n.c[0], d + 1)
            return ("u", op, self.term(fr, n.c[0], d + 1))
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            a, b = self.term(fr, n.c[0], d + 1), self.term(fr, n.c[1], d + 1)
            return self.binop(n.x["op"], a, b)
        if k == "ArraySubscriptExpr":
            return ("idx", self.term(fr, n.c[0], d + 1), self.term(fr, n.c[1], d + 1))
        if k == "ConditionalOperator":
            return ("?:",) + tuple(self.term(fr, c, d + 1) for c in n.c)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if len(n.c) == 1:
                return self.term(fr, n.c[0], d + 1)
            return ("new", (n.x.get("cc") or n.t).replace("const ", "")) + tuple(self.term(fr, c, d + 1) for c in n.c)
        if k == "CXXNewExpr":
            for c in n.c:
                if c.k in ("CXXConstructExpr", "InitListExpr"):
                    return ("new", c.x.get("cc") or c.t) + tuple(self.term(fr, a, d + 1) for a in c.c)
            return ("?", n.fn.id if n.fn is not None else 0, n.i)
        if k == "CXXOperatorCallExpr":
            op = n.x.get("op")
            a = [self.term(fr, c, d + 1) for c in n.c[1:]]
            if op in ("*", "->") and len(a) == 1:
                return a[0]
            if op == "[]":
                return ("idx", a[0], a[1])
            if op in ("+", "-", "*", "/", "==", "!=", "<", ">", "<=", ">=") and len(a) == 2:
                return self.binop(op, a[0], a[1])
            if op == "()" and n.x.get("cid"):
                r = self.inline(fr, n, d)
                if r is not None:
                    return r
            return ("o", op) + tuple(a)
        if is_call(n):
            cn = n.x.get("cn") or ""
            s = short(cn)
            b = call_base(n)
            if s in ("move", "forward", "addressof", "ref", "cref", "as_const") and cn.startswith("std::") and len(n.c) > 1:
                return self.term(fr, n.c[1], d + 1)
            if s == "get" and b is not None and cn.startswith("std::"):
                return self.term(fr, b, d + 1)
            if s == "at" and b is not None and cn.startswith("std::") and len(n.c) > 1:
                return ("idx", self.term(fr, b, d + 1), self.term(fr, n.c[1], d + 1))
            if s == "operator bool":
                return self.term(fr, b, d + 1)
            if s == "front" and b is not None and cn.startswith("std::"):
                return ("idx", self.term(fr, b, d + 1), ("c", "0"))
            r = self.inline(fr, n, d)
            if r is not None:
                return r
            bt = (self.term(fr, b, d + 1),) if b is not None else \
                ((self.this_term(fr, d),) if n.k == "CXXMemberCallExpr" else ())
            return ("call", s) + bt + tuple(self.term(fr, a, d + 1) for a in call_args(n))
        return ("?", n.fn.id if n.fn is not None else 0, n.i)

    def binop(self, op, a, b):
        if op in (">", ">="):
            op = {">": "<", ">=": "<="}[op]
            a, b = b, a
        if op in COMM and repr(b) < repr(a):
            a, b = b, a
        if op == "+":
            if a == ("c", "0"):
                return b
            if b == ("c", "0"):
                return a
        if op == "*":
            if a == ("c", "1"):
                return b
            if b == ("c", "1"):
                return a
        return ("op", op, a, b)

    def inline(self, fr, n, d):
        fs = self.prog.callees(n)
        if len(fs) == 1 and not n.x.get("virt"):
            f = fs[0]
            e = single_return(f)
            if e is not None and not self.opaque(f) and fr.depth < 10:
                return self.term(self.frame(fr, n, f), e, d + 1)
        return None

    def frame(self, fr, n, f):
        lex = fr if f.lambda_ else None
        return Frame(f, None, {}, lex, False, fr.depth + 1, n, fr)

    def this_term(self, fr, d=0):
        # the object of the call that created the frame
        f = fr
        while f is not None:
            if f.fn.lambda_ and f.parent is not None:
                f = f.parent
                continue
            if f.caller is None:
                return ("this",)
            if f.fn.cls and not f.fn.static:
                n = f.call
                if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    if self_construct(f.caller.fn, n):
                        return self.this_term(f.caller, d + 1)
                    return ("new", f.fn.cls, n.i)
                b = call_base(n)
                return self.term(f.caller, b, d + 1) if b is not None else self.this_term(f.caller, d + 1)
            return ("this",)
        return ("this",)

    def var(self, fr, n, d):
        if n.x.get("glob"):
            g = self.prog.globals.get(n.x["q"])
            if g is not None and g.const and g.init is not None and "cv" in g.init.x:
                return ("c", g.init.x["cv"])
            return ("g", n.x["q"])
        if n.x.get("dk") in ("Function", "CXXMethod", "EnumConstant"):
            return ("g", n.x["q"])
        did = n.x.get("did")
        f = fr
        while f is not None:
            for i, (pd, _nm, ty) in enumerate(f.fn.params):
                if pd == did:
                    if did in assigned(f.fn):
                        return ("l", did)
                    if f.caller is not None and f.call is not None:
                        args = call_args(f.call)
                        if f.call.k == "CXXOperatorCallExpr" and f.call.x.get("cc"):
                            args = args[1:]
                        if i < len(args):
                            return self.term(f.caller, args[i], d + 1)
                    b = f.bind.get(did) if f.bind else None
                    return b if isinstance(b, tuple) else ("a", did)
            v = decls(f.fn).get(did)
            if v is not None:
                e = self.elem_of(f, v, d)
                if e is not None:
                    return e
                if did in assigned(f.fn) and v.init is not None and not v.static:
                    t = self.induction(f, n, v, d)
                    if t is not None:
                        return t
                if did in assigned(f.fn) or v.init is None or v.static:
                    return ("l", did)
                if v.t.endswith("&") or not self.mutated(f.fn, did):
                    return self.term(f, v.init, d + 1)
                return ("l", did)
            f = f.parent
        return ("l", did)

    def induction(self, f, n, v, d):
        """Locals advanced by a fixed amount in each iteration of a counting loop: start + counter * amount."""
        mods = assigned(f.fn)[v.did]
        if len(mods) != 1 or v.did in self.inducing:
            return None
        a = mods[0]
        if a.k == "UnaryOperator" and a.x["op"] in ("++", "++post"):
            amount = ("c", "1")
        elif a.k == "CompoundAssignOperator" and a.x["op"] == "+=":
            amount = None
        else:
            return None
        top = a
        while top.p is not None and top.p.k in ("BinaryOperator", "ExprWithCleanups") and top.p.x.get("op", ",") == ",":
            top = top.p
        loop = top.p
        if loop is not None and loop.k == "CompoundStmt" and loop.c and loop.c[-1] is top and loop.p is not None and loop.p.k == "ForStmt" and \
                not any(x.k == "ContinueStmt" for x in loop.walk()):
            loop = loop.p
        if loop is None or loop.k != "ForStmt":
            return None
        from .loops import within, domain
        if not within(n, loop) or within(n, a):
            return None
        if within(top, loop) and n.fn is f.fn and top.p.k == "CompoundStmt" and within(n, top):
            return None
        self.inducing.add(v.did)
        try:
            dom = domain(self, f, loop)
            if dom is None or dom.kind != "index" or dom.var == v.did or (dom.gap or "").startswith(("advances", "starts")):
                return None
            # declared outside the loop, but inside every loop around it
            q = loop.p
            while q is not None:
                if q.k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") and not any(
                        x.k == "DeclStmt" and any(w.did == v.did for w in x.x["vars"]) for x in q.walk()):
                    return None
                q = q.p
            if amount is None:
                amount = self.term(f, a.c[1], d + 1)
            if any(x == ("l", v.did) or x == ("l", dom.var) for x in subterms(amount)):
                return None
            start = self.term(f, v.init, d + 1)
            step = ("l", dom.var) if amount == ("c", "1") else self.binop("*", ("l", dom.var), amount)
            return step if start == ("c", "0") else self.binop("+", start, step)
        finally:
            self.inducing.discard(v.did)

    def elem_of(self, f, v, d):
        """Iterators that start at begin() and are only incremented denote an element of the container."""
        i = v.init
        while i is not None and i.k in ("InitListExpr", "CXXConstructExpr", "ExprWithCleanups") and len(i.c) == 1:
            i = i.c[0]
        if i is None or not is_call(i):
            return None
        s = short(i.x.get("cn") or "")
        if s not in ("begin", "cbegin", "rbegin", "crbegin") and not s.endswith("Begin"):
            return None
        if any(a.k not in ("UnaryOperator", "CXXOperatorCallExpr") or a.x.get("op") not in ("++", "++post") for a in assigned(f.fn).get(v.did, ())):
            return None
        b = call_base(i)
        if b is None and len(i.c) > 1:
            b = i.c[1]
        if b is None:
            return None
        c = self.term(f, b, d + 1)
        if s.endswith("Begin"):
            c = ("call", s[:-5], c)
        return ("elem", c, v.did)

    def mutated(self, fn, did):
        """Non-const member calls on a local object, or its address handed out."""
        r = getattr(fn, "_mutd", None)
        if r is None:
            r = set()
            if fn.body is not None:
                for n in fn.body.walk():
                    if n.k == "CXXMemberCallExpr" and not n.x.get("mconst"):
                        b = call_base(n)
                        if b is not None and b.k == "DeclRefExpr" and b.t and not b.t.rstrip().endswith("*"):
                            r.add(b.x.get("did"))
                    if is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                        args = call_args(n)
                        if n.k == "CXXOperatorCallExpr" and n.x.get("cc"):
                            args = args[1:]
                        for t, a in zip(n.x.get("pt") or (), args):
                            if a.k == "DeclRefExpr" and t.endswith("&") and not t.startswith("const ") and "&&" not in t:
                                r.add(a.x.get("did"))
                            if a.k == "UnaryOperator" and a.x.get("op") == "&" and a.c[0].k == "DeclRefExpr":
                                r.add(a.c[0].x.get("did"))
            fn._mutd = r
        return did in r


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "c":
        return str(t[1])
    if k == "this":
        return "this"
    if k == "f":
        return (show(t[1]) + "." if t[1] != ("this",) else "") + t[2]
    if k == "idx":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "op":
        return "(%s %s %s)" % (show(t[2]), t[1], show(t[3]))
    if k == "call":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2:]))
    if k in ("l", "a"):
        return "%s%d" % (k, t[1])
    if k == "g":
        return t[1]
    if k == "elem":
        return "element of %s" % show(t[1])
    return "%s(%s)" % (k, ", ".join(show(x) for x in t[1:]))


def subterms(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple):
            for y in subterms(x):
                yield y
