"""Iteration domains of loops: which container or index range a loop runs over, and whether it runs over all of it."""
from .model import is_call, call_base, short
from .term import decls, assigned


def parts(loop):
    """(init, cond, inc, body) of a for statement."""
    p = loop.x.get("parts")
    return p


def unwrap(e):
    while e is not None and e.k in ("InitListExpr", "ExprWithCleanups", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "ImplicitCastExpr") and len(e.c) == 1:
        e = e.c[0]
    return e


def iter_call(e):
    """('begin'|'end'..., base node) for c.begin(), std::begin(c), componentBegin()."""
    e = unwrap(e)
    while e is not None and e.k == "CXXConstructExpr" and len(e.c) == 1:
        e = unwrap(e.c[0])
    if e is None or not is_call(e):
        return None
    s = short(e.x.get("cn") or "")
    for w in ("begin", "end"):
        if s == w or s == "c" + w or s == "r" + w or s == "cr" + w or s.endswith(w.capitalize()):
            b = call_base(e)
            if b is None and len(e.c) > 1:
                b = e.c[1]
            return (w, s, b, e)
    return None


class Dom(object):
    """kind 'elems': all elements of container term; kind 'index': 0..bound-1. gap: why not all are visited (or None)."""

    def __init__(self, kind, what, var, gap=None, reverse=False):
        self.kind = kind
        self.what = what
        self.var = var
        self.gap = gap
        self.reverse = reverse


def domain(T, fr, loop):
    """Dom of a ForStmt / CXXForRangeStmt / WhileStmt, or None when its shape is not understood."""
    if loop.k == "CXXForRangeStmt":
        rng = None
        var = None
        for c in loop.c:
            if c.k == "DeclStmt":
                for v in c.x["vars"]:
                    if v.n.startswith("__range"):
                        rng = v
                    elif not v.n.startswith("__"):
                        var = v
        if rng is None or rng.init is None:
            return None
        t = T.term(fr, rng.init)
        rev = False
        if t[0] == "op" and t[1] == "|" and "reversed" in repr(t):
            t = t[2] if "reversed" in repr(t[3]) else t[3]
            rev = True
        if t[0] == "call" and t[1] == "reverse":
            t = t[2]
            rev = True
        return Dom("elems", t, var.did if var else None, None, rev)
    if loop.k not in ("ForStmt", "WhileStmt"):
        return None
    cond = None
    for c in loop.c:
        if c.k in ("BinaryOperator", "CXXOperatorCallExpr") and c.x.get("op") in ("<", "!=", "<=", ">", ">=") and c.t == "bool":
            cond = c
            break
    if cond is None:
        return None
    x, y = (cond.c[0], cond.c[1]) if cond.k == "BinaryOperator" else (cond.c[1], cond.c[2])
    op = cond.x["op"]
    dd = decls(fr.fn)

    def loopvar(e):
        return e.k == "DeclRefExpr" and "did" in e.x and e.x["did"] in assigned(fr.fn) and any(
            within(a, loop) for a in assigned(fr.fn)[e.x["did"]])
    if not loopvar(x) and loopvar(y):
        x, y = y, x
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
    if not loopvar(x):
        return None
    did = x.x["did"]
    v = dd.get(did)
    init = v.init if v is not None else None
    # assignment in the for-init
    for a in assigned(fr.fn)[did]:
        if a.k == "BinaryOperator" and a.p is loop:
            init = a.c[1]
    mods = [a for a in assigned(fr.fn)[did] if within(a, loop) and not (a.k == "BinaryOperator" and a.p is loop)]
    gap = None
    step = None
    for a in mods:
        if a.k in ("UnaryOperator", "CXXOperatorCallExpr") and a.x["op"] in ("++", "++post"):
            s = 1
        elif a.k == "CompoundAssignOperator" and a.x["op"] == "+=":
            t = T.term(fr, a.c[1])
            s = int(t[1]) if t[0] == "c" and str(t[1]).isdigit() else None
        else:
            s = None
        if s is None:
            return None
        step = s if step is None else step + s
    if step != 1:
        gap = "advances in steps of %s" % step
    i0 = iter_call(init) if init is not None else None
    if i0 is not None:
        e = iter_call(y)
        base = T.term(fr, i0[2]) if i0[2] is not None else ("this",)
        if i0[0] != "begin":
            return None
        if i0[1].endswith("Begin"):
            base = ("call", i0[1][:-5], base)
        if e is None:
            ty = T.term(fr, y)
            if ty[0] == "call" and ty[1] in ("end", "cend", "rend", "crend") and ty[2] == base:
                e = ("end",)
            else:
                gap = gap or "does not run to the end of the container"
        elif e[0] != "end":
            gap = gap or "does not run to the end of the container"
        return Dom("elems", base, did, gap, i0[1] in ("rbegin", "crbegin"))
    t0 = T.term(fr, init) if init is not None else None
    if t0 is None:
        return None
    if t0[0] != "c" or str(t0[1]) not in ("0",):
        if t0[0] == "c":
            gap = gap or "starts at %s" % t0[1]
        else:
            it = iter_base(t0)
            if it is not None:
                return Dom("elems", it, did, gap or "does not start at the beginning of the container")
            return None
    bound = T.term(fr, y)
    if op == "<=":
        if bound[0] == "op" and bound[1] == "-" and bound[3] == ("c", "1"):
            bound = bound[2]
        else:
            gap = gap or "runs one beyond its bound"
    elif op not in ("<", "!="):
        return None
    return Dom("index", bound, did, gap)


def iter_base(t):
    if t[0] == "op" and t[1] in ("+", "-"):
        for x in t[2:]:
            if isinstance(x, tuple) and x[0] == "call" and x[1] in ("begin", "cbegin"):
                return x[2]
    if t[0] == "call" and t[1] in ("next",):
        return iter_base(t[2]) or (t[2][2] if t[2][0] == "call" and t[2][1] in ("begin", "cbegin") else None)
    return None


def within(n, anc):
    while n is not None:
        if n is anc:
            return True
        n = n.p
    return False


def size_of(bound):
    """Container term if bound is its size."""
    if bound[0] == "call" and bound[1] in ("size", "numberOfElements") and len(bound) == 3:
        return bound[2]
    return None


def cond_loop(n):
    """The loop whose condition n is."""
    p = n.p
    c = n
    while p is not None and p.k in ("BinaryOperator", "UnaryOperator", "ExprWithCleanups", "CXXStaticCastExpr") and p.t == "bool":
        c, p = p, p.p
    if p is not None and p.k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
        return p
    return None
