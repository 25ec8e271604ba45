"""Text representations: complete lists, omitted values, attributes set on every path, tables of names, separators."""
import re

from .common import *
from vsa.model import is_call, call_base, call_args, short
from vsa.sim import Engine, Client, Frame
from vsa.term import Terms, assigned, decls
from .pyround import const, inside, enumerators
from .serial import peel, number, is_tree, tree_functions, stands_in, show, tag

MUTATE = {"resize", "clear", "swap", "assign", "operator=", "push_back", "emplace_back", "insert"}
SIZING = {"resize", "clear", "swap", "assign", "operator="}
TREEW = {"put", "add", "put_child", "add_child", "push_back", "put_value"}


def nm(n):
    return re.sub(r"<.*$", "", short(n.x.get("cn") or ""))


def scope(prog, readers, writers):
    files = {f.file for f in list(readers.values()) + list(writers.values())}
    rw = set(files)
    for f in prog.funcs.values():
        if f.body is not None and (f.file or "").startswith("src/lib") and any(
                n.k == "DeclStmt" and any(is_tree(v.t) for v in n.x["vars"]) for n in f.body.walk()):
            files.add(f.file)
    out = []
    for f in prog.funcs.values():
        if f.body is None or not (f.file or "").startswith("src/") or not f.name.startswith("visr::"):
            continue
        if f.file in rw or f.file in files and any(is_tree(m.t) for m in f.body.walk()) or short(f.name) == "toString" and "sequence" in f.file:
            out.append(f)
    return sorted(out, key=lambda f: (f.file or "", f.line, f.id))


def sub(t):
    yield t
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            yield from sub(x)


def loops_of(f):
    return [n for n in f.body.walk() if n.k in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt")]


def innermost(n, f):
    p = n.p
    while p is not None:
        if p.k in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt"):
            return p
        p = p.p
    return None


def body_of(lp):
    return lp.c[-1] if lp.k != "DoStmt" else lp.c[0]


def literal_of(n):
    for m in n.walk():
        if m.k == "StringLiteral":
            return m.x.get("s")
        if m.k == "CharacterLiteral":
            try:
                return chr(int(m.x.get("v")))
            except (TypeError, ValueError):
                return None
    return None


def is_lit(n):
    n = peel(n)
    return n.k in ("StringLiteral", "CharacterLiteral")


def is_out(n):
    return n.k == "CXXOperatorCallExpr" and n.x.get("op") == "<<" and len(n.c) >= 3 and "basic_ostream" in (n.t or "")


def transfers(prog, f, lp):
    """Statements of a loop that hand an element on: (node, is text)."""
    b = body_of(lp)
    own = {v.did for m in lp.walk() if m.k == "DeclStmt" for v in m.x["vars"]}
    for n in b.walk():
        if innermost(n, f) is not lp:
            continue
        if is_out(n):
            if not is_lit(n.c[2]):
                yield n
        elif n.k == "CXXMemberCallExpr":
            cn, m = n.x.get("cn") or "", nm(n)
            if is_tree(n.x.get("cc")) and m in TREEW:
                yield n
            elif m in ("push_back", "emplace_back", "insert") and cn.startswith("std::"):
                yield n
            elif cn.startswith("visr::") and not n.x.get("mconst"):
                yield n
        elif is_call(n) and any(is_tree(a.t) and "const" not in (a.t or "") for a in call_args(n)):
            yield n


def throws(n):
    return any(m.k == "CXXThrowExpr" for m in n.walk())


def under_if(n, stop):
    """Conditions without an alternative under which n is executed within stop."""
    out = []
    c, p = n, n.p
    while p is not None and p is not stop.p:
        if p.k == "IfStmt" and p.c and p.c[0] is not c:
            other = [x for x in p.c[1:] if x is not c]
            if not other or not any(is_call(m) for x in other for m in x.walk()):
                if not any(throws(x) for x in other):
                    out.append(p)
        c, p = p, p.p
    return out


def complete(rep, prog, fns):
    T = Terms(prog)
    for f in fns:
        fr = Frame(f, "this", {})
        for lp in loops_of(f):
            b = body_of(lp)
            tr = list(transfers(prog, f, lp))
            if not tr:
                continue
            rep.count("loops over elements")

            def bad(what, l=None):
                rep.violation("elements-left-out", f.name, l or lp.l, what, "elements-left-out|%s" % f.name, f.file)

            for m in b.walk():
                if m.k == "ContinueStmt" and innermost(m, f) is lp or m.k == "BreakStmt" and closest(m) is lp:
                    bad("a loop over the elements passes over some of them", m.l)
                elif m.k == "ReturnStmt" and innermost(m, f) is lp:
                    bad("a loop over the elements ends early", m.l)
            free = [n for n in tr if not under_if(n, b)]
            cond = [n for n in tr if under_if(n, b)]
            if cond and not free:
                bad("the elements are handed on only under a condition", cond[0].l)
            else:
                for n in cond:
                    if n.k == "CXXMemberCallExpr" and not is_tree(n.x.get("cc")) and (n.x.get("cn") or "").startswith("visr::") and \
                            call_base(n) is not None and peel(call_base(n)).k != "CXXThisExpr":
                        bad("an attribute of the elements is set only under a condition", n.l)
            if any(n.k == "CXXMemberCallExpr" and nm(n) == "insert" and (n.x.get("cn") or "").startswith("std::") and call_args(n) and
                   any(is_call(m) and nm(m) in ("begin", "cbegin") for m in call_args(n)[0].walk()) for n in tr):
                bad("the elements are put in reverse order")
            if lp.k != "ForStmt":
                continue
            cnd = next((c for c in lp.c[:-1] if c.k in ("BinaryOperator", "CXXOperatorCallExpr") and c.t == "bool"), None)
            ds = {v.did: v for c in lp.c[:-1] if c.k == "DeclStmt" for v in c.x["vars"] if v.init is not None}
            if cnd is None:
                continue
            ops = cnd.c if cnd.k == "BinaryOperator" else cnd.c[1:]
            x, y = [T.term(fr, o) for o in ops]
            op = cnd.x["op"]
            base, k = const(x)
            if not (base[0] == "l" and base[1] in ds):
                x, y, op = y, x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                base, k = const(x)
            if not (base[0] == "l" and base[1] in ds):
                continue
            v = ds[base[1]]
            lo, lk = start(T.term(fr, v.init))
            hi, hk = const(y)
            step = [a for a in assigned(f).get(v.did, ()) if inside(a, lp)]
            single = len(step) == 1 and (step[0].x.get("op") or "").startswith("++")
            if lk > 0:
                bs = elements(T, fr, f, lambda n: inside(n, lp), lambda i: const(i)[0] == base)
                if lo[:2] in (("call", "begin"), ("call", "cbegin")):
                    bs = {(lo[2], None): 1}
                seen = {i[1] for (o, i) in elements(T, fr, f, lambda n: not inside(n, lp), lambda i: i[0] == "c")
                        if any(o == o2 for o2, _ in bs)}
                if any(str(i) not in seen for i in range(lk)):
                    bad("the elements before the start of the loop are left out")
            if op in ("<", "!=") and (hk - k < 0 and hi[0] != "c" or not single):
                bad("the last elements are left out" if single else "the loop passes over elements")
            # places of the elements
            cnt = {}
            for n in b.walk():
                if n.k not in ("ArraySubscriptExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr"):
                    continue
                if n.k == "CXXOperatorCallExpr" and n.x.get("op") != "[]":
                    continue
                if n.k == "CXXMemberCallExpr" and not call_args(n):
                    continue
                o = call_base(n) if n.k == "CXXMemberCallExpr" else n.c[1] if n.k == "CXXOperatorCallExpr" else n.c[0]
                i = call_args(n)[0] if n.k == "CXXMemberCallExpr" else n.c[-1]
                if not re.search(r"^(const )?(unsigned |int|long|std::size_t|size_t)", i.t or "") and number(i) is None:
                    continue
                if n.k == "CXXMemberCallExpr" and not (nm(n) == "at" or nm(n).lower().endswith("reflection") or re.search("index", nm(n), re.I)):
                    continue
                if o is not None and any(m.k == "DeclRefExpr" and m.x.get("did") in inner(b) for m in o.walk()):
                    continue
                if any(p.k in ("ConditionalOperator", "IfStmt") and inside(p, lp) for p in ancestors(n)):
                    continue                    # a single value that stands for all elements
                t = T.term(fr, i)
                if number(i) is not None or t[0] == "c" and peel(i).k == "DeclRefExpr" and peel(i).x.get("did") in decls(f) and \
                        not decls(f)[peel(i).x["did"]].t.startswith("const"):
                    bad("every round of the loop uses the same element", n.l)
                elif t[0] == "l" and t[1] not in inner(b) and not any(inside(a, lp) for a in assigned(f).get(t[1], ())):
                    bad("the place of the element is not advanced", n.l)
                rep.count("element places")


def elements(T, fr, f, where, which):
    """Accesses of elements: (container, index)."""
    out = {}
    for n in f.body.walk():
        if n.k in ("ArraySubscriptExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr") and where(n):
            t = T.term(fr, n)
            if t[0] == "idx" and which(t[2]):
                out[(t[1], t[2])] = n
            elif t[0] == "call" and len(t) == 4 and which(t[3]):
                out[(t[1:3], t[3])] = n
    return out


def start(t):
    """Start of a loop: (base, offset) ; begin() + k counts as k."""
    if t[0] == "o" and t[1] == "+" and len(t) == 4 and t[3][0] == "c":
        return t[2], int(float(t[3][1]))
    return const(t)


def inner(b):
    return {v.did for m in b.walk() if m.k == "DeclStmt" for v in m.x["vars"]}


def closest(m):
    p = m.p
    while p is not None and p.k not in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt", "SwitchStmt"):
        p = p.p
    return p


def stale(rep, prog, fns):
    """A tree that is filled and attached in every round of a loop starts empty."""
    for f in fns:
        for lp in loops_of(f):
            b = body_of(lp)
            own = inner(b)
            filled, attached, reset = {}, {}, set()
            for n in b.walk():
                if n.k == "CXXMemberCallExpr" and is_tree(n.x.get("cc")):
                    o = call_base(n)
                    o = peel(o) if o is not None else None
                    if o is not None and o.k == "DeclRefExpr":
                        if nm(n) in ("clear", "swap", "operator="):
                            reset.add(o.x.get("did"))
                        elif nm(n) in ("put", "add", "put_child", "add_child"):
                            filled.setdefault(o.x.get("did"), n)
                    if nm(n) in ("push_back", "add_child", "put_child") and call_args(n):
                        for m in call_args(n)[-1].walk():
                            if m.k == "DeclRefExpr" and is_tree(m.t):
                                attached.setdefault(m.x.get("did"), n)
                elif n.k == "CXXOperatorCallExpr" and n.x.get("op") == "=" and is_tree(n.c[1].t) and peel(n.c[1]).k == "DeclRefExpr":
                    reset.add(peel(n.c[1]).x.get("did"))
                elif is_call(n) and (n.x.get("cn") or "").startswith("visr::"):
                    for a in call_args(n):
                        a = peel(a)
                        if a.k == "DeclRefExpr" and is_tree(a.t) and "const" not in (a.t or ""):
                            filled.setdefault(a.x.get("did"), n)
            for d in set(filled) & set(attached):
                rep.count("trees filled in loops")
                if d not in own and d not in reset and d not in {p[0] for p in f.params}:
                    rep.violation("not-empty", f.name, attached[d].l, "the tree still contains what was written for the previous element",
                                  "not-empty|%s" % f.name, f.file)


def separators(rep, prog, fns):
    T = Terms(prog)
    seps = set()
    for f in prog.funcs.values():
        if f.body is None or not (f.file or "").startswith("src/lib") or not re.search("sequence|parser", f.file):
            continue
        for n in f.body.walk():
            if n.k == "CXXOperatorCallExpr" and n.x.get("op") == "%" and not any(
                    p.k == "CXXOperatorCallExpr" and p.x.get("op") == "%" for p in ancestors(n)):
                s = literal_of(n.c[-1])
                if s:
                    seps.add(s)
    if not seps:
        raise Broken("no separators found in the readers of lists")
    rep.count("separators read", len(seps))

    def wrong(s):
        return s is not None and re.match(r"^[\s,;:|/.+-]*$", s) and s.strip() not in seps

    for f in fns:
        fr = Frame(f, "this", {})
        for n in f.body.walk():
            if n.k == "CXXMemberCallExpr" and nm(n) == "toString" and call_args(n):
                s = literal_of(call_args(n)[0])
                rep.count("separators written")
                if wrong(s):
                    rep.violation("separator", f.name, n.l, "the elements are separated by \"%s\", which the reader does not understand" % s,
                                  "separator|%s" % f.name, f.file)
            if not is_out(n) or not is_lit(n.c[2]):
                continue
            lp = innermost(n, f)
            if lp is None:
                continue
            s = literal_of(n.c[2])
            if s is None or not re.match(r"^[\s,;:|/.+-]*$", s):
                continue
            rep.count("separators written")
            if wrong(s):
                rep.violation("separator", f.name, n.l, "the elements are separated by \"%s\", which the reader does not understand" % s,
                              "separator|%s" % f.name, f.file)
            # not after the last, not before the first
            if lp.k != "ForStmt":
                continue
            cnd = next((c for c in lp.c[:-1] if c.k in ("BinaryOperator", "CXXOperatorCallExpr") and c.t == "bool"), None)
            ds = [v for c in lp.c[:-1] if c.k == "DeclStmt" for v in c.x["vars"] if v.init is not None]
            g = under_if(n, body_of(lp))
            ct = T.term(fr, cnd) if cnd is not None else None
            always = not g or all(T.term(fr, i.c[0]) == ct for i in g)
            if always and any(p.k == "ConditionalOperator" for p in ancestors(n)):
                always = False
            if always and ds and all(start(T.term(fr, v.init)) == (("c", "0"), 0) or start(T.term(fr, v.init))[0][:2] == ("call", "begin") and
                                     start(T.term(fr, v.init))[1] == 0 for v in ds) and not trimmed(f, lp):
                rep.violation("separator", f.name, n.l, "a separator is written although no element follows or precedes", "separator|%s|always" % f.name, f.file)


def trimmed(f, lp):
    return any(is_call(n) and nm(n) in ("substr", "pop_back", "erase", "resize") and not inside(n, lp) for n in f.body.walk())


def ancestors(n):
    p = n.p
    while p is not None:
        yield p
        p = p.p


def lengths(rep, prog, fns):
    """A pointer to elements and the number of elements passed with it belong to the same container."""
    T = Terms(prog)
    for f in fns:
        fr = Frame(f, "this", {})
        for n in f.body.walk():
            if not is_call(n) and n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                continue
            a = call_args(n) if is_call(n) else n.c
            if is_call(n) and nm(n) == "copy" and len(a) >= 2 and (n.x.get("cn") or "").startswith("std::"):
                p, q = T.term(fr, a[0]), T.term(fr, a[1])
                if start(p)[0][:2] in (("call", "begin"), ("call", "cbegin")):
                    rep.count("element ranges")
                    if start(p)[1] or start(q)[1] or start(q)[0][:2] not in (("call", "end"), ("call", "cend")):
                        rep.violation("elements-left-out", f.name, n.l, "only a part of the elements is copied", "elements-left-out|%s|copy" % f.name, f.file)
                continue
            if is_call(n) and nm(n) == "substr" and len(a) == 2:
                t = T.term(fr, a[1])
                b, k = const(t)
                if k:
                    rep.violation("elements-left-out", f.name, n.l, "more than the separator is cut off", "elements-left-out|%s|substr" % f.name, f.file)
                continue
            for p, q in zip(a, a[1:]):
                if not (p.t or "").rstrip().endswith("*"):
                    continue
                pt, qt = T.term(fr, p), T.term(fr, q)
                c = None
                if pt[0] == "idx" and pt[2] == ("c", "0"):
                    c = pt[1]
                elif pt[0] == "call" and pt[1] in ("data", "values") and len(pt) == 3:
                    c = pt[2]
                if c is None:
                    continue
                sz = [x for x in sub(qt) if x[0] == "call" and x[1] == "size" and len(x) == 3]
                if not sz:
                    continue
                rep.count("element ranges")
                if qt != ("call", "size", c) and not (len(sz) == 1 and qt == sz[0] and same_size(f, T, fr, c, sz[0][2])):
                    rep.violation("elements-left-out", f.name, n.l, "the number of elements does not belong to the elements passed",
                                  "elements-left-out|%s|range" % f.name, f.file)


def same_size(f, T, fr, a, b):
    return False


def predicate(t, var, eps):
    """(evaluator, breakpoints, other terms) of a condition as a predicate over a term."""
    pts, other = set(), []

    def num(x):
        if x[0] == "c":
            try:
                return float(x[1])
            except (TypeError, ValueError):
                return None
        if x[0] == "call" and x[1] == "epsilon":
            return eps
        if x[0] == "call" and x[1] == "min" and len(x) == 2:
            return 1e-37
        if x[0] == "u" and x[1] == "-":
            v = num(x[2])
            return None if v is None else -v
        return None

    def val(x):
        """function of the value, or None"""
        if x == var:
            return lambda v: v
        if x[0] == "call" and x[1] in ("abs", "fabs") and len(x) == 3:
            g = val(x[2])
            return None if g is None else (lambda v: abs(g(v)))
        if x[0] == "u" and x[1] == "-":
            g = val(x[2])
            return None if g is None else (lambda v: -g(v))
        return None

    def ev(x):
        if x[0] == "u" and x[1] == "!":
            g = ev(x[2])
            return None if g is None else (lambda v: not g(v))
        if x[0] == "op" and x[1] in ("&&", "||"):
            gs = [ev(y) for y in x[2:]]
            if any(g is None for g in gs):
                return None
            return (lambda v: all(g(v) for g in gs)) if x[1] == "&&" else (lambda v: any(g(v) for g in gs))
        if x[0] in ("op", "o") and x[1] in ("<", "<=", "==", "!=", ">", ">=") and len(x) == 4:
            for i, j in ((2, 3), (3, 2)):
                g, c = val(x[i]), num(x[j])
                if g is not None and c is not None:
                    pts.update((c, -c))
                    o = x[1]
                    if i == 3:
                        o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(o, o)
                    return {"<": lambda v: g(v) < c, "<=": lambda v: g(v) <= c, ">": lambda v: g(v) > c, ">=": lambda v: g(v) >= c,
                            "==": lambda v: g(v) == c, "!=": lambda v: g(v) != c}[o]
            other.append(x)
            return None
        g = val(x)
        if g is not None:
            pts.add(0.0)
            return lambda v: g(v) != 0
        other.append(x)
        return None

    return ev(t), pts, other


def counted(t):
    """A condition on the number of elements, with emptiness written as a number: (condition, number)."""
    n = []

    def tr(x):
        if x[0] == "call" and x[1] == "empty" and len(x) == 3:
            s = ("call", "size", x[2])
            n.append(s)
            return ("op", "==", s, ("c", "0"))
        if x[0] == "call" and (x[1] == "size" or x[1].lower().startswith("number")) and len(x) == 3:
            n.append(x)
            return x
        return (x[0],) + tuple(tr(y) if isinstance(y, tuple) and y else y for y in x[1:])
    r = tr(t)
    return r, (n[0] if n and all(y == n[0] for y in n) else None)


def representatives(pts, integral):
    xs = sorted(pts | {0.0})
    if integral:
        out = set()
        for x in xs:
            out.update(max(0, int(x) + d) for d in (-1, 0, 1, 2))
        out.add(10 ** 6)
        return sorted(float(x) for x in out)
    out = set(xs)
    for a, b in zip(xs, xs[1:]):
        out.add((a + b) / 2)
    out.update((xs[0] - 1.0, xs[-1] + 1.0, xs[0] - 1e6, xs[-1] + 1e6))
    return sorted(out)


def omissions(rep, prog, writers, defaults):
    """What a writer leaves out is what the reader assumes."""
    T = Terms(prog)
    for w in sorted(writers.values(), key=lambda f: (f.file or "", f.line, f.id)):
        fr = Frame(w, "this", {})
        for n in w.body.walk():
            if n.k != "CXXMemberCallExpr" or not is_tree(n.x.get("cc")) or nm(n) not in ("put", "add", "put_child", "add_child"):
                continue
            conds = [i for i in under_if(n, w.body)]
            if not conds or len(call_args(n)) < 2:
                continue
            key = literal_of(call_args(n)[0])
            for i in conds:
                if throws(i.c[1]):
                    continue
                neg = not any(m is n for m in i.c[1].walk())
                ct = T.term(fr, i.c[0])
                if neg:
                    ct = ("u", "!", ct)
                rep.count("conditions of writing")
                value = call_args(n)[1]
                if nm(n) in ("put", "add"):
                    v = T.term(fr, value)
                    vs = [x for x in sub(v)]
                    r, integral, var = ct, bool(re.search("int|long|size|short", value.t or "")) and "unsigned" in (value.t or ""), v
                    cand = [x for x in vs if x in set(sub(ct))]
                    if cand:
                        var = cand[0]
                    d = defaults.get((w.cls, tag(w.name), key))
                else:
                    r, var = counted(ct)
                    integral, d = True, 0.0
                    if var is None:
                        continue
                g, pts, other = predicate(r, var, 1e-7)
                if g is None:
                    if not any(x == var for x in sub(r)) and any(known(o) for o in other) or mixed(r, var):
                        rep.violation("other-default", w.name, n.l, "%s is left out depending on something else than its value" % (key or "a part"),
                                      "other-default|%s|%s|cond" % (w.name, key), w.file)
                    continue
                out = [v for v in representatives(pts, integral) if not g(v)]
                if not out:
                    continue
                if d is None:
                    d = min(out, key=abs) if len(out) else 0.0
                if any(abs(v - d) > 1e-6 for v in out):
                    rep.violation("other-default", w.name, n.l, "%s is left out for other values than the one the reader assumes" % (key or "a part"),
                                  "other-default|%s|%s|values" % (w.name, key), w.file)


def known(t):
    """A comparison of attributes of the object."""
    return t[0] in ("op", "o") and t[1] in ("==", "!=", "<", "<=", ">", ">=")


def mixed(r, var):
    """A conjunction of a test of the value and a test of something else."""
    if r[0] == "op" and r[1] == "&&":
        a = [any(x == var for x in sub(y)) for y in r[2:]]
        return any(a) and not all(a)
    return False


class Sets(Client):
    """Attributes a reader sets along a path (outside of loops)."""

    def __init__(self, prog, eng, fn):
        self.prog, self.fn = prog, fn
        self.fw = eng
        self.by = {}

    def relevant(self, fn):
        return False

    def unwind(self, eng, fr, st, trynode):
        return st.client(st.c | {"caught"}) if hasattr(st, "client") else st

    def call(self, eng, fr, st, n, callees):
        if fr.fn is not self.fn or innermost(n, self.fn) is not None:
            return None
        add = set()
        m = nm(n)
        cn = n.x.get("cn") or ""
        if n.k == "CXXMemberCallExpr" and not n.x.get("mconst"):
            o = call_base(n)
            if m in SIZING and cn.startswith("std::"):
                t = Terms(self.prog).term(fr, o) if o is not None else ("this",)
                if self.owned(t):
                    add.add(("size", t))
            elif cn.startswith("visr::"):
                t = Terms(self.prog).term(fr, o) if o is not None else ("this",)
                if self.owned(t):
                    for g in callees:
                        for w in fields_set(self.prog, g):
                            add.add(("field", w))
                            self.by.setdefault(("field", w), set()).add(m)
        if add:
            return [(st.client(st.c | add), None)]
        return None

    def owned(self, t):
        while t[0] in ("f", "idx") and isinstance(t[1], tuple):
            t = t[1]
        if t[0] == "call" and t[1] == "dynamic_cast":
            t = t[2]
        return t[0] in ("a", "t", "this") or t == ("this",)


def fields_set(prog, g, stack=()):
    """Own attributes a member function changes."""
    r = getattr(g, "_fset", None)
    if r is not None:
        return r
    out = set()
    if g.body is None or g.id in stack or len(stack) > 8:
        return out
    for n in g.body.walk():
        t = None
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.x["op"].endswith("=") and n.x["op"] not in ("==", "!=", "<=", ">="):
            t = n.c[0]
        elif n.k == "UnaryOperator" and n.x["op"][:2] in ("++", "--"):
            t = n.c[0]
        elif n.k == "CXXOperatorCallExpr" and n.x.get("op") in ("=", "+=", "-=", "*=", "++", "--"):
            t = n.c[1]
        elif n.k == "CXXMemberCallExpr" and not n.x.get("mconst"):
            t = call_base(n)
            if t is None or peel(t).k == "CXXThisExpr":
                for h in prog.callees(n):
                    out |= fields_set(prog, h, stack + (g.id,))
                continue
        elif is_call(n):
            for a in call_args(n):
                if (a.t or "").startswith("const ") is False:
                    x = peel(a)
                    if x.k == "CXXMemberCallExpr" and nm(x) == "begin":
                        out |= own_field(call_base(x))
            continue
        if t is not None:
            out |= own_field(t)
    if not stack:
        g._fset = out
    return out


def own_field(t):
    while t is not None:
        t = peel(t)
        if t.k == "MemberExpr" and t.x.get("mk") == "field" and (not t.c or peel(t.c[0]).k == "CXXThisExpr"):
            return {t.x["m"]}
        if t.k == "CXXOperatorCallExpr" and len(t.c) > 1:
            t = t.c[1]
        elif t.k == "CXXMemberCallExpr":
            t = call_base(t)
        elif t.c:
            t = t.c[0]
        else:
            return set()
    return set()


def always_set(rep, prog, readers):
    base = Engine(prog, Client())
    for f in sorted(readers.values(), key=lambda f: (f.file or "", f.line, f.id)):
        cl = Sets(prog, base, f)
        try:
            res = Engine(prog, cl).run(f, frozenset())
        except Exception as e:          # budget
            if type(e).__name__ != "Budget":
                raise
            continue
        outs = [r[1].c for r in res if r[0] == "ret" and "caught" not in r[1].c]
        if not outs:
            continue
        rep.count("readers followed along every path")
        allof = set().union(*outs)
        loops = set()
        for n in f.body.walk():
            if n.k == "CXXMemberCallExpr" and not n.x.get("mconst") and innermost(n, f) is not None:
                loops.add(nm(n))
        for x in sorted(allof, key=repr):
            if cl.by.get(x, set()) & loops or x[0] == "size" and SIZING & loops:
                continue
            rep.count("attributes set by readers")
            if any(x not in o for o in outs):
                rep.violation("not-always-set", f.name, f.line, "%s is not set on every path: it keeps its previous value" % (x[1] if x[0] == "field" else "a list"),
                              "not-always-set|%s|%s" % (f.name, x[1] if x[0] == "field" else "size"), f.file)


def exchanges(rep, prog, fns):
    """Values named after one parameter are not passed as another one."""
    for f in fns:
        for n in f.body.walk():
            if not is_call(n) or not (n.x.get("cn") or "").startswith("visr::"):
                continue
            g = prog.funcs.get(n.x.get("cid"))
            a = [peel(x) for x in call_args(n)]
            if g is None or len(a) < 2 or len(a) != len(g.params):
                continue
            names = [x.x.get("q", "").rsplit("::", 1)[-1] if x.k == "DeclRefExpr" else nm(x) if is_call(x) and not call_args(x) else "" for x in a]
            ps = [p[1] or "" for p in g.params]
            rep.count("calls with named arguments")
            bad = swapped(names, ps)
            if bad is not None:
                rep.violation("permuted", f.name, n.l, "%s is passed as %s of %s" % (names[bad[0]], ps[bad[0]], short(g.name)),
                              "permuted|%s|%s" % (f.name, short(g.name)), f.file)


def last_word(s):
    w = re.findall(r"[A-Z]?[a-z0-9]+|[A-Z]+(?![a-z])", s.lstrip("_"))
    return w[-1].lower() if w else ""


def swapped(names, ps):
    L = [last_word(x) for x in names]
    P = [last_word(x) for x in ps]
    for i in range(len(L)):
        for j in range(i + 1, len(L)):
            if L[i] and L[j] and L[i] != L[j] and P[i] != P[j] and L[i] == P[j] and L[j] == P[i]:
                return (i, j)
    return None


def previous(rep, prog, readers):
    """What is read does not depend on what was there before."""
    T = Terms(prog)
    for f in readers.values():
        fr = Frame(f, "this", {})
        for n in f.body.walk():
            if n.k == "CXXMemberCallExpr" and nm(n) == "swap" and call_args(n):
                o = call_base(n)
                a, b = peel(o) if o is not None else None, peel(call_args(n)[0])
                for x, y in ((a, b), (b, a)):
                    if x is None or y is None or y.k != "DeclRefExpr":
                        continue
                    v = decls(f).get(y.x.get("did"))
                    if v is None or v.init is None:
                        continue
                    rep.count("lists exchanged")
                    xt = T.term(fr, x)
                    if xt[0] == "f" and any(t == xt for t in sub(T.term(fr, v.init))):
                        rep.violation("not-empty", f.name, n.l, "the elements read are added to those that were there before", "not-empty|%s" % f.name, f.file)


def optionals(rep, prog, fns):
    """An optional value is used whenever it is present."""
    T = Terms(prog)
    for f in fns:
        fr = Frame(f, "this", {})
        opt = {d for d, v in decls(f).items() if "boost::optional<" in (v.t or "")}
        for n in f.body.walk():
            if n.k != "ConditionalOperator":
                continue
            used = {m.x.get("did") for b in n.c[1:] for m in b.walk() if m.k == "DeclRefExpr"} & opt
            if not used:
                continue
            rep.count("optional values used")
            tested = {m.x.get("did") for m in n.c[0].walk() if m.k == "DeclRefExpr"} & opt
            val = any(m.k in ("BinaryOperator", "CXXOperatorCallExpr") and m.x.get("op") in ("<", ">", "<=", ">=", "==", "&&", "||") for m in n.c[0].walk()) or \
                any(m.k == "CXXOperatorCallExpr" and m.x.get("op") == "*" for m in n.c[0].walk())
            if len(used) == 1 and (tested != used or val):
                rep.violation("value-not-used", f.name, n.l, "an optional value is used under another condition than its presence", "value-not-used|%s" % f.name, f.file)


def presence(rep, prog, fns):
    """Parts of a text are read if the keys read there are present."""
    for f in fns:
        dd = decls(f)

        def ev(n, keys, d=0):
            n = peel(n)
            if d > 10:
                return None
            if n.k == "DeclRefExpr" and n.x.get("did") in dd and not assigned(f).get(n.x["did"]) and dd[n.x["did"]].init is not None:
                return ev(dd[n.x["did"]].init, keys, d + 1)
            if n.k in ("InitListExpr", "CXXFunctionalCastExpr") and len(n.c) == 1:
                return ev(n.c[0], keys, d + 1)
            if n.k == "UnaryOperator" and n.x.get("op") == "!":
                v = ev(n.c[0], keys, d + 1)
                return None if v is None else not v
            if n.k == "BinaryOperator" and n.x["op"] in ("&&", "||"):
                a, b = ev(n.c[0], keys, d + 1), ev(n.c[1], keys, d + 1)
                if n.x["op"] == "&&":
                    return False if a is False or b is False else None if a is None or b is None else True
                return True if a is True or b is True else None if a is None or b is None else False
            if n.k == "BinaryOperator" and n.x["op"] in ("<", ">", "<=", ">=", "==", "!="):
                for i, j in ((0, 1), (1, 0)):
                    c, v = count(n.c[i], keys), number(n.c[j])
                    if c is not None and v is not None:
                        x, y = (c, v) if i == 0 else (v, c)
                        return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[n.x["op"]]
                return None
            c = count(n, keys)
            return None if c is None else c > 0

        def count(n, keys):
            n = peel(n)
            if n.k == "CXXMemberCallExpr" and is_tree(n.x.get("cc")) and nm(n) == "count" and call_args(n):
                o = peel(call_base(n))
                k = literal_of(call_args(n)[0])
                if o.k == "DeclRefExpr" and k and o.x.get("did") in keys:
                    return 1 if k in keys[o.x["did"]] else 0
            return None

        for n in f.body.walk():
            if n.k != "IfStmt" or len(n.c) < 2:
                continue
            for branch, want in zip(n.c[1:], (True, False)):
                if branch.k == "IfStmt":
                    continue
                keys = {}
                for m in branch.walk():
                    if m.k == "CXXMemberCallExpr" and is_tree(m.x.get("cc")) and nm(m) in ("get", "get_child", "get_optional", "get_child_optional") and call_args(m):
                        o = peel(call_base(m))
                        k = literal_of(call_args(m)[0])
                        if o.k == "DeclRefExpr" and k:
                            keys.setdefault(o.x.get("did"), set()).add(k.split(".")[0])
                if not keys:
                    continue
                tests = [(n, want)]
                p = n
                while p.p is not None and p.p.k == "IfStmt" and len(p.p.c) == 3 and p.p.c[2] is p:
                    p = p.p
                    tests.append((p, False))
                rep.count("parts read under conditions")
                for t, w in tests:
                    v = ev(t.c[0], keys)
                    if v is not None and v != w:
                        rep.violation("not-read-though-present", f.name, n.l, "keys %s are not read although they are present" %
                                      ", ".join(sorted(k for x in keys.values() for k in x)), "not-read-though-present|%s" % f.name, f.file)
                        break


def tables(rep, prog, fns):
    """Tables between enumerators and their names are invertible and complete."""
    inits = []
    files = {f.file for f in fns} | {"src/libobjectmodel/object_type.cpp"}
    for f in prog.funcs.values():
        if f.file not in files:
            continue
        for i in f.inits or []:
            if i.get("e"):
                inits.append((f.name, f.file, i["e"]))
        if f.body is not None:
            for n in f.body.walk():
                if n.k == "DeclStmt":
                    for v in n.x["vars"]:
                        if v.init is not None:
                            inits.append((f.name, f.file, v.init))
    for q, g in prog.globals.items():
        if g.init is not None and g.file in files:
            inits.append((q, g.file, g.init))
    seen = set()
    for name, file, e in inits:
        if not re.search(r"std::(unordered_)?map<|std::pair<", e.t or ""):
            continue
        rows = []
        for n in e.walk():
            if len(n.c) == 2 and "pair<" in (n.t or ""):
                en = [m for m in n.walk() if m.k == "DeclRefExpr" and m.x.get("dk") == "EnumConstant"]
                st = [m for m in n.walk() if m.k == "StringLiteral"]
                if len(en) == 1 and len(st) == 1:
                    rows.append((en[0], st[0].x.get("s"), n))
        if len(rows) < 2 or (file, e.l) in seen:
            continue
        seen.add((file, e.l))
        rep.count("tables of names")
        rep.count("names in tables", len(rows))
        s = [r[1] for r in rows]
        for r in rows:
            if s.count(r[1]) > 1:
                rep.violation("name-not-unique", name, r[2].l, "two enumerators have the name \"%s\"" % r[1], "name-not-unique|%s" % r[1], file)
        q = [r[0].x["q"] for r in rows]
        for x in q:
            if q.count(x) > 1:
                rep.violation("name-not-unique", name, e.l, "%s has two names" % x, "name-not-unique|%s" % x, file)
        owner = q[0].rsplit("::", 1)[0]
        for m in sorted(enumerators(prog, owner, rows[0][0]) - {short(x) for x in q}):
            if not re.match(r"(?i)(number|num|max|last|count|invalid|unknown|none)", m):
                rep.violation("name-missing", name, e.l, "%s has no name" % m, "name-missing|%s" % m, file)


def fallthrough(rep, prog, fns):
    for f in fns:
        for n in f.body.walk():
            if n.k != "SwitchStmt" or not n.c:
                continue
            body = n.c[-1]
            open_, last = False, None
            for c in body.c:
                if c.k in ("CaseStmt", "DefaultStmt"):
                    if open_:
                        rep.violation("other-format", f.name, c.l, "one case of the format continues with the next one", "other-format|%s|case" % f.name, f.file)
                    x = c
                    while x.k in ("CaseStmt", "DefaultStmt") and x.c:
                        x = x.c[-1]
                    open_ = not ends(x) and x.k not in ("CaseStmt", "DefaultStmt", "NullStmt", "ConstantExpr")
                    rep.count("cases")
                elif ends(c):
                    open_ = False
                elif c.k != "NullStmt":
                    open_ = True


def ends(n):
    if n.k in ("BreakStmt", "ReturnStmt", "CXXThrowExpr", "ContinueStmt"):
        return True
    if n.k in ("CompoundStmt", "ExprWithCleanups") and n.c:
        return ends(n.c[-1])
    if n.k == "IfStmt" and len(n.c) == 3:
        return ends(n.c[1]) and ends(n.c[2])
    return False


def check(rep, prog, readers, writers, facts):
    fns = scope(prog, readers, writers)
    rep.count("functions of the text formats", len(fns))
    rd = list(readers.values()) + [f for f in fns if any(is_tree(p[2]) and "const" in p[2] for p in f.params) and f.id not in readers]
    defaults = {}
    for f in readers.values():
        for y in facts[f.id].reads:
            for d in stands_in(y):
                defaults.setdefault((f.cls, tag(f.name), show(y[0])), d)
    complete(rep, prog, fns)
    stale(rep, prog, fns)
    separators(rep, prog, fns)
    lengths(rep, prog, fns)
    omissions(rep, prog, writers, defaults)
    always_set(rep, prog, readers)
    previous(rep, prog, readers)
    exchanges(rep, prog, fns)
    optionals(rep, prog, fns)
    presence(rep, prog, fns)
    tables(rep, prog, fns)
    fallthrough(rep, prog, fns)
