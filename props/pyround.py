"""What the functions offered to Python do with their arguments: round trip through properties, order of elements, whole arrays."""
import re

from .common import *
from vsa.sim import Client, Engine, Frame
from vsa.term import Terms, subterms, show, assigned, decls
from vsa.model import is_call, call_base, call_args, short
from .values import pure, plain, ALTER
from .values import TRANSFERS

THIS = ("this",)
STEPS = 40000
ACCESS = ("operator[]", "at", "begin", "end", "data", "front", "back", "get")


def python_file(f):
    return "/python/" in (f.file or "") or (f.file or "").startswith("src/python")


def self_as_this(t, did):
    if did is None:
        return t
    if t == ("a", did):
        return THIS
    return tuple(self_as_this(x, did) if isinstance(x, tuple) else x for x in t)


def rooted(t):
    """t is an attribute, or a part of one, of the object itself."""
    n = 0
    while t[0] in ("f", "idx", "elem") and len(t) > 1 and isinstance(t[1], tuple):
        t, n = t[1], n + 1
    return n > 0 and t == THIS


def leaves(t):
    if rooted(t):
        return [t]
    out = []
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            out += leaves(x)
    return out


def elem_index(t, did):
    """Index, when t is an element with a fixed index of the parameter."""
    if t[0] == "?:":
        r = [elem_index(x, did) for x in t[2:]]
        r = [x for x in r if x is not None]
        return r[0] if r else None
    if t[0] == "idx" and t[1] == ("a", did) and t[2][0] == "c":
        return int(float(t[2][1]))
    if t[0] == "call" and t[1] == "at" and len(t) == 4 and t[2] == ("a", did) and t[3][0] == "c":
        return int(float(t[3][1]))
    return None


class Write(Client):
    """State: frozenset of ('w', attribute, value) | ('?', attribute) | ('*',) | ('=', attribute)."""
    loop_once = True
    tell_flags = True

    def __init__(self, T, fn, selfdid, did):
        self.T, self.fn, self.self, self.did = T, fn, selfdid, did

    def relevant(self, g):
        return g.body is not None and (bool(g.cls) and g.cls.startswith("visr::") or python_file(g) and not g.name.startswith("pybind11::"))

    def term(self, fr, n):
        return self_as_this(self.T.term(fr, n), self.self)

    def place(self, fr, n):
        """What an assigned expression denotes; references stand for what they were bound to."""
        m = n
        while m.k in ("ImplicitCastExpr", "ParenExpr") and m.c:
            m = m.c[0]
        if m.k == "UnaryOperator" and m.x["op"] == "*":
            m = m.c[0]
            while m.k in ("ImplicitCastExpr", "ParenExpr") and m.c:
                m = m.c[0]
            if m.k == "DeclRefExpr":
                v = decls(fr.fn).get(m.x.get("did"))
                if v is not None and v.init is not None and m.x["did"] not in assigned(fr.fn):
                    return self.term(fr, v.init)
        elif m.k == "DeclRefExpr":
            v = decls(fr.fn).get(m.x.get("did"))
            if v is not None and v.init is not None and v.t.rstrip().endswith("&"):
                return self.term(fr, v.init)
        return self.term(fr, n)

    def put(self, st, d, v):
        c = frozenset(x for x in st.c if not (x[0] in "w?" and x[1] == d))
        return st.client(c | {("w", d, v)})

    def element(self, eng, fr, st, n):
        if n.k in ("BinaryOperator", "CompoundAssignOperator") and n.x["op"].endswith("=") and n.x["op"] not in ("==", "!=", "<=", ">=") \
                or n.k == "CXXOperatorCallExpr" and (n.x.get("op") or "").endswith("=") and len(n.c) == 3 \
                and n.x["op"] not in ("==", "!=", "<=", ">="):
            a, b = (n.c[0], n.c[1]) if n.k != "CXXOperatorCallExpr" else (n.c[1], n.c[2])
            d = self.place(fr, a)
            if d[0] == "call" and d[1] == "at" and len(d) == 4:
                d = ("idx", d[2], d[3])
            if rooted(d):
                v = self.term(fr, b)
                if n.x["op"] != "=":
                    v = ("op", n.x["op"][0], d, v)
                return self.put(st, d, v)
            if d == THIS or d[0] == "u":
                return st.client(st.c | {("*",)})
            if d[0] == "call":
                r = leaves(d)
                return st.client(st.c | {("?", x) for x in r} | ({("*",)} if not r and any(x == THIS for x in subterms(d)) else set()))
            return None
        if n.k == "UnaryOperator" and n.x["op"][:2] in ("++", "--"):
            d = self.term(fr, n.c[0])
            if rooted(d):
                return st.client(st.c | {("?", d)})
        return None

    def call(self, eng, fr, st, n, callees):
        if any(self.relevant(g) for g in callees) and not (n.x.get("virt") and len(callees) > 1):
            return None
        if n.k == "CXXOperatorCallExpr" and (n.x.get("op") or "").endswith("=") and n.x["op"] not in ("==", "!=", "<=", ">="):
            return None
        c = set()
        if is_call(n):
            if short(n.x.get("cn") or "") in ACCESS:
                return None
            b = call_base(n)
            if b is not None and not n.x.get("mconst"):
                t = self.term(fr, b)
                c |= self.touched(t)
            pts = n.x.get("pt") or []
            for k, a in enumerate(call_args(n)):
                pt = pts[k] if k < len(pts) else ""
                if pt.rstrip().endswith(("&", "*")) and not pt.startswith("const ") or short(n.x.get("cn") or "") in TRANSFERS:
                    c |= self.touched(self.term(fr, a))
        return [(st.client(st.c | c), None)] if c else None

    def touched(self, t):
        r = leaves(t)
        if r:
            return {("?", x) for x in r}
        return {("*",)} if any(x == THIS for x in subterms(t)) else set()

    def branch(self, eng, fr, st, n, taken):
        n, taken = plain(n, taken)
        if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.x.get("op") in ("==", "!=") and (n.x["op"] == "==") == taken:
            x, y = [self.term(fr, c) for c in (n.c if n.k == "BinaryOperator" else n.c[1:])]
            for p, q in ((x, y), (y, x)):
                if rooted(p) and any(s == ("a", self.did) for s in subterms(q)):
                    return st.client(st.c | {("=", p)})
        return st


def getter_term(T, g, selfdid):
    rets = [n for n in g.body.walk() if n.k == "ReturnStmt" and n.c]
    if len(rets) != 1:
        return None
    t = self_as_this(T.term(Frame(g, "this", {}), rets[0].c[0]), selfdid)
    while t[0] in ("new", "list") and sum(isinstance(x, tuple) for x in t[1:]) == 1:
        t = [x for x in t[1:] if isinstance(x, tuple)][0]
    return t


def altered(t, did):
    """t computes with the parameter instead of passing it on."""
    if pure(t, did):
        return False
    if t[0] in ("op", "u") and t[1] in ("+", "-", "*", "/", "%", "&", "|", "!", "~", ">>", "<<"):
        return True
    if t[0] == "call" and t[1] in ALTER:
        return True
    if t[0] == "?:":
        return any(altered(x, did) or x[0] == "c" for x in t[2:]) and any(pure(x, did) for x in t[2:])
    return False


def round_trip(rep, prog, b, where, g, s):
    """Reading a property returns what assigning it has set."""
    gf, sf = prog.funcs.get(g[1]), prog.funcs.get(s[1])
    if gf is None or sf is None or gf.body is None or sf.body is None or not sf.blocks:
        return
    gs = None if g[0] == "method" else (gf.params[0][0] if gf.params else None)
    k = 0 if s[0] == "method" else 1
    if len(sf.params) <= k:
        return
    ss = None if k == 0 else sf.params[0][0]
    did = sf.params[k][0]
    if k == 1 and not sf.params[0][2].rstrip().endswith(("&", "*")):
        rep.violation("setter-on-copy", where, sf.line, "assigning the property changes a copy of the object", "setter-on-copy|%s" % where, sf.file)
        return
    T = Terms(prog)
    gt = getter_term(T, gf, gs)
    if gt is None:
        return
    lv = leaves(gt)
    if not lv or any(x[0] == "?" for x in subterms(gt)):
        return
    cl = Write(T, sf, ss, did)
    try:
        res = Engine(prog, cl, max_steps=STEPS).run(sf, frozenset())
    except Exception as e:
        if type(e).__name__ != "Budget":
            raise
        return
    rep.count("properties followed from assignment to reading")
    parts = None
    for x in subterms(gt):
        ps = [y for y in x[1:] if isinstance(y, tuple)]
        if x[0] == "list" and len(ps) > 1 and all(len(leaves(p)) == 1 for p in ps):
            parts = ps
            break

    def bad(rule, what):
        rep.violation(rule, where, sf.line, what, "%s|%s" % (rule, where), sf.file)

    if parts and all(p[0] == "call" and re.search(r"\d$", p[1]) for p in parts):
        ns = [int(re.search(r"(\d+)$", p[1]).group(1)) for p in parts]
        if any(y <= x for x, y in zip(ns, ns[1:])):
            bad("element-order", "the components %s of the value are returned in this order" % ns)

    for kind, st, _v, _n in sorted((r for r in res if r[0] == "ret"), key=lambda r: repr(r[1].c)):
        c = st.c
        if ("*",) in c:
            continue
        W = {x[1]: x[2] for x in c if x[0] == "w"}
        unk = {x[1] for x in c if x[0] == "?"}
        eq = {x[1] for x in c if x[0] == "="}

        def related(F, xs):
            return [x for x in xs if x == F or F in list(subterms(x)) or x in list(subterms(F))]

        if parts:
            for i, p in enumerate(parts):
                F = leaves(p)[0]
                w = W.get(F)
                if w is None:
                    continue
                j = elem_index(w, did)
                if j is not None and j != i:
                    bad("element-order", "element %d of what the property returns is what was assigned as element %d" % (i, j))
            if not any(related(leaves(p)[0], list(W) + list(unk) + list(eq)) for p in parts):
                bad("setter-does-not-store", "assigning the property can return without storing the value")
            continue
        F = lv[0]
        if len(lv) > 1:
            continue
        if F in W:
            w = W[F]
            if altered(w, did):
                bad("setter-alters", "assigning the property stores %s" % show(w))
            elif w[0] == "c":
                bad("setter-alters", "assigning the property can store a fixed value instead of the one given")
            elif w[0] == "a" and w != ("a", did):
                bad("setter-alters", "assigning the property stores another argument")
            elif pure(w, did) and gt != F and (gt[0] in ("op", "u") and gt[1] in ("+", "-", "*", "/", "%", "!") or gt[0] == "call" and gt[1] in ALTER):
                bad("setter-alters", "reading the property returns %s" % show(gt))
        elif not related(F, list(W) + list(unk) + list(eq)):
            bad("setter-does-not-store", "assigning the property can return without storing the value")


# ---------------------------------------------------------------------------------------------------------------------

def unused(rep, prog, b, where, fid):
    """Every argument of a function written for Python has an effect."""
    f = prog.funcs.get(fid)
    if f is None or f.body is None or not python_file(f):
        return
    used = {n.x.get("did") for n in f.body.walk() if n.k == "DeclRefExpr"}
    used |= {m.x.get("did") for n in f.body.walk() if n.k == "LambdaExpr" for m in (n.x.get("caps") or []) if hasattr(m, "x")}
    for i in f.inits:
        if i.get("e") is not None:
            used |= {n.x.get("did") for n in i["e"].walk() if n.k == "DeclRefExpr"}
    if b.kind == "def_static" and f.params and b.cls and re.sub(r"^const ", "", f.params[0][2].rstrip(" &*")).strip() == b.cls and f.params[0][0] not in used:
        rep.violation("argument-ignored", where, f.line, "the static function demands an object it does not use", "argument-ignored|%s|self" % where, f.file)
    for did, name, ty in f.params:
        if not name or "pybind11::" in ty and "array" not in ty:
            continue
        rep.count("arguments of functions written for Python")
        if did not in used:
            rep.violation("argument-ignored", where, f.line, "the argument %s has no effect" % name, "argument-ignored|%s|%s" % (where, name), f.file)
    if b.kind in ("def",) and f.params and f.ret == "void" and b.cls:
        did, name, ty = f.params[0]
        if not ty.rstrip().endswith(("&", "*")) and "pybind11::" not in ty and "visr::" in ty:
            rep.violation("setter-on-copy", where, f.line, "the function works on a copy of the object", "setter-on-copy|%s" % where, f.file)


def accesses(t, depth=0):
    """(container, index) pairs of element accesses with fixed index in a term."""
    out = []
    if t[0] == "idx" and t[2][0] == "c" or t[0] == "call" and t[1] in ("at", "strides", "shape") and len(t) == 4 and t[3][0] == "c":
        o = t[1] if t[0] == "idx" else (t[1], t[2])
        if "shape" in (o[0], o[1]):
            return []                   # sizes may come in any order
        i = t[2] if t[0] == "idx" else t[3]
        try:
            return [(o, int(float(i[1])))]
        except (TypeError, ValueError):
            return []
    for x in t[1:]:
        if isinstance(x, tuple) and x:
            out += accesses(x, depth + 1)
    return out


def element_order(rep, prog):
    """Elements taken one by one from a sequence are passed on in their order."""
    T = Terms(prog)
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line, f.id)):
        if f.body is None or not python_file(f) or f.name.startswith("pybind11::"):
            continue
        fr = Frame(f, "this", {})
        for n in f.body.walk():
            if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr"):
                a = list(n.c)
            elif is_call(n) and n.k != "CXXOperatorCallExpr":
                a = call_args(n)
            else:
                continue
            if len(a) < 2:
                continue
            groups = {}
            for x in a:
                if (x.t or "").rstrip().endswith("*") or "iterator" in (x.t or ""):
                    continue
                acc = accesses(T.term(fr, x))
                if len(acc) == 1 and acc[0][0][0] != "?":
                    groups.setdefault(acc[0][0], []).append(acc[0][1])
            for o, ix in groups.items():
                if len(ix) < 2:
                    continue
                rep.count("groups of elements passed on")
                if any(y <= x for x, y in zip(ix, ix[1:])):
                    rep.violation("element-order", f.name, n.l, "the elements %s of one sequence are passed on in this order" % ix,
                                  "element-order|%s|%s|%s" % (f.name, f.line if not f.name else "", ix), f.file)


def const(t):
    """(base, constant) of a sum with a constant."""
    if t[0] == "c":
        try:
            return ("c", "0"), int(float(t[1]))
        except (TypeError, ValueError):
            return t, 0
    if t[0] == "op" and t[1] in ("+", "-") and len(t) == 4:
        if t[3][0] == "c":
            b, k = const(t[2])
            return b, k + (1 if t[1] == "+" else -1) * int(float(t[3][1]))
        if t[2][0] == "c" and t[1] == "+":
            b, k = const(t[3])
            return b, k + int(float(t[2][1]))
    return t, 0


def whole_loops(rep, prog):
    """Loops that pass elements on cover them all."""
    T = Terms(prog)
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line, f.id)):
        if f.body is None or not python_file(f) or f.name.startswith("pybind11::"):
            continue
        fr = Frame(f, "this", {})
        for lp in f.body.walk():
            if lp.k != "ForStmt":
                continue
            cond = next((c for c in lp.c if c.k == "BinaryOperator" and c.t == "bool"), None)
            ds = [v for c in lp.c if c.k == "DeclStmt" for v in c.x["vars"] if v.init is not None]
            if cond is None or not ds:
                continue
            for v in ds:
                if not re.search("int|long|size", v.t):
                    continue
                me = ("l", v.did)
                lo, lk = const(T.term(fr, v.init))
                x, y = T.term(fr, cond.c[0]), T.term(fr, cond.c[1])
                op = cond.x["op"]
                if y == me:
                    x, y, op = y, x, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                if x != me or op not in ("<", "!=", "<="):
                    continue
                step = [a for a in assigned(f).get(v.did, ())]
                if len(step) != 1:
                    continue
                hi, hk = const(y)
                if op == "<=":
                    hk += 1
                offs = set()
                if not any(m.k in ("BinaryOperator", "CXXOperatorCallExpr") and m.x.get("op") == "=" and inside(m, lp) for m in f.body.walk()):
                    continue
                for n in f.body.walk():
                    if n.k not in ("ArraySubscriptExpr", "CXXOperatorCallExpr", "CXXMemberCallExpr") or not inside(n, lp):
                        continue
                    t = T.term(fr, n)
                    ix = [t[2]] if t[0] == "idx" else list(t[3:]) if t[0] == "call" and t[1] in ("at", "data", "operator()") else []
                    for i in ix:
                        b, k = const(i)
                        if b == me:
                            offs.add(k)
                if not offs:
                    continue
                rep.count("loops over elements")
                single = step[0].k == "UnaryOperator" and step[0].x["op"].startswith("++")
                if not single or lo == ("c", "0") and all(lk + k > 0 for k in offs) or hi[0] != "c" and all(hk + k < 0 for k in offs):
                    rep.violation("elements-left-out", f.name, lp.l, "a loop that passes elements on leaves out some",
                                  "elements-left-out|%s|%s" % (f.name, v.name if hasattr(v, "name") else ""), f.file)


def inside(n, lp):
    while n is not None:
        if n is lp:
            return True
        n = n.p
    return False


def strided(t):
    return any(x[0] in ("f",) and len(x) > 2 and x[2] == "strides" or x[0] == "call" and x[1] == "strides" for x in subterms(t))


def c_style(t):
    m = re.search(r"array_t<.*,\s*(\d+)>", t or "")
    return bool(m) and int(m.group(1)) & 1 == 1


def strides(rep, prog):
    """Numpy arrays are read and written with the strides they have."""
    T = Terms(prog)
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line, f.id)):
        if f.body is None or not python_file(f) or f.name.startswith("pybind11::"):
            continue
        fr = Frame(f, "this", {})
        raw = set()

        def numpy(n):
            """n is a pointer to the first element of a numpy array."""
            for m in [n] + list(n.walk()):
                if m.k == "CXXMemberCallExpr" and short(m.x.get("cn") or "").split("<")[0] in ("data", "mutable_data") and not call_args(m):
                    b = call_base(m)
                    if b is not None and "pybind11::array" in (b.t or "") and not c_style(b.t):
                        return True
                if m.k == "MemberExpr" and m.x.get("m") == "ptr" and m.c and "buffer_info" in (m.c[0].t or ""):
                    return True
                if m.k == "DeclRefExpr" and m.x.get("did") in raw and (m.t or "").rstrip("const ").endswith("*"):
                    return True
            return False

        own = set()
        for n in f.body.walk():
            if n.k == "DeclStmt":
                for v in n.x["vars"]:
                    if v.init is None:
                        continue
                    if "pybind11::array" in (v.t or ""):
                        own.add(v.did)
                    if (v.t or "").replace("const", "").rstrip().endswith("*") and numpy(v.init) and not \
                            any(m.k == "DeclRefExpr" and m.x.get("did") in own for m in v.init.walk()):
                        raw.add(v.did)
        if raw:
            rep.count("functions walking over numpy arrays")
        for n in f.body.walk():
            off = None
            if n.k == "UnaryOperator" and n.x["op"][:2] in ("++", "--") and n.c[0].k == "DeclRefExpr" and n.c[0].x.get("did") in raw:
                off = ("c", "1")
            elif n.k == "CompoundAssignOperator" and n.c[0].k == "DeclRefExpr" and n.c[0].x.get("did") in raw:
                off = T.term(fr, n.c[1])
            elif n.k == "BinaryOperator" and n.x["op"] == "+" and (n.t or "").rstrip().endswith("*"):
                for i in (0, 1):
                    c = n.c[i]
                    while c.k in ("ImplicitCastExpr", "ParenExpr") and c.c:
                        c = c.c[0]
                    if c.k == "DeclRefExpr" and c.x.get("did") in raw:
                        off = T.term(fr, n.c[1 - i])
            elif n.k == "ArraySubscriptExpr":
                c = n.c[0]
                while c.k in ("ImplicitCastExpr", "ParenExpr") and c.c:
                    c = c.c[0]
                if c.k == "DeclRefExpr" and c.x.get("did") in raw:
                    off = T.term(fr, n.c[1])
            if off is not None and off != ("c", "0") and not strided(off):
                rep.violation("strides-ignored", f.name, n.l, "a numpy array is walked over without regard to its strides",
                              "strides-ignored|%s" % f.name, f.file)


def buffers(rep, prog):
    """The memory layout told to numpy is the one of the object."""
    T = Terms(prog)
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line, f.id)):
        if f.body is None or not python_file(f) or f.name.startswith("pybind11::"):
            continue
        fr = Frame(f, "this", {})
        for n in f.body.walk():
            cc = n.x.get("cc") or ""
            if n.k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                continue
            if cc.endswith("pybind11::buffer_info") and len(n.c) >= 6:
                i, j, k = 4, 5, 0
            elif cc.startswith("pybind11::array") and len(n.c) >= 3 and (n.c[2].t or "").rstrip(" &").endswith("*"):
                i, j, k = 0, 1, 2
            else:
                continue
            sh, sd = [T.term(fr, c) for c in (n.c[i], n.c[j])]
            S = [listing(x) for x in (sh, sd)]
            p = T.term(fr, n.c[k])
            pieces(rep, f, n, n.c[i], n.c[j])
            src = next((x for x in subterms(p) if x[0] == "a"), None)
            ty = next((q[2] for q in f.params if src is not None and q[0] == src[1]), "")
            cls = re.sub(r"^const ", "", ty.rstrip(" &*")).strip()
            rep.count("buffers shared with numpy")
            if S[0] is None or S[1] is None or len(S[0]) != len(S[1]):
                continue
            if len(S[1]) == 2:
                names = {short(m["n"]) for c in [cls] + bases(prog, cls) for r in [prog.records.get(c)] if r is not None for m in r.methods}
                st = {m for m in names if re.search("stride", m, re.I)}
                fl = {f_.n for c in [cls] + bases(prog, cls) for r in [prog.records.get(c)] if r is not None for f_ in r.fields if re.search("stride", f_.n, re.I)}
                outer = S[1][0]
                has = any(x[0] in ("call", "f") and len(x) > 2 and re.search("stride", str(x[1] if x[0] == "call" else x[2]), re.I)
                          for x in subterms(outer))
                if (st or fl) and not has:
                    rep.violation("buffer-layout", f.name, n.l, "rows are told to be %s apart although the object has a stride" % show(outer),
                                  "buffer-layout|%s" % f.name, f.file)
                inner = S[1][1]
                if inner[0] != "c":
                    rep.violation("buffer-layout", f.name, n.l, "the elements of a row are told to be %s apart" % show(inner),
                                  "buffer-layout|%s" % f.name, f.file)


def pieces(rep, f, n, shape, strd):
    """Shape and strides name the dimensions in the same order."""
    def names(a):
        for m in a.walk():
            if m.k == "InitListExpr" and len(m.c) > 1:
                return [" ".join(short(x.x.get("cn") or x.x.get("m") or x.x.get("q") or "") for x in c.walk()
                                 if is_call(x) or x.k in ("MemberExpr", "DeclRefExpr")).lower() for c in m.c]
        return []
    a, b = names(shape), names(strd)
    if len(a) != len(b) or len(a) < 3:
        return
    for i, x in enumerate(b):
        for w in re.findall(r"([a-z]+)stride", x):
            if w not in a[i] and any(w in y for y in a):
                rep.violation("buffer-layout", f.name, n.l, "the stride of dimension %d is the one of another dimension" % i,
                              "buffer-layout|%s" % f.name, f.file)


def bases(prog, cls):
    out = []
    r = prog.records.get(cls)
    for x in (r.bases if r is not None else ()):
        out += [x] + bases(prog, x)
    return out


def listing(t):
    """Elements of an initialiser list."""
    for _ in range(6):
        ps = [x for x in t[1:] if isinstance(x, tuple)]
        if t[0] in ("new", "list"):
            if len(ps) == 1 and ps[0][0] in ("new", "list"):
                t = ps[0]
                continue
            if t[0] == "new" and ps and ps[0][0] == "list":
                t = ps[0]
                continue
            return ps
        return [t]
    return None


def enum_values(rep, prog):
    """The name of an enumerator denotes the enumerator of that name."""
    from .bindings import literal
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line, f.id)):
        if f.body is None or not python_file(f):
            continue
        seen = {}
        for n in f.body.walk():
            if n.k != "CXXMemberCallExpr" or not (n.x.get("cc") or "").startswith("pybind11::enum_<") or short(n.x.get("cn") or "") != "value":
                continue
            a = call_args(n)
            if len(a) < 2:
                continue
            s = literal(a[0])
            ref = next((m for m in a[1].walk() if m.k == "DeclRefExpr" and m.x.get("dk") == "EnumConstant"), None)
            if ref is None or s is None:
                continue
            rep.count("enumerators")
            q = ref.x["q"]
            m = short(q)
            en = n.x["cc"]
            if (en, q) in seen and seen[(en, q)] != s:
                rep.violation("enumerator-of-other-name", f.name, n.l, "%s and %s denote the same enumerator" % (seen[(en, q)], s),
                              "enumerator-of-other-name|%s|%s" % (en, s), f.file)
            seen[(en, q)] = s
            owner = q[:-len(m)].rstrip(":")
            names = enumerators(prog, owner, ref)
            if m != s and s in names:
                rep.violation("enumerator-of-other-name", f.name, n.l, "%s denotes the enumerator %s" % (s, m),
                              "enumerator-of-other-name|%s|%s" % (en, s), f.file)


def enumerators(prog, owner, ref):
    for k, e in prog.enums.items():
        if k == owner or k.endswith("::" + short(owner)) and owner.startswith(k.rsplit("::", 1)[0]):
            return {(x[0] if isinstance(x, (list, tuple)) else x) for x in e[0]}
        if k.startswith(owner + "::"):
            ns = {(x[0] if isinstance(x, (list, tuple)) else x) for x in e[0]}
            if short(ref.x["q"]) in ns:
                return ns
    return set()


def nearest(rep, prog, b, where, fid, methods):
    """A function written for Python under the name of a C++ function asks the object closest to hand that has one."""
    f = prog.funcs.get(fid)
    if f is None or f.body is None or not b.cls or not b.name:
        return
    calls = [n for n in f.body.walk() if is_call(n)]
    hit = [n for n in calls if short((n.x.get("cn") or "").split("<")[0]) == b.name]
    for n in hit:
        o = call_base(n) if n.k == "CXXMemberCallExpr" else None
        while o is not None:
            while o.k in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and o.c:
                o = o.c[0]
            if o.k != "CXXMemberCallExpr":
                break
            up = call_base(o)
            if up is None:
                break
            cls = re.sub(r"^const ", "", (up.t or "").rstrip(" &*")).strip()
            owners = [cls] + bases(prog, cls)
            if any(methods.get(c, {}).get(b.name) for c in owners):
                rep.violation("bound-to-other-function", where, n.l, "%s asks another object than the one at hand" % b.name,
                              "bound-to-other-function|%s" % where, f.file)
                return
            o = up
    rep.count("functions written for Python")
    if hit or not f.params:
        return
    cls = re.sub(r"^const ", "", f.params[0][2].rstrip(" &*")).strip()
    owners = [cls] + bases(prog, cls)
    ms = [m for c in owners for m in methods.get(c, {}).get(b.name, ())]
    if not ms:
        return
    # the body may spell out what the function does; it is another function if it only calls one with another name
    other = [n for n in calls if (n.x.get("cc") or "") in owners and short(n.x.get("cn") or "") in
             {s for c in owners for s in methods.get(c, {})} and n.k == "CXXMemberCallExpr"]
    if len(other) == 1 and len(calls) == 1 and other[0].x.get("cid") not in {m.id for m in ms} and \
            not any(is_call(x) and x.x.get("cid") == other[0].x.get("cid") for m in ms if m.body is not None for x in m.body.walk()):
        rep.violation("bound-to-other-function", where, f.line, "%s calls %s although the class has a function of that name"
                      % (b.name, short(other[0].x["cn"])), "bound-to-other-function|%s" % where, f.file)


def items(rep, prog, bs):
    """Reading and assigning an element address the same one."""
    T = Terms(prog)
    by = {}
    for b, tg in bs:
        if b.name in ("__getitem__", "__setitem__") and tg and tg[0][1][0] in ("lambda", "func"):
            f = prog.funcs.get(tg[0][1][1])
            if f is None or f.body is None:
                continue
            fr = Frame(f, "this", {})
            for n in f.body.walk():
                if not (is_call(n) or n.k == "ArraySubscriptExpr"):
                    continue
                t = T.term(fr, n)
                ix = [t[2]] if t[0] == "idx" else list(t[3:]) if t[0] == "call" and t[1] in ("at",) else None
                if ix is None or not f.params or t[1 if t[0] == "idx" else 2] != ("a", f.params[0][0]):
                    continue
                ix = tuple(repr(rename(x, f)) for x in ix)
                by.setdefault((b.fn.id, b.cls), {}).setdefault(b.name, set()).add((ix, n.l, f.file))
    for key, d in sorted(by.items()):
        if len(d) == 2:
            rep.count("element access pairs")
            if {x[0] for x in d["__getitem__"]}.isdisjoint({x[0] for x in d["__setitem__"]}):
                x = sorted(d["__setitem__"])[0]
                rep.violation("element-order", "%s.__setitem__" % short(key[1]), x[1], "assigning an element addresses another one than reading it",
                              "element-order|%s.__setitem__" % key[1], x[2])


def rename(t, f):
    if t[0] == "a":
        return ("a", next((i for i, p in enumerate(f.params) if p[0] == t[1]), t[1]))
    return tuple(rename(x, f) if isinstance(x, tuple) and x else x for x in t)


def tokens(s):
    return [x.lower() for x in re.findall("[A-Z]?[a-z]+|[A-Z]+|[0-9]+", s or "")]


def alike(a, b):
    n = 0
    for x in tokens(a):
        n += max([2 if x == y else 1 if len(x) > 2 and len(y) > 2 and (x.startswith(y) or y.startswith(x)) else 0 for y in tokens(b)] or [0])
    return n


def exchanged(names, params):
    """Pairs of names that fit the parameters better the other way round; params: (name, type)."""
    for i in range(len(names)):
        for j in range(i + 1, len(names)):
            if j >= len(params) or not names[i] or not names[j] or params[i][1] != params[j][1]:
                continue
            q, r = params[i][0], params[j][0]
            if not q or not r:
                continue
            a, b, c, d = alike(names[i], q), alike(names[j], r), alike(names[i], r), alike(names[j], q)
            if c >= a and d >= b and c + d > a + b:
                yield i, j


def flat(s):
    return (s or "").replace("_", "").lower()


def same_names(rep, prog, b, where, fid):
    """Arguments passed on reach the parameters of the same names."""
    f = prog.funcs.get(fid)
    if f is None or f.body is None or not python_file(f):
        return
    T = Terms(prog)
    fr = Frame(f, "this", {})
    ps = {p[0]: flat(p[1]) for p in f.params if p[1]}
    for n in f.body.walk():
        if not (is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXNewExpr")):
            continue
        g = prog.funcs.get(n.x.get("cid"))
        if g is None or not g.name.startswith("visr::") or n.k == "CXXOperatorCallExpr":
            continue
        a = call_args(n) if is_call(n) else list(n.c)
        q = [flat(p[1]) for p in g.params]
        if len(a) < 2 or len(a) > len(q):
            continue
        # whole arguments and pointers to what an argument refers to; not computed values
        nm = []
        for x in a:
            t = T.term(fr, x)
            while t[0] == "call" and len(t) > 2 and isinstance(t[2], tuple) and t[1] != "size":
                t = t[2]
            nm.append(ps.get(t[1]) if t[0] == "a" else None)
        rep.count("calls with arguments compared by name")
        own = []
        for x in a:
            while x.k in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "CXXConstructExpr") and len(x.c) == 1:
                x = x.c[0]
            own.append(short(x.x.get("q") or "") if x.k == "DeclRefExpr" and x.x.get("dk") in ("Var", "ParmVar") else None)
        for i, j in exchanged(own, [(p[1], p[2]) for p in g.params]):
            rep.violation("arguments-exchanged", where, n.l, "%s and %s are passed on as %s and %s" % (own[i], own[j], g.params[i][1], g.params[j][1]),
                          "arguments-exchanged|%s|%s" % (where, own[i]), f.file)
        for i, x in enumerate(nm):
            if x is None or i >= len(q) or q[i] == x or x not in q:
                continue
            j = q.index(x)
            if j < len(nm) and nm[j] is not None and nm[j] != x and (q[i] in ps.values() or nm[j] == q[i]):
                rep.violation("arguments-exchanged", where, n.l, "the argument %s is passed on as %s" % (x, q[i]),
                              "arguments-exchanged|%s|%s" % (where, x), f.file)


def dimensions(rep, prog):
    """An index of a numpy array runs over the dimension it is an index of."""
    T = Terms(prog)
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line, f.id)):
        if f.body is None or not python_file(f) or f.name.startswith("pybind11::"):
            continue
        fr = Frame(f, "this", {})
        bound = None
        for n in f.body.walk():
            if n.k != "CXXMemberCallExpr" or re.sub(r"<.*$", "", short(n.x.get("cn") or "")) not in ("data", "mutable_data", "at", "mutable_at"):
                continue
            b = call_base(n)
            if b is None or "pybind11::array" not in (b.t or "") or not call_args(n):
                continue
            arr = T.term(fr, b)
            if bound is None:
                bound = ends(T, f, fr)
            rep.count("element accesses of numpy arrays")
            for k, a in enumerate(call_args(n)):
                t = T.term(fr, a)
                for e in bound.get(t, ()):
                    for x in subterms(e):
                        d = dim_of(x, arr)
                        if d is not None and d != k:
                            rep.violation("index-of-other-dimension", f.name, n.l, "index %d of an array runs over the size of dimension %d" % (k, d),
                                          "index-of-other-dimension|%s" % f.name, f.file)


def dim_of(x, arr):
    if x[0] == "idx" and x[1][0] == "call" and x[1][1] == "shape" and x[1][2:3] == (arr,) and x[2][0] == "c":
        return int(float(x[2][1]))
    if x[0] == "call" and x[1] == "shape" and len(x) == 4 and x[2] == arr and x[3][0] == "c":
        return int(float(x[3][1]))
    return None


def ends(T, f, fr):
    out = {}
    for lp in f.body.walk():
        if lp.k in ("ForStmt", "WhileStmt"):
            for c in lp.c:
                if c.k == "BinaryOperator" and c.t == "bool" and c.x["op"] in ("<", "!=", "<=", ">", ">="):
                    x, y = T.term(fr, c.c[0]), T.term(fr, c.c[1])
                    out.setdefault(x, []).append(y)
                    out.setdefault(y, []).append(x)
    return out


def passed_strides(rep, prog):
    """Pointers into numpy arrays are passed on together with the strides of the array."""
    T = Terms(prog)
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line, f.id)):
        if f.body is None or not python_file(f) or f.name.startswith("pybind11::"):
            continue
        fr = Frame(f, "this", {})
        for n in f.body.walk():
            if not is_call(n):
                continue
            g = prog.funcs.get(n.x.get("cid"))
            if g is None or not g.name.startswith("visr::") or python_file(g):
                continue
            a = call_args(n)
            cur = None
            for k, x in enumerate(a[:len(g.params)]):
                t = T.term(fr, x)
                p = g.params[k]
                if (p[2] or "").rstrip().endswith("*"):
                    cur = None
                    if t[0] == "call" and t[1].split("<")[0] in ("data", "mutable_data") and len(t) == 3:
                        ty = next((q[2] for q in f.params if t[2] == ("a", q[0])), "")
                        cur = t[2] if "pybind11::array" in ty and not c_style(ty) else None
                elif cur is not None and re.search("stride", p[1] or "", re.I):
                    rep.count("strides passed on")
                    if not any(s[0] == "call" and s[1] == "strides" and s[2:3] == (cur,) or s[0] == "idx" and s[1][0] in ("call", "f") and "strides" in s[1]
                               for s in subterms(t)):
                        rep.violation("strides-ignored", f.name, n.l, "a numpy array is passed on with %s as %s" % (show(t), p[1]),
                                      "strides-ignored|%s|%s" % (f.name, p[1]), f.file)


def member_order(rep, prog):
    """Members stored into consecutive elements keep their order."""
    T = Terms(prog)
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line, f.id)):
        if f.body is None or not python_file(f) or f.name.startswith("pybind11::"):
            continue
        fr = Frame(f, "this", {})
        groups = {}
        for n in f.body.walk():
            if n.k != "BinaryOperator" or n.x["op"] != "=" or not n.c[1:]:
                continue
            d, e = T.term(fr, n.c[0]), T.term(fr, n.c[1])
            if d[0] == "idx":
                key, k = d[1], d[2]
            elif d[0] == "call" and len(d) > 3:
                key, k = d[1:-1], d[-1]
            else:
                continue
            m = n.c[1]
            while m.k in ("ImplicitCastExpr", "ParenExpr") and m.c:
                m = m.c[0]
            if k[0] != "c" or m.k != "MemberExpr" or m.x.get("mk") != "field" or not m.c:
                continue
            cls = re.sub(r"^const ", "", (m.c[0].t or "").rstrip(" &*")).strip()
            r = prog.records.get(cls)
            i = next((j for j, x in enumerate(r.fields) if x.n == m.x["m"]), None) if r is not None else None
            if i is not None:
                groups.setdefault((key, cls), {})[int(float(k[1]))] = (i, n)
        for key, g in groups.items():
            o = [g[k][0] for k in sorted(g)]
            if len(o) < 2:
                continue
            rep.count("members stored one by one")
            if o != sorted(o):
                n = g[sorted(g)[0]][1]
                rep.violation("element-order", f.name, n.l, "the members of %s are not stored in their order" % short(key[1]),
                              "element-order|%s|members" % f.name, f.file)


def every_element(rep, prog):
    """Loops over the elements of an argument use each of them."""
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line, f.id)):
        if f.body is None or not python_file(f) or f.name.startswith("pybind11::"):
            continue
        ps = {p[0] for p in f.params}
        for lp in f.body.walk():
            if lp.k != "CXXForRangeStmt" or not lp.c or lp.c[0].k != "DeclStmt":
                continue
            src = [m for v in lp.c[0].x["vars"] if v.init is not None for m in v.init.walk() if m.k == "DeclRefExpr"]
            if not any(m.x.get("did") in ps for m in src):
                continue
            body = lp.c[-1]
            rep.count("loops over the elements of arguments")
            uses = [m for m in body.walk() if is_call(m) and not (m.x.get("cn") or "").startswith("std::") and m.k == "CXXMemberCallExpr" and not m.x.get("mconst")]
            if not uses:
                continue
            free = [u for u in uses if not conditional(u, body)]
            if not free or any(m.k in ("ContinueStmt", "BreakStmt") for m in body.walk()):
                rep.violation("elements-left-out", f.name, lp.l, "a loop over the elements of an argument passes over some of them",
                              "elements-left-out|%s|range" % f.name, f.file)


def conditional(n, stop):
    p, c = n.p, n
    while p is not None and p is not stop.p:
        if p.k == "IfStmt" and p.c and p.c[0] is not c and len(p.c) == 2:
            return True
        c, p = p, p.p
    return False


def module_function(rep, prog, b, where, fid, free):
    """A function of a module calls the toolkit function of its name."""
    f = prog.funcs.get(fid)
    if f is None or f.body is None or b.cls or not b.name:
        return
    names, spaces = set(), set()
    for n in f.body.walk():
        if is_call(n):
            cn = (n.x.get("cn") or "").split("<")[0]
            names.add(short(cn))
            if cn.startswith("visr::") and "::python" not in cn and "detail" not in cn:
                spaces.add(cn[:-len(short(cn))])
    rep.count("module functions")
    if b.name not in names and any(s + b.name in free for s in spaces):
        rep.violation("bound-to-other-function", where, f.line, "%s does not call the function of that name" % b.name,
                      "bound-to-other-function|%s" % where, f.file)


def members(rep, prog, b, where):
    """A data member is offered under its own name."""
    if b.kind not in ("def_readwrite", "def_readonly") or not b.cls:
        return
    ref = next((m for a in b.args for m in a.walk() if m.k == "DeclRefExpr" and m.x.get("dk") == "Field" or m.k == "MemberExpr" and m.x.get("mk") == "field"), None)
    if ref is None:
        return
    rep.count("data members offered")
    m = short(ref.x.get("q") or ref.x.get("m") or "")
    fl = {x.n for c in [b.cls] + bases(prog, b.cls) for r in [prog.records.get(c)] if r is not None for x in r.fields}
    if m != b.name and b.name in fl:
        rep.violation("bound-to-other-function", where, b.node.l, "%s denotes the member %s" % (b.name, m), "bound-to-other-function|%s" % where, b.fn.file)


def check(rep, prog, bs, methods):
    free = {f.name.split("<")[0] for f in prog.funcs.values() if not f.cls and f.name.startswith("visr::") and not python_file(f)}
    for b, tg in bs:
        where = "%s.%s" % (short(b.cls) if b.cls else "module", b.name)
        if b.kind == "def_property" and len(tg) >= 2:
            round_trip(rep, prog, b, where, tg[0][1], tg[1][1])
        for a, c in tg:
            if c[0] in ("lambda", "func"):
                unused(rep, prog, b, where, c[1])
                same_names(rep, prog, b, where, c[1])
        members(rep, prog, b, where)
        if not b.cls and tg and tg[0][1][0] == "lambda":
            module_function(rep, prog, b, where, tg[0][1][1], free)
        if tg and tg[0][1][0] in ("lambda", "func") and b.kind in ("def", "def_property_readonly"):
            nearest(rep, prog, b, where, tg[0][1][1], methods)
    items(rep, prog, bs)
    element_order(rep, prog)
    whole_loops(rep, prog)
    strides(rep, prog)
    dimensions(rep, prog)
    passed_strides(rep, prog)
    member_order(rep, prog)
    every_element(rep, prog)
    buffers(rep, prog)
    enum_values(rep, prog)
    rep.need("properties followed from assignment to reading", 15)
    rep.need("enumerators", 40)
    rep.need("buffers shared with numpy", 4)
    rep.need("functions walking over numpy arrays", 2)
    rep.need("groups of elements passed on", 5)
