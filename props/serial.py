"""Text representations: what is written under a key is read back from that key into the same attribute."""
import re

from .common import *
from vsa.model import is_call, call_base, call_args, short
from .bindings import peel, literal, norm

LIBS = ["libobjectmodel", "libpml", "librbbl", "libefl", "libpanning", "libreverbobject"]
TREE = "basic_ptree"
INVERSE = {"degree2radian": "radian2degree", "dB2linear": "linear2dB", "dB2Lin": "lin2dB"}
CONV = set(INVERSE) | set(INVERSE.values()) | {"spherical2cartesian", "cartesian2spherical"}
EMPTY = frozenset()


def is_tree(t):
    return TREE in (t or "") and "iterator" not in (t or "") and "pair<" not in (t or "")


class Ctx(object):
    """A function together with what its parameters are bound to."""
    __slots__ = ("fn", "bind", "depth", "base")

    def __init__(self, fn, bind, depth, base=None):
        self.fn, self.bind, self.depth, self.base = fn, bind, depth, base


class Slicer(object):
    def __init__(self, prog):
        self.prog = prog
        self._defs = {}
        self._acc = {}
        self._wr = {}
        self.pairs = {}          # class -> True when it has reader and writer

    # --- locals ----------------------------------------------------------------------------------------------------

    def defs(self, fn):
        """did -> list of (kind, node) that determine the value of a local variable or reference parameter."""
        d = self._defs.get(fn.id)
        if d is not None:
            return d
        d = self._defs[fn.id] = {}
        for n in fn.body.walk():
            if n.k == "DeclStmt":
                for v in n.x["vars"]:
                    if v.init is not None:
                        d.setdefault(v.did, []).append(("init", v.init))
            elif n.k in ("BinaryOperator", "CompoundAssignOperator") and (n.x.get("op") or "").endswith("=") and \
                    n.x["op"] not in ("==", "!=", "<=", ">="):
                for r in self.roots(n.c[0]):
                    d.setdefault(r, []).append(("val", n.c[1]))
            elif n.k == "CXXForRangeStmt":
                pass
            elif n.k == "CXXOperatorCallExpr":
                op = n.x.get("op") or ""
                if op in ("=", "<<", "+=", ">>") and len(n.c) >= 3:
                    l = peel(n.c[1])
                    while l.k == "CXXOperatorCallExpr" and l.x.get("op") == "<<" and len(l.c) >= 3:
                        l = peel(l.c[1])
                    if is_call(l) and l.k == "CallExpr":                      # std::tie( a, b ) = ...
                        for a in call_args(l):
                            for r in self.roots(a):
                                d.setdefault(r, []).append(("val", n.c[2]))
                    for r in self.roots(l):
                        d.setdefault(r, []).append(("val", n.c[2]))
            elif n.k == "CXXMemberCallExpr" and not n.x.get("mconst"):
                b = call_base(n)
                if b is not None:
                    for r in self.roots(b):
                        d.setdefault(r, []).append(("mut", n))
            if is_call(n):
                pt = n.x.get("pt") or []
                for k, a in enumerate(call_args(n)):
                    if k < len(pt) and pt[k].rstrip().endswith("&") and "const" not in pt[k] and not pt[k].endswith("&&"):
                        for r in self.roots(a):
                            d.setdefault(r, []).append(("out", (n, k)))
        return d

    @staticmethod
    def roots(n):
        n = peel(n)
        while n.k in ("ArraySubscriptExpr", "MemberExpr", "CXXOperatorCallExpr") or \
                n.k == "CXXMemberCallExpr" and short(n.x.get("cn") or "") in ("at", "front", "back", "operator[]"):
            if n.k == "CXXOperatorCallExpr":
                if n.x.get("op") not in ("[]", "*", "->") or len(n.c) < 2:
                    return
                n = peel(n.c[1])
            elif n.k == "CXXMemberCallExpr":
                b = call_base(n)
                if b is None:
                    return
                n = peel(b)
            else:
                if not n.c:
                    return
                n = peel(n.c[0])
        if n.k == "DeclRefExpr" and n.x.get("did"):
            yield n.x["did"]

    # --- keys and trees --------------------------------------------------------------------------------------------

    def key(self, n, ctx, depth=0):
        n = peel(n)
        if depth > 8:
            return None
        if n.k == "StringLiteral":
            return n.x.get("s")
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.key(n.c[0], ctx, depth + 1) if n.c else None
        if n.k == "DeclRefExpr":
            did = n.x.get("did")
            if ctx.bind and did in ctx.bind:
                m, c = ctx.bind[did]
                return self.key(m, c, depth + 1)
            ds = self.defs(ctx.fn).get(did, ())
            if len(ds) == 1 and ds[0][0] == "init":
                return self.key(ds[0][1], ctx, depth + 1)
            v = self.prog.globals.get(did) if hasattr(self.prog, "globals") else None
            return None
        if n.k == "CXXOperatorCallExpr" and n.x.get("op") == "+" and len(n.c) == 3:
            a, b = self.key(n.c[1], ctx, depth + 1), self.key(n.c[2], ctx, depth + 1)
            return a + b if a is not None and b is not None else None
        if n.k == "CXXMemberCallExpr" and short(n.x.get("cn") or "") in ("c_str", "str"):
            b = call_base(n)
            return self.key(b, ctx, depth + 1) if b is not None else None
        return None

    def join(self, p, k):
        if k is None:
            return None
        if k == "":
            return p + ("[]",)
        return p + tuple(k.split("."))

    def paths(self, n, ctx, depth=0):
        """Set of key paths a tree expression may denote (relative to the tree of the root function)."""
        n = peel(n)
        if depth > 10:
            return set()
        if n.k == "DeclRefExpr":
            did = n.x.get("did")
            if ctx.bind is not None and did in ctx.bind:
                m, c = ctx.bind[did]
                return self.paths(m, c, depth + 1)
            if any(p[0] == did for p in ctx.fn.params):
                return {()} if is_tree(n.t) else set()
            out = set()
            for kind, d in self.defs(ctx.fn).get(did, ()):
                if kind == "init":
                    out |= self.paths(d, ctx, depth + 1)
                elif kind == "out" and d[0].k == "CXXMemberCallExpr" and is_tree(d[0].x.get("cc")):
                    pass
            out |= self.attached(did, ctx, depth)
            return out
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.paths(n.c[0], ctx, depth + 1) if len(n.c) == 1 else set()
        if n.k == "ConditionalOperator":
            return self.paths(n.c[1], ctx, depth + 1) | self.paths(n.c[2], ctx, depth + 1)
        if n.k == "CXXMemberCallExpr" and is_tree(n.x.get("cc")):
            m = short((n.x.get("cn") or "").split("<")[0]) if False else n.c[0].x.get("m")
            b = call_base(n)
            a = call_args(n)
            if m in ("get_child", "get_child_optional", "equal_range", "find", "add_child", "put_child"):
                k = self.key(a[0], ctx)
                return {q for q in (self.join(p, k) for p in self.paths(b, ctx, depth + 1)) if q is not None}
            if m in ("begin", "end", "ordered_begin", "front", "back"):
                return {p + ("[]",) for p in self.paths(b, ctx, depth + 1)}
        if n.k == "MemberExpr" and n.x.get("m") in ("first", "second") and n.c:
            return self.paths(n.c[0], ctx, depth + 1)
        if n.k == "CXXOperatorCallExpr" and n.x.get("op") in ("->", "*") and len(n.c) >= 2:
            return self.paths(n.c[1], ctx, depth + 1)
        if n.k == "CXXMemberCallExpr" and n.x.get("op") in ("->", "*"):
            b = call_base(n)
            return self.paths(b, ctx, depth + 1) if b is not None else set()
        if n.k == "UnaryOperator" and n.x.get("op") == "*" and n.c:
            return self.paths(n.c[0], ctx, depth + 1)
        if n.k == "CXXMemberCallExpr" and short(n.x.get("cn") or "") in ("get", "operator->", "operator*", "value"):
            b = call_base(n)
            return self.paths(b, ctx, depth + 1) if b is not None else set()
        if n.k == "CallExpr" and short((n.x.get("cn") or "").split("<")[0]) == "move":
            return self.paths(n.c[1], ctx, depth + 1)
        return set()

    def attached(self, did, ctx, depth):
        """Paths under which a locally built tree is attached to others."""
        out = set()
        for n in ctx.fn.body.walk():
            if n.k != "CXXMemberCallExpr" or not is_tree(n.x.get("cc")):
                continue
            m = n.c[0].x.get("m")
            a = call_args(n)
            if m in ("add_child", "put_child") and len(a) == 2 and did in set(self.refs(a[1])):
                k = self.key(a[0], ctx)
            elif m == "push_back" and a and did in set(self.refs(a[0])):
                s = [x for x in a[0].walk() if x.k == "StringLiteral"]
                k = s[0].x.get("s") if s else None
            else:
                continue
            for p in self.paths(call_base(n), ctx, depth + 1):
                q = self.join(p, k)
                if q is not None:
                    out.add(q)
        return out

    @staticmethod
    def refs(n):
        for m in n.walk():
            if m.k == "DeclRefExpr" and m.x.get("did"):
                yield m.x["did"]

    # --- attributes ------------------------------------------------------------------------------------------------

    def subpath(self, n):
        """Member expression (attribute) -> path with constant index, and the outermost node of the access."""
        s = n.x.get("m")
        p, c = n.p, n
        while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr"):
            p, c = p.p, p
        if p is not None:
            i = None
            if p.k == "ArraySubscriptExpr" and p.c[0] is c:
                i = p.c[1]
            elif p.k == "CXXOperatorCallExpr" and p.x.get("op") == "[]" and len(p.c) == 3 and p.c[1] is c:
                i = p.c[2]
            elif p.k == "MemberExpr" and p.x.get("m") == "at" and p.p is not None and p.p.k == "CXXMemberCallExpr":
                i, p = (call_args(p.p) or [None])[0], p.p
            if i is not None:
                v = peel(i)
                if v.k == "IntegerLiteral":
                    return s + "[%s]" % v.x.get("v"), p
                if v.k == "DeclRefExpr":
                    for k, q in enumerate(n.fn.params if n.fn is not None else ()):
                        if q[0] == v.x.get("did"):
                            return s + "[$%d]" % k, p
                return s, p
        return s, c

    def accessed(self, fid, depth=0):
        """Attribute paths a function reads (relative to its object)."""
        if fid in self._acc:
            return self._acc[fid]
        self._acc[fid] = set()
        f = self.prog.funcs.get(fid)
        out = set()
        if f is not None and f.body is not None and depth < 6:
            for n in f.body.walk():
                if n.k == "MemberExpr" and n.x.get("mk") == "field":
                    b = peel(n.c[0]) if n.c else None
                    if b is not None and b.k != "CXXThisExpr":
                        continue
                    out |= self.extend(n, depth)
                elif n.k == "CXXMemberCallExpr" and n.x.get("cid") != fid:
                    out |= self.via(n, depth)
        out = {x for x in out if not any(y.startswith(x + ".") for y in out)}
        self._acc[fid] = out
        return out

    def via(self, n, depth):
        """Attribute paths a call (chain) on the object itself reads."""
        o = call_base(n)
        o = peel(o) if o is not None else None
        if o is None or o.k == "CXXThisExpr":
            pre = {""}
        elif o.k == "CXXMemberCallExpr" and (n.x.get("cn") or "").startswith("visr::"):
            pre = {x + "." for x in self.via(o, depth)}
        else:
            return set()
        return {b + self.subst(x, call_args(n)) for b in pre for x in self.accessed(n.x.get("cid"), depth + 1)}

    @staticmethod
    def subst(path, args):
        m = re.search(r"\[\$(\d+)\]", path)
        if not m:
            return path
        k = int(m.group(1))
        v = peel(args[k]) if k < len(args) else None
        if v is not None and v.k == "IntegerLiteral":
            return path.replace(m.group(0), "[%s]" % v.x.get("v"))
        return path.replace(m.group(0), "")

    def extend(self, n, depth=0):
        """Attribute path(s) of an attribute access including an accessor called on it."""
        s, top = self.subpath(n)
        p = top.p
        while p is not None and p.k in ("ImplicitCastExpr", "ParenExpr"):
            p = p.p
        if p is not None and p.k == "MemberExpr" and p.p is not None and p.p.k == "CXXMemberCallExpr" and p.p.c[0] is p:
            cn = p.p.x.get("cn") or ""
            if cn.startswith("visr::"):
                sub = self.accessed(p.p.x.get("cid"), depth + 1)
                if sub:
                    return {s + "." + self.subst(x, call_args(p.p)) for x in sub}
        elif p is not None and p.k == "MemberExpr" and p.x.get("mk") == "field":
            return {s + "." + p.x.get("m")}
        return {s}

    def written(self, fid, k, depth=0):
        """Attribute paths the k-th argument of a function is stored in."""
        if (fid, k) in self._wr:
            return self._wr[(fid, k)]
        self._wr[(fid, k)] = set()
        f = self.prog.funcs.get(fid)
        out = set()
        if f is not None and k < len(f.params) and depth < 6:
            did = f.params[k][0]
            dd = {did}
            if f.body is not None:
                for _ in range(2):
                    for v, ds in self.defs(f).items():
                        if any(kind in ("init", "val") and dd & set(self.refs(d)) for kind, d in ds):
                            if v not in {p[0] for p in f.params}:
                                dd.add(v)
            for i in f.inits:
                if i.get("m") and i.get("e") is not None and dd & set(self.refs(i["e"])):
                    out.add(i["m"])
            for n in f.body.walk() if f.body is not None else ():
                if n.k in ("BinaryOperator", "CompoundAssignOperator") and (n.x.get("op") or "").endswith("=") and \
                        n.x["op"] not in ("==", "!=", "<=", ">=") or n.k == "CXXOperatorCallExpr" and n.x.get("op") == "=":
                    l, r = (n.c[0], n.c[1]) if n.k != "CXXOperatorCallExpr" else (n.c[1], n.c[2])
                    if dd & set(self.refs(r)):
                        out |= self.target(l)
                elif n.k == "CXXMemberCallExpr" and not n.x.get("mconst"):
                    b = call_base(n)
                    hits = [j for j, a in enumerate(call_args(n)) if dd & set(self.refs(a))]
                    if not hits:
                        continue
                    if b is None or peel(b).k == "CXXThisExpr":
                        for j in hits:
                            out |= self.written(n.x.get("cid"), j, depth + 1)
                    else:
                        for t in self.target(b):
                            sub = set()
                            if (n.x.get("cn") or "").startswith("visr::"):
                                for j in hits:
                                    sub |= self.written(n.x.get("cid"), j, depth + 1)
                            out |= {t + "." + x for x in sub} if sub else {t}
                elif is_call(n) and n.k == "CallExpr":
                    hits = [a for a in call_args(n) if dd & set(self.refs(a))]
                    if hits:
                        pt = n.x.get("pt") or []
                        for j, a in enumerate(call_args(n)):
                            t = pt[j] if j < len(pt) else ""
                            if t.endswith("&") and "const" not in t or "iterator" in t or t.endswith("*") and "const" not in t or not t:
                                out |= self.target(a)
        self._wr[(fid, k)] = out
        return out

    def target(self, l):
        """Attribute paths an lvalue denotes."""
        out = set()
        l0 = peel(l)
        for n in l0.walk():
            if n.k == "MemberExpr" and n.x.get("mk") == "field" and n.c and peel(n.c[0]).k == "CXXThisExpr":
                out |= {self.subpath(n)[0]}
            elif n.k == "CXXMemberCallExpr" and (n.x.get("cn") or "").startswith("visr::"):
                b = call_base(n)
                if b is None or peel(b).k == "CXXThisExpr":
                    out |= {self.subst(x, call_args(n)) for x in self.accessed(n.x.get("cid"))}
        return out

    # --- backward slices -------------------------------------------------------------------------------------------

    def slice(self, n, ctx, conv=EMPTY, seen=None, depth=0):
        """Atoms an expression depends on: ('key', path, conv, node, default) and ('field', class path, conv, index)."""
        seen = set() if seen is None else seen
        out = []
        if n is None or depth > 24:
            return out
        n = peel(n)
        if n.k == "LambdaExpr":
            return out
        if n.k == "DeclRefExpr":
            did = n.x.get("did")
            k = (ctx.fn.id, did, conv, ctx.depth)
            if not did or k in seen:
                return out
            seen.add(k)
            if is_tree(n.t):
                ps = self.paths(n, ctx)
                if ps and ctx.fn and not self.local_tree(did, ctx):
                    return [("key", p, conv, n, None) for p in ps]
            if ctx.bind and did in ctx.bind:
                m, c = ctx.bind[did]
                out += self.slice(m, c, conv, seen, depth + 1)
            for kind, d in self.defs(ctx.fn).get(did, ()):
                if kind in ("init", "val"):
                    out += self.slice(d, ctx, conv, seen, depth + 1)
                elif kind == "mut":
                    if is_tree(d.x.get("cc")):
                        continue
                    for a in call_args(d):
                        out += self.slice(a, ctx, conv, seen, depth + 1)
                elif kind == "out":
                    out += self.through(d[0], d[1], ctx, conv, seen, depth + 1)
            return out
        if n.k == "MemberExpr" and n.x.get("mk") == "field":
            if n.x.get("m") in ("first", "second") and n.c and self.paths(n, ctx):
                return [("key", p, conv, n, None) for p in self.paths(n, ctx)]
            b = peel(n.c[0]) if n.c else None
            if b is None or b.k == "CXXThisExpr":
                return [("field", self.owner(ctx), x, conv, n) for x in self.extend(n)]
            return self.slice(b, ctx, conv, seen, depth + 1)
        if n.k == "CXXMemberCallExpr":
            cc = n.x.get("cc") or ""
            b = call_base(n)
            a = call_args(n)
            m = n.c[0].x.get("m") if n.c else None
            if is_tree(cc):
                if m in ("get", "get_optional", "get_value", "get_value_optional", "get_child", "get_child_optional", "data", "count", "find"):
                    if m in ("get_value", "data", "get_value_optional"):
                        return [("key", p, conv, n, None) for p in self.paths(b, ctx)]
                    k = self.key(a[0], ctx) if a else None
                    for p in self.paths(b, ctx):
                        q = self.join(p, k)
                        if q is not None:
                            out.append(("key", q, conv, n, a[1] if m == "get" and len(a) > 1 else (m if "optional" in m else None)))
                    return out
                return out
            cn = n.x.get("cn") or ""
            f = self.prog.funcs.get(n.x.get("cid"))
            if cn.startswith("visr::"):
                if b is None or peel(b).k == "CXXThisExpr":
                    for x in self.accessed(n.x.get("cid")):
                        out.append(("field", self.owner(ctx), self.subst(x, a), conv, n))
                    if not out and f is not None:
                        out += self.inline(f, n, a, ctx, conv, seen, depth)
                    return out
                base = self.slice(b, ctx, conv, seen, depth + 1)
                acc = self.accessed(n.x.get("cid"))
                if any(t[0] == "key" for t in base):
                    out += [t for t in base if t[0] == "key"]
                    for x in a:
                        out += self.slice(x, ctx, conv, seen, depth + 1)
                    return out
                bf = [t for t in base if t[0] == "field"]
                if bf:
                    for t in bf:
                        for x in acc or {""}:
                            out.append(("field", t[1], t[2] + ("." + self.subst(x, a) if x else ""), t[3], n))
                elif acc:
                    out += [("field", short(cc.split("<")[0]), self.subst(x, a), conv, n) for x in acc]
                else:
                    out += base
                for x in a:
                    out += self.slice(x, ctx, conv, seen, depth + 1)
                return out
            out += self.slice(b, ctx, conv, seen, depth + 1) if b is not None else []
            for x in a:
                out += self.slice(x, ctx, conv, seen, depth + 1)
            return out
        if n.k == "CallExpr":
            s = short((n.x.get("cn") or "").split("<")[0])
            c2 = conv | {s} if s in CONV else conv
            f = self.prog.funcs.get(n.x.get("cid"))
            if s not in CONV and f is not None and (n.x.get("cn") or "").startswith("visr::") and f.body is not None and \
                    "python" not in (f.file or ""):
                r = self.inline(f, n, call_args(n), ctx, c2, seen, depth)
                if r:
                    return r
            for x in call_args(n):
                out += self.slice(x, ctx, c2, seen, depth + 1)
            return out
        for x in n.c:
            out += self.slice(x, ctx, conv, seen, depth + 1)
        return out

    def local_tree(self, did, ctx):
        ds = self.defs(ctx.fn).get(did, ())
        return any(kind == "init" and not self.paths(d, ctx) for kind, d in ds)

    def owner(self, ctx):
        return short((ctx.fn.cls or "").split("<")[0])

    def bound(self, f, args, ctx):
        return Ctx(f, {p[0]: (a, ctx) for p, a in zip(f.params, args)}, ctx.depth + 1)

    def inline(self, f, n, args, ctx, conv, seen, depth):
        if ctx.depth > 4 or f.body is None:
            return []
        c = self.bound(f, args, ctx)
        out = []
        for m in f.body.walk():
            if m.k == "ReturnStmt" and m.c:
                out += self.slice(m.c[0], c, conv, seen, depth + 1)
        return out

    def through(self, call, k, ctx, conv, seen, depth):
        """What a callee stores in its k-th (reference) argument depends on."""
        out = []
        f = self.prog.funcs.get(call.x.get("cid"))
        args = call_args(call)
        if f is not None and f.body is not None and k < len(f.params) and ctx.depth <= 4 and \
                (call.x.get("cn") or "").startswith("visr::") and not is_tree(f.params[k][2]):
            c = self.bound(f, args, ctx)
            did = f.params[k][0]
            c.bind.pop(did, None)
            for kind, d in self.defs(f).get(did, ()):
                if kind in ("init", "val"):
                    out += self.slice(d, c, conv, seen, depth + 1)
                elif kind == "out":
                    out += self.through(d[0], d[1], c, conv, seen, depth + 1)
            return out
        b = call_base(call)
        if b is not None:
            out += self.slice(b, ctx, conv, seen, depth + 1)
        for j, a in enumerate(args):
            if j != k:
                out += self.slice(a, ctx, conv, seen, depth + 1)
        return out


# ---------------------------------------------------------------------------------------------------------------------

def comps(p):
    return [x for x in re.sub(r"\[(\D[^\]]*|)\]", "", p).split(".") if x]


def same_comp(a, b):
    if a == b:
        return True
    ai, bi = a.split("["), b.split("[")
    return ai[0] == bi[0] and (len(ai) == 1 or len(bi) == 1)


def related(a, b):
    """One attribute path denotes (a part of) what the other denotes."""
    a, b = comps(a), comps(b)
    if len(a) > len(b):
        a, b = b, a
    return bool(a) and any(all(same_comp(x, y) for x, y in zip(a, b[i:])) for i in range(len(b) - len(a) + 1))


def guard(n, stop):
    """Innermost condition under which a node is executed inside a function body."""
    c, p = n, n.p
    while p is not None and p is not stop:
        if p.k == "IfStmt" and c is not p.c[0]:
            kids = p.c
            return p, kids[0]
        if p.k in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "SwitchStmt", "CXXCatchStmt", "ConditionalOperator", "CaseStmt") and \
                not (p.k == "ConditionalOperator" and c is p.c[0]):
            return p, None
        c, p = p, p.p
    return None, None


def number(n):
    """Constant value of an expression, or None."""
    n = peel(n)
    while n.k in ("CXXConstructExpr", "CXXFunctionalCastExpr", "InitListExpr") and len(n.c) == 1:
        n = peel(n.c[0])
    if n.k in ("IntegerLiteral", "FloatingLiteral"):
        try:
            return float(n.x.get("v"))
        except (TypeError, ValueError):
            return None
    if n.k == "UnaryOperator" and n.x.get("op") == "-" and n.c:
        v = number(n.c[0])
        return -v if v is not None else None
    if n.k == "CXXBoolLiteralExpr":
        return float(bool(n.x.get("v")))
    return None


class Facts(object):
    def __init__(self, sl, root, readers, writers):
        self.sl, self.root, self.readers, self.writers = sl, root, readers, writers
        self.writes = []        # (path, atoms, node, ctx, guard cond, guarded)
        self.reads = []         # (path, node, default, guarded, ctx)
        self.sinks = []         # (class, attribute paths, atoms, node, ctx)
        self.dele = []          # (path, function, node)
        self.calls = []         # (callee, [keys per argument], node)
        self.unknown = []       # accesses whose key is not known
        self.opaque = False

    def run(self, ctx, outer=None):
        sl = self.sl
        f = ctx.fn
        for n in f.body.walk():
            if n.k == "CXXMemberCallExpr" and is_tree(n.x.get("cc")):
                self.tree_op(n, ctx, outer)
            elif is_call(n) and (n.x.get("cn") or "").startswith("visr::"):
                self.visr_call(n, ctx, outer)
            elif n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (n.x.get("cc") or "").startswith("visr::") and len(n.c) > 1:
                self.names(n, list(n.c), ctx)
            elif n.k == "BinaryOperator" and n.x.get("op") == "=" or n.k == "CXXOperatorCallExpr" and n.x.get("op") == "=" and len(n.c) == 3:
                l, r = (n.c[0], n.c[1]) if n.k == "BinaryOperator" else (n.c[1], n.c[2])
                t = sl.target(l) if not self.local(l, ctx) else set()
                if t:
                    self.sinks.append((sl.owner(ctx), t, sl.slice(r, ctx), n, ctx))

    def tree_op(self, n, ctx, outer):
        sl = self.sl
        m = n.c[0].x.get("m")
        a = call_args(n)
        b = call_base(n)
        g, cond = guard(n, ctx.fn.body)
        if g is None and outer:
            g, cond = outer
        if m in ("put", "add", "put_child", "add_child", "put_value"):
            k = sl.key(a[0], ctx) if m != "put_value" else ""
            ps = sl.paths(b, ctx)
            if (k is None or not ps) and m != "put_value":
                self.unknown.append(n)
            if self.readers_only(ctx):
                return
            for p in ps:
                q = sl.join(p, k) if m != "put_value" else p
                if q is not None:
                    self.writes.append((q, sl.slice(a[-1], ctx), n, ctx, cond, g))
        elif m == "push_back":
            for x in set(sl.refs(a[0])):
                for q in sl.attached(x, ctx, 0):
                    self.writes.append((q, [], n, ctx, cond, g))
        elif m in ("get", "get_optional", "get_child", "get_child_optional", "equal_range", "find", "count"):
            k = sl.key(a[0], ctx)
            ps = sl.paths(b, ctx)
            if k is None or not ps:
                self.unknown.append(n)
            for p in ps:
                q = sl.join(p, k)
                if q is not None:
                    d = a[1] if m == "get" and len(a) > 1 else (m if m not in ("get", "get_child") else None)
                    self.reads.append((q, n, d, g, ctx))

    def readers_only(self, ctx):
        return False

    def local(self, n, ctx):
        """The expression denotes (a part of) a local object."""
        for did in self.sl.roots(n):
            ds = self.sl.defs(ctx.fn).get(did)
            n = peel(n)
            if any(p[0] == did for p in ctx.fn.params):
                return False
            for m in ctx.fn.body.walk():
                if m.k == "DeclStmt":
                    for v in m.x["vars"]:
                        if v.did == did:
                            return not (v.t or "").rstrip().endswith(("&", "*"))
            return False
        return False

    def visr_call(self, n, ctx, outer):
        sl = self.sl
        cid = n.x.get("cid")
        f = sl.prog.funcs.get(cid)
        a = call_args(n)
        b = call_base(n) if n.k == "CXXMemberCallExpr" else None
        trees = [k for k, x in enumerate(a) if is_tree(x.t)]
        g, cond = guard(n, ctx.fn.body)
        if g is None and outer:
            g, cond = outer
        if trees:
            if cid in self.readers or cid in self.writers or f is None or f.body is None:
                for k in trees:
                    for p in sl.paths(a[k], ctx):
                        self.dele.append((p, n.x.get("cn"), cid, n, b is None or peel(b).k == "CXXThisExpr"))
                return
            if ctx.depth < 4:
                self.run(sl.bound(f, a, ctx), (g, cond) if g is not None else None)
            return
        self.names(n, a, ctx)
        if n.k == "CXXMemberCallExpr" and not n.x.get("mconst") and a:
            if b is not None and peel(b).k != "CXXThisExpr" and self.local(b, ctx):
                return
            cls = short((n.x.get("cc") or "").split("<")[0])
            for k, x in enumerate(a):
                at = [t for t in sl.slice(x, ctx) if t[0] == "key"]
                if at:
                    w = sl.written(cid, k)
                    for o in sl.prog.all_overriders(cid) if n.x.get("virt") else ():
                        w = w | sl.written(o, k)
                    self.sinks.append((cls, w, at, n, ctx))
        elif n.k == "CallExpr" and f is not None and f.body is not None and ctx.depth < 4 and \
                any(p[2].rstrip().endswith("&") and "const" not in p[2] for p in f.params) and \
                any(t[0] == "key" for x in a for t in sl.slice(x, ctx)):
            self.run(sl.bound(f, a, ctx), (g, cond) if g is not None else None)

    def names(self, n, a, ctx):
        f = self.sl.prog.funcs.get(n.x.get("cid"))
        if f is None or len(a) < 2:
            return
        ks = []
        for x in a:
            s = {t[1][-1] for t in self.sl.slice(x, ctx) if t[0] == "key" and t[1]}
            ks.append(s.pop() if len(s) == 1 else None)
        if sum(k is not None for k in ks) >= 2:
            self.calls.append((f, ks, n))


def tag(name):
    s = short(name)
    for t in ("Json", "Xml"):
        if t in s:
            return t
    return ""


def tree_functions(prog):
    rd, wr = {}, {}
    for f in prog.funcs.values():
        if f.body is None or not f.name.startswith("visr::") or not f.cls or f.acc != 0 or f.sp == "ctor":
            continue
        t = [p for p in f.params if is_tree(p[2])]
        if len(t) != 1 or re.match(r"from", short(f.name)):
            continue
        if "const" in t[0][2].split("&")[0]:
            rd[f.id] = f
        else:
            wr[f.id] = f
    return rd, wr


def show(p):
    return ".".join(p) if p else "(root)"


def check(rep):
    prog = program(LIBS)
    sl = Slicer(prog)
    readers, writers = tree_functions(prog)
    facts = {}
    for f in list(readers.values()) + list(writers.values()):
        F = Facts(sl, f, set(readers), set(writers))
        F.run(Ctx(f, None, 0))
        facts[f.id] = F
    by = {}
    for f in readers.values():
        by.setdefault((f.cls, tag(f.name)), [None, None])[0] = f
    for f in writers.values():
        by.setdefault((f.cls, tag(f.name)), [None, None])[1] = f
    generic = {}
    for f in prog.funcs.values():                   # readers that are no counterpart of a writer (e.g. of the whole scene)
        if f.body is None or not f.name.startswith("visr::"):
            continue
        if f.id in facts or not any(is_tree(p[2]) for p in f.params):
            continue
        F = Facts(sl, f, set(readers), set(writers))
        F.run(Ctx(f, None, 0))
        for q, *_ in F.reads:
            generic.setdefault((f.file or "").rsplit("/", 1)[0], set()).add(q)
    for (cls, t), (r, w) in sorted(by.items()):
        if r is None or w is None:
            continue
        rep.count("reader/writer pairs")
        compare(rep, prog, cls, r, w, facts[r.id], facts[w.id], generic.get((r.file or "").rsplit("/", 1)[0], set()))
        inherited(rep, cls, r, w, facts)
    for f in prog.funcs.values():
        if f.body is None or not (f.file or "").startswith("src/"):
            continue
        for n in f.body.walk():
            if n.k == "CXXMemberCallExpr" and is_tree(n.x.get("cc")) and n.c[0].x.get("m") in ("add_child", "put_child") and call_args(n) and \
                    sl.key(call_args(n)[0], Ctx(f, None, 0)) == "":
                rep.violation("no-key", f.name, n.l, "a child is added without a key, which the property tree does not support",
                              "no-key|%s" % f.name, f.file)
    rep.need("reader/writer pairs", 10)
    rep.need("keys compared", 30)
    streams(rep, prog, readers, writers)
    from . import textround
    textround.check(rep, prog, readers, writers, facts)


def chain(fid, facts, seen=()):
    """The reader or writer and those of base classes it calls for the same tree."""
    out = [fid]
    for p, cn, cid, n, base in facts[fid].dele:
        if base and p == () and cid in facts and cid not in seen and cid != fid:
            out += chain(cid, facts, seen + (fid,))
    return out


def inherited(rep, cls, r, w, facts):
    """Keys that the readers of base classes called by the reader require are written by the writers of base classes the writer calls."""
    rs, ws = chain(r.id, facts), chain(w.id, facts)
    if len(rs) < 2 and len(ws) < 2 or any(facts[x].unknown for x in ws):
        return
    c = short(cls.split("<")[0])
    rep.count("base class parts compared", len(rs) + len(ws) - 2)
    written = set(x[0] for y in ws for x in facts[y].writes) | set(d[0] for y in ws for d in facts[y].dele if d[0])
    read = set(x[0] for y in rs for x in facts[y].reads) | set(d[0] for y in rs for d in facts[y].dele if d[0])
    for y in rs[1:]:
        for q, n, d, g, ctx in facts[y].reads:
            if d is None and g is None and not in_try(n, ctx.fn) and q not in written and not any(z[:len(q)] == q for z in written):
                rep.violation("required-but-not-written", w.name, w.line, "%s requires %s, which %s and the functions it calls do not write" %
                              (short(r.name), show(q), short(w.name)), "required-but-not-written|%s|%s|%s" % (c, short(r.name), show(q)), w.file)
    rc = set(short((facts[y].root.cls or "").split("<")[0]) for y in rs[1:])
    for y in ws[1:]:
        k = short((facts[y].root.cls or "").split("<")[0])
        if k in rc:
            continue
        for x in facts[y].writes:
            if x[0] not in read and not any(z[:len(x[0])] == x[0] for z in read):
                rep.violation("written-but-not-read", r.name, r.line, "%s writes %s through a base class whose reader %s does not call" %
                              (short(w.name), show(x[0]), short(r.name)), "written-but-not-read|%s|%s|%s" % (c, short(w.name), show(x[0])), r.file)


def compare(rep, prog, cls, r, w, R, W, generic):
    c = short(cls.split("<")[0])
    T = lambda s: s
    wk, rk = {}, {}
    for x in W.writes:
        wk.setdefault(x[0], []).append(x)
    for x in R.reads:
        rk.setdefault(x[0], []).append(x)
    wd, rd = {}, {}
    for p, cn, cid, n, base in W.dele:
        if not base:
            wd.setdefault(p, []).append((cn, n))
    for p, cn, cid, n, base in R.dele:
        if not base:
            rd.setdefault(p, []).append((cn, n))
    # what is written is read
    for p, xs in sorted(wk.items()):
        rep.count("keys written")
        n = xs[0][2]
        if p in rk or p in rd or p in generic or any(q[:len(p)] == p for q in rk) or R.unknown:
            continue
        if p[-1:] == ("[]",) and (p[:-1] in rk or p[:-1] in rd or p == ("[]",)):
            continue
        rep.violation("written-but-not-read", w.name, n.l, "%s writes %s, which %s does not read" % (short(w.name), show(p), short(r.name)),
                      "written-but-not-read|%s|%s|%s" % (c, short(w.name), show(p)), w.file)
    # what the reader insists on is written
    for p, xs in sorted(rk.items()):
        rep.count("keys read")
        need = [x for x in xs if x[2] is None and x[3] is None and not in_try(x[1], x[4].fn)]
        if not need or W.unknown:
            continue
        ws = [y for q, y in wk.items() if q == p or q[:len(p)] == p]
        alt = set(q for q, zs in rk.items() if any(z[1] is x[1] for z in zs for x in need))      # the same place reads either of them
        if not ws and p not in wd and not any(q in wk or q in wd for q in alt):
            rep.violation("required-but-not-written", r.name, need[0][1].l,
                          "%s requires %s, which %s does not write" % (short(r.name), show(p), short(w.name)),
                          "required-but-not-written|%s|%s|%s" % (c, short(r.name), show(p)), r.file)
        elif ws and all(y[5] is not None and y[4] is not None for l in ws for y in l):
            rep.violation("required-but-not-always-written", w.name, ws[0][0][2].l,
                          "%s writes %s only under a condition, but %s requires it" % (short(w.name), show(p), short(r.name)),
                          "required-but-not-always-written|%s|%s" % (c, show(p)), w.file)
    # omitted values are those the reader assumes
    for p, xs in sorted(wk.items()):
        for x in xs:
            if x[5] is None or x[4] is None:
                continue
            v = omitted(x[4])
            ds = [d for y in rk.get(p, ()) for d in stands_in(y)]
            if v is None or not ds:
                continue
            rep.count("omitted values")
            if any(d != v for d in ds):
                rep.violation("other-default", r.name, rk[p][0][1].l,
                              "%s omits %s when it is %g, but %s then assumes %g" % (short(w.name), show(p), v, short(r.name), ds[0]),
                              "other-default|%s|%s" % (c, show(p)), r.file)
    # same attribute, inverse conversions
    sink = {}
    for cl, paths, atoms, n, ctx in R.sinks:
        for a in atoms:
            if a[0] == "key":
                sink.setdefault(a[1], []).append((paths, a[2], n))
    for p, xs in sorted(wk.items()):
        for x in xs:
            fa = [a for a in x[1] if a[0] == "field"]
            ss = [s for q, v in sink.items() if q == p or q[:len(p)] == p or p[:len(q)] == q and q for s in v if s[0]]
            exact = [s for s in sink.get(p, ()) if s[0]]
            if not fa or not (exact or ss):
                continue
            rep.count("keys compared")
            ok = [(a, s) for a in fa for s in (exact or ss) for y in s[0] if related(a[2], y)]
            rep.sample("%s %s: %s <-> %s" % (c, show(p), sorted({a[2] for a in fa}), sorted({y for s in (exact or ss) for y in s[0]})))
            if not ok:
                rep.violation("other-attribute", r.name, (exact or ss)[0][2].l,
                              "%s is written from %s but read into %s" % (show(p), ", ".join(sorted({a[2] for a in fa})),
                                                                          ", ".join(sorted({y for s in (exact or ss) for y in s[0]}))),
                              "other-attribute|%s|%s" % (c, show(p)), r.file)
                continue
            if not exact:
                continue
            if not any(inverse(a[3], s[1]) for a, s in ok):
                a, s = ok[0]
                rep.violation("conversion-not-inverse", r.name, s[2].l,
                              "%s is written with conversion %s but read with conversion %s"
                              % (show(p), ", ".join(sorted(a[3])) or "none", ", ".join(sorted(s[1])) or "none"),
                              "conversion-not-inverse|%s|%s" % (c, show(p)), r.file)
    # parts written with one format are read with the same
    for p in sorted(set(wd) & set(rd)):
        for cn, n in wd[p]:
            rep.count("parts compared")
            if not any(tag(o[0]) == tag(cn) for o in rd[p]):
                rep.violation("other-format", w.name, n.l, "%s is written with %s but read with %s" % (show(p), short(cn), short(rd[p][0][0])),
                              "other-format|%s|%s" % (c, show(p)), w.file)
    for cn_, F, fn in ((r, R, r), (w, W, w)):
        for f, ks, n in F.calls:
            permuted(rep, f, ks, n, fn)
    accessor_names(rep, W, w, c)


def in_try(n, fn):
    """Inside a try block whose handlers do not raise the error again."""
    p = n.p
    while p is not None:
        if p.k == "CXXTryStmt":
            hs = [h for h in p.c if h.k == "CXXCatchStmt"]
            if not any(m.k == "CXXThrowExpr" for h in hs for m in h.walk()):
                return True
        p = p.p
    return False


def omitted(cond):
    """Value for which a condition of the form 'value != constant' skips the writing."""
    c = peel(cond)
    if c.k in ("BinaryOperator", "CXXOperatorCallExpr") and c.x.get("op") == "!=":
        k = c.c if c.k == "BinaryOperator" else c.c[1:]
        for x in k:
            v = number(x)
            if v is not None:
                return v
    if c.k == "BinaryOperator" and c.x.get("op") in (">", ">=", "<", "<="):       # abs( value ) > small constant
        for x in c.c:
            y = peel(x)
            if is_call(y) and short((y.x.get("cn") or "").split("<")[0]) in ("abs", "fabs"):
                return 0.0
    return None


def stands_in(y):
    """Constants that replace a missing optional value read at y."""
    n, ctx = y[1], y[4]
    d = y[2]
    if d is not None and not isinstance(d, str):
        v = number(d)
        return [] if v is None else [v]
    if not isinstance(d, str) or "optional" not in d:
        return []
    did = None
    p, c = n.p, n
    while p is not None and p.k not in ("CompoundStmt", "DeclStmt"):
        if p.k == "CXXMemberCallExpr" and c is p.c[0] or p.k == "MemberExpr":
            m = p if p.k == "CXXMemberCallExpr" else p.p
            if m is not None and is_call(m) and short(m.x.get("cn") or "") in ("value_or", "get_value_or") and call_args(m):
                v = number(call_args(m)[0])
                return [] if v is None else [v]
        c, p = p, p.p
    for m in ctx.fn.body.walk():
        if m.k == "DeclStmt":
            for v in m.x["vars"]:
                if v.init is not None and any(z is n for z in v.init.walk()):
                    did = v.did
    out = []
    if did is None:
        return out
    uses = lambda e: any(z.k == "DeclRefExpr" and z.x.get("did") == did for z in e.walk())
    for m in ctx.fn.body.walk():
        if m.k == "ConditionalOperator" and uses(m.c[0]):
            for b in m.c[1:]:
                if not uses(b):
                    v = number(b)
                    if v is not None:
                        out.append(v)
        elif is_call(m) and short((m.x.get("cn") or "").split("<")[0]) in ("value_or", "get_value_or", "get_optional_value_or"):
            a = call_args(m)
            b = call_base(m) if m.k == "CXXMemberCallExpr" else (a[0] if a else None)
            if b is not None and uses(b) and a:
                v = number(a[-1])
                if v is not None:
                    out.append(v)
    return out


def inverse(a, b):
    return {INVERSE.get(x) or next((k for k, v in INVERSE.items() if v == x), x) for x in a if x in CONV} == {x for x in b if x in CONV}


def pname(s):
    s = norm(s)
    for p in ("new", "the", "val"):
        if s.startswith(p) and len(s) > len(p):
            s = s[len(p):]
    return s


def permuted(rep, f, ks, n, fn):
    pn = [pname(p[1]) for p in f.params]
    for i, k in enumerate(ks):
        if k is None or i >= len(pn) or norm(k) == pn[i]:
            continue
        rep.count("named values passed")
        if norm(k) in pn:
            j = pn.index(norm(k))
            if j < len(ks) and ks[j] is not None and norm(ks[j]) in pn:
                rep.violation("permuted", fn.name, n.l, "the value read from %s is passed as %s of %s" % (k, f.params[i][1], short(f.name)),
                              "permuted|%s|%s|%s" % (fn.name, short(f.name), k), fn.file)


def accessor(n, ctx, sl):
    """Name of the accessor whose value an expression passes on, looking through conversions."""
    n = peel(n)
    while n.k == "CallExpr" and len(call_args(n)) == 1:
        n = peel(call_args(n)[0])
    if n.k == "CXXMemberCallExpr" and not call_args(n):
        return short(n.x.get("cn") or "")
    i, b = None, None
    if n.k == "ArraySubscriptExpr":
        b, i = peel(n.c[0]), peel(n.c[1])
    elif n.k == "CXXOperatorCallExpr" and n.x.get("op") == "[]":
        b, i = peel(n.c[-2]), peel(n.c[-1])
    if i is not None and i.k == "IntegerLiteral" and b.k == "DeclRefExpr":
        ds = sl.defs(ctx.fn).get(b.x.get("did"), ())
        if len(ds) == 1 and ds[0][0] == "init":
            e = peel(ds[0][1])
            while e.k in ("CXXConstructExpr", "InitListExpr") and len(e.c) == 1:
                e = peel(e.c[0])
            f = sl.prog.funcs.get(e.x.get("cid")) if is_call(e) else None
            if f is not None and f.body is not None:
                rs = [m for m in f.body.walk() if m.k == "ReturnStmt" and m.c]
                if len(rs) == 1:
                    l = peel(rs[0].c[0])
                    while l.k in ("CXXConstructExpr", "InitListExpr", "CXXTemporaryObjectExpr") and len(l.c) == 1:
                        l = peel(l.c[0])
                    j = int(i.x.get("v"))
                    if l.k in ("InitListExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr") and j < len(l.c):
                        return accessor(l.c[j], Ctx(f, None, 1), sl)
    if n.k == "DeclRefExpr":
        ds = sl.defs(ctx.fn).get(n.x.get("did"), ())
        if ctx.bind and n.x.get("did") in ctx.bind:
            m, c = ctx.bind[n.x["did"]]
            return accessor(m, c, sl)
        if len(ds) == 1 and ds[0][0] == "init":
            return accessor(ds[0][1], ctx, sl)
    return None


def accessor_names(rep, W, w, c):
    lev = {}
    for p, atoms, n, ctx, cond, g in W.writes:
        if n.c[0].x.get("m") in ("put", "add") and p:
            lev.setdefault(p[:-1], {})[p[-1]] = (accessor(call_args(n)[1], ctx, W.sl), n)
    for pre, ks in sorted(lev.items()):
        for k, (a, n) in sorted(ks.items()):
            if a is None:
                continue
            rep.count("accessors compared")
            if norm(a) != norm(k) and norm(a) in {norm(x) for x in ks}:
                rep.violation("other-attribute", w.name, n.l, "%s is written with the value of %s()" % (show(pre + (k,)), a),
                              "other-attribute|%s|%s|%s" % (c, show(pre + (k,)), a), w.file)


# ---------------------------------------------------------------------------------------------------------------------

def streams(rep, prog, readers, writers):
    classes = {f.cls for f in list(readers.values()) + list(writers.values())}
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file or "", f.line, f.id)):
        if f.cls not in classes or f.body is None or not f.blocks or f.acc != 0:
            continue
        t = tag(f.name)
        if not t:
            continue
        c = short(f.cls.split("<")[0])
        s = short(f.name)
        outp = [p for p in f.params if p[2].rstrip().endswith("&") and "const" not in p[2] and
                ("ostream" in p[2] or "basic_string" in p[2] or is_tree(p[2]))]
        if s.startswith("write"):
            rep.count("text writers")
            for p in outp:
                used = any(n.k == "DeclRefExpr" and n.x.get("did") == p[0] for n in f.body.walk())
                if not used:
                    rep.violation("nothing-written", f.name, f.line, "%s leaves its output %s untouched" % (s, p[1] or "argument"),
                                  "nothing-written|%s|%s|%s" % (c, s, kind(p[2])), f.file)
        for n in f.body.walk():
            if not is_call(n):
                continue
            cn = n.x.get("cn") or ""
            sh = short(cn.split("<")[0])
            if "property_tree" in cn and sh in ("read_json", "read_xml", "write_json", "write_xml"):
                rep.count("conversions between text and tree")
                if sh.split("_")[1] != t.lower():
                    rep.violation("other-format", f.name, n.l, "%s uses %s" % (s, sh), "other-format|%s|%s|%s" % (c, s, sh), f.file)
                pt = (n.x.get("pt") or [""])[0]
                if sh.startswith("read") and "stream" not in pt:
                    rep.violation("text-used-as-file-name", f.name, n.l, "%s uses the text as the name of a file" % s,
                                  "text-used-as-file-name|%s|%s" % (c, s), f.file)
            elif f.cls and cn.startswith(f.cls.split("<")[0]) and tag(cn) and tag(cn) != t and \
                    re.match(r"(load|write|parse|from)", sh):
                rep.violation("other-format", f.name, n.l, "%s uses %s" % (s, sh), "other-format|%s|%s|%s" % (c, s, sh), f.file)


def kind(t):
    return "stream" if "stream" in t else ("tree" if is_tree(t) else "text")
