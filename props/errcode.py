"""Failures reported by the vector kernels are never swallowed."""
from .common import *
from vsa.sim import Client, Engine, reaching
from vsa.model import is_call, call_base, call_args, short

LIBS = ["libefl", "librbbl", "libpml", "libobjectmodel", "libpanning", "librcl", "libpanningdsp", "libreverbobject",
        "librrl", "libsignalflows", "libaudiointerfaces"]
EC = "visr::efl::ErrorCode"


def is_ec_call(n):
    return is_call(n) and n.t == EC


def cannot_fail(f):
    """Every return statement yields the constant 'no error'."""
    r = getattr(f, "_nofail", None)
    if r is None:
        r = False
        if f.body is not None:
            rets = [n for n in f.body.walk() if n.k == "ReturnStmt"]
            r = bool(rets) and all(n.c and n.c[0].x.get("cv") == "0" for n in rets)
        f._nofail = r
    return r


def judge(f):
    """A helper that is handed a status code, or the outcome of a test on one, and acts on it."""
    r = getattr(f, "_judge", None)
    if r is None:
        r = False
        if f.body is not None and f.blocks and f.sp not in ("ctor", "dtor"):
            ts = [t for _d, _n, t in f.params]
            small = sum(1 for _ in f.body.walk()) < 300
            r = any("ErrorCode" in t for t in ts) or small and any(t in ("bool", "const bool") for t in ts) and \
                any(n.k == "CXXThrowExpr" for n in f.body.walk())
        f._judge = r
    return r


class Err(Client):
    def __init__(self, prog, rep, inl, raisers=()):
        self.prog = prog
        self.raisers = raisers
        self.rep = rep
        self.inl = inl

    def relevant(self, fn):
        return fn.id in self.inl or judge(fn)

    def call(self, eng, fr, st, n, callees):
        if not is_ec_call(n):
            if eng.in_try(n) and not n.x.get("virt") and any(f.id in self.raisers for f in callees) and not any(self.relevant(f) for f in callees):
                # an exception raised for a failed kernel inside the called function arrives here
                return [(st, None), (st.client(st.c | frozenset([(fr.fn.id, n.i)])), None, "throw")]
            return None
        if any(f.id in self.inl for f in callees):
            return None         # followed instead
        self.rep.count("call outcomes")
        if callees and all(cannot_fail(f) for f in callees):
            return [(st, 0)]
        ok = (st, 0)
        bad = (st.client(st.c | frozenset([(fr.fn.id, n.i)])), ("err", 1))
        out = [ok, bad]
        if eng.in_try(n) and not n.x.get("nothrow"):
            out.append((st, None, "throw"))
        return out

    def compare(self, eng, fr, st, op, a, b, node):
        if isinstance(a, tuple) and a[0] == "err" and isinstance(b, int):
            pass
        elif isinstance(b, tuple) and b[0] == "err" and isinstance(a, int):
            a, b = b, a
        else:
            return None
        if int(b) == 0:
            if op == "==":
                return [(st, False)]
            if op == "!=":
                return [(st, True)]
            if op in (">", "<"):
                return [(st, True)]
        return [(st, True), (st, False)]

    def truth(self, eng, fr, st, val, node):
        if val[0] == "err":
            return [(st, True)]
        return None


def guarded(n):
    """Inside the protected part of a try statement."""
    while n.p is not None:
        if n.p.k == "CXXTryStmt" and n.p.c and n.p.c[0] is n:
            return True
        n = n.p
    return False


def check(rep):
    prog = program(LIBS)
    sites = 0
    roots = []
    for f in prog.funcs.values():
        if f.body is None or f.lambda_:
            continue
        ns = [n for n in f.body.walk() if is_ec_call(n)]
        if ns:
            roots.append(f)
            sites += len(ns)
    rep.count("call sites", sites)
    inl = set()
    todo = sorted(roots, key=lambda f: f.id)
    done = set()
    # lambdas are analysed as part of the enclosing function
    inl |= set(f.id for f in prog.funcs.values() if f.lambda_ and f.body is not None and any(is_ec_call(n) for n in f.body.walk()))
    callers = {}
    direct = {}
    for f in prog.funcs.values():
        if f.body is None:
            continue
        for n in f.body.walk():
            if is_call(n):
                for g in prog.callees(n):
                    callers.setdefault(g.id, set()).add(f.id)
                    if not n.x.get("virt"):
                        direct.setdefault(g.id, set()).add(f.id)
    # functions out of which an exception caused by a failed kernel can come, and those that may catch one
    raisers = set(f.id for f in roots if any(n.k == "CXXThrowExpr" for n in f.body.walk()))
    work = list(raisers)
    while work:
        for c in direct.get(work.pop(), ()):
            if c not in raisers:
                raisers.add(c)
                work.append(c)
    seen = set(f.id for f in todo)
    for f in prog.funcs.values():
        if f.body is not None and not f.lambda_ and f.id not in seen and any(
                is_call(n) and guarded(n) and not n.x.get("virt") and any(g.id in raisers for g in prog.callees(n)) for n in f.body.walk()):
            rep.count("functions that may catch a kernel failure")
            todo.append(f)
    while todo:
        f = todo.pop()
        if f.id in done or not f.blocks:
            continue
        done.add(f.id)
        rep.count("functions analysed")
        eng = Engine(prog, Err(prog, rep, inl - {f.id}, raisers))
        try:
            res = eng.run(f, frozenset())
        except Exception as e:
            raise
        okv = set(v for kind, st, v, rn in res if kind == "ret" and not st.c)
        badv = set()
        bad = []
        for kind, st, v, rn in res:
            if kind != "ret" or not st.c:
                continue
            if isinstance(v, tuple):
                if f.ret == EC or v[0] in ("err", "cmp", "not"):
                    badv.add("propagated")
                    continue
            if f.ret == EC and isinstance(v, int) and v != 0:
                continue
            if f.ret in ("bool", "int") and v is not None and v not in okv:
                badv.add(v)
                continue
            bad.append((st, v, rn))
        if f.ret in ("bool", "int") and badv and f.id not in inl:
            # the failure is passed on through the return value: the callers take over the obligation
            inl.add(f.id)
            for c in callers.get(f.id, ()):
                g = prog.funcs[c]
                done.discard(c)
                todo.append(g)
        for st, v, rn in bad:
            for fid, ni in st.c:
                g = prog.funcs[fid]
                n = g.nodes[ni]
                rep.violation("error-swallowed", f.name, n.l,
                              "%s completes normally although the kernel call %s at %s reported an error" %
                              (short(f.name), n.x.get("cn") or "(indirect)", g.loc(n)),
                              "error-swallowed|%s|%s" % (f.name, n.x.get("cn")), g.file)
        rep.count("paths explored", eng.steps)
    rep.need("call sites", 150)
