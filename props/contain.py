"""Exceptions stay inside: destructors, noexcept functions, foreign callbacks and threads."""
import re
from .common import *
from vsa.effects import Effects, clean
from vsa.sim import Client, Engine
from vsa.model import is_call, call_args, call_base, short
from .init import LIBS


def targets(prog, e):
    """Functions of the program whose address occurs in expression e, and lambdas in it."""
    for n in e.walk():
        if n.k == "DeclRefExpr" and n.x.get("cid"):
            f = prog.funcs.get(n.x["cid"])
            if f is not None and not (n.p is not None and is_call(n.p) and n.p.c and n.p.c[0] is n):
                yield f, n
        elif n.k == "LambdaExpr":
            for i in [n.x.get("lambda")] + (n.x.get("lambdas") or []):
                f = prog.funcs.get(i)
                if f is not None:
                    yield f, n


class Paths(Client):
    """Follows the functions from which an exception can escape, with the conditions they test."""
    exceptional_exits = True

    def __init__(self, E):
        self.E = E

    def relevant(self, f):
        if f.body is None or f.lambda_:
            return False
        if self.E.esc.get(f.id):
            return True
        n = sum(1 for _ in f.body.walk())
        return n < 40


def feasible(prog, E, f):
    """Exception types thrown by the program that leave f on some feasible path."""
    out = set()
    for x in Engine(prog, Paths(E)).run(f, None):
        if x[0] != "throw":
            continue
        if x[2]:
            out.add(clean(x[2]))
        else:
            n = f.nodes.get(x[3]) if x[3] is not None else None
            if n is not None and n.k == "CXXThrowExpr":     # throw; in a handler
                out |= E.own(n, f)
    return out


def check(rep):
    prog = program(LIBS)
    E = Effects(prog)
    entries = {}
    for f in prog.funcs.values():
        if f.body is None:
            continue
        if f.sp == "dtor":
            entries[f.id] = "a destructor"
            rep.count("destructors")
        elif f.nothrow:
            entries[f.id] = "a function that promises not to throw"
            rep.count("noexcept functions")
        roots = [f.body] + [d["e"] for d in f.inits if d["e"] is not None]
        for root in roots:
            for n in root.walk():
                if not (is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr")):
                    continue
                cn = n.x.get("cn") or ""
                kind = None
                if n.x.get("extc") and not prog.callees(n):
                    kind = "a callback of the C library function %s" % short(cn)
                elif re.match(r"(std|boost)::thread::thread", cn):
                    kind = "a thread function"
                elif re.match(r"boost::asio::.*::async_", cn):
                    kind = "a completion handler of asynchronous i/o"
                if kind:
                    for a in call_args(n):
                        for g, r in targets(prog, a):
                            if g.body is not None:
                                entries[g.id] = kind
                                rep.count("callbacks and handlers handed to foreign code")
                                rep.sample("%s: %s" % (g.name, kind))
    rep.count("functions in the effect analysis", sum(1 for f in prog.funcs.values() if f.body is not None))
    done = set()
    for fid in sorted(entries, key=lambda i: (prog.funcs[i].file, prog.funcs[i].line, i)):
        f = prog.funcs[fid]
        key = (f.file, f.line)
        if key in done:
            continue
        done.add(key)
        ts = E.esc[fid]
        if any(own for _, own in ts):
            rep.count("possible escapes examined path by path")
            live = feasible(prog, E, f)
            ts = [t for t in ts if not t[1] or t[0] in live]
        for t in sorted(ts):
            ch = E.chain(fid, t)
            rep.violation("escape", f.name, f.line, "%s can leave %s: %s" % (t[0], entries[fid], " -> ".join(ch)),
                          "escape|%s|%s" % (re.sub("<.*>", "", f.name), t[0]), f.file)
    rep.need("destructors", 40)
    rep.need("callbacks and handlers handed to foreign code", 5)


# ---------------------------------------------------------------------- malformed messages
def refs(n):
    """Local variables and own attributes mentioned in an expression."""
    out = set()
    for m in n.walk():
        if m.k == "DeclRefExpr" and m.x.get("dk") in ("Var", "ParmVar"):
            out.add(("l", m.x["did"]))
        elif m.k == "MemberExpr" and m.c and m.c[0].k == "CXXThisExpr" and m.x.get("mk") == "Field":
            out.add(("f", m.x["m"]))
    return out


def root_of(n):
    while n is not None:
        if n.k == "DeclRefExpr" and n.x.get("dk") in ("Var", "ParmVar"):
            return ("l", n.x["did"])
        if n.k == "MemberExpr":
            if n.c and n.c[0].k == "CXXThisExpr":
                return ("f", n.x["m"])
            n = n.c[0] if n.c else None
        elif n.k in ("CXXMemberCallExpr", "CXXOperatorCallExpr"):
            n = call_base(n)
        elif n.k in ("ArraySubscriptExpr", "UnaryOperator", "ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr"):
            n = n.c[0]
        else:
            return None
    return None


def message_inputs(prog, cls):
    out = set()
    for c in prog.records.get(cls).fields if prog.records.get(cls) else ():
        if "MessageQueueProtocol" in c.t and "StringParameter" in c.t and "ParameterInput" in c.t:
            out.add(c.n)
    return out


def text_of(prog, n, ins, tainted):
    """Expression n carries message content."""
    for m in n.walk():
        if m.k == "CXXMemberCallExpr" and short(m.x.get("cn") or "") == "front":
            b = call_base(m)
            if b is not None and root_of(b) and root_of(b)[0] == "f" and root_of(b)[1] in ins:
                return True
    return bool(refs(n) & tainted)


def check_messages(rep):
    prog = program(LIBS)
    E = Effects(prog)
    seen = set()
    decoders = set()
    classes = set()
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if f.body is None or short(f.name) != "process" or not f.cls or f.id in seen:
            continue
        ins = message_inputs(prog, f.cls)
        if not ins:
            continue
        rep.count("components receiving text messages")
        # the process function and the helpers of the class (or file) it hands message content to
        work = [(f, frozenset(), ())]
        done = set()
        while work:
            g, params, chain = work.pop()
            if (g.id, params, tuple(c.i for c in chain)) in done or len(chain) > 6:
                continue
            done.add((g.id, params, tuple(c.i for c in chain)))

            def through(types, n):
                types = E.escaping(types, n, None)
                for c in reversed(chain):
                    types = E.escaping(types, c, None)
                return types
            tainted = set(("l", d) for d in params)
            while True:
                n0 = len(tainted)
                for n in g.body.walk():
                    if n.k == "DeclStmt":
                        for v in n.x["vars"]:
                            if v.init is not None and text_of(prog, v.init, ins, tainted):
                                tainted.add(("l", v.did))
                    elif n.k == "BinaryOperator" and n.x["op"] == "=" or n.k == "CXXOperatorCallExpr" and n.x.get("op") in ("=", ">>", "<<"):
                        a = n.c if n.k == "BinaryOperator" else n.c[1:]
                        if len(a) == 2:
                            src, dst = (a[0], a[1]) if n.x["op"] == ">>" else (a[1], a[0])
                            r = root_of(dst)
                            if r and r[0] == "l" and text_of(prog, src, ins, tainted):
                                tainted.add(r)
                    elif is_call(n):
                        args = call_args(n)
                        b = call_base(n)
                        if any(text_of(prog, a, ins, tainted) for a in args):
                            r = root_of(b) if b is not None else None
                            if r and not (r[0] == "f" and r[1] in ports(prog, f.cls)):
                                tainted.add(r)
                            for t, a in zip(n.x.get("pt") or (), args):
                                if t.endswith("&") and not t.startswith("const "):
                                    r = root_of(a)
                                    if r and r[0] == "l":
                                        tainted.add(r)
                if len(tainted) == n0:
                    break
            for n in g.body.walk():
                if not (is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr")):
                    continue
                b = call_base(n) if is_call(n) else None
                r = root_of(b) if b is not None else None
                if r and r[0] == "f" and r[1] in ports(prog, f.cls):
                    continue
                args = call_args(n)
                cs = prog.callees(n)
                local = [h for h in cs if h.body is not None and not h.lambda_ and (h.cls == f.cls or h.file == f.file)]
                if local:
                    for h in local:
                        ps = frozenset(p for i, p in enumerate(param_ids(h)) if i < len(args) and text_of(prog, args[i], ins, tainted))
                        work.append((h, ps, chain + (n,)))
                    continue
                if not (any(text_of(prog, a, ins, tainted) for a in args) or (b is not None and text_of(prog, b, ins, tainted))):
                    continue
                rep.count("operations on message content")
                decoders.update(h.id for h in cs)
                types = {}
                for h in cs:
                    for t in E.esc[h.id]:
                        types.setdefault(t[0], (h, t))
                for t in E.own(n, g):
                    types.setdefault(t, (None, None))
                types = {t: w for t, w in types.items() if t != "std::bad_alloc"}
                if not types:
                    continue
                rep.count("operations on message content that can fail")
                for t in sorted(through(set(types), n)):
                    h, w = types[t]
                    ch = " -> ".join(E.chain(h.id, w)) if h is not None else ""
                    rep.violation("message-escape", g.name, n.l, "handling the content of a received message can raise %s, which is not caught here %s" % (t, ch),
                                  "message-escape|%s|%s" % (f.name, t), g.file)
            for n in g.body.walk():
                if is_call(n) and short(n.x.get("cn") or "") == "status" and call_args(n) and \
                        any((m.x.get("d") or m.x.get("q") or "").split("::")[-1] in ("Error", "Critical") for m in call_args(n)[0].walk()) and \
                        (params or in_message_loop(n, ins) or guarded_by(prog, n, ins, tainted) or any(in_message_loop(c, ins) for c in chain)):
                    for t in sorted(through({"std::runtime_error"}, n)):
                        rep.violation("message-throw", g.name, n.l, "reports an error of a received message by %s, which is not caught" % t,
                                      "message-throw|%s|%s|status" % (f.name, t), g.file)
                if n.k == "CXXThrowExpr" and (params or in_message_loop(n, ins) or guarded_by(prog, n, ins, tainted)
                                              or any(in_message_loop(c, ins) for c in chain)):
                    for t in sorted(through(E.own(n, g), n)):
                        rep.violation("message-throw", g.name, n.l, "raises %s while handling a received message" % t,
                                      "message-throw|%s|%s" % (f.name, t), g.file)
        decoders.add(f.id)
        classes.add(f.cls)
    endless(prog, rep, decoders)
    next_message(rep, classes)
    rep.need("components receiving text messages", 3)
    rep.need("loops reached by message content", 5)
    rep.need("operations on message content that can fail", 2)


def next_message(rep, classes):
    """After a message, whatever it was, the remaining ones are handled."""
    from . import mqueue

    class Sub(object):
        notes = []

        def violation(self, rule, func, line, text, key, file):
            if rule in ("left-unprocessed", "not-drained") and func.rsplit("::", 1)[0] in classes:
                rep.violation("next-message", func, line, text, "next-message|%s" % func, file)

        def __getattr__(self, name):
            return lambda *a, **k: None
    mqueue.check(Sub())


def called(prog, f):
    for root in [f.body] + [d["e"] for d in f.inits if d["e"] is not None]:
        if root is None:
            continue
        for n in root.walk():
            if is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                for g in prog.callees(n):
                    yield g.id
            elif n.k == "DeclRefExpr" and n.x.get("cid"):
                yield n.x["cid"]
            elif n.k == "LambdaExpr":
                for i in [n.x.get("lambda")] + (n.x.get("lambdas") or []):
                    if i:
                        yield i


def endless(prog, rep, roots):
    """Loops that message content runs through and whose counter need not get past its limit."""
    todo, seen = list(roots), set()
    while todo:
        fid = todo.pop()
        f = prog.funcs.get(fid)
        if fid in seen or f is None:
            continue
        seen.add(fid)
        todo.extend(called(prog, f))
        if f.body is None or not f.file.startswith("src/"):
            continue
        for loop in f.body.walk():
            if loop.k not in ("WhileStmt", "ForStmt", "DoStmt"):
                continue
            rep.count("loops reached by message content")
            why = stuck(loop) or no_progress(loop)
            if why:
                rep.violation("endless-loop", f.name, loop.l, "decoding a message need not end: " + why, "endless-loop|%s|%s" % (short(f.name), why), f.file)


WIDTH = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64,
         "long long": 64, "unsigned long long": 64}


def bare(t):
    return (t or "").replace("const ", "").replace("&", "").strip()


def strip(n):
    while n.k in ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ExprWithCleanups") and len(n.c) == 1:
        n = n.c[0]
    return n


def stuck(loop):
    """A loop v <= limit (or similar) whose only progress is v += step, in a type where v + step need not be beyond v."""
    pt = loop.x.get("parts")
    kids = [c for c in loop.c if c is not None]
    conds = [c for c in kids if c.k != "CompoundStmt" and c.k != "DeclStmt"]
    cond = None
    for c in conds:
        b = strip(c)
        if b.k == "BinaryOperator" and b.x.get("op") in ("<", "<=", ">", ">=", "!="):
            cond = b
            break
    if cond is None:
        return None
    for m in loop.walk():
        if m is not loop and m.k in ("BreakStmt", "ReturnStmt", "CXXThrowExpr", "GotoStmt"):
            return None
    for side, other in ((cond.c[0], cond.c[1]), (cond.c[1], cond.c[0])):
        v = strip(side)
        if v.k != "DeclRefExpr" or not v.x.get("did"):
            continue
        did = v.x["did"]
        steps, sets = [], 0
        for m in loop.walk():
            if m.k == "UnaryOperator" and m.x.get("op") in ("++", "--", "++post", "--post") and strip(m.c[0]).x.get("did") == did:
                steps.append(None)
            elif m.k == "CompoundAssignOperator" and strip(m.c[0]).x.get("did") == did:
                if m.x.get("op") not in ("+=", "-="):
                    sets += 1
                steps.append(m.c[1])
            elif m.k == "BinaryOperator" and m.x.get("op") == "=" and strip(m.c[0]).x.get("did") == did:
                r = strip(m.c[1])
                if r.k == "BinaryOperator" and r.x.get("op") in ("+", "-") and did in [strip(c).x.get("did") for c in r.c]:
                    o = [c for c in r.c if strip(c).x.get("did") != did]
                    steps.append(o[0] if o else None)
                else:
                    sets += 1
        if not steps or sets:
            continue
        t = bare(v.t)
        if t in ("float", "double", "long double"):
            return "the counter %s is a floating-point number, adding to it need not change it" % v.x.get("d")
        w = WIDTH.get(t)
        lt = bare(strip(other).t)
        const = strip(other).x.get("cv") is not None or other.x.get("cv") is not None
        step = any(s is not None and s.x.get("cv") is None and strip(s).k != "IntegerLiteral" for s in steps)
        if w and WIDTH.get(lt, 0) >= w and not const and step:
            return "the counter %s can exceed the range of its type before it passes the limit" % v.x.get("d")
    return None


def loop_parts(loop):
    """(condition, body, increment)"""
    kids = [c for c in loop.c if c is not None]
    if loop.k == "DoStmt":
        return kids[-1], kids[0], None
    body = kids[-1]
    rest = [c for c in kids[:-1] if c.k != "DeclStmt" or loop.k == "WhileStmt"]
    if loop.k == "WhileStmt":
        return (rest[-1] if rest else None), body, None
    exprs = [c for c in rest if not (c.k == "BinaryOperator" and c.x.get("op") == "=" and c is kids[0])]
    cond = next((c for c in exprs if bare(c.t) == "bool" or c.k in ("ImplicitCastExpr", "BinaryOperator") and c.t == "bool"), None)
    inc = exprs[-1] if exprs and exprs[-1] is not cond else None
    return cond, body, inc


def place(n):
    """The variable or attribute that n is (part of)."""
    n = strip(n)
    for _ in range(20):
        if n.k == "DeclRefExpr" and n.x.get("did"):
            return ("l", n.x["did"])
        if n.k == "MemberExpr":
            if n.c and strip(n.c[0]).k == "CXXThisExpr" or not n.c:
                return ("f", n.x.get("m") or n.x.get("n") or n.x.get("d"))
            n = strip(n.c[0])
        elif n.k == "ArraySubscriptExpr" or n.k == "UnaryOperator" and n.x.get("op") in ("*", "&"):
            n = strip(n.c[0])
        elif n.k == "CXXOperatorCallExpr" and n.x.get("op") in ("[]", "*", "->") and len(n.c) > 1:
            n = strip(n.c[1])
        elif n.k == "CXXMemberCallExpr" and call_base(n) is not None:
            n = strip(call_base(n))
        elif n.k == "ImplicitCastExpr" and n.c:
            n = strip(n.c[0])
        else:
            return None
    return None


def changes(n):
    """Places that the expression or declaration n may change; None if anything."""
    out = set()
    for m in n.walk():
        if m.k in ("BinaryOperator", "CompoundAssignOperator") and (m.x.get("op") or "").endswith("=") and m.x["op"] not in ("==", "!=", "<=", ">="):
            out.add(place(m.c[0]))
        elif m.k == "UnaryOperator" and m.x.get("op") in ("++", "--", "++post", "--post"):
            out.add(place(m.c[0]))
        elif m.k == "UnaryOperator" and m.x.get("op") == "&":
            out.add(place(m.c[0]))
        elif m.k == "CXXOperatorCallExpr" and len(m.c) > 1:
            if m.x.get("op") not in ("==", "!=", "<", ">", "<=", ">=", "!"):
                if m.x.get("op") in ("++", "--", "++post", "--post", "=", "+=", "-=", "()"):
                    out.add(place(m.c[1]))
                elif m.x.get("op") == ">>":
                    out.update(place(c) for c in m.c[1:])
        elif is_call(m):
            b = call_base(m)
            if b is not None and not m.x.get("mconst"):
                out.add(place(b))
            if m.k == "CXXMemberCallExpr" and (b is None or strip(b).k == "CXXThisExpr") and not m.x.get("mconst"):
                out.add(("f", None))
            for t, a in zip(m.x.get("pt") or (), call_args(m)):
                if (t.endswith("&") or t.endswith("*")) and not t.startswith("const "):
                    out.add(place(a))
        elif m.k == "LambdaExpr":
            out.add(("any", None))
        elif m.k == "DeclStmt":
            for v in m.x["vars"]:
                if v.t.endswith("&") and not v.t.startswith("const ") and v.init is not None:
                    out.add(place(v.init))
    out.discard(None)
    return out


def no_progress(loop):
    """A path through the body comes back to the condition without having changed anything the condition depends on."""
    cond, body, inc = loop_parts(loop)
    if cond is None or body is None:
        return None
    dep = set()
    for m in cond.walk():
        if m.k == "DeclRefExpr" and m.x.get("did") and m.x.get("dk") != "function":
            dep.add(("l", m.x["did"]))
        elif m.k == "MemberExpr" and (not m.c or strip(m.c[0]).k == "CXXThisExpr"):
            p = place(m)
            if p:
                dep.add(p)
    if not dep:
        return None

    def hits(n):
        c = changes(n)
        return bool(c & dep) or ("any", None) in c or ("f", None) in c and any(d[0] == "f" for d in dep)
    if hits(cond) or inc is not None and hits(inc):
        return None
    for m in cond.walk():
        if is_call(m) and m.k == "CallExpr" and not call_args(m):
            return None
    ends = set()

    def run(n, sts):
        """States (changed or not) after n; continues go to ends, jumps out vanish."""
        if n is None or not sts:
            return sts
        k = n.k
        if k == "CompoundStmt":
            for c in n.c:
                sts = run(c, sts)
            return sts
        if k in ("ReturnStmt", "BreakStmt", "GotoStmt") or k == "ExprWithCleanups" and n.c and n.c[0].k == "CXXThrowExpr" or k == "CXXThrowExpr":
            return set()
        if k == "ContinueStmt":
            ends.update(sts)
            return set()
        if k == "IfStmt":
            cs = [c for c in n.c if c is not None]
            i = 0
            while i < len(cs) - 1 and cs[i].k == "DeclStmt":
                sts = run(cs[i], sts)
                i += 1
            sts = run(cs[i], sts)
            rest = cs[i + 1:]
            a = run(rest[0], set(sts)) if rest else sts
            b = run(rest[1], set(sts)) if len(rest) > 1 else sts
            return a | b
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            # a nested loop: it may change things, it may be left at once
            inner = True if hits(n) else False
            out = set(sts)
            if inner:
                out = out | {True}
                if k == "DoStmt":
                    out = {True}
                c, _b, _i = loop_parts(n) if k != "CXXForRangeStmt" else (None, None, None)
                if c is not None and hits(c):
                    out = {True}
                if True in out:
                    return {True}       # assume it runs
            return out
        if k == "SwitchStmt":
            out = set(sts)
            if hits(n):
                out = {True} | out
            for m in n.walk():
                if m.k == "ContinueStmt":
                    ends.update(out)
            return {True} if hits(n) else out
        if k == "CXXTryStmt":
            a = run(n.c[0], set(sts))
            for h in n.c[1:]:
                # an exception can come from the first statement on
                b = h.c[-1] if h.c else None
                start = set(sts) if can_raise(n.c[0]) else set()
                a = a | run(b, start)
            return a
        return {True} if hits(n) else sts
    sts = run(body, {False}) | ends
    if False in sts:
        return "a path leads back to the condition of the loop without any change to what it depends on"
    return None


def can_raise(n):
    """Something before the last statement that could raise: any call (the effects of the callees are not looked at)."""
    return any(is_call(m) and not m.x.get("nothrow") or m.k in ("CXXThrowExpr", "CXXConstructExpr") for m in n.walk())


def param_ids(h):
    return [p[0] for p in h.params]


def guarded_by(prog, n, ins, tainted):
    """A condition on message content decides whether n is executed."""
    p = n
    while p.p is not None:
        c, p = p, p.p
        if p.k in ("IfStmt", "SwitchStmt", "WhileStmt", "ForStmt", "ConditionalOperator", "DoStmt"):
            for x in p.c:
                if x is not None and x is not c and x.k not in ("CompoundStmt",) and text_of(prog, x, ins, tainted):
                    return True
    return False


def in_message_loop(n, ins):
    p = n.p
    while p is not None:
        if p.k in ("WhileStmt", "ForStmt", "DoStmt"):
            for m in p.walk():
                if m.k == "CXXMemberCallExpr" and short(m.x.get("cn") or "") == "front" and root_of(call_base(m)) in set(("f", i) for i in ins):
                    return True
        p = p.p
    return False


_ports = {}


def ports(prog, cls):
    r = _ports.get(cls)
    if r is None:
        r = _ports[cls] = set(x.n for x in (prog.records[cls].fields if cls in prog.records else ())
                              if re.search(r"(Parameter|Audio)(Input|Output)", x.t))
    return r
