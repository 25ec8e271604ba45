"""One processing period: every scheduled component once, locked, in dependency order; complete transfer of the audio channels."""
import re
from .common import *
from vsa.sim import Client, Engine, Frame, reaching
from vsa.model import is_call, call_base, call_args, short
from vsa.term import Terms, show, subterms, decls
from vsa.loops import domain, cond_loop, size_of, within

LIBS = ["librrl", "libvisr", "libaudiointerfaces"]
FLOW = "visr::rrl::AudioSignalFlow"
GRAPH = "visr::rrl::SchedulingGraph"
LOCKS = re.compile(r"std::(lock_guard|unique_lock|scoped_lock)<")
ATOM = "visr::AtomicComponent"


def is_process(prog, n):
    return n.k == "CXXMemberCallExpr" and short(n.x.get("cn") or "") == "process" and len(n.c) == 1 and \
        prog.is_derived(n.x.get("cc") or "", ATOM)


def copy_call(n):
    """(src, dst, src stride, dst stride, length) argument nodes of a copying call."""
    cn = n.x.get("cn") or ""
    s = short(cn)
    a = call_args(n)
    if cn.startswith("visr::efl::") and s.startswith("vectorCopyStrided") and len(a) >= 5:
        return a[0], a[1], a[2], a[3], a[4]
    if cn.startswith("visr::efl::") and s.startswith("vectorCopy") and len(a) >= 3:
        return a[0], a[1], None, None, a[2]
    if cn.startswith("std::copy_n") and len(a) == 3:
        return a[0], a[2], None, None, a[1]
    if s == "memcpy" and len(a) == 3:
        return a[1], a[0], None, None, a[2]
    return None


def address(T, fr, n):
    """Multiset of summands of a pointer expression."""
    return summands(T.term(fr, n))


def summands(t):
    if t[0] == "op" and t[1] == "+":
        return tuple(sorted(summands(t[2]) + summands(t[3]), key=repr))
    if t[0] == "idx" and t[1][0] in ("a", "op"):
        return tuple(sorted(summands(t[1]) + summands(t[2]), key=repr))
    return (t,)


def adds_one(prog, f):
    """Field incremented by exactly one by f, if that is what f does."""
    if f.body is None:
        return None
    hit = []
    for n in f.body.walk():
        if n.k == "UnaryOperator" and n.x["op"] in ("++", "++post", "--", "--post") and n.c[0].k == "MemberExpr":
            hit.append((n.c[0].x["m"], 1 if n.x["op"].startswith("++") else -1))
        elif n.k == "CompoundAssignOperator" and n.c[0].k == "MemberExpr":
            v = n.c[1].x.get("cv") or n.c[1].x.get("v")
            hit.append((n.c[0].x["m"], int(v) if n.x["op"] == "+=" and v and v.isdigit() else None))
        elif n.k == "BinaryOperator" and n.x["op"] == "=" and n.c[0].k == "MemberExpr":
            t = Terms(prog).term(Frame(f, "this", {}), n.c[1])
            me = ("f", ("this",), n.c[0].x["m"])
            if t[0] == "op" and t[1] == "+" and me in t[2:]:
                o = t[3] if t[2] == me else t[2]
                hit.append((n.c[0].x["m"], int(o[1]) if o[0] == "c" and str(o[1]).isdigit() else None))
            else:
                hit.append((n.c[0].x["m"], None))
    return hit


class Period(Client):
    exceptional_exits = True
    loop_once = False

    def __init__(self, prog, T, rep, rel, root):
        self.prog = prog
        self.T = T
        self.rep = rep
        self.rel = rel
        self.root = root
        self.copies = {}
        self.found = {}

    def relevant(self, fn):
        return fn.id in self.rel and fn.file.startswith("src/librrl/")

    def viol(self, rule, fr, n, what):
        self.rep.violation(rule, self.root.name, n.l if n is not None else self.root.line,
                           "%s: %s" % (fr.fn.loc(n) if n is not None else fr.fn.where, what),
                           "%s|%s" % (rule, self.root.name), fr.fn.file)

    def g(self, st, k, d=None):
        return dict(st.c).get(k, d)

    def s(self, st, **kw):
        c = dict(st.c)
        for k, v in kw.items():
            if v is None:
                c.pop(k, None)
            else:
                c[k] = v
        return st.client(frozenset(c.items()))

    # ---- loops
    def sched_loop(self, fr, loop):
        key = (fr.fn.id, fr.chain, loop.i)
        if key not in self.found:
            d = domain(self.T, fr, loop)
            r = None
            if d is not None:
                c = d.what if d.kind == "elems" else size_of(d.what)
                if c is not None and c[0] == "f" and c[2] in self.fields:
                    r = (self.fields[c[2]], d)
            self.found[key] = r
        return self.found[key]

    def branch(self, eng, fr, st, n, taken):
        t = self.T.term(fr, n)
        if t[0] == "op" and t[1] in ("==", "!=") and taken == (t[1] == "=="):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a == ("c", "1") and b[0] == "a":
                    st = self.s(st, **{"one%d" % b[1]: True})
        loop = cond_loop(n)
        if loop is None:
            return st
        sl = self.sched_loop(fr, loop)
        if sl is None:
            return st
        what, d = sl
        if what == "schedule":
            if taken:
                if d.gap:
                    self.viol("schedule-incomplete", fr, loop, "the loop over the schedule %s" % d.gap)
                if self.g(st, "pend"):
                    self.viol("component-skipped", fr, loop, "a component of the schedule can be passed over without being processed")
                return self.s(st, pend=True)
            if self.g(st, "pend"):
                self.viol("component-skipped", fr, loop, "a component of the schedule can be passed over without being processed")
            return self.s(st, pend=None, done=min(self.g(st, "done", 0) + 1, 2))
        # channel loops
        k = "p" + what
        if taken:
            if d.gap:
                self.viol("channels-incomplete", fr, loop, "the loop over the %s channels %s" % (what, d.gap))
            if self.g(st, k):
                self.viol("channels-incomplete", fr, loop, "a %s channel can be passed over without being transferred" % what)
            return self.s(st, **{k: True})
        if self.g(st, k):
            self.viol("channels-incomplete", fr, loop, "a %s channel can be passed over without being transferred" % what)
        if self.g(st, k) is None and not self.g(st, "t" + what):
            return self.s(st, **{"d" + what: True})     # loop over no channels
        return self.s(st, **{k: None, "d" + what: True, "t" + what: None})

    # ---- locks
    def after(self, eng, fr, st, n):
        if n.k == "DeclStmt":
            for v in n.x["vars"]:
                if LOCKS.search(v.t) and v.init is not None:
                    t = self.T.term(fr, v.init)
                    r = repr(t)
                    if any(m in r for m in self.mutexes) and "defer_lock" not in r and "try_to_lock" not in r:
                        st = self.s(st, lock=frozenset(self.g(st, "lock", frozenset()) | {v.did}))
            return st
        return None

    def dtor(self, eng, fr, st, did, ty):
        l = self.g(st, "lock", frozenset())
        if did in l:
            return self.s(st, lock=frozenset(l - {did}))
        return st

    def leave(self, eng, fr, st, kind):
        l = self.g(st, "lock", frozenset())
        if l and fr.caller is not None:
            l2 = frozenset(x for x in l if x not in decls(fr.fn))
            if l2 != l:
                return self.s(st, lock=l2)
        return st

    # ---- events
    def call(self, eng, fr, st, n, callees):
        cn = n.x.get("cn") or ""
        s = short(cn)
        if n.k == "CXXMemberCallExpr" and is_process(self.prog, n):
            self.rep.count("component invocations evaluated")
            t = self.T.term(fr, call_base(n))
            if not self.g(st, "lock"):
                self.viol("unlocked", fr, n, "a component is executed without the parameter exchange mutex being held")
            sub = [x for x in subterms(t) if x[0] == "f" and x[2] in self.fields and self.fields[x[2]] == "schedule"]
            if not sub:
                self.viol("foreign-component", fr, n, "a component that is not the current element of the schedule is executed (%s)" % show(t))
            if not self.g(st, "pend"):
                self.viol("component-twice", fr, n, "a component can be executed outside the iteration over the schedule, or twice per iteration")
            if self.g(st, "adv"):
                self.viol("time-order", fr, n, "the time is advanced before all components of the period have been executed")
            for w, o in (("capture", "before"),):
                if self.root.name.endswith("::process") and not self.g(st, "d" + w) and self.has_channels:
                    self.viol("transfer-order", fr, n, "components are executed before the %s channels have been taken over" % w)
            if self.root.name.endswith("::process") and self.g(st, "dplayback"):
                self.viol("transfer-order", fr, n, "components are executed after the playback channels have been delivered")
            return [(self.s(st, pend=None), None), (self.s(st, failed=True, failn=fr.fn.loc(n)), None, "throw", None)]
        if callees and any(f.cls == "visr::impl::TimeImplementation" and f.name in self.counter for f in callees):
            if not self.g(st, "lock"):
                self.viol("unlocked", fr, n, "the time is changed without the parameter exchange mutex being held")
            return [(self.s(st, adv=min(self.g(st, "adv", 0) + 1, 2)), None)]
        if s in ("unlock", "lock", "release") and n.k == "CXXMemberCallExpr" and cn.startswith("std::"):
            b = call_base(n)
            l = self.g(st, "lock", frozenset())
            if b is not None and LOCKS.search(b.t):
                d = b.x.get("did")
                return [(self.s(st, lock=frozenset(l - {d}) if s != "lock" else frozenset(l | {d})), None)]
            if b is not None and any(m in repr(self.T.term(fr, b)) for m in self.mutexes):
                return [(self.s(st, lock=frozenset(l | {-1}) if s == "lock" else frozenset(l - {-1})), None)]
        cc = copy_call(n)
        if cc is not None:
            r = self.copy(eng, fr, st, n, cc)
            if r is not None:
                return [(r, None)]
        if s in ("for_each", "for_each_n") and cn.startswith("std::") and len(call_args(n)) == 3:
            a = call_args(n)
            t0, t1 = self.T.term(fr, a[0]), self.T.term(fr, a[1])
            if t0[0] == "call" and t0[1] in ("begin", "cbegin") and t0[2][0] == "f" and self.fields.get(t0[2][2]) == "schedule":
                full = s == "for_each" and t1[0] == "call" and t1[1] in ("end", "cend") and t1[2] == t0[2]
                if not full:
                    self.viol("schedule-incomplete", fr, n, "the iteration over the schedule does not cover all of it")
                lam = eng._lambda_of(fr, a[2])
                if lam is not None and lam.blocks:
                    out = []
                    nf = Frame(lam, fr.this, {lam.params[0][0]: ("elem", t0[2], lam.params[0][0])} if lam.params else {}, fr, True, fr.depth + 1, None, fr)
                    for k, s2, v, rn in eng._run(nf, self.s(st, pend=True)):
                        if k == "ret":
                            if self.g(s2, "pend"):
                                self.viol("component-skipped", fr, n, "a component of the schedule can be passed over without being processed")
                            out.append((self.s(s2, pend=None, done=min(self.g(st, "done", 0) + 1, 2)), None))
                        else:
                            out.append((s2, None, "throw", v))
                    out.append((self.s(st, done=min(self.g(st, "done", 0) + 1, 2)), None))
                    return out
                if "process" in repr([x.x.get("q") for x in a[2].walk()]):
                    return [(self.s(st, done=min(self.g(st, "done", 0) + 1, 2)), None), (self.s(st, failed=True, failn=fr.fn.loc(n)), None, "throw", None)]
        return None

    def copy(self, eng, fr, st, n, cc):
        src, dst, ss, ds, ln = cc
        T = self.T
        ta, tb = T.term(fr, src), T.term(fr, dst)

        def chan(t):
            for x in subterms(t):
                if x[0] == "idx" and x[1][0] == "f" and self.fields.get(x[1][2]) in ("capture", "playback"):
                    return self.fields[x[1][2]], x[2]
                if x[0] == "elem" and x[1][0] == "f" and self.fields.get(x[1][2]) in ("capture", "playback"):
                    return self.fields[x[1][2]], x
            return None
        ca, cb = chan(ta), chan(tb)
        if ca is None and cb is None:
            return None
        self.rep.count("channel copies evaluated")
        what = "capture" if cb is not None else "playback"
        if cb is not None and cb[0] != "capture" or cb is None and ca[0] != "playback":
            self.viol("wrong-direction", fr, n, "samples are copied %s the %s channels" % (("to", cb[0]) if cb else ("from", ca[0])))
            return st
        idx = (cb or ca)[1]
        ext = src if what == "capture" else dst
        own = dst if what == "capture" else src
        es, os_ = (ss, ds) if what == "capture" else (ds, ss)
        ptr, chs, smp = self.params[what]
        # external address: ptr[idx] or ptr + idx * channel stride
        ad = address(T, fr, ext)
        te = T.term(fr, ext)
        P = ("a", ptr)
        if chs is None:
            ok = te == ("idx", P, idx)
        else:
            ok = ad == tuple(sorted((P, T.binop("*", idx, ("a", chs))), key=repr))
        if not ok:
            self.viol("wrong-channel", fr, n, "%s channel %s is exchanged with %s" % (what, show(idx), show(te)))
        own_t = T.term(fr, own)
        if not (own_t[0] == "idx" and own_t[2] == idx or own_t == idx):
            self.viol("wrong-channel", fr, n, "the samples do not start at the beginning of %s channel %s (%s)" % (what, show(idx), show(own_t)))
        # strides
        S = ("a", smp)
        es_t = T.term(fr, es) if es is not None else ("c", "1")
        os_t = T.term(fr, os_) if os_ is not None else ("c", "1")

        def is_one(t):
            return t == ("c", "1") or t[0] == "a" and self.g(st, "one%d" % t[1])
        if not is_one(os_t):
            self.viol("wrong-stride", fr, n, "the internal buffer of a %s channel is accessed with stride %s" % (what, show(os_t)))
        if es_t != S and not (is_one(es_t) and is_one(S)):
            self.viol("wrong-stride", fr, n, "the samples of a %s channel are transferred with stride %s instead of the caller's %s stride" %
                      (what, show(es_t), what))
        lt = T.term(fr, ln)
        if lt != self.period:
            if not (lt[0] == "op" and lt[1] == "*" and self.period in lt[2:] and n.x.get("cn", "").endswith("memcpy")):
                self.viol("wrong-length", fr, n, "%s samples of a %s channel are transferred instead of one period" % (show(lt), what))
        if what == "playback" and not self.g(st, "done"):
            self.viol("transfer-order", fr, n, "playback samples are delivered before the components have been executed")
        if what == "capture" and self.g(st, "done"):
            self.viol("transfer-order", fr, n, "capture samples are taken over after the components have been executed")
        return self.s(st, **{"p" + what: None, "t" + what: True})


def check_execution(rep, prog, T):
    rec = prog.records.get(FLOW)
    if rec is None:
        raise Broken("AudioSignalFlow not found")
    rel = reaching(prog, lambda n: is_process(prog, n) or is_call(n) and copy_call(n) is not None or
                   is_call(n) and (n.x.get("cc") or "") == "visr::impl::TimeImplementation")
    # roles of the members
    fields = {}
    for f in rec.fields:
        if re.match(r"std::vector<visr::AtomicComponent \*", f.t):
            fields[f.n] = "schedule"
    mutexes = [f.n for f in rec.fields if "mutex" in f.t.lower()]
    procs = [f for f in prog.by_name.get(FLOW + "::process", ()) if f.blocks]
    for nm, w in (("numberOfCaptureChannels", "capture"), ("numberOfPlaybackChannels", "playback")):
        for f in prog.by_name.get(FLOW + "::" + nm, ()):
            if f.body is not None:
                for n in f.body.walk():
                    if n.k == "ReturnStmt":
                        t = T.term(Frame(f, "this", {}), n.c[0])
                        c = size_of(t)
                        if c is None or c[0] != "f":
                            raise Broken("channel list behind %s not recognised" % nm)
                        fields[c[2]] = w
    if sorted(fields.values()) != ["capture", "playback", "schedule"] or not mutexes:
        raise Broken("members of the signal flow not recognised: %s %s" % (fields, mutexes))
    pf = [f for f in prog.by_name.get(FLOW + "::period", ()) if f.body is not None]
    if not pf:
        raise Broken("period() of the signal flow not found")
    period = T.term(Frame(pf[0], "this", {}), [n for n in pf[0].body.walk() if n.k == "ReturnStmt"][0].c[0])
    # counter functions of the time implementation
    counter = {}
    for f in prog.methods_of.get("visr::impl::TimeImplementation", ()):
        if f.const or not f.body or short(f.name) in ("TimeImplementation", "~TimeImplementation"):
            continue
        h = adds_one(prog, f)
        if h and any(x[1] is not None or short(f.name).startswith("advance") for x in h):
            counter[f.name] = h
            rep.count("time functions")
            if len(h) != 1 or h[0][1] != 1:
                rep.violation("time-step", f.name, f.line, "advancing the time does not add exactly one block to the counter", "time-step|" + f.name, f.file)
    if not counter:
        raise Broken("the function advancing the time was not found")
    fld = sorted({x[0] for h in counter.values() for x in h})[0]
    # the counter does not wrap around within any realistic running time
    narrow = re.compile(r"^(const )?(int|unsigned int|short|unsigned short|char|unsigned char|signed char|float|u?int(8|16|32)_t|std::u?int(8|16|32)_t)$")
    rec = prog.records.get("visr::impl::TimeImplementation")
    for x in rec.fields if rec is not None else ():
        if x.n == fld and narrow.match(x.t):
            rep.violation("time-narrowed", "visr::impl::TimeImplementation", rec.line if hasattr(rec, "line") else 1, "the counted time is kept in "
                          "the type %s" % x.t, "time-narrowed|" + fld, "src/libvisr/impl/time_implementation.hpp")
    for f in list(prog.methods_of.get("visr::impl::TimeImplementation", ())) + list(prog.methods_of.get("visr::Time", ())):
        if f.body is not None and short(f.name) in ("sampleCount", "blockCount"):
            for n in f.body.walk():
                if n.t and narrow.match(n.t) and "cv" not in n.x and n.k != "DeclRefExpr" or n.k == "DeclRefExpr" and narrow.match(n.t):
                    rep.violation("time-narrowed", f.name, n.l, "%s() computes the time in the type %s" % (short(f.name), n.t),
                                  "time-narrowed|" + f.name, f.file)
                    break
    # queries are consistent with the block counter
    for f in prog.methods_of.get("visr::impl::TimeImplementation", ()):
        if f.const and f.body is not None:
            r = [n for n in f.body.walk() if n.k == "ReturnStmt" and n.c]
            C = ("f", ("this",), fld)
            exp = {"blockCount": C, "sampleCount": T.binop("*", C, ("f", ("this",), "mPeriod"))}.get(short(f.name))
            for n in r:
                t = T.term(Frame(f, "this", {}), n.c[0])
                if exp is not None:
                    rep.count("time queries")
                    if t != exp and not (short(f.name) == "sampleCount" and t[0] == "op" and t[1] == "*" and C in t[2:] and
                                         all(x[0] == "f" and x[1] == ("this",) for x in t[2:])):
                        rep.violation("time-query", f.name, n.l, "%s() returns %s" % (short(f.name), show(t)), "time-query|" + f.name, f.file)
    roots = [f for f in prog.funcs.values() if f.cls == FLOW and f.id in rel and f.blocks and
             not f.lambda_ and short(f.name) not in ("AudioSignalFlow", "~AudioSignalFlow")]
    exe = reaching(prog, lambda n: is_process(prog, n))
    roots = [f for f in roots if f.id in exe]
    if len([f for f in roots if short(f.name) == "process"]) < 2:
        raise Broken("processing functions of the signal flow not found")
    for f in sorted(roots, key=lambda x: x.id):
        nm = short(f.name)
        if nm == "processFunction":
            check_adapter(rep, prog, T, f)
            continue
        called = any(f in prog.callees(n) for g in roots for n in (g.body.walk() if g.body else ()) if is_call(n))
        isproc = nm == "process"
        if called and not isproc:
            continue            # helpers are followed from the processing functions
        rep.count("processing functions")
        cl = Period(prog, T, rep, rel, f)
        cl.fields, cl.mutexes, cl.counter, cl.period = fields, mutexes, counter, period
        cl.has_channels = isproc
        if isproc:
            cp = [p[0] for p in f.params if "*" in p[2] and p[2].startswith("const ")]
            pp = [p[0] for p in f.params if "*" in p[2] and not p[2].startswith("const ")]
            if len(cp) != 1 or len(pp) != 1:
                raise Broken("parameters of %s not recognised: %s" % (f.id, f.params))
            ints = [p for p in f.params if "*" not in p[2]]
            dbl = [p for p in f.params if p[2].count("*") == 2]
            if dbl and len(ints) == 2:
                cl.params = {"capture": (cp[0], None, ints[0][0]), "playback": (pp[0], None, ints[1][0])}
            elif not dbl and len(ints) == 4:
                cl.params = {"capture": (cp[0], ints[0][0], ints[1][0]), "playback": (pp[0], ints[2][0], ints[3][0])}
            else:
                raise Broken("parameters of %s not recognised" % f.id)
        eng = Engine(prog, cl)
        res = eng.run(f, frozenset())
        rep.count("paths explored", eng.steps)
        rets = 0
        for kind, st, v, rn in res:
            rep.count("exit states")
            c = dict(st.c)
            n = f.nodes.get(rn) if rn is not None else None
            fr = Frame(f, "this", {})
            if kind != "ret":
                continue
            rets += 1
            if c.get("failed"):
                if v is not False:
                    cl.viol("error-swallowed", fr, n, "a failure of a component (%s) does not reach the caller" % c.get("failn"))
                continue
            if v is False:
                continue
            if c.get("done", 0) != 1:
                cl.viol("schedule-incomplete", fr, n, "the schedule is %s on a path that completes normally" %
                        ("not executed completely" if not c.get("done") else "executed more than once"))
            if c.get("adv", 0) != 1:
                cl.viol("time", fr, n, "the time is advanced %s per completed period" % ("not" if not c.get("adv") else "more than once"))
            if isproc:
                for w in ("capture", "playback"):
                    if not c.get("d" + w):
                        cl.viol("channels-incomplete", fr, n, "the %s channels are not all transferred on a path that completes normally" % w)
        if not rets:
            cl.viol("never-completes", Frame(f, "this", {}), None, "no path completes normally")
        rep.sample("%s: %d exit states" % (f.id, len(res)))
    rep.need("processing functions", 2)
    rep.need("component invocations evaluated", 2)
    rep.need("channel copies evaluated", 4)
    rep.need("time queries", 2)


def check_adapter(rep, prog, T, f):
    """The C-style callback passes its arguments on unchanged."""
    rep.count("callback adapters")
    fr = Frame(f, "this", {})
    calls = [n for n in f.body.walk() if n.k == "CXXMemberCallExpr" and any(g.cls == FLOW and short(g.name) == "process" for g in prog.callees(n))]
    if not calls:
        rep.violation("adapter", f.name, f.line, "the callback does not run the signal flow", "adapter|" + f.name, f.file)
    for n in calls:
        a = [T.term(fr, x) for x in call_args(n)][:2]
        want = [("a", p[0]) for p in f.params if p[2].count("*") == 2]
        if a != want:
            rep.violation("adapter", f.name, n.l, "the callback passes %s instead of its own buffers" % [show(x) for x in a], "adapter|" + f.name, f.file)


class Chunks(Period):
    """Transfers between the caller's buffers and the intermediate buffers of the block size adapter."""

    def relevant(self, fn):
        return fn.file == self.root.file

    def branch(self, eng, fr, st, n, taken):
        loop = cond_loop(n)
        if loop is not None:
            d = domain(self.T, fr, loop)
            if d is not None and d.gap and d.kind == "index" and "Channels" in repr(d.what):
                self.viol("channels-incomplete", fr, loop, "the loop over the channels %s" % d.gap)
        return st

    after = Client.after
    dtor = Client.dtor
    leave = Client.leave

    def call(self, eng, fr, st, n, callees):
        cc = copy_call(n)
        if cc is None or any(f.blocks and f.file == self.root.file for f in callees):
            return None
        T = self.T
        for ext, es, what in ((cc[0], cc[2], "capture"), (cc[1], cc[3], "playback")):
            ptr, chs, smp = self.params[what]
            P = ("a", ptr)
            te = T.term(fr, ext)
            if P not in list(subterms(te)):
                continue
            self.rep.count("chunk transfers evaluated")
            st = self.s(st, **{"d" + what: True})
            parts = list(summands(te))
            est = T.term(fr, es) if es is not None else ("c", "1")
            S = ("a", smp) if smp is not None else ("c", "1")
            ch = [x for x in parts if chs is not None and x[0] == "op" and x[1] == "*" and ("a", chs) in x[2:]] if chs is not None else \
                [x for x in parts if x[0] == "idx" and x[1] == P]
            if chs is None and P in parts:
                # pointer table: base and index were split
                parts = list(summands(te))
            if chs is not None:
                rest = [x for x in parts if x != P and x not in ch]
            else:
                rest = [x for x in parts if x not in ch and x != P]
                if not ch and P in parts:
                    rest = [x for x in rest if x[0] != "l"][1:] or [x for x in rest if x[0] == "l"][1:]
            if chs is not None and len(ch) != 1:
                self.viol("wrong-channel", fr, n, "the %s channels are not addressed with the caller's channel stride (%s)" % (what, show(te)))
            for x in rest:
                if S == ("c", "1"):
                    ok = x[0] in ("l",)
                else:
                    ok = x[0] == "op" and x[1] == "*" and S in x[2:]
                if not ok:
                    self.viol("wrong-stride", fr, n, "the position %s inside a %s channel does not advance with the caller's sample stride" % (show(x), what))
            if not rest and smp is not None:
                self.viol("wrong-stride", fr, n, "every part of a period is exchanged with the start of the caller's %s buffer" % what)
            if est != S and not (est == ("c", "1") and (S == ("c", "1") or self.g(st, "one%d" % smp))):
                # the unit-stride variant of the copy is selected when both strides are one
                if not self.unit(fr, n, est, S):
                    self.viol("wrong-stride", fr, n, "a %s channel is accessed with stride %s instead of the caller's stride" % (what, show(est)))
        return [(st, None)]

    def unit(self, fr, n, est, S):
        """The copy is the unit-stride alternative of a conditional on the strides."""
        if est != ("c", "1"):
            return False
        p = n
        while p is not None:
            c = None
            if p.p is not None and p.p.k == "ConditionalOperator" and p is p.p.c[1]:
                c = p.p.c[0]
            if p.p is not None and p.p.k == "IfStmt" and p is not p.p.c[0]:
                c = p.p.c[0]
            if c is not None:
                t = self.T.term(fr, c)
                if any(x[0] == "op" and x[1] == "==" and S in x[2:] and ("c", "1") in x[2:] for x in subterms(t)):
                    return True
            p = p.p
        return False


def check_chunks(rep, prog, T):
    W = "visr::rrl::FlexibleBufferWrapper"
    fs = [f for f in prog.by_name.get(W + "::process", ()) if f.blocks]
    if len(fs) < 2:
        raise Broken("processing functions of the block size adapter not found")
    for f in sorted(fs, key=lambda x: x.id):
        rep.count("chunked processing functions")
        cl = Chunks(prog, T, rep, set(), f)
        cp = [p[0] for p in f.params if "*" in p[2] and p[2].startswith("const ")]
        pp = [p[0] for p in f.params if "*" in p[2] and not p[2].startswith("const ")]
        ints = [p for p in f.params if "*" not in p[2]]
        dbl = [p for p in f.params if p[2].count("*") == 2]
        if len(cp) != 1 or len(pp) != 1:
            raise Broken("parameters of %s not recognised" % f.id)
        if dbl:
            cl.params = {"capture": (cp[0], None, None), "playback": (pp[0], None, None)}
        elif len(ints) >= 4:
            cl.params = {"capture": (cp[0], ints[0][0], ints[1][0]), "playback": (pp[0], ints[2][0], ints[3][0])}
        else:
            raise Broken("parameters of %s not recognised" % f.id)
        Engine(prog, cl).run(f, frozenset())
    rep.need("chunk transfers evaluated", 4)


# ---------------------------------------------------------------------------------------------- execution order
ADDERS = ("insert", "emplace", "push_back", "emplace_back", "push_front", "add")


class Graph(Client):
    """Dependencies recorded per component while iterating over the connection maps."""
    exceptional_exits = True

    def __init__(self, prog, T, rep, rel, root, maps):
        self.prog, self.T, self.rep, self.rel, self.root = prog, T, rep, rel, root
        self.maps = maps            # param did -> (what, sender field, receiver field)
        self.doms = {}
        self.sets = set()

    def relevant(self, fn):
        return fn.file.startswith("src/librrl/scheduling_graph") and fn.id in self.rel

    def g(self, st, k, d=None):
        return dict(st.c).get(k, d)

    s = Period.s

    def viol(self, rule, fr, n, what):
        self.rep.violation(rule, self.root.name, n.l, "%s: %s" % (fr.fn.loc(n), what), "%s|%s" % (rule, self.root.name), fr.fn.file)

    def dom(self, fr, loop):
        k = (fr.fn.id, fr.chain, loop.i)
        if k not in self.doms:
            self.doms[k] = domain(self.T, fr, loop)
        return self.doms[k]

    def conn_of(self, t):
        """(map did, end) when the term refers to an end of a connection being iterated over."""
        for x in subterms(t):
            if x[0] == "f" and x[2] in ("first", "second") and x[1][0] == "elem" and x[1][1][0] == "a" and x[1][1][1] in self.maps:
                what, snd, rcv = self.maps[x[1][1][1]]
                return x[1][1][1], "sender" if x[2] == snd else "receiver"
        return None

    def vertex_elem(self, t):
        return any(x[0] == "elem" and x[1][0] == "f" and "ookup" in x[1][2] for x in subterms(t))

    def set_elem(self, t):
        for x in subterms(t):
            if x[0] == "elem" and x[1][0] == "l" and x[1][1] in self.sets:
                return x[1][1]
        return None

    def branch(self, eng, fr, st, n, taken):
        loop = cond_loop(n)
        if loop is not None and (loop.k == "CXXForRangeStmt" or loop.k != "CXXForRangeStmt"):
            d = self.dom(fr, loop)
            if d is not None and d.kind == "elems":
                return self.loop_event(fr, st, loop, d, taken)
        t = self.T.term(fr, n)
        while t[0] == "u" and t[1] == "!":
            t, taken = t[2], not taken
        if t[0] == "op" and t[1] in ("==", "!="):
            eq = taken == (t[1] == "==")
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                c = self.conn_of(a)
                if c is not None and c[1] == "receiver" and self.conn_of(b) is None:
                    st = self.s(st, rm=eq)
                if "Source" in repr(b) and not eq is False:
                    st = self.s(st, issource=True)
        c = self.conn_of(t)
        if c is not None and c[1] == "sender" and "omposite" in repr(t):
            st = self.s(st, comp=taken)
        if t[0] == "call" and t[1] == "empty" and len(t) == 3 and t[2][0] == "l" and t[2][1] in self.sets and taken:
            st = self.s(st, sempty=True)
        return st

    def end_conn(self, fr, st, loop, d):
        what = self.maps[d.what[1]][0]
        if self.g(st, "in") and self.g(st, "rm") is not False and self.g(st, "comp") is not True and not self.g(st, "ins"):
            self.viol("dependency-missed", fr, loop, "a %s connection into a component can be passed over without recording its sender as predecessor" % what)
        return self.s(st, **{"in": None, "rm": None, "comp": None, "ins": None})

    def loop_event(self, fr, st, loop, d, taken):
        if d.what[0] == "a" and d.what[1] in self.maps:
            st = self.end_conn(fr, st, loop, d)
            what = self.maps[d.what[1]][0]
            if taken:
                if d.gap:
                    self.viol("dependency-missed", fr, loop, "the loop over the %s connections %s" % (what, d.gap))
                return self.s(st, **{"in": True})
            return self.s(st, **{"did" + what: True})
        if d.what[0] == "f" and "ookup" in d.what[2]:
            if self.g(st, "atom") and not self.g(st, "issource"):
                for what in ("audio", "parameter"):
                    if not self.g(st, "did" + what):
                        self.viol("dependency-missed", fr, loop, "the %s connections are not examined for every component" % what)
                if not self.g(st, "edges") and not self.g(st, "sempty"):
                    self.viol("dependency-missed", fr, loop, "the predecessors of a component are not entered into the dependency graph")
            st = self.s(st, didaudio=None, didparameter=None, edges=None, sempty=None, issource=None, atom=True if taken else None)
            if taken and d.gap:
                self.viol("dependency-missed", fr, loop, "the loop over the components %s" % d.gap)
            return st
        if d.what[0] == "l" and d.what[1] in self.sets:
            if self.g(st, "pred") and not self.g(st, "edge"):
                self.viol("dependency-missed", fr, loop, "a predecessor can be passed over without adding a dependency")
            if taken and d.gap:
                self.viol("dependency-missed", fr, loop, "the loop over the predecessors %s" % d.gap)
            return self.s(st, pred=True if taken else None, edge=None, edges=None if taken else True)
        return st

    def call(self, eng, fr, st, n, callees):
        s = short(n.x.get("cn") or "")
        if n.k == "CXXMemberCallExpr" and s in ADDERS and (n.x.get("cn") or "").startswith("std::"):
            a = call_args(n)
            t = self.T.term(fr, a[-1]) if a else ("?",)
            c = self.conn_of(t)
            if c is not None:
                tgt = self.T.term(fr, call_base(n))
                self.rep.count("recorded connection ends")
                if self.g(st, "rm") is True and self.g(st, "in"):
                    if c[1] == "sender" and tgt[0] == "l":
                        self.sets.add(tgt[1])
                        return [(self.s(st, ins=True), None)]
                return [(st, None)]
        if s == "add_edge":
            a = call_args(n)
            self.rep.count("dependency edges")
            u, v = self.T.term(fr, a[0]), self.T.term(fr, a[1])
            if self.set_elem(v) is not None and self.vertex_elem(u):
                self.viol("reversed-dependency", fr, n, "the dependency edge runs from a component to its predecessor")
            if self.set_elem(u) is not None and self.vertex_elem(v):
                return [(self.s(st, edge=True), None)]
            return [(st, None)]
        return None


class Sched(Client):
    """Each processing node of the sorted graph is put into the schedule exactly once."""
    exceptional_exits = True

    def __init__(self, prog, T, rep, root):
        self.prog, self.T, self.rep, self.root = prog, T, rep, root
        self.rev = {}
        self.sorted = {}

    s = Period.s
    g = Graph.g
    viol = Graph.viol

    def relevant(self, fn):
        return fn.file.startswith("src/librrl/scheduling_graph") and "checkAcyclic" not in fn.name

    def sub(self, t):
        return any(x[0] == "l" and x[1] in self.sorted for x in subterms(t))

    def branch(self, eng, fr, st, n, taken):
        loop = cond_loop(n)
        if loop is not None:
            d = domain(self.T, fr, loop)
            if d is not None and self.sub(d.what):
                if self.g(st, "node") and self.g(st, "proc") is not False and not self.g(st, "put"):
                    self.viol("not-scheduled", fr, loop, "a processing node of the graph can be left out of the schedule")
                if d.gap:
                    self.viol("not-scheduled", fr, loop, "the loop over the sorted nodes %s" % d.gap)
                self.rev["loop"] = 1 if d.reverse else 0
                return self.s(st, node=True if taken else None, proc=None, put=None, all=True)
            return st
        t = self.T.term(fr, n)
        while t[0] == "u" and t[1] == "!":
            t, taken = t[2], not taken
        if t[0] == "op" and t[1] in ("==", "!=") and any("Processor" in repr(x) for x in t[2:]):
            return self.s(st, proc=taken == (t[1] == "=="))

        def artificial(t):
            """True if t being true means that the node is not a processing node."""
            if t[0] == "op" and t[1] == "||":
                return artificial(t[2]) and artificial(t[3])
            if t[0] == "op" and t[1] == "&&":
                return artificial(t[2]) or artificial(t[3])
            return t[0] == "op" and t[1] == "==" and any("Source" in repr(x) or "Sink" in repr(x) for x in t[2:] if x[0] == "g")
        if taken and artificial(t):
            return self.s(st, proc=False)
        return st

    def call(self, eng, fr, st, n, callees):
        cn = n.x.get("cn") or ""
        s = short(cn)
        if s == "topological_sort":
            for a in call_args(n):
                t = self.T.term(fr, a)
                r = repr(t)
                l = [x for x in subterms(t) if x[0] == "l"]
                if "back_inserter" in r or "front_inserter" in r or "rbegin" in r or "'begin'" in r:
                    for x in l:
                        self.sorted[x[1]] = True
                    self.rev["sort"] = 1 if "front_inserter" in r or "rbegin" in r else 0
            self.rep.count("sorts")
            return [(st, None)]
        if s == "reverse" and cn.startswith("std::"):
            self.rev["reverse%d" % n.i] = 1
            return [(st, None)]
        if n.k == "CXXMemberCallExpr" and s in ADDERS and cn.startswith("std::"):
            t = self.T.term(fr, call_args(n)[-1])
            if self.sub(t) or "component" in repr(t):
                if self.g(st, "put"):
                    self.viol("scheduled-twice", fr, n, "a component can be put into the schedule twice")
                self.rep.count("schedule insertions")
                front = s == "push_front" or s in ("insert", "emplace") and any("begin" in repr(self.T.term(fr, a)) for a in call_args(n)[:-1])
                self.rev["add"] = 1 if front else 0
                return [(self.s(st, put=True), None)]
        return None


class Collect(Client):
    """All atomic components of a (nested) component are collected."""
    exceptional_exits = True

    def __init__(self, prog, T, rep, root):
        self.prog, self.T, self.rep, self.root = prog, T, rep, root

    s = Period.s
    g = Graph.g
    viol = Graph.viol

    def relevant(self, fn):
        return fn.lambda_ is True

    def branch(self, eng, fr, st, n, taken):
        loop = cond_loop(n)
        if loop is not None:
            d = domain(self.T, fr, loop)
            if d is not None:
                if self.g(st, "it") and not self.g(st, "sub"):
                    self.viol("component-lost", fr, loop, "a contained component can be left out of the schedule")
                if d.gap:
                    self.viol("component-lost", fr, loop, "the loop over the contained components %s" % d.gap)
                return self.s(st, it=True if taken else None, sub=None, all=True)
            return st
        t = self.T.term(fr, n)
        while t[0] == "u" and t[1] == "!":
            t, taken = t[2], not taken
        if "omposite" in repr(t) and t[0] == "call":
            return self.s(st, comp=taken)
        return st

    def call(self, eng, fr, st, n, callees):
        s = short(n.x.get("cn") or "")
        if self.root in callees:
            t = self.T.term(fr, call_args(n)[0])
            return [(self.s(st, rec=any(x[0] == "elem" for x in subterms(t))), None)]
        if n.k == "CXXMemberCallExpr" and s in ADDERS and (n.x.get("cn") or "").startswith("std::"):
            r = repr([self.T.term(fr, a) for a in call_args(n)])
            if self.g(st, "it"):
                if self.g(st, "rec") and "begin" in r and "end" in r:
                    return [(self.s(st, sub=True, rec=None), None)]
            else:
                return [(self.s(st, own=True), None)]
        if s in ("copy", "move", "transform") and len(call_args(n)) >= 3 and self.g(st, "it") and self.g(st, "rec"):
            return [(self.s(st, sub=True, rec=None), None)]
        return None


def check_order(rep, prog, T):
    ini = [f for f in prog.funcs.values() if f.cls == GRAPH and f.blocks and
           any("AudioConnectionMap" in p[2] for p in f.params) and any("ParameterConnectionMap" in p[2] for p in f.params)]
    if len(ini) != 1:
        raise Broken("construction of the dependency graph not found")
    f = ini[0]
    maps = {}
    for did, nm, ty in f.params:
        if "AudioConnectionMap" in ty:
            maps[did] = ("audio", "first", "second")
        elif "ParameterConnectionMap" in ty:
            maps[did] = ("parameter", "second", "first")
    rel = reaching(prog, lambda n: is_call(n) and short(n.x.get("cn") or "") in ("add_edge",) + ADDERS)
    for i in range(2):      # the accumulating sets are learned in the first round
        r2 = rep if i else Report(rep.prop)
        cl = Graph(prog, T, r2, rel, f, maps)
        if i:
            cl.sets = sets
        eng = Engine(prog, cl)
        res = eng.run(f, frozenset())
        sets = cl.sets
    rep.count("paths explored", eng.steps)
    if not sets and not rep.viol:
        raise Broken("no set of predecessors found in %s" % f.name)
    rep.need("recorded connection ends", 2)
    rep.need("dependency edges", 1)
    for kind, st, v, rn in res:
        pass
    # sequence
    seq = [g for g in prog.funcs.values() if g.cls == GRAPH and g.blocks and not g.lambda_ and
           any(is_call(n) and short(n.x.get("cn") or "") == "topological_sort" for n in g.body.walk())]
    if len(seq) != 1:
        raise Broken("topological sorting of the dependency graph not found")
    cl = Sched(prog, T, rep, seq[0])
    eng = Engine(prog, cl)
    done = False
    for kind, st, v, rn in eng.run(seq[0], frozenset()):
        if kind == "ret" and not dict(st.c).get("all"):
            cl.viol("not-scheduled", Frame(seq[0], "this", {}), seq[0].body, "the schedule is returned without having visited the sorted nodes")
    rep.need("schedule insertions", 1)
    parity = sum(cl.rev.values())
    # use of the schedule
    uses = 0
    for g in prog.funcs.values():
        if g.cls != FLOW or g.body is None:
            continue
        fr = Frame(g, "this", {})
        for n in g.body.walk():
            tgt = src = None
            if n.k == "CXXMemberCallExpr" and short(n.x.get("cn") or "") in ("assign", "insert", "swap"):
                tgt, src = T.term(fr, call_base(n)), [T.term(fr, a) for a in call_args(n)]
            elif n.k == "CXXOperatorCallExpr" and n.x.get("op") == "=":
                tgt, src = T.term(fr, n.c[1]), [T.term(fr, n.c[2])]
            elif is_call(n) and short(n.x.get("cn") or "") in ("copy", "reverse_copy", "copy_n", "move", "transform"):
                src = [T.term(fr, a) for a in call_args(n)]
                tgt = src[-1]
            if tgt is None or src is None or "mProcessingSchedule" not in repr(tgt):
                continue
            r = repr(src)
            if "sequentialSchedule" not in r and short(seq[0].name) not in r:
                continue
            uses += 1
            p2 = parity + (1 if "rbegin" in r or "reverse" in short(n.x.get("cn") or "") else 0)
            if p2 % 2 != 1:
                rep.violation("reversed-order", g.name, n.l, "the components are executed in reverse order of their dependencies",
                              "reversed-order|" + g.name, g.file)
            bad = [t for t in src if t[0] == "op" and t[1] in ("+", "-")]
            if bad:
                rep.violation("not-scheduled", g.name, n.l, "only a part of the sorted schedule is used", "not-scheduled|" + g.name, g.file)
    rep.count("schedule uses", uses)
    if not uses:
        raise Broken("the sorted schedule is not used by the signal flow in a recognised way")
    # collection of the atomic components
    col = []
    for n in f.body.walk():
        if is_call(n):
            for g in prog.callees(n):
                if any(is_call(m) and g in prog.callees(m) for m in (g.body.walk() if g.body else ())):
                    col.append(g)
    for g in sorted(set(col), key=lambda x: x.id):
        rep.count("collecting functions")
        cl = Collect(prog, T, rep, g)
        for kind, st, v, rn in Engine(prog, cl).run(g, frozenset()):
            c = dict(st.c)
            if kind == "ret" and not c.get("own") and c.get("comp") is False:
                cl.viol("component-lost", Frame(g, "this", {}), g.body, "an atomic component is not collected")
            if kind == "ret" and not c.get("all") and c.get("comp") is True:
                cl.viol("component-lost", Frame(g, "this", {}), g.body, "the components contained in a composite component are not collected")


def check(rep):
    prog = program(LIBS)
    T = Terms(prog)
    check_execution(rep, prog, T)
    check_chunks(rep, prog, T)
    check_order(rep, prog, T)
