"""Connected channels share one buffer: the offset of a receive channel in the pool is the offset of the send channel connected to it."""
import re
from .common import *
from vsa.sim import Frame
from vsa.model import is_call, call_base, call_args, short
from vsa.term import Terms, assigned, decls, subterms, show
from vsa.loops import domain, size_of, within

LIBS = ["librrl", "libvisr"]
CH = "visr::rrl::AudioChannel"
PORT = "visr::impl::AudioPortBaseImplementation"
TABLE = re.compile(r"^(const )?std::(map|unordered_map)<(const )?visr::impl::AudioPortBaseImplementation \*( const)?, unsigned long")
LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")
SAMPLE = {"floatId": "float", "doubleId": "double", "longDoubleId": "long double", "uint8Id": "unsigned char", "int8Id": "signed char",
          "uint16Id": "unsigned short", "int16Id": "short", "uint32Id": "unsigned int", "int32Id": "int", "uint64Id": "unsigned long",
          "int64Id": "long"}


def preorder(fn):
    r = getattr(fn, "_preo", None)
    if r is None:
        r = {}
        if fn.body is not None:
            for k, n in enumerate(fn.body.walk()):
                r[id(n)] = k
        fn._preo = r
    return r


def in_for_header(n):
    while n.p is not None and n.p.k in ("BinaryOperator", "ExprWithCleanups", "ParenExpr") and n.p.x.get("op", ",") == ",":
        n = n.p
    return n.p is not None and n.p.k == "ForStmt"


def updates(fn, did):
    return sorted((a for a in assigned(fn).get(did, ())), key=lambda a: preorder(fn).get(id(a), 0))


class VT(Terms):
    """Terms in which a running counter carries the number of its updates that precede the read."""

    def __init__(self, prog):
        Terms.__init__(self, prog, opaque=lambda f: f.cls == CH)

    def term(self, fr, n, d=0):
        if n is not None and n.k == "StringLiteral":
            return ("c", "'%s'" % n.x.get("s"))
        return Terms.term(self, fr, n, d)

    def var(self, fr, n, d):
        t = Terms.var(self, fr, n, d)
        if t[0] == "l" and len(t) == 2 and t[1] == n.x.get("did"):
            fn = n.fn
            if fn is not None and not fn.lambda_:
                ups = updates(fn, t[1])
                if ups and not any(in_for_header(a) for a in ups):
                    pos = preorder(fn).get(id(n))
                    if pos is not None:
                        return ("l", t[1], len([a for a in ups if preorder(fn)[id(a)] < pos]))
        return t

    def mutated(self, fn, did):
        v = decls(fn).get(did)
        if v is not None and re.search(r"\*\s*(const)?$", v.t.rstrip()):
            # handed out only as a key (T *const &)
            for n in fn.body.walk():
                if is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    args = call_args(n)
                    if n.k == "CXXOperatorCallExpr" and n.x.get("cc"):
                        args = args[1:]
                    for t, a in zip(n.x.get("pt") or (), args):
                        if a.k == "DeclRefExpr" and a.x.get("did") == did and t.endswith("&") and not t.endswith("&&") and "*const &" not in t \
                                and not t.startswith("const "):
                            return True
            return False
        return Terms.mutated(self, fn, did)


def plain(t):
    """Term without versions."""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "l":
            return t[:2]
        return tuple(plain(x) for x in t)
    return t


def canon(t, tables=()):
    """OFF(port) for reads of an offset table; port/channel of a channel."""
    if not isinstance(t, tuple):
        return t
    t = tuple(canon(x, tables) for x in t)
    if len(t) == 3 and t[0] == "f" and t[2] == "second" and isinstance(t[1], tuple):
        x = t[1]
        if len(x) == 4 and x[:2] == ("call", "find"):
            return ("OFF", plain(x[3]))
        if x[:2] == ("call", "find_if") or x[0] == "elem" and plain(x[1]) in tables:
            return ("OFF", ("f", plain(x), "first"))
    if len(t) == 3 and t[0] == "idx" and plain(t[1]) in tables:
        return ("OFF", plain(t[2]))
    if len(t) == 3 and t[0] == "call" and t[1] in ("port", "channel"):
        return (t[1].upper(), plain(t[2]))
    return t


def lin(t, out=None, k=1):
    """{atom: coefficient}; the constant under ()."""
    if out is None:
        out = {}
    if t[0] == "c" and re.match(r"^-?\d+$", str(t[1])):
        out[()] = out.get((), 0) + k * int(t[1])
    elif t[0] == "op" and t[1] in ("+", "-"):
        lin(t[2], out, k)
        lin(t[3], out, k if t[1] == "+" else -k)
    elif t[0] == "u" and t[1] == "-":
        lin(t[2], out, -k)
    elif t[0] == "op" and t[1] == "*" and t[2][0] == "c" and re.match(r"^-?\d+$", str(t[2][1])):
        lin(t[3], out, k * int(t[2][1]))
    elif t[0] == "op" and t[1] == "*" and t[3][0] == "c" and re.match(r"^-?\d+$", str(t[3][1])):
        lin(t[2], out, k * int(t[3][1]))
    else:
        if t[0] == "op" and t[1] == "*":
            t = ("prod",) + tuple(sorted(factors(t), key=repr))
        out[t] = out.get(t, 0) + k
    for a in [a for a in out if out[a] == 0]:
        del out[a]
    return out


def factors(t):
    if t[0] == "op" and t[1] == "*":
        return factors(t[2]) + factors(t[3])
    return [t]


def minus(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) - v
        if out[k] == 0:
            del out[k]
    return out


def text(l):
    s = []
    for a, k in sorted(l.items(), key=repr):
        if a == ():
            s.append(str(k))
        else:
            s.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + nice(a))
    return " + ".join(s) or "0"


def nice(a):
    if a[0] == "OFF":
        return "offset of its port"
    if a[0] == "CHANNEL":
        return "channel index"
    if a[0] == "f" and a[2] == "mWidth":
        return "width"
    if a[0] == "l":
        return "local"
    if a[0] == "call":
        return a[1] + "(...)"
    return show(a)[:40]


def known(l):
    """Every atom is one whose meaning is understood."""
    for a in l:
        if a == ():
            continue
        if a[0] in ("OFF", "CHANNEL", "l", "a"):
            continue
        if a[0] == "f" and a[2] == "mWidth":
            continue
        if a[0] == "call" and a[1] in ("min_element", "max_element", "size"):
            continue
        if a[0] == "idx" and a[1][0] == "l":
            continue
        return False
    return True


def loop_of(n, fn):
    p = n.p
    while p is not None:
        if p.k in LOOPS:
            return p
        p = p.p
    return None


def ifs_of(n, stop=None):
    """[(if node, branch index)] around n, innermost first."""
    out = []
    c, p = n, n.p
    while p is not None and p is not stop:
        if p.k == "IfStmt":
            pos = [i for i, x in enumerate(p.c) if x is c]
            out.append((p, c))
        c, p = p, p.p
    return out


def pair_args(T, fr, n):
    """(key term, value term) nodes of insert/emplace/[]= of a map."""
    a = call_args(n)
    if len(a) == 1:
        x = a[0]
        while x.k in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ImplicitCastExpr", "CXXFunctionalCastExpr") or \
                x.k == "CXXConstructExpr" and len(x.c) == 1:
            if len(x.c) != 1:
                return None
            x = x.c[0]
        if x.k in ("CallExpr",) and short(x.x.get("cn") or "") == "make_pair" and len(x.c) == 3:
            return x.c[1], x.c[2]
        if x.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr") and len(x.c) == 2:
            return x.c[0], x.c[1]
    if len(a) == 2 and short(n.x.get("cn") or "") in ("emplace", "try_emplace", "insert_or_assign"):
        return a[0], a[1]
    return None


class Fn(object):
    """Stores to offset tables, connections and buffer assignments of one function with its lambdas."""

    def __init__(self, prog, T, fn):
        self.prog, self.T, self.fn = prog, T, fn
        self.fr = Frame(fn, "this", {})
        self.entries = []       # (table, port, offset lin, node, raw offset term)
        self.conns = []         # (P, i, Q, j, node)
        self.configs = []       # (receiver, base, stride, node, frame)
        self.stores = []        # (container, index term, value term, node)
        self.shifts = []        # (container, amount term, node)
        self.calls = []
        self.tables = set()
        self.visit(fn, self.fr, None)

    def visit(self, fn, fr, over):
        T = self.T
        for n in fn.body.walk():
            if n.k == "LambdaExpr" and n.x.get("lambda") in self.prog.funcs:
                lf = self.prog.funcs[n.x["lambda"]]
                if lf.body is not None:
                    ov = None
                    p = n.p
                    while p is not None and p.k in ("ImplicitCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXConstructExpr", "CXXBindTemporaryExpr"):
                        p = p.p
                    if p is not None and p.k == "CallExpr" and short(p.x.get("cn") or "") == "for_each":
                        a = call_args(p)
                        t = T.term(fr, a[0])
                        if t[:2] in (("call", "begin"), ("call", "cbegin")):
                            ov = plain(t[2])
                    self.visit(lf, Frame(lf, None, {}, fr), ov)
                continue
            if is_call(n):
                s = short(n.x.get("cn") or "")
                b = call_base(n)
                if b is not None and TABLE.search(b.t or ""):
                    self.tables.add(plain(T.term(fr, b)))
                if s in ("insert", "emplace", "try_emplace", "insert_or_assign") and b is not None and TABLE.search(b.t or ""):
                    kv = pair_args(T, fr, n)
                    if kv is not None:
                        self.entries.append((plain(T.term(fr, b)), plain(T.term(fr, kv[0])), T.term(fr, kv[1]), n))
                if s in ("insert", "emplace") and b is not None and (b.t or "").rstrip(" &").endswith("AudioConnectionMap") or \
                        s == "insert" and n.k == "CXXMemberCallExpr" and (n.x.get("cc") or "").endswith("rrl::AudioConnectionMap"):
                    a = call_args(n)
                    if len(a) == 1:
                        kv = pair_args(T, fr, n)
                        a = list(kv) if kv is not None else a
                    if len(a) == 2:
                        t = [T.term(fr, x) for x in a]
                        self.calls.append((t[0], t[1], n, a))
                        if all(x[0] == "new" and x[1] == CH and len(x) == 4 for x in t):
                            self.conns.append((plain(t[0][2]), t[0][3], plain(t[1][2]), t[1][3], n))
                if s == "setBufferConfig" and n.k == "CXXMemberCallExpr":
                    a = call_args(n)
                    self.configs.append((T.term(fr, b), T.term(fr, a[0]), T.term(fr, a[1]), n))
                if s == "push_back" and b is not None and (b.t or "").startswith("std::vector<unsigned long"):
                    self.stores.append((plain(T.term(fr, b)), None, T.term(fr, call_args(n)[0]), n))
            if n.k in ("BinaryOperator", "CXXOperatorCallExpr") and n.x.get("op") == "=":
                l, r = (n.c[0], n.c[1]) if n.k == "BinaryOperator" else (n.c[1], n.c[2])
                lt = T.term(fr, l)
                if l.k == "CXXOperatorCallExpr" and l.x.get("op") == "[]" and TABLE.search(l.c[1].t or ""):
                    self.entries.append((plain(lt[1]), plain(lt[2]), T.term(fr, r), n))
                elif lt[0] == "idx":
                    self.stores.append((plain(lt[1]), plain(lt[2]), T.term(fr, r), n))
            if n.k == "CompoundAssignOperator" and n.x["op"] in ("-=", "+="):
                lt = T.term(fr, n.c[0])
                am = T.term(fr, n.c[1])
                if n.x["op"] == "+=":
                    am = ("u", "-", am)
                if lt[0] == "idx":
                    self.shifts.append((plain(lt[1]), am, n))
                elif n.c[0].k == "DeclRefExpr" and over is not None and any(p[0] == n.c[0].x.get("did") and p[2].endswith("&") for p in fn.params):
                    self.shifts.append((over, am, n))
                elif n.c[0].k == "DeclRefExpr":
                    lp = loop_of(n, fn)
                    if lp is not None and lp.k == "CXXForRangeStmt":
                        dm = domain(T, fr, lp)
                        if dm is not None and dm.var == n.c[0].x.get("did"):
                            self.shifts.append((plain(dm.what), am, n))

    def lin(self, t):
        return lin(canon(t, self.tables))


def check_tables(rep, prog, T, u):
    fn = u.fn
    fname = fn.name
    R = "one-buffer-per-connection"
    order = preorder(fn)

    def bad(rule, n, what, key):
        rep.violation(rule, fname, n.l, what, "%s|%s|%s" % (rule, short(fname), key), fn.file)

    # the channel index goes with the offset of the same channel's port
    seen = [(e[2], e[3]) for e in u.entries] + [(s[2], s[3]) for s in u.stores]
    for t, n in seen:
        l = u.lin(t)
        offs = [a for a in l if a and a[0] == "OFF" and a[1][0] == "PORT"]
        chs = [a for a in l if a and a[0] == "CHANNEL"]
        if offs and known(l):
            rep.count("buffer places")
            if len(offs) == 1 and not chs:
                bad(R, n, "the place of a channel is computed from the offset of its port without its channel index", "channel-omitted")
            elif len(offs) == 1 and len(chs) == 1 and offs[0][1][1] != chs[0][1]:
                bad(R, n, "the offset of the port of one channel is combined with the index of another channel", "channel-mixed")
            elif len(offs) == 1 and len(chs) == 1 and (l[offs[0]] != 1 or l[chs[0]] != 1):
                bad(R, n, "the place of a channel is not offset of its port plus channel index: %s" % text(l), "channel-sum")
    # running counter: advanced by the width of the port that was given its value
    widths = {}
    for P, i, Q, j, n in u.conns:
        if plain(i) == plain(j):
            widths.setdefault(P, set()).add(Q)
            widths.setdefault(Q, set()).add(P)
    taken = {}
    for tab, P, off, n in u.entries:
        o = canon(off, u.tables)
        if o[0] != "l" or len(o) != 3 or n.fn is not fn:
            continue
        did, ver = o[1], o[2]
        ups = updates(fn, did)
        if not ups:
            continue
        if any(a.k == "BinaryOperator" and ("l", did) not in u.lin(plain(T.term(u.fr, a.c[1]))) for a in ups):
            continue
        rep.count("ranges of the pool handed out")
        lp = loop_of(n, fn)
        up = ups[ver] if ver < len(ups) else None
        if up is None or lp is not None and not within(up, lp):
            bad("disjoint-ranges", n, "the counter of occupied channels is not advanced after a port was given the range it denotes", "not-advanced")
            continue
        mine = [x for x, _b in ifs_of(n, lp)]
        other = [x for x, _b in ifs_of(up, lp) if x not in mine]
        if other and not all("mWidth" in repr(T.term(u.fr, x.c[0])) for x in other):
            bad("disjoint-ranges", up, "the counter of occupied channels is advanced only under a condition", "conditional")
        if up.k == "CompoundAssignOperator" and up.x["op"] == "+=":
            w = u.lin(T.term(u.fr, up.c[1]))
        elif up.k == "BinaryOperator":
            w = minus(u.lin(plain(T.term(u.fr, up.c[1]))), {("l", did): 1})
        elif up.k == "UnaryOperator":
            w = {(): 1}
        else:
            continue
        want = [{("f", x, "mWidth"): 1} for x in
                [P] + [e[1] for e in u.entries if canon(e[2], u.tables) == o] + sorted(widths.get(P, ()), key=repr)]
        if {plain(a) if a else a: k for a, k in w.items()} not in want and known(w):
            bad("disjoint-ranges", up, "the counter of occupied channels is advanced by %s, not by the width of the port that was placed" % text(w), "width")
        taken.setdefault((tab, did, ver, id(lp)), set()).add(P)
    for (tab, did, ver, _lp), ps in taken.items():
        if len(ps) > 1:
            n = [e for e in u.entries if e[1] in ps][-1][3]
            bad("disjoint-ranges", n, "two ports of one table are given the same range of channels", "same-range")
    # every inserted connection joins two channels at the same place
    for P, i, Q, j, n in u.conns:
        def offsets(p):
            if len(p) == 3 and p[0] == "f" and p[2] == "first":
                return [{("OFF", p): 1}]
            near = [e for e in u.entries if e[1] == p]
            lp = loop_of(n, fn)
            outer = loop_of(lp, fn) if lp is not None else None
            best = [e for e in near if set(id(x) for x, _ in ifs_of(e[3])) <= set(id(x) for x, _ in ifs_of(n)) and
                    all(any(y is x and c is d for y, d in ifs_of(n)) for x, c in ifs_of(e[3]))]
            return [u.lin(e[2]) for e in (best or near)]
        a, b = offsets(P), offsets(Q)
        if not a or not b:
            continue
        rep.count("connections between ports with known places")
        res = [minus(minus(dict(x), {}), {}) for x in ()]
        diffs = []
        for x in a:
            for y in b:
                diffs.append(minus(add(x, u.lin(i)), add(y, u.lin(j))))
        if any(d == {} for d in diffs):
            continue
        if all(known(d) for d in diffs):
            bad(R, n, "send and receive channel of a connection lie at different places: they differ by %s" % text(diffs[0]), "connection-differs")
    # a range of send channels is used in place only where it is contiguous, from its first channel on
    for tab, P, off, n in u.entries:
        l = u.lin(off)
        chs = [a[1] for a in l if a and a[0] == "CHANNEL"]
        if len(chs) != 1 or n.fn is not fn:
            continue
        y = chs[0]
        rep.count("ranges used in place")
        if y[0] == "idx" and y[2][0] == "c" and y[2][1] != "0" or y[0] == "call" and y[1] == "back":
            bad(R, n, "a receive port starts at the place of a send channel other than its first", "first-channel")
        lst = y[1] if y[0] == "idx" else None
        if lst is not None and lst[:2] == ("call", "sendChannels") and len(lst) > 2 and lst[2] != P:
            bad(R, n, "a receive port is placed by the send channels of another port", "other-port")
        mine = ifs_of(n)
        lp = loop_of(n, fn)
        keeps = [m for m in (lp or fn.body).walk() if is_call(m) and any(
            re.search(r"rrl::AudioConnectionMap( &)?$", x.t or "") for x in [call_base(m)] + list(call_args(m)) if x is not None)
            and short(m.x.get("cn") or "") not in ("begin", "end", "cbegin", "cend", "size", "sendChannels", "empty") and not m.x.get("mconst") and
            all(any(x is y and c is d for y, d in mine) for x, c in ifs_of(m, lp))]
        keeps = [m for m in keeps if not (m.k == "CallExpr" and short(m.x.get("cn") or "") in ("copy_if", "inserter"))]
        if not keeps:
            bad(R, n, "the connections of a port placed over its send channels are not kept", "not-kept")
        ok = None
        for iff, br in ifs_of(n):
            cond = iff.c[0] if iff.c[0].k != "DeclStmt" else iff.c[1]
            neg, c = False, cond
            while c.k in ("UnaryOperator", "ImplicitCastExpr", "ParenExpr"):
                if c.k == "UnaryOperator" and c.x["op"] == "!":
                    neg = not neg
                c = c.c[0]
            if is_call(c) and short(c.x.get("cn") or "") == "contiguousRange":
                then = [x for x in iff.c if x is not cond][0]
                pol = (br is then) != neg
                ok = pol if ok is None else ok
                if pol:
                    a0 = canon(plain(T.term(u.fr, call_args(c)[0])), u.tables)
                    if lst is not None and a0 != lst:
                        bad(R, n, "the channels tested for contiguity are not those the port is placed by", "tested-other")
        if ok is False:
            bad(R, n, "a receive port is placed over a range of send channels that is not contiguous", "polarity")
        elif ok is None and not any(is_call(m) and short(m.x.get("cn") or "") == "contiguousRange" for m in (loop_of(n, fn) or fn.body).walk()):
            bad(R, n, "a receive port is placed over a range of send channels without a test that it is contiguous", "untested")
    # index list of an inserted routing component: relative to the place of its input port
    for cont in sorted(set(s[0] for s in u.stores), key=repr):
        st = [s for s in u.stores if s[0] == cont]
        for c, ix, v, n in st:
            l = u.lin(v)
            ch = [a for a in l if a and a[0] == "CHANNEL"]
            off = [a for a in l if a and a[0] == "OFF"]
            if len(ch) != 1 or len(off) != 1:
                continue
            rep.count("index lists of inserted routings")
            y = ch[0][1]
            if ix is not None and y[0] == "idx" and y[2] != ix and known(lin(minusterm(y[2], ix))):
                bad(R, n, "entry k of the index list is computed from another send channel than the k-th", "index-list")
            rest = minus(l, {ch[0]: 1, off[0]: 1})
            for s in u.shifts:
                if s[0] == cont:
                    rest = minus(rest, u.lin(s[1]))
            for c2, ix2, v2, n2 in st:
                self_ = ("idx", cont, ix2)
                l2 = {plain(a): k for a, k in u.lin(v2).items()}
                if n2 is not n and l2.get(self_) == 1:
                    rest = add(rest, minus(l2, {self_: 1}))
            rest = {plain(a): k for a, k in rest.items()}
            ins = [{plain(a): k for a, k in u.lin(e[2]).items()} for e in u.entries if any(c2[2] == e[1] and c2[0][0] == "f" and c2[0][2] == "first" for c2 in u.conns)]
            modified = any(is_call(m) and short(m.x.get("cn") or "") == "transform" and cont in list(subterms(plain(T.term(u.fr, m)))) for m in fn.body.walk())
            if len(ins) == 1 and not modified and known(ins[0]) and known(rest):
                d = add(rest, ins[0])
                if d:
                    bad(R, n, "the indices of an inserted routing are not relative to the place of its input port (difference %s)" % text(d), "index-base")


def add(a, b):
    return minus(a, {k: -v for k, v in b.items()})


def minusterm(a, b):
    return ("op", "-", a, b)


def generic_id(t):
    """Sizes of sample types: the type they are asked for is not distinguished."""
    if isinstance(t, tuple):
        if len(t) == 3 and t[:2] == ("call", "typeSize"):
            return ("call", "typeSize", "T")
        return tuple(generic_id(x) for x in t)
    return t


def check_configs(rep, u):
    fn = u.fn
    R = "same-arithmetic"
    forms = []
    for rcv, base, stride, n in u.configs:
        if not (rcv[0] == "f" and rcv[2] == "first"):
            continue
        X = plain(rcv[1])
        rep.count("buffer assignments")
        key = ("f", X, "second")

        def find(t):
            return [f for f in lin(t) if f and key in [plain(z) for z in (f[1:] if f[0] == "prod" else (f,))]]
        l = lin(base)
        mine = find(base)
        second = [a for a in l if a and re.search(r"'second'", repr(plain(a))) and a not in mine]
        if second:
            rep.violation(R, fn.name, n.l, "the buffer of a port is computed from the offset of another entry", "%s|%s|entry" % (R, short(fn.name)), fn.file)
            continue
        if len(mine) != 1:
            if not mine and not any(a and a[0] in ("call", "a", "?") for a in l):
                rep.violation(R, fn.name, n.l, "the buffer of a port does not depend on the offset of its entry", "%s|%s|nooffset" % (R, short(fn.name)), fn.file)
            continue
        if mine[0][0] != "prod":
            rep.violation(R, fn.name, n.l, "the offset of a port is not scaled by the size of a channel", "%s|%s|unscaled" % (R, short(fn.name)), fn.file)
            continue
        scale = [z for z in mine[0][1:] if plain(z) != key]
        rest = minus(l, {mine[0]: l[mine[0]]})
        S = scale[0] if len(scale) == 1 else ("prod",) + tuple(scale) if scale else None
        forms.append((S, rest, stride, n))
        lp = loop_of(n, fn) if n.fn is fn else None
        outer = loop_of(lp, fn) if lp is not None else None
        if outer is not None:
            rep.count("buffer assignments per sample type")
            moving = [a for a in rest if a and a[0] == "l" and any(within(x, outer) and not in_for_header(x) for x in updates(fn, a[1]))]
            if not moving and not any(a and a[0] in ("?", "idx", "a") for a in rest) and not any(
                    a and a[0] == "call" and a[1] not in ("basePointer", "get") for a in rest):
                rep.violation(R, fn.name, n.l, "the ports of different sample types are placed from the same start of the pool",
                              "%s|%s|types" % (R, short(fn.name)), fn.file)
        if S is None:
            continue
        if l[mine[0]] != 1:
            rep.violation(R, fn.name, n.l, "the offset of a port is scaled by a multiple of the channel size", "%s|%s|multiple" % (R, short(fn.name)), fn.file)
        st = generic_id(plain(stride))
        if st[0] == "op" and st[1] == "/" and st[2] == generic_id(plain(S)) and st[3] == ("call", "typeSize", "T"):
            rep.count("strides consistent with the distance of the channels")
        elif st == generic_id(plain(S)):
            rep.violation(R, fn.name, n.l, "the channel stride of a port is its size in bytes, not in samples", "%s|%s|stride" % (R, short(fn.name)), fn.file)
        elif not any(x[0] in ("?", "a") for x in subterms(st) if isinstance(x, tuple) and x) and st[0] in ("op", "f", "c"):
            rep.violation(R, fn.name, n.l, "the channel stride of a port differs from the distance of its channels in the pool",
                          "%s|%s|stride" % (R, short(fn.name)), fn.file)
    for S, rest, stride, n in forms[1:]:
        S0, rest0, stride0, _n = forms[0]
        if S is None or S0 is None:
            continue
        if generic_id(S) != generic_id(S0):
            rep.violation(R, fn.name, n.l, "send and receive ports are placed with different channel sizes", "%s|%s|sizes" % (R, short(fn.name)), fn.file)
        if rest != rest0:
            rep.violation(R, fn.name, n.l, "send and receive ports are placed relative to different starts of the pool", "%s|%s|starts" % (R, short(fn.name)), fn.file)


def check_contiguous(rep, prog, T):
    """Comparison of neighbouring channels: place of the left one + 1 against place of the right one."""
    R = "contiguity"
    for f in sorted(prog.funcs.values(), key=lambda f: f.name):
        if f.body is None or f.lambda_ or not any(TABLE.search(p[2]) for p in f.params) or f.ret != "bool":
            continue
        if not any("AudioChannel" in p[2] for p in f.params):
            continue
        rep.count("contiguity tests")
        units = [(f, Frame(f, "this", {}), False)]
        for n in f.body.walk():
            if n.k == "LambdaExpr" and n.x.get("lambda") in prog.funcs and prog.funcs[n.x["lambda"]].body is not None:
                p = n.p
                while p is not None and p.k != "CallExpr":
                    p = p.p
                units.append((prog.funcs[n.x["lambda"]], Frame(prog.funcs[n.x["lambda"]], None, {}, units[0][1]),
                              p is not None and short(p.x.get("cn") or "") == "adjacent_find"))
        tables = set(("a", p[0]) for p in f.params if TABLE.search(p[2])) | set(("l", p[0]) for p in f.params if TABLE.search(p[2]))
        for g, fr, adj in units:
            for n in g.body.walk():
                if n.k != "BinaryOperator" or n.x["op"] not in ("!=", "==", "<", ">", "<=", ">="):
                    continue
                t = T.term(fr, n)
                if t[0] != "op":
                    continue
                d = minus(lin(canon(plain(t[2]), tables)), lin(canon(plain(t[3]), tables)))
                places = [a for a in d if a and a[0] in ("OFF", "CHANNEL")]
                if not places:
                    continue
                rep.count("comparisons of neighbouring channels")

                def chan(a):
                    return a[1] if a[0] == "CHANNEL" else (a[1][1] if a[1][0] == "PORT" else None)
                byc = {}
                for a in places:
                    byc.setdefault(chan(a), {})[a[0]] = d[a]
                if None in byc or any(a not in places and a != () for a in d):
                    continue

                def bad(what, key):
                    rep.violation(R, f.name, n.l, what, "%s|%s|%s" % (R, short(f.name), key), f.file)
                if t[1] in ("<", "<="):
                    if adj:
                        bad("neighbouring channels are not tested for being exactly one place apart", "relation")
                    continue
                if len(byc) != 2:
                    bad("the comparison of neighbouring channels does not involve both", "both")
                    continue
                if any(set(v) != {"OFF", "CHANNEL"} for v in byc.values()):
                    bad("neighbouring channels are compared without both the offset of the port and the channel index", "incomplete")
                    continue
                if any(v["OFF"] != v["CHANNEL"] or abs(v["OFF"]) != 1 for v in byc.values()) or sum(v["OFF"] for v in byc.values()) != 0:
                    bad("neighbouring channels are not compared by offset of the port plus channel index", "sum")
                    continue
                # left element: the first parameter, or the one at the smaller index
                left = None
                if adj and len(g.params) == 2:
                    left = ("a", g.params[0][0])
                else:
                    ix = [(c, lin(c[2])) for c in byc if c[0] == "idx"]
                    if len(ix) == 2:
                        dd = minus(ix[1][1], ix[0][1])
                        if set(dd) == {()}:
                            left = ix[0][0] if dd[()] > 0 else ix[1][0]
                if left not in byc:
                    continue
                if d.get((), 0) * byc[left]["OFF"] != 1:
                    bad("the channel following another one is not required to lie exactly one place after it", "step")
                if adj and n.x["op"] == "==" and n.p is not None and n.p.k == "ReturnStmt":
                    bad("the search for a gap looks for neighbours that are contiguous", "sense")
        # sense of the result
        for n in f.body.walk():
            if n.k == "ReturnStmt" and n.c:
                t = T.term(units[0][1], n.c[0])
                if t[0] == "op" and t[1] in ("==", "!=") and "adjacent_find" in repr(t) and ("end" in repr(t)):
                    if t[1] == "!=":
                        rep.violation(R, f.name, n.l, "channels are reported as contiguous where a gap was found", "%s|%s|result" % (R, short(f.name)), f.file)


def check_send_channels(rep, prog, T):
    """channels[connection.second.channel()] = connection.first, of the connections that end at the port asked for."""
    R = "send-channel-of-receive-channel"
    for f in sorted(prog.funcs.values(), key=lambda f: f.name):
        if f.body is None or f.lambda_ or not re.search(r"vector<visr::rrl::AudioChannel", f.ret or ""):
            continue
        rep.count("functions listing the send channels of a port")
        fr = Frame(f, "this", {})

        def bad(n, what, key):
            rep.violation(R, f.name, n.l, what, "%s|%s|%s" % (R, short(f.name), key), f.file)
        for n in f.body.walk():
            if n.k not in ("CXXOperatorCallExpr", "BinaryOperator") or n.x.get("op") != "=":
                continue
            l, r = (n.c[1], n.c[2]) if n.k == "CXXOperatorCallExpr" else (n.c[0], n.c[1])
            lt, rt = canon(plain(T.term(fr, l))), canon(plain(T.term(fr, r)))
            if lt[0] != "idx" or rt[0] != "f" or rt[2] not in ("first", "second"):
                continue
            rep.count("assignments of a send channel")
            if rt[2] == "second":
                bad(n, "a receive channel is entered as the sender", "sender")
            if lt[2][0] == "CHANNEL" and lt[2][1][0] == "f":
                if lt[2][1][2] == "first" and rt[2] == "first":
                    bad(n, "send channels are ordered by their own index, not by that of the receive channel they are connected to", "order")
                elif lt[2][1][1] != rt[1]:
                    bad(n, "sender and receive channel are taken from different connections", "mixed")
            elif known(lin(lt[2])) and lt[2][0] != "OFF":
                bad(n, "the position of a send channel is not the receive channel it is connected to", "position")
            sz = lt[1]
            if sz[0] == "new" and len(sz) > 2 and f.params and sz[2][0] == "f" and sz[2][2] == "mWidth" and sz[2][1] != ("a", f.params[0][0]):
                bad(n, "the list of send channels has not the width of the receive port", "size")
        # selection of the connections
        for n in f.body.walk():
            if n.k == "LambdaExpr" and n.x.get("lambda") in prog.funcs:
                g = prog.funcs[n.x["lambda"]]
                if g.body is None:
                    continue
                gfr = Frame(g, None, {}, fr)
                select(rep, T, gfr, g, f, bad)
        select(rep, T, fr, f, f, bad)


def select(rep, T, fr, g, f, bad):
    ports = set()
    for p in f.params:
        if "AudioPortBaseImplementation" in p[2] and "*" in p[2]:
            ports |= {("a", p[0]), ("l", p[0])}
    for n in g.body.walk():
        if n.k == "BinaryOperator" and n.x["op"] in ("==", "!="):
            t = canon(plain(T.term(fr, n)))
            sides = list(t[2:]) if t[0] == "op" else []
            if len(sides) == 2 and any(s in ports for s in sides):
                o = [s for s in sides if s not in ports]
                if o and o[0][0] == "PORT" and o[0][1][0] == "f":
                    rep.count("selections of the connections of a port")
                    if o[0][1][2] == "first":
                        bad(n, "connections are selected by their sender, not by the receive port", "selection")
                    elif n.x["op"] == "!=" and n.p is not None and n.p.k == "ReturnStmt" and g.lambda_:
                        bad(n, "the connections of all other ports are selected", "negated")


def check_maps(rep, prog, T, u):
    """Connections entered from the descriptions of a composite component, and with placeholders resolved."""
    fn = u.fn
    R = "connections-as-declared"

    def bad(n, what, key):
        rep.violation(R, fn.name, n.l, what, "%s|%s|%s" % (R, short(fn.name), key), fn.file)
    for P, i, Q, j, n in u.conns:
        if P[0] == "f" and Q[0] == "f" and P[2] in ("mSender", "mReceiver") and Q[2] in ("mSender", "mReceiver"):
            rep.count("connections entered from descriptions")
            if P[2] != "mSender" or Q[2] != "mReceiver":
                bad(n, "sender and receiver of a connection are exchanged", "exchanged")
            if P[1] != Q[1]:
                bad(n, "sender and receiver come from different connections", "mixed")
            i, j = plain(i), plain(j)
            if i[0] == "idx" and j[0] == "idx":
                if i[1][0] == "f" and i[1][2] != "mSendIndices" or j[1][0] == "f" and j[1][2] != "mReceiveIndices":
                    bad(n, "the channel of one end of a connection is taken from the index list of the other end", "lists")
                if known(lin(minusterm(i[2], j[2]))) and i[2] != j[2]:
                    bad(n, "send and receive channel are taken from different positions of the index lists", "positions")
                lp = loop_of(n, fn)
                dm = domain(T, u.fr, lp) if lp is not None else None
                if dm is not None:
                    if dm.gap:
                        bad(n, "not every channel of a connection is entered: the loop %s" % dm.gap, "gap")
                    elif dm.kind == "index":
                        w = plain(dm.what)
                        if w[0] == "op" and w[1] in ("-", "/") or w[0] == "c":
                            bad(n, "not every channel of a connection is entered: the loop runs to %s" % show(w)[:60], "bound")
            elif i[0] == "idx" and j[0] == "l" and j == i[2] or j[0] == "idx" and i[0] == "l" and i == j[2]:
                bad(n, "the index list of one end of a connection is ignored", "lists")
            elif i[0] == "l" and j[0] == "l" and i == j:
                bad(n, "the index lists of a connection are ignored", "lists")
    for a, b, n, nodes in u.calls:
        a, b = plain(a), plain(b)
        if a[0] == "f" and b[0] == "f" and a[2] in ("first", "second") and b[2] in ("first", "second"):
            rep.count("connections entered from other connections")
            if a[2] != "first" or b[2] != "second":
                bad(n, "sender or receiver of a resolved connection is taken from the wrong end", "ends")
            elif b[1][0] != "elem":
                bad(n, "a resolved connection does not end at the receiver of the connection it replaces", "receiver")
            elif a[1] == b[1] and placeholder(T, u.fr, n, a):
                bad(n, "a connection that starts at a placeholder is entered unresolved", "unresolved")


def placeholder(T, fr, n, a):
    """n is reached only if the port of channel a is a placeholder."""
    for iff, br in ifs_of(n):
        cond = [c for c in iff.c if c.k != "DeclStmt"][0]
        neg, c = False, cond
        while c.k in ("UnaryOperator", "ImplicitCastExpr", "ParenExpr"):
            if c.k == "UnaryOperator" and c.x["op"] == "!":
                neg = not neg
            c = c.c[0]
        if is_call(c) and "laceholder" in (c.x.get("cn") or "") and repr(a) in repr(plain(T.term(fr, c))):
            then = [x for x in iff.c if x is not cond and x.k != "DeclStmt"][0]
            return (br is then) != neg
    return False


def check_find(rep, prog, T):
    """The connection that ends at a channel is found by comparing its receive channel with it."""
    R = "connection-of-receive-channel"
    for f in sorted(prog.funcs.values(), key=lambda f: f.name):
        if f.body is None or f.lambda_ or not f.cls.endswith("AudioConnectionMap") if f.cls else True:
            continue
        ps = [p for p in f.params if p[2].replace("const ", "").rstrip(" &") == CH]
        if len(ps) != 1 or len(f.params) != 1:
            continue
        fr = Frame(f, "this", {})
        for n in f.body.walk():
            if n.k != "LambdaExpr" or n.x.get("lambda") not in prog.funcs:
                continue
            g = prog.funcs[n.x["lambda"]]
            if g.body is None:
                continue
            gfr = Frame(g, None, {}, fr)
            rep.count("searches for the connection of a channel")
            ends, whole, parts = set(), False, set()
            for m in g.body.walk():
                if m.k in ("BinaryOperator", "CXXOperatorCallExpr") and m.x.get("op") in ("==", "!=") or \
                        m.k == "CXXMemberCallExpr" and short(m.x.get("cn") or "") == "operator==":
                    t = canon(plain(T.term(gfr, m)))
                    for x in subterms(t):
                        if isinstance(x, tuple) and len(x) == 3 and x[0] == "f" and x[2] in ("first", "second"):
                            ends.add(x[2])
                            if "PORT" in repr(t):
                                parts.add("PORT")
                            if "CHANNEL" in repr(t):
                                parts.add("CHANNEL")
                            if "PORT" not in repr(t) and "CHANNEL" not in repr(t):
                                whole = True
            if not ends:
                continue
            if "first" in ends and "eceive" in f.name:
                rep.violation(R, f.name, n.l, "the connection of a receive channel is searched by its sender", "%s|%s|end" % (R, f.name), f.file)
            if not whole and parts != {"PORT", "CHANNEL"} and parts:
                rep.violation(R, f.name, n.l, "the connection of a channel is searched by %s only" % sorted(parts)[0].lower(), "%s|%s|parts" % (R, f.name), f.file)


def check_channel(rep, prog):
    """A channel is a port and an index: both are stored and compared."""
    R = "channel-identity"
    for f in sorted(prog.funcs.values(), key=lambda f: f.name):
        if f.cls != CH or f.body is None:
            continue
        if f.name.endswith("::AudioChannel") and len(f.params) == 2:
            used = set()
            for ini in f.inits:
                if ini.get("e") is not None:
                    used |= set(n.x.get("did") for n in ini["e"].walk() if n.k == "DeclRefExpr")
            used |= set(n.x.get("did") for n in f.body.walk() if n.k == "DeclRefExpr")
            rep.count("constructors of channels")
            for did, nm, _t in f.params:
                if did not in used:
                    rep.violation(R, f.name, f.line, "the %s of a channel is not stored" % nm, "%s|%s|%s" % (R, f.name, nm), f.file)
        if short(f.name) in ("operator==", "operator<", "operator!="):
            whole, parts = False, set()
            for n in f.body.walk():
                if n.k == "MemberExpr" and n.x.get("m") == "mVal":
                    q = n.p
                    while q is not None and q.k in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "ExprWithCleanups"):
                        q = q.p
                    if q is not None and is_call(q) and short((q.x.get("cn") or "").split("<")[0]) == "get":
                        parts.add((q.t or "").replace("const ", "").rstrip(" &"))
                    else:
                        whole = True
                elif is_call(n) and short(n.x.get("cn") or "") in ("port", "channel"):
                    parts.add("p" if short(n.x["cn"]) == "port" else "c")
            rep.count("comparisons of channels")
            if not whole and len(parts) == 1:
                rep.violation(R, f.name, f.line, "%s looks only at one of port and channel index" % short(f.name), "%s|%s" % (R, f.name), f.file)


def check_exchanged(rep, prog):
    """Sender and receiver roles of arguments agree with those of the parameters."""
    R = "roles-of-arguments"
    S = re.compile(r"send|sender|source|src", re.I)
    D = re.compile(r"rece?iv|recv|receiver|dest|sink", re.I)

    def role(name):
        s, d = bool(S.search(name or "")), bool(D.search(name or ""))
        return "S" if s and not d else "R" if d and not s else None

    def argname(a):
        names = []
        for n in a.walk():
            if n.k == "DeclRefExpr":
                names.append(short(n.x.get("q") or "") or n.x.get("n") or "")
            elif n.k == "MemberExpr":
                names.append(n.x.get("m") or "")
            elif is_call(n):
                names.append(short(n.x.get("cn") or ""))
        r = set(role(x) for x in names) - {None}
        return r.pop() if len(r) == 1 else None
    for f in prog.funcs.values():
        if f.body is None or not re.search(r"src/(librrl|libvisr)/", f.file or ""):
            continue
        nm = {p[0]: p[1] for p in f.params}
        for v in decls(f).values():
            nm[v.did] = v.n

        def arole(a):
            names = []
            for n in a.walk():
                if n.k == "DeclRefExpr":
                    names.append(nm.get(n.x.get("did")) or "")
                elif n.k == "MemberExpr":
                    names.append(n.x.get("m") or "")
            r = set(role(x) for x in names) - {None}
            return r.pop() if len(r) == 1 else None
        for ini in f.inits:
            if ini.get("m") and ini.get("e") is not None:
                fr_, ar = role(ini["m"]), arole(ini["e"])
                if fr_ and ar:
                    rep.count("members initialised from an end of a connection")
                    if fr_ != ar:
                        rep.violation(R, f.name, ini["e"].l, "%s is initialised from the other end of the connection" % ini["m"],
                                      "%s|%s|%s" % (R, f.name, ini["m"]), f.file)
        for n in f.body.walk():
            if not (is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr")):
                continue
            g = None
            cid = n.x.get("cid")
            g = prog.funcs.get(cid) if cid else None
            if g is None or len(g.params) < 2:
                continue
            pr = [role(p[1]) for p in g.params]
            if "S" not in pr or "R" not in pr:
                continue
            args = call_args(n) if is_call(n) else list(n.c)
            ar = [arole(a) for a in args]
            rep.count("calls with arguments for both ends")
            for p, a, par in zip(pr, ar, g.params):
                if p and a and p != a and any(q and b and q == a and p2[2] == par[2] for q, b, p2 in zip(pr, ar, g.params)):
                    rep.violation(R, f.name, n.l, "%s is given the other end of the connection by %s" % (par[1], short(f.name)),
                                  "%s|%s|%s|%s" % (R, f.name, short(g.name), par[1]), f.file)


def check_containers(rep, prog):
    """Several connections between the same ports, or from one channel, are all kept."""
    R = "every-connection-kept"
    for r in prog.records.values():
        for fd in getattr(r, "fields", ()):
            t = fd.t or ""
            m = re.match(r"^(const )?std::(multimap|map|multiset|set)<(const )?visr::(rrl::AudioChannel|impl::AudioConnection)\b", t)
            if not m:
                continue
            rep.count("tables of connections")
            if not m.group(2).startswith("multi"):
                el = m.group(4)
                cmp_ = [f for f in prog.funcs.values() if f.name == "visr::%s::operator<" % el and f.body is not None]
                full = el.endswith("AudioConnection") and cmp_ and "Indices" in repr([n.x.get("m") or n.x.get("cn") for n in cmp_[0].body.walk()])
                if not full:
                    rep.violation(R, r.name, 0, "table %s holds only one connection per %s" % (fd.n, "send channel" if "Channel" in el else "pair of ports"),
                                  "%s|%s|%s" % (R, r.name, fd.n), getattr(r, "f", ""))


def check_port_memory(rep, prog, T):
    """Channel pointers of ports, channel lists of the top level, and the copying routing component."""
    R = "channel-pointers"
    for f in sorted(prog.funcs.values(), key=lambda f: f.name):
        if f.body is None or f.lambda_:
            continue
        if f.name == PORT + "::setBufferConfig":
            fr = Frame(f, "this", {})
            for n in f.body.walk():
                if n.k == "BinaryOperator" and n.x["op"] == "=" and n.c[0].k == "MemberExpr":
                    want = {"mBasePointer": 0, "mChannelStrideSamples": 1}.get(n.c[0].x["m"])
                    if want is None:
                        continue
                    t = plain(T.term(fr, n.c[1]))
                    rep.count("members of a port holding its memory")
                    if t != ("a", f.params[want][0]) and not any(x[0] == "?" for x in subterms(t) if isinstance(x, tuple) and x):
                        rep.violation(R, f.name, n.l, "%s is not set to the value passed for it" % n.c[0].x["m"], "%s|%s|%s" % (R, f.name, n.c[0].x["m"]), f.file)
        if re.match(r"visr::Audio(In|Out)put\w*<[^>]*>::operator\[\]$", f.name) and f.params:
            fr = Frame(f, "this", {})
            for n in f.body.walk():
                if n.k == "ReturnStmt" and n.c:
                    l = lin(plain(T.term(fr, n.c[0])))
                    i = ("a", f.params[0][0])
                    rep.count("channel access operators")
                    bases = [a for a in l if a and a[0] == "f" and a[2] == "mBasePointer"]
                    pr = [a for a in l if a and a[0] == "prod" and i in a[1:]]
                    oth = [a for a in l if a not in bases and a not in pr]
                    if any(a and a[0] not in ("prod", "c", "a") for a in oth):
                        continue
                    good = len(bases) == 1 and len(pr) == 1 and not oth and l[pr[0]] == 1 and l[bases[0]] == 1 and len(pr[0]) == 3 and \
                        any(x[0] == "f" and x[2] == "mChannelStrideSamples" for x in pr[0][1:])
                    if not good:
                        rep.violation(R, f.name, n.l, "channel k does not start k channel strides after the memory of the port",
                                      "%s|%s" % (R, re.sub(r"<.*>", "<>", f.name)), f.file)
        if f.cls == "visr::rrl::AudioSignalFlow":
            fr = Frame(f, "this", {})
            for n in f.body.walk():
                if not (is_call(n) and short(n.x.get("cn") or "") in ("push_back", "emplace_back")):
                    continue
                b = call_base(n)
                bt = T.term(fr, b) if b is not None else ("?",)
                if not (bt[0] == "f" and bt[2] in ("mCaptureChannels", "mPlaybackChannels")):
                    continue
                l = lin(plain(T.term(fr, call_args(n)[0])))
                rep.count("entries of the external channel lists")
                bases = [a for a in l if a and a[0] == "f" and a[2] == "mBasePointer"]
                pr = [a for a in l if a and a[0] == "prod"]
                if len(bases) != 1 or any(a not in bases and a not in pr and a != () for a in l):
                    continue

                def bad(what, key):
                    rep.violation(R, f.name, n.l, what, "%s|%s|%s|%s" % (R, f.name, bt[2], key), f.file)
                if l.get((), 0):
                    bad("the pointer of an external channel is displaced by %s" % l[()], "displaced")
                P = bases[0][1]
                want = {"mCaptureChannels": "mTopLevelAudioInputs", "mPlaybackChannels": "mTopLevelAudioOutputs"}[bt[2]]
                if P[0] == "elem" and P[1][0] == "f" and P[1][2].startswith("mTopLevel") and P[1][2] != want:
                    bad("%s is filled from %s" % (bt[2], P[1][2]), "ports")
                lp = loop_of(n, f)
                dm = domain(T, fr, lp) if lp is not None else None
                if not pr:
                    if dm is not None and dm.kind == "index":
                        bad("every channel of a port gets the pointer of its first channel", "stride")
                    continue
                fac = pr[0][1:]
                names = [x[2] for x in fac if x[0] == "f"]
                if any(x[0] == "f" and x[1] != P for x in fac):
                    bad("base and stride of different ports are combined", "mixed")
                char = (call_args(n)[0].t or "").replace("const ", "").startswith(("char", "void", "unsigned char"))
                if "mChannelStrideSamples" in names and "cSampleSize" not in names and pointer_is_char(call_args(n)[0]):
                    bad("the stride in samples is added to a byte pointer", "bytes")
                if dm is not None and dm.kind == "index":
                    if dm.gap:
                        bad("the loop over the channels of a port %s" % dm.gap, "gap")
                    elif dm.what[0] == "f" and dm.what[2] == "mWidth" and plain(dm.what[1]) != P:
                        bad("the loop runs over the channels of another port", "width")
                    elif dm.what[0] == "op" or dm.what[0] == "c":
                        bad("the loop over the channels of a port runs to %s" % show(plain(dm.what))[:50], "width")
                    if ("l", dm.var) not in fac and any(x[0] == "l" for x in fac):
                        bad("the pointer of a channel is computed from another index than that of the channel", "index")


def pointer_is_char(n):
    for m in n.walk():
        if m.k == "BinaryOperator" and m.x["op"] == "+":
            return "char" in (m.t or "")
    return False


def check_routing(rep, prog, T):
    R = "inserted-routing"
    from .period import copy_call
    for f in sorted(prog.funcs.values(), key=lambda f: f.name):
        if f.body is None or f.lambda_:
            continue
        if re.match(r"visr::rrl::SignalRoutingInternal<.*>::process$", f.name):
            fr = Frame(f, "this", {})
            g = re.sub(r"<.*>", "<>", f.name)

            def bad(n, what, key):
                rep.violation(R, f.name, n.l, what, "%s|%s|%s" % (R, g, key), f.file)
            copies = 0
            for n in f.body.walk():
                cc = copy_call(n) if is_call(n) else None
                if cc is None and is_call(n) and n.k == "CallExpr" and len(n.c) >= 4 and "VectorCopy" in repr(T.term(fr, n))[:120]:
                    cc = (n.c[1], n.c[2], None, None, n.c[3])
                if cc is None:
                    continue
                copies += 1
                s, d = plain(T.term(fr, cc[0])), plain(T.term(fr, cc[1]))
                rep.count("copies of the inserted routing")
                if s[0] == "idx" and d[0] == "idx":
                    if s[1] != ("f", ("this",), "mInput") or d[1] != ("f", ("this",), "mOutput"):
                        if s[1] == ("f", ("this",), "mOutput") or d[1] == ("f", ("this",), "mInput"):
                            bad(n, "the routing copies from its output to its input", "direction")
                        continue
                    k, m = d[2], s[2]
                    if m[0] == "idx" and m[1][0] == "f" and k[0] == "l":
                        if m[2] != k:
                            bad(n, "output channel and position in the index list differ", "position")
                    elif k[0] == "idx" and k[1][0] == "f":
                        bad(n, "the index list is applied to the output channels", "applied")
                    elif m == k:
                        bad(n, "the index list of the routing is not applied", "ignored")
                    lp = loop_of(n, f)
                    dm = domain(T, fr, lp) if lp is not None else None
                    if dm is not None:
                        w = plain(dm.what)
                        if dm.gap:
                            bad(n, "the loop over the output channels %s" % dm.gap, "gap")
                        elif dm.kind == "index" and (w[0] in ("op", "c") or w[0] == "f" and w[2] == "mWidth" and "mInput" in repr(w)):
                            bad(n, "the loop over the output channels runs to %s" % show(w)[:50], "bound")
                ln = plain(T.term(fr, cc[4]))
                if ln[0] in ("op", "c"):
                    bad(n, "a channel is copied only over %s samples" % show(ln)[:40], "length")
        # case X: new Routing<type of X>
        if f.body is not None and "SignalRouting" in (f.ret or "") + f.name and any("AudioSampleType" in p[2] for p in f.params):
            for n in f.body.walk():
                if n.k == "CaseStmt":
                    lab = [short(m.x["q"]) for m in n.c[0].walk() if m.k == "DeclRefExpr" and m.x.get("dk") == "EnumConstant"]
                    new = [m for m in n.c[-1].walk() if m.k == "CXXNewExpr"] if n.c[-1].k != "CaseStmt" else []
                    for m in new:
                        ty = re.search(r"<(.*)>", m.t or "")
                        if lab and ty and lab[0] in SAMPLE:
                            rep.count("sample types of the inserted routing")
                            if ty.group(1) != SAMPLE[lab[0]] and not (SAMPLE[lab[0]] == "signed char" and ty.group(1) == "char"):
                                rep.violation(R, f.name, n.l, "ports of sample type %s are routed by a component of type %s" % (lab[0], ty.group(1)),
                                              "%s|%s|%s" % (R, f.name, lab[0]), f.file)


PMAP = re.compile(r"rrl::ParameterConnectionMap( &)?$")


def truth(T, fr, n, env):
    """Value of a condition over isToplevelPort(port) and the direction of port, or None."""
    while n.k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
        n = n.c[0]
    if n.k == "UnaryOperator" and n.x["op"] == "!":
        v = truth(T, fr, n.c[0], env)
        return None if v is None else not v
    if n.k == "BinaryOperator" and n.x["op"] in ("&&", "||", "==", "!=", "^"):
        a, b = truth(T, fr, n.c[0], env), truth(T, fr, n.c[1], env)
        if n.x["op"] == "&&":
            return False if a is False or b is False else None if None in (a, b) else True
        if n.x["op"] == "||":
            return True if a is True or b is True else None if None in (a, b) else False
        if a is not None and b is not None:
            return (a == b) if n.x["op"] == "==" else (a != b)
        t = T.term(fr, n)
        for d in ("Input", "Output"):
            if t[0] == "op" and t[1] in ("==", "!=") and any(x[0] == "g" and x[1].endswith("::" + d) for x in t[2:] if isinstance(x, tuple)):
                v = env["input"] == (d == "Input")
                return v if t[1] == "==" else not v
        return None
    if n.k == "ConditionalOperator":
        c = truth(T, fr, n.c[0], env)
        return None if c is None else truth(T, fr, n.c[1 if c else 2], env)
    if n.k == "DeclRefExpr" and n.x.get("did") is not None:
        v = decls(n.fn).get(n.x["did"])
        if v is not None and v.init is not None and not assigned(n.fn).get(v.did):
            return truth(T, fr, v.init, env)
    if is_call(n) and short(n.x.get("cn") or "") in ("isToplevelPort", "isTopLevel"):
        return env["top"]
    return None


def check_parameters(rep, prog, T):
    """Parameter connections: (receiver, sender) entries, resolution of placeholders, grouping, and attachment to the protocol."""
    R = "parameter-connections-as-declared"
    for f in sorted(prog.funcs.values(), key=lambda f: (f.name, f.id)):
        if f.body is None or f.lambda_ or not f.file.startswith("src/librrl/"):
            continue
        fr = Frame(f, "this", {})

        def bad(n, what, key):
            rep.violation(R, f.name, n.l, what, "%s|%s|%s" % (R, f.name, key), f.file)
        for n in f.body.walk():
            s = short(n.x.get("cn") or "") if is_call(n) else ""
            b = call_base(n) if s in ("insert", "emplace", "find") else None
            ismap = b is not None and (PMAP.search(b.t or "") or re.search(
                r"^(const )?std::multimap<visr::impl::ParameterPortBaseImplementation \*, visr::impl::ParameterPortBaseImplementation \*", b.t or ""))
            if ismap and s in ("insert", "emplace"):
                kv = pair_args(T, fr, n)
                if kv is None:
                    continue
                a, c = plain(T.term(fr, kv[0])), plain(T.term(fr, kv[1]))
                if a[0] == "f" and c[0] == "f":
                    if {a[2], c[2]} <= {"mSender", "mReceiver"}:
                        rep.count("parameter connections entered")
                        if (a[2], c[2]) != ("mReceiver", "mSender"):
                            bad(n, "a parameter connection is not entered as receiver and sender", "roles")
                        elif a[1] != c[1]:
                            bad(n, "receiver and sender come from different connections", "mixed")
                    elif {a[2], c[2]} <= {"first", "second"}:
                        rep.count("parameter connections entered")
                        if (a[2], c[2]) != ("first", "second"):
                            bad(n, "receiver or sender of a resolved parameter connection is taken from the wrong end", "ends")
                        elif a[1][0] != "elem":
                            bad(n, "a resolved parameter connection does not end at the receiver of the connection it replaces", "receiver")
                        elif a[1] == c[1] and placeholder(T, fr, n, c):
                            bad(n, "a parameter connection that starts at a placeholder is entered unresolved", "unresolved")
            if ismap and s == "find" and n.k == "CXXMemberCallExpr":
                t = plain(T.term(fr, call_args(n)[0]))
                if t[0] == "f" and t[2] == "first" and f.name.endswith("resolvePlaceholders"):
                    bad(n, "the origin of a connection is searched by its receiver", "find")
            # grouping of connected ports
            if s == "add_edge" and len(n.c) >= 4:
                t = [plain(T.term(fr, x)) for x in n.c[1:3]]
                rep.count("edges between connected parameter ports")
                if t[0] == t[1]:
                    bad(n, "an edge joins a port with itself", "edge")
            if s in ("push_back", "emplace_back", "insert") and n.k == "CXXMemberCallExpr":
                bb = call_base(n)
                bt = T.term(fr, bb) if bb is not None else ("?",)
                if bt[0] == "f" and bt[2] in ("mReceivePorts", "mSendPorts") and "Graph" in f.name:
                    rep.count("classifications of connected parameter ports")
                    for top in (False, True):
                        for inp in (False, True):
                            env = {"top": top, "input": inp}
                            reach = True
                            for iff, br in ifs_of(n):
                                cond = [c for c in iff.c if c.k != "DeclStmt"][0]
                                v = truth(T, fr, cond, env)
                                then = [x for x in iff.c if x is not cond and x.k != "DeclStmt"][0]
                                if v is None:
                                    reach = None
                                    break
                                if v != (br is then):
                                    reach = False
                                    break
                            want = (inp != top) == (bt[2] == "mReceivePorts")
                            if reach is not None and ifs_of(n) and reach != want:
                                bad(n, "%s %s of the flow is %sclassified as a %s" % ("an external" if top else "an internal", "input" if inp else "output",
                                    "" if reach else "not ", "receiver" if bt[2] == "mReceivePorts" else "sender"), "%s|%d%d" % (bt[2], top, inp))
        # every connected port is attached to the protocol of its connection
        for lp in f.body.walk():
            if lp.k not in ("CXXForRangeStmt", "ForStmt") or not any(is_call(m) and short(m.x.get("cn") or "") in ("connectInput", "connectOutput") for m in lp.walk()):
                continue
            dm = domain(T, fr, lp)
            if dm is None:
                continue
            w = [x[2] if x[0] == "f" else x[1] for x in subterms(plain(dm.what)) if isinstance(x, tuple) and len(x) > 2 and x[0] in ("f", "call")]
            side = "S" if any("endPorts" in x for x in w) else "R" if any("eceivePorts" in x for x in w) else None
            if side is None or any(x.k in ("CXXForRangeStmt", "ForStmt") and x is not lp for x in lp.walk()):
                continue
            rep.count("loops attaching parameter ports to their protocol")
            body = lp.c[-1]
            need = "connectOutput" if side == "S" else "connectInput"
            if not attaches(prog, body, need):
                bad(lp, "a %s port can be left unattached to the protocol of its connection" % ("sending" if side == "S" else "receiving"), "attach|" + side)
            if dm.gap:
                bad(lp, "not every connected port is attached: the loop %s" % dm.gap, "attach-gap|" + side)


def attaches(prog, n, need):
    """Every normal completion of statement n contains a call of need (or leaves by throw / records failure in a handler)."""
    if n is None:
        return False
    if n.k == "CompoundStmt":
        for c in n.c:
            if attaches(prog, c, need):
                return True
            if c.k == "IfStmt":
                cs = [x for x in c.c if x.k != "DeclStmt"]
                for br in cs[1:]:
                    if any(x.k in ("ContinueStmt", "BreakStmt") for x in br.walk()) and not attaches(prog, br, need):
                        return False
        return False
    if n.k == "IfStmt":
        cs = [c for c in n.c if c.k != "DeclStmt"]
        cond, br = cs[0], cs[1:]
        if any(calls(prog, m, need) for m in cond.walk()):
            return True
        return len(br) == 2 and all(attaches(prog, b, need) for b in br)
    if n.k == "CXXTryStmt":
        return attaches(prog, n.c[0], need)
    if n.k in LOOPS:
        return False
    return any(calls(prog, m, need) or m.k == "CXXThrowExpr" for m in n.walk())


def calls(prog, m, need, depth=0):
    if not is_call(m):
        return False
    if short(m.x.get("cn") or "") == need:
        return True
    if depth < 3:
        for g in prog.callees(m):
            if g.body is not None and attaches(prog, g.body, need):
                return True
    return False


def check_ranges(rep, prog, T):
    """Channel k of a range is start + k * step, and a list takes over every channel of a range."""
    R = "channel-list"
    for f in sorted(prog.funcs.values(), key=lambda f: (f.name, f.id)):
        if f.body is None or f.lambda_:
            continue
        fr = Frame(f, "this", {})
        if f.name == "visr::ChannelRange::operator[]" and f.params:
            for n in f.body.walk():
                if n.k == "ReturnStmt" and n.c:
                    l = lin(plain(T.term(fr, n.c[0])))
                    rep.count("elements of channel ranges")
                    i = ("a", f.params[0][0])
                    want = {("f", ("this",), "mStart"): 1, ("prod",) + tuple(sorted([i, ("f", ("this",), "mStep")], key=repr)): 1}
                    if l != want and all(a == () or a[0] in ("f", "prod", "a") for a in l):
                        rep.violation(R, f.name, n.l, "element k of a range is not start + k * step", "%s|%s" % (R, f.name), f.file)
        if (f.cls or "") == "visr::ChannelList" and any("ChannelRange &" in p[2] for p in f.params) and len(f.params) == 1:
            r = ("a", f.params[0][0])
            for n in f.body.walk():
                if not (is_call(n) and short(n.x.get("cn") or "") in ("push_back", "emplace_back") and n.k == "CXXMemberCallExpr"):
                    continue
                lp = loop_of(n, f)
                if lp is None:
                    continue
                dm = domain(T, fr, lp)
                rep.count("expansions of channel ranges")

                def bad(what, key):
                    rep.violation(R, f.name, n.l, what, "%s|%s|%s" % (R, f.name, key), f.file)
                if dm is not None and dm.kind == "index":
                    w = plain(dm.what)
                    if dm.gap:
                        bad("the loop over the channels of a range %s" % dm.gap, "gap")
                    elif w[0] == "op" and size_like(w[2], r) | size_like(w[3], r):
                        bad("the loop over the channels of a range runs to %s" % show(w)[:50], "bound")
                a = call_args(n)[0]
                t = plain(T.term(fr, a))
                if a.k == "DeclRefExpr" and t[0] == "l":
                    did = t[1]
                    ups = updates(f, did)
                    v = decls(f).get(did)
                    if v is not None and v.init is not None:
                        i0 = plain(T.term(fr, v.init))
                        if i0[0] == "f" and i0[2] in ("mEnd", "mStep") or i0[0] == "c":
                            bad("the channels of a range do not begin at its start", "start")
                    if len(ups) == 1:
                        if ups[0].k == "CompoundAssignOperator":
                            am = plain(T.term(fr, ups[0].c[1]))
                            if am != ("f", r, "mStep") and am[0] in ("f", "c") or ups[0].x["op"] != "+=":
                                bad("successive channels of a range do not differ by its step", "step")
                        elif ups[0].k == "UnaryOperator":
                            bad("successive channels of a range do not differ by its step", "step")
                        if preorder(f)[id(ups[0])] < preorder(f)[id(n)] and not in_for_header(ups[0]):
                            bad("the first channel of a range is skipped", "first")
                else:
                    l = lin(t)
                    fs = [a2 for a2 in l if a2 and a2[0] == "f" and a2[1] == r]
                    pr = [a2 for a2 in l if a2 and a2[0] == "prod"]
                    cnt = [a2 for a2 in l if dm is not None and a2 == ("l", dm.var)]
                    if (fs or pr) and all(a2 == () or a2 in fs or a2 in pr or a2 in cnt for a2 in l):
                        good = [x[2] for x in fs] == ["mStart"] and len(pr) == 1 and ("f", r, "mStep") in pr[0] and len(pr[0]) == 3 and not l.get((), 0) and not cnt
                        if not good:
                            bad("element k of a range is not start + k * step", "element")


def size_like(w, r):
    return isinstance(w, tuple) and len(w) > 2 and w[0] == "call" and w[1] == "size" and w[2] == r


def facts(T, fr, n):
    """[(condition node, truth)] known when n is reached: enclosing branches, and earlier statements of the same blocks that leave."""
    out = []
    c, p = n, n.p
    while p is not None:
        if p.k == "IfStmt":
            cs = [x for x in p.c if x.k != "DeclStmt"]
            if c is not cs[0]:
                out.append((cs[0], len(cs) > 1 and c is cs[1]))
        elif p.k == "ConditionalOperator" and c is not p.c[0]:
            out.append((p.c[0], c is p.c[1]))
        elif p.k == "CompoundStmt":
            for x in p.c:
                if x is c:
                    break
                if x.k == "IfStmt":
                    cs = [y for y in x.c if y.k != "DeclStmt"]
                    for i, br in enumerate(cs[1:]):
                        last = br.c[-1] if br.k == "CompoundStmt" and br.c else br
                        if last.k in ("ReturnStmt", "CXXThrowExpr", "ExprWithCleanups"):
                            out.append((cs[0], i == 1))
        c, p = p, p.p
    return out


def check_memory(rep, prog, T):
    """The memory of the pool: what is rounded up for each channel, and what is allocated."""
    R = "pool-large-enough"
    for f in sorted(prog.funcs.values(), key=lambda f: f.name):
        if f.body is None or f.lambda_:
            continue
        fr = Frame(f, "this", {})
        if f.name == "visr::efl::nextAlignedSize" and len(f.params) == 2:
            s, al = ("a", f.params[0][0]), ("a", f.params[1][0])
            rem, quo = ("op", "%", s, al), ("op", "/", s, al)

            def exact(fs):
                for c, v in fs:
                    if c.k == "BinaryOperator" and c.x["op"] in ("||", "&&") and (c.x["op"] == "||") == v:
                        if all(exact([(x, v)]) for x in c.c):
                            return True
                        continue
                    if c.k == "BinaryOperator" and c.x["op"] in ("||", "&&"):
                        if any(exact([(x, v)]) for x in c.c):
                            return True
                        continue
                    if c.k == "UnaryOperator" and c.x.get("op") == "!":
                        if exact([(c.c[0], not v)]):
                            return True
                        continue
                    t = plain(T.term(fr, c))
                    if v and t[0] == "op" and t[1] == "==" and ("c", "0") in t[2:] and (al in t[2:] or rem in t[2:] or s in t[2:]):
                        return True
                    if not v and (t in (al, rem, s) or t[0] == "op" and t[1] == "!=" and ("c", "0") in t[2:] and (al in t[2:] or rem in t[2:] or s in t[2:])):
                        return True
                    if not v and t[0] == "op" and t[1] == "<" and t[2] == ("c", "0") and t[3] in (al, rem, s):
                        return True
                return False

            def understood(t):
                return t in (s, al) or t[0] == "c" or t[0] in ("op", "prod", "?:") and all(understood(x) for x in t[1:] if isinstance(x, tuple))

            def up(q):
                """q >= size / alignment, rounded up."""
                l = lin(q)
                if len(l) <= 2 and l.get(quo) == 1:
                    return l.get((), 0) >= 1
                if q[0] == "op" and q[1] == "/" and q[3] == al:
                    m = lin(q[2])
                    return m.get(s) == 1 and m.get(al, 0) >= 1 and m.get((), 0) >= -1 * m.get(al, 0)
                return False

            def leaves(n):
                if n.k == "ConditionalOperator":
                    return leaves(n.c[1]) + leaves(n.c[2])
                if n.k in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "CStyleCastExpr", "CXXStaticCastExpr") and len(n.c) == 1:
                    return leaves(n.c[0])
                return [n]
            for n in f.body.walk():
                if n.k != "ReturnStmt" or not n.c:
                    continue
                for e in leaves(n.c[0]):
                    t = plain(T.term(fr, e))
                    rep.count("results of the rounding to the alignment")
                    if not understood(t) or t[0] == "?:" or exact(facts(T, fr, e)):
                        continue
                    l = lin(t)
                    ok = l == {s: 1, al: 1, rem: -1} or l.get(s) == 1 and l.get(al, 0) >= 1 and rem not in l and all(v > 0 for v in l.values())
                    if len(l) == 1:
                        a = list(l)[0]
                        if l[a] == 1 and a[0] == "prod" and len(a) == 3 and al in a[1:]:
                            ok = up([x for x in a[1:] if x != al][0])
                    elif not ok and t[0] == "op" and t[1] == "-" and t[3][0] == "op" and t[3][1] == "%" and t[3][3] == al:   # (size + alignment - 1) - (…) % alignment
                        m = lin(t[2])
                        ok = t[2] == t[3][2] and m.get(s) == 1 and m.get(al, 0) >= 1 and m.get((), 0) >= -1
                    if not ok:
                        rep.violation(R, f.name, e.l, "the size %s is not the next multiple of the alignment" % nice(t), "%s|%s" % (R, f.name), f.file)
        if re.match(r"visr::efl::AlignedArray<.*>::allocate$", f.name) and f.params:
            length = ("a", f.params[0][0])
            key = "visr::efl::AlignedArray::allocate"
            for n in f.body.walk():
                if n.k == "CXXNewExpr" and n.x.get("arr") and n.c:
                    t = plain(T.term(fr, n.c[0]))
                    alts, todo = [], [t]
                    while todo:
                        x = todo.pop()
                        if x[0] == "?:":
                            todo += [x[2], x[3]]
                        else:
                            alts.append(x)
                    rep.count("allocations of aligned arrays")
                    for x in alts:
                        l = lin(x)
                        if any(a != () and a[0] not in ("a", "f") for a in l):
                            continue
                        if l.get(length, 0) < 1:
                            rep.violation(R, key, n.l, "the memory allocated does not grow with the length asked for", "%s|%s|length" % (R, key), f.file)
                        elif not any(a != () and a[0] == "f" and a[2] == "mAlignment" and v >= 1 for a, v in l.items()) or l.get((), 0) < -1:
                            rep.violation(R, key, n.l, "the memory allocated leaves no room for the alignment of its start", "%s|%s|room" % (R, key), f.file)
                if n.k == "BinaryOperator" and n.x["op"] == "=" and n.c[0].k == "MemberExpr" and n.c[0].x["m"] == "mAlignedStorage":
                    l = lin(plain(T.term(fr, n.c[1])))
                    if len(l) > 1 and any(a != () and a[0] == "f" and a[2] == "mRawStorage" for a in l) and \
                            not any(isinstance(x, tuple) and x and x[0] == "op" and x[1] in ("%", "&", "/") for a in l if a != () for x in subterms(a)):
                        rep.violation(R, key, n.l, "the start of the array is moved by a fixed distance", "%s|%s|start" % (R, key), f.file)
        if f.name == "visr::rrl::AudioSignalPool::AudioSignalPool" and f.params:
            for i in f.inits:
                if i.get("m") == "mPool" and i.get("e") is not None:
                    t = plain(T.term(fr, i["e"]))
                    if t[0] == "new" and len(t) > 2:
                        rep.count("pools of audio signals")
                        l = lin(t[2])
                        if l.get(("a", f.params[0][0]), 0) < 1 or any(a != () and v < 0 for a, v in l.items()) or l.get((), 0) < 0:
                            rep.violation(R, f.name, f.line, "the pool has not the size asked for", "%s|%s" % (R, f.name), f.file)


def check_predicates(rep, prog, T):
    """Which connections are handled for a port or a sample type, and which port a channel number belongs to."""
    R = "selected-connections"
    for f in sorted(prog.funcs.values(), key=lambda f: f.name):
        if f.body is None or f.lambda_ or not re.search(r"src/librrl/", f.file or ""):
            continue
        for n in f.body.walk():
            if not (n.k == "CallExpr" and short(n.x.get("cn") or "") in ("copy_if", "remove_copy_if", "find_if")):
                continue
            lam = [m for a in n.c[1:] for m in a.walk() if m.k == "LambdaExpr"]
            if len(lam) != 1 or lam[0].x.get("lambda") not in prog.funcs:
                continue
            g = prog.funcs[lam[0].x["lambda"]]
            if g.body is None or len(g.params) != 1:
                continue
            rets = [m for m in g.body.walk() if m.k == "ReturnStmt" and m.c]
            if len(rets) != 1:
                continue
            par = ("a", g.params[0][0])
            t = canon(plain(T.term(Frame(g, None, {}, Frame(f, "this", {})), rets[0].c[0])))
            what = short(n.x["cn"])
            key = "%s|%s|%s" % (R, f.name, what)
            subs = [x for x in subterms(t) if isinstance(x, tuple) and x]
            ends = [x for x in subs if x[0] == "PORT" and x[1][0] == "f" and x[1][1] == par]
            if what != "find_if" and ends:
                rep.count("selections of connections")
                if any(x[0] == "CHANNEL" for x in subs):
                    rep.violation(R, f.name, n.l, "connections are left out depending on their channel", key + "|channel", f.file)
                elif any(x[0] == "op" and x[1] in ("<", "<=") and any(e in list(subterms(y)) for y in x[2:] for e in ends) for x in subs):
                    rep.violation(R, f.name, n.l, "connections are selected by an order relation, so some are handled several times", key + "|order", f.file)
                elif t[0] == "op" and t[1] == ("!=" if what == "copy_if" else "==") and any(e in list(subterms(y)) for y in t[2:] for e in ends) and \
                        not any(y == ("c", "null") for y in t[2:]):
                    rep.violation(R, f.name, n.l, "the connections that do not belong to the port or sample type are selected", key + "|negated", f.file)
            lo = ("f", par, "second")
            if what == "find_if" and t[0] == "op" and t[1] == "&&":
                w = [x for x in subs if x[0] == "f" and x[2] == "mWidth" and x[1] == ("f", par, "first")]
                if not w or lo not in subs:
                    continue
                rep.count("searches of the port that owns a channel number")
                for x in t[2:]:
                    if x[0] != "op" or x[1] not in ("<", "<="):
                        continue
                    d = minus(lin(x[3]), lin(x[2]))
                    c = d.get((), 0) + (1 if x[1] == "<=" else 0)          # d > 0 after moving "<=" to "<"
                    if d.get(w[0]) == 1 and d.get(lo) == 1 and c > 0 or d.get(w[0]) is None and d.get(lo) == -1 and c < 1:
                        rep.violation(R, f.name, n.l, "a channel number at the limit of the range of a port is attributed to the wrong port", key + "|limit", f.file)


def check(rep):
    prog = program(LIBS)
    T = VT(prog)
    for f in sorted(prog.funcs.values(), key=lambda f: (f.name, f.id)):
        if f.body is None or f.lambda_ or not re.search(r"src/librrl/", f.file or ""):
            continue
        u = Fn(prog, T, f)
        if u.entries or u.conns or u.calls or u.configs:
            rep.count("functions handling connections")
            check_tables(rep, prog, T, u)
            check_configs(rep, u)
            check_maps(rep, prog, T, u)
    check_contiguous(rep, prog, T)
    check_send_channels(rep, prog, T)
    check_find(rep, prog, T)
    check_channel(rep, prog)
    check_exchanged(rep, prog)
    check_containers(rep, prog)
    check_parameters(rep, prog, T)
    check_ranges(rep, prog, T)
    check_port_memory(rep, prog, T)
    check_routing(rep, prog, T)
    check_memory(rep, prog, T)
    check_predicates(rep, prog, T)
    rep.need("functions handling connections", 1)
    rep.need("calls with arguments for both ends", 1)
