"""In-memory model of the extracted program."""
import re

STR1 = ("k", "t", "d", "q", "dk", "m", "mk", "mc", "cn", "cid", "cc", "op", "cast", "lambda", "ct", "nt", "opnew", "tt", "at")
STRL = ("pt", "targs", "lambdas")


class Node(object):
    __slots__ = ("i", "k", "l", "t", "c", "x", "p", "fn")

    def get(self, key, default=None):
        return self.x.get(key, default)

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.c))
            if n.k == "DeclStmt":
                for v in n.x["vars"]:
                    if v.init is not None:
                        st.append(v.init)

    def __repr__(self):
        return "<%s %s@%s>" % (self.k, self.x.get("cn") or self.x.get("q") or self.x.get("op") or "", self.l)


class Var(object):
    __slots__ = ("did", "n", "t", "init", "static", "l")


class Block(object):
    __slots__ = ("id", "e", "s", "tk", "cond", "ti", "lab", "labk", "noret", "lt", "td")


class Func(object):
    def __init__(self):
        pass

    def __repr__(self):
        return "<Func %s>" % self.name

    @property
    def where(self):
        return "%s:%d" % (self.file, self.line)

    def loc(self, node):
        return "%s:%d" % (self.file, node.l if node is not None else self.line)


class Record(object):
    def __repr__(self):
        return "<Record %s>" % self.name


class Field(object):
    __slots__ = ("n", "t", "k", "rec", "const", "dmi", "init", "l", "trivdef", "mutable")


SRC_PREFIX = None


def rel(path):
    m = re.search(r"/src/(.*)$", path)
    return "src/" + m.group(1) if m else path


class Program(object):
    def __init__(self, tus):
        self.funcs = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.files = sorted(rel(t["file"]) for t in tus)
        self.off = 0
        self.maxdid = 0
        for t in tus:
            self.off = self.maxdid + 1
            self._add(t)
        self._link()

    # -- loading
    def _add(self, t):
        S = t["str"]
        for f in t["funcs"]:
            fid = S[f["id"]]
            old = self.funcs.get(fid)
            if old is not None and not (old.body is None and f.get("body")):
                continue
            self.funcs[fid] = self._func(f, S)
        for r in t["records"]:
            n = S[r["n"]]
            old = self.records.get(n)
            if old is not None and len(old.methods) >= len(r["m"]):
                continue
            self.records[n] = self._record(r, S)
        for e in t["enums"]:
            self.enums.setdefault(S[e["n"]], (e["c"], rel(S[e["f"]]), e["l"]))
        for g in t["globals"]:
            q = S[g["q"]]
            if "cls" in g:
                q = S[g["cls"]] + "::" + g["n"]
            if q in self.globals and self.globals[q].init is not None:
                continue
            v = self._var(g, S, None, None, {})
            gv = type("Global", (), {})()
            gv.q = q
            gv.t = v.t
            gv.init = v.init
            gv.file = rel(S[g["f"]])
            gv.l = g["l"]
            gv.const = bool(g.get("const"))
            self.globals[q] = gv

    def _did(self, d):
        """Declaration ids are unique per translation unit; make them unique program-wide."""
        d += self.off
        if d > self.maxdid:
            self.maxdid = d
        return d

    def _node(self, o, S, parent, fn, idx):
        if o is None:
            return None
        if "ref" in o:
            r = idx.get(o["ref"])
            if r is not None:
                return r
            n = Node()
            n.i = -1
            n.k = "Ref"
            n.l = 0
            n.t = ""
            n.c = []
            n.x = {}
            n.p = parent
            n.fn = fn
            return n
        n = Node()
        n.i = o["i"]
        n.l = o["l"]
        n.p = parent
        n.fn = fn
        x = {}
        for key, v in o.items():
            if key in ("i", "l", "c"):
                continue
            if key in STR1:
                x[key] = S[v]
            elif key in STRL:
                x[key] = [S[i] for i in v]
            elif key == "vars":
                x["vars"] = None
            elif key in ("did", "rangeVar"):
                x[key] = self._did(v)
            elif key == "caps":
                x[key] = [dict(cc, did=self._did(cc["did"])) if "did" in cc else cc for cc in v]
            else:
                x[key] = v
        n.k = x.pop("k")
        n.t = x.pop("t", "")
        n.x = x
        idx[n.i] = n
        n.c = []
        if "vars" in o:
            x["vars"] = [self._var(v, S, n, fn, idx) for v in o["vars"]]
        for c in o.get("c", ()):
            ch = self._node(c, S, n, fn, idx)
            if ch is not None:
                n.c.append(ch)
        return n

    def _var(self, v, S, parent, fn, idx):
        r = Var()
        r.did = self._did(v["did"])
        r.n = v["n"]
        r.t = S[v["t"]]
        r.static = bool(v.get("static"))
        r.l = v.get("l", 0)
        r.init = self._node(v["init"], S, parent, fn, idx) if "init" in v else None
        return r

    def _func(self, f, S):
        F = Func()
        F.id = S[f["id"]]
        F.name = S[f["n"]]
        F.file = rel(S[f["f"]])
        F.line = f["l"]
        F.ret = S[f["ret"]]
        F.params = [(self._did(p["did"]), p["n"], S[p["t"]]) for p in f["p"]]
        F.cls = S[f["cls"]] if "cls" in f else None
        F.virt = bool(f.get("virt"))
        F.const = bool(f.get("const"))
        F.static = bool(f.get("static"))
        F.nothrow = bool(f.get("nothrow"))
        F.implicit = bool(f.get("implicit"))
        F.defaulted = bool(f.get("defaulted"))
        F.internal = bool(f.get("internal"))
        F.lambda_ = bool(f.get("lambda"))
        F.extc = bool(f.get("extc"))
        F.acc = f.get("acc")
        F.sp = f.get("sp")
        F.ov = [S[i] for i in f.get("ov", ())]
        F.targs = [S[i] for i in f.get("targs", ())]
        idx = {}
        F.nodes = idx
        F.inits = []
        for i in f.get("inits", ()):
            d = {"w": i["w"], "dmi": bool(i.get("dmi"))}
            if "m" in i:
                d["m"] = S[i["m"]]
            if "b" in i:
                d["b"] = S[i["b"]]
            if "deleg" in i:
                d["deleg"] = 1
            d["e"] = self._node(i["e"], S, None, F, idx) if "e" in i else None
            F.inits.append(d)
        F.body = self._node(f["body"], S, None, F, idx) if f.get("body") else None
        F.blocks = {}
        g = f.get("cfg")
        F.entry = F.exit = None
        if g:
            F.entry = g["entry"]
            F.exit = g["exit"]
            for b in g["b"]:
                B = Block()
                B.id = b["id"]
                B.s = b["s"]
                B.noret = bool(b.get("noret"))
                B.e = []
                for e in b["e"]:
                    if isinstance(e, int):
                        n = idx.get(e)
                        if n is not None and ("s", n) not in B.e:      # wrappers of a node are folded into it
                            B.e.append(("s", n))
                    elif "s" in e:
                        n = self._node(e["s"], S, None, F, idx)
                        B.e.append(("s", n))
                    elif "init" in e:
                        B.e.append(("init", S[e["init"]]))
                    elif "dtor" in e:
                        B.e.append(("dtor", self._did(e["dtor"]), S[e["dt"]]))
                t = b.get("t")
                B.tk = S[t["k"]] if t else None
                B.td = bool(t and t.get("td"))
                B.ti = idx.get(t["i"]) if t else None
                B.cond = None
                if t:
                    if "c" in t:
                        B.cond = idx.get(t["c"])
                    elif "cs" in t:
                        B.cond = self._node(t["cs"], S, None, F, idx)
                B.lab = idx.get(b["lab"]) if "lab" in b else None
                B.labk = S[b["labk"]] if "labk" in b else None
                B.lt = b.get("lt")
                F.blocks[B.id] = B
        F._alias = None
        return F

    def _record(self, r, S):
        R = Record()
        R.name = S[r["n"]]
        R.file = rel(S[r["f"]])
        R.line = r["l"]
        R.bases = [S[b] for b in r["b"]]
        R.union = bool(r.get("union"))
        R.abstract = bool(r.get("abstract"))
        R.fields = []
        for f in r["fl"]:
            F = Field()
            F.n = f["n"]
            F.t = S[f["t"]]
            F.k = f["k"]
            F.rec = S[f["rec"]] if "rec" in f else None
            F.const = bool(f.get("const"))
            F.dmi = bool(f.get("dmi"))
            F.mutable = bool(f.get("mutable"))
            F.init = self._node(f["init"], S, None, None, {}) if "init" in f else None
            F.l = f["l"]
            F.trivdef = bool(f.get("trivdef"))
            R.fields.append(F)
        R.methods = []
        for m in r["m"]:
            d = dict(m)
            d["n"] = S[m["n"]]
            d["id"] = S[m["id"]]
            d["ret"] = S[m["ret"]]
            d["pt"] = [S[i] for i in m["pt"]]
            d["ov"] = [S[i] for i in m.get("ov", ())]
            R.methods.append(d)
        return R

    def _link(self):
        self.overriders = {}
        ov = {}
        for r in self.records.values():
            for m in r.methods:
                for o in m["ov"]:
                    ov.setdefault(o, set()).add(m["id"])
        for f in self.funcs.values():
            for o in f.ov:
                ov.setdefault(o, set()).add(f.id)
        self.direct_ov = ov
        self.by_name = {}
        for f in self.funcs.values():
            self.by_name.setdefault(f.name, []).append(f)
        self.methods_of = {}
        for f in self.funcs.values():
            if f.cls:
                self.methods_of.setdefault(f.cls, []).append(f)

    # -- queries
    def all_overriders(self, fid):
        res, st = set(), [fid]
        while st:
            x = st.pop()
            for y in self.direct_ov.get(x, ()):
                if y not in res:
                    res.add(y)
                    st.append(y)
        return res

    def callees(self, node):
        """Possible repo definitions of a call node (virtual calls resolved by class hierarchy)."""
        cid = node.x.get("cid")
        if not cid:
            return []
        out = []
        f = self.funcs.get(cid)
        if f is not None:
            out.append(f)
        if node.x.get("virt"):
            for o in self.all_overriders(cid):
                g = self.funcs.get(o)
                if g is not None:
                    out.append(g)
        return out

    def is_derived(self, name, base):
        seen, st = set(), [name]
        while st:
            x = st.pop()
            if x == base or x.startswith(base + "<"):
                return True
            if x in seen:
                continue
            seen.add(x)
            r = self.records.get(x)
            if r:
                st.extend(r.bases)
        return False

    def funcs_in(self, *prefixes):
        return [f for f in self.funcs.values() if any(f.file.startswith(p) for p in prefixes)]


CALL_KINDS = ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral")
LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")


def is_call(n):
    return n.k in CALL_KINDS


def self_construct(fn, node):
    """node constructs the same object that constructor fn constructs (base class or delegating initialiser)."""
    r = getattr(fn, "_selfc", None)
    if r is None:
        r = set()
        for d in fn.inits:
            if "m" not in d and d["e"] is not None:
                e = d["e"]
                while e.k in ("ExprWithCleanups", "InitListExpr") and len(e.c) == 1:
                    e = e.c[0]
                r.add(e.i)
        fn._selfc = r
    return node.i in r


def call_args(n):
    """Arguments of a call, without the callee expression (for operator calls: all operands)."""
    if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
        return n.c
    return n.c[1:]


def call_base(n):
    """Object expression of a member call (also for member operator calls)."""
    if n.k == "CXXMemberCallExpr":
        me = n.c[0]
        if me.k == "MemberExpr" and me.c:
            return me.c[0]
        return None
    if n.k == "CXXOperatorCallExpr" and n.x.get("cc"):
        return n.c[1] if len(n.c) > 1 else None
    return None


def short(name):
    """Unqualified function name."""
    if not name:
        return ""
    # strip template args at the end
    depth = 0
    i = len(name)
    while i > 0:
        ch = name[i - 1]
        if ch == ">" and not name.endswith("operator>") and "operator" not in name[max(0, i - 12):i]:
            depth += 1
        elif ch == "<" and depth > 0:
            depth -= 1
        elif ch == ":" and depth == 0:
            return name[i:]
        i -= 1
    return name
