"""Which exceptions can leave a function (type-based, interprocedural)."""
import re
from .model import is_call, call_args, short
from .sim import STD_EXC

ANY = "any exception"

THROWING = {
    "at": "std::out_of_range", "stoi": "std::invalid_argument", "stol": "std::invalid_argument", "stoul": "std::invalid_argument",
    "stoull": "std::invalid_argument", "stoll": "std::invalid_argument", "stof": "std::invalid_argument", "stod": "std::invalid_argument",
    "lexical_cast": "boost::bad_lexical_cast", "read_json": "std::runtime_error", "read_xml": "std::runtime_error",
    "get_child": "std::runtime_error", "rethrow_exception": ANY, "substr": "std::out_of_range",
}
ANC = {"boost::bad_lexical_cast": "std::bad_cast", "std::bad_cast": "std::exception"}


def clean(t):
    return (t or "").replace("const ", "").replace("&", "").replace("class ", "").strip()


def dead(n):
    """n is the branch of a conditional that a constant condition excludes."""
    p = n.p
    if p is None or p.k not in ("ConditionalOperator", "IfStmt") or len(p.c) < 2:
        return False
    c = p.c[0]
    v = c.x.get("cv")
    if v is None and c.k == "CXXBoolLiteralExpr":
        v = c.x.get("v")
    if v is None:
        return False
    taken = 1 if str(v) not in ("0", "False", "false") else 2
    return n in p.c[1:] and p.c.index(n) != taken


DEFERRED = re.compile(r"^(async_\w+|post|dispatch|defer|thread|jthread|async|signal|atexit|function|def\w*|register\w*|jack_\w+|Pa_\w+|connect\w*)$")


def handed(n):
    """A function reference or lambda n is handed to library code that calls it before the statement ends."""
    lib = False
    p, c = n.p, n
    while p is not None and p.k not in ("CompoundStmt", "IfStmt", "ForStmt", "WhileStmt", "CXXForRangeStmt", "ReturnStmt", "LambdaExpr"):
        if is_call(p) or p.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            cn = p.x.get("cn") or p.t or ""
            s = short(cn.split("<")[0])
            if DEFERRED.match(s):
                return False
            if n.k == "LambdaExpr":
                if is_call(p) and c is not p.c[0] and cn.startswith("std::"):
                    return True
            elif s == "bind":
                lib = True
        c, p = p, p.p
    return lib


class Effects(object):
    def __init__(self, prog):
        self.prog = prog
        self.esc = {}
        self._solve()

    # ------------------------------------------------------------------ exception classes
    def caught(self, t, ct):
        if ct is None or ct == "...":
            return True
        c = clean(ct)
        if t == ANY:
            return False
        seen = set()
        while t and t not in seen:
            if t == c:
                return True
            seen.add(t)
            if t in STD_EXC:
                t = STD_EXC[t]
            elif t in ANC:
                t = ANC[t]
            else:
                r = self.prog.records.get(t)
                if r is None:
                    return c == "std::exception" and not t.endswith("*") and "char" not in t and t not in ("int",)
                t = r.bases[0] if r.bases else None
        return False

    def escaping(self, types, node, root):
        """The subset of types that leaves the enclosing try blocks of node (inside root)."""
        n = node
        types = set(types)
        while n is not None and types:
            p = n.p
            if p is not None and p.k == "CXXTryStmt" and p.c and p.c[0] is n:
                types = set(t for t in types if not any(self.caught(t, h.x.get("ct")) for h in p.c[1:] if h.k == "CXXCatchStmt"))
            if p is not None and p.k == "LambdaExpr":
                return set()
            n = p
        return types

    # ------------------------------------------------------------------ sources
    def own(self, n, f):
        """Exception types raised by node n itself (not through functions of the program)."""
        if n.k == "CXXThrowExpr":
            if n.x.get("tt"):
                return {clean(n.x["tt"])}
            h = n.p
            while h is not None and h.k != "CXXCatchStmt":
                h = h.p
            if h is None or h.x.get("ct") in (None, "..."):
                return {ANY}
            return {clean(h.x["ct"])}
        if n.k == "CXXDynamicCastExpr" and not (n.t or "").endswith("*"):
            return {"std::bad_cast"}
        if is_call(n) and not n.x.get("nothrow"):
            cn = n.x.get("cn")
            if self.prog.callees(n):
                return set()
            if not cn and n.k == "CallExpr":
                return {"std::exception"}           # through a function pointer: the toolkit's exceptions
            s = short(cn or "")
            if cn and cn.startswith(("std::", "boost::")) and s in THROWING:
                if s == "get_child" and "optional" in cn:
                    return set()
                return {THROWING[s]}
            if cn and cn.startswith("std::function") and s == "operator()":
                return {"std::exception"}
            if cn and "basic_ptree" in cn and s == "get" and len(call_args(n)) == 1:
                return {"std::runtime_error"}
        return set()

    def _solve(self):
        prog = self.prog
        sites = {}
        callers = {}
        todo = []
        for f in prog.funcs.values():
            self.esc[f.id] = {}
            if f.body is None:
                continue
            L = []
            roots = [f.body] + [d["e"] for d in f.inits if d["e"] is not None]
            for root in roots:
                st = [root]
                while st:
                    n = st.pop()
                    if n.k == "LambdaExpr" and n.x.get("lambda") in prog.funcs and handed(n):
                        L.append((n, n.x["lambda"]))
                        callers.setdefault(n.x["lambda"], []).append(f.id)
                    if dead(n) or n.k == "LambdaExpr" or n.k == "UnaryExprOrTypeTraitExpr" or n.k == "CXXNoexceptExpr":
                        continue
                    if n.k == "DeclStmt":
                        st += [v.init for v in n.x["vars"] if v.init is not None]
                    o = self.own(n, f)
                    if o:
                        o = self.escaping(o, n, root)
                    for t in o:
                        self.esc[f.id].setdefault((t, n.k == "CXXThrowExpr"), (n, None))
                    if n.k == "DeclRefExpr" and n.x.get("cid") in prog.funcs and handed(n):
                        L.append((n, n.x["cid"]))
                        callers.setdefault(n.x["cid"], []).append(f.id)
                    if is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                        for g in prog.callees(n):
                            if not g.nothrow:
                                L.append((n, g.id))
                                callers.setdefault(g.id, []).append(f.id)
                    st += [c for c in n.c if c is not None]
            sites[f.id] = L
            todo.append(f.id)
        work = set(todo)
        while work:
            fid = work.pop()
            changed = False
            for n, g in sites.get(fid, ()):
                ts = set(self.esc.get(g, ())) - set(self.esc[fid])
                if ts:
                    out = self.escaping(set(t for t, _ in ts), n, None)
                    for t in ts:
                        if t[0] in out:
                            self.esc[fid][t] = (n, g)
                            changed = True
            if changed:
                work |= set(callers.get(fid, ()))

    def chain(self, fid, t):
        """Call chain from function fid to the place where t = (type, thrown by the program itself) is raised."""
        out = []
        seen = set()
        while fid is not None and fid not in seen:
            seen.add(fid)
            n, g = self.esc[fid].get(t, (None, None))
            if n is None:
                break
            f = self.prog.funcs[fid]
            out.append("%s (%s:%s)" % (f.name, f.file, n.l))
            fid = g
        return out
