"""Path-sensitive, interprocedural abstract interpreter over the extracted control-flow graphs.

A *client* defines a finite abstract state (hashable, immutable) and transfer functions for the calls and expressions it
knows.  The engine explores every path of the control-flow graph of a function until no new (block, state) pair appears,
follows calls into repository functions the client declares relevant (context sensitively, with parameters bound to the
caller's access paths), models exceptions (explicit throws, possibly throwing calls inside try blocks, handlers), and
keeps the facts needed to discard infeasible paths (constant booleans, null tests, repeated tests of the same condition).
"""
from .model import self_construct, is_call, call_args, call_base, short, LOOPS

PASS_OPS = ("->", "*")
CASTS = ("CXXStaticCastExpr", "CXXDynamicCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CStyleCastExpr",
         "CXXFunctionalCastExpr")
PASS_CALLS = ("std::move", "std::forward", "std::addressof", "std::ref", "std::cref", "std::static_pointer_cast",
              "std::dynamic_pointer_cast", "std::as_const", "std::get")
STD_EXC = {
    "std::exception": None, "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
    "std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error",
    "std::domain_error": "std::logic_error", "std::length_error": "std::logic_error",
    "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
    "std::underflow_error": "std::runtime_error", "std::bad_alloc": "std::exception", "std::bad_cast": "std::exception",
    "std::system_error": "std::runtime_error", "std::bad_function_call": "std::exception",
}


class Frame(object):
    __slots__ = ("fn", "this", "bind", "parent", "catching", "depth", "call", "chain", "caller")

    def __init__(self, fn, this, bind, parent=None, catching=False, depth=0, call=None, caller=None):
        self.fn = fn
        self.this = this
        self.bind = bind
        self.parent = parent        # lexical parent (lambdas)
        self.catching = catching    # some caller (or this frame's callers) catches exceptions
        self.depth = depth
        self.call = call
        self.caller = caller
        self.chain = (caller.chain + (call.i,)) if caller is not None and call is not None else ()

    def describe(self):
        """Call path from the root function to this frame."""
        out = [self.fn.name]
        f = self
        while f.caller is not None:
            out.append("%s (%s)" % (f.caller.fn.name, f.caller.fn.loc(f.call)))
            f = f.caller
        return " <- ".join(out)


class State(object):
    __slots__ = ("c", "env", "_h")

    def __init__(self, c, env):
        self.c = c
        self.env = env
        self._h = hash((c, env))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self._h == o._h and self.c == o.c and self.env == o.env

    def get(self, k):
        for a, b in self.env:
            if a == k:
                return b
        return None

    def set(self, k, v):
        e = [(a, b) for a, b in self.env if a != k]
        if v is not None:
            e.append((k, v))
        return State(self.c, frozenset(e))

    def client(self, c):
        return State(c, self.env)

    def kill(self, pred):
        e = [(a, b) for a, b in self.env if not pred(a)]
        if len(e) == len(self.env):
            return self
        return State(self.c, frozenset(e))


def key_mentions(key, path):
    if not isinstance(key, str):
        return False
    i = key.find(path)
    while i >= 0:
        j = i + len(path)
        if j >= len(key) or not (key[j].isalnum() or key[j] == "_"):
            if i == 0 or not (key[i - 1].isalnum() or key[i - 1] == "_"):
                return True
        i = key.find(path, i + 1)
    return False


class Client(object):
    """Base class; all hooks optional."""
    exceptional_exits = False   # report paths that leave the root function by an exception
    loop_once = False           # assume loop bodies execute at least once

    def relevant(self, fn):
        return False

    def call(self, eng, fr, st, node, callees):
        """Return a list of (State, value) or None when the client does not model this call."""
        return None

    pointer_paths = False           # pointer arithmetic denotes the same access path as indexing

    def path_of_call(self, eng, fr, n):
        """Access path denoted by the result of a call, if the client wants to name it."""
        return None

    def element(self, eng, fr, st, node):
        """Observe an element (before generic handling). Returns State (or list of State) or None."""
        return None

    def init(self, eng, fr, st, name):
        """A constructor initialiser (member name, base type or "<delegating>") completed."""
        return st

    def after(self, eng, fr, st, node):
        """Observe an element after it completed normally. Returns State or None."""
        return None

    def compare(self, eng, fr, st, op, a, b, node):
        """Comparison involving symbolic values; returns [(State,bool)] or None."""
        return None

    def truth(self, eng, fr, st, val, node):
        """Truth of a symbolic value; returns [(State,bool)] or None."""
        return None

    def sym(self, eng, fr, st, n):
        """Symbolic value of a non-call expression (member, variable, dereference)."""
        return None

    def branch(self, eng, fr, st, node, taken):
        """Refine after taking a branch on an unknown condition. Returns State or None (infeasible)."""
        return st

    def loop(self, eng, fr, st, loop, entering):
        """The condition of a loop was evaluated: another iteration begins, or the loop ends. Returns State."""
        return st

    def none_of(self, eng, fr, st, n, others):
        """The algorithm call n applies its predicate to no element at all; others are the states after applying it to one."""
        return st

    counters = False                # '++' on a local number that is known is followed (0, 1, many)

    def dtor(self, eng, fr, st, did, ty):
        return st

    def unwind(self, eng, fr, st, trynode):
        return st

    def throwing(self, eng, fr, st, node, tt):
        """A path is about to throw at node."""
        return st

    def leave(self, eng, fr, st, kind):
        """Function frame exit (inlined callees too)."""
        return st

    def use_value(self, eng, fr, st, node, val):
        return None


class Budget(Exception):
    pass


class Engine(object):
    def __init__(self, prog, client, max_steps=400000, max_depth=12):
        self.prog = prog
        self.client = client
        self.memo = {}
        self.active_fns = {}
        self.steps = 0
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.exit_states = None
        self.funcs_seen = set()
        self.calls_seen = set()
        self.status_throws = None

    # ------------------------------------------------------------------ access paths
    def lookup(self, fr, did):
        f = fr
        while f is not None:
            if did in f.bind:
                return f.bind[did]
            f = f.parent
        return None

    def path(self, fr, n, depth=0):
        """Access path string of an lvalue/pointer expression, or None."""
        if n is None or depth > 40:
            return None
        k = n.k
        if k == "CXXThisExpr":
            return fr.this
        if k == "BinaryOperator" and n.x["op"] in ("+", "-") and self.client.pointer_paths and "*" in (n.t or ""):
            for c in n.c:
                if "*" in (c.t or ""):
                    b = self.path(fr, c, depth + 1)
                    return None if b is None else b.rstrip("[]") + "[]"
        if k == "MemberExpr":
            if n.x.get("mk") == "field":
                if not n.c:
                    return fr.this + "." + n.x["m"]
                b = self.path(fr, n.c[0], depth + 1)
                return None if b is None else b + "." + n.x["m"]
            return None
        if k == "DeclRefExpr":
            if n.x.get("dk") in ("Function", "CXXMethod", "EnumConstant", "CXXConversion"):
                return None
            if n.x.get("glob"):
                return "G:" + n.x["q"]
            did = n.x["did"]
            b = self.lookup(fr, did)
            if b is not None:
                return b
            al = self.alias(fr.fn, did)
            if al is None:
                p = fr.parent
                while al is None and p is not None:
                    al = self.alias(p.fn, did)
                    p = p.parent
            if al is not None:
                r = self.path(fr, al, depth + 1)
                if r is not None:
                    return r
            return "L%d" % did
        if k == "UnaryOperator" and n.x.get("op") in ("*", "&"):
            return self.path(fr, n.c[0], depth + 1)
        if k in CASTS:
            return self.path(fr, n.c[0], depth + 1) if n.c else None
        if k == "ArraySubscriptExpr":
            b = self.path(fr, n.c[0], depth + 1)
            return None if b is None else b + "[]"
        if k == "ConditionalOperator":
            a = self.path(fr, n.c[1], depth + 1)
            b = self.path(fr, n.c[2], depth + 1)
            return a if a == b else None
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if len(n.c) == 1 and (n.x.get("copy") or n.x.get("move") or n.x.get("elid") or "std::reference_wrapper" in n.t
                                  or "iterator" in n.t):
                return self.path(fr, n.c[0], depth + 1)
            return None
        if k == "CXXOperatorCallExpr":
            op = n.x.get("op")
            if op in PASS_OPS:
                return self.path(fr, n.c[1], depth + 1)
            if op == "[]":
                b = self.path(fr, n.c[1], depth + 1)
                return None if b is None else b + "[]"
            if op in ("++", "--", "+", "-", "+=") and "iterator" in n.t:
                return self.path(fr, n.c[1], depth + 1)
            if op == "=":
                return None
        if is_call(n):
            cn = n.x.get("cn") or ""
            s = short(cn)
            hp = self.client.path_of_call(self, fr, n)
            if hp is not None:
                return hp
            if cn in PASS_CALLS and n.c[1:]:
                return self.path(fr, n.c[1], depth + 1)
            b = call_base(n)
            if cn.startswith("std::") or cn.startswith("boost::"):
                if b is not None:
                    if s == "get":
                        return self.path(fr, b, depth + 1)
                    if s in ("at", "front", "back", "begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "data"):
                        r = self.path(fr, b, depth + 1)
                        return None if r is None else r + "[]"
                elif s in ("begin", "end", "cbegin", "cend", "data") and n.c[1:]:
                    r = self.path(fr, n.c[1], depth + 1)
                    return None if r is None else r + "[]"
            fs = self.prog.callees(n)
            if len(fs) == 1 and not n.x.get("virt"):
                f = fs[0]
                e = single_return(f)
                if e is not None and (f.ret.endswith("&") or f.ret.endswith("*")):
                    nf = self.bind_frame(fr, n, f)
                    return self.path(nf, e, depth + 1)
        return None

    def alias(self, fn, did):
        """Initialiser of a reference/pointer/iterator local that is never re-assigned."""
        if fn._alias is None:
            fn._alias = compute_alias(fn)
        return fn._alias.get(did)

    def local_init(self, fn, did):
        if getattr(fn, "_linit", None) is None:
            fn._linit = compute_alias(fn, everything=True)
        return fn._linit.get(did)

    def bind_frame(self, fr, node, f, catching=False):
        """Frame for the callee f of call node evaluated in frame fr."""
        args = call_args(node)
        this = "?"
        lex = None
        base = call_base(node)
        if node.k == "CXXOperatorCallExpr" and node.x.get("cc"):
            args = args[1:]
        if f.cls and not f.static:
            if node.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                this = fr.this if self_construct(fr.fn, node) else "new%d" % node.i
            elif base is not None:
                this = self.path(fr, base) or "?"
            else:
                this = fr.this
        if f.lambda_:
            lex = fr
            this = fr.this
        bind = {}
        for i, (did, _n, ty) in enumerate(f.params):
            if i < len(args):
                if ty.endswith("&") or ty.endswith(("*", "*const")) or "unique_ptr" in ty or "shared_ptr" in ty or \
                        "reference_wrapper" in ty or "iterator" in ty:
                    p = self.path(fr, args[i])
                    if p is not None:
                        bind[did] = p
        return Frame(f, this, bind, lex, catching or fr.catching, fr.depth + 1, node, fr)

    # ------------------------------------------------------------------ canonical pure expressions
    def canon(self, fr, n, depth=0):
        if n is None or depth > 30:
            return None
        k = n.k
        if "cv" in n.x:
            return "#" + n.x["cv"]
        if k in ("IntegerLiteral", "CXXBoolLiteralExpr", "FloatingLiteral", "CharacterLiteral"):
            return "#" + n.x["v"]
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return "#null"
        if k == "DeclRefExpr" and n.x.get("dk") == "EnumConstant":
            return "E:" + n.x["q"]
        if k == "BinaryOperator" and n.x["op"] not in ("=", ","):
            a = self.canon(fr, n.c[0], depth + 1)
            b = self.canon(fr, n.c[1], depth + 1)
            if a is None or b is None:
                return None
            if n.x["op"] in ("==", "!=") and b < a:
                a, b = b, a
            return "(%s%s%s)" % (a, n.x["op"], b)
        if k == "UnaryOperator" and n.x["op"] in ("!", "-", "~", "+"):
            a = self.canon(fr, n.c[0], depth + 1)
            return None if a is None else n.x["op"] + a
        if k in CASTS and n.t == "bool" and len(n.c) == 1:
            return self.canon(fr, n.c[0], depth + 1)
        if k == "CXXMemberCallExpr" and short(n.x.get("cn") or "") == "operator bool":
            return self.canon(fr, call_base(n), depth + 1)
        if k == "CXXOperatorCallExpr" and n.x["op"] in ("==", "!=", "<", ">", "<=", ">="):
            a = self.canon(fr, n.c[1], depth + 1)
            b = self.canon(fr, n.c[2], depth + 1)
            if a is None or b is None:
                return None
            if n.x["op"] in ("==", "!=") and b < a:
                a, b = b, a
            return "(%s%s%s)" % (a, n.x["op"], b)
        if k == "CXXMemberCallExpr" and n.x.get("mconst") and not n.c[1:]:
            # argument-free const query, e.g. size() or empty()
            a = self.path(fr, call_base(n))
            if a is not None:
                return "%s.%s()" % (a, short(n.x.get("cn") or ""))
            return None
        if k == "DeclRefExpr" and n.x.get("dk") == "Var" and not n.x.get("glob") and n.t.startswith("const ") and \
                "bool" not in n.t and self.lookup(fr, n.x["did"]) is None:
            i = self.local_init(fr.fn, n.x["did"])
            if i is None and fr.parent is not None:
                i = self.local_init(fr.parent.fn, n.x["did"])
            while i is not None and i.k == "InitListExpr" and len(i.c) == 1:
                i = i.c[0]
            if i is not None and is_call(i) and i.x.get("mconst"):
                c = self.canon(fr, i, depth + 1)
                if c is not None:
                    return c
        p = self.path(fr, n)
        return p

    # ------------------------------------------------------------------ evaluation
    def value(self, fr, st, n):
        """Abstract value of an expression in this state: True/False, int, symbolic tuple, or None."""
        if n is None:
            return None
        v = st.get(("v", fr.depth, n.i))
        if v is not None:
            return v
        k = n.k
        if k in ("MemberExpr", "DeclRefExpr", "UnaryOperator", "ArraySubscriptExpr"):
            v = self.client.sym(self, fr, st, n)
            if v is not None:
                return v
        if k == "CXXBoolLiteralExpr":
            return n.x["v"] == "1"
        if "cv" in n.x:
            if n.t == "bool":
                return n.x["cv"] not in ("0", "false")
            try:
                return int(n.x["cv"])
            except ValueError:
                return None
        if k == "IntegerLiteral":
            return int(n.x["v"])
        if k == "UnaryOperator" and n.x["op"] == "!":
            v = self.value(fr, st, n.c[0])
            if isinstance(v, bool):
                return not v
            if isinstance(v, int):
                return v == 0
            if v is not None and isinstance(v, tuple):
                return ("not", v)
            return None
        if k in CASTS and n.c:
            v = self.value(fr, st, n.c[0])
            return v
        if k == "BinaryOperator":
            op = n.x["op"]
            if op == "&&":
                a = self.value(fr, st, n.c[0])
                if a is False:
                    return False
                b = self.value(fr, st, n.c[1])
                if a is True:
                    return b
                if b is False:
                    return False
                return None
            if op == "||":
                a = self.value(fr, st, n.c[0])
                if a is True:
                    return True
                b = self.value(fr, st, n.c[1])
                if a is False:
                    return b
                if b is True:
                    return True
                return None
            if op in ("==", "!=", "<", ">", "<=", ">="):
                r = self._cmp(fr, st, n, op, n.c[0], n.c[1])
                if r is not None:
                    return r
            if op == "=":
                return self.value(fr, st, n.c[1])
            if op == ",":
                return self.value(fr, st, n.c[1])
            if op in ("&", "|") and n.t == "bool" or op in ("&", "|") and n.c[0].t == "bool" and n.c[1].t == "bool":
                a = self.value(fr, st, n.c[0])
                b = self.value(fr, st, n.c[1])
                if isinstance(a, bool) and isinstance(b, bool):
                    return (a and b) if op == "&" else (a or b)
                if op == "&" and (a is False or b is False):
                    return False
                if op == "|" and (a is True or b is True):
                    return True
        if k == "CXXOperatorCallExpr" and n.x["op"] in ("==", "!="):
            r = self._cmp(fr, st, n, n.x["op"], n.c[1], n.c[2])
            if r is not None:
                return r
        if k == "CXXMemberCallExpr" and short(n.x.get("cn") or "") == "operator bool":
            v = self.value(fr, st, call_base(n))
            if v is not None:
                return v
        if k == "ConditionalOperator":
            c = self.value(fr, st, n.c[0])
            if c is True:
                return self.value(fr, st, n.c[1])
            if c is False:
                return self.value(fr, st, n.c[2])
            a = self.value(fr, st, n.c[1])
            b = self.value(fr, st, n.c[2])
            return a if a == b and type(a) == type(b) else None
        if k in ("CXXConstructExpr",) and len(n.c) == 1:
            return self.value(fr, st, n.c[0])
        if k == "InitListExpr" and len(n.c) == 1:
            return self.value(fr, st, n.c[0])
        c = self.canon(fr, n)
        if c is not None:
            v = st.get(c)
            if v is None and k == "DeclRefExpr" and "did" in n.x:
                v = st.get("L%d" % n.x["did"])
            return v
        return None

    def _isnull(self, n):
        return n.k in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or (n.x.get("cv") == "0" and n.t.endswith("*"))

    def _cmp(self, fr, st, n, op, x, y):
        if op in ("==", "!="):
            for a, b in ((x, y), (y, x)):
                if self._isnull(b):
                    v = self.value(fr, st, a)
                    if isinstance(v, bool):
                        return v if op == "!=" else not v
                    if isinstance(v, tuple):
                        return v if op == "!=" else ("not", v)
                    c = self.canon(fr, a)
                    if c is not None:
                        v = st.get(c)
                        if isinstance(v, bool):
                            return v if op == "!=" else not v
                    return None
        a = self.value(fr, st, x)
        b = self.value(fr, st, y)
        if a is None or b is None:
            return None
        if isinstance(a, tuple) or isinstance(b, tuple):
            return ("cmp", op, a, b)
        try:
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        except TypeError:
            return None

    def truth_outcomes(self, fr, st, n):
        """[(State, bool)] for branching on n."""
        v = self.value(fr, st, n)
        out = self._truth_val(fr, st, v, n)
        if out is not None:
            return out
        # unknown: fork, remember the outcome
        res = []
        for b in (True, False):
            s = self.assume(fr, st, n, b)
            if s is not None:
                s = self._tell(fr, st, s, n, b)
                if s is not None:
                    res.append((s, b))
        return res

    def _tell(self, fr, st0, s, n, b):
        """Report the outcome b of the unknown condition n, and of the operands it determines, to the client."""
        s = self.client.branch(self, fr, s, n, b)
        if s is not None and n.k == "BinaryOperator" and n.x["op"] in ("&&", "||"):
            neutral = n.x["op"] == "&&"
            for x, y in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                vx = self.value(fr, st0, x)
                if isinstance(vx, bool):
                    continue
                if b == neutral or self.value(fr, st0, y) is neutral:
                    s = self._tell(fr, st0, s, x, b)
                    if s is None:
                        return None
        return s

    def _truth_val(self, fr, st, v, n):
        if isinstance(v, bool):
            return [(st, v)]
        if isinstance(v, int):
            return [(st, v != 0)]
        if isinstance(v, tuple):
            if v[0] == "not":
                r = self._truth_val(fr, st, v[1], n)
                return None if r is None else [(s, not b) for s, b in r]
            if v[0] == "cmp":
                return self.client.compare(self, fr, st, v[1], v[2], v[3], n)
            return self.client.truth(self, fr, st, v, n)
        return None

    def assume(self, fr, st, n, b):
        """State with the (unknown) condition n assumed to be b."""
        if n.k == "UnaryOperator" and n.x["op"] == "!":
            return self.assume(fr, st, n.c[0], not b)
        if n.k in CASTS and n.c and n.t == "bool":
            return self.assume(fr, st, n.c[0], b)
        if n.k == "BinaryOperator" and n.x["op"] == "&&":
            if b:
                st = self.assume(fr, st, n.c[0], True)
                return None if st is None else self.assume(fr, st, n.c[1], True)
            va, vb = self.value(fr, st, n.c[0]), self.value(fr, st, n.c[1])
            if va is True:
                return self.assume(fr, st, n.c[1], False)
            if vb is True:
                return self.assume(fr, st, n.c[0], False)
            return st
        if n.k == "BinaryOperator" and n.x["op"] == "||":
            if not b:
                st = self.assume(fr, st, n.c[0], False)
                return None if st is None else self.assume(fr, st, n.c[1], False)
            va, vb = self.value(fr, st, n.c[0]), self.value(fr, st, n.c[1])
            if va is False:
                return self.assume(fr, st, n.c[1], True)
            if vb is False:
                return self.assume(fr, st, n.c[0], True)
            return st
        op = n.x.get("op")
        if op in ("==", "!=") and n.k in ("BinaryOperator", "CXXOperatorCallExpr"):
            x, y = (n.c[0], n.c[1]) if n.k == "BinaryOperator" else (n.c[1], n.c[2])
            for a, o in ((x, y), (y, x)):
                if self._isnull(o):
                    c = self.canon(fr, a)
                    if c is not None:
                        return st.set(c, b if op == "!=" else not b)
            # v == constant: remember the value itself when equal
            for a, o in ((x, y), (y, x)):
                ov = self.value(fr, st, o)
                c = self.canon(fr, a)
                if c is not None and isinstance(ov, (int, bool)) and (b == (op == "==")) and not c.startswith("#"):
                    return st.set(c, ov).set(("v", fr.depth, n.i), b)
            c = self.canon(fr, n)
            if c is not None:
                # store under both spellings
                if op == "!=":
                    c2 = c.replace("!=", "==", 1) if c.count("!=") == 1 else None
                else:
                    c2 = c.replace("==", "!=", 1) if c.count("==") == 1 else None
                st = st.set(c, b)
                if c2:
                    st = st.set(c2, not b)
                return st
        if n.k == "ConditionalOperator":
            return st.set(("v", fr.depth, n.i), b)
        c = self.canon(fr, n)
        if c is not None and not c.startswith("#"):
            return st.set(c, b)
        return st.set(("v", fr.depth, n.i), b)

    def kill_path(self, st, p):
        return st.kill(lambda k: key_mentions(k, p))

    # ------------------------------------------------------------------ running
    def run(self, fn, client_state, this="this", bind=None, env=frozenset()):
        """Explore fn from its entry. Returns set of ("ret"|"throw", State, value, exitnode)."""
        fr = Frame(fn, this, bind or {})
        return self._run(fr, State(client_state, env))

    def _fkey(self, fr, st):
        return (fr.fn.id, fr.this, tuple(sorted(fr.bind.items())), fr.catching, st, fr.chain,
                id(fr.parent) if fr.parent is not None else 0)

    def _run(self, fr, st0):
        key = self._fkey(fr, st0)
        if key in self.memo:
            return self.memo[key]
        if fr.fn.id in self.active_fns and self.active_fns[fr.fn.id] > 1 or fr.depth > self.max_depth:
            return {("ret", st0, None, None)}     # recursion: cut after one unrolling
        self.active_fns[fr.fn.id] = self.active_fns.get(fr.fn.id, 0) + 1
        try:
            res = self._explore(fr, st0)
        finally:
            self.active_fns[fr.fn.id] -= 1
        self.memo[key] = res
        return res

    def _explore(self, fr, st0):
        fn = fr.fn
        self.funcs_seen.add(fn.id)
        results = set()
        if not fn.blocks:
            return {("ret", st0, None, None)}
        work = [(fn.entry, st0)]
        seen = set(work)

        def push(b, s):
            if (b, s) not in seen:
                seen.add((b, s))
                work.append((b, s))

        while work:
            bid, st = work.pop()
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("path budget exceeded in %s" % fn.name)
            if bid == fn.exit:
                self.unstripped = st
                s = self._strip(fr, st)
                s2 = self.client.leave(self, fr, s, "ret")
                ret = st.get(("ret", fr.depth))
                rn = st.get(("retn", fr.depth))
                results.add(("ret", s2.set(("ret", fr.depth), None).set(("retn", fr.depth), None), ret, rn))
                continue
            B = fn.blocks[bid]
            # states while executing the block: list of live states
            live = [st]
            ended = False
            for el in B.e:
                nxt = []
                seenl = set()
                for s in live:
                    for kind, s2, tt, node in self._element(fr, s, el):
                        if kind == "next":
                            if s2 not in seenl:
                                seenl.add(s2)
                                nxt.append(s2)
                        else:   # throw
                            for tgt, s3 in self._throw_targets(fr, s2, node, tt):
                                if tgt is None:
                                    if fr.catching or self.client.exceptional_exits:
                                        s4 = self._strip(fr, s3)
                                        s4 = self.client.leave(self, fr, s4, "throw")
                                        results.add(("throw", s4, tt, node.i if node is not None else None))
                                else:
                                    push(tgt, s3)
                live = nxt
                if not live:
                    ended = True
                    break
            if ended or not live:
                continue
            if B.noret:
                continue
            self._branch(fr, B, live, push)
        return results

    def _strip(self, fr, st):
        """Drop the frame's locals and temporaries."""
        fn = fr.fn
        loc = getattr(fn, "_locals", None)
        if loc is None:
            loc = ["L%d" % p[0] for p in fn.params]
            if fn.body is not None:
                for n in fn.body.walk():
                    if n.k == "DeclStmt":
                        loc += ["L%d" % v.did for v in n.x["vars"]]
            fn._locals = loc
        d = fr.depth

        def pred(k):
            if isinstance(k, tuple):
                return k[0] in ("v", "loop") and k[1] >= d
            return any(key_mentions(k, l) for l in loc)
        return st.kill(pred)

    def _clear_tmp(self, fr, st):
        d = fr.depth
        return st.kill(lambda k: isinstance(k, tuple) and k[0] == "v" and k[1] >= d)

    def _branch(self, fr, B, live, push):
        succ = B.s
        tk = B.tk
        for st in live:
            if tk is None or B.td:
                for s in succ:
                    if s >= 0:
                        push(s, st)
                continue
            if tk == "SwitchStmt":
                v = self.value(fr, st, B.cond) if B.cond is not None else None
                self._switch(fr, B, st, v, push)
                continue
            if tk in ("CXXTryStmt",):
                for s in succ:
                    if s >= 0:
                        push(s, st)
                continue
            if len(succ) == 2 and B.cond is not None:
                logical = tk in ("BinaryOperator", "ConditionalOperator", "BinaryConditionalOperator")
                outs = self.truth_outcomes(fr, st, B.cond)
                for s2, b in outs:
                    t = succ[0] if b else succ[1]
                    if self.client.loop_once and tk in LOOPS and B.ti is not None:
                        lk = ("loop", fr.depth, B.ti.i)
                        if tk != "DoStmt":
                            if b:
                                s2 = s2.set(lk, True)
                            else:
                                if s2.get(lk) is not True:
                                    continue
                                s2 = s2.set(lk, None)
                    if t < 0:
                        continue
                    if tk in LOOPS:
                        # facts about "the current element" do not carry over to the next iteration
                        s2 = s2.kill(lambda k: isinstance(k, str) and "[]" in k)
                        if B.ti is not None:
                            s2 = self.client.loop(self, fr, s2, B.ti, b)
                    if logical:
                        s2 = s2.set(("v", fr.depth, B.cond.i), b)
                    else:
                        s2 = self._clear_tmp(fr, s2)
                    push(t, s2)
                continue
            if tk == "CXXForRangeStmt" and len(succ) == 2:
                for i, s in enumerate(succ):
                    if s >= 0:
                        push(s, self.client.loop(self, fr, st, B.ti, i == 0) if B.ti is not None else st)
                continue
            for s in succ:
                if s >= 0:
                    push(s, st)

    def _switch(self, fr, B, st, v, push):
        fn = fr.fn
        matched = False
        cands = []
        for s in B.s:
            if s < 0:
                continue
            blk = fn.blocks[s]
            lab = blk.lab
            val = None
            if lab is not None and lab.k == "CaseStmt" and lab.c:
                e = lab.c[0]
                val = self.value(fr, st, e)
            cands.append((s, lab.k if lab is not None else None, val))
        c = self.canon(fr, B.cond) if B.cond is not None else None
        if isinstance(v, int) and not isinstance(v, bool):
            for s, lk, val in cands:
                if lk == "CaseStmt" and val == v:
                    push(s, st)
                    matched = True
            if not matched:
                for s, lk, val in cands:
                    if lk != "CaseStmt":
                        push(s, st)
            return
        if isinstance(v, tuple) and v[0] not in ("cmp", "not"):
            certain = False
            for s, lk, val in cands:
                if lk == "CaseStmt" and val is not None:
                    r = self.client.compare(self, fr, st, "==", v, val, B.cond)
                    if r is None:
                        push(s, st)
                    for s2, b in r or ():
                        if b:
                            push(s, s2)
                    certain = certain or bool(r) and all(b for _s, b in r)
                elif lk == "CaseStmt":
                    push(s, st)
            if not certain:
                for s, lk, val in cands:
                    if lk != "CaseStmt":
                        push(s, st)
            return
        for s, lk, val in cands:
            s2 = st
            if c is not None and lk == "CaseStmt" and val is not None and not c.startswith("#"):
                s2 = st.set(c, val)
            push(s, s2)

    # ------------------------------------------------------------------ exceptions
    def _throw_targets(self, fr, st, node, tt):
        """Where control goes when node throws (tt: thrown type or None=unknown)."""
        out = []
        n = node
        while n is not None:
            p = n.p
            if p is not None and p.k == "CXXTryStmt" and p.c and p.c[0] is n:
                for h in p.c[1:]:
                    if h.k != "CXXCatchStmt":
                        continue
                    m = self._matches(tt, h.x.get("ct"))
                    if m:
                        blk = self._catch_block(fr.fn, h)
                        if blk is not None:
                            s2 = self._clear_tmp(fr, self.client.unwind(self, fr, st, p))
                            out.append((blk, s2))
                    if m == 2:
                        return out
            n = p
        out.append((None, self._clear_tmp(fr, self.client.unwind(self, fr, st, None))))
        return out

    def in_try(self, node):
        n = node
        while n is not None:
            p = n.p
            if p is not None and p.k == "CXXTryStmt" and p.c and p.c[0] is n:
                return True
            n = p
        return False

    def _catch_block(self, fn, h):
        for b in fn.blocks.values():
            if b.lab is h:
                return b.id
        return None

    def _matches(self, tt, ct):
        """0 no, 1 maybe, 2 definitely."""
        if ct is None or ct == "...":
            return 2
        c = ct.replace("const ", "").replace("&", "").strip()
        if tt is None:
            return 2 if c == "std::exception" else 1
        t = tt.replace("const ", "").replace("&", "").strip()
        seen = set()
        while t and t not in seen:
            if t == c:
                return 2
            seen.add(t)
            if t in STD_EXC:
                t = STD_EXC[t]
            else:
                r = self.prog.records.get(t)
                if r is None:
                    return 1
                t = r.bases[0] if r.bases else None
        return 0

    # ------------------------------------------------------------------ elements
    def _element(self, fr, st, el):
        """Yields (kind, State, thrown type, node); kind 'next' or 'throw'."""
        if el[0] == "dtor":
            return [("next", self.client.dtor(self, fr, st, el[1], el[2]), None, None)]
        if el[0] == "init":
            return [("next", self.client.init(self, fr, st, el[1]), None, None)]
        n = el[1]
        c = self.client.element(self, fr, st, n)
        if c is not None:
            sts = c if isinstance(c, list) else [c]
        else:
            sts = [st]
        res = []
        for s in sts:
            for r in self._stmt(fr, s, n):
                if r[0] == "next":
                    a = self.client.after(self, fr, r[1], n)
                    if a is not None:
                        r = ("next", a, r[2], r[3])
                res.append(r)
        # end of a full expression: temporaries vanish
        if n.p is None or n.p.k in ("CompoundStmt", "CaseStmt", "DefaultStmt") or n.k in ("DeclStmt", "ReturnStmt"):
            res = [(k, self._clear_tmp(fr, s) if k == "next" else s, tt, nd) for k, s, tt, nd in res]
        return res

    def _stmt(self, fr, st, n):
        k = n.k
        if is_call(n) or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self._call(fr, st, n)
        if k == "DeclStmt":
            for v in n.x["vars"]:
                key = "L%d" % v.did
                st = self.kill_path(st, key)
                if v.init is not None and not v.static:
                    isref = v.t.endswith("&") or v.t.endswith("*")
                    if isref and self.alias(fr.fn, v.did) is not None and self.path(fr, v.init) is not None:
                        continue
                    val = self.value(fr, st, v.init)
                    if val is not None and not (isinstance(val, int) and not isinstance(val, bool) and
                                                not self._trackable(fr.fn, v) and not
                                                (self.client.counters and not (n.p is not None and n.p.k == "ForStmt"))):
                        st = st.set(key, val)
                    elif v.t in ("bool", "const bool"):
                        # fork on the unknown flag so that later tests of it correlate with the tested facts
                        outs = self._flag_fork(fr, st, v.init)
                        if outs is not None:
                            return [("next", s.set(key, b), None, None) for s, b in outs]
            return [("next", st, None, None)]
        if k == "BinaryOperator" and n.x["op"] == "=":
            p = self.path(fr, n.c[0])
            val = self.value(fr, st, n.c[1])
            if p is not None:
                st = self.kill_path(st, p)
                if isinstance(val, int) and not isinstance(val, bool) and n.c[0].t not in ("bool",) and \
                        not self._enumlike(n.c[0].t):
                    val = None
                if val is not None:
                    st = st.set(p, val)
                elif n.c[0].t == "bool":
                    outs = self._flag_fork(fr, st, n.c[1])
                    if outs is not None:
                        return [("next", s.set(p, b), None, None) for s, b in outs]
            return [("next", st, None, None)]
        if k == "CompoundAssignOperator":
            p = self.path(fr, n.c[0])
            if p is not None:
                a, b = self.value(fr, st, n.c[0]), self.value(fr, st, n.c[1])
                st = self.kill_path(st, p)
                if n.x["op"] in ("|=", "&=") and n.c[0].t == "bool":
                    if isinstance(a, bool) and isinstance(b, bool):
                        st = st.set(p, (a or b) if n.x["op"] == "|=" else (a and b))
                    elif n.x["op"] == "|=" and (a is True or b is True):
                        st = st.set(p, True)
                    elif n.x["op"] == "&=" and (a is False or b is False):
                        st = st.set(p, False)
                    elif isinstance(a, bool) and isinstance(b, tuple):
                        st = st.set(p, b)
                    elif isinstance(b, tuple):
                        outs = self._truth_val(fr, st, b, n.c[1])
                        if outs is not None:
                            absorb = n.x["op"] == "|="
                            res = []
                            for x, y in outs:
                                if y == absorb:
                                    x = x.set(p, absorb)
                                elif a is not None:
                                    x = x.set(p, a)
                                res.append(("next", x, None, None))
                            return res
                    elif isinstance(a, bool):
                        outs = self._flag_fork(fr, st, n.c[1])
                        if outs is not None:
                            return [("next", x.set(p, (a or y) if n.x["op"] == "|=" else (a and y)), None, None)
                                    for x, y in outs]
            return [("next", st, None, None)]
        if k == "UnaryOperator" and n.x["op"] in ("++", "--", "++post", "--post"):
            p = self.path(fr, n.c[0])
            if p is not None:
                old = st.get(p) if self.client.counters and n.x["op"].startswith("++") and \
                    not (n.p is not None and n.p.k == "ForStmt") else None
                st = self.kill_path(st, p)
                if isinstance(old, int) and not isinstance(old, bool):
                    st = st.set(p, min(old + 1, 2))
            return [("next", st, None, None)]
        if k == "ReturnStmt":
            if n.c:
                val = self.value(fr, st, n.c[0])
                if val is None and n.c[0].t == "bool":
                    outs = self._flag_fork(fr, st, n.c[0])
                    if outs is not None:
                        return [("next", s.set(("ret", fr.depth), b).set(("retn", fr.depth), n.i), None, None)
                                for s, b in outs]
                st = st.set(("ret", fr.depth), val)
            st = st.set(("retn", fr.depth), n.i)
            return [("next", st, None, None)]
        if k == "CXXThrowExpr":
            tt = n.x.get("tt")
            st = self.client.throwing(self, fr, st, n, tt)
            return [("throw", st, tt, n)]
        if k == "CXXNewExpr" and self.in_try(n):
            return [("next", st, None, None), ("throw", st, "std::bad_alloc", n)]
        return [("next", st, None, None)]

    def _enumlike(self, t):
        t = t.replace("const ", "")
        return t in self.prog.enums

    def _trackable(self, fn, v):
        return self._enumlike(v.t) or v.t.startswith("const ")

    def _flag_fork(self, fr, st, e):
        """For an unknown boolean expression: fork when its outcome is informative."""
        told = getattr(self.client, "tell_flags", False)
        c = self.canon(fr, e)
        if not told and c is None and e.k != "UnaryOperator" and not (e.k == "BinaryOperator" and e.x["op"] in ("&&", "||")):
            return None
        res = []
        for b in (True, False):
            s = self.assume(fr, st, e, b)
            if s is not None and told:
                s = self._tell(fr, st, s, e, b)
            if s is not None:
                res.append((s, b))
        return res

    def _may_throw(self, n):
        return not n.x.get("nothrow")

    def _call(self, fr, st, n):
        client = self.client
        callees = self.prog.callees(n)
        vkey = ("v", fr.depth, n.i)
        # status( Error | Critical, ... ) does not return
        cn = n.x.get("cn") or ""
        if short(cn) == "status" and ("Component" in (n.x.get("cc") or "")) and n.c[1:]:
            v = self.value(fr, st, n.c[1])
            kinds = self.status_kinds()
            if isinstance(v, int) and kinds and v in kinds:
                st = client.throwing(self, fr, st, n, "std::runtime_error")
                return [("throw", st, "std::runtime_error", n)]
        r = client.call(self, fr, st, n, callees)
        out = []
        if r is not None:
            for item in r:
                s, v = item[0], item[1]
                if len(item) > 2 and item[2] == "throw":
                    out.append(("throw", s, item[3] if len(item) > 3 else None, n))
                else:
                    out.append(("next", s.set(vkey, v) if v is not None else s, None, None))
            return out
        rel = [f for f in callees if f.blocks and client.relevant(f)]
        if rel and fr.depth < self.max_depth:
            self.calls_seen.add((fr.fn.id, n.i))
            catching = fr.catching or self.in_try(n)
            got = set()
            for f in rel:
                nf = self.bind_frame(fr, n, f, catching)
                s0 = self._bind_values(fr, nf, st, n, f)
                for kind, s, v, rn in self._run(nf, s0):
                    s = s.kill(lambda k: isinstance(k, tuple) and k[0] == "v" and k[1] > fr.depth)
                    if kind == "ret":
                        s = s.set(vkey, v) if v is not None else s
                        got.add(("next", s, None, None))
                    else:
                        got.add(("throw", s, v, n))
            if len(rel) < len(callees):
                got.add(("next", st, None, None))
            return list(got)
        # lambdas handed to an unknown function: executed any number of times
        lams = [self._lambda_of(fr, a) for a in call_args(n)]
        lams = [l for l in lams if l is not None and client.relevant(l)]
        if lams and not callees and short(cn) in ("any_of", "all_of", "none_of") and cn.startswith("std::") and len(lams) == 1:
            f = lams[0]
            bind = {}
            a0 = call_args(n)[0]
            while not is_call(a0) and len(a0.c) == 1:
                a0 = a0.c[0]
            if f.params and is_call(a0) and short(a0.x.get("cn") or "") in ("begin", "cbegin") and call_base(a0) is not None:
                p = self.path(fr, call_base(a0))
                if p is not None:
                    bind[f.params[0][0]] = p + "[]"
            nf = Frame(f, fr.this, bind, fr, fr.catching or self.in_try(n), fr.depth + 1, n, fr)
            neutral = short(cn) != "any_of"
            out = []
            for kind, s, v, rn in self._run(nf, st):
                s = s.kill(lambda k: isinstance(k, tuple) and k[0] == "v" and k[1] > fr.depth)
                if kind != "ret":
                    out.append(("throw", s, v, n))
                    continue
                for s2, b in (self._truth_val(fr, s, v, n) if v is not None else None) or [(s, True), (s, False)]:
                    out.append(("next", s2.set(vkey, b != (short(cn) == "none_of")), None, None))
            if not client.loop_once:
                out.append(("next", client.none_of(self, fr, st, n, [o[1] for o in out]).set(vkey, neutral), None, None))
            return list(set(out))
        if lams and not callees:
            sts = {st} if not client.loop_once else set()
            work = [st]
            seen = set()
            thr = set()
            while work:
                s = work.pop()
                if s in seen:
                    continue
                seen.add(s)
                for f in lams:
                    nf = Frame(f, fr.this, {}, fr, fr.catching or self.in_try(n), fr.depth + 1, n, fr)
                    for kind, s2, v, rn in self._run(nf, s):
                        if kind == "ret":
                            if s2 not in sts:
                                sts.add(s2)
                                work.append(s2)
                        else:
                            thr.add((s2, v))
            out = [("next", s, None, None) for s in sts]
            out += [("throw", s, v, n) for s, v in thr]
            return out
        # unmodelled call
        st2 = self._havoc(fr, st, n, callees)
        out.append(("next", st2, None, None))
        if self._may_throw(n) and (self.in_try(n) or fr.catching or client.exceptional_exits) and \
                self._call_may_throw(n, callees):
            s = client.throwing(self, fr, st, n, None)
            out.append(("throw", s, None, n))
        return out

    def _call_may_throw(self, n, callees):
        p = n.p
        while p is not None and p.k not in ("CompoundStmt", "DeclStmt"):
            if p.k == "CXXThrowExpr":
                return False        # building the exception object itself
            p = p.p
        if n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and (n.x.get("elid") or n.x.get("move")):
            return False
        if callees and not n.x.get("virt"):
            return any(self.fn_may_throw(f) for f in callees)
        return True

    def fn_may_throw(self, f, stack=None):
        mt = getattr(f, "_mt", None)
        if mt is not None:
            return mt
        if f.nothrow:
            f._mt = False
            return False
        if f.body is None:
            return True
        stack = stack or set()
        if f.id in stack:
            return False
        stack.add(f.id)
        res = False
        for n in list(f.body.walk()) + [m for i in f.inits if i["e"] is not None for m in i["e"].walk()]:
            if n.k == "CXXThrowExpr":
                res = True
            elif n.k == "CXXNewExpr":
                res = True
            elif is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                if n.x.get("nothrow"):
                    continue
                cs = self.prog.callees(n)
                if not cs:
                    if n.k == "CXXConstructExpr" and not n.c:
                        continue
                    res = True
                elif any(self.fn_may_throw(g, stack) for g in cs):
                    res = True
            if res:
                break
        if len(stack) == 1 or res:
            f._mt = res
        stack.discard(f.id)
        return res

    def _lambda_of(self, fr, a):
        if a.k == "LambdaExpr" and a.x.get("lambda"):
            return self.prog.funcs.get(a.x["lambda"])
        if a.k in ("CXXConstructExpr",) and len(a.c) == 1:
            return self._lambda_of(fr, a.c[0])
        if a.k == "DeclRefExpr" and "did" in a.x:
            i = self.local_init(fr.fn, a.x["did"])
            if i is not None and i.k != "DeclRefExpr":
                return self._lambda_of(fr, i)
        return None

    def _bind_values(self, fr, nf, st, n, f):
        """Values of by-value parameters."""
        args = call_args(n)
        if n.k == "CXXOperatorCallExpr" and n.x.get("cc"):
            args = args[1:]
        for i, (did, _n, ty) in enumerate(f.params):
            if i < len(args) and did not in nf.bind:
                v = self.value(fr, st, args[i])
                if v is not None:
                    st = st.set("L%d" % did, v)
        return st

    def _havoc(self, fr, st, n, callees):
        """Facts an unmodelled call may change: objects assigned through it, by-reference arguments, fields written."""
        op = n.x.get("op")
        if n.k == "CXXOperatorCallExpr" and op in ("=", "+=", "-=", "++", "--", "<<", ">>", "|=", "&="):
            p = self.path(fr, n.c[1])
            if p is not None:
                st = self.kill_path(st, p)
                if op == "=" and len(n.c) > 2:
                    v = self.value(fr, st, n.c[2])
                    if v is not None and not isinstance(v, tuple):
                        st = st.set(p, v)
        b = call_base(n)
        if st.env and n.k == "CXXMemberCallExpr" and not n.x.get("mconst"):
            p = self.path(fr, b) if b is not None else fr.this
            if p is not None:
                # results of argument-free queries of an object do not survive a modifying call on it
                st = st.kill(lambda k: isinstance(k, str) and "()" in k and key_mentions(k, p))
        if b is not None and not n.x.get("mconst") and n.k == "CXXMemberCallExpr":
            p = self.path(fr, b)
            s = short(n.x.get("cn") or "")
            if p is not None and s not in ("get", "operator bool", "begin", "end", "operator->", "operator*", "at"):
                if (n.x.get("cn") or "").startswith("std::"):
                    st = self.kill_path(st, p)
        pts = n.x.get("pt") or []
        args = call_args(n)
        if n.k == "CXXOperatorCallExpr" and n.x.get("cc"):
            args = args[1:]
        for i, t in enumerate(pts):
            if i < len(args) and t.endswith("&") and not t.startswith("const "):
                p = self.path(fr, args[i])
                if p is not None and p.startswith("L"):
                    st = self.kill_path(st, p)
                elif p is not None and st.env:
                    st = st.kill(lambda k: isinstance(k, str) and "()" in k and key_mentions(k, p))
            if i < len(args) and t.endswith("*") and not t.startswith("const ") and args[i].k == "UnaryOperator":
                p = self.path(fr, args[i])
                if p is not None and p.startswith("L"):
                    st = self.kill_path(st, p)
        if callees and st.env:
            fields = set()
            for f in callees:
                fields |= self.fields_written(f)
            if fields:
                def pred(k):
                    return isinstance(k, str) and any(("." + x) in k and key_mentions(k, x) for x in fields)
                st = st.kill(pred)
        return st

    def fields_written(self, f, stack=None):
        fw = getattr(f, "_fw", None)
        if fw is not None:
            return fw
        stack = stack or set()
        if f.id in stack or len(stack) > 40:
            return set()
        stack.add(f.id)
        res = set()
        if f.body is not None:
            for n in f.body.walk():
                tgt = None
                if n.k == "BinaryOperator" and n.x["op"] == "=" or n.k == "CompoundAssignOperator":
                    tgt = n.c[0]
                elif n.k == "UnaryOperator" and n.x["op"] in ("++", "--", "++post", "--post"):
                    tgt = n.c[0]
                elif n.k == "CXXOperatorCallExpr" and n.x["op"] in ("=", "+=", "-="):
                    tgt = n.c[1]
                elif n.k == "CXXMemberCallExpr" and not n.x.get("mconst") and (n.x.get("cn") or "").startswith("std::"):
                    tgt = call_base(n)
                if tgt is not None:
                    while tgt is not None and tgt.k in ("ArraySubscriptExpr", "CXXOperatorCallExpr", "UnaryOperator"):
                        tgt = tgt.c[0] if tgt.k != "CXXOperatorCallExpr" else (tgt.c[1] if len(tgt.c) > 1 else None)
                    if tgt is not None and tgt.k == "MemberExpr" and tgt.x.get("mk") == "field":
                        res.add(tgt.x["m"])
                if is_call(n):
                    for g in self.prog.callees(n):
                        res |= self.fields_written(g, stack)
        stack.discard(f.id)
        if not stack:
            f._fw = res
        return res

    def status_kinds(self):
        """StatusMessage kinds for which reporting a status throws (read from the implementation)."""
        if self.status_throws is None:
            kinds = set()
            en = self.prog.enums.get("visr::StatusMessage::Kind")
            if en:
                vals = dict((a, int(b)) for a, b in en[0])
                impl = [f for f in self.prog.by_name.get("visr::impl::ComponentImplementation::status", ())]
                if impl:
                    self.status_throws = set()
                    for f in impl:
                        for v in vals.values():
                            e = Engine(self.prog, Client())
                            e.client.exceptional_exits = True
                            e.status_throws = set()
                            fr = Frame(f, "this", {}, None, True)
                            s = State((), frozenset([("L%d" % f.params[0][0], v)]))
                            rs = e._run(fr, s)
                            if rs and all(x[0] == "throw" for x in rs):
                                kinds.add(v)
                else:
                    # implementation not in the analysed set: the documented contract
                    kinds = {vals.get("Error"), vals.get("Critical")} - {None}
            self.status_throws = kinds
        return self.status_throws


def single_return(f):
    r = getattr(f, "_sret", 0)
    if r != 0:
        return r
    res = None
    b = f.body
    if b is not None and b.k == "CompoundStmt" and len(b.c) == 1 and b.c[0].k == "ReturnStmt" and b.c[0].c:
        res = b.c[0].c[0]
    f._sret = res
    return res


def compute_alias(fn, everything=False):
    """did -> initialiser for single-assignment references, pointers, smart pointers and iterators."""
    res = {}
    assigned = set()
    refs = set()
    if fn.body is None:
        return res
    for n in fn.body.walk():
        if n.k == "DeclStmt":
            for v in n.x["vars"]:
                if v.init is None:
                    continue
                t = v.t
                if t.endswith("&"):
                    refs.add(v.did)
                if everything or t.endswith("&") or t.endswith("*") or t.endswith("*const") or "reference_wrapper" in t or \
                        "iterator" in t or "* const" in t or t.endswith("*__restrict"):
                    res[v.did] = v.init
        tgt = None
        if n.k == "BinaryOperator" and n.x["op"] == "=" or n.k == "CompoundAssignOperator":
            tgt = n.c[0]
        elif n.k == "UnaryOperator" and n.x["op"] in ("++", "--", "++post", "--post"):
            tgt = n.c[0]
        elif n.k == "CXXOperatorCallExpr" and n.x.get("op") in ("=", "+=", "-="):
            tgt = n.c[1]
        if tgt is not None and tgt.k == "DeclRefExpr":
            assigned.add(tgt.x.get("did"))
    # blocks may contain synthesised single-variable declarations (range-for)
    for b in fn.blocks.values():
        for el in b.e:
            if el[0] == "s" and el[1].k == "DeclStmt":
                for v in el[1].x["vars"]:
                    if v.init is not None and v.did not in res:
                        t = v.t
                        if everything or t.endswith("&") or t.endswith("*") or "iterator" in t:
                            res[v.did] = v.init
    for d in assigned:
        # re-assigned references keep referring to the same object; pointers do not
        if d in res and d not in refs:
            del res[d]
    return res


def reaching(prog, pred):
    """Ids of the repository functions from which a node satisfying pred is reachable over the call graph."""
    rev = {}
    base = set()
    for f in prog.funcs.values():
        roots = [f.body] if f.body is not None else []
        roots += [i["e"] for i in f.inits if i["e"] is not None]
        for r in roots:
            for n in r.walk():
                if pred(n):
                    base.add(f.id)
                if is_call(n) or n.k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    for g in prog.callees(n):
                        rev.setdefault(g.id, set()).add(f.id)
                if n.k == "LambdaExpr" and n.x.get("lambda"):
                    rev.setdefault(n.x["lambda"], set()).add(f.id)
    res = set(base)
    st = list(base)
    while st:
        x = st.pop()
        for y in rev.get(x, ()):
            if y not in res:
                res.add(y)
                st.append(y)
    return res
