"""Abstract walk over a function and the project functions it calls.

Every expression is turned into a *term*, a nested tuple that says where the value comes from in the function's inputs (single assignments,
helper functions, comprehensions, filters and temporaries dissolve), and at every effect the conditions known to hold are available as terms
too.  Loops are walked once with what they assign made unknown, branches are joined; nothing is executed and no path is enumerated.

Terms:
  ('const', v) ('param', name) ('self',) ('attr', t, name) ('elem', iterable, uid) ('key', dict, uid) ('item', t, key) ('slice', t, text)
  ('call', name, args, kws) external or built-in function     ('meth', recv, name, args, kws) method of an unknown object
  ('pcall', qualname, args) a project function that is not looked into (recursion, depth)
  ('cmp', op, a, b) ('not', t) ('and', ts) ('or', ts) ('bin', op, a, b) ('if', c, a, b) ('tuple', ts) ('list', ts) ('set', ts) ('dict', pairs)
  ('comp', kind, iterable, var, element, conds)  a comprehension over one iterable (var is the ('elem', ...) it binds)
  ('obj', class, args, kws, uid) an object made by calling a project class
  ('star', t) ('lambda', uid) ('fn', qualname) ('phi', frozenset) ('new', what, uid) ('opaque', uid)"""
import ast
from .core import walk_own, targets, Func, Class, bind as bindcall

NEG = {"==": "!=", "!=": "==", "is": "is not", "is not": "is", "in": "not in", "not in": "in", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}
OPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in", ast.Lt: "<", ast.LtE: "<=",
       ast.Gt: ">", ast.GtE: ">="}
COPIES = ("list", "tuple", "sorted", "reversed", "iter", "set", "frozenset")
TRUE, FALSE, NONE = ("const", True), ("const", False), ("const", None)


def const(v):
    try:
        hash(v)
    except TypeError:
        return ("opaque", repr(v))
    return ("const", v)


def negate(t):
    if t[0] == "not":
        return t[1]
    if t[0] == "cmp":
        return ("cmp", NEG[t[1]], t[2], t[3])
    if t[0] == "and":
        return ("or", tuple(negate(x) for x in t[1]))
    if t[0] == "or":
        return ("and", tuple(negate(x) for x in t[1]))
    if t[0] == "const":
        return const(not t[1])
    if t[0] == "cases":
        return ("or", tuple(conj([c, negate(v)]) for c, v in t[1]))
    if t[0] == "if":
        return ("or", (conj([t[1], negate(t[2])]), conj([negate(t[1]), negate(t[3])])))
    return ("not", t)


def conj(ts):
    r = []
    for t in ts:
        r.extend(t[1] if t[0] == "and" else [t])
    r = [x for x in r if not (x[0] == "const" and x[1])]
    if any(x[0] == "const" and not x[1] for x in r):
        return FALSE
    return r[0] if len(r) == 1 else TRUE if not r else ("and", tuple(r))


def disj(ts):
    r = []
    for t in ts:
        r.extend(t[1] if t[0] == "or" else [t])
    r = [x for x in r if not (x[0] == "const" and not x[1])]
    if any(x[0] == "const" and x[1] for x in r):
        return TRUE
    return r[0] if len(r) == 1 else FALSE if not r else ("or", tuple(r))


def truth(t):
    """the term as a condition"""
    k = t[0]
    if k == "cases":
        return disj([conj([c, truth(v)]) for c, v in t[1]])
    if k == "if":
        return disj([conj([t[1], truth(t[2])]), conj([negate(t[1]), truth(t[3])])])
    if k == "const":
        return const(bool(t[1]))
    if k == "not":
        return negate(truth(t[1]))
    if k == "and":
        return conj([truth(x) for x in t[1]])
    if k == "or":
        return disj([truth(x) for x in t[1]])
    if k == "call" and t[1] == "bool" and len(t[2]) == 1:
        return truth(t[2][0])
    if k == "call" and t[1] == "len" and len(t[2]) == 1:
        return ("cmp", ">", t, const(0))
    if k == "cmp" and t[2][0] == "call" and t[2][1] == "len" and t[3][0] == "const":
        # one form for "has none" / "has some"
        o, v = t[1], t[3][1]
        if (o, v) in (("==", 0), ("<", 1), ("<=", 0)):
            return ("cmp", "==", t[2], const(0))
        if (o, v) in (("!=", 0), (">", 0), (">=", 1)):
            return ("cmp", ">", t[2], const(0))
    if k == "cmp" and t[3][0] == "call" and t[3][1] == "len" and t[2][0] == "const":
        flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
        return truth(("cmp", flip.get(t[1], t[1]), t[3], t[2]))
    if k == "cmp" and t[1] in ("==", "is") and t[3] in (TRUE, FALSE) and boolean(t[2]):
        return truth(t[2]) if t[3] == TRUE else negate(truth(t[2]))
    if k == "cmp" and t[1] in ("!=", "is not") and t[3] in (TRUE, FALSE) and boolean(t[2]):
        return truth(t[2]) if t[3] == FALSE else negate(truth(t[2]))
    if k == "cmp" and t[2][0] == "const" and t[3][0] == "const":
        try:
            a, b = t[2][1], t[3][1]
            return const({"==": a == b, "!=": a != b, "is": a is b, "is not": a is not b}[t[1]])
        except KeyError:
            pass
    return t


def boolean(t):
    return t[0] in ("cmp", "not", "and", "or") and (t[0] != "and" and t[0] != "or" or all(boolean(x) for x in t[1])) \
        or t[0] == "call" and t[1] in ("isinstance", "hasattr", "any", "all", "bool", "callable") \
        or t[0] == "const" and isinstance(t[1], bool) or t[0] == "cases" and all(boolean(v) for _, v in t[1])


def facts_of(t):
    """a condition as the list of things that hold with it"""
    t = truth(t)
    return [y for x in t[1] for y in facts_of(x)] if t[0] == "and" else [] if t == TRUE else [t]


def sub(t):
    """all terms inside a term"""
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            todo.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            todo.extend(x)


def has(t, what):
    return any(x == what for x in sub(t))


def replace(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(replace(x, old, new) if isinstance(x, (tuple, frozenset)) else x for x in t)
    if isinstance(t, frozenset):
        return frozenset(replace(x, old, new) for x in t)
    return t


def phi(a, b):
    if a == b or b is None:
        return a
    if a is None:
        return b
    s = set()
    for x in (a, b):
        s |= x[1] if x[0] == "phi" else {x}
    return ("phi", frozenset(s)) if len(s) < 12 else ("opaque", "many")


def show(t, depth=0):
    """a term for messages"""
    if depth > 5:
        return "…"
    k, s = t[0], lambda x: show(x, depth + 1)
    if k == "const":
        return repr(t[1])
    if k == "param":
        return t[1]
    if k == "self":
        return "self"
    if k == "attr":
        return s(t[1]) + "." + t[2]
    if k == "elem":
        return "each of " + s(t[1])
    if k == "cmp":
        return "%s %s %s" % (s(t[2]), t[1], s(t[3]))
    if k == "not":
        return "not " + s(t[1])
    if k in ("and", "or"):
        return "(" + (" %s " % k).join(s(x) for x in t[1]) + ")"
    if k == "meth":
        return "%s.%s(%s)" % (s(t[1]), t[2], ", ".join(s(x) for x in t[3]))
    if k in ("call", "pcall"):
        return "%s(%s)" % (t[1], ", ".join(s(x) for x in t[2] if isinstance(x, tuple)))
    return k


class State:
    __slots__ = ("env", "facts")

    def __init__(self, env, facts):
        self.env, self.facts = env, facts

    def copy(self):
        return State(dict(self.env), list(self.facts))

    def add(self, cond):
        self.facts = self.facts + [f for f in facts_of(cond) if f not in self.facts]
        return self


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = {k: phi(a.env.get(k), b.env.get(k)) for k in {**a.env, **b.env}}
    fs = [f for f in a.facts if f in b.facts]
    ra, rb = [f for f in a.facts if f not in fs], [f for f in b.facts if f not in fs]
    if ra and rb and len(ra) + len(rb) < 12:
        d = disj([conj(ra), conj(rb)])
        if d not in (TRUE, FALSE) and not tautology(conj(ra), conj(rb)):
            fs = fs + [d]
    return State(env, fs)


def tautology(a, b):
    na = facts_of(negate(a))
    return len(na) == 1 and na == facts_of(b)


class Frame:
    def __init__(self, func, recv, cls):
        self.func, self.recv, self.cls = func, recv, cls
        self.returns, self.yields, self.loops, self.tries = [], [], [], []
        self.yieldctx, self.ctxbase = [], 0


class Event:
    """kind: call (kept method or external call), store (attribute), setitem, delitem, delattr, aug, return (of the root), raise, loop"""
    __slots__ = ("kind", "node", "func", "recv", "name", "args", "kws", "value", "facts", "ctx", "loops", "stack", "seq")

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))


class Walk:
    """events: list of Event in walking order.  elemfacts: uid of an 'elem' -> conditions that hold for it whenever it exists"""
    maxdepth = 8

    def __init__(self, prj, fold=None, keep=(), maxdepth=None, inline=None):
        self.prj, self.fold = prj, fold
        self.keep = set(keep)              # functions never looked into
        self.inline = inline
        self.events, self.elemfacts, self.lambdas, self.contents = [], {}, {}, {}
        self.uid = 0
        self.stack = []
        self.loopstack, self.ctxstack, self.genctx = [], [], []
        if maxdepth is not None:
            self.maxdepth = maxdepth
        self.budget = 60000

    def fresh(self):
        self.uid += 1
        return self.uid

    def opaque(self):
        return ("opaque", self.fresh())

    # ---- entry -------------------------------------------------------------------------------------------------
    def root(self, func, cls=None, args=None):
        env = {}
        for p in func.allparams:
            env[p] = ("param", p)
        if func.selfname:
            env[func.selfname] = ("self",)
        env.update(args or {})
        fr = Frame(func, ("self",), cls or func.cls)
        st = State(env, [])
        self.stack.append(fr)
        out = self.block(func.body, st)
        self.stack.pop()
        if out is not None:
            fr.returns.append((out.facts, NONE, func.node))
        self.returns = fr.returns
        self.yields = fr.yields
        return self

    @property
    def frame(self):
        return self.stack[-1]

    def emit(self, kind, node, st, **kw):
        e = Event(kind=kind, node=node, func=self.frame.func, facts=list(st.facts), ctx=list(self.ctxstack), loops=list(self.loopstack),
                  stack=[f.func for f in self.stack], seq=len(self.events), **kw)
        self.events.append(e)
        return e

    # ---- statements --------------------------------------------------------------------------------------------
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            self.budget -= 1
            if self.budget < 0:
                return None
            st = self.stmt(s, st)
        return st

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, self.opaque(), st, node)
                elif v[0] in ("tuple", "list") and len(v[1]) == n and not any(y[0] == "star" for y in v[1]):
                    self.assign(x, v[1][i], st, node)
                else:
                    self.assign(x, self.item(v, const(i), st), st, node)
        elif isinstance(t, ast.Attribute):
            r = self.expr(t.value, st)
            self.emit("store", node, st, recv=r, name=t.attr, value=v)
            self.killattr(st, t.attr)
            self.heap(st, r, t.attr, v)
        elif isinstance(t, ast.Subscript):
            r = self.expr(t.value, st)
            k = self.index(t.slice, st)
            self.emit("setitem", node, st, recv=r, name=k, value=v)
            self.keeps(r, k, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.opaque(), st, node)

    def heap(self, st, r, name, v):
        """what the attribute is known to be from now on"""
        if v[0] in ("const", "attr", "param", "elem", "new", "cmp", "meth", "call", "obj"):
            st.facts = st.facts + [("stored", r, name, v)]

    def killattr(self, st, name):
        st.facts = [f for f in st.facts if not (f[0] == "stored" and f[2] == name)
                    and not any(x[0] == "attr" and x[2] == name for x in sub(f))]

    def assigned(self, nodes):
        ns, at = set(), set()
        for s in nodes:
            for n in [s] + list(walk_own(s)):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    ns.add(n.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    at.add(n.attr)
        return ns, at

    def widen(self, st, body, uid):
        """what may differ at the head of the loop"""
        ns, at = self.assigned(body)
        h = st.copy()
        for n in ns:
            p = st.env.get(n)
            w = ("loopvar", n, uid)
            h.env[n] = phi(p, w) if p is not None else w
        for a in at:
            self.killattr(h, a)
        return h

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            return m(s, st)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, st)
        return st

    def s_Expr(self, s, st):
        v = self.expr(s.value, st)
        if v == ("never",):
            return None
        return st

    def s_Assign(self, s, st):
        v = self.expr(s.value, st)
        if v == ("never",):
            return None
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        v = self.expr(s.value, st)
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            old = st.env.get(s.target.id) or self.expr(ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target), st)
            self.emit("aug", s, st, recv=old, name=op, value=v)
            st.env[s.target.id] = ("bin", op, old, v)
        else:
            old = self.expr(s.target, st)
            self.emit("aug", s, st, recv=old, name=op, value=v)
            self.assign(s.target, ("bin", op, old, v), st, s)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.emit("delitem", s, st, recv=self.expr(t.value, st), name=self.index(t.slice, st))
            elif isinstance(t, ast.Attribute):
                self.emit("delattr", s, st, recv=self.expr(t.value, st), name=t.attr)
                self.killattr(st, t.attr)
        return st

    def s_If(self, s, st):
        c = truth(self.expr(s.test, st))
        if c == TRUE:
            return self.block(s.body, st)
        if c == FALSE:
            return self.block(s.orelse, st)
        a = self.block(s.body, st.copy().add(c))
        b = self.block(s.orelse, st.copy().add(negate(c)))
        return join(a, b)

    def s_While(self, s, st):
        uid = self.fresh()
        h = self.widen(st, [s], uid)
        self.loopstack.append(("while", s, None, uid))
        c = truth(self.expr(s.test, h))
        self.frame.loops.append([])
        self.block(s.body, h.copy().add(c) if c != TRUE else h.copy())
        brk = self.frame.loops.pop()
        self.loopstack.pop()
        out = None if c == TRUE else h.copy().add(negate(c))
        if out is not None and s.orelse:
            out = self.block(s.orelse, out)
        for b in brk:
            out = join(out, b)
        return out

    def gathers(self, s, st):
        """a loop that does nothing but collect into a new list, set or dictionary is the comprehension it spells out"""
        gens, b = [], s
        while True:
            if isinstance(b, ast.For) and not b.orelse and len(b.body) == 1:
                gens.append(ast.comprehension(b.target, b.iter, [], 0))
            elif isinstance(b, ast.If) and not b.orelse and len(b.body) == 1 and gens:
                gens[-1].ifs.append(b.test)
            else:
                break
            b = b.body[0]
        v = kind = None
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and len(b.value.args) == 1 and not b.value.keywords \
                and isinstance(b.value.func.value, ast.Name) and not isinstance(b.value.args[0], ast.Starred):
            v, kind = b.value.func.value.id, {"append": "list", "add": "set"}.get(b.value.func.attr)
            parts = [b.value.args[0]]
        elif isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript) and isinstance(b.targets[0].value, ast.Name):
            v, kind = b.targets[0].value.id, "dict"
            parts = [b.targets[0].slice, b.value]
        if not kind or any(isinstance(x, (ast.Name, ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) and (not isinstance(x, ast.Name) or x.id == v)
                           for g in gens for y in [g.target, g.iter] + g.ifs + parts for x in ast.walk(y)):
            return False
        t = st.env.get(v)
        if not isinstance(t, tuple) or t[:2] != ("new", kind) or self.contents.get(t) or any(w == t for n, w in st.env.items() if n != v):
            return False
        n = {"list": ast.ListComp, "set": ast.SetComp}[kind](parts[0], gens) if kind != "dict" else ast.DictComp(parts[0], parts[1], gens)
        ast.copy_location(n, s)
        st.env[v] = self.comp(n, st, kind)
        for g in gens:
            for x in targets(g.target):
                st.env[x] = phi(st.env.get(x), ("loopvar", x, self.fresh()))
        return True

    def s_For(self, s, st):
        if self.gathers(s, st):
            return st
        it = self.expr(s.iter, st)
        uid = self.fresh()
        h = self.widen(st, s.body, uid)
        v, conds = self.element(it, uid, h)
        self.emit("loop", s, st, recv=it, value=v)
        self.loopstack.append(("for", s, it, uid))
        b = h.copy()
        for c in conds:
            b.add(c)
        self.assign(s.target, v, b, s)
        self.frame.loops.append([])
        n0 = len(self.frame.returns)
        self.block(s.body, b)
        brk = self.frame.loops.pop()
        self.loopstack.pop()
        out = h
        left = [conj([f for f in fs if f not in h.facts and f[0] != "stored"]) for fs in [x[0] for x in self.frame.returns[n0:]] + [x.facts for x in brk]]
        left = disj(left)
        if left not in (TRUE, FALSE):        # run to the end: no element met the conditions under which the loop is left
            out = h.copy()
            out.facts = out.facts + [("none", it, left)]
        for n in targets(s.target):
            out.env[n] = phi(out.env.get(n), ("loopvar", n, uid))
        if s.orelse:
            out = self.block(s.orelse, out.copy())
        for x in brk:
            out = join(out, x)
        return out

    s_AsyncFor = s_For

    def s_Break(self, s, st):
        if self.frame.loops:
            self.frame.loops[-1].append(st)
        self.emit("break", s, st)
        return None

    def s_Continue(self, s, st):
        return None

    def s_Return(self, s, st):
        v = self.expr(s.value, st) if s.value is not None else NONE
        self.frame.returns.append((list(st.facts), v, s))
        self.emit("return", s, st, value=v)
        return None

    def s_Raise(self, s, st):
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, st)
        self.emit("raise", s, st)
        return None

    def s_Assert(self, s, st):
        c = truth(self.expr(s.test, st))
        return st.add(c)

    def s_Try(self, s, st):
        before = st.copy()
        self.ctxstack.append(("try", s))
        a = self.block(s.body, st)
        self.ctxstack.pop()
        mid = self.widen(before, s.body, self.fresh())
        if a is not None and s.orelse:
            a = self.block(s.orelse, a)
        out = a
        for h in s.handlers:
            e = mid.copy()
            if h.type is not None:
                self.expr(h.type, e)
            if h.name:
                e.env[h.name] = self.opaque()
            self.ctxstack.append(("except", s))
            out = join(out, self.block(h.body, e))
            self.ctxstack.pop()
        if s.finalbody:
            f = self.widen(before, s.body + s.orelse + [x for h in s.handlers for x in h.body], self.fresh())
            self.ctxstack.append(("finally", s))
            r = self.block(s.finalbody, join(out, f) if out is not None else f)
            self.ctxstack.pop()
            if r is None:
                return None
            if out is not None:
                for n in self.assigned(s.finalbody)[0]:
                    if n in r.env:
                        out.env[n] = r.env[n]
                for n in self.assigned(s.finalbody)[1]:
                    self.killattr(out, n)
        return out

    s_TryStar = s_Try

    def s_With(self, s, st):
        extra = []
        for i in s.items:
            self.genctx = []
            c = self.expr(i.context_expr, st)
            if c[0] == "gen":
                extra += self.genctx
            if i.optional_vars is not None:
                self.assign(i.optional_vars, ("with", c), st, s)
        self.ctxstack.append(("with", s))
        self.ctxstack.extend(extra)
        before = st.copy()
        out = self.block(s.body, st)
        del self.ctxstack[len(self.ctxstack) - len(extra) - 1:]
        if any(isinstance(i.context_expr, ast.Call) and getattr(i.context_expr.func, "attr", getattr(i.context_expr.func, "id", "")) == "suppress" for i in s.items):
            out = join(out, self.widen(before, s.body, self.fresh()))
        return out

    s_AsyncWith = s_With

    def s_FunctionDef(self, s, st):
        f = getattr(s, "_func", None)
        st.env[s.name] = self.closure(f, st) if f is not None else self.opaque()
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        st.env[s.name] = self.opaque()
        return st

    def s_Import(self, s, st):
        return st

    s_ImportFrom = s_Import
    s_Global = s_Nonlocal = s_Pass = s_Import

    def s_Match(self, s, st):
        self.expr(s.subject, st)
        out = st.copy()
        for c in s.cases:
            e = self.widen(st, [c], self.fresh())
            if c.guard is not None:
                e.add(truth(self.expr(c.guard, e)))
            out = join(out, self.block(c.body, e))
        return out

    # ---- expressions -------------------------------------------------------------------------------------------
    def closure(self, f, st):
        uid = self.fresh()
        self.lambdas[uid] = (f, st.env if not f.is_lambda else dict(st.env), self.frame)
        return ("lambda", uid)

    def expr(self, n, st):
        self.budget -= 1
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None or self.budget < 0:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr) and self.budget >= 0:
                    self.expr(c, st)
            return self.opaque()
        return m(n, st)

    def e_Constant(self, n, st):
        return const(n.value)

    def e_Name(self, n, st):
        if n.id in st.env:
            return st.env[n.id]
        f = self.frame.func
        t = self.prj.lookup(n.id, f, f.module)
        return self.named(t, n)

    def named(self, t, n):
        f = self.frame.func
        if isinstance(t, Func):
            return ("fn", t.module.name + ":" + t.qual)
        if isinstance(t, Class):
            return ("class", t.module.name + ":" + t.qual)
        if isinstance(t, tuple) and t[0] == "builtin":
            return ("builtin", t[1])
        if isinstance(t, tuple) and t[0] == "ext":
            return ("builtin", t[1])
        if self.fold is not None and isinstance(t, tuple) and t[0] == "global":
            try:
                v = self.fold.fold(n, f)
                if isinstance(v, (str, int, float, bool, bytes, type(None))):
                    return const(v)
            except Exception:
                pass
            return ("global", t[1].name, t[2])
        if isinstance(t, tuple) and t[0] == "global":
            return ("global", t[1].name, t[2])
        return self.opaque()

    def e_Attribute(self, n, st):
        f = self.frame.func
        e = self.prj.ext_name(n, f, f.module)
        if e is not None and not (isinstance(n.value, ast.Name) and n.value.id in st.env):
            return ("builtin", e)
        b = self.expr(n.value, st)
        return self.attr(b, n.attr, st)

    def attr(self, b, name, st):
        for x in reversed(st.facts):
            if x[0] == "stored" and x[1] == b and x[2] == name:
                return x[3]
        if b == ("self",) and self.frame.cls is not None:
            m = self.frame.cls.find(name)
            if m is not None and not m.is_property:
                return ("method", m.module.name + ":" + m.qual, b)
            if m is not None and m.is_property and len(self.stack) < self.maxdepth:
                return self.into(m, {}, b, self.frame.cls, st, None)
        return ("attr", b, name)

    def index(self, n, st):
        if isinstance(n, ast.Slice):
            ps = []
            for x in (n.lower, n.upper, n.step):
                ps.append(self.expr(x, st) if x is not None else NONE)
            return ("range",) + tuple(ps)
        return self.expr(n, st)

    def e_Subscript(self, n, st):
        b = self.expr(n.value, st)
        k = self.index(n.slice, st)
        return self.item(b, k, st)

    def item(self, b, k, st):
        if k[0] == "range":
            if k[1] in (NONE, const(0)) and k[2] == NONE and k[3] == NONE:
                return ("call", "list", (b,), ())
            return ("slice", b, k)
        if k[0] == "const" and isinstance(k[1], int) and b[0] in ("tuple", "list") and not any(y[0] == "star" for y in b[1]):
            if -len(b[1]) <= k[1] < len(b[1]):
                return b[1][k[1]]
        if b[0] == "dict" and k[0] == "const":
            for kk, v in b[1]:
                if kk == k:
                    return v
        if b[0] == "comp" and b[1] == "dict":
            kv, conds = self.pairs(b)
            for c in conds + [("cmp", "==", kv[1][0], k)]:
                self.elemfacts.setdefault(kv[1][1], []).append(c)
            return kv[1][1]
        if b[0] == "new" and self.contents.get(b):
            res = None
            for kk, v, fs in self.contents[b]:
                res = phi(res, v)
            if len(self.contents[b]) == 1:
                kk, v, fs = self.contents[b][0]
                for c in fs + ([("cmp", "==", kk, k)] if kk is not None else []):
                    self.elemfacts.setdefault(v, []).append(c)
            return res
        if b[0] == "comp" and b[1] != "dict":
            v, conds = self.element(b, self.fresh(), st)
            for c in conds:
                st.add(c)
            return v
        return ("item", b, k)

    def keeps(self, r, k, v, st):
        if r[0] == "new":
            self.contents.setdefault(r, []).append((k, v, [f for f in st.facts if f[0] != "stored"]))

    def e_NamedExpr(self, n, st):
        v = self.expr(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Tuple(self, n, st):
        return ("tuple", tuple(self.starred(x, st) for x in n.elts))

    def starred(self, x, st):
        if isinstance(x, ast.Starred):
            v = self.expr(x.value, st)
            return ("star", v)
        return self.expr(x, st)

    def e_List(self, n, st):
        if not n.elts:
            return ("new", "list", self.fresh())
        return ("list", tuple(self.starred(x, st) for x in n.elts))

    def e_Set(self, n, st):
        return ("set", tuple(self.starred(x, st) for x in n.elts))

    def e_Dict(self, n, st):
        if not n.keys:
            return ("new", "dict", self.fresh())
        ps = []
        for k, v in zip(n.keys, n.values):
            ps.append((self.expr(k, st) if k is not None else ("star",), self.expr(v, st)))
        return ("dict", tuple(ps))

    def e_Starred(self, n, st):
        return ("star", self.expr(n.value, st))

    def e_JoinedStr(self, n, st):
        ps = []
        for v in n.values:
            ps.append(self.expr(v.value, st) if isinstance(v, ast.FormattedValue) else self.expr(v, st))
        return ("fstr", tuple(ps))

    def e_BinOp(self, n, st):
        a, b = self.expr(n.left, st), self.expr(n.right, st)
        if a[0] == "const" and b[0] == "const" and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.LShift, ast.FloorDiv, ast.Pow, ast.BitAnd, ast.BitOr)):
            try:
                if isinstance(n.op, (ast.LShift, ast.Pow, ast.Mult)) and not (isinstance(b[1], int) and abs(b[1]) < 300):
                    raise ValueError
                import operator
                return const({ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.LShift: operator.lshift, ast.Pow: operator.pow,
                              ast.FloorDiv: operator.floordiv, ast.BitAnd: operator.and_, ast.BitOr: operator.or_}[type(n.op)](a[1], b[1]))
            except Exception:
                pass
        return ("bin", type(n.op).__name__, a, b)

    def e_UnaryOp(self, n, st):
        v = self.expr(n.operand, st)
        if isinstance(n.op, ast.Not):
            return negate(truth(v))
        if isinstance(n.op, ast.USub) and v[0] == "const" and isinstance(v[1], (int, float)):
            return const(-v[1])
        return ("un", type(n.op).__name__, v)

    def e_BoolOp(self, n, st):
        vs = []
        s = st.copy()
        isand = isinstance(n.op, ast.And)
        for i, x in enumerate(n.values):
            v = self.expr(x, s)
            vs.append(v)
            s.add(truth(v) if isand else negate(truth(v)))
            for nm in {y.target.id for y in ast.walk(x) if isinstance(y, ast.NamedExpr)}:
                if nm in s.env:
                    st.env[nm] = s.env[nm]
        return ("and" if isand else "or", tuple(vs))

    def e_Compare(self, n, st):
        l = self.expr(n.left, st)
        rs = []
        for o, c in zip(n.ops, n.comparators):
            r = self.expr(c, st)
            rs.append(("cmp", OPS[type(o)], l, r))
            l = r
        return truth(rs[0] if len(rs) == 1 else ("and", tuple(rs)))

    def e_IfExp(self, n, st):
        c = truth(self.expr(n.test, st))
        if c == TRUE:
            return self.expr(n.body, st)
        if c == FALSE:
            return self.expr(n.orelse, st)
        a = self.expr(n.body, st.copy().add(c))
        b = self.expr(n.orelse, st.copy().add(negate(c)))
        return a if a == b else ("if", c, a, b)

    def e_Lambda(self, n, st):
        return self.closure(n._func, st)

    def e_Yield(self, n, st):
        v = self.expr(n.value, st) if n.value is not None else NONE
        self.frame.yields.append((list(st.facts), v))
        self.frame.yieldctx = list(self.ctxstack[self.frame.ctxbase:])
        return self.opaque()

    def e_YieldFrom(self, n, st):
        v = self.expr(n.value, st)
        e, cs = self.element(v, self.fresh(), st)
        self.frame.yields.append((list(st.facts) + list(cs), e))
        return self.opaque()

    def e_Await(self, n, st):
        return self.expr(n.value, st)

    def comp(self, n, st, kind):
        s = st.copy()
        its, conds, var = [], [], None
        for g in n.generators:
            it = self.expr(g.iter, s)
            uid = self.fresh()
            v, cs = self.element(it, uid, s)
            self.emit("loop", n, s, recv=it, value=v)
            self.loopstack.append(("comp", n, it, uid))
            s.env = dict(s.env)
            for c in cs:
                s.add(c)
            self.assign(g.target, v, s, n)
            its.append((it, v))
            conds += cs
            for c in g.ifs:
                t = truth(self.expr(c, s))
                conds.append(t)
                s.add(t)
        if kind == "dict":
            e = ("tuple", (self.expr(n.key, s), self.expr(n.value, s)))
        else:
            e = self.expr(n.elt, s)
        for g in n.generators:
            self.loopstack.pop()
        return ("comp", kind, tuple(its), e, tuple(x for c in conds for x in facts_of(c)))

    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "gen")

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict")

    def pairs(self, it):
        _, kind, its, e, conds = it
        conds = list(conds)
        for src, v in its:
            w = refresh(v, lambda: self.fresh())
            e = replace(e, v, w) if w != v else e
            conds = [replace(c, v, w) for c in conds] if w != v else conds
        return e, conds

    def element(self, it, uid, st):
        """(term for one element of an iterable, conditions that hold for it)"""
        k = it[0]
        if k == "new" and self.contents.get(it) and it[1] != "dict":
            cs = self.contents[it]
            vs = None
            for _, v, fs in cs:
                if v[0] == "phi":
                    w = v
                else:
                    w = refresh(v, self.fresh)
                    self.elemfacts.setdefault(w, []).extend(replace(c, v, w) for c in fs)
                vs = phi(vs, w)
            return vs, []
        if k == "comp":
            kind = it[1]
            e, conds = self.pairs(it)
            if kind == "dict":
                e = e[1][0]
            return e, conds
        if k == "call" and it[1] in COPIES and it[2]:
            return self.element(it[2][0], uid, st)
        if k == "call" and it[1] == "enumerate" and it[2]:
            v, c = self.element(it[2][0], uid, st)
            return ("tuple", (("index", it[2][0], uid), v)), c
        if k == "call" and it[1] == "zip" and it[2]:
            vs, cs = [], []
            for x in it[2]:
                v, c = self.element(x, self.fresh(), st)
                vs.append(v)
                cs += c
            return ("tuple", tuple(vs)), cs
        if k == "call" and it[1] in ("filter", "itertools.filterfalse") and len(it[2]) == 2:
            v, c = self.element(it[2][1], uid, st)
            r = v if it[2][0] == NONE else self.apply(it[2][0], (v,), (), st, None)
            r = truth(r)
            return v, list(c) + facts_of(r if it[1] == "filter" else negate(r))
        if k == "call" and it[1] == "map" and len(it[2]) == 2:
            v, c = self.element(it[2][1], uid, st)
            return self.apply(it[2][0], (v,), (), st, None), c
        if k == "call" and it[1] in ("itertools.chain",) and it[2]:
            vs, cs = None, []
            for x in it[2]:
                v, c = self.element(x, self.fresh(), st)
                vs = phi(vs, v)
            return vs, []
        if k == "meth" and it[2] == "items" and not it[3]:
            kk = ("key", it[1], uid)
            return ("tuple", (kk, ("item", it[1], kk))), []
        if k == "meth" and it[2] == "keys" and not it[3]:
            return ("key", it[1], uid), []
        if k == "meth" and it[2] == "values" and not it[3]:
            return ("item", it[1], ("key", it[1], uid)), []
        if k in ("list", "tuple", "set") and it[1]:
            vs = None
            for x in it[1]:
                v, c = self.element(x[1], uid, st) if x[0] == "star" else (x, [])
                vs = phi(vs, v)
            return vs, []
        if k == "gen":
            vs, cs = None, None
            for fs, v in it[1]:
                vs = phi(vs, v)
                cs = fs if cs is None else [x for x in cs if x in fs]
            return vs if vs is not None else self.opaque(), cs or []
        if k == "phi":
            if all(x[0] in ("param", "attr", "elem", "item", "self", "loopvar", "meth", "key", "const", "opaque") for x in it[1]):
                return ("elem", it, uid), []
            vs = None
            for x in it[1]:
                v, c = self.element(x, self.fresh(), st)
                if c and v not in self.elemfacts:
                    self.elemfacts[v] = list(c)
                vs = phi(vs, v)
            return vs, []
        if k == "if":
            a, ca = self.element(it[2], uid, st)
            b, cb = self.element(it[3], uid, st)
            return phi(a, b), [y for y in ca if y in cb]
        if k == "slice":
            return self.element(it[1], uid, st)
        if k == "meth" and it[2] in ("findall", "iterfind", "iter") and len(it[3]) == 1 and not it[4]:
            v, p = ("elem", it, uid), it[3][0]
            if p[0] != "const" or isinstance(p[1], str) and p[1] and not set(p[1]) & set("/[.*@:") - (set("/:.") if p[1][0] == "{" else set()):
                return v, [("cmp", "==", ("attr", v, "tag"), p)]
            return v, []
        return ("elem", it, uid), []

    # ---- calls -------------------------------------------------------------------------------------------------
    def e_Call(self, n, st):
        f = self.frame.func
        args = [self.starred(a, st) for a in n.args]
        kws = tuple((k.arg, self.expr(k.value, st)) for k in n.keywords)
        fn = n.func
        # super().m(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
            own = self.prj.own_class(f)
            rc = self.frame.cls or own
            if own is not None and rc is not None:
                mro = rc.mro()
                i = mro.index(own) if own in mro else 0
                for b in mro[i + 1:]:
                    if fn.attr in b.methods:
                        return self.into(b.methods[fn.attr], self.bindargs(b.methods[fn.attr], args, kws, True), ("self",), rc, st, n)
            self.emit("call", n, st, recv=("super",), name=fn.attr, args=tuple(args), kws=kws)
            return ("meth", ("super",), fn.attr, tuple(args), kws)
        if isinstance(fn, ast.Attribute):
            e = self.prj.ext_name(fn, f, f.module)
            if e is not None and not (isinstance(fn.value, ast.Name) and fn.value.id in st.env):
                return self.apply(("builtin", e), tuple(args), kws, st, n)
            b = self.expr(fn.value, st)
            if b == ("self",) and self.frame.cls is not None:
                m = self.frame.cls.find(fn.attr)
                if m is not None and not m.is_property:
                    return self.into(m, self.bindargs(m, args, kws, True), b, self.frame.cls, st, n)
            if b[0] == "class":
                c = self.classof(b)
                m = c.find(fn.attr) if c is not None else None
                if m is not None:
                    if m.is_static or m.is_classmethod:
                        return self.into(m, self.bindargs(m, args, kws, m.is_classmethod), b, c, st, n)
                    if args and args[0] == ("self",):
                        return self.into(m, self.bindargs(m, args[1:], kws, True), ("self",), self.frame.cls or c, st, n)
            if isinstance(fn.value, ast.Name) and fn.value.id not in st.env:
                t = self.prj.lookup(fn.value.id, f, f.module)
                gs, exact = self.prj.callees(n, f, f.module)
                if exact and len(gs) == 1 and not isinstance(t, Class) and gs[0].cls is None:
                    return self.into(gs[0], self.bindargs(gs[0], args, kws, False), None, None, st, n)
            c = self.typed(b)
            if c is not None:
                m = c.find(fn.attr)
                if m is not None and not m.is_property and not m.is_static:
                    return self.into(m, self.bindargs(m, args, kws, True), b, c, st, n)
            return self.method(b, fn.attr, tuple(args), kws, st, n)
        v = self.expr(fn, st)
        return self.apply(v, tuple(args), kws, st, n)

    def typed(self, b):
        """project class of a receiver, where the subclass knows"""
        return self.classof(b[1]) if b[0] == "obj" else None

    def classof(self, t):
        mod, q = t[1].split(":")
        m = self.prj.modules.get(mod)
        return next((c for c in (m.classes.values() if m is not None else ()) if c.qual == q), None)

    def method(self, b, name, args, kws, st, n):
        if b[0] == "dict" and name == "get" and args and args[0][0] == "const":
            for kk, v in b[1]:
                if kk == args[0]:
                    return v
        r = ("meth", b, name, args, kws)
        self.emit("call", n, st, recv=b, name=name, args=args, kws=kws, value=r)
        self.mutates(st, b, name)
        if b[0] == "new" and args:
            if name in ("append", "add", "appendleft"):
                self.keeps(b, None, args[0], st)
            elif name == "insert" and len(args) == 2:
                self.keeps(b, None, args[1], st)
            elif name in ("extend", "update", "union") and b[1] != "dict":
                v, cs = self.element(args[0], self.fresh(), st)
                self.contents.setdefault(b, []).append((None, v, [f for f in st.facts if f[0] != "stored"] + list(cs)))
            elif name == "setdefault" and len(args) == 2:
                self.keeps(b, args[0], args[1], st)
                return self.item(b, args[0], st)
        if name in ("get", "pop") and args and (b[0] == "new" and b[1] == "dict" and self.contents.get(b) or b[0] == "comp" and b[1] == "dict"):
            v = self.item(b, args[0], st)
            return v if len(args) == 1 or args[1] == NONE else phi(v, args[1])
        return r

    def known(self, e, *more):
        """the facts at an event, with what is known of the elements it mentions"""
        fs = [f for f in e.facts if f[0] != "stored"]
        seen, todo = set(), [x for x in [e.recv, e.value] + list(e.args or ()) + list(more) if isinstance(x, tuple)] + fs
        while todo:
            for x in sub(todo.pop()):
                if x in self.elemfacts and x not in seen:
                    seen.add(x)
                    fs.extend(self.elemfacts[x])
                    todo.extend(self.elemfacts[x])
        return fs

    MUT = {"append", "remove", "insert", "clear", "extend", "pop", "update", "setdefault", "add", "discard", "set", "sort", "reverse", "popitem"}

    def mutates(self, st, b, name):
        if name in self.MUT:
            st.facts = [x for x in st.facts if not any(y[0] == "call" and y[1] == "len" and y[2] == (b,) or y == ("not", b) or
                                                       y[0] == "cmp" and y[1] in ("in", "not in") and y[3] == b for y in sub(x)) and x != b]

    def bindargs(self, f, args, kws, bound):
        res, params = {}, list(f.params)
        if f.cls is not None and not f.is_static and bound and params:
            params = params[1:]
        flat, lost = [], False
        for a in args:
            if a[0] == "star":
                if a[1][0] in ("tuple", "list") and not any(x[0] == "star" for x in a[1][1]):
                    flat.extend(a[1][1])
                else:
                    lost = True
            else:
                flat.append(a)
        for i, a in enumerate(flat):
            if lost:
                break
            if i < len(params):
                res[params[i]] = a
        if f.vararg:
            res[f.vararg] = ("tuple", tuple(args[len(params):])) if not lost or len(params) == 0 else self.opaque()
        if lost:
            for p in params:
                res.setdefault(p, self.opaque())
        extra = []
        for k, v in kws:
            if k is None:
                continue
            if k in f.params or k in f.kwonly:
                res[k] = v
            else:
                extra.append((const(k), v))
        if f.kwarg:
            res[f.kwarg] = ("dict", tuple(extra))
        return res

    def into(self, g, binding, recv, cls, st, n):
        name = g.module.name + ":" + g.qual
        order = tuple((p, binding[p]) for p in g.allparams if p in binding)
        kept = name in self.keep or g in self.keep
        if kept or any(fr.func is g for fr in self.stack) or len(self.stack) > self.maxdepth or (self.inline is not None and not self.inline(g)):
            r = ("pcall", name, tuple(v for _, v in order), tuple(p for p, _ in order))
            self.emit("pcall", n, st, recv=recv, name=name, args=tuple(v for _, v in order), kws=order, value=r)
            return r
        env = {}
        lam = None
        if g.outer is not None:
            for fr_uid, (f2, env2, fr2) in self.lambdas.items():
                if f2 is g:
                    lam = env2
            if lam is not None:
                env.update(lam)
        for p in g.allparams:
            if p in binding:
                env[p] = binding[p]
            elif p in g.defaults:
                d = g.defaults[p]
                try:
                    env[p] = const(ast.literal_eval(d)) if not isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Tuple)) else ("default", name, p)
                except Exception:
                    env[p] = ("default", name, p)
            else:
                env[p] = self.opaque()
        if g.selfname and not g.is_static:
            env[g.selfname] = recv if recv is not None else self.opaque()
        fr = Frame(g, recv, cls)
        fr.ctxbase = len(self.ctxstack)
        self.stack.append(fr)
        s = State(env, list(st.facts))
        entry = list(st.facts)
        out = self.block(g.body, s) if not g.is_lambda else None
        if g.is_lambda:
            v = self.expr(g.node.body, s)
            fr.returns.append((list(s.facts), v, g.node))
        self.stack.pop()
        if out is not None:
            fr.returns.append((out.facts, NONE, g.node))
        if fr.yields:
            self.genctx = fr.yieldctx
            return ("gen", tuple((tuple(x for x in fs if x not in entry), v) for fs, v in fr.yields))
        if not fr.returns:
            return ("never",)
        # what the callee's stores made unknown stays unknown here
        common = None
        for fs, _, _ in fr.returns:
            common = list(fs) if common is None else [x for x in common if x in fs]
        st.facts = [x for x in st.facts if x in common] + [x for x in common if x[0] == "stored" and x not in st.facts]
        cases = []
        for fs, v, _ in fr.returns:
            c = conj([x for x in fs if x not in entry and x[0] != "stored"])
            cases.append((c, v))
        return self.merged(cases)

    def merged(self, cases):
        if all(v == cases[0][1] for _, v in cases):
            return cases[0][1]
        some = {v for _, v in cases if v != NONE}
        if len(some) == 1:            # "the first that ..., or None"
            v = next(iter(some))
            w = refresh(v, self.fresh)
            if w != v:
                c = disj([c for c, x in cases if x == v])
                self.elemfacts.setdefault(w, []).extend(facts_of(replace(c, v, w)))
                return w
        return ("cases", tuple(cases))

    def apply(self, v, args, kws, st, n):
        k = v[0]
        if k == "lambda":
            f, env, fr = self.lambdas[v[1]]
            if any(x.func is f for x in self.stack) or len(self.stack) > self.maxdepth:
                return self.opaque()
            b = self.bindargs(f, list(args), kws, False)
            return self.into_closure(f, b, env, fr, st, n)
        if k == "fn":
            mod, q = v[1].split(":")
            g = next((x for x in self.prj.funcs if x.module.name == mod and x.qual == q), None)
            if g is not None:
                return self.into(g, self.bindargs(g, list(args), kws, False), None, g.cls, st, n)
        if k == "method":
            mod, q = v[1].split(":")
            g = next((x for x in self.prj.funcs if x.module.name == mod and x.qual == q), None)
            if g is not None:
                return self.into(g, self.bindargs(g, list(args), kws, True), v[2], self.frame.cls, st, n)
        if k == "attr" and n is not None and not isinstance(n.func, ast.Attribute):
            return self.method(v[1], v[2], args, kws, st, n)      # a bound method kept in a name
        if k == "builtin":
            return self.builtin(v[1], args, kws, st, n)
        r = ("obj", v, args, kws, self.fresh()) if k == "class" else ("meth", v, "__call__", args, kws)
        if n is not None:
            self.emit("call", n, st, recv=v, name="__call__", args=args, kws=kws, value=r)
        return r

    def into_closure(self, f, b, env, fr, st, n):
        e = dict(env)
        for p in f.allparams:
            if p in b:
                e[p] = b[p]
            elif p in f.defaults:
                e[p] = self.opaque()
            else:
                e[p] = self.opaque()
        nf = Frame(f, fr.recv, fr.cls)
        self.stack.append(nf)
        s = State(e, list(st.facts))
        entry = list(st.facts)
        if f.is_lambda:
            v = self.expr(f.node.body, s)
            self.stack.pop()
            return v
        out = self.block(f.body, s)
        self.stack.pop()
        if out is not None:
            nf.returns.append((out.facts, NONE, f.node))
        if nf.yields:
            return ("gen", tuple((tuple(x for x in fs if x not in entry), v) for fs, v in nf.yields))
        if not nf.returns:
            return ("never",)
        cases = [(conj([x for x in fs if x not in entry and x[0] != "stored"]), v) for fs, v, _ in nf.returns]
        return self.merged(cases)

    def builtin(self, name, args, kws, st, n):
        if name.startswith("builtins."):
            name = name[9:]
        if name == "getattr" and len(args) >= 2 and args[1][0] == "const" and isinstance(args[1][1], str):
            r = self.attr(args[0], args[1][1], st)
            return r
        if name == "setattr" and len(args) == 3:
            nm = args[1][1] if args[1][0] == "const" else None
            self.emit("store", n, st, recv=args[0], name=nm, value=args[2])
            if nm is not None:
                self.killattr(st, nm)
                self.heap(st, args[0], nm, args[2])
            return NONE
        if name == "delattr" and len(args) == 2:
            nm = args[1][1] if args[1][0] == "const" else None
            self.emit("delattr", n, st, recv=args[0], name=nm)
            return NONE
        if name in ("list", "dict", "set", "collections.OrderedDict", "collections.deque") and not args and not kws or name == "collections.defaultdict":
            return ("new", name.split(".")[-1], self.fresh())
        if name == "next" and args:
            v, cs = self.element(args[0], self.fresh(), st)
            if len(args) == 1:
                for c in cs:
                    st.add(c)
                return v
            if args[1] == NONE:
                self.elemfacts.setdefault(v, []).extend(c for c in cs)
                return v
            return phi(v, args[1])
        if name in ("any", "all") and len(args) == 1 and args[0][0] in ("tuple", "list") and not any(x[0] == "star" for x in args[0][1]):
            return (disj if name == "any" else conj)([truth(x) for x in args[0][1]])
        if name in ("sys.exit", "exit", "quit", "os._exit", "os.abort"):
            self.emit("call", n, st, recv=("builtin", name), name=name, args=args, kws=kws)
            return ("never",)
        if name in ("list.append", "list.remove") and args:
            return self.method(args[0], name.split(".")[1], args[1:], kws, st, n)
        if name in ("operator.eq", "operator.ne", "operator.is_", "operator.is_not") and len(args) == 2:
            return ("cmp", {"eq": "==", "ne": "!=", "is_": "is", "is_not": "is not"}[name.split(".")[1]], args[0], args[1])
        if name == "bool" and len(args) == 1:
            return truth(args[0])
        r = ("call", name, args, kws)
        if n is not None:
            self.emit("call", n, st, recv=("builtin", name), name=name, args=args, kws=kws, value=r)
        return r


def refresh(v, fresh):
    """the same kind of element, but another one"""
    if v[0] in ("elem", "key"):
        return (v[0], v[1], fresh())
    if v[0] == "item" and v[2][0] == "key":
        return ("item", v[1], refresh(v[2], fresh))
    return v


# ---- deciding what facts say ---------------------------------------------------------------------------------------
def implies(facts, pred):
    """some fact entails what pred recognises: an atom, each side of a disjunction"""
    for f in facts:
        if f[0] == "stored":
            continue
        if holds(f, pred):
            return True
    return False


def holds(f, pred):
    if pred(f):
        return True
    if f[0] == "and":
        return any(holds(x, pred) for x in f[1])
    if f[0] == "or":
        return bool(f[1]) and all(holds(x, pred) for x in f[1])
    if f[0] == "cases":
        return holds(truth(f), pred)
    if f[0] == "phi":
        xs = [truth(x) for x in f[1]]
        xs = [x for x in xs if x != FALSE]
        return bool(xs) and all(holds(x, pred) for x in xs)
    if f[0] == "not" and f[1][0] == "phi":
        xs = [negate(truth(x)) for x in f[1][1]]
        xs = [x for x in xs if x != FALSE]
        return bool(xs) and all(holds(x, pred) for x in xs)
    return False


def atoms(f):
    if f[0] in ("and", "or"):
        for x in f[1]:
            yield from atoms(x)
    elif f[0] == "not":
        yield from atoms(f[1])
    elif f[0] == "stored":
        return
    else:
        yield f
