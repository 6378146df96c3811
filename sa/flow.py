"""Alias and effect analysis.  For every function: what it may modify, what it may store where, and what its result may share,
in terms of access paths from parameters, module globals, class data and variables of enclosing functions.

A value is a frozenset of tokens:
  ('p', name, path)          the argument of that name, or the part of it reached by path
  ('g', module, name, path)  a module level object
  ('c', class, attr, path)   an object held by a class (shared by its instances)
  ('v', func, name, path)    a variable of an enclosing function
  ('n', node)                an object made here
Steps of a path are attribute names and '*' for items, children and values."""
import ast
from .core import walk_own, Func, Class, Module, dotted, targets
from .consts import UNKNOWN

EMPTY = frozenset()
MAXPATH = 3
STRINGS = {"comments", "commentsafter", "attrib", "namespaces"}     # fields whose items are strings
IMMUTABLE = {"text", "tail", "tag", "contentHash", "attrHash", "document", "__class__", "__name__", "__doc__", "lineno"}
MUTATORS = {"append", "add", "insert", "extend", "update", "remove", "pop", "popitem", "discard", "clear", "sort", "reverse", "setdefault",
            "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "popleft", "extendleft", "subtract", "__setitem__", "__delitem__", "__iadd__"}
ITEM_OF = {"pop", "popleft", "popitem", "setdefault", "get", "find", "__getitem__", "getroot"}
SEQ_OF = {"values", "items", "keys", "findall", "iter", "iterfind", "elements", "most_common", "__iter__", "union", "intersection", "difference", "symmetric_difference", "copy"}
STORES = {"append": 0, "add": 0, "insert": 1, "extend": 0, "update": 0, "setdefault": 1, "appendleft": 0, "extendleft": 0, "__setitem__": 1}
FLAT = {"extend", "update", "extendleft", "union"}
SHALLOW = {"list", "tuple", "set", "dict", "frozenset", "sorted", "reversed", "filter", "iter", "enumerate", "zip", "map", "OrderedDict", "deque", "chain", "zip_longest",
           "islice", "Counter", "defaultdict", "copy", "from_iterable", "takewhile", "dropwhile", "groupby", "product", "permutations", "combinations", "UserDict", "ChainMap", "accumulate", "starmap", "filterfalse"}
NODEFAULTS = {}


def root(tok):
    return tok[:2] if tok[0] == "p" else tok[:3]


def path(tok):
    return tok[-1] if tok[0] != "n" else ()


def step(tok, f):
    """the token of a part"""
    p = tok[-1]
    if f == "parent" and p and p[-1] == "*":
        return tok[:-1] + (p[:-1],)
    if len(p) >= MAXPATH:
        return tok if p[-1] == "…" else tok[:-1] + (p[:-1] + ("…",),)
    return tok[:-1] + (p + (f,),)


def show(tok):
    if tok[0] == "n":
        return "a new object"
    b = tok[1] if tok[0] == "p" else tok[2] if tok[0] in "gv" else "%s.%s" % (tok[1].split(".")[-1], tok[2])
    for s in tok[-1]:
        b += "[*]" if s == "*" else "." + s
    return b


class Summary:
    __slots__ = ("mut", "sto", "ret", "fresh", "cont", "rebind", "shared", "par", "adopt", "struct")

    def __init__(self):
        self.mut = {}       # (token, kind) -> (func, node)   kinds: items, attr:<name>, rebind
        self.sto = {}       # (token, field, stored token) -> (func, node)
        self.shared = {}    # (token of module or class data, kind, node) -> (func, node), for the function that names the object
        self.struct = {}    # token -> (func, node): items added or removed, not only replaced
        self.par = frozenset()      # what the parent field of a new object that is returned may be
        self.adopt = {}     # (token, possible parents of a new object put into it) -> (func, node)
        self.ret = frozenset()
        self.fresh = False
        self.cont = frozenset()     # what a new object that is returned may hold

    def key(self):
        return (frozenset(self.mut), frozenset(self.sto), self.ret, self.fresh, self.cont, self.par, frozenset(self.adopt), frozenset(self.struct))


class Flow:
    def __init__(self, prj, fold):
        self.prj, self.fold = prj, fold
        self.sum = {f: Summary() for f in prj.funcs}
        self.cdata, self.flats = {}, {}
        self.rounds = 0
        self.loops = {}         # For/comprehension node -> [(iterated value, ...)]
        self.vals = {}          # expression node -> value (last round)
        self.calls = {}
        todo = [f for f in prj.funcs if not f.is_lambda]
        users = {}
        pending = list(todo)
        n = 0
        order = {f: i for i, f in enumerate(todo)}
        while pending and n < 40000:
            f = pending.pop(0)
            n += 1
            old = self.sum[f].key()
            a = Analyser(self, f)
            a.run()
            self.sum[f] = a.s
            self.calls[f] = a.called
            for g in a.called:
                users.setdefault(g, set()).add(f)
            if a.s.key() != old:
                for g in users.get(f, ()):
                    if g not in pending:
                        pending.append(g)
        self.rounds = n

    # class level data ---------------------------------------------------------------------------------------------
    def class_attr(self, c, attr):
        """the class that holds attr as data shared by its instances, or None"""
        k = (c, attr)
        if k not in self.cdata:
            self.cdata[k] = self._class_attr(c, attr)
        return self.cdata[k]

    def flat(self, t):
        """table whose members are strings or numbers"""
        if t[0] not in "gc" or t[-1]:
            return False
        k = t[:3]
        if k not in self.flats:
            vs = []
            if t[0] == "g":
                m = self.prj.modules.get(t[1])
                for x in (m.globals.get(t[2], []) if m else []):
                    vs.append(getattr(x, "value", None) if isinstance(x, (ast.Assign, ast.AnnAssign)) else None)
            else:
                for c in self.prj.classes:
                    if c.qual == t[1]:
                        for k2 in c.family():
                            if t[2] in k2.attrs:
                                vs.append(k2.attrs[t[2]])
                            for f, n in k2.selfattrs.get(t[2], []):
                                vs.append(getattr(n._parent, "value", None))
            def ok(v):
                if isinstance(v, (ast.List, ast.Tuple, ast.Set)):
                    return bool(v.elts) and all(isinstance(e, ast.Constant) for e in v.elts)
                if isinstance(v, ast.Dict):
                    return bool(v.values) and all(isinstance(e, ast.Constant) for e in v.values)
                return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("set", "list", "tuple", "frozenset") and len(v.args) == 1 and ok(v.args[0])
            self.flats[k] = bool(vs) and all(ok(v) for v in vs)
        return self.flats[k]

    def _class_attr(self, c, attr):
        inst = False
        owner = None
        for k in c.family() if c else ():
            for f, n in k.selfattrs.get(attr, []):
                m = f
                while m is not None and m.cls is None:
                    m = m.outer
                if m is not None and not (m.is_classmethod or m.name == "__new__"):
                    inst = True
                else:
                    owner = owner or k
        for k in c.mro() if c else ():
            if attr in k.methods:
                return None
            if attr in k.attrs:
                owner = owner or k
        if owner is not None and not inst:
            vals = [k.attrs[attr] for k in c.mro() if attr in k.attrs]
            for k in c.family():
                for f, n in k.selfattrs.get(attr, []):
                    vals.append(getattr(n._parent, "value", None) if isinstance(n._parent, (ast.Assign, ast.AugAssign)) else None)
            if all(v is not None and plain(v) for v in vals):
                return None
            return owner
        return None


def plain(n):
    """the expression gives a number, string, None or boolean"""
    if isinstance(n, (ast.Constant, ast.JoinedStr, ast.Compare)):
        return True
    if isinstance(n, ast.BinOp):
        return plain(n.left) or plain(n.right)
    if isinstance(n, ast.UnaryOp):
        return True
    if isinstance(n, ast.Call):
        d = (dotted(n.func) or "").split(".")[-1]
        return d in ("len", "int", "str", "float", "sum", "abs", "round", "compile", "bool", "ord", "chr", "join", "format", "repr") or \
            d in ("max", "min") and len(n.args) > 1 and any(plain(a) for a in n.args)
    return False


class Analyser:
    def __init__(self, flow, f):
        self.flow, self.prj, self.f, self.m = flow, flow.prj, f, f.module
        self.s = Summary()
        self.heap, self.grown = {}, 0
        self.called = set()
        self.cls = self.prj.own_class(f)
        self.env0 = {}
        self.changed = False

    def run(self):
        f = self.f
        env = {}
        for p in f.allparams:
            env[p] = frozenset([("p", p, ())])
        if f.vararg:
            env[f.vararg] = frozenset([("p", f.vararg, ())])
        for i in range(2):
            self.end = None
            size = self.grown
            self.block(f.node.body, dict(env))
            if self.grown == size:
                break
        # what new returned objects hold
        out, cont, fresh, par = set(), set(), False, set()
        for t in self.s.ret:
            if t[0] == "n":
                fresh = True
                cont |= self.contents(t)
                par |= self.heap.get(t, {}).get("parent", EMPTY)
            else:
                out.add(t)
        self.s.ret, self.s.cont, self.s.fresh = frozenset(out), frozenset(cont), fresh or self.s.fresh
        self.s.par = frozenset(t if t[0] != "n" else ("n",) for t in par)

    def contents(self, t, seen=None):
        """outside tokens held, at any depth, by a new object"""
        seen = seen if seen is not None else set()
        res, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for fld, v in self.heap.get(x, {}).items():
                if fld not in ("parent", "document"):
                    for z in v:
                        if z[0] == "n":
                            todo.append(z)
                        else:
                            res.add(z)
        return res

    # ---- environment
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = dict(a)
        for k, v in b.items():
            o = r.get(k)
            r[k] = v if o is None else o | v
        return r

    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def loop(self, s, env, head, body, orelse):
        self.breaks.append([None, None])
        out = env
        for i in range(4):
            e = head(dict(out))
            e = self.block(body, e)
            e = self.join(e, self.breaks[-1][1])
            n = self.join(out, e)
            if n == out:
                break
            out = n
        br = self.breaks.pop()
        if orelse:
            out = self.block(orelse, dict(out))
        return self.join(out, br[0])

    breaks = []

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env, s.value)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env, s.value)
            return env
        if isinstance(s, ast.AugAssign):
            self.aug(s, env)
            return env
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return env
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.s.ret |= self.ev(s.value, env)
            return None
        if isinstance(s, ast.If):
            self.ev(s.test, env)
            t, e = dict(env), dict(env)
            self.narrow(s.test, True, t)
            self.narrow(s.test, False, e)
            return self.join(self.block(s.body, t), self.block(s.orelse, e))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            self.flow.loops[s] = it

            def head(e):
                self.assign(s.target, self.items(it, s.iter, env), e, None, it, s.iter)
                return e
            return self.loop(s, env, head, s.body, s.orelse)
        if isinstance(s, ast.While):
            def head(e):
                self.ev(s.test, e)
                return e
            return self.loop(s, env, head, s.body, s.orelse)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, i.context_expr)
            return self.block(s.body, env)
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            start = dict(env)
            e = self.block(s.body, dict(env))
            mid = self.join(start, e)
            if e is not None and s.orelse:
                e = self.block(s.orelse, e)
            outs = [e]
            for h in s.handlers:
                he = dict(mid)
                if h.name:
                    he[h.name] = EMPTY
                outs.append(self.block(h.body, he))
            out = None
            for o in outs:
                out = self.join(out, o)
            if s.finalbody:
                fe = self.block(s.finalbody, dict(out) if out is not None else dict(mid))
                return fe if out is not None else None
            return out
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.ev(t.slice, env)
                    self.mutate(self.ev(t.value, env), "items", s)
                elif isinstance(t, ast.Attribute):
                    self.mutate(self.ev(t.value, env), "attr:" + t.attr, s)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
            return env
        if isinstance(s, ast.Break):
            if self.breaks:
                self.breaks[-1][0] = self.join(self.breaks[-1][0], env)
            return None
        if isinstance(s, ast.Continue):
            if self.breaks:
                self.breaks[-1][1] = self.join(self.breaks[-1][1], env)
            return None
        if isinstance(s, ast.Raise):
            for c in (s.exc, s.cause):
                if c is not None:
                    self.ev(c, env)
            return None
        if isinstance(s, ast.Assert):
            self.ev(s.test, env)
            return env
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env[s.name] = EMPTY
            return env
        if type(s).__name__ == "Match":
            v = self.ev(s.subject, env)
            out = env
            for c in s.cases:
                e = dict(env)
                for x in ast.walk(c.pattern):
                    if getattr(x, "name", None):
                        e[x.name] = v | self.items(v)
                out = self.join(out, self.block(c.body, e))
            return out
        return env

    def narrow(self, test, pol, env):
        """a name known to be None or missing refers to nothing"""
        from .facts import atoms
        for a in atoms(test, pol):
            n = a.node
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Name) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
                if isinstance(n.ops[0], (ast.Is, ast.Eq)) == a.pol and isinstance(n.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                    env[n.left.id] = EMPTY
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and a.pol and len(n.args) == 2 and isinstance(n.args[0], ast.Name):
                ts = n.args[1].elts if isinstance(n.args[1], ast.Tuple) else [n.args[1]]
                if all((dotted(t) or "") in ("str", "int", "float", "bool", "bytes") for t in ts):
                    env[n.args[0].id] = EMPTY

    # ---- stores
    def assign(self, t, v, env, value=None, seq=None, seqnode=None):
        if isinstance(t, ast.Name):
            if t.id in self.f.globals_ or (self.f is self.m.main and False):
                self.mutate([("g", self.m.name, t.id, ())], "rebind", t)
                self.store(frozenset([("g", self.m.name, t.id, ())]), "=", v, t)
            elif t.id in self.f.nonlocals:
                o = self.f.outer
                while o is not None and t.id not in o.locals:
                    o = o.outer
                if o is not None:
                    self.mutate([("v", o.qual, t.id, ())], "rebind", t)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = None
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in value.elts + t.elts):
                vs = [self.ev(x, env) for x in value.elts]
            elif seqnode is not None and isinstance(seqnode, ast.Call):
                vs = self.pairs(seqnode, env, len(t.elts))
            for i, x in enumerate(t.elts):
                w = vs[i] if vs is not None else self.items(v)
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, w, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.mutate(o, "attr:" + t.attr, t)
            self.store(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.mutate(o, "items", t)
            self.store(o, "*", self.items(v) if isinstance(t.slice, ast.Slice) else v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)

    def pairs(self, call, env, n):
        """values of the members of the tuples a call like enumerate(x), zip(a, b), d.items() yields"""
        nm = dotted(call.func) or ""
        base = nm.split(".")[-1] if nm else (call.func.attr if isinstance(call.func, ast.Attribute) else "")
        if base == "enumerate" and n == 2 and call.args:
            return [EMPTY, self.items(self.ev(call.args[0], env), call.args[0], env)]
        if base in ("zip", "zip_longest") and len(call.args) == n:
            return [self.items(self.ev(a, env), a, env) for a in call.args]
        if isinstance(call.func, ast.Attribute) and call.func.attr == "items" and n == 2 and not call.args:
            return [EMPTY, self.items(self.ev(call.func.value, env))]
        if base in ("sorted", "list", "tuple", "reversed", "filter") and call.args and isinstance(call.args[-1 if base == "filter" else 0], ast.Call):
            return self.pairs(call.args[-1 if base == "filter" else 0], env, n)
        return None

    def aug(self, s, env):
        v = self.ev(s.value, env)
        listy = isinstance(s.value, (ast.List, ast.ListComp, ast.Set, ast.SetComp, ast.Dict, ast.Tuple)) or isinstance(s.value, ast.Call) and (dotted(s.value.func) or "") in ("list", "set", "sorted", "dict", "tuple")
        if isinstance(s.target, ast.Name):
            old = self.name(s.target, env)
            known = any(self.mutable_object(t) for t in old)
            known = known or isinstance(s.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)) and any(t[0] in "gc" for t in old)
            if (listy or known) and isinstance(s.op, (ast.Add, ast.BitOr, ast.Sub, ast.BitAnd, ast.BitXor, ast.Mult)):
                self.mutate(old, "items", s)
                self.store(old, "*", self.items(v), s)
                if s.target.id in self.f.globals_:
                    self.mutate([("g", self.m.name, s.target.id, ())], "rebind", s)
            elif s.target.id in self.f.globals_:
                self.mutate([("g", self.m.name, s.target.id, ())], "rebind", s)
            return
        o = self.ev(s.target.value, env)
        if isinstance(s.target, ast.Attribute):
            if listy:
                self.mutate(self.field(o, s.target.attr, s.target, env), "items", s)
            self.mutate(o, "attr:" + s.target.attr, s)
            self.store(o, s.target.attr, v, s)
        else:
            self.mutate(o, "items", s)
            self.store(o, "*", v, s)

    def mutable_object(self, t):
        """token that is certainly a list, set or dict of the module, class or of this function"""
        if t[0] == "n":
            return isinstance(t[1], (ast.List, ast.ListComp, ast.Set, ast.SetComp, ast.Dict, ast.DictComp))
        if t[-1]:
            return False
        if t[0] == "p":
            d = self.f.defaults.get(t[1])
            return d is not None and mutable_expr(d)
        if t[0] == "g":
            m = self.prj.modules.get(t[1])
            return bool(m) and any(isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and mutable_expr(s.value) for s in m.globals.get(t[2], []))
        if t[0] == "c":
            for c in self.prj.classes:
                if c.qual == t[1]:
                    for k in c.family():
                        if t[2] in k.attrs and mutable_expr(k.attrs[t[2]]) or any(mutable_expr(getattr(n._parent, "value", None)) for f, n in k.selfattrs.get(t[2], [])):
                            return True
        return False

    def mutate(self, v, kind, node, site=None, passed=False):
        for t in v:
            if t[0] == "n":
                continue
            if t[0] in "gc" and not passed:
                g, at = site or (self.f, node)
                self.s.shared.setdefault((t, kind, at), (g, at))
            self.s.mut.setdefault((t, kind), site or (self.f, node))
            if kind == "items" and site is None and structural(node):
                self.s.struct.setdefault(t, (self.f, node))

    def store(self, o, fld, v, node, site=None):
        if not v:
            return
        for t in o:
            if t[0] != "n" and self.f is self.m.main:
                continue
            if t[0] == "n":
                h = self.heap.setdefault(t, {})
                old = h.get(fld, EMPTY)
                if not v <= old:
                    h[fld] = old | v
                    self.grown += 1
            else:
                for x in v:
                    if x[0] == "n":
                        ps = self.heap.get(x, {}).get("parent")
                        if ps and fld == "*" and not any(y[0] == "n" for y in ps) and len(ps) < 9:
                            self.s.adopt.setdefault((t, ps), site or (self.f, node))
                        for y in self.contents(x):
                            self.s.sto.setdefault((t, fld, y), site or (self.f, node))
                    elif x != t:
                        self.s.sto.setdefault((t, fld, x), site or (self.f, node))

    def part(self, t, f):
        h = self.heap.get(t)
        return h.get(f, EMPTY) | h.get("?", EMPTY) if h else EMPTY

    # ---- reading
    def field(self, v, attr, node=None, env=None):
        if attr in IMMUTABLE:
            return EMPTY
        res = set()
        for t in v:
            if t[0] == "n":
                res |= self.part(t, attr)
            else:
                c = self.class_of(t)
                k = self.flow.class_attr(c, attr) if c is not None else None
                if k is not None:
                    res.add(("c", k.qual, attr, ()))
                else:
                    res.add(step(t, attr))
        return frozenset(res)

    def class_of(self, t):
        if t[-1]:
            return None
        if t[0] == "p" and self.f.selfname == t[1]:
            return self.cls
        if t[0] == "v":
            g = self.f.outer
            while g is not None and g.qual != t[1]:
                g = g.outer
            if g is not None and g.selfname == t[2]:
                return g.cls
        return None

    def items(self, v, node=None, env=None):
        res = set()
        for t in v:
            if t[0] == "n":
                res |= self.part(t, "*")
            elif not (t[-1] and t[-1][-1] in STRINGS) and not self.flow.flat(t):
                res.add(step(t, "*"))
        return frozenset(res)

    def new(self, node, items=EMPTY, any_=EMPTY):
        t = ("n", node)
        if items:
            self.store(frozenset([t]), "*", items, node)
        if any_:
            self.store(frozenset([t]), "?", any_, node)
        return frozenset([t])

    def name(self, n, env):
        if n.id in env:
            return env[n.id]
        if n.id in self.f.locals and self.f is not self.m.main:
            return EMPTY
        t = self.prj.lookup(n.id, self.f, self.m)
        if isinstance(t, tuple):
            if t[0] == "local" and t[1] is not self.f:
                return frozenset([("v", t[1].qual, n.id, ())])
            if t[0] == "global":
                if self.f is self.m.main:
                    return EMPTY
                return frozenset([("g", t[1].name, n.id, ())]) if not self.constant_global(t[1], n.id) else EMPTY
        return EMPTY

    def constant_global(self, m, name):
        ss = m.globals.get(name, [])
        return bool(ss) and all(isinstance(s, ast.Assign) and isinstance(s.value, (ast.Constant, ast.JoinedStr)) and s.value is not None for s in ss) and \
            not any(name in f.globals_ for f in self.prj.funcs if f.module is m)

    # ---- expressions
    def ev(self, n, env):
        v = self._ev(n, env)
        self.flow.vals[n] = v if n not in self.flow.vals else self.flow.vals[n] | v
        return v

    def _ev(self, n, env):
        if n is None or isinstance(n, ast.Constant):
            return EMPTY
        if isinstance(n, ast.Name):
            return self.name(n, env)
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name):
                t = self.prj.lookup(n.value.id, self.f, self.m) if n.value.id not in env else None
                if isinstance(t, Class):
                    k = self.flow.class_attr(t, n.attr) or next((c for c in t.mro() if n.attr in c.attrs), None)
                    return frozenset([("c", k.qual, n.attr, ())]) if k is not None else EMPTY
                if isinstance(t, Module):
                    if n.attr in t.globals and not self.constant_global(t, n.attr):
                        return frozenset([("g", t.name, n.attr, ())])
                    return EMPTY
                if isinstance(t, tuple) and t[0] in ("ext", "builtin"):
                    return EMPTY
            if isinstance(n.value, ast.Attribute) and n.value.attr == "__class__" or isinstance(n.value, ast.Call) and (dotted(n.value.func) or "") == "type":
                if self.cls is not None:
                    k = self.flow.class_attr(self.cls, n.attr) or next((c for c in self.cls.mro() if n.attr in c.attrs), None)
                    if k is not None:
                        return frozenset([("c", k.qual, n.attr, ())])
            return self.field(self.ev(n.value, env), n.attr, n, env)
        if isinstance(n, ast.Subscript):
            v = self.ev(n.value, env)
            self.ev(n.slice, env)
            if isinstance(n.slice, ast.Slice):
                return self.new(n, self.items(v)) if v else EMPTY
            return self.items(v)
        if isinstance(n, ast.Slice):
            for x in (n.lower, n.upper, n.step):
                if x is not None:
                    self.ev(x, env)
            return EMPTY
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            vs = set()
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    vs |= self.items(self.ev(x.value, env))
                else:
                    vs |= self.ev(x, env)
            return self.new(n, frozenset(vs))
        if isinstance(n, ast.Dict):
            vs = set()
            for k, x in zip(n.keys, n.values):
                if k is None:
                    vs |= self.items(self.ev(x, env))
                else:
                    self.ev(k, env)
                    vs |= self.ev(x, env)
            return self.new(n, frozenset(vs))
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = dict(env)
            for g in n.generators:
                it = self.ev(g.iter, e)
                self.flow.loops[g] = it
                self.assign(g.target, self.items(it, g.iter, e), e, None, it, g.iter)
                for c in g.ifs:
                    self.ev(c, e)
            if isinstance(n, ast.DictComp):
                self.ev(n.key, e)
                v = self.ev(n.value, e)
            else:
                v = self.ev(n.elt, e)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr) and x.target.id in e:
                    env[x.target.id] = e[x.target.id]
            return self.new(n, v)
        if isinstance(n, ast.IfExp):
            self.ev(n.test, env)
            t, o = dict(env), dict(env)
            self.narrow(n.test, True, t)
            self.narrow(n.test, False, o)
            return self.ev(n.body, t) | self.ev(n.orelse, o)
        if isinstance(n, ast.BoolOp):
            v = EMPTY
            for x in n.values:
                v |= self.ev(x, env)
            return v
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value, env)
            self.assign(n.target, v, env, n.value)
            return v
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left, env), self.ev(n.right, env)
            if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)):
                return EMPTY
            if isinstance(n.op, (ast.Add, ast.BitOr, ast.Sub, ast.BitAnd, ast.BitXor, ast.Mult)) and (a or b):
                if any(isinstance(x, ast.Constant) and isinstance(x.value, (str, int, float)) for x in (n.left, n.right)) and not isinstance(n.op, ast.Mult):
                    return EMPTY
                return self.new(n, self.items(a) | self.items(b))
            return EMPTY
        if isinstance(n, ast.Lambda):
            e = dict(env)
            for p in n._func.allparams:
                e[p] = EMPTY
            self.ev(n.body, e)
            return EMPTY
        if isinstance(n, ast.Call):
            return self.call(n, env)
        if isinstance(n, (ast.Await, ast.Starred)):
            return self.ev(n.value, env)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            v = self.ev(n.value, env) if n.value is not None else EMPTY
            t = ("n", self.f.node)
            self.store(frozenset([t]), "*", v if isinstance(n, ast.Yield) else self.items(v), n)
            self.s.ret |= frozenset([t])
            return EMPTY
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return EMPTY

    def const_names(self, n, env):
        """strings a getattr/setattr name may be, or None"""
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return [n.value]
        if isinstance(n, ast.Name):
            x = n
            while x is not None and x is not self.f.node:
                x = getattr(x, "_parent", None)
                its = [x] if isinstance(x, ast.For) else getattr(x, "generators", []) if x is not None else []
                for g in its:
                    if isinstance(g.target, ast.Name) and g.target.id == n.id:
                        v = self.flow.fold.value(g.iter, self.f)
                        if isinstance(v, (tuple, list, set, frozenset)) and all(isinstance(y, str) for y in v):
                            return list(v)
                        return None
        v = self.flow.fold.value(n, self.f)
        return [v] if isinstance(v, str) else None

    def call(self, n, env):
        fn = n.func
        ext = self.prj.ext_name(fn, self.f, self.m) or ""
        base = ext.split(".")[-1]
        args = []
        for a in n.args:
            args.append(self.ev(a.value if isinstance(a, ast.Starred) else a, env))
        kws = {k.arg: self.ev(k.value, env) for k in n.keywords}
        # functions passed on may be called any time
        for a in list(n.args) + [k.value for k in n.keywords]:
            g = self.local_func(a)
            if g is not None:
                self.apply_free(g, env, n)
        if ext == "builtins.getattr" and len(args) >= 2:
            names = self.const_names(n.args[1], env)
            v = EMPTY
            for x in names if names is not None else ["?"]:
                v |= self.field(args[0], x)
            return v | (args[2] if len(args) > 2 else EMPTY)
        if ext == "builtins.setattr" and len(args) >= 3:
            names = self.const_names(n.args[1], env)
            both = self.getter_for(n.args[2], n.args[1], names, env)
            for x in names if names is not None else ["?"]:
                self.mutate(args[0], "attr:" + x, n)
                self.store(args[0], x, both[x] if both else args[2], n)
            return EMPTY
        if ext == "builtins.delattr" and args:
            names = self.const_names(n.args[1], env) if len(n.args) > 1 else None
            for x in names if names is not None else ["?"]:
                self.mutate(args[0], "attr:" + x, n)
            return EMPTY
        if ext in ("copy.deepcopy",):
            return self.new(n)
        if ext == "copy.copy":
            return self.new(n, self.items(args[0]) if args else EMPTY, self.shallow(args[0]) if args else EMPTY)
        if ext.endswith(".SubElement") and args:
            self.mutate(args[0], "items", n)
            return self.new(n)
        if ext and (ext.startswith("builtins.") or ext.split(".")[0] in ("itertools", "collections", "functools")) and base in SHALLOW:
            src = args
            if base in ("filter", "map", "takewhile", "dropwhile", "starmap", "filterfalse") and args:
                src = args[1:]
            if base == "map" and args:
                g = self.local_func(n.args[0]) or self.target(n.args[0])
                if isinstance(g, Func):
                    return self.new(n, self.apply(g, n, [self.items(a) for a in src], {}, EMPTY, env))
                if isinstance(n.args[0], ast.Lambda):
                    e = dict(env)
                    for p, a in zip(n.args[0]._func.params, src):
                        e[p] = self.items(a)
                    return self.new(n, self.ev(n.args[0].body, e))
                if (dotted(n.args[0]) or "") in ("list", "tuple", "set", "dict"):
                    return self.new(n, self.items(src[0]) if src else EMPTY)
                return self.new(n)
            if base == "defaultdict":
                src = args[1:]
            if base in ("chain", "zip", "zip_longest", "product", "UserDict", "ChainMap") or base not in ("from_iterable",):
                v = EMPTY
                for a in src:
                    v |= self.items(a)
                for k, a in kws.items():
                    if k not in ("key", "reverse", "default", "fillvalue"):
                        v |= a
                for k in ("key",):
                    pass
                self.keyfn(n, src, env)
                return self.new(n, v)
            return self.new(n, self.items(self.items(args[0])) if args else EMPTY)
        if ext in ("builtins.next", "builtins.min", "builtins.max") and args:
            v = self.items(args[0]) if len(args) == 1 or ext.endswith("next") else EMPTY
            for a in args[1:] if ext.endswith("next") else (args if len(args) > 1 else []):
                v |= a
            return v | kws.get("default", EMPTY)
        if ext in ("builtins.sum", "functools.reduce") and args:
            return self.new(n, self.items(self.items(args[0])))
        if ext == "builtins.vars" and args:
            return self.field(args[0], "__dict__")
        if ext:
            return EMPTY
        # project classes and functions
        t = self.target(fn) or self.own_type(fn)
        if isinstance(t, Class):
            v = self.new(n)
            i = t.find("__init__")
            if i is not None:
                self.apply(i, n, args, kws, v, env)
            elif any(b.split(".")[-1] in ("list", "dict", "tuple", "set", "UserDict", "UserList", "OrderedDict") for k in t.mro() for b in k.basenames) and args:
                self.store(v, "*", self.items(args[0]), n)
            return v
        recv = EMPTY
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                sn = self.f.selfname
                o = self.f
                while sn is None and o.outer is not None:
                    o = o.outer
                    sn = o.selfname
                recv = env.get(sn, frozenset([("v", o.qual, sn, ())]) if sn else EMPTY) if sn else EMPTY
            else:
                recv = self.ev(fn.value, env)
        gs, exact = self.prj.callees(n, self.f, self.m)
        if isinstance(fn, ast.Call) and (dotted(fn.func) or "") == "type":
            v = self.new(n)
            for a in args:
                self.store(v, "*", self.items(a), n)
            return v
        if isinstance(fn, ast.Attribute) and not exact and fn.attr in ("makeelement", "Element"):
            return self.new(n)
        if isinstance(fn, ast.Attribute) and (dotted(fn) or "").endswith("__class__"):
            v = self.new(n)
            if args:
                self.store(v, "*", self.items(args[0]), n)
            return v
        if gs:
            out = EMPTY
            for g in gs:
                a, r = args, recv
                if g.name == "__init__" and isinstance(fn, ast.Attribute) and fn.attr != "__init__":
                    continue
                if g.cls is not None and not g.is_static and isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and isinstance(self.prj.lookup(fn.value.id, self.f, self.m), Class) \
                        and not g.is_classmethod and args:
                    r, a = args[0], args[1:]
                out |= self.apply(g, n, a, kws, r, env)
            if exact or not (isinstance(fn, ast.Attribute) and (fn.attr in MUTATORS or fn.attr in SEQ_OF or fn.attr in ITEM_OF)):
                return out
        if isinstance(fn, ast.Attribute):
            return self.method(n, fn.attr, recv, args, kws, env)
        return EMPTY

    def keyfn(self, n, src, env):
        for k in n.keywords:
            if k.arg == "key" and isinstance(k.value, ast.Lambda) and src:
                e = dict(env)
                for p in k.value._func.params:
                    e[p] = self.items(src[0])
                self.ev(k.value.body, e)
        if n.args and isinstance(n.args[0], ast.Lambda) and src:
            e = dict(env)
            for p in n.args[0]._func.params:
                e[p] = self.items(src[0])
            self.ev(n.args[0].body, e)

    def getter_for(self, val, name, names, env):
        """setattr(x, a, getattr(y, a, ..)): what goes with each name"""
        if isinstance(val, ast.Name):
            ws = [x for x in walk_own(self.f.node) if isinstance(x, ast.Name) and x.id == val.id and isinstance(x.ctx, ast.Store)]
            if len(ws) == 1 and isinstance(ws[0]._parent, ast.Assign) and ws[0] in ws[0]._parent.targets:
                val = ws[0]._parent.value
        if names and isinstance(val, ast.Call) and isinstance(name, ast.Name):
            inner, wrap = val, False
            if (dotted(val.func) or "") in ("list", "dict", "set", "copy.copy", "tuple") and len(val.args) == 1:
                inner, wrap = val.args[0], True
            if isinstance(inner, ast.Call) and (dotted(inner.func) or "") == "getattr" and len(inner.args) >= 2 and isinstance(inner.args[1], ast.Name) and inner.args[1].id == name.id:
                o = self.ev(inner.args[0], env)
                res = {x: self.field(o, x) for x in names}
                return {x: self.new(val, self.items(v)) for x, v in res.items()} if wrap else res
        return None

    def shallow(self, v):
        """fields a shallow copy shares"""
        res = set()
        for t in v:
            if t[0] == "n":
                for w in self.heap.get(t, {}).values():
                    res |= w
            else:
                res.add(step(t, "*"))
        return frozenset(res)

    def method(self, n, name, recv, args, kws, env):
        if name in MUTATORS:
            self.mutate(recv, "items", n)
            if name in STORES and len(args) > STORES[name]:
                v = args[STORES[name]]
                self.store(recv, "*", self.items(v) if name in FLAT else v, n)
                if name == "update":
                    for w in kws.values():
                        self.store(recv, "*", w, n)
            if name in ("pop", "popitem", "popleft", "setdefault"):
                return self.items(recv) | (args[1] if len(args) > 1 else EMPTY)
            return EMPTY
        if name == "set" and len(args) == 2:
            self.mutate(recv, "attr:attrib", n)
            return EMPTY
        if name == "copy":
            return self.new(n, self.items(recv), self.shallow(recv)) if recv else EMPTY
        if name in ITEM_OF:
            return self.items(recv) | (args[1] if len(args) > 1 else EMPTY)
        if name in SEQ_OF:
            v = self.items(recv)
            for a in args:
                v |= self.items(a)
            return self.new(n, v)
        return EMPTY

    def own_type(self, fn):
        """class named by self.__class__ or type(self)"""
        x = None
        if isinstance(fn, ast.Attribute) and fn.attr == "__class__":
            x = fn.value
        elif isinstance(fn, ast.Call) and (dotted(fn.func) or "") == "type" and len(fn.args) == 1:
            x = fn.args[0]
        return self.prj.self_class(x.id, self.f) if isinstance(x, ast.Name) else None

    def target(self, fn):
        if isinstance(fn, ast.Name):
            t = self.prj.lookup(fn.id, self.f, self.m)
            return t if isinstance(t, (Class, Func)) else None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            t = self.prj.lookup(fn.value.id, self.f, self.m)
            if isinstance(t, Module):
                u = self.prj.global_target(t, fn.attr)
                return u if isinstance(u, (Class, Func)) else None
        return None

    def local_func(self, n):
        if isinstance(n, ast.Name):
            t = self.prj.lookup(n.id, self.f, self.m)
            return t if isinstance(t, Func) and t.outer is not None and t.outer is not self.m.main else None
        return None

    def apply_free(self, g, env, n):
        """effects of a nested function on variables of this one"""
        self.apply(g, n, None, {}, EMPTY, env)

    def apply(self, g, n, args, kws, recv, env):
        self.called.add(g)
        s = self.flow.sum[g]
        sub = {}
        params = list(g.params)
        if g.cls is not None and not g.is_static and params:
            sub[params[0]] = recv
            params = params[1:]
        for i, a in enumerate(args or []):
            node = n.args[i] if i < len(n.args) else None
            if isinstance(node, ast.Starred):
                for p in params[i:]:
                    sub[p] = sub.get(p, EMPTY) | self.items(a)
                break
            if i < len(params):
                sub[params[i]] = a
            elif g.vararg:
                sub[g.vararg] = sub.get(g.vararg, EMPTY) | self.new((n, "*"), a)
        for k, a in kws.items():
            if k is None:
                for p in params:
                    sub.setdefault(p, self.items(a))
            elif k in g.params or k in g.kwonly:
                sub[k] = a
            elif g.kwarg:
                sub[g.kwarg] = sub.get(g.kwarg, EMPTY) | self.new((n, "**"), a)
        for (t, kind), site in list(s.mut.items()):
            v = self.subst(t, sub, env)
            if v:
                self.mutate(v, kind, n, site, t[0] in "gc")
        for t, site in list(s.struct.items()):
            for x in self.subst(t, sub, env):
                if x[0] != "n":
                    self.s.struct.setdefault(x, site)
        for (t, fld, x), site in list(s.sto.items()):
            o = self.subst(t, sub, env)
            v = self.subst(x, sub, env)
            if o and v:
                self.store(o, fld, v, n, site)
        for (t, ps), site in list(s.adopt.items()):
            o = self.subst(t, sub, env)
            ns = frozenset(y for x in ps for y in self.subst(x, sub, env))
            if ns and not any(y[0] == "n" for y in ns) and len(ns) < 9:
                for x in o:
                    if x[0] != "n":
                        self.s.adopt.setdefault((x, ns), site)
        out = set()
        if any("cache" in (dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] for d in getattr(g.node, "decorator_list", [])):
            out.add(("g", g.module.name, g.name + "()", ()))        # every caller gets the same object
        for t in s.ret:
            out |= self.subst(t, sub, env)
        if s.fresh:
            c = set()
            for t in s.cont:
                c |= self.subst(t, sub, env)
            v = self.new(n, any_=frozenset(c))
            ps = set()
            for t in s.par:
                ps |= {("n", "?")} if t[0] == "n" else self.subst(t, sub, env)
            if ps:
                self.store(v, "parent", frozenset(ps), n)
            out |= v
        return frozenset(out)

    def subst(self, t, sub, env):
        if t[0] == "p":
            v = sub.get(t[1], EMPTY)
        elif t[0] == "v":
            if t[1] == self.f.qual:
                v = env.get(t[2], EMPTY)
            else:
                v = frozenset([t[:-1] + ((),)])
        else:
            return frozenset([t])
        for s in t[-1]:
            if s == "…":
                v = v | self.items(v)
            else:
                v = self.items(v) if s == "*" else self.field(v, s)
        return v


def structural(n):
    """the change adds or removes items (setting a key of a dictionary may just replace a value)"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
        return n.func.attr in MUTATORS - {"sort", "reverse", "setdefault", "__setitem__"} or n.func.attr == "SubElement"
    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
        return isinstance(n.slice, ast.Slice)
    return isinstance(n, ast.Delete)


def mutable_expr(n):
    if isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    return isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] in ("list", "dict", "set", "defaultdict", "OrderedDict", "Counter", "deque", "bytearray")


_cache = {}


def flow(prj, fold):
    if prj not in _cache:
        _cache.clear()
        _cache[prj] = Flow(prj, fold)
    return _cache[prj]
