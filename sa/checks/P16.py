"""P16: comparison operators obey the laws of comparison, hashes agree with equality, in-place operators return a value."""
import ast
from ..core import text, walk_own, bind, dotted, Func, Class
from ..util import terminates
from ..noret import noreturn

TECHNIQUE = "finite abstract interpretation of the operators over the outcomes of their elementary comparisons, checked against the laws; dependence of __hash__ on the compared parts"
NOTE = "Elementary comparisons of the parts (strings, numbers, tuples) are taken to be total orders, and helper functions of one operand to be pure. Operators that the abstract domain cannot follow are left undecided and listed."

OPS = {"__lt__": ast.Lt, "__le__": ast.LtE, "__gt__": ast.Gt, "__ge__": ast.GtE, "__eq__": ast.Eq, "__ne__": ast.NotEq}
ORDERED = {"list", "tuple", "str", "int", "float", "bytes", "UserString", "UserList"}
EQONLY = {"dict", "set", "frozenset", "OrderedDict", "UserDict", "defaultdict", "Counter"}
INPLACE = {"__iadd__", "__isub__", "__imul__", "__ior__", "__iand__", "__ixor__", "__itruediv__", "__ifloordiv__", "__imod__", "__ipow__", "__ilshift__", "__irshift__", "__imatmul__"}
LIMIT = 6000
UNROLL = 2


class Undecided(Exception):
    pass


class Skip(Exception):
    """this combination of outcomes raises"""


class Mixed(Exception):
    def __init__(self, a, b, node):
        self.a, self.b, self.node = a, b, node


class Key:
    """a value made from one operand only"""
    __slots__ = ("term", "side")

    def __init__(self, term, side):
        self.term, self.side = term, side

    def __repr__(self):
        return "%s@%s" % (self.term, self.side)


class Sym:
    """a value that both operands share"""
    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return self.term


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Loop(Exception):
    def __init__(self, brk):
        self.brk = brk


class Scenario:
    """one consistent set of outcomes, chosen lazily"""
    def __init__(self, script):
        self.script, self.pos, self.log = list(script), 0, []
        self.cmp, self.pred, self.par = {}, {}, {}

    def choose(self, options):
        if len(options) == 1:
            return options[0]
        if self.pos < len(self.script):
            i = self.script[self.pos]
        else:
            i = 0
            self.script.append(0)
        self.log.append(len(options))
        self.pos += 1
        return options[i]

    def next(self):
        s = self.script[:self.pos]
        while s and s[-1] + 1 >= self.log[len(s) - 1]:
            s.pop()
        if not s:
            return None
        s[-1] += 1
        return s

    def outcome(self, term):
        """of comparing term of A with term of B"""
        if term not in self.cmp:
            opts = [0, -1, 1]
            for (t, side, q), v in self.pred.items():
                if t == term and side == "A" and self.pred.get((t, "B", q), v) != v:
                    opts = [-1, 1]
            self.cmp[term] = self.choose(opts)
        return self.cmp[term]

    def truth(self, term, side, q):
        k = (term, side, q)
        if k not in self.pred:
            o = (term, "B" if side == "A" else "A", q)
            if side != "S" and o in self.pred and self.cmp.get(term) == 0:
                self.pred[k] = self.pred[o]
            else:
                self.pred[k] = self.choose([True, False])
        return self.pred[k]


class Interp:
    def __init__(self, prj, sc):
        self.prj, self.sc, self.fuel, self.terms = prj, sc, 4000, set()

    def call(self, f, args, depth=8):
        if depth <= 0:
            raise Undecided("recursion")
        env = {}
        for p, d in f.defaults.items():
            if p not in args:
                env[p] = self.ev(d, {}, f, depth) if isinstance(d, ast.Constant) else Sym(text(d))
        env.update(args)
        for p in f.params:
            if p not in env:
                raise Undecided("argument %s" % p)
        try:
            if f.is_lambda:
                return self.ev(f.node.body, env, f, depth)
            self.block(f.node.body, env, f, depth)
        except Ret as r:
            return r.v
        return None

    def block(self, body, env, f, d):
        for s in body:
            self.stmt(s, env, f, d)

    def stmt(self, s, env, f, d):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided("too long")
        if isinstance(s, ast.Return):
            raise Ret(self.ev(s.value, env, f, d) if s.value is not None else None)
        if isinstance(s, ast.If):
            return self.block(s.body if self.truth(self.ev(s.test, env, f, d)) else s.orelse, env, f, d)
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, f, d)
            for t in s.targets:
                self.assign(t, v, env)
            return
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            return self.assign(s.target, self.ev(s.value, env, f, d), env)
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            env[s.target.id] = self.binop(s.op, env[s.target.id], self.ev(s.value, env, f, d), s)
            return
        if isinstance(s, ast.For):
            for v in self.items(self.ev(s.iter, env, f, d)):
                self.assign(s.target, v, env)
                try:
                    self.block(s.body, env, f, d)
                except Loop as l:
                    if l.brk:
                        return
            return self.block(s.orelse, env, f, d)
        if isinstance(s, ast.While):
            for i in range(6):
                if not self.truth(self.ev(s.test, env, f, d)):
                    return self.block(s.orelse, env, f, d)
                try:
                    self.block(s.body, env, f, d)
                except Loop as l:
                    if l.brk:
                        return
            raise Undecided("loop")
        if isinstance(s, ast.Try):
            self.block(s.body, env, f, d)
            self.block(s.orelse, env, f, d)
            return self.block(s.finalbody, env, f, d)
        if isinstance(s, ast.Break):
            raise Loop(True)
        if isinstance(s, ast.Continue):
            raise Loop(False)
        if isinstance(s, ast.Raise):
            raise Skip()
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert, ast.Global)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return
        if isinstance(s, ast.FunctionDef):
            env[s.name] = s._func
            return
        if isinstance(s, ast.Expr):
            self.ev(s.value, env, f, d)
            return
        raise Undecided(type(s).__name__)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Key):
                v = [Key("%s[%d]" % (v.term, i), v.side) for i in range(len(t.elts))]
            if not isinstance(v, (tuple, list)) or len(v) != len(t.elts):
                raise Undecided("unpacking")
            for x, y in zip(t.elts, v):
                self.assign(x, y, env)
        else:
            raise Undecided("store")

    def items(self, v):
        if isinstance(v, (list, tuple, str, range)):
            if len(v) > 40:
                raise Undecided("long")
            return list(v)
        if isinstance(v, Key):
            return [Key("%s[%d]" % (v.term, i), v.side) for i in range(UNROLL)]
        raise Undecided("iterating")

    # -- values
    def truth(self, v):
        if isinstance(v, (Key, Sym)):
            return self.sc.truth(v.term, v.side if isinstance(v, Key) else "S", "truth")
        if v is NotImplemented:
            raise Undecided("NotImplemented")
        return bool(v)

    def relation(self, a, b, node):
        """-1, 0, 1"""
        if isinstance(a, Key) and isinstance(b, Key):
            if a.side == b.side:
                if a.term == b.term:
                    return 0
                raise Undecided("two parts of one operand")
            if a.term != b.term:
                raise Mixed(a, b, node)
            self.terms.add(a.term)
            o = self.sc.outcome(a.term)
            return o if a.side == "A" else -o
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            for x, y in zip(a, b):
                r = self.relation(x, y, node)
                if r:
                    return r
            return (len(a) > len(b)) - (len(a) < len(b))
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)) and isinstance(a, str) == isinstance(b, str):
            return (a > b) - (a < b)
        raise Undecided("comparison")

    def compare(self, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Key) and isinstance(b, Key):
                same = a.side == b.side and a.term == b.term
                if not same and (a.term != b.term or a.term != "·"):
                    raise Undecided("identity of parts")
                return same == isinstance(op, ast.Is)
            if (a is None) != (b is None):
                k = b if a is None else a
                if isinstance(k, Key) and k.term != "·":
                    return self.sc.truth(k.term, k.side, "None") == isinstance(op, ast.Is)
                return isinstance(op, ast.IsNot)
            if isinstance(a, (bool, type(None))) and isinstance(b, (bool, type(None))):
                return (a is b) == isinstance(op, ast.Is)
            raise Undecided("is")
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (list, tuple)) and not isinstance(a, (Key, Sym)) and not any(isinstance(x, (Key, Sym)) for x in b):
                return (a in b) == isinstance(op, ast.In)
            if isinstance(a, Key) and not isinstance(b, Key) or isinstance(b, Key) and not isinstance(a, Key):
                k, o = (a, b) if isinstance(a, Key) else (b, a)
                return self.sc.truth(k.term, k.side, "in %r" % (o,)) == isinstance(op, ast.In)
            raise Undecided("in")
        eq = isinstance(op, (ast.Eq, ast.NotEq))
        if eq and (a is None or b is None) and not isinstance(a, (Key, Sym)) and not isinstance(b, (Key, Sym)):
            return (a is b) == isinstance(op, ast.Eq)
        if isinstance(a, Key) != isinstance(b, Key) or isinstance(a, Sym) or isinstance(b, Sym):
            k, o = (a, b) if isinstance(a, Key) else (b, a)
            if isinstance(k, (tuple, list)) or isinstance(o, (tuple, list)) or isinstance(o, Key):
                raise Undecided("comparison")
            if isinstance(k, Sym) and not isinstance(o, (int, float, str, type(None), Sym)):
                raise Undecided("comparison")
            name = type(op).__name__
            if not isinstance(a, Key) and isinstance(b, Key) or isinstance(b, Sym) and not isinstance(a, (Key, Sym)):
                name = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(name, name)
                k, o = b, a
            neg = {"NotEq": "Eq", "GtE": "Lt", "LtE": "Gt"}
            r = self.sc.truth(k.term, k.side if isinstance(k, Key) else "S", "%s %r" % (neg.get(name, name), o))
            return (not r) if name in neg else r
        # operators of the project's own classes
        if isinstance(a, Key) and isinstance(b, Key) and a.term == "·" == b.term and a.side != b.side and hasattr(self, "cls"):
            g = self.ops.get({v: k for k, v in OPS.items()}[type(op)])
            if isinstance(g, Func):
                return self.truth(self.call(g, dict(zip(g.params, (a, b))), 5))
            if g is None and isinstance(op, ast.NotEq) and isinstance(self.ops.get("__eq__"), Func):
                g = self.ops["__eq__"]
                return not self.truth(self.call(g, dict(zip(g.params, (a, b))), 5))
            if g is None:
                raise Undecided("operator not defined")
        r = self.relation(a, b, node)
        return {ast.Lt: r < 0, ast.LtE: r <= 0, ast.Gt: r > 0, ast.GtE: r >= 0, ast.Eq: r == 0, ast.NotEq: r != 0}[type(op)]

    def binop(self, op, a, b, node):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b}[type(op)]()
            except KeyError:
                raise Undecided("operator")
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and isinstance(op, ast.Add):
            return tuple(a) + tuple(b)
        return self.mix("(%s %s %s)", [a, type(op).__name__, b])

    def mix(self, fmt, parts):
        sides = {x.side for p in parts for x in self.leaves(p)}
        if len(sides) > 1:
            raise Undecided("mixes the operands")
        t = fmt % tuple(self.show(p) for p in parts)
        return Key(t, sides.pop()) if sides else Sym(t)

    def leaves(self, v):
        if isinstance(v, Key):
            return [v]
        if isinstance(v, (tuple, list)):
            return [y for x in v for y in self.leaves(x)]
        return []

    def show(self, v):
        if isinstance(v, (Key, Sym)):
            return v.term
        if isinstance(v, (tuple, list)):
            return "(" + ",".join(self.show(x) for x in v) + ")"
        return v if isinstance(v, str) else repr(v)

    def ev(self, n, env, f, d):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided("too long")
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            if n.id == "NotImplemented":
                return NotImplemented
            t = self.prj.lookup(n.id, f, f.module)
            if isinstance(t, tuple) and t[0] == "local" and t[1] is not f:
                g = t[1]
                dv = g.defaults.get(n.id)
                if isinstance(dv, ast.Constant) and isinstance(dv.value, int) and not isinstance(dv.value, bool):
                    if n.id not in self.sc.par:
                        self.sc.par[n.id] = self.sc.choose(list(range(1, max(2, dv.value + 1))))
                    return self.sc.par[n.id]
                return Sym(n.id)
            if isinstance(t, tuple) and t[0] == "local":
                raise Undecided("unassigned")
            return Sym(n.id)
        if isinstance(n, (ast.Tuple, ast.List)):
            return tuple(self.ev(x, env, f, d) for x in n.elts)
        if isinstance(n, ast.BoolOp):
            for x in n.values:
                v = self.ev(x, env, f, d)
                if self.truth(v) != isinstance(n.op, ast.And):
                    return v
            return v
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand, env, f, d)
            if isinstance(n.op, ast.Not):
                return not self.truth(v)
            if isinstance(v, (int, float)):
                return -v if isinstance(n.op, ast.USub) else +v if isinstance(n.op, ast.UAdd) else ~v
            return self.mix("%s%s", [type(n.op).__name__, v])
        if isinstance(n, ast.BinOp):
            return self.binop(n.op, self.ev(n.left, env, f, d), self.ev(n.right, env, f, d), n)
        if isinstance(n, ast.IfExp):
            return self.ev(n.body if self.truth(self.ev(n.test, env, f, d)) else n.orelse, env, f, d)
        if isinstance(n, ast.NamedExpr):
            env[n.target.id] = self.ev(n.value, env, f, d)
            return env[n.target.id]
        if isinstance(n, ast.Compare):
            a = self.ev(n.left, env, f, d)
            for op, c in zip(n.ops, n.comparators):
                b = self.ev(c, env, f, d)
                if not self.compare(op, a, b, n):
                    return False
                a = b
            return True
        if isinstance(n, ast.Attribute):
            v = self.ev(n.value, env, f, d)
            if isinstance(v, Key) and v.term == "·" and hasattr(self, "cls"):
                g = self.cls.find(n.attr)
                if g is not None and g.is_property:
                    return self.call(g, {g.params[0]: v}, d - 1)
                if n.attr in self.cls.attrs and not any(n.attr in c.selfattrs for c in self.cls.mro()) and isinstance(self.cls.attrs[n.attr], (ast.Name, ast.Constant)):
                    return Sym("cls." + n.attr)
            return self.mix("%s.%s", [v, n.attr]) if isinstance(v, (Key, Sym)) else self.nope("attribute")
        if isinstance(n, ast.Subscript):
            v = self.ev(n.value, env, f, d)
            if isinstance(n.slice, ast.Slice):
                ix = [self.ev(x, env, f, d) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)]
                if ix == [None, None, None] and isinstance(v, Key):
                    return v
                return self.mix("%s[%s:%s:%s]", [v] + ix)
            i = self.ev(n.slice, env, f, d)
            if isinstance(v, (tuple, list)) and isinstance(i, int):
                try:
                    return v[i]
                except IndexError:
                    raise Skip()
            return self.mix("%s[%s]", [v, i])
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            out = []
            self.comp(n, 0, dict(env), f, d, out)
            return tuple(out)
        if isinstance(n, ast.JoinedStr):
            return self.mix("f%s", [tuple(self.ev(x.value if isinstance(x, ast.FormattedValue) else x, env, f, d) for x in n.values)])
        if isinstance(n, ast.Lambda):
            return n._func
        if isinstance(n, ast.Starred):
            raise Undecided("star")
        if isinstance(n, ast.Call):
            return self.evcall(n, env, f, d)
        raise Undecided(type(n).__name__)

    def nope(self, why):
        raise Undecided(why)

    def comp(self, n, i, env, f, d, out):
        if i == len(n.generators):
            out.append(self.ev(n.elt, env, f, d))
            return
        g = n.generators[i]
        for v in self.items(self.ev(g.iter, env, f, d)):
            e = dict(env)
            self.assign(g.target, v, e)
            if all(self.truth(self.ev(c, e, f, d)) for c in g.ifs):
                self.comp(n, i + 1, e, f, d, out)

    def evcall(self, n, env, f, d):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            raise Undecided("star arguments")
        e = self.prj.ext_name(n.func, f, f.module) or ""
        b = e.split(".")[-1] if e.startswith(("builtins.", "operator.", "itertools.")) else ""
        recv, args = None, []
        if e == "builtins.isinstance":
            return True
        if e == "builtins.hasattr":
            return True
        args = [self.ev(a, env, f, d) for a in n.args]
        if isinstance(n.func, ast.Name) and isinstance(env.get(n.func.id), Func):
            g = env[n.func.id]
            return self.call(g, dict(zip(g.params, args)), d - 1)
        if e.startswith("operator.") and b.strip("_") in ("lt", "le", "gt", "ge", "eq", "ne") and len(args) == 2:
            return self.compare(OPS["__%s__" % b.strip("_")](), args[0], args[1], n)
        if b == "not_":
            return not self.truth(args[0])
        if b in ("min", "max") and len(args) == 2:
            if all(isinstance(x, (int, float)) for x in args):
                return min(args) if b == "min" else max(args)
            if all(isinstance(x, Key) for x in args) and args[0].side != args[1].side and args[0].term == args[1].term:
                r = self.relation(args[0], args[1], n)
                return args[0] if (r <= 0) == (b == "min") else args[1]
        if b == "range" and all(isinstance(x, int) for x in args):
            return range(*args)
        if b == "range" and len(args) == 1 and isinstance(args[0], Key):
            return range(UNROLL)
        if b in ("zip", "zip_longest") and args:
            return list(zip(*[self.items(a) for a in args]))
        if b == "enumerate" and args:
            return list(enumerate(self.items(args[0])))
        if b in ("all", "any") and isinstance(args[0], (tuple, list)):
            for x in args[0]:
                if self.truth(x) != (b == "all"):
                    return b == "any"
            return b == "all"
        if b in ("bool",) and args:
            return self.truth(args[0])
        if b == "abs" and isinstance(args[0], (int, float)):
            return abs(args[0])
        if b in ("tuple", "list") and len(args) == 1 and isinstance(args[0], (tuple, list, range)):
            return tuple(args[0])
        if b in ("len",) and isinstance(args[0], (tuple, list)):
            return len(args[0])
        if b == "type" and len(args) == 1 and isinstance(args[0], Key) and args[0].term == "·":
            return Sym("type")
        if b == "super":
            return Sym("super()")
        # project functions that see both operands are followed
        gs, exact = self.prj.callees(n, f, f.module)
        if isinstance(n.func, ast.Attribute):
            try:
                recv = self.ev(n.func.value, env, f, d)
            except Undecided:
                raise
            if isinstance(recv, Key) and recv.term == "·" and hasattr(self, "cls"):
                g = self.cls.find(n.func.attr)
                if n.func.attr in OPS:
                    return self.compare(OPS[n.func.attr](), recv, args[0], n)
                if g is None and n.func.attr in self.cls.attrs and isinstance(self.cls.attrs[n.func.attr], ast.Lambda):
                    g = self.cls.attrs[n.func.attr]._func
                gs, exact = ([g] if g else []), bool(g)
            elif isinstance(recv, Sym) and n.func.attr in OPS and args:
                if recv.term == "super()":
                    args = [env.get(f.params[0]) if f.params else None] + args
                if len(args) == 2 and isinstance(args[0], Key) and isinstance(args[1], Key):
                    r = self.relation(args[0], args[1], n)
                    return {"__lt__": r < 0, "__le__": r <= 0, "__gt__": r > 0, "__ge__": r >= 0, "__eq__": r == 0, "__ne__": r != 0}[n.func.attr]
        kws = {k.arg: self.ev(k.value, env, f, d) for k in n.keywords}
        sides = {x.side for v in args + list(kws.values()) + [recv] for x in self.leaves(v)}
        if exact and len(gs) == 1 and gs[0].name != "__init__" and (len(sides) > 1):
            g = gs[0]
            params = list(g.params)
            a = {}
            if g.cls is not None and not g.is_static and isinstance(n.func, ast.Attribute) and not isinstance(self.prj.lookup(n.func.value.id, f, f.module) if isinstance(n.func.value, ast.Name) else None, Class):
                a[params.pop(0)] = recv
            a.update(zip(params, args))
            a.update(kws)
            return self.call(g, a, d - 1)
        if len(sides) > 1:
            raise Undecided("call with both operands")
        name = dotted(n.func) if not isinstance(n.func, ast.Attribute) else "." + n.func.attr
        return self.mix("%s%s(%s)", [recv if recv is not None and not isinstance(recv, Sym) else "", name or "?", tuple(args + sorted(("%s=" % k, v) for k, v in kws.items()))])


def operators(prj, c):
    """operator -> Func or 'builtin', as found along the class's bases"""
    res = {}
    for k in c.mro():
        for o in OPS:
            if o in res:
                continue
            if o in k.methods:
                res[o] = k.methods[o]
            elif o in k.attrs:
                v = k.attrs[o]
                if isinstance(v, ast.Lambda):
                    res[o] = v._func
                elif isinstance(v, ast.Name) and v.id in k.methods:
                    res[o] = k.methods[v.id]
        ext = {b.split(".")[-1] for b in k.basenames}
        for o in OPS:
            if o not in res and (ext & ORDERED or ext & EQONLY and o in ("__eq__", "__ne__")):
                res[o] = "builtin"
    return res


def external(c):
    return {b.split(".")[-1] for k in c.mro() for b in k.basenames}


def explore(prj, c, ops, fn):
    """runs fn(interp) in every scenario"""
    script, n = [], 0
    while script is not None:
        sc = Scenario(script)
        i = Interp(prj, sc)
        if c is not None:
            i.cls, i.ops = c, ops
        try:
            fn(i, sc)
        except Skip:
            pass
        n += 1
        if n > LIMIT:
            raise Undecided("too many combinations")
        script = sc.next()
    return n


A, B = Key("·", "A"), Key("·", "B")


def apply(i, ops, o, x, y):
    g = ops[o]
    if g == "builtin":
        r = i.relation(x, y, None)
        return {"__lt__": r < 0, "__le__": r <= 0, "__gt__": r > 0, "__ge__": r >= 0, "__eq__": r == 0, "__ne__": r != 0}[o]
    v = i.call(g, dict(zip(g.params, (x, y))))
    if v is NotImplemented:
        raise Undecided("NotImplemented")
    return i.truth(v)


def laws(prj, rep, c, ops):
    """checks the class's operators; returns terms forced equal by =="""
    where = lambda o: ops[o] if isinstance(ops[o], Func) else next(f for f in ops.values() if isinstance(f, Func))
    decided, forced = [], [None]
    for o in list(ops):
        def one(i, sc):
            apply(i, ops, o, A, B)
        try:
            explore(prj, c, ops, one)
            decided.append(o)
        except Mixed as m:
            rep.finding("mixed", where(o), o, "%s compares %s of one operand with %s of the other" % (o, m.a.term.replace("·", "self"), m.b.term.replace("·", "other")), where(o).node)
        except Undecided as u:
            rep.note("%s.%s left undecided (%s)" % (c.qual, o, u))
    bad = {}

    def fail(rule, o, msg):
        bad.setdefault((rule, o), msg)

    def check(i, sc):
        v = {o: apply(i, ops, o, A, B) for o in decided}
        w = {o: apply(i, ops, o, B, A) for o in decided}
        lt, gt, le, ge, eq, ne = (v.get("__%s__" % x) for x in ("lt", "gt", "le", "ge", "eq", "ne"))
        known = lambda *x: all(y is not None for y in x)
        if known(lt) and lt and w["__lt__"]:
            fail("antisymmetric", "__lt__", "a < b and b < a can both hold")
        if known(gt) and gt and w["__gt__"]:
            fail("antisymmetric", "__gt__", "a > b and b > a can both hold")
        if known(lt, gt) and lt != w["__gt__"]:
            fail("mirror", "__gt__", "a < b and b > a can differ")
        if known(le, ge) and le != w["__ge__"]:
            fail("mirror", "__ge__", "a <= b and b >= a can differ")
        if known(eq) and eq != w["__eq__"]:
            fail("symmetric", "__eq__", "a == b and b == a can differ")
        if known(eq, ne) and eq == ne:
            fail("negation", "__ne__", "a == b and a != b can both be %s" % eq)
        if known(lt, eq) and lt and eq:
            fail("exclusive", "__lt__", "a < b and a == b can both hold")
        if known(gt, eq) and gt and eq:
            fail("exclusive", "__gt__", "a > b and a == b can both hold")
        if known(lt, gt) and lt and gt:
            fail("exclusive", "__gt__", "a < b and a > b can both hold")
        if known(lt, eq, gt) and not (lt or eq or gt):
            fail("trichotomy", "__eq__", "none of a < b, a == b, a > b may hold")
        if known(le, lt, eq) and le != (lt or eq):
            fail("or-equal", "__le__", "a <= b can differ from (a < b or a == b)")
        if known(ge, gt, eq) and ge != (gt or eq):
            fail("or-equal", "__ge__", "a >= b can differ from (a > b or a == b)")
        if known(le, gt) and not known(eq) and le == gt:
            fail("or-equal", "__le__", "a <= b and a > b can both be %s" % le)
        if known(ge, lt) and not known(eq) and ge == lt:
            fail("or-equal", "__ge__", "a >= b and a < b can both be %s" % ge)
        if known(eq) and eq:
            z = {t for t, r in sc.cmp.items() if r == 0}
            forced[0] = z if forced[0] is None else forced[0] & z

    def same(i, sc):
        for o in decided if identity[0] else []:
            r = apply(i, ops, o, A, A)
            if r != (o in ("__eq__", "__le__", "__ge__")):
                fail("reflexive", o, "a value compared with itself gives %s for %s" % (r, o))

    def twins(i, sc):
        """two different objects whose parts are all equal"""
        class All(dict):
            def __contains__(s, k):
                return True

            def __getitem__(s, k):
                return 0

            def get(s, k, d=None):
                return 0
        sc.cmp = All()
        for o in decided:
            if identity[0]:
                continue
            r = apply(i, ops, o, A, B)
            if r != (o in ("__eq__", "__le__", "__ge__")):
                fail("reflexive", o, "operands of the same value give %s for %s" % (r, o))
    identity = [True]

    def ident(i, sc):
        i.terms = set()
        if apply(i, ops, "__eq__", A, B) or i.terms:
            identity[0] = False
    try:
        if "__eq__" in decided:
            explore(prj, c, ops, ident)
        elif "__eq__" not in ops:
            identity[0] = False
        explore(prj, c, ops, check)
        explore(prj, c, ops, same)
        explore(prj, c, ops, twins)
    except Undecided as u:
        rep.note("laws of %s left undecided (%s)" % (c.qual, u))
    except Mixed:
        pass
    for (rule, o), msg in sorted(bad.items()):
        rep.finding(rule, where(o), o, msg, where(o).node)
    rep.count("operators_decided", len(decided))
    return (forced[0] if forced[0] is not None else set()) if "__eq__" in decided else None, identity[0]


# ---- hashes
def norm(t):
    import re
    return re.sub(r"\[\d+\]", "[*]", t)


def det(prj, c, n, env, f, keys, depth=6):
    """is the value a function of the parts that == compares?  True, False or None"""
    if depth <= 0:
        return None
    if isinstance(n, ast.Constant):
        return True
    i = Interp(prj, Scenario([]))
    i.cls, i.ops = c, {}
    try:
        v = i.ev(n, dict(env), f, 1)
        if isinstance(v, Key) and norm(v.term) in keys:
            return True
        if isinstance(v, Sym):
            return True
    except (Undecided, Skip, Mixed, KeyError, TypeError):
        pass

    def every(ns, e=env):
        rs = [det(prj, c, x, e, f, keys, depth) for x in ns]
        return False if False in rs else None if None in rs else True
    if isinstance(n, ast.Name):
        v = env.get(n.id)
        if isinstance(v, Key):
            t = norm(v.term)
            if t != "·" and any(t in k for k in keys):
                return False        # == compares something computed from this
            return None if v.term == "·" else False if v.term.startswith("·.") and v.term.count(".") == 1 and "(" not in v.term else None
        if isinstance(v, (tuple, list)):
            return None
        if n.id not in f.locals:
            return True
        from ..consts import single_assignment
        s = single_assignment(f, n.id)
        return det(prj, c, s, env, f, keys, depth - 1) if s is not None else None
    if isinstance(n, ast.Attribute):
        if isinstance(n.value, ast.Name) and isinstance(env.get(n.value.id), Key) and env[n.value.id].term == "·":
            g = c.find(n.attr)
            if g is not None:
                if g.is_property:
                    return inl(prj, c, g, [n.value], env, f, keys, depth - 1)
                return None
            if any(n.attr in k.selfattrs for k in c.mro()):
                return False
            return True if any(n.attr in k.attrs for k in c.mro()) else None
        return det(prj, c, n.value, env, f, keys, depth)
    if isinstance(n, ast.Subscript):
        r = det(prj, c, n.value, env, f, keys, depth)
        return r if r is not True else det(prj, c, n.slice, env, f, keys, depth)
    if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
        e, parts = dict(env), []
        for g in n.generators:
            try:
                v = i.ev(g.iter, dict(e), f, 1)
            except (Undecided, Skip, Mixed, KeyError):
                return None
            if not isinstance(v, Key):
                return None
            try:
                i.assign(g.target, Key(v.term + "[*]", v.side), e)
            except Undecided:
                return None
            parts += g.ifs
        return every([n.elt] + parts, e)
    if isinstance(n, ast.Call):
        ext = prj.ext_name(n.func, f, f.module) or ""
        if ext in ("builtins.id",) or ext == "builtins.hash" and n.args and isinstance(n.args[0], ast.Name) and isinstance(env.get(n.args[0].id), Key) and env[n.args[0].id].term == "·":
            return False if ext == "builtins.id" else None
        if isinstance(n.func, ast.Attribute):
            if isinstance(n.func.value, ast.Name) and isinstance(env.get(n.func.value.id), Key) and env[n.func.value.id].term == "·":
                g = c.find(n.func.attr)
                return inl(prj, c, g, [n.func.value] + n.args, env, f, keys, depth - 1) if g is not None else None
            if not ext:
                return every([n.func.value] + n.args)
        if ext in ("builtins.tuple", "builtins.list", "builtins.map", "builtins.sorted", "builtins.frozenset") and "·" not in keys and external(c) & (ORDERED | EQONLY) and \
                any(isinstance(a, ast.Name) and isinstance(env.get(a.id), Key) and env[a.id].term == "·" for a in n.args):
            return False if not (ext == "builtins.map" and not (prj.ext_name(n.args[0], f, f.module) or "").startswith("builtins.")) else None
        return every(n.args + [k.value for k in n.keywords]) if n.args else None
    if isinstance(n, ast.Lambda):
        return None
    kids = [x for x in ast.iter_child_nodes(n) if isinstance(x, ast.expr)]
    return every(kids) if kids else None


def inl(prj, c, g, args, env, f, keys, depth):
    rs = [x for x in walk_own(g.node) if isinstance(x, ast.Return)]
    if len(rs) != 1 or rs[0].value is None:
        return None
    e = {}
    i = Interp(prj, Scenario([]))
    i.cls, i.ops = c, {}
    for p, a in zip(g.params, args):
        try:
            e[p] = i.ev(a, dict(env), f, 1)
        except (Undecided, Skip, Mixed, KeyError):
            return None
    return det(prj, c, rs[0].value, e, g, keys, depth)


def hashes(prj, rep, c, ops, keys, identity):
    h = None
    for k in c.mro():
        if "__eq__" in k.methods and "__hash__" not in k.methods and "__hash__" not in k.attrs and h is None:
            return
        if "__hash__" in k.methods:
            h = k.methods["__hash__"]
            break
        if "__hash__" in k.attrs:
            return
    if h is None:
        return
    rep.count("hashes")
    if identity or keys is None or not h.params:
        return
    keys = {norm(t) for t in keys}
    for r in walk_own(h.node):
        if isinstance(r, ast.Return) and r.value is not None and det(prj, c, r.value, {h.params[0]: A}, h, keys) is False:
            rep.finding("hash", h, text(r.value), "values that compare equal can have different hashes: the hash uses more than == compares (%s)"
                        % ", ".join(sorted(t.replace("·", "self") for t in keys)), r)


def inplace(prj, rep, f):
    rep.count("inplace_operators")
    nr = noreturn(prj, f)
    rets = [r for r in walk_own(f.node) if isinstance(r, ast.Return)]
    for r in rets:
        if r.value is None or isinstance(r.value, ast.Constant) and r.value.value is None:
            rep.finding("inplace", f, text(r), "the operator returns nothing, so the variable it is applied to becomes None", r)
        elif isinstance(r.value, ast.Call):
            gs, exact = prj.callees(r.value, f, f.module)
            g = gs[0] if exact and len(gs) == 1 else None
            if g is not None and g.name != "__init__" and not any(isinstance(x, ast.Return) and x.value is not None or isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(g.node)) \
                    and not terminates(g.body):
                rep.finding("inplace", f, text(r), "the operator returns what %s gives, which is nothing" % g.qual, r)
            elif isinstance(r.value.func, ast.Attribute) and g is None and r.value.func.attr in ("append", "extend", "update", "sort", "reverse", "insert", "clear") and f.cls is not None \
                    and r.value.func.attr not in prj.by_method:
                rep.finding("inplace", f, text(r), "the operator returns None", r)
    if not terminates(f.body, nr):
        rep.finding("inplace", f, "end of " + f.name, "the operator can end without returning the value", f.node)


def run(prj, fold, rep):
    rep.rule("operators of one class obey the laws in every combination of outcomes of their elementary comparisons; __hash__ depends only on what == compares; in-place operators return a value")
    for c in prj.classes:
        ops = operators(prj, c)
        own = [o for o in ops if isinstance(ops[o], Func)]
        for k in INPLACE & set(c.methods):
            inplace(prj, rep, c.methods[k])
        if not own or not any(o in k.methods or o in k.attrs for k in [c] for o in OPS):
            continue
        rep.count("classes")
        rep.site("%s: %s" % (c.qual, ", ".join(sorted(own))))
        keys, identity = laws(prj, rep, c, ops)
        hashes(prj, rep, c, ops, keys, identity)
    # comparison functions handed to sorting
    for f in prj.funcs:
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and (prj.ext_name(n.func, f, f.module) or "") == "functools.cmp_to_key" and n.args:
                g = n.args[0]._func if isinstance(n.args[0], ast.Lambda) else prj.lookup(n.args[0].id, f, f.module) if isinstance(n.args[0], ast.Name) else None
                if isinstance(g, Func) and len(g.params) == 2:
                    comparator(prj, rep, g)


def comparator(prj, rep, g):
    rep.count("comparators")
    bad = {}

    def both(i, sc):
        x, y = (i.call(g, dict(zip(g.params, p))) for p in ((A, B), (B, A)))
        if isinstance(x, (int, float)) and isinstance(y, (int, float)) and ((x > 0) - (x < 0)) != -((y > 0) - (y < 0)):
            bad["antisymmetric"] = "exchanging the operands does not reverse the result"
        if isinstance(x, (int, float)) and x and all(v == 0 for v in sc.cmp.values()) and not sc.pred:
            bad["reflexive"] = "a value compared with an equal one gives %r" % x
    try:
        explore(prj, None, {}, both)
    except Mixed as m:
        bad["mixed"] = "compares %s of one operand with %s of the other" % (m.a.term, m.b.term)
    except Undecided as u:
        rep.note("%s left undecided (%s)" % (g.qual, u))
    for r, msg in bad.items():
        rep.finding(r, g, g.name, msg, g.node)


M = "lib/sldr/m.py"


def ex(body, pre="class C:\n"):
    return {M: pre + "".join("    " + l + "\n" for l in body.split("\n"))}


EXAMPLES = [
    ("good eq and hash", ex("def __init__(self, a, b):\n    self.a = a\n    self.b = b\ndef __eq__(self, o):\n    return self.a == o.a and self.b == o.b\ndef __ne__(self, o):\n    return not self == o\ndef __hash__(self):\n    return hash((self.a, self.b))"), False),
    ("hash of one part", ex("def __init__(self, a, b):\n    self.a = a\n    self.b = b\ndef __eq__(self, o):\n    if not isinstance(o, C):\n        return False\n    return (self.a, self.b) == (o.a, o.b)\ndef __hash__(self):\n    return hash(self.a)"), False),
    ("hash of more", ex("def __init__(self, a, b):\n    self.a = a\n    self.b = b\ndef __eq__(self, o):\n    return self.a == o.a\ndef __hash__(self):\n    return hash((self.a, self.b))"), ["hash"]),
    ("crossed", ex("def __init__(self, a, b):\n    self.a = a\n    self.b = b\ndef __eq__(self, o):\n    return self.a == o.b"), ["mixed"]),
    ("le means lt", ex("def __lt__(self, o):\n    return self.a < o.a\ndef __le__(self, o):\n    return self.a < o.a\ndef __eq__(self, o):\n    return self.a == o.a"), True),
    ("all good by cmp", ex("def cmp(self, o):\n    for x, y in zip(self.k, o.k):\n        if x < y:\n            return -1\n        if y < x:\n            return 1\n    return 0\ndef __lt__(self, o):\n    return self.cmp(o) < 0\ndef __gt__(self, o):\n    return self.cmp(o) > 0\ndef __le__(self, o):\n    return self.cmp(o) <= 0\ndef __ge__(self, o):\n    return self.cmp(o) >= 0\ndef __eq__(self, o):\n    return self.cmp(o) == 0\ndef __ne__(self, o):\n    return self.cmp(o) != 0"), False),
    ("never equal", ex("def cmp(self, o):\n    for i in range(3):\n        if self.k[i] < o.k[i]:\n            return -1\n        elif self.k[i] > o.k[i]:\n            return 1\n    return 4\ndef __lt__(self, o):\n    return self.cmp(o) < 0\ndef __eq__(self, o):\n    return self.cmp(o) == 0"), True),
    ("list base keeps its !=", ex("def __eq__(self, o):\n    return key(self) == key(o)", "def key(x):\n    return x[0]\nclass C(list):\n"), True),
    ("dict base, identity", ex("def __eq__(self, o):\n    return self is o\ndef __hash__(self):\n    return id(self)", "class C(dict):\n"), ["negation"]),
    ("identity complete", ex("def __eq__(self, o):\n    return self is o\ndef __ne__(self, o):\n    return self is not o\ndef __hash__(self):\n    return hash(id(self))", "class C(dict):\n"), False),
    ("not the other", ex("def __init__(self, x):\n    self.x = x\ndef __lt__(self, other):\n    return 0 > comp(self.x, other.x) >= -1\ndef __gt__(self, other):\n    return 0 < comp(self.x, other.x) <= 1\ndef __le__(self, other):\n    return not self > other\ndef __ge__(self, other):\n    return not self < other", "def comp(a, b):\n    return (a > b) - (a < b)\nclass C:\n"), False),
    ("swapped sense", ex("def __lt__(self, o):\n    return self.x < o.x\ndef __gt__(self, o):\n    return self.x < o.x"), ["exclusive", "mirror"]),
    ("inplace nothing", ex("def __iadd__(self, o):\n    self.append(o)", "class C(list):\n"), ["inplace"]),
    ("inplace self", ex("def __iadd__(self, o):\n    self.append(o)\n    return self", "class C(list):\n"), False),
    ("key str to repr", ex("def __lt__(self, o):\n    return str(self) < repr(o)"), ["mixed"]),
    ("key repr", ex("def __hash__(self):\n    return hash(str(self))\ndef __lt__(self, o):\n    return repr(self) < repr(o)"), False),
    ("le as lt of repr", ex("def __lt__(self, o):\n    return repr(self) <= repr(o)"), ["antisymmetric", "reflexive"]),
    ("operator module", {M: "import operator\nclass C:\n    def key(self):\n        return (self.a, self.b)\n    def _op(self, o, f):\n        return f(self.key(), o.key())\n    def __eq__(self, o):\n        return self._op(o, operator.eq)\n    def __lt__(self, o):\n        return self._op(o, operator.lt)\n"}, False),
    ("cmp_to_key bad", {M: "import functools\ndef c(a, b):\n    return 1 if a[0] > b[0] else 0\ndef s(x):\n    return sorted(x, key=functools.cmp_to_key(c))\n"}, ["antisymmetric"]),
    ("cmp_to_key good", {M: "import functools\ndef c(a, b):\n    return 1 if a[0] > b[0] else -1 if b[0] > a[0] else 0\ndef s(x):\n    return sorted(x, key=functools.cmp_to_key(c))\n"}, False),
]
