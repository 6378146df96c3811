"""Structured walk over a function that knows, at every expression, which conditions must hold there."""
import ast
from .core import walk_own, targets
from .util import terminates


def names_in(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def attrs_in(n):
    return {x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute)}


class Fact:
    __slots__ = ("node", "pol", "key", "names", "attrs", "subs")

    def __init__(self, node, pol):
        self.node, self.pol = node, pol
        self.key = (ast.dump(node), pol)
        self.names = names_in(node)
        self.attrs = attrs_in(node)
        self.subs = {x.value.id for x in ast.walk(node) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name)}

    def __repr__(self):
        return ("" if self.pol else "not ") + ast.unparse(self.node)


def atoms(test, pol):
    """conditions that hold when test has the given truth value"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return atoms(test.operand, not pol)
    if isinstance(test, ast.NamedExpr):
        return [Fact(test, pol)] + [Fact(test.target, pol)]
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And if pol else ast.Or):
        return [a for v in test.values for a in atoms(v, pol)]
    if isinstance(test, ast.Compare) and len(test.ops) > 1 and pol:
        res, l = [], test.left
        for o, c in zip(test.ops, test.comparators):
            res.append(Fact(ast.Compare(left=l, ops=[o], comparators=[c]), True))
            l = c
        return res
    return [Fact(test, pol)]


def assigned(nodes):
    """(names, attribute names, subscripted names) stored anywhere in the statements"""
    ns, at, sub = set(), set(), set()
    for s in nodes:
        for n in [s] + list(walk_own(s)):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                ns.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                at.add(n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                sub.add(n.value.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                ns.update((a.asname or a.name).split(".")[0] for a in n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                ns.add(n.name)
    return ns, at, sub


def kill(facts, names=(), attrs=(), subs=()):
    if not names and not attrs and not subs:
        return facts
    return [f for f in facts if not (f.names & set(names)) and not (f.attrs & set(attrs)) and not (f.subs & set(subs))]


def meet(a, b):
    ks = {f.key for f in b}
    return [f for f in a if f.key in ks]


class FactWalker:
    """subclass and override expr(node, facts) and stmt(node, facts)"""
    noreturn = None

    def __init__(self, func, entry=()):
        self.func = func
        self.entry = list(entry)
        self.order = []

    def expr(self, n, facts):
        pass

    def stmt(self, s, facts):
        pass

    def run(self):
        if self.func.is_lambda:
            self.visit(self.func.node.body, self.entry)
        else:
            self.block(self.func.node.body, self.entry)
        return self

    # ---- expressions -------------------------------------------------------------------------------------------
    def visit(self, n, facts):
        if n is None:
            return
        if isinstance(n, ast.BoolOp):
            fs = list(facts)
            for v in n.values:
                self.visit(v, fs)
                fs = fs + atoms(v, isinstance(n.op, ast.And))
            self.expr(n, facts)
            return
        if isinstance(n, ast.IfExp):
            self.visit(n.test, facts)
            self.visit(n.body, facts + atoms(n.test, True))
            self.visit(n.orelse, facts + atoms(n.test, False))
            self.expr(n, facts)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            fs = list(facts)
            for g in n.generators:
                self.visit(g.iter, fs)
                fs = kill(fs, set(targets(g.target)))
                for c in g.ifs:
                    self.visit(c, fs)
                    fs = fs + atoms(c, True)
            if isinstance(n, ast.DictComp):
                self.visit(n.key, fs)
                self.visit(n.value, fs)
            else:
                self.visit(n.elt, fs)
            self.expr(n, facts)
            return
        if isinstance(n, ast.Lambda):
            fs = kill(facts, {a.arg for a in n.args.args})
            self.visit(n.body, fs)
            self.expr(n, facts)
            return
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.visit(c, facts)
            elif isinstance(c, ast.keyword):
                self.visit(c.value, facts)
            elif isinstance(c, (ast.Slice,)):
                self.visit(c, facts)
            elif isinstance(c, ast.FormattedValue):
                self.visit(c.value, facts)
        if isinstance(n, ast.expr):
            self.expr(n, facts)

    # ---- statements --------------------------------------------------------------------------------------------
    def block(self, body, facts):
        """returns facts at the end, or None when the end is not reached"""
        for s in body:
            if facts is None:
                facts = []       # dead code: still look at it
            facts = self.one(s, facts)
            if facts is None:
                return None
        return facts

    def one(self, s, facts):
        self.stmt(s, facts)
        if isinstance(s, ast.If):
            self.visit(s.test, facts)
            t, e = atoms(s.test, True), atoms(s.test, False)
            walrus = {x.target.id for x in ast.walk(s.test) if isinstance(x, ast.NamedExpr)}
            facts = kill(facts, walrus)
            a = self.block(s.body, facts + t)
            b = self.block(s.orelse, facts + e)
            if a is None:
                return b
            if b is None:
                return a
            return meet(a, b)
        if isinstance(s, (ast.While,)):
            nm = assigned([s])
            base = kill(facts, *nm)
            self.visit(s.test, base)
            self.block(s.body, base + atoms(s.test, True))
            out = base + atoms(s.test, False) if not has_break(s) else base
            if isinstance(s.test, ast.Constant) and s.test.value and not has_break(s):
                return None
            if s.orelse:
                o = self.block(s.orelse, base + atoms(s.test, False))
                if not has_break(s):
                    return o
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.visit(s.iter, facts)
            base = kill(facts, *assigned([s]))
            self.block(s.body, base)
            if s.orelse:
                o = self.block(s.orelse, base)
                if not has_break(s):
                    return o
            return base
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            a = self.block(s.body, facts)
            base = kill(facts, *assigned(s.body))
            if a is not None and s.orelse:
                a = self.block(s.orelse, a)
            elif s.orelse:
                self.block(s.orelse, base)
            ends = [a]
            for h in s.handlers:
                ends.append(self.block(h.body, kill(base, {h.name} if h.name else ())))
            ends = [x for x in ends if x is not None]
            out = None
            for x in ends:
                out = x if out is None else meet(out, x)
            if s.finalbody:
                fb = kill(facts, *assigned(s.body + s.orelse + [x for h in s.handlers for x in h.body]))
                r = self.block(s.finalbody, out if out is not None and not s.handlers and False else fb)
                if r is None:
                    return None
                if out is not None:
                    out = kill(out, *assigned(s.finalbody))
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.visit(i.context_expr, facts)
                if i.optional_vars is not None:
                    facts = kill(facts, set(targets(i.optional_vars)))
            return self.block(s.body, facts)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return kill(facts, {s.name})
        if type(s).__name__ == "Match":
            self.visit(s.subject, facts)
            ends = []
            for c in s.cases:
                if c.guard is not None:
                    self.visit(c.guard, facts)
                ends.append(self.block(c.body, kill(facts, *assigned([s])) + (atoms(c.guard, True) if c.guard is not None else [])))
            out = kill(facts, *assigned([s]))
            return out
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.visit(c, facts)
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return None
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and self.noreturn is not None and self.noreturn(s.value):
            return None
        if isinstance(s, ast.Assert):
            return facts + atoms(s.test, True)
        return kill(facts, *assigned([s]))


def has_break(loop):
    from .util import own_loop_nodes
    return any(isinstance(x, ast.Break) for x in own_loop_nodes(loop))
