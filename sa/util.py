"""Small syntactic facts shared by the checks."""
import ast
from .core import walk_own, parents, dotted, text, Func, Class, Module
from .consts import UNKNOWN, callers


def is_main_test(t):
    return isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and \
        any(isinstance(x, ast.Name) and x.id == "__name__" for x in [t.left] + t.comparators)


def in_main_guard(n):
    prev = n
    for p in parents(n):
        if isinstance(p, ast.If) and is_main_test(p.test) and prev in p.body:
            return True
        prev = p
    return False


def only_main(prj, f, busy=()):
    """function that only the command line entry of its module uses: named main, or private and only called from there"""
    if f.is_lambda:
        return False
    if f.outer is not None and f.outer is not f.module.main:
        return only_main(prj, f.outer, busy)
    if f is f.module.main or f in busy:
        return False
    if f.cls is None and f.name in ("main", "_main"):
        return True
    cs = callers(prj).get(f, [])
    if not cs or not (f.name.startswith("_") or f.cls is None and in_main_guard(f.node)):
        return in_main_guard(f.node)
    return all(in_main_guard(c) or only_main(prj, g, busy + (f,)) for c, g in cs)


def library_code(prj, n, f):
    """n is library code: not a script, not in the __main__ part of a module"""
    if f.module.is_script or in_main_guard(n):
        return False
    g = f
    while g is not None and g.is_lambda:
        g = g.outer
    return not (g is not None and only_main(prj, g))


TERMINATORS = (ast.Return, ast.Raise, ast.Continue, ast.Break)


def terminates(body, noreturn=None):
    """control never falls out of the end of the statement list"""
    for s in body:
        if isinstance(s, TERMINATORS):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and noreturn is not None and noreturn(s.value):
            return True
        if isinstance(s, ast.If) and s.orelse and terminates(s.body, noreturn) and terminates(s.orelse, noreturn):
            return True
        if isinstance(s, ast.With) and terminates(s.body, noreturn):
            return True
        if isinstance(s, ast.Try):
            if terminates(s.finalbody, noreturn):
                return True
            if terminates(s.body + s.orelse, noreturn) and all(terminates(h.body, noreturn) for h in s.handlers):
                return True
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and \
                not any(isinstance(x, ast.Break) for x in own_loop_nodes(s)):
            return True
    return False


def own_loop_nodes(loop):
    """nodes of a loop body that are not in an inner loop or function (for finding its breaks); inner loops' else parts belong to it"""
    todo = list(loop.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.For, ast.While, ast.AsyncFor)):
            todo.extend(n.orelse)
            continue
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def always_raises(body, prj=None, f=None, depth=3):
    """every path through the statements ends in a raise"""
    def nr(call):
        if prj is None or depth <= 0:
            return False
        gs, exact = prj.callees(call, f, f.module)
        return exact and bool(gs) and all(always_raises(g.body, prj, g, depth - 1) for g in gs)
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and nr(s.value):
            return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and nr(s.value):
                return True
            return False
        if isinstance(s, ast.If):
            if s.orelse and always_raises(s.body, prj, f, depth) and always_raises(s.orelse, prj, f, depth):
                return True
            if any(isinstance(x, (ast.Return, ast.Continue, ast.Break)) for x in ast.walk(s)):
                return False
        elif isinstance(s, ast.With):
            if always_raises(s.body, prj, f, depth):
                return True
        elif isinstance(s, ast.Try):
            if always_raises(s.finalbody, prj, f, depth):
                return True
            if always_raises(s.body, prj, f, depth) and all(always_raises(h.body, prj, f, depth) for h in s.handlers):
                return True
        if any(isinstance(x, ast.Return) for x in walk_own(s)):
            return False
    return False


class DefaultReach:
    """Which nodes of a function can run when every parameter with a constant false default is left at it, and attributes
    that hold such a switch are off."""
    def __init__(self, prj, fold):
        self.prj, self.fold = prj, fold
        self.dead = {}
        self.switch = {}

    def off_attrs(self, c):
        """attributes of a class that are a switch: every assignment is a false constant or a parameter with a false default"""
        if c not in self.switch:
            res = {}
            for k in c.mro():
                for a, v in k.attrs.items():
                    if isinstance(v, ast.Constant) and not v.value:
                        res[a] = v.value
                for a, sites in k.selfattrs.items():
                    ok, val = True, None
                    for f, n in sites:
                        p = n._parent
                        if not isinstance(p, ast.Assign):
                            ok = False
                            break
                        v = p.value
                        if isinstance(v, ast.Constant) and not v.value:
                            val = v.value
                        elif isinstance(v, ast.Name) and v.id in f.defaults and isinstance(f.defaults[v.id], ast.Constant) and not f.defaults[v.id].value:
                            val = f.defaults[v.id].value
                        else:
                            ok = False
                    if ok and sites:
                        res[a] = val
                    else:
                        res.pop(a, None)
            self.switch[c] = res
        return self.switch[c]

    def env(self, f):
        e = {}
        while f is not None and f is not f.module.main:
            for p, d in f.defaults.items():
                if isinstance(d, ast.Constant) and not d.value:
                    if not any(isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Store) for x in walk_own(f.node)):
                        e.setdefault(p, d.value)
            f = f.outer
        return e

    def test(self, t, env, f):
        """True, False or None"""
        if isinstance(t, ast.BoolOp):
            rs = [self.test(x, env, f) for x in t.values]
            if isinstance(t.op, ast.And):
                return False if False in rs else True if all(r is True for r in rs) else None
            return True if True in rs else False if all(r is False for r in rs) else None
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.test(t.operand, env, f)
            return None if r is None else not r
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            c = self.prj.self_class(t.value.id, f)
            if c is not None and t.attr in self.off_attrs(c):
                return bool(self.off_attrs(c)[t.attr])
        names = [x for x in ast.walk(t) if isinstance(x, ast.Name)]
        if names and not any(x.id in env for x in names):
            return None
        v = self.fold.fold(t, env, f.module, f)
        return None if v is UNKNOWN else bool(v)

    def deadset(self, f):
        if f in self.dead:
            return self.dead[f]
        res = set()
        env = self.env(f)

        def kill(nodes):
            for n in nodes:
                for x in ast.walk(n):
                    res.add(x)

        def block(body):
            dead = False
            for s in body:
                if dead:
                    kill([s])
                    continue
                if isinstance(s, ast.If):
                    t = self.test(s.test, env, f)
                    if t is False:
                        kill(s.body)
                        block(s.orelse)
                        dead = terminates(s.orelse)
                    elif t is True:
                        kill(s.orelse)
                        block(s.body)
                        dead = terminates(s.body)
                    else:
                        block(s.body)
                        block(s.orelse)
                        continue
                elif isinstance(s, (ast.For, ast.While, ast.With)):
                    if isinstance(s, ast.While) and self.test(s.test, env, f) is False:
                        kill(s.body)
                    else:
                        block(s.body)
                    block(getattr(s, "orelse", []))
                elif isinstance(s, ast.Try):
                    for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
                        block(b)
                elif isinstance(s, TERMINATORS):
                    dead = True
            return dead
        if not f.is_lambda and f is not f.module.main:
            block(f.node.body)
        for n in walk_own(f.node):
            if isinstance(n, ast.IfExp):
                t = self.test(n.test, env, f)
                if t is False:
                    kill([n.body])
                elif t is True:
                    kill([n.orelse])
            elif isinstance(n, ast.BoolOp):
                for i, x in enumerate(n.values[:-1]):
                    t = self.test(x, env, f)
                    if t is (False if isinstance(n.op, ast.And) else True):
                        kill(n.values[i + 1:])
        self.dead[f] = res
        return res

    def off(self, n, f, busy=()):
        """node does not run unless the caller asked for it"""
        g = f
        while g is not None and g.is_lambda:
            if n in self.deadset(g):
                return True
            n, g = g.node, g.outer
        if g is None:
            return False
        if n in self.deadset(g):
            return True
        if g in busy or g is g.module.main:
            return False
        if g.name.startswith("_") and not g.name.startswith("__") or (g.outer is not None and g.outer is not g.module.main):
            cs = callers(self.prj).get(g, [])
            if cs and all(self.off(c, cf, busy + (g,)) for c, cf in cs):
                return True
        return False
