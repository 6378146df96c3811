"""Reaching definitions of local names: which assignments a use of a name may see."""
import ast
from .core import walk_own, targets

UNDEF = ("undef", None, None)
PARAM = ("param", None, None)
OTHER = ("other", None, None)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    r = dict(a)
    for k, v in b.items():
        o = r.get(k)
        r[k] = v if o is None else o if o is v else o | v
    return r


class Reach:
    """self.use: Name node (load) -> frozenset of definitions (kind, node, extra):
       ('expr', value node, None), ('iter', iterable node, path), ('unpack', value node, path), ('param', name), ('undef'), ('other')"""

    def __init__(self, func, noreturn=None):
        self.func = func
        self.noreturn = noreturn
        self.use, self.del_, self.at_end = {}, {}, None
        self.loops, self.trys = [], []
        self.changed = False
        env = {}
        names = func.module.names if isinstance(func.node, ast.Module) else func.locals
        for n in names:
            env[n] = frozenset([UNDEF])
        for p in func.allparams:
            env[p] = frozenset([("param", p, None)])
        if func.is_lambda:
            self.expr(func.node.body, env)
            self.at_end = env
        else:
            self.at_end = self.block(func.node.body, env)

    # -- helpers
    def note(self, node, v):
        o = self.use.get(node)
        if o is None:
            self.use[node] = v
        elif not v <= o:
            self.use[node] = o | v

    def bind(self, env, t, kind, node, path=()):
        if isinstance(t, ast.Name):
            env = dict(env)
            env[t.id] = frozenset([(kind, node, path or None)])
            self.caught(env)
            return env
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                k = "unpack" if kind in ("expr", "unpack") else kind
                p = path + ((i, len(t.elts)) if not any(isinstance(e, ast.Starred) for e in t.elts) else (None, None),)
                env = self.bind(env, x.value if isinstance(x, ast.Starred) else x, "other" if isinstance(x, ast.Starred) else k, node, p)
            return env
        self.expr(t, env)
        return env

    def caught(self, env):
        for t in self.trys:
            t[0] = join(t[0], env)

    # -- expressions
    def expr(self, n, env):
        """visits an expression; returns the environment after it (walrus)"""
        if n is None:
            return env
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in env:
                self.note(n, env[n.id])
            return env
        if isinstance(n, ast.NamedExpr):
            env = self.expr(n.value, env)
            return self.bind(env, n.target, "expr", n.value)
        if isinstance(n, ast.Lambda):
            e = dict(env)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.expr(d, env)
            a = n.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                e[x.arg] = frozenset([("param", x.arg, None)])
            self.expr(n.body, e)
            return env
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = env
            for g in n.generators:
                e = self.expr(g.iter, e)
                e = self.bind(e, g.target, "iter", g.iter)
                for c in g.ifs:
                    e = self.expr(c, e)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.expr(x, e)
            return env
        if isinstance(n, (ast.BoolOp, ast.IfExp)):
            vs = n.values if isinstance(n, ast.BoolOp) else [n.test, n.body, n.orelse]
            e = env = self.expr(vs[0], env)
            for v in vs[1:]:
                if isinstance(n, ast.BoolOp):
                    e = self.expr(v, e)
                    env = join(env, e)
                else:
                    env = join(env, self.expr(v, e))
            return env
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice, ast.FormattedValue)):
                env = self.expr(c, env)
        return env

    # -- statements
    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Assign):
            env = self.expr(s.value, env)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts) \
                        and not any(isinstance(x, ast.Starred) for x in t.elts + s.value.elts):
                    for a, b in zip(t.elts, s.value.elts):
                        env = self.bind(env, a, "expr", b)
                else:
                    env = self.bind(env, t, "expr", s.value)
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return env
            env = self.expr(s.value, env)
            return self.bind(env, s.target, "expr", s.value)
        if isinstance(s, ast.AugAssign):
            env = self.expr(s.value, env)
            if isinstance(s.target, ast.Name):
                if s.target.id in env:
                    self.note(s.target, env[s.target.id])
                env = dict(env)
                env[s.target.id] = frozenset([("aug", s, None)])
                self.caught(env)
                return env
            return self.expr(s.target, env)
        if isinstance(s, ast.If):
            env = self.expr(s.test, env)
            c = s.test
            if isinstance(c, ast.Constant):
                return self.block(s.body if c.value else s.orelse, env)
            a = self.block(s.body, env)
            b = self.block(s.orelse, env)
            return join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            env = self.expr(s.iter, env)
            return self.loop(s, env, lambda e: self.bind(e, s.target, "iter", s.iter), False)
        if isinstance(s, ast.While):
            forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
            return self.loop(s, env, lambda e: self.expr(s.test, e), forever, isw=True)
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            slot = [env]
            self.trys.append(slot)
            n = len(self.loops)
            a = self.block(s.body, env)
            self.trys.pop()
            h0 = slot[0]
            self.caught(h0)
            fslot = [join(h0, a)]
            self.trys.append(fslot)
            if a is not None and s.orelse:
                a = self.block(s.orelse, a)
            out = a
            for h in s.handlers:
                if h.type is not None:
                    self.expr(h.type, h0)
                e = h0
                if h.name:
                    e = self.bind(e, ast.Name(id=h.name, ctx=ast.Store()), "other", h)
                e = self.block(h.body, e)
                if e is not None and h.name:
                    e = dict(e)
                    e[h.name] = frozenset([UNDEF])
                out = join(out, e)
            self.trys.pop()
            if s.finalbody:
                r = self.block(s.finalbody, join(fslot[0], out))
                if r is None:
                    return None
                if out is not None:
                    save, self.use = self.use, {}
                    out = self.block(s.finalbody, out)
                    self.use = save
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                env = self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    env = self.bind(env, i.optional_vars, "with", i.context_expr)
            swallow = any(isinstance(i.context_expr, ast.Call) and getattr(i.context_expr.func, "attr", getattr(i.context_expr.func, "id", "")) == "suppress" for i in s.items)
            if swallow:
                slot = [env]
                self.trys.append(slot)
                a = self.block(s.body, env)
                self.trys.pop()
                self.caught(slot[0])
                return join(a, slot[0])
            return self.block(s.body, env)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.expr(d, env)
            env = dict(env)
            env[s.name] = frozenset([("def", s, None)])
            self.caught(env)
            return env
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            env = dict(env)
            for a in s.names:
                env[(a.asname or a.name).split(".")[0]] = frozenset([("import", s, None)])
            self.caught(env)
            return env
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id in env:
                        self.del_[t] = env[t.id]
                    env = dict(env)
                    env[t.id] = frozenset([UNDEF])
                else:
                    env = self.expr(t, env)
            return env
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                env = self.expr(c, env)
            return None
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1][0] = join(self.loops[-1][0], env)
            return None
        if isinstance(s, ast.Continue):
            if self.loops:
                self.loops[-1][1] = join(self.loops[-1][1], env)
            return None
        if type(s).__name__ == "Match":
            env = self.expr(s.subject, env)
            out = env
            for c in s.cases:
                e = env
                for x in ast.walk(c.pattern):
                    nm = getattr(x, "name", None) or getattr(x, "rest", None)
                    if isinstance(nm, str):
                        e = dict(e)
                        e[nm] = frozenset([OTHER])
                e = self.expr(c.guard, e)
                out = join(out, self.block(c.body, e))
            return out
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                env = self.expr(c, env)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and self.noreturn is not None and self.noreturn(s.value):
            return None
        return env

    def loop(self, s, env, head, forever, isw=False):
        frame = [None, None]
        out = None
        cur = env
        for _ in range(4):
            frame[0] = frame[1] = None
            self.loops.append(frame)
            h = head(cur)
            exitenv = h if isw else cur
            e = self.block(s.body, h)
            self.loops.pop()
            nxt = join(join(cur, e), frame[1])
            if nxt == cur:
                break
            cur = nxt
        out = None if forever else exitenv
        if not isw and out is not None and not forever:
            out = cur
        if out is not None and s.orelse:
            out = self.block(s.orelse, out)
        return join(out, frame[0])


def reach(func, noreturn=None):
    r = getattr(func.node, "_reach", None)
    if r is None:
        r = func.node._reach = Reach(func, noreturn)
    return r
