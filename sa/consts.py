"""Folds constant expressions: literals, module tables built from literals, string methods, simple comprehensions.
Only operations of a fixed list on literal values are computed; anything else is UNKNOWN."""
import ast, re, os.path
from .core import targets, walk_own, Module, Class, Func, bound_names, parents


class _Unknown:
    def __repr__(self):
        return "UNKNOWN"

    def __bool__(self):
        return False


UNKNOWN = _Unknown()


class Regex:
    """re.compile of constants"""
    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags


class Unfoldable(Exception):
    pass


STR_METHODS = {"join", "format", "split", "rsplit", "replace", "upper", "lower", "strip", "lstrip", "rstrip", "title", "startswith",
               "endswith", "splitlines", "count", "find", "zfill", "encode", "capitalize", "casefold", "partition", "rpartition"}
MAP_METHODS = {"keys", "values", "items", "get", "copy", "union", "intersection", "difference", "index", "count"}
SIMPLE = {"dict": dict, "list": list, "set": set, "tuple": tuple, "frozenset": frozenset, "sorted": sorted, "enumerate": enumerate,
          "zip": zip, "range": range, "len": len, "ord": ord, "chr": chr, "str": str, "int": int, "min": min, "max": max, "sum": sum,
          "reversed": reversed, "bool": bool, "abs": abs, "any": any, "all": all, "hex": hex, "repr": repr, "map": None, "filter": None}
LIMIT = 20000


class Folder:
    def __init__(self, prj):
        self.prj = prj
        self._env = {}
        self._busy = set()

    # ---- environments ------------------------------------------------------------------------------------------
    def module_env(self, m):
        if m.name in self._env:
            return self._env[m.name]
        if m.name in self._busy:
            return {}
        self._busy.add(m.name)
        env = {}
        self._env[m.name] = env
        try:
            self._block(m.tree.body, env, m)
        finally:
            self._busy.discard(m.name)
        # names that functions rebind or tables that functions change are not constant
        for f in self.prj.funcs:
            if f.module is m:
                for g in f.globals_:
                    env[g] = UNKNOWN
        return env

    def _block(self, body, env, m):
        for s in body:
            self._stmt(s, env, m)

    def _stmt(self, s, env, m):
        if isinstance(s, ast.Assign):
            v = self.fold(s.value, env, m)
            for t in s.targets:
                self._assign(t, v, env, m)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self._assign(s.target, self.fold(s.value, env, m), env, m)
        elif isinstance(s, ast.AugAssign):
            v = UNKNOWN
            if isinstance(s.target, ast.Name):
                a, b = env.get(s.target.id, UNKNOWN), self.fold(s.value, env, m)
                if a is not UNKNOWN and b is not UNKNOWN:
                    try:
                        v = self._binop(s.op, a, b)
                    except Exception:
                        v = UNKNOWN
            self._assign(s.target, v, env, m)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and isinstance(s.value.func.value, ast.Name):
            n, a = s.value.func.value.id, s.value.func.attr
            if n in env and env[n] is not UNKNOWN and a in ("update", "append", "extend", "add", "setdefault", "remove", "discard", "insert", "pop", "clear"):
                args = [self.fold(x, env, m) for x in s.value.args]
                if any(x is UNKNOWN for x in args) or any(k.arg is None for k in s.value.keywords):
                    env[n] = UNKNOWN
                else:
                    kw = {k.arg: self.fold(k.value, env, m) for k in s.value.keywords}
                    try:
                        getattr(env[n], a)(*args, **kw)
                    except Exception:
                        env[n] = UNKNOWN
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in env:
                    k = self.fold(t.slice, env, m)
                    try:
                        del env[t.value.id][k]
                    except Exception:
                        env[t.value.id] = UNKNOWN
                else:
                    for x in targets(t):
                        env.pop(x, None)
        elif isinstance(s, ast.For):
            it = self.fold(s.iter, env, m)
            if it is UNKNOWN or s.orelse:
                self._havoc(s, env)
            else:
                try:
                    items = list(it)
                except TypeError:
                    items = None
                if items is None or len(items) > 500:
                    self._havoc(s, env)
                else:
                    for i in items:
                        self._assign(s.target, i, env, m)
                        if any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for x in ast.walk(s)):
                            self._havoc(s, env)
                            break
                        self._block(s.body, env, m)
        elif isinstance(s, ast.If):
            if isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) and s.test.left.id == "__name__":
                return
            t = self.fold(s.test, env, m)
            if t is UNKNOWN:
                self._havoc(s, env)
            else:
                self._block(s.body if t else s.orelse, env, m)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            env.pop(s.name, None)
        elif isinstance(s, (ast.Try, ast.While, ast.With)):
            self._havoc(s, env)

    def _havoc(self, s, env):
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                env[x.id] = UNKNOWN
            elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                env[x.value.id] = UNKNOWN
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in env:
                env[x.func.value.id] = UNKNOWN

    def _assign(self, t, v, env, m):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = None
            if v is not UNKNOWN:
                try:
                    vs = list(v)
                except TypeError:
                    vs = None
            if vs is None or len(vs) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
                for x in targets(t):
                    env[x] = UNKNOWN
            else:
                for x, y in zip(t.elts, vs):
                    self._assign(x, y, env, m)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            n = t.value.id
            if env.get(n, UNKNOWN) is UNKNOWN:
                return
            k = self.fold(t.slice, env, m)
            if k is UNKNOWN or v is UNKNOWN:
                env[n] = UNKNOWN
            else:
                try:
                    env[n][k] = v
                except Exception:
                    env[n] = UNKNOWN

    # ---- expressions -------------------------------------------------------------------------------------------
    def fold(self, n, env=None, m=None, func=None):
        """value of an expression or UNKNOWN.  env: local bindings (dict); m: module; func: function for local single assignments"""
        try:
            return self._f(n, env if env is not None else {}, m, func, 0)
        except Unfoldable:
            return UNKNOWN
        except (RecursionError, MemoryError):
            return UNKNOWN
        except Exception:
            return UNKNOWN

    def value(self, n, func):
        """value of an expression inside a function, looking through locals assigned once, module tables and class data"""
        return self.fold(n, {}, func.module, func)

    def _f(self, n, env, m, func, d):
        if d > 60:
            raise Unfoldable
        r = self._g(n, env, m, func, d + 1)
        if r is UNKNOWN:
            raise Unfoldable
        if isinstance(r, (str, bytes, list, tuple, dict, set)) and len(r) > LIMIT:
            raise Unfoldable
        return r

    def _g(self, n, env, m, func, d):
        F = lambda x: self._f(x, env, m, func, d)
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            return self._name(n, env, m, func, d)
        if isinstance(n, ast.Attribute):
            return self._attr(n, env, m, func, d)
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            res = []
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    res.extend(F(x.value))
                else:
                    res.append(F(x))
            return tuple(res) if isinstance(n, ast.Tuple) else res if isinstance(n, ast.List) else set(res)
        if isinstance(n, ast.Dict):
            res = {}
            for k, v in zip(n.keys, n.values):
                if k is None:
                    res.update(F(v))
                else:
                    res[F(k)] = F(v)
            return res
        if isinstance(n, ast.BinOp):
            return self._binop(n.op, F(n.left), F(n.right))
        if isinstance(n, ast.UnaryOp):
            v = F(n.operand)
            return {ast.Not: lambda: not v, ast.USub: lambda: -v, ast.UAdd: lambda: +v, ast.Invert: lambda: ~v}[type(n.op)]()
        if isinstance(n, ast.BoolOp):
            v = None
            for x in n.values:
                v = F(x)
                if isinstance(n.op, ast.And) and not v or isinstance(n.op, ast.Or) and v:
                    return v
            return v
        if isinstance(n, ast.Compare):
            l = F(n.left)
            for o, c in zip(n.ops, n.comparators):
                r = F(c)
                k = type(o)
                ok = {ast.Eq: lambda: l == r, ast.NotEq: lambda: l != r, ast.Lt: lambda: l < r, ast.LtE: lambda: l <= r, ast.Gt: lambda: l > r,
                      ast.GtE: lambda: l >= r, ast.In: lambda: l in r, ast.NotIn: lambda: l not in r, ast.Is: lambda: l is r, ast.IsNot: lambda: l is not r}[k]()
                if not ok:
                    return False
                l = r
            return True
        if isinstance(n, ast.IfExp):
            return F(n.body) if F(n.test) else F(n.orelse)
        if isinstance(n, ast.JoinedStr):
            res = ""
            for x in n.values:
                if isinstance(x, ast.Constant):
                    res += x.value
                else:
                    v = F(x.value)
                    v = {-1: lambda y: y, 115: str, 114: repr, 97: ascii}[x.conversion](v)
                    res += format(v, F(x.format_spec) if x.format_spec is not None else "")
            return res
        if isinstance(n, ast.Subscript):
            v = F(n.value)
            if isinstance(n.slice, ast.Slice):
                s = n.slice
                return v[slice(*(F(x) if x is not None else None for x in (s.lower, s.upper, s.step)))]
            return v[F(n.slice)]
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out = []
            self._comp(n, 0, dict(env), m, func, d, out)
            if isinstance(n, ast.DictComp):
                return dict(out)
            return set(out) if isinstance(n, ast.SetComp) else out
        if isinstance(n, ast.Call):
            return self._call(n, env, m, func, d)
        if isinstance(n, ast.NamedExpr):
            return F(n.value)
        return UNKNOWN

    def _comp(self, n, i, env, m, func, d, out):
        if i == len(n.generators):
            if isinstance(n, ast.DictComp):
                out.append((self._f(n.key, env, m, func, d), self._f(n.value, env, m, func, d)))
            else:
                out.append(self._f(n.elt, env, m, func, d))
            if len(out) > LIMIT:
                raise Unfoldable
            return
        g = n.generators[i]
        it = list(self._f(g.iter, env, m, func, d))
        for x in it:
            self._assign(g.target, x, env, m)
            if all(self._f(c, env, m, func, d) for c in g.ifs):
                self._comp(n, i + 1, env, m, func, d, out)

    def _name(self, n, env, m, func, d):
        if n.id in env:
            return env[n.id]
        if n.id in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[n.id]
        if m is None:
            return UNKNOWN
        t = self.prj.lookup(n.id, func, m)
        if isinstance(t, tuple) and t[0] == "local":
            f = t[1]
            if n.id in f.allparams:
                return UNKNOWN
            a = single_assignment(f, n.id)
            if a is None:
                return UNKNOWN
            return self._f(a, {}, f.module, f, d)
        if isinstance(t, tuple) and t[0] == "global":
            return self.module_env(t[1]).get(n.id, UNKNOWN)
        if t is None and n.id in self.module_env(m):
            return self.module_env(m)[n.id]
        if isinstance(t, tuple) and t[0] == "ext" and n.id in m.imports:
            mod, _, a = m.imports[n.id].rpartition(".")
            if mod in self.prj.modules:
                return self.module_env(self.prj.modules[mod]).get(a, UNKNOWN)
            return self._ext(t[1])
        return UNKNOWN

    EXT = {"re." + k: getattr(re, k) for k in ("I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "X", "VERBOSE", "A", "ASCII", "U", "UNICODE", "L", "LOCALE")}
    EXT.update({"os.sep": "/", "os.path.sep": "/", "string.ascii_letters": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", "string.digits": "0123456789",
                "string.hexdigits": "0123456789abcdefABCDEF", "os.linesep": "\n"})

    def _ext(self, name):
        return self.EXT.get(name, UNKNOWN)

    def _attr(self, n, env, m, func, d):
        if m is None:
            return UNKNOWN
        e = self.prj.ext_name(n, func, m)
        if e is not None and e in self.EXT:
            return self.EXT[e]
        if isinstance(n.value, ast.Name) and n.value.id not in env:
            t = self.prj.lookup(n.value.id, func, m)
            if isinstance(t, Module):
                return self.module_env(t).get(n.attr, UNKNOWN)
            c = t if isinstance(t, Class) else self.prj.self_class(n.value.id, func) if func is not None else None
            if c is not None:
                for k in c.mro():
                    if n.attr in k.attrs:
                        if any(n.attr in x.selfattrs for x in c.family()):
                            return UNKNOWN
                        v = k.attrs[n.attr]
                        if isinstance(v, ast.expr):
                            e2 = {x: None for x in ()}
                            for b, bv in k.attrs.items():
                                if b != n.attr and isinstance(bv, ast.Constant):
                                    e2[b] = bv.value
                            return self._f(v, e2, k.module, None, d)
                        return UNKNOWN
        return UNKNOWN

    def _binop(self, op, a, b):
        t = type(op)
        if t is ast.Mult and (isinstance(a, (str, list, tuple)) and (not isinstance(b, int) or b > 1000)
                              or isinstance(b, (str, list, tuple)) and (not isinstance(a, int) or a > 1000)):
            raise Unfoldable
        if t in (ast.Pow, ast.LShift) and (not isinstance(b, int) or b > 256):
            raise Unfoldable
        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Mod: lambda: a % b, ast.BitOr: lambda: a | b,
                ast.BitAnd: lambda: a & b, ast.BitXor: lambda: a ^ b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b,
                ast.Pow: lambda: a ** b, ast.FloorDiv: lambda: a // b, ast.Div: lambda: a / b}[t]()

    def _call(self, n, env, m, func, d):
        F = lambda x: self._f(x, env, m, func, d)
        fn = n.func
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return UNKNOWN
        if isinstance(fn, ast.Name) and fn.id not in env:
            t = self.prj.lookup(fn.id, func, m) if m is not None else ("builtin", fn.id)
            if t == ("builtin", fn.id) and fn.id in SIMPLE:
                if fn.id in ("map", "filter"):
                    return UNKNOWN
                kw = {k.arg: F(k.value) for k in n.keywords if k.arg not in ("key",)}
                if any(k.arg == "key" for k in n.keywords):
                    return UNKNOWN
                r = SIMPLE[fn.id](*[F(a) for a in n.args], **kw)
                return list(r) if fn.id in ("enumerate", "zip", "range", "reversed") else r
        e = self.prj.ext_name(fn, func, m) if m is not None else None
        if e == "re.compile":
            a = [F(x) for x in n.args]
            kw = {k.arg: F(k.value) for k in n.keywords}
            return Regex(kw.get("pattern", a[0] if a else None), kw.get("flags", a[1] if len(a) > 1 else 0))
        if e == "re.escape":
            return re.escape(F(n.args[0]))
        if e in ("os.path.join",):
            return "/".join(F(a) for a in n.args)
        if e in ("builtins.str.maketrans",):
            return str.maketrans(*[F(a) for a in n.args])
        if isinstance(fn, ast.Attribute) and e is None:
            v = F(fn.value)
            if isinstance(v, (str, bytes)) and fn.attr in STR_METHODS or isinstance(v, (dict, set, frozenset, list, tuple)) and fn.attr in MAP_METHODS:
                r = getattr(v, fn.attr)(*[F(a) for a in n.args], **{k.arg: F(k.value) for k in n.keywords})
                return list(r) if isinstance(v, dict) and fn.attr in ("keys", "values", "items") else r
        return UNKNOWN


def single_assignment(f, name):
    """the expression of the only binding of a local name, or None"""
    found = None
    for n in walk_own(f.node):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)):
            p = n._parent
            if found is not None or not (isinstance(p, ast.Assign) and n in p.targets or isinstance(p, ast.AnnAssign) and p.value is not None
                                         or isinstance(p, ast.NamedExpr)):
                return None
            found = p.value
        elif isinstance(n, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split(".")[0]) == name for a in n.names):
            return None
    if found is None:
        return None
    for g in f.nested.values():
        if name in g.nonlocals:
            return None
    # changed in place?
    for n in walk_own(f.node):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == name:
            return None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name \
                and n.func.attr in ("append", "extend", "insert", "update", "add", "remove", "pop", "clear", "setdefault", "discard", "sort", "reverse", "popitem"):
            return None
    return found


def callers(prj):
    """callee -> list of (call, calling function); only exact resolutions"""
    c = getattr(prj, "_callers", None)
    if c is None:
        c = prj._callers = {}
        for f in prj.funcs:
            for n in walk_own(f.node, include_lambda=False):
                if isinstance(n, ast.Call):
                    for g in prj.callees(n, f, f.module)[0]:
                        c.setdefault(g, []).append((n, f))
    return c


def possible(folder, n, func, depth=4):
    """set of values an expression may have, looking through parameters at every call in the project; None when unknown.
    A parameter contributes its default only when some call leaves it out (or nothing in the project calls the function)."""
    from .core import bind
    prj = folder.prj
    v = folder.value(n, func)
    if v is not UNKNOWN:
        try:
            hash(v)
        except TypeError:
            return None
        return {v}
    if isinstance(n, ast.IfExp):
        a, b = possible(folder, n.body, func, depth), possible(folder, n.orelse, func, depth)
        return None if a is None or b is None else a | b
    if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or):
        res = set()
        for i, x in enumerate(n.values):
            p = possible(folder, x, func, depth)
            if p is None:
                return None
            res |= {y for y in p if y} if i < len(n.values) - 1 else p
        return res
    if isinstance(n, ast.Name) and depth > 0:
        t = prj.lookup(n.id, func, func.module)
        if isinstance(t, tuple) and t[0] == "local":
            f = t[1]
            if n.id in f.allparams:
                if n.id in (f.vararg, f.kwarg):
                    return None
                if any(isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store) for x in walk_own(f.node)):
                    return None
                res = set()
                calls = callers(prj).get(f, [])
                for c, cf in calls:
                    if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                        return None
                    b = bind(c, f)
                    if n.id in b:
                        p = possible(folder, b[n.id], cf, depth - 1)
                    elif n.id in f.defaults:
                        p = possible(folder, f.defaults[n.id], f.outer or f.module.main, depth - 1)
                    else:
                        p = None
                    if p is None:
                        return None
                    res |= p
                if not calls:
                    if n.id not in f.defaults:
                        return None
                    return possible(folder, f.defaults[n.id], f.outer or f.module.main, depth - 1)
                return res
            vals = set()
            for x in walk_own(f.node):
                if isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store):
                    p = x._parent
                    if not (isinstance(p, ast.Assign) and x in p.targets):
                        return None
                    q = possible(folder, p.value, f, depth - 1)
                    if q is None:
                        return None
                    vals |= q
            return vals or None
    return None
