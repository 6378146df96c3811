"""P09: every name, module member, method, field and call signature that is used exists."""
import ast, builtins, importlib, importlib.util, inspect, re, sys
from ..core import walk_own, bind, dotted, targets, text, Func, Class, Module, parents, bound_names
from ..consts import callers, possible
from ..reach import reach
from ..util import in_main_guard, library_code

TECHNIQUE = "name and member resolution over the syntax trees: scopes and reaching definitions for names, class families and inferred receiver types for members, parameter lists for calls"
NOTE = "Members of objects whose type is not known are only compared with all names defined anywhere in the project and the modules it imports. The contents of third-party modules are not known."

COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
MODNAMES = {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__builtins__", "__loader__", "__dict__", "__annotations__", "WindowsError"}
EXTRA = ["io", "http.client", "urllib.request", "urllib.error", "email.message", "re", "xml.etree.ElementTree", "xml.parsers.expat", "argparse", "csv", "datetime", "subprocess", "logging", "collections", "zipfile", "multiprocessing.pool", "os", "codecs", "json"]
BUILTIN = {"str": str, "bytes": bytes, "list": list, "dict": dict, "set": set, "frozenset": frozenset, "tuple": tuple, "int": int, "float": float, "bool": bool, "none": type(None),
           "gen": type(x for x in ()), "file": None, "pattern": None, "iter": None}
STRM = {"join": "str", "strip": "str", "lstrip": "str", "rstrip": "str", "lower": "str", "upper": "str", "replace": "str", "format": "str", "title": "str", "capitalize": "str", "split": "list",
        "rsplit": "list", "splitlines": "list", "encode": "bytes", "partition": "tuple", "rpartition": "tuple", "startswith": "bool", "endswith": "bool", "find": "int", "rfind": "int",
        "index": "int", "count": "int", "casefold": "str", "zfill": "str", "isdigit": "bool", "ljust": "str", "rjust": "str", "translate": "str", "swapcase": "str", "center": "str"}
CALLT = {"builtins.str": "str", "builtins.repr": "str", "builtins.chr": "str", "builtins.hex": "str", "builtins.bytes": "bytes", "builtins.list": "list", "builtins.sorted": "list", "builtins.dict": "dict",
         "builtins.set": "set", "builtins.frozenset": "frozenset", "builtins.tuple": "tuple", "builtins.int": "int", "builtins.len": "int", "builtins.ord": "int", "builtins.float": "float",
         "builtins.bool": "bool", "builtins.isinstance": "bool", "os.path.join": "str", "os.listdir": "list", "builtins.input": "str"}


def stdmod(name):
    if name.split(".")[0] not in sys.stdlib_module_names:
        return None
    try:
        return importlib.import_module(name)
    except Exception:
        return None


def guarded(n, f, exceptions):
    """inside a try whose handlers name one of the exceptions"""
    prev = n
    for p in parents(n):
        if isinstance(p, ast.Try) and prev in p.body:
            for h in p.handlers:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type is not None else []
                if any((dotted(t) or "").split(".")[-1] in exceptions for t in ts):
                    return True
        prev = p
    return False


def in_scope(n, m):
    """'local', 'class', 'module', 'builtin' or None: where a name is found, by Python's scope rules"""
    name, prev, inner = n.id, n, False
    for p in parents(n):
        if isinstance(p, COMPS):
            gens = p.generators
            k = next((i for i, g in enumerate(gens) if g is prev), None)
            if k is None:
                if any(name in set(targets(g.target)) for g in gens):
                    return "local"
            else:
                at = n
                for q in parents(n):
                    if q is gens[k]:
                        break
                    at = q
                first = at is gens[k].iter or n is gens[k].iter
                if any(name in set(targets(g.target)) for g in (gens[:k] if first else gens[:k + 1])):
                    return "local"
        elif isinstance(p, FUNCS):
            f = getattr(p, "_func", None)
            body = [p.body] if isinstance(p, ast.Lambda) else p.body
            if prev in body:
                if f is not None:
                    if name in f.globals_:
                        inner = "global"
                        break
                    if name in f.locals or name in f.allparams:
                        return "local"
                inner = True
        elif isinstance(p, ast.ClassDef) and prev in p.body:
            if name in ("__class__",) or not inner and name in classnames(p):
                return "class"
            if inner and name == "__class__":
                return "class"
            if name in ("__module__", "__qualname__"):
                return "class"
        prev = p
    if name in m.names:
        return "module"
    if hasattr(builtins, name) or name in MODNAMES:
        return "builtin"
    return None


def classnames(c):
    return bound_names(c)


class Infer:
    """types of expressions, where all of them are known: a set of builtin type names, Class objects or ('ext', type); None when unknown"""

    def __init__(self, prj, fold):
        self.prj, self.fold, self.memo, self.busy = prj, fold, {}, set()
        self.stores = {}
        self.open = {}          # class -> beginnings of the names that it gives itself through setattr
        self.prefixes = []
        for f in prj.funcs:
            for n in walk_own(f.node, include_lambda=False):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.stores.setdefault(n.attr, []).append((n, f))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1:
                    names = self.setnames(n, f)
                    me = self.prj.self_class(n.args[0].id, f) if isinstance(n.args[0], ast.Name) else None
                    if names is None and me is not None:
                        self.open.setdefault(me, []).append("")
                    elif isinstance(names, str):
                        if me is not None:
                            self.open.setdefault(me, []).append(names)
                        else:
                            self.prefixes.append(names)
                    else:
                        for a in [None] if names is None else names:
                            self.stores.setdefault(a, []).append((n, f))

    def setnames(self, n, f):
        """names that a setattr call sets: a set, a beginning, or None"""
        a = n.args[1]
        if len(n.args) > 2 and isinstance(n.args[2], ast.Call) and isinstance(n.args[2].func, ast.Name) and n.args[2].func.id == "getattr" \
                and len(n.args[2].args) > 1 and ast.dump(n.args[2].args[1]) == ast.dump(a):
            return set()        # copied from another object
        return self.strings(a, f)

    def strings(self, a, f):
        if isinstance(a, ast.Constant):
            return {a.value}
        if isinstance(a, ast.Name):
            for p in parents(a):
                if isinstance(p, ast.For) and isinstance(p.target, ast.Name) and p.target.id == a.id:
                    v = self.fold.value(p.iter, f)
                    try:
                        vs = set(v)
                    except TypeError:
                        return None
                    return vs if all(isinstance(x, str) for x in vs) else None
                if p is f.node:
                    break
            r = possible(self.fold, a, f)
            return r if r and all(isinstance(x, str) for x in r) else None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add):
            l, r = self.strings(a.left, f), self.strings(a.right, f)
            if isinstance(l, set) and isinstance(r, set) and len(l) * len(r) < 200:
                return {x + y for x in l for y in r}
            if isinstance(l, set) and len(l) == 1:
                return next(iter(l)) or None
            return l if isinstance(l, str) else None
        if isinstance(a, ast.JoinedStr) and a.values and isinstance(a.values[0], ast.Constant):
            return a.values[0].value or None
        return None

    def t(self, n, f, d=0):
        k = (n, f)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy or d > 12:
            return None
        self.busy.add(k)
        try:
            r = self.ev(n, f, d + 1)
        except RecursionError:
            r = None
        finally:
            self.busy.discard(k)
        self.memo[k] = r
        return r

    def union(self, rs):
        out = set()
        for r in rs:
            if r is None:
                return None
            out |= r
        return out or None

    def ev(self, n, f, d):
        if isinstance(n, ast.Constant):
            return {type(n.value).__name__ if n.value is not None else "none"} if type(n.value).__name__ in BUILTIN or n.value is None else None
        for ty, name in ((ast.JoinedStr, "str"), (ast.List, "list"), (ast.ListComp, "list"), (ast.Dict, "dict"), (ast.DictComp, "dict"), (ast.Set, "set"), (ast.SetComp, "set"), (ast.Tuple, "tuple"), (ast.GeneratorExp, "gen"), (ast.Compare, None)):
            if isinstance(n, ty):
                return {name} if name else None
        if isinstance(n, ast.IfExp):
            return self.union([self.t(n.body, f, d), self.t(n.orelse, f, d)])
        if isinstance(n, ast.BoolOp):
            return self.union([self.t(v, f, d) for v in n.values])
        if isinstance(n, ast.NamedExpr):
            return self.t(n.value, f, d)
        if isinstance(n, ast.BinOp):
            a = self.t(n.left, f, d)
            if isinstance(n.op, ast.Mod) and a == {"str"}:
                return {"str"}
            if isinstance(n.op, ast.Add):
                b = self.t(n.right, f, d)
                return a if a and a == b and a <= {"str", "list", "tuple", "bytes"} else None
            if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub)) and a == {"set"}:
                return a
            return None
        if isinstance(n, ast.Name):
            return self.name(n, f, d)
        if isinstance(n, ast.Attribute):
            return self.attribute(n, f, d)
        if isinstance(n, ast.Call):
            return self.call(n, f, d)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            b = self.t(n.value, f, d)
            return b if b and b <= {"str", "list", "tuple", "bytes"} else None
        if isinstance(n, ast.Subscript) and self.t(n.value, f, d) == {"str"}:
            return {"str"}
        return None

    def name(self, n, f, d):
        for p in parents(n):
            if isinstance(p, COMPS) and any(n.id in set(targets(g.target)) for g in p.generators):
                return None
            if p is f.node:
                break
        c = self.prj.self_class(n.id, f)
        if c is not None:
            g = f
            while g is not None and g.selfname != n.id:
                g = g.outer
            if g is not None and not g.is_classmethod and g.name != "__new__" and not any(isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store) for x in walk_own(g.node)):
                return {c}
            return None
        if n.id in f.locals or n.id in f.allparams:
            defs = reach(f).use.get(n)
            if not defs:
                return None
            rs = []
            for k, v, path in defs:
                if k == "undef":
                    continue
                if k == "expr" and isinstance(v, ast.AST):
                    rs.append(self.t(v, f, d))
                elif k == "param":
                    rs.append(self.param(f, v, d))
                elif k == "with" and isinstance(v, ast.Call) and (self.prj.ext_name(v.func, f, f.module) or "") == "builtins.open":
                    rs.append({"file"})
                elif k == "aug" and isinstance(v.op, ast.Add):
                    return None
                else:
                    return None
            return self.union(rs)
        t = self.prj.lookup(n.id, f, f.module)
        if isinstance(t, tuple) and t[0] == "global" and t[1] is f.module:
            ss = t[1].globals.get(n.id, [])
            if any(n.id in g.globals_ for g in self.prj.funcs if g.module is t[1]):
                return None
            rs = []
            for s in ss:
                if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == n.id for x in s.targets):
                    rs.append(self.t(s.value, t[1].main, d))
                else:
                    return None
            return self.union(rs)
        return None

    def param(self, f, name, d):
        return None

    def family_stores(self, a, c):
        """stores to field a that concern objects of class c; None when any of them is of an unknown object"""
        fam = c.family()
        res = []
        for n, g in self.stores.get(a, []):
            if isinstance(n, ast.Call):
                return None
            k = self.prj.self_class(n.value.id, g) if isinstance(n.value, ast.Name) else None
            if k is None:
                return None
            if k in fam or any(x in fam for x in k.family()):
                res.append((n, g))
        return res

    def attribute(self, n, f, d):
        r = self.t(n.value, f, d)
        if not r or len(r) != 1 or not isinstance(next(iter(r)), Class):
            return None
        c = next(iter(r))
        if c.external_bases() or dynamic(self, c):
            return None
        m = c.find(n.attr)
        if m is not None:
            return None
        ss = self.family_stores(n.attr, c)
        if ss is None:
            return None
        rs = []
        for x, g in ss:
            p = x._parent
            if isinstance(p, ast.Assign) and x in p.targets:
                rs.append(self.t(p.value, g, d))
            else:
                return None
        for k in c.family():
            if n.attr in k.attrs:
                v = k.attrs[n.attr]
                rs.append(self.t(v, k.module.main, d) if v is not None else None)
        return self.union(rs)

    def call(self, n, f, d):
        e = self.prj.ext_name(n.func, f, f.module) or ""
        if e in CALLT:
            return {CALLT[e]}
        if e == "builtins.open":
            return {"file"}
        if e == "re.compile":
            return {"pattern"}
        if e:
            return None
        if isinstance(n.func, ast.Attribute):
            r = self.t(n.func.value, f, d)
            if r == {"str"} and n.func.attr in STRM:
                return {STRM[n.func.attr]}
            if r and r <= {"list", "dict", "set"} and n.func.attr == "copy":
                return r
            if r == {"bytes"} and n.func.attr == "decode":
                return {"str"}
        k = self.klass(n.func, f)
        if k is not None:
            return {k}
        gs, exact = self.prj.callees(n, f, f.module)
        if exact and len(gs) == 1 and gs[0].name != "__init__":
            return self.returns(gs[0], d)
        return None

    def klass(self, fn, f):
        """the class that an expression denotes"""
        if isinstance(fn, ast.Name):
            t = self.prj.lookup(fn.id, f, f.module)
            return t if isinstance(t, Class) else None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            t = self.prj.lookup(fn.value.id, f, f.module)
            if isinstance(t, Module):
                u = self.prj.global_target(t, fn.attr)
                return u if isinstance(u, Class) else None
        return None

    def returns(self, g, d):
        if g.is_lambda or any(x for x in g.decorators if x not in ("staticmethod", "classmethod")):
            return None
        own = [n for n in walk_own(g.node, include_lambda=False)]
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own):
            return {"gen"}
        rs = [n for n in own if isinstance(n, ast.Return)]
        if not rs or any(r.value is None for r in rs) or reach(g).at_end is not None:
            return None
        return self.union([self.t(r.value, g, d) for r in rs])


def dynamic(inf, c):
    """objects of the class may get any field"""
    for k in c.family():
        if any(m in k.methods for m in ("__getattr__", "__getattribute__", "__setattr__")):
            return True
        for m in k.methods.values():
            for n in walk_own(m.node):
                if isinstance(n, ast.Attribute) and n.attr == "__dict__" or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "vars":
                    return True
        if k.node.decorator_list:
            return True
    return any(p == "" for k in c.family() for p in inf.open.get(k, []))


class Members:
    def __init__(self, prj, fold, inf):
        self.prj, self.inf = prj, inf
        self.memo = {}
        self.universe = set(MODNAMES)
        for t in (str, bytes, bytearray, list, dict, set, frozenset, tuple, int, float, complex, bool, type, object, range, slice, type(None), type(len), type(lambda: 0), type(x for x in ()), type(sys), BaseException, OSError, UnicodeError, SyntaxError, ImportError, StopIteration, memoryview, property, SystemExit, KeyError, AttributeError, NameError):
            self.universe.update(dir(t))
        self.universe |= {"__dict__", "__name__", "__qualname__", "__defaults__", "__wrapped__"}
        mods = set(EXTRA)
        for m in prj.modules.values():
            for d in list(m.imports.values()) + m.star:
                while d:
                    if stdmod(d) is not None:
                        mods.add(d)
                        break
                    d = d.rpartition(".")[0]
        self.mods = sorted(mods)
        for d in mods:
            o = stdmod(d)
            if o is None:
                continue
            self.universe.update(dir(o))
            for v in vars(o).values():
                if isinstance(v, type):
                    self.universe.update(dir(v))
        for m in prj.modules.values():
            self.universe |= set(m.names)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    fn = (dotted(n.func) or getattr(n.func, "attr", "") or "").split(".")[-1]
                    if fn in ("add_argument", "namedtuple", "Namespace", "set_defaults", "SimpleNamespace", "Enum"):
                        for a in n.args + [k.value for k in n.keywords]:
                            for x in ast.walk(a):
                                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                                    for w in x.value.replace(",", " ").split():
                                        self.universe.add(w.lstrip("-").replace("-", "_"))
                        self.universe |= {k.arg for k in n.keywords if k.arg}
                    elif fn in ("setattr",) and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        self.universe.add(n.args[1].value)
        for c in prj.classes:
            self.universe |= {"_%s%s" % (c.name.lstrip("_"), a) for a in list(c.methods) + list(c.attrs) + list(c.selfattrs) if a.startswith("__")}
            self.universe |= set(c.methods) | set(c.attrs) | {x for x in bound_names(c.node)}
        self.universe |= {a for a in inf.stores if a}
        self.anyset = {g.module for n, g in inf.stores.get(None, [])}

    def ofclass(self, c):
        """names that objects of a class may have, or None"""
        if c in self.memo:
            return self.memo[c]
        r = set(dir(object)) | {"__dict__", "__name__", "__qualname__"}
        for k in c.family():
            r |= set(k.methods) | set(k.attrs) | set(k.selfattrs) | bound_names(k.node)
            r |= {"_%s%s" % (k.name.lstrip("_"), a) for a in list(k.methods) + list(k.attrs) + list(k.selfattrs) if a.startswith("__") and not a.endswith("__")}
            for s in k.node.body:
                if isinstance(s, ast.Assign) and any("__slots__" in set(targets(t)) for t in s.targets) and isinstance(s.value, (ast.Tuple, ast.List)):
                    r |= {e.value for e in s.value.elts if isinstance(e, ast.Constant)}
        if dynamic(self.inf, c):
            r = None
        else:
            for k in c.family():
                bs = list(zip(k.node.bases, k.basenames))
                for b, kn in list(bs):
                    if isinstance(b, ast.Call) and (dotted(b.func) or "").split(".")[-1] == "with_metaclass":
                        bs.remove((b, kn))
                        bs += [(x, dotted(x) or "?") for x in b.args]
                        mk = self.prj.resolve_class(b.args[0], k.module, k) if b.args else None
                        if mk is not None:
                            bs = [x for x in bs if x[0] is not b.args[0]]
                            r |= set(mk.methods) | set(mk.attrs) | set(mk.selfattrs)
                for b, kn in bs:
                    if any(x.name == kn.split(".")[-1] for x in k.bases):
                        continue
                    e = self.prj.ext_name(b, k.outer, k.module)
                    if e == "builtins.object":
                        continue
                    o = resolve_ext(e)
                    if isinstance(o, tuple) or o is None or not isinstance(o, type):
                        r = None
                        break
                    r |= set(dir(o)) | instance_fields(o)
                if r is not None and k.node.keywords:
                    for kw in k.node.keywords:
                        if kw.arg == "metaclass":
                            mk = self.prj.resolve_class(kw.value, k.module, k)
                            if mk is None:
                                r = None
                                break
                            r |= set(mk.methods) | set(mk.attrs) | set(dir(type)) | set(mk.selfattrs)
                if r is None:
                    break
        if r is not None:
            # fields set from outside on objects of unknown type
            for a, ss in self.inf.stores.items():
                if a and a not in r:
                    for n, g in ss:
                        k = self.prj.self_class(n.value.id, g) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) else None
                        if k is None:
                            r.add(a)
                            break
        self.memo[c] = r
        return r

    def lacks(self, c, a, called=False):
        r = self.ofclass(c)
        if r is not None:
            return a not in r and not any(a.startswith(p) for k in c.family() for p in self.inf.open.get(k, [])) and not any(a.startswith(p) for p in self.inf.prefixes)
        return False

    def missing(self, a, m):
        return a not in self.universe and m not in self.anyset and not any(a.startswith(p) for p in self.inf.prefixes)


FIELDS = {}


def instance_fields(o):
    """fields that a class written in Python sets through self"""
    if o not in FIELDS:
        r = set()
        for k in o.__mro__:
            try:
                tree = ast.parse(inspect.cleandoc("\n" + inspect.getsource(k)) if False else __import__("textwrap").dedent(inspect.getsource(k)))
            except Exception:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                    r.add(n.attr)
        FIELDS[o] = r
    return FIELDS[o]


def resolve_ext(e):
    """the object in the standard library that a dotted name denotes; ('missing', part) when there is none; None when not known"""
    if not e:
        return None
    parts = e.split(".")
    if parts[0] == "builtins":
        o, rest = builtins, parts[1:]
    elif parts[0] in sys.stdlib_module_names:
        o, rest = stdmod(parts[0]), parts[1:]
        if o is None:
            return None
        name = parts[0]
    else:
        return None
    name = parts[0]
    for p in rest:
        if isinstance(o, type(sys)):
            sub = None
            if not hasattr(o, p):
                try:
                    sub = importlib.import_module(o.__name__ + "." + p)
                except Exception:
                    return ("missing", p, o.__name__)
            o = getattr(o, p) if sub is None else sub
        elif isinstance(o, type):
            if not hasattr(o, p):
                return ("missing", p, o.__name__)
            o = getattr(o, p)
        else:
            return None
    return o


def accepts(call, f, skip):
    """None when the call fits the parameter list, else what is wrong.  skip: number of leading parameters filled in by Python"""
    pos = f.params[skip:]
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    given = [a for a in call.args if not isinstance(a, ast.Starred)]
    if len(given) > len(pos) and not f.vararg:
        return "takes %d argument%s, is given %d" % (len(pos), "" if len(pos) == 1 else "s", len(given))
    posonly = set()
    if not f.is_lambda or True:
        posonly = {x.arg for x in f.node.args.posonlyargs}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in pos and k.arg not in posonly:
            if not star and pos.index(k.arg) < len(given):
                return "is given %s twice" % k.arg
        elif k.arg not in f.kwonly and not f.kwarg:
            return "has no parameter %s" % k.arg
    if star or dstar:
        return None
    kws = {k.arg for k in call.keywords}
    for i, p in enumerate(pos):
        if i >= len(given) and p not in kws and p not in f.defaults:
            return "needs %s" % p
    for p in f.kwonly:
        if p not in kws and p not in f.defaults:
            return "needs %s" % p
    return None


def arity(f, skip, n):
    """None when f takes n positional arguments"""
    pos = f.params[skip:]
    need = len([p for p in pos if p not in f.defaults])
    if n < need or n > len(pos) and not f.vararg or any(p not in f.defaults for p in f.kwonly):
        return "takes %s%d argument%s, is called with %d" % ("at least " if f.vararg or need < len(pos) else "", need, "" if need == 1 else "s", n)
    return None


# fewest and most positional arguments, keywords: where Python does not give a signature
NOSIG = {"range": (1, 3), "set": (0, 1), "frozenset": (0, 1), "str": (0, 3, "object", "encoding", "errors"), "bytes": (0, 3, "encoding", "errors", "source"), "int": (0, 2, "base"), "bool": (0, 1),
         "getattr": (2, 3), "iter": (1, 2), "next": (1, 2), "map": (2, 99), "filter": (2, 2), "zip": (0, 99, "strict"), "min": (1, 99, "key", "default"), "max": (1, 99, "key", "default"),
         "slice": (1, 3), "startswith": (1, 3), "endswith": (1, 3), "find": (1, 3), "rfind": (1, 3), "index": (1, 3), "rindex": (1, 3), "count": (1, 3), "pop": (0, 2)}
NOSIGTYPES = [range, set, frozenset, str, bytes, int, bool, map, filter, zip, slice]
KEEPS = {"list", "tuple", "set", "frozenset", "sorted", "iter", "next", "zip", "enumerate", "reversed", "max", "min", "filter", "map", "copy", "deepcopy", "chain", "groupby", "deque", "islice", "dict", "getattr"}
PLAIN = {"staticmethod", "classmethod", "property"}
CALLBACK = {"builtins.filter": (0, 1), "functools.reduce": (0, 2), "functools.cmp_to_key": (0, 2), "re.sub": (1, 1), "re.subn": (1, 1), "collections.defaultdict": (0, 0)}
HANDLERS = {"StartElementHandler": 2, "EndElementHandler": 1, "CharacterDataHandler": 1, "DefaultHandler": 1, "DefaultHandlerExpand": 1, "CommentHandler": 1, "ProcessingInstructionHandler": 2,
            "StartDoctypeDeclHandler": 4, "EndDoctypeDeclHandler": 0, "StartCdataSectionHandler": 0, "EndCdataSectionHandler": 0, "XmlDeclHandler": 3, "ElementDeclHandler": 2, "AttlistDeclHandler": 5,
            "StartNamespaceDeclHandler": 2, "EndNamespaceDeclHandler": 1, "EntityDeclHandler": 7, "NotationDeclHandler": 4, "ExternalEntityRefHandler": 4, "SkippedEntityHandler": 2, "UnparsedEntityDeclHandler": 5}


class Check:
    def __init__(self, prj, fold, rep):
        self.prj, self.rep = prj, rep
        self.inf = Infer(prj, fold)
        self.mem = Members(prj, fold, self.inf)
        self.seen = set()

    def finding(self, rule, f, construct, message, n):
        k = (rule, f.module, getattr(n, "lineno", 0), getattr(n, "col_offset", 0))
        if k not in self.seen:
            self.seen.add(k)
            self.rep.finding(rule, f, construct, message, n)

    # ---- names
    def names(self, m):
        prj, rep = self.prj, self.rep
        if m.star and any(not self.known_star(s) for s in m.star):
            rep.note("%s imports everything from a module that is not known" % m.path)
            return
        extra = set()
        for s in m.star:
            extra |= self.star_names(s)
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)) or isinstance(n, ast.Name) and isinstance(getattr(n, "_parent", None), ast.AugAssign) and n._parent.target is n):
                continue
            rep.count("names")
            w = in_scope(n, m)
            f = prj.scope_of(n) or m.main
            if w is None and n.id not in extra:
                if not guarded(n, f, ("NameError",)) and not maybe_globals(m, n.id):
                    self.finding("name", f, n.id, "there is no %s" % n.id, n)
            elif w == "module" and f is not m.main and library_code(prj, n, f) and self.main_only(m, n.id):
                if not guarded(n, f, ("NameError",)):
                    self.finding("name", f, n.id, "%s is only there when the module is run as a program" % n.id, n)

    def known_star(self, s):
        return s in self.prj.modules or stdmod(s) is not None

    def star_names(self, s):
        if s in self.prj.modules:
            return set(self.prj.modules[s].names)
        o = stdmod(s)
        return set(getattr(o, "__all__", dir(o)))

    def main_only(self, m, name):
        k = (m, name)
        if k not in self.mem.memo:
            found, other = False, False
            for n in walk_own(m.tree, include_lambda=False):
                hit = isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and not any(isinstance(p, COMPS) for p in parents(n)) or \
                    isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name or \
                    isinstance(n, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name).split(".")[0] == name for a in n.names) or \
                    isinstance(n, ast.ExceptHandler) and n.name == name
                if hit:
                    if in_main_guard(n):
                        found = True
                    else:
                        other = True
            if any(g.module is m and name in g.globals_ for g in self.prj.funcs):
                other = True
            self.mem.memo[k] = found and not other
        return self.mem.memo[k]

    def locals(self, f):
        r = reach(f)
        for n, defs in r.use.items():
            if not isinstance(n, ast.Name) or n.id in f.globals_:
                continue
            if f.is_lambda and n.id not in f.allparams:
                continue
            if defs and all(d[0] == "undef" for d in defs):
                if f is f.module.main and (hasattr(builtins, n.id) or f.module.star):
                    continue
                if guarded(n, f, ("NameError", "UnboundLocalError")):
                    continue
                if any(isinstance(p, (ast.Lambda, ast.ClassDef)) for p in parents(n) if p is not f.node) and f is f.module.main:
                    continue
                if any(n.id in g.globals_ for g in self.prj.funcs if g.module is f.module) and f is f.module.main:
                    continue
                if any(isinstance(p, ast.Lambda) and p is not f.node for p in self.upto(n, f)):
                    continue        # runs later
                if any(n.id in g.nonlocals for g in f.nested.values() if isinstance(g, Func)):
                    continue
                self.finding("unassigned", f, n.id, "no path that leads here has given %s a value" % n.id, n)

    def upto(self, n, f):
        for p in parents(n):
            if p is f.node:
                return
            yield p

    # ---- imports
    def imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.rep.count("imports")
                    self.module_exists(a.name, n, m)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    pk = m.name.split(".") if m.is_pkg else m.name.split(".")[:-1]
                    pk = pk[:len(pk) - (n.level - 1)]
                    base = ".".join(pk + ([n.module] if n.module else []))
                self.rep.count("imports")
                if not self.module_exists(base, n, m):
                    continue
                for a in n.names:
                    if a.name == "*":
                        continue
                    f = self.prj.scope_of(n) or m.main
                    if base in self.prj.modules:
                        t = self.prj.modules[base]
                        if a.name not in t.names and base + "." + a.name not in self.prj.modules and not t.star and a.name not in MODNAMES and "__getattr__" not in t.funcs:
                            if not guarded(n, f, ("ImportError", "ModuleNotFoundError", "Exception")):
                                self.finding("import", f, a.name, "%s has no %s" % (base, a.name), n)
                        elif a.name in t.names and self.main_only(t, a.name):
                            self.finding("import", f, a.name, "%s has no %s unless it is run as a program" % (base, a.name), n)
                    else:
                        o = stdmod(base)
                        if o is not None and not hasattr(o, a.name) and stdmod(base + "." + a.name) is None:
                            if not guarded(n, f, ("ImportError", "ModuleNotFoundError", "Exception")):
                                self.finding("import", f, a.name, "%s has no %s" % (base, a.name), n)

    def module_exists(self, name, n, m):
        f = self.prj.scope_of(n) or m.main
        top = name.split(".")[0]
        if name in self.prj.modules:
            return True
        bad = False
        if any(k.split(".")[0] == top and not x.is_script for k, x in self.prj.modules.items()):
            bad = name not in {".".join(k.split(".")[:i]) for k in self.prj.modules for i in range(1, k.count(".") + 2)}
        elif top in sys.stdlib_module_names:
            bad = stdmod(name) is None and importlib.util.find_spec(top) is not None
        if bad and not guarded(n, f, ("ImportError", "ModuleNotFoundError", "Exception")):
            self.finding("import", f, name, "there is no module %s" % name, n)
        return not bad

    # ---- members
    def member(self, n, f):
        prj, rep, m = self.prj, self.rep, f.module
        rep.count("members")
        v = n.value
        if guarded(n, f, ("AttributeError",)) or self.tested(n, f):
            return
        if isinstance(v, ast.Name) and in_scope(v, m) in ("module", "local"):
            t = prj.lookup(v.id, f, m)
            if any(isinstance(p, COMPS) and any(v.id in set(targets(g.target)) for g in p.generators) for p in self.upto(n, f)):
                t = None
        else:
            t = None
        if isinstance(t, Module):
            if n.attr not in t.names and t.name + "." + n.attr not in prj.modules and not t.star and n.attr not in MODNAMES and "__getattr__" not in t.funcs:
                self.finding("member", f, text(n), "module %s has no %s" % (t.name, n.attr), n)
            elif n.attr in t.names and self.main_only(t, n.attr):
                self.finding("member", f, text(n), "module %s has no %s unless it is run as a program" % (t.name, n.attr), n)
            return
        if isinstance(t, Class):
            if self.mem.lacks(t, n.attr) and n.attr not in dir(type):
                self.finding("member", f, text(n), "class %s has no %s" % (t.name, n.attr), n)
            return
        e = prj.ext_name(n, f, m) if not (isinstance(v, ast.Name) and t is None) else None
        if e:
            o = resolve_ext(e)
            if isinstance(o, tuple) and o[1] == n.attr:
                self.finding("member", f, text(n), "%s has no %s" % (o[2], n.attr), n)
            if o is not None or e.split(".")[0] not in sys.stdlib_module_names | {"builtins"}:
                return
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
            c = prj.own_class(f)
            if c is not None and not v.args:
                if not c.external_bases() and not any(n.attr in b.methods or n.attr in b.attrs for b in c.mro()[1:]) and not hasattr(object, n.attr) and len(c.subclasses) == 0:
                    self.finding("member", f, text(n), "no class above %s has %s" % (c.name, n.attr), n)
            return
        if isinstance(v, ast.Name):
            c = prj.self_class(v.id, f)
            if c is not None and not any(isinstance(x, ast.Name) and x.id == v.id and isinstance(x.ctx, ast.Store) for x in walk_own(f.node)):
                g = f
                while g is not None and g.selfname != v.id:
                    g = g.outer
                if self.mem.lacks(c, n.attr) and not (g is not None and (g.is_classmethod or g.name == "__new__" or "type" in c.external_bases()) and n.attr in dir(type)):
                    self.finding("member", f, text(n), "nothing gives objects of class %s a %s" % (c.name, n.attr), n)
                elif self.mem.ofclass(c) is None and isinstance(n._parent, ast.Call) and n._parent.func is n and self.mem.missing(n.attr, m) and not c.external_bases() and not any(x in k.methods for k in c.family() for x in ("__getattr__", "__getattribute__")):
                    self.finding("member", f, text(n), "nothing in the program has a %s" % n.attr, n)
                return
        ty = self.inf.t(v, f)
        if ty:
            lacking, checked = [], 0
            for x in ty:
                if x == "none":
                    continue
                checked += 1
                if isinstance(x, Class):
                    if self.mem.lacks(x, n.attr):
                        lacking.append(x.name)
                elif BUILTIN.get(x) is not None:
                    if not hasattr(BUILTIN[x], n.attr):
                        lacking.append(x)
            if checked and len(lacking) == checked:
                self.finding("member", f, text(n), "%s is %s, which has no %s" % (text(v), " or ".join("a generator" if x == "gen" else x for x in sorted(lacking)), n.attr), n)
                return
        if self.mem.missing(n.attr, m) and not self.foreign(v, f):
            self.finding("member", f, text(n), "nothing in the program or the modules it uses has a %s" % n.attr, n)

    # ---- objects from packages whose contents are not known
    def package(self, d):
        top = d.split(".")[0]
        return top not in sys.stdlib_module_names and top not in ("six", "builtins", "future") and not any(x.split(".")[0] == top for x in self.prj.modules)

    def thirdparty(self, m):
        k = ("3rd", m)
        if k not in self.mem.memo:
            self.mem.memo[k] = any(self.package(d) for d in list(m.imports.values()) + m.star)
        return self.mem.memo[k]

    def foreign(self, v, f, d=0):
        """an expression may hold an object of a third-party package"""
        if d > 8:
            return self.thirdparty(f.module)
        again = lambda x: self.foreign(x, f, d + 1)
        if isinstance(v, ast.Name):
            if self.prj.self_class(v.id, f) is not None:
                return False
            for p in self.upto(v, f):
                for g in getattr(p, "generators", []):
                    if v.id in set(targets(g.target)):
                        return again(g.iter)
            if v.id in f.locals or v.id in f.allparams:
                for k, x, _ in reach(f).use.get(v) or ():
                    if k == "param":
                        if self.foreign_param(f, x, d):
                            return True
                    elif k in ("expr", "iter", "unpack", "with"):
                        if isinstance(x, ast.AST) and again(x):
                            return True
                    elif k == "import":
                        if self.package(f.module.imports.get(v.id, "")):
                            return True
                return False
            g = f.outer
            while g is not None and g is not f.module.main:
                if v.id in g.locals or v.id in g.allparams:
                    return self.thirdparty(f.module)
                g = g.outer
            if v.id in f.module.imports:
                return self.package(f.module.imports[v.id])
            if any(self.package(x) for x in f.module.star):
                return True
            return any(self.foreign(s.value, f.module.main, d + 1) for s in f.module.globals.get(v.id, []) if isinstance(s, ast.Assign))
        if isinstance(v, ast.Attribute):
            if isinstance(v.value, ast.Name) and self.prj.self_class(v.value.id, f) is not None:
                c = self.prj.self_class(v.value.id, f)
                k = ("3rda", c, v.attr)
                if k not in self.mem.memo:
                    self.mem.memo[k] = False
                    self.mem.memo[k] = self.foreign_field(c, v.attr, d)
                return self.mem.memo[k]
            return again(v.value)
        if isinstance(v, ast.Call):
            e = self.prj.ext_name(v.func, f, f.module) or ""
            if e:
                if e.split(".")[0] in ("builtins", "itertools", "copy", "collections", "functools") and e.split(".")[-1] in KEEPS:
                    return any(again(a.value if isinstance(a, ast.Starred) else a) for a in v.args)
                return self.package(e) if e.split(".")[0] != "builtins" else False
            if isinstance(v.func, ast.Attribute) and again(v.func.value):
                return True
            gs, exact = self.prj.callees(v, f, f.module)
            for g in gs if exact else []:
                k = ("3rdr", g)
                if k not in self.mem.memo:
                    self.mem.memo[k] = False
                    self.mem.memo[k] = any(self.foreign(n.value, g, d + 1) for n in walk_own(g.node, include_lambda=False) if isinstance(n, (ast.Return, ast.Yield)) and n.value is not None and g.name != "__init__")
                if self.mem.memo[k]:
                    return True
            return False
        if isinstance(v, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return again(v.elt)
        if isinstance(v, (ast.Subscript, ast.Starred, ast.Await)):
            return again(v.value)
        if isinstance(v, ast.IfExp):
            return again(v.body) or again(v.orelse)
        if isinstance(v, (ast.BoolOp, ast.List, ast.Tuple, ast.Set)):
            return any(again(x) for x in getattr(v, "values", None) or getattr(v, "elts", []))
        if isinstance(v, ast.NamedExpr):
            return again(v.value)
        if isinstance(v, ast.BinOp):
            return not isinstance(v.op, ast.Mod) and (again(v.left) or again(v.right))
        return False

    def foreign_param(self, f, name, d):
        k = ("3rdp", f, name)
        if k not in self.mem.memo:
            self.mem.memo[k] = False
            r, some = False, False
            for c, g in callers(self.prj).get(f, []):
                if not self.prj.callees(c, g, g.module)[1]:
                    continue
                a = bind(c, f).get(name)
                if a is not None:
                    some = True
                    r = r or self.foreign(a, g, d + 1)
            self.mem.memo[k] = r or not some and self.thirdparty(f.module)
        return self.mem.memo[k]

    def foreign_field(self, c, a, d):
        for n, g in self.inf.stores.get(a, []):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and self.prj.self_class(n.value.id, g) in c.family():
                p = n._parent
                v = p.value if isinstance(p, (ast.Assign, ast.AnnAssign)) else p.iter if isinstance(p, ast.For) else None
                if v is None:
                    if self.thirdparty(g.module):
                        return True
                elif self.foreign(v, g, d + 1):
                    return True
        return False

    def tested(self, n, f):
        """under hasattr(x, 'a') or isinstance(x, ...)"""
        d, prev = ast.dump(n.value), n
        for p in parents(n):
            if isinstance(p, (ast.If, ast.IfExp, ast.While)) and prev is not p.test:
                tests = [p.test]
            elif isinstance(p, ast.BoolOp):
                tests = [x for x in p.values if x is not prev]
            elif isinstance(p, COMPS):
                tests = [c for g in p.generators for c in g.ifs]
            elif isinstance(p, ast.Assert):
                tests = []
            else:
                tests = []
            for t in tests:
                for c in ast.walk(t):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr", "isinstance", "getattr", "callable", "type", "issubclass") and c.args and ast.dump(c.args[0]) == d:
                        return True
            # an earlier statement in the same block that leaves when the test fails
            if isinstance(p, ast.stmt) or p is f.node:
                for body in (getattr(p, "body", None), getattr(p, "orelse", None), getattr(p, "finalbody", None)):
                    if isinstance(body, list) and prev in body:
                        for s in body[:body.index(prev)]:
                            if isinstance(s, (ast.If, ast.Assert)):
                                for c in ast.walk(s.test):
                                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr", "isinstance", "type") and c.args and ast.dump(c.args[0]) == d:
                                        return True
            if p is f.node:
                break
            prev = p
        return False

    # ---- calls
    def named(self, v, f):
        """what a name denotes, where it is a function that is only defined once or whose definition is known to reach"""
        t = self.prj.lookup(v.id, f, f.module)
        if not isinstance(t, Func):
            return t
        if v.id in f.locals and v.id in f.nested:
            defs = reach(f).use.get(v)
            if defs is None and t.outer is f:
                return t if self.once(v.id, f.node) else None
            fs = {getattr(d[1], "_func", None) if d[0] == "def" else None for d in defs or ()}
            return next(iter(fs)) if len(fs) == 1 else None
        o = t.outer
        return t if self.once(v.id, o.node if o is not None else t.module.tree) else None

    def once(self, name, scope):
        k = ("once", scope)
        if k not in self.mem.memo:
            d = {}
            for n in walk_own(scope, include_lambda=False):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    d[n.name] = d.get(n.name, 0) + 1
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    d[n.id] = d.get(n.id, 0) + 1
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        x = (a.asname or a.name).split(".")[0]
                        d[x] = d.get(x, 0) + 1
            self.mem.memo[k] = d
        return self.mem.memo[k].get(name, 0) <= 1

    def plain(self, g):
        return g.is_lambda or all(d in PLAIN for d in g.decorators)

    def call(self, n, f):
        prj, m, fn = self.prj, f.module, n.func
        if guarded(n, f, ("TypeError",)):
            return
        e = prj.ext_name(fn, f, m) or ""
        if isinstance(fn, ast.Name) and any(isinstance(p, COMPS) and any(fn.id in set(targets(g.target)) for g in p.generators) for p in self.upto(n, f)):
            return
        if e:
            self.external(n, f, e)
            return
        k = self.inf.klass(fn, f)
        if k is not None:
            self.construct(n, f, k)
            return
        if isinstance(fn, ast.Name):
            t = self.named(fn, f)
            if isinstance(t, Func):
                self.fits(n, f, t, 0)
            elif isinstance(t, tuple) and t[0] in ("local", "global"):
                self.variable(n, f, fn)
            return
        if not isinstance(fn, ast.Attribute):
            return
        v = fn.value
        if isinstance(v, ast.Name):
            t = prj.lookup(v.id, f, m)
            if isinstance(t, Module):
                u = prj.global_target(t, fn.attr)
                if isinstance(u, Func):
                    self.fits(n, f, u, 0)
                return
            if isinstance(t, Class):
                g = t.find(fn.attr)
                if g is not None and not g.is_property:
                    self.fits(n, f, g, 1 if g.is_classmethod else 0)
                return
            c = prj.self_class(v.id, f)
            if c is not None:
                g0 = f
                while g0 is not None and g0.selfname != v.id:
                    g0 = g0.outer
                onclass = g0 is not None and (g0.is_classmethod or g0.name == "__new__")
                gs = [c.find(fn.attr)] + [d.methods.get(fn.attr) for d in c.descendants()]
                if fn.attr in c.selfattrs:
                    return
                for g in dict.fromkeys(x for x in gs if x is not None):
                    if g.is_property:
                        continue
                    self.fits(n, f, g, 0 if g.is_static or onclass and not g.is_classmethod else 1)
                return
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
            gs, exact = prj.callees(n, f, m)
            if exact and gs:
                self.fits(n, f, gs[0], 0 if gs[0].is_static else 1)
            return
        ty = self.inf.t(v, f)
        if ty:
            real = [x for x in ty if x != "none"]
            if len(real) == 1:
                x = real[0]
                if isinstance(x, Class):
                    g = x.find(fn.attr)
                    if g is not None and not g.is_property and fn.attr not in x.selfattrs:
                        self.fits(n, f, g, 0 if g.is_static else 1)
                    return
                if BUILTIN.get(x) is not None:
                    self.signature(n, f, getattr(BUILTIN[x], fn.attr, None), 1)
                    return
        # objects of unknown type: some method of that name has to fit
        if fn.attr in self.library() and not (prj.callees(n, f, m)[1]) and not self.foreign(v, f) and fn.attr not in self.inf.stores and m not in self.mem.anyset:
            self.anysignature(n, f, fn.attr)
        if fn.attr in prj.by_method and fn.attr not in self.library() and fn.attr not in self.inf.stores and m not in self.mem.anyset:
            gs = [g for g in prj.by_method[fn.attr] if not g.is_property]
            if self.foreign(v, f) or any(fn.attr in mm.funcs for mm in prj.modules.values()) or not gs:
                return
            self.rep.count("calls_by_name")
            errs = [accepts(n, g, 0 if g.is_static else 1) if self.plain(g) else None for g in gs]
            if all(errs):
                self.finding("call", f, text(n), "%s %s" % (gs[0].qual, errs[0]), n)

    def library(self):
        if "lib" not in self.mem.memo:
            r = set()
            ts = dict.fromkeys([str, bytes, bytearray, list, dict, set, frozenset, tuple, int, float, type, object, type(x for x in ()), type(re.compile("")), type(re.match("", "")), BaseException])
            for d in self.mem.mods:
                o = stdmod(d)
                if o is None:
                    continue
                r.update(dir(o))
                ts.update(dict.fromkeys([o]))
                for v in vars(o).values():
                    if isinstance(v, type):
                        ts[v] = None
            for t in ts:
                r.update(dir(t))
            self.mem.memo["libtypes"] = list(ts)
            self.mem.memo["lib"] = r
        return self.mem.memo["lib"]

    def anysignature(self, n, f, a):
        if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
            return
        if any(a in mm.names for mm in self.prj.modules.values()):
            return
        k = ("sig", a)
        if k not in self.mem.memo:
            res = []
            for t in self.mem.memo["libtypes"]:
                o = inspect.getattr_static(t, a, None)
                if o is None:
                    continue
                self_ = 1
                if isinstance(o, (staticmethod, classmethod)) or type(o).__name__ in ("classmethod_descriptor",):
                    o, self_ = getattr(t, a), 0
                if not callable(o):
                    res = None
                    break
                try:
                    res.append((inspect.signature(o), self_))
                except (ValueError, TypeError):
                    if a in NOSIG:
                        res.append((NOSIG[a], self_))
                    else:
                        res = None
                        break
            self.mem.memo[k] = res
        res = self.mem.memo[k]
        if not res:
            return
        self.rep.count("library_calls")
        for s, skip in res:
            if isinstance(s, tuple):
                if s[0] <= len(n.args) <= s[1] and all(x.arg in s[2:] for x in n.keywords):
                    return
                continue
            try:
                s.bind(*([None] * (skip + len(n.args))), **{x.arg: None for x in n.keywords})
                return
            except TypeError as x:
                err = str(x)
        for g in self.prj.by_method.get(a, []):
            if g.is_property or not self.plain(g) or accepts(n, g, 0 if g.is_static else 1) is None:
                return
        self.finding("call", f, text(n), "no method %s takes these arguments" % a, n)

    def fits(self, n, f, g, skip):
        self.rep.count("calls")
        if not self.plain(g):
            return
        err = accepts(n, g, skip)
        if err:
            self.finding("call", f, text(n), "%s %s" % (g.qual, err), n)

    def construct(self, n, f, k):
        self.rep.count("calls")
        if k.node.decorator_list:
            return
        g = k.find("__init__")
        nw = k.find("__new__")
        for c in k.mro():
            if any(kw.arg == "metaclass" for kw in c.node.keywords) or any("()" in b for b in c.basenames):
                mk = next((self.prj.resolve_class(kw.value, c.module, c) for kw in c.node.keywords if kw.arg == "metaclass"), None)
                if mk is None:
                    return
                call = mk.find("__call__")
                if call is not None and not (call.vararg and call.kwarg):
                    return
        if nw is not None and not (nw.vararg or nw.kwarg) and self.plain(nw):
            err = accepts(n, nw, 1)
            if err:
                self.finding("call", f, text(n), "%s %s" % (nw.qual, err), n)
                return
        if g is not None:
            self.fits(n, f, g, 1)
        elif nw is None and not k.external_bases() and (n.args or n.keywords):
            self.finding("call", f, text(n), "%s takes no arguments" % k.name, n)

    def variable(self, n, f, fn):
        """a name that holds a lambda or function in every definition that reaches"""
        defs = reach(f).use.get(fn)
        gs = []
        if defs:
            for k, v, p in defs:
                if k == "expr" and isinstance(v, ast.Lambda):
                    gs.append((v._func, 0))
                elif k == "expr" and isinstance(v, (ast.Name, ast.Attribute)):
                    x = self.funcvalue(v, f)
                    if x is None:
                        return
                    gs.append(x)
                elif k == "undef":
                    continue
                else:
                    return
            errs = [accepts(n, g, s) if self.plain(g) else None for g, s in gs]
            if errs and all(errs):
                self.rep.count("calls")
                self.finding("call", f, text(n), "%s %s" % (text(fn), errs[0]), n)

    def funcvalue(self, v, f):
        """(function, parameters already filled in) that an expression denotes"""
        if isinstance(v, ast.Lambda):
            return (v._func, 0)
        if isinstance(v, ast.Name):
            t = self.named(v, f)
            return (t, 0) if isinstance(t, Func) else None
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
            t = self.prj.lookup(v.value.id, f, f.module)
            if isinstance(t, Module):
                u = self.prj.global_target(t, v.attr)
                return (u, 0) if isinstance(u, Func) else None
            if isinstance(t, Class):
                g = t.find(v.attr)
                return (g, 1 if g.is_classmethod else 0) if g is not None and not g.is_property else None
            c = self.prj.self_class(v.value.id, f)
            if c is not None and v.attr not in c.selfattrs:
                g = c.find(v.attr)
                return (g, 0 if g.is_static else 1) if g is not None and not g.is_property else None
        return None

    def callback(self, n, f, v, count):
        x = self.funcvalue(v, f)
        if x is None or not self.plain(x[0]):
            return
        self.rep.count("callbacks")
        err = arity(x[0], x[1], count)
        if err:
            self.finding("call", f, text(v), "%s %s" % (x[0].qual if not x[0].is_lambda else "the lambda", err), v)

    def callbacks(self, n, f):
        e = self.prj.ext_name(n.func, f, f.module) or ""
        a = n.func.attr if isinstance(n.func, ast.Attribute) else None
        if e in ("builtins.sorted", "builtins.min", "builtins.max", "itertools.groupby", "heapq.nsmallest", "heapq.nlargest") or not e and a == "sort":
            for k in n.keywords:
                if k.arg == "key":
                    self.callback(n, f, k.value, 1)
        if e == "builtins.map" and n.args and not any(isinstance(x, ast.Starred) for x in n.args):
            self.callback(n, f, n.args[0], len(n.args) - 1)
        if e in CALLBACK:
            i, c = CALLBACK[e]
            if len(n.args) > i and not any(isinstance(x, ast.Starred) for x in n.args[:i + 1]):
                self.callback(n, f, n.args[i], c)
        if not e and a in ("sub", "subn") and n.args and self.inf.t(n.func.value, f) == {"pattern"}:
            self.callback(n, f, n.args[0], 1)

    def external(self, n, f, e):
        o = resolve_ext(e)
        if o is None or isinstance(o, tuple):
            return
        if e in ("builtins.super", "builtins.print", "builtins.type", "builtins.dict"):
            return
        self.signature(n, f, o, 0)

    def signature(self, n, f, o, skip):
        if o is None:
            return
        t = NOSIG.get(getattr(o, "__name__", None)) if o in NOSIGTYPES or inspect.ismethoddescriptor(o) or inspect.isbuiltin(o) else None
        if t is not None and not any(isinstance(x, ast.Starred) for x in n.args) and not any(k.arg is None for k in n.keywords):
            self.rep.count("library_calls")
            if not t[0] <= len(n.args) + (len([k for k in n.keywords if k.arg in t[2:]]) if t[0] > len(n.args) else 0) or len(n.args) > t[1] or any(k.arg not in t[2:] for k in n.keywords):
                self.finding("call", f, text(n), "%s takes %d to %d arguments" % (text(n.func), t[0], t[1]), n)
            return
        try:
            s = inspect.signature(o)
        except (ValueError, TypeError):
            return
        if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
            return
        self.rep.count("library_calls")
        try:
            s.bind(*([None] * (skip + len(n.args))), **{k.arg: None for k in n.keywords})
        except TypeError as x:
            self.finding("call", f, text(n), "%s: %s" % (text(n.func), x), n)

    def run(self):
        prj, rep = self.prj, self.rep
        rep.rule("names resolve by Python's scope rules; locals have a reaching definition; imports, module members, methods and fields exist; arguments fit parameter lists")
        for m in prj.modules.values():
            rep.count("modules")
            self.imports(m)
            self.names(m)
        for f in prj.funcs:
            rep.count("functions")
            self.locals(f)
            if f.is_lambda:
                continue
            for n in walk_own(f.node, include_lambda=True):
                g = prj.scope_of(n) or f.module.main
                if isinstance(n, ast.Attribute):
                    if isinstance(n.ctx, ast.Load):
                        self.member(n, g)
                    elif isinstance(n.ctx, ast.Store) and n.attr in HANDLERS and isinstance(n._parent, ast.Assign):
                        self.callback(n, g, n._parent.value, HANDLERS[n.attr])
                elif isinstance(n, ast.Call):
                    self.call(n, g)
                    self.callbacks(n, g)


def maybe_globals(m, name):
    """the module fills its globals() itself"""
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "exec") for n in ast.walk(m.tree))


def run(prj, fold, rep):
    Check(prj, fold, rep).run()


def ex(name, body, want, pre="import os, re\n", sig="words, out=None"):
    return (name, {"lib/sldr/a.py": pre + "def f(%s):\n" % sig + "".join("    " + l + "\n" for l in body.split("\n"))}, want)


A = "class A:\n    k = 1\n    def __init__(self, a, b=2):\n        self.a = a\n    def m(self, x, *, y=0):\n        return x\n    @staticmethod\n    def s(x):\n        return x\n    @classmethod\n    def c(cls, x):\n        return cls(x)\n    @property\n    def p(self):\n        return 1\n"
EXAMPLES = [
 ex("plain", "r = [os.path.join(w, 'a') for w in words]\nreturn sorted(r, key=lambda x: x.lower())", False),
 ex("no such name", "return wrods", ["name"]),
 ex("no such name in a lambda", "return sorted(words, key=lambda x: y)", ["name"]),
 ex("name of a comprehension used outside", "r = [w for w in words]\nreturn w", ["name"]),
 ex("class names are not seen by methods", "return 1", ["name"], "class B:\n    q = 1\n    def m(self):\n        return q\n"),
 ex("class names are seen in the class", "return 1", False, "class B:\n    q = 1\n    r = q + 1\n"),
 ex("NameError caught", "try:\n    return unicode\nexcept NameError:\n    return str", False),
 ex("no value yet", "if words:\n    print(n)\nn = 1\nreturn n", ["unassigned"]),
 ex("value on one path", "if words:\n    n = 1\nreturn n", False),
 ex("handler name afterwards", "try:\n    out()\nexcept ValueError as e:\n    pass\nreturn e", ["unassigned"]),
 ex("deleted", "x = 1\ndel x\nreturn x", ["unassigned"]),
 ex("nested function reads a later value", "def g():\n    return n\nn = 1\nreturn g()", False),
 ex("loop variable", "for w in words:\n    pass\nreturn w", False),
 ex("no member", "return os.path.joined('a')", ["member"]),
 ex("stdlib member", "return os.path.splitext('a')[0]", False),
 ex("import missing", "return 1", ["import"], "from os import nothing\n"),
 ex("import guarded", "return 1", False, "try:\n    from os import nothing\nexcept ImportError:\n    nothing = None\n"),
 ex("third party", "return icu.Foo.bar", False, "import icu\n"),
 ex("str method", "return words.lower().strp()", ["member"], sig="words"),
 ex("str literal", "return ', '.joined(words)", ["member"]),
 ex("list has no add", "r = []\nfor w in words:\n    r.add(w)\nreturn r", ["member"]),
 ex("set has no append", "r = set()\nfor w in words:\n    r.append(w)\nreturn r", ["member"]),
 ex("list or set", "r = set() if out else []\nif out:\n    r.add(1)\nelse:\n    r.append(1)\nreturn r", False),
 ex("set made into a list", "r = set()\nr.add(1)\nr = list(r)\nr.append(2)\nreturn r", False),
 ex("none first", "r = None\nif words:\n    r = []\nr.append(2)\nreturn r", False),
 ex("dict has no append", "r = {}\nr.append(2)\nreturn r", ["member"]),
 ex("unknown field of a class", "return A(1).b", ["member"], A),
 ex("fields of a class", "a = A(1)\nreturn a.a, a.k, a.p, a.__class__.__name__", False, A),
 ex("field set from outside", "a = A(1)\nwords.zz = 1\nreturn a.zz", False, A),
 ex("field under hasattr", "a = A(1)\nif hasattr(a, 'zz'):\n    return a.zz", False, A),
 ex("self field", "return 1", ["member"], "class B:\n    def __init__(self):\n        self.a = 1\n    def m(self):\n        return self.b\n"),
 ex("self field of a subclass", "return 1", False, "class B:\n    def m(self):\n        return self.b\nclass C(B):\n    b = 1\n"),
 ex("getattr class", "return 1", False, "class B:\n    def __getattr__(self, a):\n        return a\n    def m(self):\n        return self.b\n"),
 ex("nothing has it", "return words.zzyzx", ["member"]),
 ex("argparse", "p = argparse.ArgumentParser()\np.add_argument('--zzy-zx')\na = p.parse_args()\nreturn a.zzy_zx", False, "import argparse\n"),
 ex("too few", "return g(1)", ["call"], "def g(a, b):\n    return a\n"),
 ex("too many", "return g(1, 2, 3)", ["call"], "def g(a, b):\n    return a\n"),
 ex("unknown keyword", "return g(1, c=2)", ["call"], "def g(a, b=1):\n    return a\n"),
 ex("twice", "return g(1, a=2)", ["call"], "def g(a, b=1):\n    return a\n"),
 ex("star", "return g(*words) + g(1, **out)", False, "def g(a, b):\n    return a\n"),
 ex("default", "return g(1) + g(1, b=2)", False, "def g(a, b=1):\n    return a\n"),
 ex("constructor", "return A()", ["call"], A),
 ex("constructor ok", "return A(1, b=3)", False, A),
 ex("method", "a = A(1)\nreturn a.m()", ["call"], A),
 ex("method ok", "a = A(1)\nreturn a.m(1, y=2), A.m(a, 1), a.s(1), A.s(2), A.c(1), a.c(2)", False, A),
 ex("method through the class", "return A.m(1)", ["call"], A),
 ex("static", "return A.s()", ["call"], A),
 ex("unknown object", "return words.mm(1, 2)", ["call"], "class B:\n    def mm(self, a):\n        return a\n"),
 ex("unknown object, one fits", "return words.mm(1, 2)", False, "class B:\n    def mm(self, a):\n        return a\nclass C:\n    def mm(self, a, b):\n        return a\n"),
 ex("key function", "return sorted(words, key=lambda a, b: a)", ["call"]),
 ex("map", "return list(map(lambda a, b: a, words))", ["call"]),
 ex("map of two", "return list(map(lambda a, b: a, words, words))", False),
 ex("stdlib call", "return os.path.splitext('a', 'b')", ["call"]),
 ex("two definitions", "if out:\n    def g(a):\n        return a\nelse:\n    def g(a, b=1):\n        return a\nreturn g(1)", False),
 ex("definitions in turn", "def g(a):\n    return a\nx = g(1)\ndef g(a, b):\n    return a\nreturn g(1, 2)", False),
 ex("handler", "import xml.parsers.expat as expat\np = expat.ParserCreate()\np.StartElementHandler = lambda tag: tag\nreturn p", ["call"]),
 ex("main only", "return helper(1)", ["name"], "if __name__ == '__main__':\n    def helper(x):\n        return x\n"),
 ex("imports", "return h('a')", False, "from os.path import join as h\n"),
 ("module member", {"lib/sldr/a.py": "from . import b\ndef f():\n    return b.missing()\n", "lib/sldr/b.py": "def there():\n    return 1\n", "lib/sldr/__init__.py": ""}, ["member"]),
 ("module member there", {"lib/sldr/a.py": "from . import b\nfrom .b import there\ndef f():\n    return b.there() + there()\n", "lib/sldr/b.py": "def there():\n    return 1\n", "lib/sldr/__init__.py": ""}, False),
 ("moved", {"lib/sldr/a.py": "from .b import gone\n", "lib/sldr/b.py": "def there():\n    return 1\n", "lib/sldr/__init__.py": ""}, ["import"]),
]
