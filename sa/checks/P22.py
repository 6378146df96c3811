"""P22: default data files exist in the package and are installed with it."""
import ast, fnmatch, os, posixpath
from ..core import text, walk_own, bind, parents, dotted
from ..consts import UNKNOWN, callers
from ..reach import reach
from ..util import library_code

TECHNIQUE = "constant evaluation of paths built from the module's own location, checked against the package directory and setup.py's package_data; handler dominance of the opens they flow to"
NOTE = "Names built from run-time data are not judged. The flow of a path to its open is followed through locals, loops over literal lists and calls inside the project."

ROOT = "/pkgroot"


class P(str):
    """a path; .rooted when it starts at the module's location"""


class Paths:
    def __init__(self, prj, fold):
        self.prj, self.fold = prj, fold

    def ev(self, n, f, depth=6):
        """absolute path below ROOT (str starting with ROOT), a plain constant, or None"""
        if depth <= 0 or n is None:
            return None
        if isinstance(n, ast.Name):
            if n.id == "__file__":
                return ROOT + "/" + f.module.path.replace(os.sep, "/")
            t = self.prj.lookup(n.id, f, f.module)
            if isinstance(t, tuple) and t[0] == "local":
                ds = reach(t[1]).use.get(n)
                if ds is None:
                    return None
                vals = set()
                for d in ds:
                    if d[0] == "expr":
                        vals.add(self.ev(d[1], f, depth - 1))
                    elif d[0] == "param" and n.id in t[1].defaults:
                        v = self.fold.fold(t[1].defaults[n.id], {}, f.module, t[1].outer)
                        vals.add(v if isinstance(v, str) else None)
                    else:
                        vals.add(None)
                vals.discard(None)
                return vals.pop() if len(vals) == 1 else None
            if isinstance(t, tuple) and t[0] == "global" and len(t[1].globals.get(n.id, [])) == 1:
                s = t[1].globals[n.id][0]
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                    return self.ev(s.value, t[1].main, depth - 1)
                return None
            v = self.fold.value(n, f)
            return v if isinstance(v, str) else None
        if isinstance(n, ast.Constant):
            return n.value if isinstance(n.value, str) else None
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Add):
                a, b = self.ev(n.left, f, depth - 1), self.ev(n.right, f, depth - 1)
                return a + b if a is not None and b is not None else None
            if isinstance(n.op, ast.Div):
                a, b = self.ev(n.left, f, depth - 1), self.ev(n.right, f, depth - 1)
                return posixpath.join(a, b) if a is not None and b is not None else None
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                xs = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
                vs = [self.ev(x, f, depth - 1) for x in xs]
                try:
                    return n.left.value % tuple(vs) if None not in vs else None
                except (TypeError, ValueError):
                    return None
            return None
        if isinstance(n, ast.JoinedStr):
            r = ""
            for v in n.values:
                x = v.value if isinstance(v, ast.Constant) else self.ev(v.value, f, depth - 1)
                if x is None:
                    return None
                r += x
            return r
        if isinstance(n, ast.Attribute):
            e = self.prj.ext_name(n, f, f.module)
            if e == "os.sep" or e == "os.path.sep":
                return "/"
            if n.attr == "parent":
                v = self.ev(n.value, f, depth - 1)
                return posixpath.dirname(v) if v else None
            if isinstance(n.value, ast.Name) and self.prj.self_class(n.value.id, f) is not None or isinstance(n.value, ast.Name):
                v = self.fold.value(n, f)
                if isinstance(v, str):
                    return v
                c = self.prj.self_class(n.value.id, f)
                if c is not None:
                    for k in c.mro():
                        if n.attr in k.attrs and isinstance(k.attrs[n.attr], ast.expr):
                            return self.ev(k.attrs[n.attr], k.module.main, depth - 1)
            return None
        if isinstance(n, ast.Subscript):
            # parents[0], os.path.split(x)[0]
            i = self.fold.value(n.slice, f)
            if isinstance(n.value, ast.Attribute) and n.value.attr == "parents" and isinstance(i, int):
                v = self.ev(n.value.value, f, depth - 1)
                for _ in range(i + 1):
                    v = posixpath.dirname(v) if v else None
                return v
            if isinstance(n.value, ast.Call) and i in (0, 1) and (self.prj.ext_name(n.value.func, f, f.module) or "") in ("os.path.split", "os.path.splitext"):
                v = self.ev(n.value.args[0], f, depth - 1) if n.value.args else None
                fn = posixpath.split if self.prj.ext_name(n.value.func, f, f.module) == "os.path.split" else posixpath.splitext
                return fn(v)[i] if v else None
            return None
        if isinstance(n, ast.Call):
            e = self.prj.ext_name(n.func, f, f.module) or ""
            if e.startswith("os.path.") or e in ("posixpath.join", "os.fspath", "builtins.str", "pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath"):
                k = e.split(".")[-1]
                vs = [self.ev(a, f, depth - 1) for a in n.args if not isinstance(a, ast.Starred)]
                if None in vs or not vs:
                    return None
                if k in ("join", "Path", "PurePath", "PosixPath"):
                    return posixpath.join(*vs)
                if k == "dirname":
                    return posixpath.dirname(vs[0])
                if k == "basename":
                    return posixpath.basename(vs[0])
                if k in ("abspath", "normpath", "realpath"):
                    return posixpath.normpath(vs[0]) if vs[0].startswith(ROOT) else None
                if k in ("fspath", "str", "expanduser", "expandvars", "normcase"):
                    return vs[0]
                return None
            if e in ("importlib.resources.files", "importlib_resources.files"):
                return ROOT + "/" + os.path.dirname(f.module.path)
            if e in ("pkgutil.get_data", "importlib.resources.open_text", "importlib.resources.open_binary", "importlib.resources.read_text", "importlib.resources.path",
                     "pkg_resources.resource_filename", "pkg_resources.resource_stream") and len(n.args) > 1:
                v = self.ev(n.args[1], f, depth - 1)
                return posixpath.join(ROOT, os.path.dirname(f.module.path), v) if v else None
            if isinstance(n.func, ast.Attribute):
                a = n.func.attr
                if a in ("resolve", "absolute", "as_posix", "expanduser") and not n.args:
                    return self.ev(n.func.value, f, depth - 1)
                if a in ("joinpath", "with_name", "replace", "format", "join"):
                    v = self.ev(n.func.value, f, depth - 1)
                    vs = [self.ev(x, f, depth - 1) for x in n.args]
                    if v is None or None in vs:
                        if a == "join" and v is not None and n.args and isinstance(n.args[0], (ast.List, ast.Tuple)):
                            ws = [self.ev(x, f, depth - 1) for x in n.args[0].elts]
                            return v.join(ws) if None not in ws else None
                        return None
                    if a == "joinpath":
                        return posixpath.join(v, *vs)
                    if a == "with_name" and vs:
                        return posixpath.join(posixpath.dirname(v), vs[0])
                    if a == "replace" and len(vs) == 2:
                        return v.replace(*vs)
                    if a == "format" and not n.keywords:
                        try:
                            return v.format(*vs)
                        except (IndexError, KeyError, ValueError):
                            return None
            gs, exact = self.prj.callees(n, f, f.module)
            if exact and len(gs) == 1 and gs[0].name != "__init__":
                return self.callval(n, gs[0], f, depth)
        if isinstance(n, ast.IfExp):
            a, b = self.ev(n.body, f, depth - 1), self.ev(n.orelse, f, depth - 1)
            return a if b is None or a == b else b if a is None else None
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or):
            vs = [v for v in (self.ev(x, f, depth - 1) for x in n.values) if v]
            return vs[-1] if vs else None
        return None

    def callval(self, n, g, f, depth):
        """value of a small helper such as `def _data(name): return os.path.join(os.path.dirname(__file__), name)`"""
        b = bind(n, g)
        env = {}
        for p in g.allparams:
            a = b.get(p)
            if a is not None and not isinstance(a, ast.Starred):
                env[p] = self.ev(a, f, depth - 1)
            elif p in g.defaults:
                v = self.fold.fold(g.defaults[p], {}, g.module, None)
                env[p] = v if isinstance(v, str) else None
        rets = [x.value for x in walk_own(g.node, include_lambda=False) if isinstance(x, ast.Return) and x.value is not None]
        if g.is_lambda:
            rets = [g.node.body]
        if len(rets) != 1:
            return None
        return Sub(self.prj, self.fold, env, g).ev(rets[0], g, depth - 1)


class Sub(Paths):
    def __init__(self, prj, fold, env, g):
        super().__init__(prj, fold)
        self.env, self.g = env, g

    def ev(self, n, f, depth=6):
        if isinstance(n, ast.Starred) and isinstance(n.value, ast.Name):
            return self.env.get(n.value.id)
        if isinstance(n, ast.Name) and n.id in self.env and f is self.g:
            return self.env[n.id]
        if isinstance(n, ast.Call) and any(isinstance(a, ast.Starred) for a in n.args):
            n2 = ast.Call(func=n.func, args=[a.value if isinstance(a, ast.Starred) else a for a in n.args], keywords=n.keywords)
            return super().ev(n2, f, depth)
        return super().ev(n, f, depth)


CATCH = ("IOError", "OSError", "EnvironmentError", "FileNotFoundError", "Exception", "BaseException")


def handled(n, stop):
    prev = n
    for p in parents(n):
        if isinstance(p, ast.Try) and prev in p.body:
            for h in p.handlers:
                ns = [dotted(x) or "" for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type else [])]
                if (h.type is None or any(x.split(".")[-1] in CATCH for x in ns)) and not (h.body and isinstance(h.body[-1], ast.Raise)):
                    return True
        if isinstance(p, ast.With) and any("suppress" in ast.unparse(i.context_expr) for i in p.items):
            return True
        if isinstance(p, (ast.If, ast.IfExp, ast.While)) and prev is not getattr(p, "test", None):
            if any(isinstance(x, ast.Attribute) and x.attr in ("exists", "isfile", "is_file", "access") for x in ast.walk(p.test)):
                return True
        if p is stop:
            break
        prev = p
    # an exists test that leaves the function first
    if isinstance(stop, (ast.FunctionDef, ast.AsyncFunctionDef)):
        for s in walk_own(stop):
            if isinstance(s, ast.If) and s.lineno < getattr(n, "lineno", 0) and s.body and isinstance(s.body[-1], (ast.Return, ast.Continue)) and \
                    any(isinstance(x, ast.Attribute) and x.attr in ("exists", "isfile", "is_file") for x in ast.walk(s.test)):
                return True
    return False


def sinks(prj, nodes, f, depth=3):
    """calls outside the project that receive the value of one of the nodes -> list of booleans (absence handled)"""
    res = []
    todo, seen = list(nodes), set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        p, prev = n._parent, n
        while isinstance(p, (ast.List, ast.Tuple, ast.IfExp, ast.BoolOp, ast.keyword, ast.Starred, ast.BinOp)):
            prev, p = p, p._parent
        if isinstance(p, ast.Call) and prev is not p.func:
            e = prj.ext_name(p.func, f, f.module) or ""
            if e.startswith("os.path.") or e in ("builtins.str", "os.fspath", "pathlib.Path", "builtins.list"):
                if e.split(".")[-1] not in ("exists", "isfile", "isdir", "getmtime"):
                    todo.append(p)
                continue
            gs, exact = prj.callees(p, f, f.module)
            h = handled(p, f.node)
            inner = []
            if gs and depth > 0:
                for g in gs:
                    b = bind(p, g)
                    for k, a in b.items():
                        if a is prev or (isinstance(prev, ast.keyword) and prev.value is a):
                            uses = [x for x in walk_own(g.node) if isinstance(x, ast.Name) and x.id == k and isinstance(x.ctx, ast.Load)]
                            inner += sinks(prj, uses, g, depth - 1)
            if inner:
                res += [h or i for i in inner]
            else:
                res.append(h)
        elif isinstance(p, ast.Attribute) and p.value is prev:      # path.open(), path.read_text(), path.exists()
            if p.attr in ("open", "read_text", "read_bytes"):
                res.append(handled(p, f.node))
            elif isinstance(p._parent, ast.Call):
                todo.append(p._parent)
        elif isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            for t in ts:
                if isinstance(t, ast.Name):
                    for u, ds in reach(f).use.items():
                        if u.id == t.id and any(d[0] == "expr" and any(d[1] is x for x in [n, prev] + list(parents(n))) for d in ds):
                            todo.append(u)
                elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                    for x in walk_own(f.node):
                        if isinstance(x, ast.Attribute) and x.attr == t.attr and isinstance(x.ctx, ast.Load):
                            todo.append(x)
        elif isinstance(p, (ast.For, ast.comprehension)) and p.iter is prev:
            for u, ds in reach(f).use.items():
                if any(d[0] == "iter" and d[1] is prev for d in ds):
                    todo.append(u)
        elif isinstance(p, ast.Return) and depth > 0:
            for c, cf in callers(prj).get(f, []):
                r = sinks(prj, [c], cf, depth - 1)
                res += r
    return res


def package_data(repo):
    """patterns of package_data for sldr, or None when setup.py does not say it in constants"""
    p = os.path.join(repo, "setup.py")
    if not os.path.exists(p):
        return None
    with open(p, encoding="utf-8") as f:
        t = ast.parse(f.read())
    consts = {}
    for s in t.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            try:
                consts[s.targets[0].id] = ast.literal_eval(s.value)
            except ValueError:
                pass
    for n in ast.walk(t):
        if isinstance(n, ast.keyword) and n.arg == "include_package_data" and getattr(n.value, "value", False):
            return None
        if isinstance(n, ast.keyword) and n.arg == "package_data":
            try:
                v = consts[n.value.id] if isinstance(n.value, ast.Name) and n.value.id in consts else ast.literal_eval(n.value)
            except ValueError:
                return None
            return list(v.get("sldr", [])) + list(v.get("", []))
    return []


def run(prj, fold, rep):
    data = package_data(prj.repo)
    rep.rule("a default path relative to the module names an existing file of lib/sldr, packaged unless its absence is handled at every open")
    pv = Paths(prj, fold)
    pkg = ROOT + "/lib/sldr/"
    shipped = {x for x in os.listdir(os.path.join(prj.repo, "lib", "sldr")) if not x.endswith(".py") and "." in x}
    for f in prj.lib_funcs():
        for n in walk_own(f.node, include_lambda=False):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in shipped and library_code(prj, n, f):
                p = n._parent
                e = prj.ext_name(p.func, f, f.module) if isinstance(p, ast.Call) and p.func is not n else None
                if e in ("builtins.open", "io.open", "codecs.open") or isinstance(p, ast.Assign) and p.value is n and \
                        any(isinstance(t, ast.Name) and t.id in f.params for t in p.targets):
                    rep.finding("working-directory", f, n.value, "default data file %s is looked for in the working directory instead of beside the module" % n.value, n)
                continue
            if not isinstance(n, (ast.Call, ast.BinOp, ast.JoinedStr)):
                continue
            par = n._parent
            if isinstance(par, (ast.Call, ast.BinOp, ast.JoinedStr, ast.FormattedValue)) and not (isinstance(par, ast.Call) and par.func is n):
                w = pv.ev(par, f)
                if w is not None and w.startswith(ROOT):
                    continue        # part of a larger path
            if isinstance(par, ast.Attribute) and par.value is n and isinstance(par._parent, ast.Call):
                w = pv.ev(par._parent, f)
                if w is not None and w.startswith(ROOT):
                    continue
            v = pv.ev(n, f)
            if v is None or not v.startswith(ROOT + "/"):
                continue
            v = posixpath.normpath(v)
            if not v.startswith(pkg):
                if posixpath.splitext(v)[1] and library_code(prj, n, f):
                    rep.finding("missing-file", f, posixpath.basename(v), "default data file %s lies outside the package directory" % posixpath.relpath(v, pkg), n)
                continue
            rel = v[len(pkg):]
            if not posixpath.splitext(rel)[1] or rel.endswith(".py") or not library_code(prj, n, f):
                continue
            full = os.path.join(prj.repo, "lib", "sldr", rel)
            rep.count("default_data_files")
            rep.site("%s: %s" % (f.where(), rel))
            if not os.path.isfile(full):
                rep.finding("missing-file", f, rel, "default data file %s is not in lib/sldr" % rel, n)
                continue
            if data is None:
                continue
            if any(fnmatch.fnmatchcase(rel, p) for p in data):
                continue
            s = sinks(prj, [n], f)
            if s and all(s):
                rep.count("unpackaged_but_handled")
                continue
            rep.finding("not-packaged", f, rel, "default data file %s is not among setup.py's package_data and its absence is not handled where it is opened" % rel, n)


L = "lib/sldr/a.py"
SETUP = {"setup.py": "from setuptools import setup\nsetup(package_data={'sldr': ['a.txt', '*.xml']})\n", "lib/sldr/a.txt": "", "lib/sldr/b.txt": "", "lib/sldr/c.xml": ""}


def ex(src):
    return dict(SETUP, **{L: "import os\n" + src})


EXAMPLES = [
    ("packaged", ex("def f(p=None):\n    if p is None:\n        p = os.path.join(os.path.dirname(__file__), 'a.txt')\n    return open(p)\n"), False),
    ("glob packaged", ex("def f():\n    return open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c.xml'))\n"), False),
    ("missing", ex("def f():\n    return open(os.path.join(os.path.dirname(__file__), 'z.txt'))\n"), ["missing-file"]),
    ("missing, concatenated", ex("def f(path=''):\n    return open(os.path.abspath(os.path.dirname(__file__) + path + '/z.txt'))\n"), ["missing-file"]),
    ("unpackaged", ex("def f():\n    return open(os.path.join(os.path.dirname(__file__), 'b.txt'))\n"), ["not-packaged"]),
    ("unpackaged handled", ex("def f():\n    fs = [os.path.join(os.path.dirname(__file__), 'b.txt')]\n    for p in fs:\n        try:\n            with open(p) as x:\n                return x.read()\n        except IOError:\n            continue\n"), False),
    ("unpackaged, loop, not handled", ex("def f():\n    fs = [os.path.join(os.path.dirname(__file__), 'b.txt')]\n    for p in fs:\n        with open(p) as x:\n            return x.read()\n"), ["not-packaged"]),
    ("helper path", ex("def _d(n):\n    return os.path.join(os.path.dirname(__file__), n)\ndef f():\n    return open(_d('z.txt'))\n"), ["missing-file"]),
    ("helper open handled", ex("def _o(p):\n    try:\n        return open(p)\n    except OSError:\n        return None\ndef f():\n    p = os.path.join(os.path.dirname(__file__), 'b.txt')\n    return _o(p)\n"), False),
    ("helper open, unhandled", ex("def _o(p):\n    return open(p)\ndef f():\n    p = os.path.join(os.path.dirname(__file__), 'b.txt')\n    return _o(p)\n"), ["not-packaged"]),
    ("module constant", ex("D = os.path.dirname(__file__)\ndef f():\n    return open(os.path.join(D, 'z.txt'))\n"), ["missing-file"]),
    ("pathlib", ex("from pathlib import Path\ndef f():\n    return open(Path(__file__).parent / 'z.txt')\n"), ["missing-file"]),
    ("pathlib ok", ex("from pathlib import Path\ndef f():\n    return (Path(__file__).resolve().parent / 'a.txt').open()\n"), False),
    ("outside", ex("def f():\n    return open(os.path.join(os.path.dirname(__file__), '..', 'a.txt'))\n"), ["missing-file"]),
    ("cwd", ex("def f(p=None):\n    if p is None:\n        p = 'a.txt'\n    return open(p)\n"), ["working-directory"]),
    ("exists test", ex("def f():\n    p = os.path.join(os.path.dirname(__file__), 'b.txt')\n    if os.path.exists(p):\n        return open(p)\n"), False),
]
