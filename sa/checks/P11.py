"""P11: every file the library opens is closed on every path, also when something raises."""
import ast
from ..core import walk_own, text, dotted, parents, bind
from ..consts import callers
from ..util import library_code

TECHNIQUE = "ownership analysis: every opened handle is followed to a with statement, a closing finally, or an owner that has one"
NOTE = "Handles are followed through names, wrappers, returns and parameters; between opening and the with/try only statements without calls are allowed."

OPEN = {"builtins.open", "io.open", "codecs.open", "os.fdopen", "gzip.open", "bz2.open", "lzma.open", "zipfile.ZipFile", "tarfile.open", "tarfile.TarFile",
        "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "tempfile.SpooledTemporaryFile", "urllib.request.urlopen", "socket.socket", "gzip.GzipFile", "io.FileIO", "shelve.open"}
WRAP = {"io.TextIOWrapper", "io.BufferedReader", "io.BufferedWriter", "contextlib.closing", "codecs.EncodedFile", "codecs.StreamReaderWriter"}


def own_stmt(n):
    for p in [n] + list(parents(n)):
        if isinstance(p, ast.stmt):
            return p


def block_of(s):
    """(list, index) holding a statement"""
    p = s._parent
    for fld in ("body", "orelse", "finalbody", "handlers"):
        b = getattr(p, fld, None)
        if isinstance(b, list) and s in b:
            return b, b.index(s)
    return None, None


def closes(stmts, names, prj, f, depth=2):
    """some statement closes one of the names on every path that matters (an `if name:` guard is fine)"""
    for s in stmts:
        for n in [s] + list(walk_own(s)):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("close", "__exit__") and isinstance(n.func.value, ast.Name) and n.func.value.id in names:
                    conds = []
                    for p in parents(n):
                        if p is s:
                            if isinstance(p, ast.If):
                                conds.append(p)
                            break
                        if isinstance(p, ast.If):
                            conds.append(p)
                    if all(any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(c.test)) for c in conds):
                        return True
                elif depth and any(isinstance(a, ast.Name) and a.id in names for a in n.args):
                    for g in prj.callees(n, f, f.module)[0]:
                        b = bind(n, g)
                        pn = {k for k, v in b.items() if isinstance(v, ast.Name) and v.id in names}
                        if pn and closes(g.body, pn, prj, g, depth - 1):
                            return True
    return False


class Owner:
    def __init__(self, prj):
        self.prj = prj

    def expr(self, n, f, depth=5):
        """True: closed; a string: how it may stay open; None: cannot tell"""
        prj = self.prj
        if depth <= 0:
            return None
        p = n._parent
        if isinstance(p, ast.withitem):
            return True
        if isinstance(p, (ast.IfExp,)) and n is not p.test or isinstance(p, (ast.BoolOp, ast.NamedExpr)):
            if isinstance(p, ast.NamedExpr) and isinstance(p._parent, ast.withitem):
                return True
            return self.expr(p, f, depth - 1)
        if isinstance(p, ast.Call) and n is not p.func:
            e = prj.ext_name(p.func, f, f.module)
            if e in WRAP or isinstance(p.func, ast.Call) and (prj.ext_name(p.func.func, f, f.module) in ("codecs.getwriter", "codecs.getreader")):
                return self.expr(p, f, depth - 1)
            if isinstance(p.func, ast.Attribute) and p.func.attr in ("enter_context", "push", "enter_async_context"):
                return True
            gs, exact = prj.callees(p, f, f.module)
            if gs:
                rs = []
                for g in gs:
                    pn = [k for k, v in bind(p, g).items() if v is n]
                    rs.append(self.param(g, pn[0], depth - 1) if pn else None)
                if all(r is True for r in rs):
                    return True
                return None if None in rs else rs[0]
            return "passed to %s, which does not close it" % text(p.func)
        if isinstance(p, ast.keyword):
            return self.expr_kw(p, f)
        if isinstance(p, ast.Attribute):
            if p.attr == "close":
                return True
            return "used without a name, so it cannot be closed"
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            return self.name(p, p.targets[0].id, f, depth)
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Attribute) and isinstance(p.targets[0].value, ast.Name):
            c = prj.self_class(p.targets[0].value.id, f)
            if c is not None:
                for m in ("close", "__exit__", "__del__"):
                    g = c.find(m)
                    if g is not None and p.targets[0].attr in ast.dump(g.node):
                        return True
                return "kept in an attribute that no close() of %s closes" % c.name
            return None
        if isinstance(p, ast.Return) or isinstance(p, ast.Lambda):
            cs = callers(prj).get(f, [])
            for c, cf in cs:
                r = self.expr(c, cf, depth - 1)
                if r is not True and r is not None:
                    return "returned by %s and then %s" % (f.name, r)
            return True
        if isinstance(p, (ast.For, ast.comprehension)) and p.iter is n:
            return "iterated over without being closed"
        if isinstance(p, ast.Expr):
            return "dropped without being closed"
        if isinstance(p, (ast.Yield, ast.YieldFrom)):
            return "yielded without being closed"
        return None

    def expr_kw(self, k, f):
        p = k._parent
        gs, exact = self.prj.callees(p, f, f.module)
        if gs:
            rs = [self.param(g, k.arg, 3) for g in gs]
            return True if all(r is True for r in rs) else None
        return "passed to %s, which does not close it" % text(p.func)

    def param(self, g, name, depth):
        if name in (g.vararg, g.kwarg):
            return None
        for n in walk_own(g.node):
            if isinstance(n, ast.withitem):
                e = n.context_expr
                if isinstance(e, ast.Name) and e.id == name or isinstance(e, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in e.args):
                    return True
            if isinstance(n, ast.Try) and closes(n.finalbody, {name}, self.prj, g):
                return True
        for n in walk_own(g.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == name:
                return None
        return "passed to %s, which does not close it" % g.qual

    def name(self, st, name, f, depth):
        names = {name}
        # inside a try whose finally closes the name
        cur = st
        for p in parents(st):
            if isinstance(p, ast.Try) and any(cur is s for s in p.body) and closes(p.finalbody, names, self.prj, f):
                return True
            cur = p
            if isinstance(p, (ast.FunctionDef, ast.Lambda, ast.Module)):
                break
        return self.rest(st, names, f, depth)

    def rest(self, st, names, f, depth):
        b, i = block_of(st)
        if b is None:
            return None
        for s in b[i + 1:]:
            if isinstance(s, (ast.With, ast.AsyncWith)):
                its = [x.context_expr for x in s.items]
                if any(isinstance(e, ast.Name) and e.id in names or isinstance(e, ast.Call) and any(isinstance(a, ast.Name) and a.id in names for a in e.args) for e in its):
                    return True
            if isinstance(s, ast.Try) and closes(s.finalbody, names, self.prj, f):
                return True
            if isinstance(s, ast.Return):
                if isinstance(s.value, ast.Name) and s.value.id in names:
                    return self.expr(s.value, f, depth - 1)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "close" \
                    and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id in names:
                return True
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v = s.value
                if isinstance(v, ast.Name) and v.id in names:
                    names.add(s.targets[0].id)
                    continue
                if isinstance(v, ast.Call) and any(isinstance(a, ast.Name) and a.id in names for a in v.args):
                    e = self.prj.ext_name(v.func, f, f.module)
                    if e in WRAP or isinstance(v.func, ast.Call):
                        names.add(s.targets[0].id)
                        continue
            if isinstance(s, ast.If):
                rs = []
                for br in (s.body, s.orelse):
                    if br and any(isinstance(x, ast.Name) and x.id in names for y in br for x in ast.walk(y)):
                        rs.append(self.first(br, names, f, depth))
                if rs and all(r is True for r in rs) and len(rs) == 2:
                    return True
            if any(isinstance(x, (ast.Call, ast.Raise, ast.Return, ast.For, ast.While, ast.Subscript, ast.Assert)) for x in ast.walk(s)):
                return "not closed when %s fails or leaves" % text(s, 50)
        p = st._parent
        if isinstance(p, (ast.If, ast.With)) and b is not getattr(p, "finalbody", None):
            return self.rest(p, names, f, depth)      # falls out of the branch
        if isinstance(p, ast.Try):
            return self.rest(p, names, f, depth)
        return "never closed"

    def first(self, br, names, f, depth):
        for s in br:
            if isinstance(s, ast.With) and any(isinstance(x.context_expr, ast.Name) and x.context_expr.id in names for x in s.items):
                return True
            if isinstance(s, ast.Try) and closes(s.finalbody, names, self.prj, f):
                return True
            if any(isinstance(x, ast.Call) for x in ast.walk(s)):
                return "leaves it open"
        return "leaves it open"


def run(prj, fold, rep):
    rep.rule("every handle opened in library code is the context of a with, or is closed in a finally that covers everything after the open, or is handed to an owner for which the same holds")
    ow = Owner(prj)
    for f in prj.lib_funcs():
        for n in walk_own(f.node, include_lambda=False):
            if isinstance(n, ast.Call) and prj.ext_name(n.func, f, f.module) in OPEN:
                if not library_code(prj, n, f):
                    continue
                rep.count("handles")
                rep.site("%s:%d %s" % (f.module.path, n.lineno, text(n)))
                r = ow.expr(n, f)
                if isinstance(r, str):
                    rep.finding("handle-not-closed", f, text(n), "%s is %s" % (text(n), r), n)


A = "lib/sldr/a.py"
EXAMPLES = [
    ("with", {A: "def f(n):\n    with open(n) as i:\n        return i.read()\n"}, False),
    ("inline", {A: "def f(n):\n    return open(n).read()\n"}, True),
    ("close only", {A: "def f(n):\n    i = open(n)\n    x = i.read()\n    i.close()\n    return x\n"}, True),
    ("finally", {A: "def f(n):\n    i = open(n)\n    try:\n        return i.read()\n    finally:\n        i.close()\n"}, False),
    ("finally late", {A: "def f(n):\n    i = open(n)\n    x = g(n)\n    try:\n        return i.read()\n    finally:\n        i.close()\n"}, True),
    ("finally none", {A: "def f(n):\n    i = None\n    try:\n        i = open(n)\n        return i.read()\n    finally:\n        if i is not None:\n            i.close()\n"}, False),
    ("argument", {A: "import json\ndef f(n):\n    return json.load(open(n))\n"}, True),
    ("returned", {A: "def o(n):\n    return open(n)\ndef f(n):\n    with o(n) as i:\n        return i.read()\n"}, False),
    ("returned leak", {A: "def o(n):\n    return open(n)\ndef f(n):\n    return o(n).read()\n"}, True),
    ("loop", {A: "def f(n):\n    for l in open(n):\n        yield l\n"}, True),
    ("named with", {A: "def f(n):\n    i = open(n)\n    with i:\n        return i.read()\n"}, False),
    ("main", {A: "if __name__ == '__main__':\n    print(open('x').read())\n"}, False),
    ("wrapped", {A: "import codecs\ndef f(n):\n    with codecs.getreader('utf-8')(open(n, 'rb')) as i:\n        return i.read()\n"}, False),
    ("exitstack", {A: "from contextlib import ExitStack\ndef f(n):\n    with ExitStack() as s:\n        i = s.enter_context(open(n))\n        return i.read()\n"}, False),
]
