"""P15: copies share no mutable part with what they were copied from."""
import ast
import re
from ..core import walk_own, AnchorLost, dotted
from ..flow import flow, show, mutable_expr

TECHNIQUE = "alias analysis of every copying function: what the new object may hold of its source, joined with which fields and items anything in the project changes in place"
NOTE = "A field is mutable when something in the project changes it in place or stores a list, dictionary or set in it; parts of other types cannot be changed, so sharing them is fine."
NAME = re.compile(r"^_*(copy|clone|duplicate|deepcopy)(_|$)|^_*copy[a-z]*$|^__(deep)?copy__$")
CONTAINERS = {"list", "dict", "set", "tuple", "UserDict", "UserList", "OrderedDict", "defaultdict", "Counter", "deque", "_Element", "Element"}


class Kinds:
    """which paths lead to something that can be changed in place"""
    def __init__(self, prj, fl):
        self.prj, self.fl = prj, fl
        self.tails = {}     # (field, '*'...) -> classes whose methods change or fill it, None where the owner is not known
        self.own = {}       # class -> paths of self
        for f, s in fl.sum.items():
            for (t, kind) in s.mut:
                p = t[-1]
                if kind == "rebind" or not p:
                    continue
                if t[0] == "p" and t[1] == f.selfname and f.cls is not None:
                    for c in f.cls.family():
                        self.own.setdefault(c, set()).add(p)
                i = len(p)
                while i and p[i - 1] == "*":
                    i -= 1
                if i and "…" not in p:
                    self.add(p[i - 1:], f.cls if t[0] == "p" and t[1] == f.selfname and i == 1 else None)
        for f in prj.funcs + [m.main for m in prj.modules.values() if m.main not in prj.funcs]:
            local = {}
            sts = []
            for n in walk_own(f.node, include_lambda=True):
                if isinstance(n, ast.Assign):
                    sts += [(t, n.value) for t in n.targets]
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    sts.append((n.target, n.value))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.args and n.func.attr in ("append", "add", "insert", "setdefault", "set"):
                    sts.append((ast.Subscript(value=n.func.value, slice=ast.Constant(0), ctx=ast.Store()), n.args[-1]))
            for t, v in sts:
                base, tail = strip(t)
                if isinstance(base, ast.Name):
                    for i in range(depth(v)):
                        local.setdefault(base.id, set()).add(tail + ("*",) * i)
            for t, v in sts:
                base, tail = strip(t)
                if isinstance(base, ast.Attribute):
                    c = prj.self_class(base.value.id, f) if isinstance(base.value, ast.Name) else None
                    for i in range(depth(v)):
                        self.add((base.attr,) + tail + ("*",) * i, c)
                    if isinstance(v, ast.Name):
                        for x in local.get(v.id, ()):
                            self.add((base.attr,) + tail + x, c)
        for c in prj.classes:
            for a, v in c.attrs.items():
                for i in range(depth(v) if v is not None else 0):
                    self.add((a,) + ("*",) * i, c)
        self.nested = {}        # class -> depth of displays passed to its constructor
        for f in prj.funcs:
            for n in walk_own(f.node, include_lambda=True):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and len(n.args) == 1:
                    c = prj.lookup(n.func.id, f, f.module)
                    if c.__class__.__name__ == "Class":
                        self.nested[c] = max(self.nested.get(c, 0), depth(n.args[0]))

    def add(self, tail, c):
        self.tails.setdefault(tail, set()).add(c)

    def mutable(self, p, cls):
        if not p or "…" in p:
            return False
        i = len(p)
        while i and p[i - 1] == "*":
            i -= 1
        if i:
            ks = self.tails.get(p[i - 1:], ())
            return bool(ks) and (cls is None or i > 1 or None in ks or any(k in ks for k in cls.family()))
        if cls is None:
            return len(p) == 1      # children of an element
        if p in self.own.get(cls, ()):
            return True
        return any(self.nested.get(k, 0) > len(p) for k in cls.family())


def strip(t):
    """(what is stored into, '*' for every subscript)"""
    tail = ()
    while isinstance(t, ast.Subscript):
        if not isinstance(t.slice, ast.Slice):
            tail = ("*",) + tail
        t = t.value
    return t, tail


def depth(v):
    """how many levels of containers a display has"""
    if isinstance(v, (ast.List, ast.Set, ast.Tuple)):
        return (0 if isinstance(v, ast.Tuple) and not v.elts else 1) + max([depth(e) for e in v.elts] or [0])
    if isinstance(v, ast.Dict):
        return 1 + max([depth(e) for e in v.values] or [0])
    if isinstance(v, (ast.ListComp, ast.SetComp)):
        return 1 + depth(v.elt)
    if isinstance(v, ast.DictComp):
        return 1 + depth(v.value)
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult):
        return max(depth(v.left), depth(v.right))
    if isinstance(v, ast.IfExp):
        return max(depth(v.body), depth(v.orelse))
    if isinstance(v, ast.BoolOp):
        return max(depth(e) for e in v.values)
    return 1 if mutable_expr(v) else 0


def container(c):
    return any(b.split(".")[-1] in CONTAINERS for k in c.mro() for b in k.basenames)


def whole(f):
    """the function copies all fields at once"""
    for n in walk_own(f.node):
        if isinstance(n, ast.Attribute) and n.attr == "__dict__" or isinstance(n, ast.Call) and (dotted(n.func) or "") in ("vars", "copy.copy"):
            return n
    return None


def run(prj, fold, rep):
    fl = flow(prj, fold)
    kinds = Kinds(prj, fl)
    rep.rule("the result of a copying function holds nothing of its source that can be changed in place")
    n = 0
    for f in [f for f in prj.funcs if not f.module.is_script]:
        if f.is_lambda or not NAME.match(f.name):
            continue
        s = fl.sum[f]
        method = f.cls is not None and not f.is_static and not f.is_classmethod
        params = [p for p in f.params if p != f.selfname] if f.cls is not None and not f.is_static else list(f.params)
        if method and (not params or f.defaults.get(params[0]) is not None or f.name in ("copy", "clone", "__copy__", "__deepcopy__")):
            src, cls = f.selfname, f.cls
        elif params:
            src, cls = params[0], None
        else:
            continue
        if not (s.fresh or s.ret):
            continue
        if cls is None and not isnode(prj, f, src):
            continue
        n += 1
        rep.site("%s:%s %s copies %s" % (f.module.path, f.node.lineno, f.qual, src))
        for t in sorted(s.ret, key=repr):
            if t == ("p", src, ()):
                at = next((r for r in walk_own(f.node) if isinstance(r, ast.Return) and t in fl.vals.get(r.value, ())), f.node)
                if cls is None or container(cls) or any(kinds.mutable((a,), cls) for k in cls.mro() for a in list(k.selfattrs) + list(k.attrs)):
                    rep.finding("same", f, src, "%s itself is given back instead of a copy" % src, at)
        shared = {t for t in s.cont if t[0] == "p" and t[1] == src}
        if whole(f) is not None and cls is not None and not container(cls):
            shared = {t for t in shared if t[-1] != ("*",)}
            kept = {x.attr for x in walk_own(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
            for k in cls.mro():
                for a in k.selfattrs:
                    if a not in kept:
                        shared.add(("p", src, (a,)))
        told = set()
        for t in sorted(shared, key=lambda t: (len(t[-1]), repr(t))):
            rep.count("parts_held")
            fld = next((x for x in reversed(t[-1]) if x not in "*…"), None)
            if kinds.mutable(t[-1], cls) and fld not in told:
                told.add(fld)
                rep.finding("shared", f, show(t), "the copy holds %s itself, so changing one changes the other" % show(t), site(f, t))
        for t in sorted(s.mut, key=repr):
            tok, kind = t
            if tok[0] == "p" and tok[1] == src and (kind == "items" or kind.startswith("attr:")) and not kind.endswith("Hash"):
                g, at = s.mut[t]
                rep.finding("source", f, show(tok), "copying changes %s of the source" % show(tok), at if g is f else f.node)
    rep.count("copying_functions", n)
    if not n:
        raise AnchorLost("no copying function")


def site(f, t):
    fld = next((x for x in reversed(t[-1]) if x not in "*…"), None)
    best = None
    for n in walk_own(f.node):
        if isinstance(n, ast.Attribute) and n.attr == fld and isinstance(n.ctx, ast.Load):
            best = n
        if isinstance(n, ast.Constant) and n.value == fld and best is None:
            best = n
    return best or f.node


def isnode(prj, f, p):
    """the parameter is used as an object with fields, not as a plain value"""
    return any(isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p and n.attr in ("attrib", "tag", "makeelement", "text", "alternates") for n in walk_own(f.node))


A = "class A:\n    def __init__(self, name=None, parts=None, ext=None):\n        self.name = name\n        self.parts = parts\n        self.ext = ext\n    def add(self, x):\n        self.parts.append(x)\n        self.ext.setdefault(x, []).append(x)\n"
K = "class K(list):\n    def copy(self):\n        return %s\ndef start():\n    return K([[1], [0], [0]])\n"
N = "class D:\n    def _copynode(self, n, parent=None):\n        res = n.makeelement(n.tag, n.attrib)\n        res.text = n.text\n        if hasattr(n, 'comments'):\n            res.comments = %s\n        for c in n:\n            res.append(%s)\n        return res\n    def note(self, n, x):\n        n.comments.append(x)\n"
EXAMPLES = [
 ("deep", {"lib/sldr/a.py": A + "    def copy(self):\n        return A(self.name, list(self.parts), {k: list(v) for k, v in self.ext.items()})\n"}, False),
 ("type(self)", {"lib/sldr/a.py": A + "    def copy(self):\n        r = type(self)(self.name)\n        r.parts = list(self.parts)\n        r.ext = {k: v[:] for k, v in self.ext.items()}\n        return r\n"}, False),
 ("list shared", {"lib/sldr/a.py": A + "    def copy(self):\n        return A(self.name, self.parts, {k: list(v) for k, v in self.ext.items()})\n"}, ["shared"]),
 ("list shared by setattr", {"lib/sldr/a.py": A + "    def copy(self):\n        r = type(self)()\n        for a in ('name', 'parts'):\n            setattr(r, a, getattr(self, a))\n        return r\n"}, ["shared"]),
 ("lists of a dictionary shared", {"lib/sldr/a.py": A + "    def copy(self):\n        return A(self.name, list(self.parts), dict(self.ext))\n"}, ["shared"]),
 ("shallow", {"lib/sldr/a.py": "import copy\n" + A + "    def copy(self):\n        return copy.copy(self)\n"}, ["shared", "shared"]),
 ("shallow and then the lists", {"lib/sldr/a.py": "import copy\n" + A + "    def copy(self):\n        r = copy.copy(self)\n        r.parts = list(self.parts)\n        r.ext = {k: list(v) for k, v in self.ext.items()}\n        return r\n"}, False),
 ("deepcopy", {"lib/sldr/a.py": "import copy\n" + A + "    def copy(self):\n        return copy.deepcopy(self)\n"}, False),
 ("itself", {"lib/sldr/a.py": A + "    def copy(self):\n        if not self.parts:\n            return self\n        return A(self.name, list(self.parts), {})\n"}, ["same"]),
 ("levels copied", {"lib/sldr/a.py": K % "self.__class__([v.copy() for v in self])"}, False),
 ("levels sliced", {"lib/sldr/a.py": K % "K(v[:] for v in self)"}, False),
 ("levels shared", {"lib/sldr/a.py": K % "self.__class__(self)"}, ["shared"]),
 ("levels shared by slice", {"lib/sldr/a.py": K % "K(self[:])"}, ["shared"]),
 ("element copied", {"lib/sldr/a.py": N % ("list(n.comments)", "self._copynode(c, res)")}, False),
 ("comments shared", {"lib/sldr/a.py": N % ("n.comments", "self._copynode(c, res)")}, ["shared"]),
 ("children shared", {"lib/sldr/a.py": N % ("n.comments[:]", "c")}, ["shared"]),
 ("strings only", {"lib/sldr/a.py": "class A:\n    def __init__(self, a):\n        self.a = a\n    def copy(self):\n        return A(self.a)\n"}, False),
]
