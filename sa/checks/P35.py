"""P35: every command-line option takes effect, as the kind of value it is."""
import ast
from ..core import text, walk_own, parents, bind, Func
from ..reach import reach

TECHNIQUE = "def-use analysis from each declared option to the places that use its value, kind inference from its declaration, and comparison of the calls made with and without worker processes"
NOTE = ("What the value does further on in the library is judged by P32. An option read anywhere on any path counts as having an effect. Options whose name is not spelled out, or that the tool gives values of its own, are judged "
        "only for being read.")

POOL = {"map", "map_async", "imap", "imap_unordered", "starmap", "starmap_async", "apply", "apply_async", "submit"}
ARITH = (ast.Sub, ast.Div, ast.FloorDiv, ast.Pow, ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)
ORDER = (ast.Lt, ast.LtE, ast.Gt, ast.GtE)
PY = {"str": str, "int": int, "float": float, "bool": bool, "list": list}
PATHS = {"os.path.join", "os.path.exists", "os.path.dirname", "os.path.basename", "os.path.abspath", "os.path.splitext", "os.path.isdir", "os.path.isfile", "builtins.open", "io.open", "codecs.open", "os.makedirs"}


class Option:
    def __init__(self, call, names, kw, func):
        self.call, self.names, self.kw, self.func = call, names, kw, func
        longs = [x for x in names if x.startswith("--")] or [x for x in names if x.startswith("-")] or names
        d = self.const("dest")
        self.dest = d if isinstance(d, str) else longs[0].lstrip("-").replace("-", "_")
        self.action = self.const("action", "store")
        self.positional = not names[0].startswith("-")
        self.kind = self.kindof()

    def const(self, k, default=None):
        v = self.kw.get(k)
        if v is None:
            return default
        return v.value if isinstance(v, ast.Constant) else Ellipsis

    def kindof(self):
        if self.action in ("store_true", "store_false"):
            return "bool"
        if self.action == "count":
            return "int"
        if self.action in ("append", "extend", "append_const"):
            return "list"
        if self.action != "store":
            return None
        na = self.const("nargs")
        if na is not None and na != "?":
            return "list"
        t = self.kw.get("type")
        if t is None:
            return "str"
        return t.id if isinstance(t, ast.Name) and t.id in ("str", "int", "float") else None

    @property
    def maynone(self):
        """left at None when it is not given"""
        if "default" in self.kw and self.const("default") is not None:
            return False
        if self.positional:
            return self.const("nargs") == "?"
        return self.action in ("store", "append", "extend") and self.const("required") in (None, False)


class Tool:
    def __init__(self, prj, rep, m, calls):
        self.prj, self.rep, self.m = prj, rep, m
        self.funcs = [f for f in prj.funcs if f.module is m]
        self.options, self.vague = [], False
        for n in calls:
            names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            kw = {k.arg: k.value for k in n.keywords}
            if not names or len(names) != len(n.args) or None in kw:
                self.vague = True
                continue
            if isinstance(kw.get("action"), ast.Constant) and kw["action"].value in ("help", "version"):
                continue
            self.options.append(Option(n, names, kw, prj.scope_of(n) or m.main))
        self.spaces()
        self.reads, self.stores = {}, {}
        for f in self.funcs:
            for n in walk_own(f.node):
                d = self.dest(n, f)
                if d:
                    st = isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)) or isinstance(n, ast.Call) and n.func.id == "setattr"
                    (self.stores if st else self.reads).setdefault(d, []).append((n, f))

    # -- where the values of the options are
    def key(self, name, f):
        t = self.prj.lookup(name, f, self.m)
        if isinstance(t, tuple) and t and t[0] == "local":
            return (t[1], name)
        return (None, name)

    def isspace(self, n, f):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            return n.func.attr == "parse_args"
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute):
            return n.value.func.attr == "parse_known_args"
        if isinstance(n, ast.Name):
            return self.key(n.id, f) in self.space
        if isinstance(n, ast.Attribute):
            return ("attr", n.attr) in self.space
        if isinstance(n, ast.Call):
            fs = self.prj.callees(n, f, self.m)[0]
            return bool(fs) and all(("ret", g) in self.space for g in fs)
        return False

    def spaces(self):
        self.space, self.whole = set(), False
        while True:
            old = len(self.space)
            for f in self.funcs:
                for n in walk_own(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "parse_known_args" and t.elts:
                                t = t.elts[0]
                            elif not self.isspace(n.value, f):
                                continue
                            if isinstance(t, ast.Name):
                                self.space.add(self.key(t.id, f))
                            elif isinstance(t, ast.Attribute):
                                self.space.add(("attr", t.attr))
                    elif isinstance(n, ast.Return) and n.value is not None and self.isspace(n.value, f):
                        self.space.add(("ret", f))
                    elif isinstance(n, ast.Call):
                        for g in self.prj.callees(n, f, self.m)[0]:
                            for p, a in bind(n, g).items():
                                if self.isspace(a, f):
                                    if g.module is self.m and p in g.locals or p in g.allparams:
                                        self.space.add((g, p))
            if len(self.space) == old:
                break
        for f in self.funcs:
            for n in walk_own(f.node):
                if (isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) or isinstance(n, (ast.Call, ast.Subscript))) and self.isspace(n, f) and self.escapes(n, f):
                    self.whole = True

    def escapes(self, n, f):
        p = n._parent
        if self.shown(n):
            return False
        if isinstance(p, ast.Attribute):
            return p.attr in ("__dict__", "_get_kwargs")
        if isinstance(p, ast.Assign) or isinstance(p, ast.Return) or isinstance(p, (ast.Compare, ast.Expr)):
            return False
        if isinstance(p, ast.keyword):
            if p.arg is None:
                return True
            p = p._parent
        if isinstance(p, ast.Call):
            if isinstance(p.func, ast.Name) and p.func.id in ("getattr", "setattr", "hasattr") and len(p.args) > 1 and isinstance(p.args[1], ast.Constant):
                return False
            fs = self.prj.callees(p, f, self.m)[0]
            return not fs or any(g.module is not self.m for g in fs)
        return True

    def shown(self, n):
        """all the options are printed"""
        for p in parents(n):
            if isinstance(p, ast.FormattedValue):
                return True
            if isinstance(p, ast.Call):
                nm = p.func.attr if isinstance(p.func, ast.Attribute) else getattr(p.func, "id", "")
                if nm in ("print", "debug", "info", "pprint", "repr", "str", "format"):
                    return True
                if nm != "vars":
                    return False
            elif not isinstance(p, ast.keyword):
                return False
        return False

    def dest(self, n, f):
        if isinstance(n, ast.Attribute) and self.isspace(n.value, f):
            return n.attr
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "setattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and self.isspace(n.args[0], f):
            return n.args[1].value
        return None

    # -- is the value used?
    def effect(self, n, f, o):
        p, c = n._parent, n
        while isinstance(p, (ast.BoolOp, ast.UnaryOp, ast.Compare, ast.BinOp, ast.IfExp, ast.Subscript, ast.Starred, ast.NamedExpr, ast.Tuple, ast.List)):
            if isinstance(p, ast.NamedExpr):
                return True
            if isinstance(p, ast.BoolOp) and c is not p.values[-1] and any(isinstance(x, ast.Call) for v in p.values for x in ast.walk(v)):
                return True
            c, p = p, p._parent
        if isinstance(p, ast.Expr):
            return False
        if isinstance(p, ast.If) and c is p.test:
            body = p.body + p.orelse
            return any(not self.nothing(s, f, o) for s in body)
        if isinstance(p, ast.While) and c is p.test:
            return True
        if isinstance(p, (ast.Assign, ast.AnnAssign)) and c is p.value:
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            if all(isinstance(t, ast.Name) for t in ts):
                return any(self.seen(t.id, p.value, f) for t in ts)
            if all(self.dest(t, f) == o.dest for t in ts):
                return False
        return True

    def seen(self, name, value, f):
        """does the value assigned to the variable get anywhere?"""
        k = self.key(name, f)
        for g in self.funcs:
            for x in walk_own(g.node):
                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and self.key(name, g) == k:
                    if g is not f:
                        return True
                    ds = reach(f).use.get(x)
                    if ds is None or any(d[1] is value or d[0] == "other" for d in ds):
                        return True
        return False

    def nothing(self, s, f, o):
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return True
        if isinstance(s, ast.Assign) and all(self.dest(t, f) == o.dest for t in s.targets) and len(self.reads.get(o.dest, ())) == sum(1 for n, g in self.reads.get(o.dest, ()) if any(q is s._parent for q in parents(n))):
            return True
        return False

    def judge(self):
        rep = self.rep
        rep.count("tools")
        for o in self.options:
            rep.count("options")
            reads = self.reads.get(o.dest, [])
            if self.whole and not reads:
                continue
            self.fixed(o)
            if not reads:
                rep.finding("no-effect", o.func, o.names[-1], "nothing reads the option %s" % o.names[-1], o.call)
                continue
            rep.count("uses of options", len(reads))
            if not any(self.effect(n, f, o) for n, f in reads):
                rep.finding("no-effect", o.func, o.names[-1], "what is read of the option %s is not used for anything" % o.names[-1], o.call)
            if self.overwritten(o, reads):
                rep.finding("no-effect", o.func, o.names[-1], "the option %s is overwritten before anything reads it" % o.names[-1], o.call)
                continue
            stores = self.stores.get(o.dest, [])
            if all(self.filled(n, f, o) for n, f in stores):
                for n, f in reads:
                    self.use(n, f, o)
                if o.maynone and not stores and not self.whole and not any(self.tested(n) for n, f in reads):
                    for n, f in reads:
                        if self.needs(n, f):
                            rep.finding("not-given", f, text(n), "the option %s need not be given, and is used without asking whether it was" % o.names[-1], n)
                            break
        self.modes()

    def fixed(self, o):
        d = o.const("default")
        if o.action == "store_true" and d is True or o.action == "store_false" and d is False and "default" in o.kw or o.action == "store_const" and "const" in o.kw and d is not Ellipsis and d == o.const("const"):
            self.rep.finding("no-effect", o.func, o.names[-1], "the option %s has the value it would have anyway" % o.names[-1], o.call)

    def overwritten(self, o, reads):
        for n, f in self.stores.get(o.dest, ()):
            s = n._parent
            if not isinstance(s, ast.Assign) or any(self.dest(x, f) == o.dest for x in ast.walk(s.value)):
                continue
            b = f.node.body if not f.is_lambda else []
            if s not in b or not any(self.parsed(x) for x in b[:b.index(s)]):
                continue
            start = next(i for i, x in enumerate(b) if self.parsed(x))
            before = [x for y in b[start:b.index(s)] if not isinstance(y, (ast.FunctionDef, ast.ClassDef)) for x in ast.walk(y)]
            if any(r is x for r, g in reads for x in before):
                continue
            called = {g for x in before if isinstance(x, ast.Call) for g in self.prj.callees(x, f, self.m)[0]}
            called = set(self.prj.closure(called)) | called if called else called
            if not any(g in called for r, g in reads):
                return True
        return False

    def parsed(self, s):
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("parse_args", "parse_known_args") for x in ast.walk(s))

    def filled(self, n, f, o):
        """a value given only where the option has none"""
        for p in parents(n):
            if isinstance(p, ast.If) and any(self.dest(x, f) == o.dest for x in ast.walk(p.test)):
                return not any(self.dest(x, f) == o.dest for s in [n._parent] if hasattr(s, "value") for x in ast.walk(s.value))
            if p is f.node:
                break
        return False

    def tested(self, n):
        c = n
        for p in parents(n):
            if isinstance(p, (ast.BoolOp, ast.Compare, ast.UnaryOp)) or isinstance(p, (ast.If, ast.IfExp, ast.While)) and c is p.test:
                return True
            if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name) and c is n:
                return True         # goes on under another name
            if isinstance(p, (ast.stmt, ast.Call)):
                return False
            c = p
        return False

    def needs(self, n, f):
        p = n._parent
        if isinstance(p, ast.Call) and n in p.args:
            e = self.prj.ext_name(p.func, f, self.m) or ""
            return e in PATHS
        if isinstance(p, ast.Attribute) and isinstance(p._parent, ast.Call) and p._parent.func is p:
            return True
        return isinstance(p, (ast.For, ast.comprehension)) and n is p.iter

    # -- is it used as the kind of value it is?
    def use(self, n, f, o):
        p, k, bad = n._parent, o.kind, None
        if k is None:
            return
        num = lambda x: isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool) or isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub) and num(x.operand)
        if isinstance(p, ast.Attribute) and p.value is n and isinstance(p.ctx, ast.Load):
            if not hasattr(PY[k], p.attr):
                bad = "has no %s" % p.attr
        elif isinstance(p, ast.BinOp):
            other = p.right if p.left is n else p.left
            if k in ("str", "list") and (isinstance(p.op, ARITH) or num(other) and isinstance(p.op, ast.Add) or isinstance(p.op, ast.Mod) and k == "list" and p.left is n):
                bad = "cannot be reckoned with"
            elif k in ("int", "float", "bool", "list") and isinstance(p.op, ast.Add) and isinstance(other, (ast.JoinedStr, ast.Constant)) and (isinstance(other, ast.JoinedStr) or isinstance(other.value, str)):
                bad = "cannot be added to a text"
        elif isinstance(p, ast.Compare) and len(p.ops) == 1:
            other = p.comparators[0] if p.left is n else p.left
            if num(other) and k in ("str", "list") and not isinstance(p.ops[0], (ast.In, ast.NotIn)):
                bad = "is compared with a number"
            elif isinstance(other, ast.Constant) and isinstance(other.value, str) and k in ("bool", "int", "float", "list") and isinstance(p.ops[0], (ast.Eq, ast.NotEq) + ORDER):
                bad = "is compared with a text"
            elif isinstance(p.ops[0], (ast.In, ast.NotIn)) and other is not n and p.comparators[0] is n and k in ("bool", "int", "float"):
                bad = "has nothing in it"
            ch = o.kw.get("choices")
            if not bad and isinstance(ch, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) for x in ch.elts) and isinstance(other, ast.Constant) and isinstance(other.value, str) \
                    and isinstance(p.ops[0], (ast.Eq, ast.NotEq)) and other.value not in [x.value for x in ch.elts] + [o.const("default")]:
                bad = "is never %r" % other.value
        elif isinstance(p, (ast.For, ast.comprehension)) and p.iter is n:
            if k == "str":
                bad = "is one text, whose characters are walked through"
            elif k != "list":
                bad = "has nothing in it to walk through"
        elif isinstance(p, ast.Subscript) and p.value is n and k in ("bool", "int", "float"):
            bad = "has no parts"
        elif isinstance(p, ast.Call) and n in p.args:
            e = self.prj.ext_name(p.func, f, self.m) or ""
            if isinstance(p.func, ast.Attribute) and p.func.attr in POOL and len(p.args) > 1 and p.args[1] is n and p.func.attr not in ("submit", "apply", "apply_async") and k != "list":
                bad = "is one value, and is shared out as if it were many"
            elif e in PATHS and k in ("bool", "int", "float", "list") and not (e.endswith("open") and k == "int"):
                bad = "is not the name of a file"
            elif e == "builtins.range" and k in ("str", "list", "float"):
                bad = "is not a number"
            elif e == "builtins.len" and k in ("bool", "int", "float"):
                bad = "has no length"
        if bad:
            self.rep.finding("kind", f, text(p) if not isinstance(p, (ast.For, ast.comprehension)) else text(n), "the option %s (%s) %s" % (o.names[-1], k, bad), n)

    # -- with and without worker processes
    def modes(self):
        flags = set()
        for f in self.funcs:
            for n in walk_own(f.node):
                if isinstance(n, ast.If):
                    ds = {self.dest(x, f) for x in ast.walk(n.test)} - {None}
                    if len(ds) == 1 and any(isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (x.func.id if isinstance(x.func, ast.Name) else x.func.attr) in ("Pool", "ProcessPoolExecutor", "ThreadPoolExecutor")
                                            for s in n.body + n.orelse for x in ast.walk(s)):
                        flags |= ds
                        self.rep.count("tools with worker processes")
                        self.workers(n, f)
        for f in self.funcs:
            for n in walk_own(f.node):
                if isinstance(n, (ast.If, ast.IfExp)) and {self.dest(x, f) for x in ast.walk(n.test)} & flags:
                    self.arms(n, f)

    def calls(self, arm, f):
        res = {}
        for s in arm if isinstance(arm, list) else [arm]:
            for x in ast.walk(s):
                if isinstance(x, ast.Call):
                    for g in self.prj.callees(x, f, self.m)[0]:
                        if not g.is_lambda:
                            res.setdefault(g, []).append(x)
        return res

    def arms(self, n, f):
        a, b = self.calls(n.body, f), self.calls(n.orelse, f)
        for g in a:
            if len(a[g]) == 1 and len(b.get(g, ())) == 1:
                if any(isinstance(v, ast.Starred) for c in (a, b) for v in c[g][0].args) or any(k.arg is None for c in (a, b) for k in c[g][0].keywords):
                    continue
                x, y = ({p: self.plain(v, f) for p, v in bind(c[g][0], g).items()} for c in (a, b))
                for p in sorted(set(x) | set(y)):
                    if p in x and p in y:
                        if ast.dump(x[p]) == ast.dump(y[p]) or not all(isinstance(v, ast.Constant) or self.dest(v, f) for v in (x[p], y[p])):
                            continue
                    elif self.default(g, p, ast.dump(x.get(p) or y.get(p)), False):
                        continue
                    self.rep.finding("mode", f, "%s(%s)" % (g.name, p), "%s is given another %s with worker processes than without" % (g.name, p), a[g][0])

    def default(self, g, p, v, both):
        """the same as not giving it"""
        if both or g.is_lambda:
            return False
        a = g.node.args
        ps = a.posonlyargs + a.args
        ds = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
        ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        return p in ds and ast.dump(ds[p]) == v

    def workers(self, n, f):
        """what is shared out is what is done one after the other otherwise"""
        for arm, other in ((n.body, n.orelse), (n.orelse, n.body)):
            if not other:
                continue
            for s in arm:
                for x in ast.walk(s):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in POOL and len(x.args) > 1 and x.func.attr not in ("submit", "apply", "apply_async", "starmap", "starmap_async"):
                        fn, it = x.args[0], x.args[1]
                        g = self.prj.lookup(fn.id, f, self.m) if isinstance(fn, ast.Name) else None
                        if not isinstance(g, Func):
                            continue
                        self.rep.count("jobs shared out")
                        its = []
                        for t in other:
                            for y in ast.walk(t):
                                if isinstance(y, ast.For) and self.does(y.body, g, f):
                                    its.append(y.iter)
                                elif isinstance(y, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and self.does([y.elt], g, f):
                                    its.append(y.generators[0].iter)
                                    if any(q.ifs for q in y.generators):
                                        its[-1] = y
                                elif isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "map" and len(y.args) == 2 and text(y.args[0]) == fn.id:
                                    its.append(y.args[1])
                        if not its:
                            if any(isinstance(y, (ast.Name)) and y.id == fn.id for t in other for y in ast.walk(t)):
                                continue
                            self.rep.finding("mode", f, fn.id, "%s is only done with worker processes" % fn.id, x)
                        elif not any(self.same(i, it, f) for i in its) and isinstance(it, (ast.Name, ast.Attribute)) and all(isinstance(i, (ast.Name, ast.Attribute, ast.Subscript, ast.ListComp, ast.GeneratorExp)) for i in its):
                            self.rep.finding("mode", f, text(it), "what is done with worker processes is not what is done without", x)

    def plain(self, n, f):
        """a variable that is given a value once stands for that value"""
        seen = 0
        while isinstance(n, ast.Name) and seen < 5:
            seen += 1
            k = self.key(n.id, f)
            vs = [a.value for g in self.funcs for a in walk_own(g.node) if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in a.targets) and self.key(n.id, g) == k]
            ws = [x for g in self.funcs for x in walk_own(g.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == n.id and self.key(n.id, g) == k]
            if len(vs) != 1 or len(ws) != 1 or not isinstance(vs[0], (ast.Name, ast.Attribute, ast.Constant)):
                break
            n = vs[0]
        return n

    def same(self, a, b, f):
        strip = lambda n: strip(n.args[0]) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("list", "sorted", "tuple", "iter", "enumerate") and len(n.args) else n
        a, b = (strip(self.plain(strip(x), f)) for x in (a, b))
        return ast.dump(a) == ast.dump(b)

    def does(self, body, g, f):
        return any(isinstance(x, ast.Call) and g in self.prj.callees(x, f, self.m)[0] for s in body for x in ast.walk(s))


def run(prj, fold, rep):
    rep.rule("the value of every option a tool declares reaches a call, a test that decides something or a result; it is not overwritten before, and is not the value it would have anyway; it is used as the kind of value "
             "its declaration makes it; where it may be left out that is asked about; and the option that turns worker processes off changes neither what is worked on nor what the work is given")
    for m in sorted(prj.modules.values(), key=lambda m: m.path):
        calls = [n for n in ast.walk(m.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add_argument", "add_option")]
        if calls:
            Tool(prj, rep, m, calls).judge()


A = "scripts/x"
BASE = '''#!/usr/bin/env python3
import os, argparse
from multiprocessing import Pool
parser = argparse.ArgumentParser()
parser.add_argument('infile')
parser.add_argument('-o', '--outdir', required=True)
parser.add_argument('-l', '--locale', action='append')
parser.add_argument('-s', '--single', action='store_true')
parser.add_argument('-r', '--reverse', action='store_true')
parser.add_argument('-k', '--kind', choices=['full', 'short'])
parser.add_argument('--debug', type=int, default=0)
args = parser.parse_args()
if not args.locale:
    args.locale = sorted(os.listdir(args.infile))
def work(l, rev=False, short=False):
    return l
def doit(l):
    if args.debug & 1:
        print(l)
    if args.single:
        r = work(l, rev=args.reverse, short=args.kind == 'short')
    else:
        r = work(l, rev=args.reverse, short=args.kind == 'short')
    with open(os.path.join(args.outdir, l), 'w', encoding='utf-8') as f:
        f.write(r)
if not args.single:
    pool = Pool()
    pool.map_async(doit, args.locale).get()
else:
    for l in args.locale:
        doit(l)
'''


def _e(name, want, *edits):
    s = BASE
    for a, b in edits:
        assert a in s, a
        s = s.replace(a, b)
    return (name, {A: s}, want)


_PA = "args = parser.parse_args()\n"
_REV = "rev=args.reverse, "
EXAMPLES = [
    _e("fine", False),
    _e("not read", ["no-effect"], (_REV, "")),
    _e("read and dropped", ["no-effect"], (_REV, ""), (_PA, _PA + "args.reverse\n")),
    _e("kept in a variable nothing reads", ["no-effect"], (_REV, ""), (_PA, _PA + "rev = args.reverse\n")),
    _e("kept in a variable", False, (_REV, "rev=rev, "), (_PA, _PA + "rev = args.reverse\n")),
    _e("tested for nothing", ["no-effect"], (_REV, ""), (_PA, _PA + "if args.reverse:\n    pass\n")),
    _e("overwritten", ["no-effect"], (_PA, _PA + "args.reverse = False\n")),
    _e("filled in", False, (_PA, _PA + "args.reverse = args.reverse or False\n")),
    _e("the value it has anyway", ["no-effect"], ("'--reverse', action='store_true'", "'--reverse', action='store_true', default=True")),
    _e("printed", ["no-effect"], (_REV, ""), (_PA, _PA + "print(args)\n")),
    _e("handed on whole", False, (_REV, ""), (_PA, _PA + "os.setup(args)\n")),
    _e("in main", False, (_PA, "def getargs():\n    return parser.parse_args()\nargs = getargs()\n")),
    _e("as a dictionary", False, (_PA, "args = vars(parser.parse_args())\n"), ("args.locale", "args['locale']"), ("args.infile", "args['infile']"), ("args.debug", "args['debug']"), ("args.single", "args['single']"),
       ("args.reverse", "args['reverse']"), ("args.kind", "args['kind']"), ("args.outdir", "args['outdir']")),
    _e("given to the work", False, (_REV, "rev=isrev(args), "), ("def work", "def isrev(a):\n    return a.reverse\ndef work")),
    _e("numbers", ["kind"], ("type=int, ", "")),
    _e("one text", ["kind"] * 2, ("'--locale', action='append'", "'--locale'")),
    _e("many", False, ("'--locale', action='append'", "'--locale', nargs='*'")),
    _e("a flag for a name", ["kind"], ("'--outdir', required=True", "'--outdir', action='store_true'")),
    _e("not a choice", ["kind"], ("['full', 'short']", "['full', 'brief']")),
    _e("not required", ["not-given"], ("'--outdir', required=True", "'--outdir'")),
    _e("has a default", False, ("'--outdir', required=True", "'--outdir', default='.'")),
    _e("asked about", False, ("'--outdir', required=True", "'--outdir'"), ("os.path.join(args.outdir, l)", "os.path.join(args.outdir or '.', l)")),
    _e("not for the workers", ["mode"], ("    else:\n        r = work(l, rev=args.reverse, ", "    else:\n        r = work(l, ")),
    _e("in another order", False, ("    else:\n        r = work(l, rev=args.reverse, short=args.kind == 'short')", "    else:\n        r = work(l, args.reverse, args.kind == 'short')")),
    _e("other work", ["mode"], ("    for l in args.locale:\n        doit", "    for l in args.locale[1:]:\n        doit")),
    _e("no work", ["mode"], ("    for l in args.locale:\n        doit(l)", "    pass")),
    _e("sorted first", False, ("    for l in args.locale:\n        doit", "    for l in sorted(args.locale):\n        doit")),
]
