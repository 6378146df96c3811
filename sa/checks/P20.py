"""P20: dry runs write no data; opt-in deletions are guarded and limited to output files without a source."""
import ast, re
from ..core import text, walk_own, bind, parents, dotted, Func
from ..consts import UNKNOWN, callers, single_assignment
from ..facts import FactWalker, atoms
from ..noret import noreturn
from ..reach import reach

TECHNIQUE = "must-fact dataflow of command-line options to every file effect, across calls; provenance of the deleted path and of the set of files to delete"
NOTE = "Options are recognised by their names and help texts in argparse. Effects of external programs started by a tool are not judged."

DRY = re.compile(r"^(dry_?run|no_?op|no_?write|simulate|pretend)$", re.I)
DEL = re.compile(r"remov|delet|prune|purge|clean", re.I)
WRITES = {"os.unlink", "os.remove", "os.rename", "os.replace", "os.makedirs", "os.mkdir", "os.rmdir", "os.removedirs", "os.truncate", "os.link", "os.symlink",
          "os.utime", "os.chmod", "shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.copytree", "shutil.move", "shutil.rmtree"}
DELETES = {"os.unlink", "os.remove", "os.rmdir", "os.removedirs", "shutil.rmtree"}
PATHM = {"write_text", "write_bytes", "touch", "unlink", "rmdir", "mkdir", "rename"}


def options(prj, m):
    """dest -> (action, help) of the add_argument calls of a script"""
    res = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
            names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            kw = {k.arg: k.value.value for k in n.keywords if isinstance(k.value, ast.Constant)}
            if not names:
                continue
            longs = [x for x in names if x.startswith("--")] or [x for x in names if x.startswith("-")] or names
            dest = kw.get("dest") or longs[0].lstrip("-").replace("-", "_")
            res[dest] = (kw.get("action", "store"), kw.get("help") or "", names)
    return res


def opened_for_writing(prj, fold, n, f):
    e = prj.ext_name(n.func, f, f.module) or ""
    mode = None
    if e in ("builtins.open", "io.open", "codecs.open", "gzip.open", "bz2.open", "zipfile.ZipFile", "tarfile.open"):
        mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "mode"), None)
    elif isinstance(n.func, ast.Attribute) and n.func.attr == "open" and not e:
        mode = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == "mode"), None)
    if mode is None:
        return False
    v = fold.value(mode, f)
    return isinstance(v, str) and any(c in v for c in "wax+")


class Effects:
    def __init__(self, prj, fold):
        self.prj, self.fold = prj, fold
        self.memo = {}

    def direct(self, n, f):
        """(kind, path expression) of a call that changes files itself"""
        e = self.prj.ext_name(n.func, f, f.module) or ""
        if e in WRITES:
            return ("delete" if e in DELETES else "write"), (n.args[0] if n.args else None)
        if opened_for_writing(self.prj, self.fold, n, f):
            return "write", (n.args[0] if n.args and not (isinstance(n.func, ast.Attribute) and n.func.attr == "open" and not e) else getattr(n.func, "value", None))
        if isinstance(n.func, ast.Attribute) and n.func.attr in PATHM and not e and not self.prj.callees(n, f, f.module)[0]:
            t = self.fold.value(n.func.value, f)
            return ("delete" if n.func.attr in ("unlink", "rmdir") else "write"), n.func.value
        return None

    def function(self, g):
        """the function (or something it calls) changes files"""
        if g not in self.memo:
            self.memo[g] = False
            r = False
            for h in self.prj.closure([g]):
                if any(isinstance(n, ast.Call) and self.direct(n, h) for n in walk_own(h.node, include_lambda=False)):
                    r = True
                    break
            self.memo[g] = r
        return self.memo[g]

    def of(self, n, f):
        d = self.direct(n, f)
        if d:
            return d
        gs, exact = self.prj.callees(n, f, f.module)
        lib = [g for g in gs if g.module is not f.module]
        if lib and any(self.function(g) for g in lib):
            b = bind(n, lib[0])
            p = n.args[0] if n.args else next((k.value for k in n.keywords), None)
            return "write", p
        if not gs and isinstance(n.func, ast.Attribute) and n.func.attr in ("save_as", "save") and n.args:
            return "write", n.args[0]
        return None


def opt_of(n, dests):
    """the option an expression reads: args.x, vars(args)['x'], getattr(args, 'x')"""
    if isinstance(n, ast.Attribute) and n.attr in dests and isinstance(n.value, (ast.Name, ast.Attribute)):
        return n.attr
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value in dests:
        return n.slice.value
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value in dests:
        return n.args[1].value
    return None


class Guards:
    def __init__(self, prj, fold, m):
        self.prj, self.fold, self.m = prj, fold, m
        self.at = {}
        for f in prj.funcs:
            if f.module is m and not f.is_lambda:
                w = self.walker(f)
                w.noreturn = noreturn(prj, f)
                w.run()

    def walker(self, f):
        at = self.at

        class W(FactWalker):
            def expr(s, n, facts):
                at[n] = (facts, f)
        return W(f)

    def says(self, fact_node, pol, dests, f, depth=4):
        """set of (option, truth) that a fact establishes"""
        o = opt_of(fact_node, dests)
        if o:
            return {(o, pol)}
        res = set()
        if isinstance(fact_node, ast.Compare) and len(fact_node.ops) == 1 and isinstance(fact_node.comparators[0], ast.Constant):
            o = opt_of(fact_node.left, dests)
            v = fact_node.comparators[0].value
            if o and isinstance(fact_node.ops[0], (ast.Is, ast.Eq)) and v in (True, False, None) or o and isinstance(fact_node.ops[0], (ast.IsNot, ast.NotEq)) and v in (True, False, None):
                eq = isinstance(fact_node.ops[0], (ast.Is, ast.Eq)) == pol
                if v is True:
                    return {(o, eq)}
                return {(o, not eq)}
        if isinstance(fact_node, ast.Name) and depth > 0:
            t = self.prj.lookup(fact_node.id, f, self.m)
            src, g = None, f
            if isinstance(t, tuple) and t[0] == "local":
                g = t[1]
                if fact_node.id in g.params:
                    cs = callers(self.prj).get(g, [])
                    out = None
                    for c, cf in cs:
                        a = bind(c, g).get(fact_node.id, g.defaults.get(fact_node.id))
                        s = set()
                        if a is not None:
                            for x in atoms(a, pol):
                                s |= self.says(x.node, x.pol, dests, cf, depth - 1)
                        out = s if out is None else out & s
                    return out or set()
                src = single_assignment(g, fact_node.id)
            elif isinstance(t, tuple) and t[0] == "global":
                ss = self.m.globals.get(fact_node.id, [])
                if len(ss) == 1 and isinstance(ss[0], ast.Assign):
                    src, g = ss[0].value, self.m.main
            if src is not None:
                for x in atoms(src, pol):
                    res |= self.says(x.node, x.pol, dests, g, depth - 1)
        if isinstance(fact_node, ast.Call) and depth > 0:
            gs, exact = self.prj.callees(fact_node, f, self.m)
            if exact and len(gs) == 1:
                rs = [x.value for x in walk_own(gs[0].node) if isinstance(x, ast.Return) and x.value is not None]
                if len(rs) == 1 and len([x for x in walk_own(gs[0].node) if isinstance(x, ast.Return)]) == 1:
                    for x in atoms(rs[0], pol):
                        res |= self.says(x.node, x.pol, dests, gs[0], depth - 1)
        return res

    def holds(self, n, want, dests, busy=()):
        """(option, truth) in want holds whenever n is evaluated"""
        facts, f = self.at.get(n, (None, None))
        if facts is None:
            for p in parents(n):
                if p in self.at:
                    facts, f = self.at[p]
                    break
                g = getattr(p, "_func", None)
                if g is not None:
                    f = g
                    facts = []
                    break
            else:
                return False
        for a in facts:
            if self.says(a.node, a.pol, dests, f) & want:
                return True
        if f is None or f is self.m.main or f in busy:
            return False
        refs = []
        for h in self.prj.funcs:
            if h.module is self.m:
                for x in walk_own(h.node):
                    if isinstance(x, ast.Name) and x.id == f.name and isinstance(x.ctx, ast.Load) and self.prj.lookup(x.id, h, self.m) is f:
                        refs.append(x)
                    elif f.cls is not None and isinstance(x, ast.Attribute) and x.attr == f.name and isinstance(x.ctx, ast.Load):
                        refs.append(x)
        if not refs:
            return f.name != "main" and False
        return all(self.holds(r, want, dests, busy + (f,)) for r in refs)


class Origin:
    """which options' values an expression is made from (reaching definitions for names, plus what is put into containers)"""
    def __init__(self, prj, m, dests):
        self.prj, self.m, self.dests = prj, m, dests
        self.deps, self.fill, self.use, self.params = {}, {}, {}, {}
        for f in prj.funcs:
            if f.module is not m:
                continue
            self.use.update(reach(f).use)
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.add(t, n.value)
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                    self.add(n.target, n.value)
                    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                        self.fill.setdefault(n.target.id, []).append(n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self.add(n.target, n.iter)
                elif isinstance(n, ast.With):
                    for i in n.items:
                        if i.optional_vars is not None:
                            self.add(i.optional_vars, i.context_expr)
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "append", "update", "extend", "insert", "setdefault"):
                        for x in ast.walk(n.func.value):
                            if isinstance(x, ast.Name):
                                self.fill.setdefault(x.id, []).extend(n.args)
                        for a in n.args:
                            self.add(n.func.value, a)
                    gs, exact = prj.callees(n, f, m)
                    for g in gs if exact else []:
                        if g.module is m:
                            for p, a in bind(n, g).items():
                                self.params.setdefault((g, p), []).append(a)
                                self.deps.setdefault(p, []).append(a)
                elif isinstance(n, ast.Return) and n.value is not None and not f.is_lambda:
                    self.deps.setdefault(f.name, []).append(n.value)

    def add(self, t, v):
        for x in ast.walk(t):
            if isinstance(x, ast.Name):
                self.deps.setdefault(x.id, []).append(v)
            elif isinstance(x, ast.Attribute):
                self.deps.setdefault("." + x.attr, []).append(v)

    def step(self, y):
        """expressions the value of a name or attribute is made from"""
        if isinstance(y, ast.Attribute):
            return self.deps.get("." + y.attr, [])
        ds = self.use.get(y)
        if ds is None:
            return self.deps.get(y.id, [])
        res = list(self.fill.get(y.id, ()))
        for d in ds:
            if d[0] in ("expr", "iter", "unpack") and d[1] is not None:
                res.append(d[1])
            elif d[0] == "undef":
                pass
            else:
                return self.deps.get(y.id, [])
        return res

    def of(self, n):
        res, todo, seen = set(), [n], set()
        while todo:
            x = todo.pop()
            for y in ast.walk(x):
                if y in seen:
                    continue
                seen.add(y)
                o = opt_of(y, self.dests)
                if o:
                    res.add(o)
                elif isinstance(y, (ast.Name, ast.Attribute)):
                    todo += self.step(y)
        return res


def join_root(prj, n, f, depth=5):
    """leading component of a path expression"""
    if depth <= 0:
        return n
    if isinstance(n, ast.Call):
        e = prj.ext_name(n.func, f, f.module) or ""
        if (e.startswith("os.path.") or e in ("pathlib.Path", "builtins.str", "os.fspath")) and n.args and e != "os.path.basename":
            return join_root(prj, n.args[0], f, depth)
        gs, exact = prj.callees(n, f, f.module)
        if exact and len(gs) == 1:
            g = gs[0]
            rs = [x.value for x in walk_own(g.node) if isinstance(x, ast.Return) and x.value is not None]
            if len(rs) == 1:
                r = join_root(prj, rs[0], g, depth - 1)
                if isinstance(r, ast.Name) and r.id in g.params:
                    a = bind(n, g).get(r.id)
                    return join_root(prj, a, f, depth - 1) if a is not None else r
                return r
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Div, ast.Mod)):
        return join_root(prj, n.left, f, depth)
    if isinstance(n, ast.JoinedStr) and n.values:
        v = n.values[0]
        return join_root(prj, v.value, f, depth) if isinstance(v, ast.FormattedValue) else v
    if isinstance(n, ast.Name):
        ds = reach(f).use.get(n)
        if ds and len(ds) == 1:
            d = next(iter(ds))
            if d[0] == "expr":
                return join_root(prj, d[1], f, depth - 1)
            if d[0] == "param":
                cs = callers(prj).get(f, [])
                if len(cs) == 1:
                    a = bind(cs[0][0], f).get(d[1])
                    if a is not None:
                        return join_root(prj, a, cs[0][1], depth - 1)
        elif ds is None:
            ss = f.module.globals.get(n.id, [])
            if len(ss) == 1 and isinstance(ss[0], ast.Assign):
                return join_root(prj, ss[0].value, f.module.main, depth - 1)
    return n


def names_of(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def has_exclusion(prj, m, f, n, facts, origin, source_ok, depth=6):
    """some name the deleted path is made from only takes values for which membership in the sources was ruled out"""
    for a in facts:
        c = a.node
        if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.In, ast.NotIn)) and isinstance(c.ops[0], ast.NotIn) == a.pol \
                and source_ok(c.comparators[0]):
            return True
        # a test that the source file does not exist
        if isinstance(c, ast.Call) and not a.pol and (prj.ext_name(c.func, f, m) or "") in ("os.path.exists", "os.path.isfile") and source_ok(c):
            return True
    todo, seen = set(names_of(n)), set()

    def expr_ok(e):
        for x in ast.walk(e):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Sub) and source_ok(x.right):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "difference" and any(source_ok(a) for a in x.args):
                return True
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in x.generators:
                    for t in g.ifs:
                        for at in atoms(t, True):
                            c = at.node
                            if isinstance(c, ast.Compare) and isinstance(c.ops[0], (ast.In, ast.NotIn)) and isinstance(c.ops[0], ast.NotIn) == at.pol and source_ok(c.comparators[0]):
                                return True
            if isinstance(x, ast.Call) and depth > 0:
                gs, exact = prj.callees(x, f, m)
                for g in gs if exact else []:
                    rs = [r.value for r in walk_own(g.node) if isinstance(r, ast.Return) and r.value is not None]
                    if rs and all(expr_ok(r) for r in rs):
                        return True
        return False
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        for g in prj.funcs:
            if g.module is not m:
                continue
            for x in walk_own(g.node):
                if isinstance(x, (ast.For, ast.comprehension)) and k in names_of(x.target):
                    if expr_ok(x.iter):
                        return True
                    todo |= names_of(x.iter)
                elif isinstance(x, ast.Assign) and any(k in names_of(t) for t in x.targets):
                    if expr_ok(x.value):
                        return True
                    todo |= names_of(x.value)
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == k and isinstance(x.op, ast.Sub) and source_ok(x.value):
                    return True
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == k:
                    if x.func.attr in ("difference_update",) and any(source_ok(a) for a in x.args):
                        return True
                    if x.func.attr in ("discard", "remove") and x.args and source_ok(x.args[0]):
                        return True
                elif isinstance(x, ast.Call):
                    gs, exact = prj.callees(x, g, m)
                    for h in gs if exact else []:
                        if h.module is m and k in h.params:
                            a = bind(x, h).get(k)
                            if a is not None:
                                if expr_ok(a):
                                    return True
                                todo |= names_of(a)
    return False


def run(prj, fold, rep):
    rep.rule("with a dry-run option every file effect is under its negation; opt-in deletions are under their option, inside the output directory, of files without source")
    eff = Effects(prj, fold)
    for m in prj.modules.values():
        if not m.is_script:
            continue
        opts = options(prj, m)
        dests = set(opts)
        dry = {d for d in dests if DRY.match(d) and opts[d][0] in ("store_true", "store_const", "count")}
        neg = {d for d in dests if DRY.match(d) and opts[d][0] == "store_false"}
        dels = {d for d in dests if opts[d][0] == "store_true" and (DEL.search(d) or re.search(r"\b(remove|delete)\b.*\bfiles?\b", opts[d][1], re.I)) and d not in dry}
        if not dry and not neg and not dels:
            continue
        gu = Guards(prj, fold, m)
        org = Origin(prj, m, dests)
        writes = []
        for f in prj.funcs:
            if f.module is not m:
                continue
            for n in walk_own(f.node, include_lambda=False):
                if isinstance(n, ast.Call):
                    e = eff.of(n, f)
                    if e:
                        writes.append((n, f, e[0], e[1]))
        outroots = set()
        for n, f, kind, p in writes:
            if kind == "write" and p is not None:
                outroots |= {opt_of(join_root(prj, p, f), dests)} - {None}
        for n, f, kind, p in writes:
            if dry or neg:
                rep.count("effects_under_dry_run")
                root = opt_of(join_root(prj, p, f), dests) if p is not None else None
                if root is not None and opt_of(resolve(prj, p, f), dests) == root and root not in data_dirs(prj, m, dests, org):
                    rep.site("%s: %s writes the file named by --%s" % (f.where(), text(n), root))
                else:
                    want = {(d, False) for d in dry} | {(d, True) for d in neg}
                    if not gu.holds(n, want, dests):
                        rep.finding("dry-run", f, text(n), "file effect that also happens when --%s is given" % "/".join(sorted(dry | neg)), n)
            if dels and kind == "delete":
                rep.count("deletions")
                if not gu.holds(n, {(d, True) for d in dels}, dests):
                    rep.finding("opt-in", f, text(n), "files are deleted although --%s was not given" % "/".join(sorted(dels)), n)
                if p is None:
                    continue
                root = opt_of(join_root(prj, p, f), dests)
                org_p = org.of(p)
                if root is not None and root not in outroots:
                    rep.finding("outside-output", f, text(n), "deletes below --%s, where the tool writes nothing" % root, n)
                    continue
                elif root is None and org_p and not (org_p & outroots):
                    rep.finding("outside-output", f, text(n), "the deleted path does not come from the output directory", n)
                if any(isinstance(x, ast.Constant) and isinstance(x.value, str) and ".." in x.value for x in ast.walk(resolve(prj, p, f))):
                    rep.finding("outside-output", f, text(n), "the deleted path can leave the output directory", n)
                if root is None:
                    root = next(iter(org_p & outroots), None)

                def source_ok(e):
                    o = org.of(e)
                    return not o or bool(o - {root} - dels)
                facts = gu.at.get(n, ([], f))[0]
                if not has_exclusion(prj, m, f, p, facts, org, source_ok):
                    rep.finding("has-source", f, text(n), "nothing keeps files that have a source from being deleted", n)


def resolve(prj, p, f, depth=4):
    while isinstance(p, ast.Name) and depth:
        ds = reach(f).use.get(p)
        if ds and len(ds) == 1 and next(iter(ds))[0] == "expr":
            p = next(iter(ds))[1]
        else:
            break
        depth -= 1
    return p


def data_dirs(prj, m, dests, org):
    """options used as directories (first argument of a join, listdir, walk)"""
    res = set()
    for f in prj.funcs:
        if f.module is not m:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and n.args and (prj.ext_name(n.func, f, m) or "") in ("os.path.join", "os.listdir", "os.walk", "os.scandir", "glob.glob"):
                o = opt_of(n.args[0], dests)
                if o:
                    res.add(o)
    return res


S = "scripts/t"
PRE = "#!/usr/bin/env python3\nimport os, argparse\nfrom sldr.l import Ldml\nparser = argparse.ArgumentParser()\nparser.add_argument('indir')\nparser.add_argument('outdir')\nparser.add_argument('-o', '--output')\nparser.add_argument('-n', '--dryrun', action='store_true')\nargs = parser.parse_args()\n"
LIB = "class Ldml:\n    def __init__(self, f):\n        self.f = f\n    def save_as(self, f):\n        with open(f, 'w', encoding='utf-8') as o:\n            o.write('x')\n"
PRE2 = "#!/usr/bin/env python3\nimport os, argparse\nparser = argparse.ArgumentParser()\nparser.add_argument('indir')\nparser.add_argument('outdir')\nparser.add_argument('-r', '--remove', action='store_true', help='Remove existing files')\nargs = parser.parse_args()\nsrc = set()\nfor l in os.listdir(args.indir):\n    src.add(l)\nfor l in src:\n    with open(os.path.join(args.outdir, l), 'w') as f:\n        f.write('x')\nhave = set(os.listdir(args.outdir))\n"


def ex(s, pre=PRE):
    return {S: pre + s, "lib/sldr/l.py": LIB}


EXAMPLES = [
    ("continue guard", ex("for p in os.listdir(args.outdir):\n    if args.dryrun:\n        continue\n    l = Ldml(p)\n    l.save_as(os.path.join(args.outdir, p))\n"), False),
    ("no guard", ex("for p in os.listdir(args.outdir):\n    l = Ldml(p)\n    l.save_as(os.path.join(args.outdir, p))\n"), ["dry-run"]),
    ("weak guard", ex("for p in os.listdir(args.outdir):\n    if args.dryrun and args.output:\n        continue\n    l = Ldml(p)\n    l.save_as(os.path.join(args.outdir, p))\n"), ["dry-run"]),
    ("report file", ex("if args.output:\n    with open(args.output, 'w') as f:\n        f.write('x')\n"), False),
    ("makedirs before the guard", ex("os.makedirs(os.path.join(args.outdir, 'x'))\nif not args.dryrun:\n    Ldml('x').save_as(args.outdir)\n"), ["dry-run"]),
    ("helper", ex("def doit(p):\n    l = Ldml(p)\n    l.save_as(os.path.join(args.outdir, p))\nfor p in os.listdir(args.outdir):\n    if not args.dryrun:\n        doit(p)\n"), False),
    ("helper, one call unguarded", ex("def doit(p):\n    l = Ldml(p)\n    l.save_as(os.path.join(args.outdir, p))\ndoit('x')\nfor p in os.listdir(args.outdir):\n    if not args.dryrun:\n        doit(p)\n"), ["dry-run"]),
    ("flag copied", ex("write = not args.dryrun\nfor p in os.listdir(args.outdir):\n    if write:\n        Ldml(p).save_as(os.path.join(args.outdir, p))\n"), False),
    ("remove good", ex("if args.remove:\n    for l in have - src:\n        fp = os.path.join(args.outdir, l)\n        if os.path.exists(fp):\n            os.unlink(fp)\n", PRE2), False),
    ("remove not in", ex("for l in have:\n    if args.remove and l not in src:\n        os.remove(os.path.join(args.outdir, l))\n", PRE2), False),
    ("remove unguarded", ex("for l in have - src:\n    os.unlink(os.path.join(args.outdir, l))\n", PRE2), ["opt-in"]),
    ("swapped difference", ex("if args.remove:\n    for l in src - have:\n        os.unlink(os.path.join(args.outdir, l))\n", PRE2), ["has-source"]),
    ("no difference", ex("if args.remove:\n    for l in have:\n        os.unlink(os.path.join(args.outdir, l))\n", PRE2), ["has-source"]),
    ("source tree", ex("if args.remove:\n    for l in have - src:\n        os.unlink(os.path.join(args.indir, l))\n", PRE2), ["outside-output"]),
    ("in function", ex("def prune(names):\n    for l in names:\n        os.unlink(os.path.join(args.outdir, l))\nif args.remove:\n    prune(have - src)\n", PRE2), False),
]
