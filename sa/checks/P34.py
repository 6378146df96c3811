"""P34: merging reports every change it makes."""
import ast
from ..core import text, walk_own, parents, bind, dotted
from ..paths import Paths, TooMany
from ..reach import reach
from ..noret import noreturn

TECHNIQUE = "interprocedural mutation summaries and a path-sensitive check that every path of a merging function on which the document is changed ends with a result that says so"
NOTE = ("A result that is worked out rather than recorded (a comparison, the size of what was added) is taken to be right. Comments, fingerprints and what merging notes about elements are not content. "
        "Reporting a change that was not made is not judged.")

MUT = {"append", "remove", "insert", "extend", "clear", "pop", "popitem", "set", "update", "setdefault", "discard", "add", "sort", "reverse", "__setitem__", "__delitem__"}
CONTENT = {"text", "tag", "attrib", "alternates"}
NOTES = {"comments", "commentsafter", "contentHash", "attrHash", "mergeOther", "mergeBase", "tail"}
FRESH = {"dict", "list", "set", "tuple", "sorted", "frozenset", "makeelement", "Element", "copy", "deepcopy", "defaultdict", "OrderedDict", "Counter", "str"}


class Mutation:
    """which functions change the content of what they are given"""
    def __init__(self, prj, fold):
        self.prj, self.fold = prj, fold
        self.funcs = [f for f in prj.funcs if not f.is_lambda and not isinstance(f.node, ast.Module) and not f.module.is_script]
        self.freshret = {}
        self.sites = {f: [n for n in walk_own(f.node) if self.site(n, f)] for f in self.funcs}
        self.mut = {f for f in self.funcs if self.sites[f]}
        while True:
            more = {f for f in self.funcs if f not in self.mut and any(self.calls(n, f) for n in walk_own(f.node) if isinstance(n, ast.Call))}
            if not more:
                break
            self.mut |= more

    def calls(self, n, f):
        """a call that changes something that is not the caller's own"""
        fs, exact = self.prj.callees(n, f, f.module)
        if not exact:
            fs = [g for g in fs if g.outer is f]
        for g in fs:
            if g in self.mut and g.name not in ("__init__", "__new__"):
                args = n.args + [k.value for k in n.keywords]
                if any(not self.fresh(a, f) and not isinstance(a, ast.Constant) for a in args):
                    return True
        return False

    def fresh(self, n, f, depth=4):
        """something made in the function itself"""
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        if isinstance(n, (ast.Dict, ast.List, ast.Set, ast.Tuple, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.Constant, ast.JoinedStr)):
            return True
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if nm in FRESH:
                return True
            if isinstance(n.func, ast.Name) and self.prj.resolve_class(n.func, f.module, f) is not None:
                return True
            fs = self.prj.callees(n, f, f.module)[0]
            return bool(fs) and depth > 0 and all(self.returnsfresh(g, depth - 1) for g in fs)
        if isinstance(n, ast.BoolOp):
            return all(self.fresh(v, f, depth) for v in n.values)
        if isinstance(n, ast.IfExp):
            return self.fresh(n.body, f, depth) and self.fresh(n.orelse, f, depth)
        if isinstance(n, ast.Name) and depth > 0:
            ds = [d for d in reach(f).use.get(n, ()) if d[0] != "undef"]
            if not ds:
                return False
            return all(d[0] == "expr" and isinstance(d[1], ast.AST) and self.fresh(d[1], f, depth - 1) or d[0] == "aug" for d in ds)
        return False

    def returnsfresh(self, g, depth):
        if g not in self.freshret:
            self.freshret[g] = False
            rs = [n.value for n in walk_own(g.node) if isinstance(n, ast.Return) and n.value is not None]
            self.freshret[g] = bool(rs) and all(self.fresh(r, g, depth) for r in rs)
        return self.freshret[g]

    def content(self, t, f):
        """is a store to the target a change of content of something that is not the function's own?"""
        if isinstance(t, (ast.Tuple, ast.List)):
            return any(self.content(x, f) for x in t.elts)
        if isinstance(t, ast.Starred):
            return self.content(t.value, f)
        if isinstance(t, ast.Attribute):
            return t.attr in CONTENT and not self.own(t.value, f)
        if isinstance(t, ast.Subscript):
            return not self.noted(t.value, f) and not self.own(t.value, f)
        return False

    def noted(self, n, f):
        while isinstance(n, (ast.Attribute, ast.Subscript)):
            if isinstance(n, ast.Attribute) and n.attr in NOTES:
                return True
            n = n.value
        return False

    def own(self, n, f):
        """made here, or part of the object that merges and not of a document"""
        if self.fresh(n, f):
            return True
        first = None
        while isinstance(n, (ast.Attribute, ast.Subscript)):
            first = n.attr if isinstance(n, ast.Attribute) else first
            n = n.value
        return isinstance(n, ast.Name) and n.id in (f.selfname, "cls") and first not in ("root", None)

    def names(self, n, f):
        if isinstance(n, ast.Constant):
            return {n.value}
        res = set()
        if isinstance(n, ast.Name):
            for d in reach(f).use.get(n, ()):
                if d[0] == "iter":
                    v = {x.value for x in d[1].elts if isinstance(x, ast.Constant)} if isinstance(d[1], (ast.Tuple, ast.List, ast.Set)) else self.fold.value(d[1], f)
                    res |= set(v) if isinstance(v, (set, tuple, list, frozenset)) else set()
        return res

    def site(self, n, f):
        if isinstance(n, (ast.Assign, ast.Delete)):
            return any(self.content(t, f) for t in n.targets)
        if isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            return n.value is not None and self.content(n.target, f)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            r = n.func.value
            if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "super":
                return False
            return not self.noted(r, f) and not self.own(r, f) and not (isinstance(r, ast.Name) and r.id in (f.selfname, "cls")) and (not isinstance(r, ast.Name) or r.id in f.locals or r.id in f.allparams)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and len(n.args) > 1:
            return not self.own(n.args[0], f) and bool(self.names(n.args[1], f) & CONTENT)
        return False


class Reporter:
    def __init__(self, prj, fold, rep):
        self.prj, self.rep = prj, rep
        self.m = Mutation(prj, fold)
        self.reporters, self.memo = {}, {}
        todo = []
        for f in self.m.funcs:
            if f in self.m.mut and f.cls is not None:
                if self.accs(f)[0] and self.recursive(f):
                    todo.append(f)
        while todo:
            f = todo.pop()
            if f in self.reporters:
                continue
            self.reporters[f] = self.accs(f)
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and self.where(n, f)[0] in ("reported", "test", "kept"):
                    todo += [g for g in self.callees(n, f) if g in self.m.mut and not g.is_lambda]

    def callees(self, n, f):
        fs, exact = self.prj.callees(n, f, f.module)
        return fs if exact else [g for g in fs if g.outer is f]

    def recursive(self, f):
        """does the function work its way down a document?"""
        return any(isinstance(n, ast.Call) and f in self.callees(n, f) for n in walk_own(f.node))

    def accs(self, f):
        """variables that record whether something changed: what is returned, and what goes into that"""
        if f in self.memo:
            return self.memo[f]
        rets = {n.value.id for n in walk_own(f.node) if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)}
        rets |= {x.id for n in walk_own(f.node) if isinstance(n, ast.Return) and isinstance(n.value, (ast.BoolOp, ast.BinOp)) for x in ast.walk(n.value) if isinstance(x, ast.Name)}
        false = {t.id for n in walk_own(f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is False for t in n.targets if isinstance(t, ast.Name)}
        # what it says about the children goes into the record, though what another function says is returned
        if not rets and any(isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and any(g in self.m.mut for g in self.callees(n.value, f)) for n in walk_own(f.node)):
            rets |= {n.target.id for n in walk_own(f.node) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.value, ast.Call) and f in self.callees(n.value, f)}
        res = rets & false
        while res:
            more = set()
            for n in walk_own(f.node):
                v = n.value if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in res else \
                    n.value if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in res for t in n.targets) else None
                if v is not None:
                    vs = [v] + (v.values if isinstance(v, ast.BoolOp) else [v.left, v.right] if isinstance(v, ast.BinOp) else [])
                    more |= {x.id for x in vs if isinstance(x, ast.Name)} & false
                if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and any(isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and t.id in res for t in b.targets) for b in n.body):
                    more |= {n.test.id} & false
            if more <= res:
                break
            res |= more
        self.memo[f] = (res, rets & false)
        return self.memo[f]

    def where(self, n, f):
        """where the result of a call goes"""
        p, c = n._parent, n
        neg = False
        accs = self.accs(f)[0]
        while True:
            if isinstance(p, (ast.BoolOp, ast.BinOp)) or isinstance(p, ast.IfExp) and c is not p.test:
                pass
            elif isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
                neg = not neg
            elif isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "bool":
                pass
            elif isinstance(p, (ast.If, ast.While, ast.IfExp)) and c is p.test:
                return "test", None
            elif isinstance(p, ast.Return):
                return ("reported", "return") if not neg else ("lost", None)
            elif isinstance(p, ast.AugAssign) and isinstance(p.target, ast.Name) and p.target.id in accs and isinstance(p.op, ast.BitOr):
                return ("reported", p.target.id) if not neg else ("lost", None)
            elif isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                if p.targets[0].id in accs:
                    return ("reported", p.targets[0].id) if not neg else ("lost", None)
                return ("kept", p.targets[0].id) if c is n else ("lost", None)
            elif isinstance(p, ast.NamedExpr):
                return "test", None
            else:
                return "lost", None
            c, p = p, p._parent

    def mentions(self, e, names):
        return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))

    def judge(self, f):
        (accs, main), m, rep = self.reporters[f], self.m, self.rep
        rep.count("functions judged")
        rep.site("%s %s: changes must be in what it returns" % (f.module.path, f.qual))
        rep.count("changes", len(m.sites[f]))
        sites = {id(n) for n in m.sites[f]}
        r = reach(f)
        lost = {}
        me = self

        def reports(n):
            return isinstance(n, ast.Call) and any(g in me.reporters for g in me.callees(n, f))

        def kept(n):
            """variable that holds what a merging function reported"""
            ds = r.use.get(n, ()) if isinstance(n, ast.Name) else ()
            return bool(ds) and all(d[0] == "expr" and isinstance(d[1], ast.AST) and reports(d[1]) for d in ds)

        class Walk(Paths):
            CAP = 900

            def change(self, n, sts):
                res = []
                for s in sts:
                    if any(x[0] in ("t", "ch") for x in s.flags):
                        res.append(s)
                    else:
                        res += self.apply([s], ({("ch",)}, ()))
                return res

            def expr(self, n, sts):
                sts = super().expr(n, sts)
                if isinstance(n, ast.Call) and sts:
                    if id(n) in sites:
                        sts = self.change(n, sts)
                    elif any(g in m.mut for g in me.callees(n, f)) and m.calls(n, f):
                        w = me.where(n, f)[0]
                        rp = reports(n)
                        if not rp or w == "lost":
                            sts = self.change(n, sts)
                        elif w == "kept":
                            sts = self.apply(sts, ({("p", me.where(n, f)[1])}, ()))
                return sts

            def stmt(self, s, sts, out):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and s.value is not None:
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    # compared before it is replaced
                    cmp = {text(x) for c in ast.walk(s.value) if isinstance(c, ast.Compare) for x in [c.left] + c.comparators if isinstance(x, (ast.Attribute, ast.Subscript))}
                    cmp |= {text(c) for c in ast.walk(s.value) if isinstance(c, ast.Compare)}
                    if cmp and any(isinstance(t, ast.Name) for t in ts):
                        sts = self.apply(sts, ({("c", x) for x in cmp}, ()))
                    sts = super().stmt(s, sts, out)
                    for t in ts:
                        if isinstance(t, ast.Name) and t.id in accs:
                            sts = self.record(s, t.id, sts)
                        elif m.content(t, f):
                            yes = [x for x in sts if ("c", text(t)) not in x.flags]
                            sts = [x for x in sts if ("c", text(t)) in x.flags] + self.change(s, yes)
                    return sts
                if isinstance(s, ast.Delete) and id(s) in sites:
                    return self.change(s, super().stmt(s, sts, out))
                if isinstance(s, ast.Return):
                    sts = self.expr(s.value, sts) if s.value is not None else sts
                    me.returned(s, sts, accs, f, lost, reports)
                    out["ret"] += sts
                    return []
                return super().stmt(s, sts, out)

            def record(self, s, name, sts):
                v = s.value
                aug = isinstance(s, ast.AugAssign)
                keeps = aug and isinstance(s.op, ast.BitOr) or not aug and me.mentions(v, {name})
                parts = [v] + (v.values if isinstance(v, ast.BoolOp) and isinstance(v.op, ast.Or) else [v.left, v.right] if isinstance(v, ast.BinOp) and isinstance(v.op, ast.BitOr) else [])
                yes = any(isinstance(x, ast.Constant) and x.value is True for x in parts)
                worked = any(isinstance(x, ast.Compare) and any(isinstance(y, (ast.Name, ast.Call)) for y in [x.left] + x.comparators)
                             or isinstance(x, ast.Name) and x.id not in accs and not kept(x) for x in parts)
                called = any(reports(x) for x in ast.walk(v))
                others = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} - {name}
                res = []
                for st in sts:
                    fl = set(st.flags)
                    if not keeps and {("t", name), ("r", name)} & fl:
                        fl -= {("t", name), ("r", name)}
                        if name in main and not yes:
                            lost[id(s)] = (s, "what was recorded before is overwritten")
                        elif not any(x[0] == "t" for x in fl) and not yes:
                            fl.add(("ch",))
                    for o in others & accs:
                        if ("t", o) in fl:
                            fl.add(("t", name))
                        if ("r", o) in fl:
                            fl = fl - {("r", o)} | {("r", name)}
                    fl -= {("p", o) for o in others}
                    if yes:
                        fl = fl - {("ch",)} | {("t", name)}
                    elif worked:
                        fl -= {("ch",)}
                    if called:
                        fl.add(("r", name))
                    res += self.apply([st], (fl - st.flags, st.flags - fl))
                return self.dedupe(res)

        def fact(e, pol):
            if pol and (reports(e) or kept(e)):
                return {("ch",)}, ({("p", e.id)} if isinstance(e, ast.Name) else ())
            if isinstance(e, ast.Name) and kept(e):
                return (), {("p", e.id)}
            if isinstance(e, ast.Name) and e.id in accs:
                return ({("t", e.id)}, {("ch",)}) if pol else ((), {("r", e.id)})
            return None
        w = Walk(f, on_fact=fact, noreturn=noreturn(self.prj, f))
        w.tested = {}
        try:
            fall, out = w.run(f.body)
        except TooMany:
            rep.note("not decided, too many paths: %s" % f.qual)
            return
        for s in fall:
            if any(x[0] in ("ch", "t", "p", "r") for x in s.flags):
                lost.setdefault("end", (f.node, "ends without a result after a change"))
        for s, msg in lost.values():
            rep.finding("not-reported", f, text(s, 60) if s is not f.node else "end of %s" % f.name, msg, s)

    def returned(self, s, sts, accs, f, lost, reports):
        v = s.value
        if isinstance(v, ast.Constant) and v.value is True:
            return
        worked = v is not None and not isinstance(v, (ast.Constant, ast.Name)) and not reports(v) and not (isinstance(v, (ast.BoolOp, ast.BinOp)) and self.mentions(v, accs))
        said = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)} if v is not None else set()
        for x in sts:
            ts = {y[1] for y in x.flags if y[0] == "t"}
            left = {y[1] for y in x.flags if y[0] in ("p", "r")} - said
            if ts and not ts & said or ("ch",) in x.flags and not ts and not worked or left and not ts & said:
                lost[id(s)] = (s, "on some path the result does not say that the document was changed")
                return


def run(prj, fold, rep):
    rep.rule("every path of a merging function on which the content of a document is changed, by itself or by a function it calls, returns a result that says so: the record of changes is set after or before "
             "the change, what the called functions report is added to it, and it is neither overwritten nor left out of what is returned")
    r = Reporter(prj, fold, rep)
    rep.count("functions", len(r.m.funcs))
    rep.count("functions that change documents", len(r.m.mut))
    for f in sorted(r.reporters, key=lambda f: (f.module.path, f.node.lineno)):
        r.judge(f)


A = "lib/sldr/x.py"
BASE = '''
class Merge:
    def merge(self, other, base, this=None):
        """Returns True if any changes were made."""
        res = False
        if this is None:
            this = self.root
        if self._align(this, other, base):
            res = True
        for t in list(this):
            if t.mergeBase is None:
                continue
            if t.mergeOther is None:
                this.remove(t)
                res = True
            else:
                res |= self.merge(t.mergeOther, t.mergeBase, t)
        if this.text == base.text:
            res = res or this.text != other.text
            this.text = other.text
        for k in other.keys():
            if k not in base.attrib:
                this.set(k, other.get(k))
                res = True
        res |= self._alts(other, this)
        return res
    def _align(self, this, other, base):
        todo = []
        for o in other:
            if o not in this:
                todo.append(o)
        for o in todo:
            this.append(o)
        return len(todo) > 0
    def _alts(self, other, this):
        if not hasattr(this, 'alternates'):
            this.alternates = dict(other.alternates)
            return len(this.alternates) != 0
        res = False
        for k in other.alternates:
            if k not in this.alternates:
                this.alternates[k] = other.alternates[k]
                res = True
        return res
def main(args):
    d = Merge()
    if d.merge(args.other, args.base):
        d.save()
'''


def _e(name, want, *edits):
    s = BASE
    for a, b in edits:
        assert a in s, a
        s = s.replace(a, b)
    return (name, {A: s}, want)


_N = ["not-reported"]
_AL = "        if self._align(this, other, base):\n            res = True\n"
_TX = "            res = res or this.text != other.text\n            this.text = other.text\n"
_SET = "                this.set(k, other.get(k))\n                res = True\n"
_MR = "                res |= self.merge("
_RM = "                this.remove(t)\n                res = True\n"
_RA = "        res |= self._alts(other, this)\n        return res\n"
EXAMPLES = [
    _e("fine", False),
    _e("added not reported", _N, (_AL, "        self._align(this, other, base)\n")),
    _e("nothing said about what was added", _N, ("        return len(todo) > 0\n", "")),
    _e("never anything added", _N, ("        return len(todo) > 0\n", "        return False\n")),
    _e("added, another way", False, (_AL, "        res |= self._align(this, other, base)\n")),
    _e("added, in a variable", False, (_AL, "        added = self._align(this, other, base)\n        if added:\n            res = True\n")),
    _e("added, in a variable that is not read", _N, (_AL, "        added = self._align(this, other, base)\n")),
    _e("recorded while adding", False, ("            this.append(o)\n        return len(todo) > 0\n", "            this.append(o)\n            res = True\n        return res\n"), ("        todo = []\n", "        todo = []\n        res = False\n")),
    _e("recorded for some", _N, ("            this.append(o)\n        return len(todo) > 0\n", "            this.append(o)\n            if o.text:\n                res = True\n        return res\n"), ("        todo = []\n", "        todo = []\n        res = False\n")),
    _e("removed", _N, (_RM, "                this.remove(t)\n")),
    _e("recorded before", False, (_RM, "                res = True\n                this.remove(t)\n")),
    _e("text", _N, (_TX, "            this.text = other.text\n")),
    _e("compared too late", _N, (_TX, "            this.text = other.text\n            res = res or this.text != other.text\n")),
    _e("compared first", False, (_TX, "            if this.text != other.text:\n                res = True\n                this.text = other.text\n")),
    _e("what was recorded overwritten", _N, (_TX, "            res = this.text != other.text\n            this.text = other.text\n")),
    _e("attribute", _N, (_SET, "                this.set(k, other.get(k))\n")),
    _e("attribute, another way", _N, (_SET, "                this.attrib[k] = other.get(k)\n")),
    _e("attribute, sometimes", _N, (_SET, "                this.set(k, other.get(k))\n                if base.text:\n                    res = True\n")),
    _e("attribute in a helper", False, (_SET, "                self.put(this, k, other.get(k))\n                res = True\n"), ("    def _align", "    def put(self, n, k, v):\n        n.set(k, v)\n    def _align")),
    _e("attribute in a helper, not recorded", _N, (_SET, "                self.put(this, k, other.get(k))\n"), ("    def _align", "    def put(self, n, k, v):\n        n.set(k, v)\n    def _align")),
    _e("children", _N, (_MR, "                self.merge(")),
    _e("last child only", _N, (_MR, "                res = self.merge(")),
    _e("all children", _N * 2, (_MR, "                res &= self.merge(")),
    _e("children, tested", False, ("                res |= self.merge(t.mergeOther, t.mergeBase, t)\n", "                if self.merge(t.mergeOther, t.mergeBase, t):\n                    res = True\n")),
    _e("alternates", _N, (_RA, "        self._alts(other, this)\n        return res\n")),
    _e("alternates only", _N, (_RA, "        return self._alts(other, this)\n")),
    _e("alternates or the rest", False, (_RA, "        return self._alts(other, this) or res\n")),
    _e("an early way out", _N, ("        for k in other.keys():\n", "        if not len(other.keys()):\n            return False\n        for k in other.keys():\n")),
    _e("an early way out that says so", False, ("        for k in other.keys():\n", "        if not len(other.keys()):\n            return res\n        for k in other.keys():\n")),
    _e("some alternates", _N, ("                this.alternates[k] = other.alternates[k]\n                res = True\n", "                this.alternates[k] = other.alternates[k]\n")),
    _e("first alternates", _N, ("            return len(this.alternates) != 0\n", "            return False\n")),
]
