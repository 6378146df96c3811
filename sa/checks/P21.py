"""P21: a string that is known to start (end) with a fixed text is cut by exactly the length of that text."""
import ast
from ..core import text, walk_own
from ..consts import UNKNOWN, single_assignment
from ..facts import FactWalker, Fact, atoms

TECHNIQUE = "must-fact dataflow of prefix and suffix tests to slices, with constant propagation of labels and widths"
NOTE = "Only cuts dominated by a test of the same expression against constant text are judged. Labels or widths that do not fold are not judged."


def strip_case(n):
    while isinstance(n, ast.Call):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "upper", "casefold") and not n.args:
            n = n.func.value
        elif isinstance(n.func, ast.Name) and n.func.id == "str" and len(n.args) == 1 and not n.keywords:
            n = n.args[0]
        else:
            break
    return n


def lengths(v):
    if isinstance(v, (str, bytes)):
        return {len(v)}, {v}
    if isinstance(v, (tuple, list, set, frozenset)) and v and all(isinstance(x, (str, bytes)) for x in v):
        return {len(x) for x in v}, set(v)
    return None, None


def single_slice(n, fold, f):
    """(base, 'start'/'end', width) for base[:k], base[k'] forms that look at one end"""
    if not isinstance(n, ast.Subscript):
        return None
    s = n.slice
    if isinstance(s, ast.Slice):
        if s.step is not None:
            return None
        lo = fold.value(s.lower, f) if s.lower is not None else None
        hi = fold.value(s.upper, f) if s.upper is not None else None
        if lo in (None, 0) and isinstance(hi, int) and hi > 0:
            return n.value, "start", hi
        if isinstance(lo, int) and lo < 0 and hi is None:
            return n.value, "end", -lo
        return None
    v = fold.value(s, f)
    if v == 0 and v is not False:
        return n.value, "start", 1
    if v == -1:
        return n.value, "end", 1
    return None


def label_fact(n, pol, fold, f, depth=3):
    """list of (dump of expr, side, lengths, labels) that an atom tells"""
    if isinstance(n, ast.Name) and depth:
        s = single_assignment(f, n.id) if n.id in f.locals else None
        if s is not None and isinstance(s, (ast.Call, ast.Compare, ast.BoolOp)):
            res = []
            for a in atoms(s, pol):
                res += label_fact(a.node, a.pol, fold, f, depth - 1)
            return res
        return []
    if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and pol:
        parts = [label_fact(v, True, fold, f, depth) for v in n.values]
        if all(len(p) == 1 for p in parts) and len({(p[0][0], p[0][1]) for p in parts}) == 1:
            return [(parts[0][0][0], parts[0][0][1], set().union(*(p[0][2] for p in parts)), set().union(*(p[0][3] for p in parts)))]
        return []
    if isinstance(n, ast.Call) and pol and isinstance(n.func, ast.Attribute) and n.func.attr in ("startswith", "endswith") and len(n.args) == 1:
        ls, labels = lengths(fold.value(n.args[0], f))
        if ls is None:
            return []
        return [(ast.dump(strip_case(n.func.value)), "start" if n.func.attr == "startswith" else "end", ls, labels)]
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        op = n.ops[0]
        sides = [(n.left, n.comparators[0])]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if isinstance(op, ast.NotEq):
                pol = not pol
            sides.append((n.comparators[0], n.left))
        elif isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(op, ast.NotIn):
                pol = not pol
        else:
            return []
        if not pol:
            return []
        for a, b in sides:
            sl = single_slice(strip_case(a), fold, f)
            if sl is None:
                continue
            v = fold.value(b, f)
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(v, str):
                v = tuple(v) if sl[2] == 1 else None
            ls, labels = lengths(v) if v is not None else (None, None)
            if ls is None:
                continue
            return [(ast.dump(strip_case(sl[0])), sl[1], ls, labels)]
    return []


class Walker(FactWalker):
    def __init__(self, func, fold, rep):
        super().__init__(func)
        self.fold, self.rep = fold, rep
        self.cache = {}

    def known(self, n, side, facts):
        d = ast.dump(strip_case(n))
        res = []
        for fa in facts:
            if fa.key not in self.cache:
                self.cache[fa.key] = label_fact(fa.node, fa.pol, self.fold, self.func)
            res += [(ls, labels, fa) for e, s, ls, labels in self.cache[fa.key] if e == d and s == side]
        return res

    def cut(self, n, base, side, width, facts):
        ks = self.known(base, side, facts)
        if not ks:
            return
        self.rep.count("cuts_judged")
        self.rep.site("%s:%d %s" % (self.func.module.path, n.lineno, text(n)))
        for ls, labels, fa in ks:
            if ls == {width}:
                return
        ls, labels, fa = ks[-1]
        self.rep.finding("strip-length", self.func, text(n), "%s cuts %d characters where %s (length %s) was tested" % (
            text(n), width, ", ".join(sorted(map(repr, labels))), "/".join(map(str, sorted(ls)))), n)

    def expr(self, n, facts):
        f, fold = self.func, self.fold
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load) and n.slice.step is None:
            s = n.slice
            if s.lower is not None:
                v = fold.value(s.lower, f)
                if isinstance(v, int) and v > 0:
                    self.cut(n, n.value, "start", v, facts)
            if s.upper is not None:
                v = fold.value(s.upper, f)
                if isinstance(v, int) and v < 0:
                    self.cut(n, n.value, "end", -v, facts)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            a, base = n.func.attr, n.func.value
            if a in ("removeprefix", "removesuffix") and len(n.args) == 1:
                v = fold.value(n.args[0], f)
                ks = self.known(base, "start" if a == "removeprefix" else "end", facts)
                if isinstance(v, str) and ks:
                    self.rep.count("cuts_judged")
                    if not any(labels == {v} for ls, labels, fa in ks):
                        self.rep.finding("strip-length", f, text(n), "%s removes other text than %s, which was tested" % (text(n), sorted(ks[-1][1])), n)
            elif a in ("lstrip", "rstrip", "strip") and len(n.args) == 1:
                v = fold.value(n.args[0], f)
                if isinstance(v, str) and len(v) > 1:
                    for side, names in (("start", ("lstrip", "strip")), ("end", ("rstrip", "strip"))):
                        if a in names and any(v in labels for ls, labels, fa in self.known(base, side, facts)):
                            self.rep.finding("strip-set", f, text(n), "%s strips any of the characters of %r, not the text" % (text(n), v), n)
            elif a == "replace" and len(n.args) in (2, 3) and fold.value(n.args[1], f) == "":
                v = fold.value(n.args[0], f)
                one = len(n.args) == 3 and fold.value(n.args[2], f) == 1
                if isinstance(v, str) and len(v) > 1:
                    st = any(v in labels for ls, labels, fa in self.known(base, "start", facts))
                    en = any(v in labels for ls, labels, fa in self.known(base, "end", facts))
                    if (st and not one) or en:
                        self.rep.finding("strip-all", f, text(n), "%s removes %r wherever it occurs, not only at the %s tested" % (text(n), v, "start" if st else "end"), n)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
            # a test that can never hold: width of the slice and length of the text differ
            for x, y in ((n.left, n.comparators[0]), (n.comparators[0], n.left)):
                sl = single_slice(strip_case(x), fold, f)
                if sl is None or not isinstance(strip_case(x).slice, ast.Slice):
                    continue
                v = fold.value(y, f)
                if isinstance(n.ops[0], (ast.In, ast.NotIn)) and (x is not n.left or isinstance(v, (str, bytes))):
                    continue
                ls, labels = lengths(v)
                if ls and "" not in labels and b"" not in labels:
                    self.rep.count("slice_tests_judged")
                    wrong = [l for l in ls if l > sl[2]] if sl[1] in ("start", "end") else []
                    if wrong or sl[2] not in ls and max(ls) < sl[2]:
                        self.rep.finding("slice-test", f, text(n), "%s compares %d characters with text of length %s" % (text(n), sl[2], "/".join(map(str, sorted(ls)))), n)


def run(prj, fold, rep):
    rep.rule("a slice x[k:] (x[:-k]) reached only when x is known to start (end) with constant text has k equal to that text's length; slice comparisons have matching lengths; labels are not removed as character sets or everywhere")
    for f in prj.funcs:
        rep.count("functions")
        Walker(f, fold, rep).run()


A = "lib/sldr/a.py"
EXAMPLES = [
    ("ok", {A: "def f(l):\n    if l.startswith('Type: '):\n        return l[6:]\n    if l.endswith('.xml'): return l[:-4]\n"}, False),
    ("short", {A: "def f(l):\n    if l.startswith('Type: '):\n        return l[5:]\n"}, True),
    ("suffix", {A: "def f(d):\n    return [l[:-3] for l in d if l.endswith('.xml')]\n"}, True),
    ("early exit", {A: "def f(d):\n    for l in d:\n        if not l.lower().endswith('.xml'): continue\n        yield l[:-5]\n"}, True),
    ("constant", {A: "P='abc:'\ndef f(l):\n    return l[len(P):] if l.startswith(P) else l\n"}, False),
    ("constant bad", {A: "P='abc:'\ndef f(l):\n    return l[len(P)-1:] if l.startswith(P) else l\n"}, True),
    ("slice test", {A: "def f(l):\n    if l[:5] == 'abcd': return 1\n"}, True),
    ("slice test ok", {A: "def f(l):\n    if l[-4:].lower() == '.xml': return l[:-4]\n"}, False),
    ("slice test cut", {A: "def f(l):\n    if l[-4:].lower() == '.xml': return l[:-5]\n"}, True),
    ("reassigned", {A: "def f(l):\n    if l.startswith('abc'):\n        l = g(l)\n        return l[1:]\n"}, False),
    ("strip", {A: "def f(l):\n    if l.endswith('.xml'): return l.rstrip('.xml')\n"}, True),
    ("replace", {A: "def f(l):\n    if l.startswith('ab: '): return l.replace('ab: ', '')\n"}, True),
]
