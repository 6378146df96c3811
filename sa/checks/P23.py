"""P23: the draft ranking follows the schema's order, and ranks are only defaulted to ranks."""
import ast, os, re
from ..core import text, walk_own, bind, AnchorLost, dotted
from ..consts import UNKNOWN, possible
from ..reach import reach

TECHNIQUE = "constant evaluation of the ranking table against the DTD's enumeration; constant propagation into rank look-ups, rank comparisons and draft values"
NOTE = "The schema is lib/sldr/sil.dtd as it is on disk. Draft texts that come from documents are outside this check."


def schema(prj):
    """(ordered statuses, set of all) from the DTD"""
    p = os.path.join(prj.repo, "lib", "sldr", "sil.dtd")
    if not os.path.exists(p):
        raise AnchorLost("lib/sldr/sil.dtd not found")
    with open(p, encoding="utf-8") as f:
        t = f.read()
    seen = {}
    for m in re.finditer(r"<!ATTLIST\s+\S+\s+draft\s*\(([^)]*)\)", t):
        k = tuple(x.strip() for x in m.group(1).split("|"))
        seen[k] = seen.get(k, 0) + 1
    if not seen:
        raise AnchorLost("no draft attribute in sil.dtd")
    order = max(seen, key=lambda k: (seen[k], k))
    extra = sorted({x for k in seen for x in k} - set(order))
    bad = [k for k in seen if [x for x in order if x in k] != [x for x in k if x in order]]
    return list(order), extra, bad


def tables(prj, fold):
    """(module, name, value) of every table that ranks drafts, and of every sequence of drafts"""
    ranks, seqs = [], []
    for m in prj.modules.values():
        for k, v in fold.module_env(m).items():
            if isinstance(v, dict) and "approved" in v and "contributed" in v and all(isinstance(x, int) for x in v.values()):
                ranks.append((m, k, v))
            elif isinstance(v, (list, tuple)) and "approved" in v and "contributed" in v:
                seqs.append((m, k, v))
    for c in prj.classes:
        for k, e in c.attrs.items():
            if isinstance(e, ast.expr):
                v = fold.fold(e, {}, c.module, None)
                if isinstance(v, dict) and "approved" in v and "contributed" in v and all(isinstance(x, int) for x in v.values()):
                    ranks.append((c.module, k, v))
                elif isinstance(v, (list, tuple)) and "approved" in v and "contributed" in v:
                    seqs.append((c.module, k, v))
    return ranks, seqs


def is_table(prj, fold, n, f, names):
    """the expression denotes one of the ranking tables"""
    if isinstance(n, (ast.Name, ast.Attribute)):
        nm = n.id if isinstance(n, ast.Name) else n.attr
        if nm in names:
            v = fold.value(n, f)
            return isinstance(v, dict) and "approved" in v
    return False


def run(prj, fold, rep):
    order, extra, bad = schema(prj)
    rep.count("schema_statuses", len(order))
    rep.rule("draft ranking: keys cover the DTD enumeration, ranks strictly increase in its order; look-up keys, defaults and bounds denote ranks")
    for k in bad:
        rep.finding("schema-order", None, "draft", "sil.dtd lists draft statuses in different orders: %s" % (k,), path="lib/sldr/sil.dtd")
    ranks, seqs = tables(prj, fold)
    if not ranks:
        # not a table any more, or not constant: say nothing about ranks
        rep.note("the draft ranking does not fold to constants")
    good = set() if ranks else Anything()
    names = {k for _, k, _ in ranks}
    n = 0
    for m, k, v in ranks:
        miss = [d for d in order + extra if d not in v]
        rep.count("ranking_tables")
        if miss:
            rep.finding("no-rank", None, k, "no rank for the schema's draft status %s" % ", ".join(miss), path=m.path)
        rs = [v[d] for d in order if d in v]
        for a, b in zip([d for d in order if d in v], [d for d in order if d in v][1:]):
            rep.count("rank_pairs")
            if not v[a] < v[b]:
                rep.finding("rank-order", None, "%s %s/%s" % (k, a, b), "%s ranks %s=%d, %s=%d, not in the schema's order" % (k, a, v[a], b, v[b]), path=m.path)
        if len(set(v.values())) != len(v):
            rep.finding("rank-order", None, k + " ties", "two draft statuses have the same rank", path=m.path)
        good = good | set(v.values()) | {len(v)}
        n = max(n, len(v))
    for m, k, v in seqs:
        rep.count("status_sequences")
        if isinstance(v, (list, tuple)):
            ok = [d for d in v if d in order]
            if ok != [d for d in order if d in ok]:
                rep.finding("rank-order", None, k, "%s is not in the schema's order" % k, path=m.path)
            for m2, k2, r in ranks:
                for i, d in enumerate(v):
                    if d in r and r[d] != i and indexed_by_rank(prj, k):
                        rep.finding("rank-index", None, k, "%s[%d] is %s, whose rank is %d" % (k, i, d, r[d]), path=m.path)
                        break
    allowed = set(order) | set(extra)
    for f in prj.funcs:
        for x in walk_own(f.node, include_lambda=False):
            judge(prj, fold, rep, f, x, names, good, allowed)


class Anything:
    def __contains__(self, x):
        return True


def indexed_by_rank(prj, name):
    """the sequence is subscripted with something that is not a constant"""
    for f in prj.funcs:
        for x in walk_own(f.node):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == name and not isinstance(x.slice, (ast.Constant, ast.Slice)):
                return True
    return False


def const(fold, n, f):
    v = fold.value(n, f)
    if v is not UNKNOWN:
        return [v]
    if isinstance(n, ast.Name):
        ds = reach(f).use.get(n)
        if ds:
            r = []
            for d in ds:
                if d[0] == "expr":
                    w = fold.value(d[1], f)
                    if w is not UNKNOWN:
                        r.append(w)
                elif d[0] == "param" and n.id in f.defaults:
                    w = fold.fold(f.defaults[n.id], {}, f.module, f.outer)
                    if w is not UNKNOWN:
                        r.append(w)
            return r
    return []


def rank_valued(prj, fold, n, f, names, depth=3):
    """expression yields a rank: table look-up, get_draft, draftnum, or a local holding one"""
    if isinstance(n, ast.Call):
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and is_table(prj, fold, n.func.value, f, names):
            return True
        gs, _ = prj.callees(n, f, f.module)
        if gs and depth > 0:
            for g in gs:
                rets = [x.value for x in walk_own(g.node) if isinstance(x, ast.Return) and x.value is not None]
                if g.is_lambda:
                    rets = [g.node.body]
                if not rets or not all(rank_valued(prj, fold, r, g, names, depth - 1) for r in rets):
                    return False
            return True
        return False
    if isinstance(n, ast.Subscript):
        return is_table(prj, fold, n.value, f, names)
    if isinstance(n, ast.IfExp):
        return rank_valued(prj, fold, n.body, f, names, depth) or rank_valued(prj, fold, n.orelse, f, names, depth)
    if isinstance(n, ast.Name) and depth > 0:
        ds = reach(f).use.get(n)
        return bool(ds) and any(d[0] == "expr" and rank_valued(prj, fold, d[1], f, names, depth - 1) for d in ds)
    return False


def judge(prj, fold, rep, f, x, names, good, allowed):
    # look-ups
    if isinstance(x, ast.Subscript) and is_table(prj, fold, x.value, f, names):
        rep.count("lookups")
        if isinstance(x.slice, ast.Slice):
            return
        v = fold.value(x.slice, f)
        if isinstance(v, str) and v not in allowed and isinstance(x.ctx, ast.Load):
            rep.finding("no-rank", f, text(x), "no rank for %r" % v, x)
        elif v is UNKNOWN and isinstance(x.ctx, ast.Load):
            for v in attr_consts(prj, fold, x.slice, f):
                if isinstance(v, str) and v not in allowed:
                    rep.finding("no-rank", f, text(x), "no rank for %r" % v, x)
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get" and is_table(prj, fold, x.func.value, f, names):
        rep.count("lookups")
        for v in const(fold, x.args[0], f) if x.args else []:
            if isinstance(v, str) and v not in allowed and v != "":
                rep.finding("no-rank", f, text(x), "no rank for %r" % v, x)
        if len(x.args) > 1:
            for v in const(fold, x.args[1], f):
                rep.count("rank_defaults")
                if isinstance(v, (int, float)) and not isinstance(v, bool) and v not in good:
                    rep.finding("rank-default", f, text(x), "default %r is neither a rank nor the number of ranks" % v, x)
            d = x.args[1]
            if isinstance(d, ast.BinOp) and isinstance(d.op, (ast.Add, ast.Sub)) and any(rank_valued(prj, fold, y, f, names) for y in (d.left, d.right)):
                rep.finding("rank-default", f, text(x), "default %s is a rank moved off the scale" % text(d), x)
        elif x._parent is not None and isinstance(x._parent, ast.Compare):
            rep.finding("rank-default", f, text(x), "a rank that may be None is compared", x)
    if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.BinOp) and isinstance(x.slice.op, (ast.Add, ast.Sub)) and isinstance(x.ctx, ast.Load):
        q = fold.value(x.value, f)
        if isinstance(q, (list, tuple)) and "approved" in q and any(rank_valued(prj, fold, y, f, names) for y in (x.slice.left, x.slice.right)) \
                and any(fold.value(y, f) not in (0, UNKNOWN) for y in (x.slice.left, x.slice.right)):
            rep.finding("rank-index", f, text(x), "a rank is shifted before it is turned back into a status", x)
    # comparisons with a rank
    if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
        for a, b in ((x.left, x.comparators[0]), (x.comparators[0], x.left)):
            if rank_valued(prj, fold, a, f, names):
                rep.count("rank_comparisons")
                for v in const(fold, b, f):
                    if isinstance(v, (int, float)) and not isinstance(v, bool) and v not in good:
                        rep.finding("rank-bound", f, text(x), "bound %r is neither a rank nor the number of ranks" % v, x)
                    elif isinstance(v, str) and not isinstance(x.ops[0], (ast.Eq, ast.NotEq)):
                        rep.finding("rank-bound", f, text(x), "a rank is compared with the text %r" % v, x)
    # arguments of functions that take a rank: parameters that are compared with ranks
    if isinstance(x, ast.Call):
        gs, exact = prj.callees(x, f, f.module)
        for g in gs if exact else []:
            rp = rank_params(prj, fold, g, names)
            if rp:
                b = bind(x, g)
                for p in rp & set(b):
                    for v in const(fold, b[p], f):
                        rep.count("rank_arguments")
                        if isinstance(v, (int, float)) and not isinstance(v, bool) and v not in good:
                            rep.finding("rank-bound", f, text(x), "%r passed as rank %s is neither a rank nor the number of ranks" % (v, p), x)
    # draft values written or defaulted in code
    v = None
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("set", "get", "setdefault") and len(x.args) == 2 \
            and isinstance(x.args[0], ast.Constant) and x.args[0].value == "draft":
        v = x.args[1]
    elif isinstance(x, ast.keyword) and x.arg in ("draft", "default_draft", "use_draft"):
        v = x.value
    elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr in ("default_draft", "use_draft") for t in x.targets):
        v = x.value
    if v is not None:
        for c in const(fold, v, f):
            rep.count("draft_values")
            if isinstance(c, str) and c and c not in allowed:
                rep.finding("no-rank", f, text(x if not isinstance(x, ast.keyword) else x.value), "%r is not a draft status of the schema" % c, v)


def attr_consts(prj, fold, n, f):
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
        c = prj.self_class(n.value.id, f)
        if c is not None:
            for k in c.family():
                for g, s in k.selfattrs.get(n.attr, []):
                    if isinstance(s._parent, ast.Assign):
                        yield from const(fold, s._parent.value, g)
    else:
        yield from const(fold, n, f)


def rank_params(prj, fold, g, names):
    k = (id(prj), g)
    r = getattr(g.node, "_rankp", None)
    if r is None:
        r = set()
        for x in walk_own(g.node):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                for a, b in ((x.left, x.comparators[0]), (x.comparators[0], x.left)):
                    if isinstance(a, ast.Name) and a.id in g.params and rank_valued(prj, fold, b, g, names):
                        r.add(a.id)
        g.node._rankp = r
    return r


DTD = "<!ELEMENT a EMPTY>\n<!ATTLIST a draft (approved | contributed | generated) 'approved'>\n"


def ex(src):
    return {"lib/sldr/sil.dtd": DTD, "lib/sldr/ldml.py": src}


EXAMPLES = [
    ("good", ex("_all = ('approved', 'contributed', 'generated')\nratings = {v:i for i,v in enumerate(_all)}\ndef g(e):\n    return ratings.get(e.get('draft'), ratings['generated'])\n"), False),
    ("swapped", ex("_all = ('contributed', 'approved', 'generated')\nratings = {v:i for i,v in enumerate(_all)}\n"), ["rank-order", "rank-order"]),
    ("missing", ex("ratings = {'approved': 0, 'contributed': 1}\n"), ["no-rank"]),
    ("sorted", ex("_all = ['approved', 'contributed', 'generated']\nratings = {v:i for i,v in enumerate(reversed(_all))}\n"), ["rank-order", "rank-order"]),
    ("ties", ex("ratings = {'approved': 0, 'contributed': 1, 'generated': 1}\n"), ["rank-order", "rank-order"]),
    ("bad default", ex("ratings = {'approved': 0, 'contributed': 1, 'generated': 2}\ndef f(e):\n    return ratings.get(e.get('draft'), 9)\n"), ["rank-default"]),
    ("count default", ex("ratings = {'approved': 0, 'contributed': 1, 'generated': 2}\ndef f(e):\n    m = len(ratings)\n    return ratings.get(e.get('draft'), m)\n"), False),
    ("bad key", ex("ratings = {'approved': 0, 'contributed': 1, 'generated': 2}\ndef f(e):\n    return ratings['genreated']\n"), ["no-rank"]),
    ("bad threshold", ex("ratings = {'approved': 0, 'contributed': 1, 'generated': 2}\nclass A:\n    def get(self, e):\n        return ratings.get(e, ratings['generated'])\n    def f(self, e, threshold=5):\n        d = ratings.get(e, 3)\n        if d < threshold:\n            return e\n"), ["rank-bound"]),
    ("bad value", ex("ratings = {'approved': 0, 'contributed': 1, 'generated': 2}\ndef f(e):\n    e.set('draft', 'unconfirmd')\n"), ["no-rank"]),
    ("bad attribute", ex("ratings = {'approved': 0, 'contributed': 1, 'generated': 2}\nclass A:\n    def __init__(self):\n        self.default_draft = 'none'\n    def f(self):\n        return ratings[self.default_draft]\n"), ["no-rank", "no-rank"]),
]
