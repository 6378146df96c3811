"""Path-sensitive walk through statements: every path carries the tests it has passed and flags that events on it have set.
   Nothing is run; tests whose outcome follows from earlier ones on the same path are taken one way only."""
import ast
from .core import dotted, walk_own

PURE = {"get", "match", "search", "fullmatch", "find", "rfind", "index", "rindex", "strip", "lstrip", "rstrip", "lower", "upper", "title", "split",
        "rsplit", "splitlines", "partition", "rpartition", "items", "keys", "values", "startswith", "endswith", "count", "copy", "join", "format",
        "replace", "isdigit", "isalpha", "isalnum", "isupper", "islower", "isspace", "encode", "decode", "group", "groups", "span", "start", "end",
        "findall", "finditer", "findtext", "casefold", "swapcase", "capitalize", "zfill", "ljust", "rjust", "translate", "union", "difference",
        "intersection", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "most_common", "iterfind", "getroot", "getparent",
        "removeprefix", "removesuffix", "hexdigest", "digest", "exists", "isfile", "isdir", "__contains__", "__getitem__", "__len__"}


class TooMany(Exception):
    pass


class State:
    __slots__ = ("flags", "facts", "trail")

    def __init__(self, flags, facts, trail=()):
        self.flags, self.facts, self.trail = flags, facts, trail

    def key(self):
        return (self.flags, frozenset(self.facts.items()))


def atom(t):
    """(text, polarity) of a test without its negations; comparisons have one form"""
    pol = True
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, pol = t.operand, not pol
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        a, o, b = t.left, t.ops[0], t.comparators[0]
        if isinstance(b, ast.Constant) and isinstance(b.value, bool) and isinstance(o, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            x, p = atom(a)
            if x is not None:
                return x, (p if b.value else not p) == (pol if isinstance(o, (ast.Eq, ast.Is)) else not pol)
        a, b = ast.unparse(a), ast.unparse(b)
        if b == "None" and isinstance(o, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            return a + " is None", pol == isinstance(o, (ast.Eq, ast.Is))
        if isinstance(o, ast.Eq):
            return a + " == " + b, pol
        if isinstance(o, ast.NotEq):
            return a + " == " + b, not pol
        if isinstance(o, ast.Is):
            return a + " is " + b, pol
        if isinstance(o, ast.IsNot):
            return a + " is " + b, not pol
        if isinstance(o, ast.In):
            return a + " in " + b, pol
        if isinstance(o, ast.NotIn):
            return a + " in " + b, not pol
        if isinstance(o, ast.Lt):
            return a + " < " + b, pol
        if isinstance(o, ast.Gt):
            return b + " < " + a, pol
        if isinstance(o, ast.GtE):
            return a + " < " + b, not pol
        if isinstance(o, ast.LtE):
            return b + " < " + a, not pol
    return ast.unparse(t), pol


def atoms(t, pol):
    """the simple tests that are known once t came out as pol: (expression, outcome)"""
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, pol = t.operand, not pol
    if isinstance(t, ast.BoolOp):
        if isinstance(t.op, ast.And) == pol:
            return [a for v in t.values for a in atoms(v, pol)]
        return []
    if isinstance(t, ast.NamedExpr):
        return [(t.target, pol)]
    if isinstance(t, ast.Compare) and len(t.ops) > 1 and pol:
        seq = [t.left] + t.comparators
        return [(ast.copy_location(ast.Compare(left=seq[i], ops=[t.ops[i]], comparators=[seq[i + 1]]), t), True) for i in range(len(t.ops))]
    return [(t, pol)]


_names = {}


def mentions(txt):
    r = _names.get(txt)
    if r is None:
        try:
            r = frozenset(x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(ast.parse(txt, mode="eval")) if isinstance(x, (ast.Name, ast.Attribute)))
        except SyntaxError:
            r = frozenset()
        _names[txt] = r
    return r


class Paths:
    """on_store(target, value, stmt), on_call(call), on_fact(expr, outcome) return (flags to set, flags to drop) or None;
       at_call(call, states) and at_return(stmt, states) look on"""
    CAP = 600
    coarse, may = None, ()
    result_of = None        # (call, position or None) -> the constant it always returns there

    def __init__(self, func, on_store=None, on_call=None, on_fact=None, at_call=None, at_return=None, noreturn=None, on_del=None):
        self.func = func
        self.on_store, self.on_call, self.on_fact, self.at_call, self.at_return, self.noreturn = on_store, on_call, on_fact, at_call, at_return, noreturn
        self.on_del = on_del
        self.steps = 0
        self.tested = {}
        for n in ast.walk(func.node):
            ts = []
            if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                ts = [n.test]
            elif isinstance(n, ast.comprehension):
                ts = list(n.ifs)
            elif isinstance(n, ast.match_case) and n.guard is not None:
                ts = [n.guard]
            elif isinstance(n, ast.BoolOp) and not isinstance(getattr(n, "_parent", None), (ast.If, ast.While, ast.IfExp)):
                ts = list(n.values)
            while ts:
                t = ts.pop()
                while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    t = t.operand
                if isinstance(t, ast.BoolOp):
                    ts += t.values
                    continue
                k = self.base(atom(t)[0])
                self.tested[k] = self.tested.get(k, 0) + 1

    @staticmethod
    def base(k):
        return k[:-8] if k.endswith(" is None") else k

    # states
    def dedupe(self, sts):
        seen, res = set(), []
        for s in sts:
            k = s.key()
            if k not in seen:
                seen.add(k)
                res.append(s)
        self.steps += len(res)
        if self.coarse is not None and len(res) > self.coarse:
            # too many: forget the tests, then keep only the events all paths share (and those in `may` that any has)
            seen, few = set(), []
            for s in res:
                if s.flags not in seen:
                    seen.add(s.flags)
                    few.append(State(s.flags, {}, s.trail))
            if len(few) > self.coarse:
                fl = frozenset.intersection(*seen) | {x for f in seen for x in f if x[0] in self.may}
                few = [State(fl, {}, few[0].trail)]
            return few
        if len(res) > self.CAP or self.steps > 60000 and self.coarse is None:
            raise TooMany()
        return res

    def apply(self, sts, r):
        if not r:
            return sts
        add, drop = r
        return self.dedupe([State((s.flags - frozenset(drop)) | frozenset(add), s.facts, s.trail) for s in sts])

    def forget(self, sts, name, deep=False):
        """name (a variable or attribute) changed; deep: only what it holds"""
        res = []
        for s in sts:
            f = {k: v for k, v in s.facts.items() if name not in mentions(k) or (deep and (k == name or k == name + " is None"))}
            res.append(s if len(f) == len(s.facts) else State(s.flags, f, s.trail))
        return self.dedupe(res)

    def value(self, t, facts):
        """True, False or None"""
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.value(t.operand, facts)
            return None if v is None else not v
        if isinstance(t, ast.BoolOp):
            vs = [self.value(v, facts) for v in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else (None if None in vs else True)
            return True if True in vs else (None if None in vs else False)
        if isinstance(t, ast.NamedExpr):
            return None
        k, pol = atom(t)
        v = facts.get(k)
        if v is None:
            return None
        return v == pol

    def assume(self, sts, t, pol, note=None):
        res = []
        ats = atoms(t, pol)
        if isinstance(t, ast.BoolOp) and pol == isinstance(t.op, ast.Or) and len(t.values) <= 3 and any(self.tested.get(self.base(atom(e)[0]), 0) > 1 for v in t.values for e, _ in atoms(v, pol)):
            # the first of them decides, or the first does not and the second does, ...
            cur = sts
            for v in t.values:
                res += self.assume(cur, v, pol, note)
                cur = self.assume(cur, v, not pol)
            return self.dedupe(res)
        for s in sts:
            if self.value(t, s.facts) == (not pol):
                continue
            f, fl = dict(s.facts), s.flags
            for e, p in ats:
                k, kp = atom(e)
                if self.tested.get(self.base(k), 0) > 1:
                    f[k] = p == kp
                    if k.endswith(" is None") and f[k]:
                        f[k[:-8]] = False
                if self.on_fact:
                    r = self.on_fact(e, p)
                    if r:
                        fl = (fl - frozenset(r[1])) | frozenset(r[0])
            res.append(State(fl, f, s.trail + (note,) if note is not None and len(s.trail) < 40 else s.trail))
        return self.dedupe(res)

    # expressions
    def expr(self, n, sts):
        if n is None or not sts:
            return sts
        if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return sts
        if isinstance(n, ast.IfExp):
            sts = self.expr(n.test, sts)
            a = self.expr(n.body, self.assume(sts, n.test, True))
            b = self.expr(n.orelse, self.assume(sts, n.test, False))
            return self.dedupe([State(s.flags, s.facts, s.trail) for s in a + b])
        if isinstance(n, ast.BoolOp):
            cur = self.expr(n.values[0], sts)
            for i, v in enumerate(n.values[1:]):
                cur = self.expr(v, self.assume(cur, n.values[i], isinstance(n.op, ast.And)))
            if not cur:
                return self.expr(n.values[0], sts)
            # events in the operands are taken to happen; what the operands say is left to the caller's test
            common = frozenset.intersection(*[s.flags for s in cur])
            return self.dedupe([State(s.flags | common, s.facts, s.trail) for s in sts])
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            cur = sts
            for g in n.generators:
                cur = self.expr(g.iter, cur)
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        cur = self.forget(cur, x.id)
                for i in g.ifs:
                    cur = self.assume(self.expr(i, cur), i, True)
            for p in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                cur = self.expr(p, cur)
            flags = [s.flags for s in cur]
            if not cur:
                return sts
            # the elements may have been none at all; for events an element is assumed
            common = frozenset.intersection(*flags)
            return self.dedupe([State(s.flags | common, s.facts, s.trail) for s in sts])
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.keyword):
                c = c.value
            if isinstance(c, ast.expr):
                sts = self.expr(c, sts)
        if isinstance(n, ast.Call):
            if self.at_call:
                self.at_call(n, sts)
            if self.on_call:
                sts = self.apply(sts, self.on_call(n))
            if isinstance(n.func, ast.Attribute) and n.func.attr not in PURE:
                d = n.func.value
                while isinstance(d, (ast.Attribute, ast.Subscript, ast.Call)):
                    if isinstance(d, ast.Attribute):
                        sts = self.forget(sts, d.attr, True)
                    d = d.value if not isinstance(d, ast.Call) else d.func
                if isinstance(d, ast.Name):
                    sts = self.forget(sts, d.id, True)
        elif isinstance(n, ast.NamedExpr):
            sts = self.store(n.target, n.value, n, sts)
        return sts

    def store(self, t, value, stmt, sts):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None] * len(t.elts)
            for i, x in enumerate(t.elts):
                sts = self.store(x, vs[i] if vs[i] is not None else (value, i), stmt, sts)
            return sts
        if isinstance(t, ast.Starred):
            return self.store(t.value, None, stmt, sts)
        if self.on_store:
            sts = self.apply(sts, self.on_store(t, value, stmt))
        if self.result_of and not isinstance(stmt, (ast.For, ast.AsyncFor, ast.AugAssign)):
            c, i = value if isinstance(value, tuple) else (value, None)
            if isinstance(c, ast.Call):
                value = self.result_of(c, i) or value
        if isinstance(t, ast.Name):
            sts = self.forget(sts, t.id)
            if t.id not in self.tested:
                pass
            elif isinstance(value, ast.Constant) and not isinstance(stmt, ast.AugAssign):
                add = {t.id: bool(value.value), t.id + " is None": value.value is None}
                sts = [State(s.flags, dict(s.facts, **add), s.trail) for s in sts]
            elif isinstance(value, (ast.Dict, ast.List, ast.Set, ast.Tuple, ast.JoinedStr, ast.ListComp, ast.DictComp, ast.SetComp)):
                sts = [State(s.flags, dict(s.facts, **{t.id + " is None": False}), s.trail) for s in sts]
        elif isinstance(t, ast.Attribute):
            for e in (t.value,):
                sts = self.expr(e, sts)
            sts = self.forget(sts, t.attr)
            d = dotted(t)
            if d in self.tested and isinstance(value, ast.Constant) and not isinstance(stmt, ast.AugAssign):
                sts = [State(s.flags, dict(s.facts, **{d: bool(value.value), d + " is None": value.value is None}), s.trail) for s in sts]
        elif isinstance(t, ast.Subscript):
            sts = self.expr(t.value, self.expr(t.slice, sts))
            d = t.value
            if isinstance(d, ast.Name):
                sts = self.forget(sts, d.id, True)
            elif isinstance(d, ast.Attribute):
                sts = self.forget(sts, d.attr, True)
        return sts

    # statements: returns fall-through states; other exits are collected in self.out
    def block(self, body, sts, out):
        for s in body:
            if not sts:
                return []
            sts = self.dedupe(self.stmt(s, sts, out))
        return sts

    def stmt(self, s, sts, out):
        if isinstance(s, ast.Expr):
            sts = self.expr(s.value, sts)
            if isinstance(s.value, ast.Call) and self.noreturn and self.noreturn(s.value):
                return []
            return sts
        if isinstance(s, ast.Assign):
            sts = self.expr(s.value, sts)
            for t in s.targets:
                sts = self.store(t, s.value, s, sts)
            return sts
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return sts
            return self.store(s.target, s.value, s, self.expr(s.value, sts))
        if isinstance(s, ast.AugAssign):
            return self.store(s.target, s.value, s, self.expr(s.value, sts))
        if isinstance(s, ast.If):
            sts = self.expr(s.test, sts)
            a = self.block(s.body, self.assume(sts, s.test, True, (s.lineno, True)), out)
            b = self.block(s.orelse, self.assume(sts, s.test, False, (s.lineno, False)), out)
            return a + b
        if isinstance(s, (ast.For, ast.AsyncFor)):
            sts = self.expr(s.iter, sts)
            return self.inner(s, sts, out, lambda x: self.store(s.target, None, s, x), once=True)
        if isinstance(s, ast.While):
            return self.inner(s, sts, out, None, once=False)
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            mid = []
            inner = {"cont": [], "brk": [], "ret": []}
            cur = sts
            for x in s.body:
                if not cur:
                    break
                if not self.harmless(x):
                    mid += cur
                cur = self.dedupe(self.stmt(x, cur, inner))
            # what the failing statement did before it failed is not known; taken as nothing
            cur = self.block(s.orelse, cur, inner)
            res = list(cur)
            for h in s.handlers:
                hs = [State(x.flags, x.facts, x.trail + ((h.lineno, True),) if len(x.trail) < 40 else x.trail) for x in self.dedupe(mid)]
                if h.name:
                    hs = self.forget(hs, h.name)
                res += self.block(h.body, hs, inner)
            if s.finalbody:
                res = self.block(s.finalbody, self.dedupe(res), out)
                for k in inner:
                    out[k] += self.block(s.finalbody, self.dedupe(inner[k]), out)
            else:
                for k in inner:
                    out[k] += inner[k]
            return res
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                sts = self.expr(i.context_expr, sts)
                if i.optional_vars is not None:
                    sts = self.store(i.optional_vars, None, s, sts)
            return self.block(s.body, sts, out)
        if isinstance(s, ast.Match):
            sts = self.expr(s.subject, sts)
            res, rest = [], True
            for c in s.cases:
                cs = sts
                for x in ast.walk(c.pattern):
                    if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                        cs = self.forget(cs, x.name)
                if c.guard is not None:
                    cs = self.assume(self.expr(c.guard, cs), c.guard, True)
                res += self.block(c.body, cs, out)
                if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    rest = False
            return res + (list(sts) if rest else [])
        if isinstance(s, ast.Return):
            sts = self.expr(s.value, sts)
            if self.at_return:
                self.at_return(s, sts)
            out["ret"] += sts
            return []
        if isinstance(s, ast.Raise):
            self.expr(s.exc, sts)
            return []
        if isinstance(s, ast.Continue):
            out["cont"] += sts
            return []
        if isinstance(s, ast.Break):
            out["brk"] += sts
            return []
        if isinstance(s, ast.Assert):
            return self.assume(self.expr(s.test, sts), s.test, True)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if self.on_del:
                    sts = self.apply(sts, self.on_del(t, s))
                d = t.value if isinstance(t, ast.Subscript) else t
                d = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", None)
                if d:
                    sts = self.forget(sts, d, True)
            return sts
        return sts

    def harmless(self, s):
        """cannot raise"""
        if isinstance(s, (ast.Pass, ast.Continue, ast.Break, ast.Global, ast.Nonlocal)):
            return True
        if isinstance(s, ast.AugAssign):
            return isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant)
        if isinstance(s, ast.Assign):
            return all(isinstance(t, ast.Name) for t in s.targets) and isinstance(s.value, (ast.Constant, ast.Name))
        return False

    def inner(self, s, sts, out, bind, once):
        """an inner loop: a for loop is taken to run at least once, a while loop may run not at all"""
        ex = {"cont": [], "brk": [], "ret": []}
        changed = {x.id if isinstance(x, ast.Name) else x.attr for b in s.body for x in [b] + list(walk_own(b))
                   if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del))}
        done = []
        cur = sts
        test = getattr(s, "test", None)
        if not once:
            cur = self.expr(test, cur)
            done = self.assume(cur, test, False, (s.lineno, False))
            cur = self.assume(cur, test, True, (s.lineno, True))
        else:
            cur = bind(cur)
        f1 = self.block(s.body, cur, ex)
        after = self.dedupe(f1 + ex["cont"])
        # later rounds: what the loop changes is no longer known; events stay
        for c in changed:
            after = self.forget(after, c)
        if once:
            again = bind(after)
        else:
            again = self.assume(self.expr(test, after), test, True)
            after = self.assume(after, test, False)
        ex2 = {"cont": [], "brk": [], "ret": []}
        f2 = self.block(s.body, again, ex2)
        later = self.dedupe(f2 + ex2["cont"])
        for c in changed:
            later = self.forget(later, c)
        if not once:
            later = self.assume(later, test, False)
        normal = self.dedupe(done + after + later)
        out["ret"] += ex["ret"] + ex2["ret"]
        res = self.block(s.orelse, normal, out) if s.orelse else normal
        return res + ex["brk"] + ex2["brk"]

    def run(self, body, flags=(), facts=None):
        out = {"cont": [], "brk": [], "ret": []}
        fall = self.block(body, [State(frozenset(flags), dict(facts or {}))], out)
        return self.dedupe(fall), {k: self.dedupe(v) for k, v in out.items()}
