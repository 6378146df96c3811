"""P24: characters that are special to the Unicode set reader cannot reach the written text unescaped."""
import ast, re
from ..core import text, walk_own, bind, AnchorLost, Func
from ..consts import UNKNOWN, Regex
from ..facts import FactWalker, atoms, assigned
from ..reach import reach

TECHNIQUE = "abstract interpretation of the writer over sets of special characters (raw, or introduced by the writer), refined by the membership tests on each path"
NOTE = "Judges the characters with syntactic meaning; which others are written in hex is the caller's Unicode data. Calls that the interpreter does not know make it stay quiet."

FIXED = set("[]{}\\&-|^$:")
UNK = None          # unknown value


class Unknown(Exception):
    pass


RAW, INTRO, BAD = "raw", "intro", "bad"


class V:
    __slots__ = ("items", "char", "kind")

    def __init__(self, items=(), char=False, kind="str"):
        self.items, self.char, self.kind = frozenset(items), char, kind

    def join(self, o):
        if o is None:
            return self
        return V(self.items | o.items, self.char and o.char, self.kind if self.kind == o.kind else "str")

    def raw(self):
        return {c for k, c in self.items if k == RAW}

    def __eq__(self, o):
        return isinstance(o, V) and (self.items, self.char, self.kind) == (o.items, o.char, o.kind)

    def __hash__(self):
        return hash(self.items)


def joinv(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a.join(b)


class Interp:
    def __init__(self, prj, fold, special):
        self.prj, self.fold, self.special = prj, fold, special
        self.steps = 0
        self.funcs = set()
        self.stack = []

    # -- constants introduced by the writer
    def const(self, s):
        return V({(INTRO, c) for c in s if c in self.special}, len(s) == 1)

    def call(self, g, args):
        """args: parameter -> V"""
        self.steps += 1
        if self.steps > 4000 or len(self.stack) > 12 or g in self.stack:
            raise Unknown("recursion")
        self.funcs.add(g)
        self.stack.append(g)
        try:
            env = {}
            for p in g.allparams:
                env[p] = args.get(p)
            if g.is_lambda:
                return self.ev(g.node.body, env, g, [])
            self.rets = getattr(self, "rets", [])
            out = [None, False]
            self.block(g.node.body, env, g, [], out)
            if not out[1]:
                return None
            return out[0]
        finally:
            self.stack.pop()

    def block(self, body, env, g, facts, out):
        """returns env or None when control leaves"""
        for s in body:
            env = self.stmt(s, env, g, facts, out)
            if env is None:
                return None
        return env

    def refine(self, env, tests, g):
        """environment in which the atoms hold; None when impossible for a character"""
        env = dict(env)
        for a in tests:
            for n in a.names:
                v = env.get(n)
                if v is None or not v.char:
                    continue
                keep = set()
                for k, c in v.items:
                    if k in (BAD,):
                        keep.add((k, c))
                        continue
                    t = self.fold.fold(a.node, {n: c}, g.module, g)
                    if t is UNKNOWN:
                        t = self.predicate(a.node, n, c, g)
                    if t is UNKNOWN or bool(t) == a.pol:
                        keep.add((k, c))
                env[n] = V(keep, True, v.kind)
        return env

    def predicate(self, node, name, c, g):
        """a call of a project predicate on a constant character"""
        if isinstance(node, ast.Call):
            gs, exact = self.prj.callees(node, g, g.module)
            if exact and len(gs) == 1:
                b = bind(node, gs[0])
                e = {}
                for p, a in b.items():
                    x = self.fold.fold(a, {name: c}, g.module, g)
                    if x is UNKNOWN:
                        return UNKNOWN
                    e[p] = x
                r = truths(self.prj, self.fold, gs[0], e)
                if len(r) == 1:
                    return r.pop()
        return UNKNOWN

    def stmt(self, s, env, g, facts, out):
        self.steps += 1
        if isinstance(s, ast.Return):
            v = self.ev(s.value, env, g, facts) if s.value is not None else None
            out[0] = joinv(out[0], v) if out[1] else v
            out[1] = True
            return None
        if isinstance(s, ast.Raise):
            return None
        if isinstance(s, (ast.Continue, ast.Break)):
            if self.loopenv:
                self.loopenv[-1] = self.joinenv(self.loopenv[-1], env)
            return None
        if isinstance(s, ast.Assign):
            v = self.ev(s.value, env, g, facts)
            env = dict(env)
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env[t.id] = v
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for x in t.elts:
                        if isinstance(x, ast.Name):
                            env[x.id] = v if v is None else V(v.items, False, "str")
            return env
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return env
            env = dict(env)
            if isinstance(s.target, ast.Name):
                env[s.target.id] = self.ev(s.value, env, g, facts)
            return env
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            v = self.concat(env.get(s.target.id), self.ev(s.value, env, g, facts))
            env = dict(env)
            env[s.target.id] = v
            return env
        if isinstance(s, ast.Expr):
            c = s.value
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "add", "extend", "insert", "write") \
                    and isinstance(c.func.value, ast.Name) and c.func.value.id in env and c.args:
                v = self.ev(c.args[-1], env, g, facts)
                env = dict(env)
                o = env[c.func.value.id]
                env[c.func.value.id] = V((o.items if o else frozenset()) | (v.items if v else frozenset()), False, "list")
                if v is None:
                    raise Unknown(text(c))
                return env
            if isinstance(c, (ast.Yield,)):
                v = self.ev(c.value, env, g, facts)
                out[0] = joinv(out[0], V(v.items, False, "list") if v else v)
                out[1] = True
                return env
            return env
        if isinstance(s, ast.If):
            a = self.block(s.body, self.refine(env, atoms(s.test, True), g), g, facts + atoms(s.test, True), out)
            b = self.block(s.orelse, self.refine(env, atoms(s.test, False), g), g, facts + atoms(s.test, False), out)
            return self.joinenv(a, b)
        if isinstance(s, (ast.For, ast.While)):
            cur = env
            for _ in range(6):
                e = dict(cur)
                if isinstance(s, ast.For):
                    it = self.ev(s.iter, e, g, facts)
                    self.bindloop(s.target, s.iter, it, e)
                self.loopenv.append(None)
                e = self.block(s.body, e, g, facts, out)
                e = self.joinenv(e, self.loopenv.pop())
                nxt = self.joinenv(cur, e)
                if nxt == cur:
                    break
                cur = nxt
            return self.block(s.orelse, cur, g, facts, out) if s.orelse else cur
        if isinstance(s, ast.With):
            return self.block(s.body, env, g, facts, out)
        if isinstance(s, ast.Try):
            a = self.block(s.body + s.orelse, env, g, facts, out)
            r = a
            for h in s.handlers:
                r = self.joinenv(r, self.block(h.body, self.joinenv(env, a), g, facts, out))
            return self.block(s.finalbody, r, g, facts, out) if s.finalbody and r is not None else r
        return env

    loopenv = []

    def bindloop(self, t, itexpr, it, e):
        if isinstance(t, ast.Name):
            e[t.id] = self.element(it)
        elif isinstance(t, (ast.Tuple, ast.List)):
            isenum = isinstance(itexpr, ast.Call) and isinstance(itexpr.func, ast.Name) and itexpr.func.id == "enumerate"
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Name):
                    e[x.id] = None if isenum and i == 0 else self.element(it)

    def element(self, it):
        if it is None:
            return None
        return V(it.items, it.kind == "str", "str")

    def joinenv(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = {}
        for k in set(a) | set(b):
            r[k] = joinv(a.get(k), b.get(k))
        return r

    def concat(self, a, b):
        if a is None and b is None:
            return None
        if a is None or b is None:
            x = a or b
            return V(x.items, False, "str")
        return V(a.items | b.items, False, "str")

    def escape(self, v):
        """'\\' + v"""
        if v.char:
            items = {(INTRO, "\\")}
            for k, c in v.items:
                if k == INTRO:
                    items.add((BAD, "%r that the writer itself put there is escaped again" % c))
                elif k == BAD:
                    items.add((k, c))
            return V(items)
        return V(v.items | {(INTRO, "\\")})

    # -- expressions
    def ev(self, n, env, g, facts):
        """V or None (not text / unknown but harmless)"""
        self.steps += 1
        if n is None:
            return None
        if isinstance(n, ast.Constant):
            return self.const(n.value) if isinstance(n.value, str) else None
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            v = self.fold.value(n, g)
            return self.const(v) if isinstance(v, str) else None
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value, env, g, facts)
            env[n.target.id] = v
            return v
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            l = self.fold.value(n.left, g) if not isinstance(n.left, ast.Name) or n.left.id not in env else UNKNOWN
            r = self.ev(n.right, env, g, facts)
            if l == "\\" and r is not None:
                return self.escape(r)
            return self.concat(self.ev(n.left, env, g, facts), r)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            xs = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
            return self.template(re.split(r"%[#0-9.\-]*[a-zA-Z]", n.left.value), re.findall(r"%([#0-9.\-]*[a-zA-Z])", n.left.value), xs, env, g, facts)
        if isinstance(n, ast.JoinedStr):
            lits, specs, xs = [""], [], []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    lits[-1] += v.value
                else:
                    specs.append(ast.unparse(v.format_spec)[2:-1] if v.format_spec is not None else "")
                    xs.append(v.value)
                    lits.append("")
            return self.template(lits, specs, xs, env, g, facts)
        if isinstance(n, ast.IfExp):
            a = self.ev(n.body, self.refine(env, atoms(n.test, True), g), g, facts + atoms(n.test, True))
            b = self.ev(n.orelse, self.refine(env, atoms(n.test, False), g), g, facts + atoms(n.test, False))
            return joinv(a, b)
        if isinstance(n, ast.BoolOp):
            r = None
            for v in n.values:
                r = joinv(r, self.ev(v, env, g, facts))
            return r
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            e = dict(env)
            for c in n.generators:
                self.bindloop(c.target, c.iter, self.ev(c.iter, e, g, facts), e)
                for t in c.ifs:
                    e = self.refine(e, atoms(t, True), g)
            v = self.ev(n.elt, e, g, facts)
            return V(v.items, False, "list") if v is not None else None
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            r = V((), False, "list")
            for x in n.elts:
                v = self.ev(x, env, g, facts)
                if v is not None:
                    r = V(r.items | v.items, False, "list")
            return r
        if isinstance(n, ast.Subscript):
            v = self.ev(n.value, env, g, facts)
            if v is None:
                # table lookup: T[c]
                return self.lookup(n.value, n.slice, None, env, g, facts)
            return V(v.items, v.kind == "str" and not isinstance(n.slice, ast.Slice), "str" if not isinstance(n.slice, ast.Slice) else v.kind)
        if isinstance(n, ast.Call):
            return self.docall(n, env, g, facts)
        return None

    def template(self, lits, specs, xs, env, g, facts):
        r = self.const("".join(lits))
        items = set(r.items)
        for i, x in enumerate(xs):
            if i < len(specs) and specs[i][-1:] in ("x", "X", "d", "o", "b"):
                continue
            v = self.ev(x, env, g, facts)
            if v is None:
                continue
            if i < len(lits) and lits[i].endswith("\\") and v.char:
                items |= self.escape(v).items
            else:
                items |= v.items
        return V(items)

    def lookup(self, table, key, default, env, g, facts):
        t = self.fold.value(table, g)
        k = self.ev(key, env, g, facts)
        if not isinstance(t, dict) or k is None or not k.char:
            return None
        items = set()
        for kind, c in k.items:
            if kind == BAD:
                items.add((kind, c))
            elif c in t:
                r = t[c]
                if isinstance(r, str):
                    if r == "\\" + c or re.fullmatch(r"\\u[0-9A-Fa-f]{4}|\\U[0-9A-Fa-f]{8}|\\x[0-9A-Fa-f]{2}|\\[ux]\{[0-9A-Fa-f]+\}", r):
                        items.add((INTRO, "\\"))
                        if kind == INTRO and r == "\\" + c:
                            items.add((BAD, "%r that the writer itself put there is escaped again" % c))
                    elif r == c:
                        items.add((kind, c))
                    else:
                        items.add((BAD, "%r is written as %r" % (c, r)))
            elif default is not None:
                d = self.ev(default, env, g, facts)
                if d is not None and (kind, c) in d.items:
                    items.add((kind, c))
        return V(items)

    KEEP = ("str", "list", "sorted", "set", "reversed", "tuple", "iter", "enumerate", "frozenset")

    def docall(self, n, env, g, facts):
        f = n.func
        e = self.prj.ext_name(f, g, g.module)
        if isinstance(f, ast.Name) and e == "builtins." + f.id:
            if f.id in self.KEEP:
                return self.ev(n.args[0], env, g, facts) if n.args and not (f.id == "str" and len(n.args) > 1) else V((), False, "list" if f.id != "str" else "str")
            if f.id == "map" and len(n.args) == 2:
                v = self.ev(n.args[1], env, g, facts)
                r = self.apply(n.args[0], self.element(v), g)
                return V(r.items, False, "list") if r is not None else None
            if f.id in ("ord", "len", "int", "hash", "isinstance", "range", "any", "all"):
                return None
            if f.id == "chr":
                return V({(RAW, c) for c in self.special}, True)
        if e in ("unicodedata.normalize",) and len(n.args) == 2:
            return self.ev(n.args[1], env, g, facts)
        if e == "re.escape":
            raise Unknown("re.escape")
        if e in ("re.sub",) or isinstance(f, ast.Attribute) and f.attr == "sub" and isinstance(self.fold.value(f.value, g), Regex):
            return self.resub(n, e == "re.sub", env, g, facts)
        if isinstance(f, ast.Attribute):
            a = f.attr
            lit = self.fold.value(f.value, g) if not (isinstance(f.value, ast.Name) and f.value.id in env) else UNKNOWN
            if a == "format" and isinstance(lit, str):
                specs, lits = [], [""]
                i = 0
                for m in re.finditer(r"\{\{|\}\}|\{([^{}:!]*)(?:![a-z])?(?::([^{}]*))?\}|[^{}]+", lit):
                    t = m.group(0)
                    if t in ("{{", "}}"):
                        lits[-1] += t[0]
                    elif t.startswith("{"):
                        specs.append(m.group(2) or "")
                        lits.append("")
                    else:
                        lits[-1] += t
                return self.template(lits, specs, list(n.args) + [k.value for k in n.keywords], env, g, facts)
            if a == "join" and n.args:
                v = self.ev(n.args[0], env, g, facts)
                sep = self.const(lit) if isinstance(lit, str) else self.ev(f.value, env, g, facts)
                if v is None:
                    return None
                return V(v.items | (sep.items if sep else frozenset()))
            v = self.ev(f.value, env, g, facts)
            if v is not None:
                if a in ("strip", "lstrip", "rstrip", "lower", "upper", "expandtabs", "copy", "casefold", "title", "items", "values"):
                    return v
                if a == "replace" and len(n.args) >= 2:
                    x, y = self.fold.value(n.args[0], g), self.fold.value(n.args[1], g)
                    if isinstance(n.args[0], ast.Name) and n.args[0].id in env or x is UNKNOWN or y is UNKNOWN:
                        return self.replace_in_loop(n, v, env, g)
                    return self.replace(v, x, y)
                if a == "translate" and n.args:
                    t = self.fold.value(n.args[0], g)
                    if not isinstance(t, dict):
                        raise Unknown("translate")
                    items = set()
                    for k, c in v.items:
                        if k == BAD:
                            items.add((k, c))
                            continue
                        r = t.get(ord(c), c)
                        if r == c:
                            items.add((k, c))
                        elif r == "\\" + c:
                            items.add((INTRO, "\\"))
                            if k == INTRO:
                                items.add((BAD, "%r that the writer itself put there is escaped again" % c))
                        else:
                            items.add((BAD, "%r is written as %r" % (c, r)))
                    return V(items, False, v.kind)
                if a in ("startswith", "endswith", "find", "index", "count", "isalpha", "isdigit", "isspace"):
                    return None
            t = self.fold.value(f.value, g)
            if isinstance(t, dict) and a == "get":
                return self.lookup(f.value, n.args[0], n.args[1] if len(n.args) > 1 else None, env, g, facts)
        gs, exact = self.prj.callees(n, g, g.module)
        if exact and len(gs) == 1 and gs[0].name != "__init__":
            b = bind(n, gs[0])
            args = {p: self.ev(a, env, g, facts) for p, a in b.items()}
            for p, d in gs[0].defaults.items():
                if p not in args:
                    args[p] = self.const(d.value) if isinstance(d, ast.Constant) and isinstance(d.value, str) else None
            return self.call(gs[0], args)
        vs = [self.ev(a, env, g, facts) for a in n.args if not isinstance(a, ast.Starred)]
        if any(v is not None and v.items for v in vs) and not (gs and all(boolean(x) for x in gs)):
            raise Unknown(text(n))
        return None

    def replace(self, v, x, y):
        items = set()
        hit = False
        for k, c in v.items:
            if k != BAD and c == x:
                hit = True
                if y == "\\" + c:
                    if k == INTRO:
                        items.add((BAD, "%r that the writer itself put there is escaped again" % c))
                elif y == c:
                    items.add((k, c))
                else:
                    items.add((BAD, "%r is written as %r" % (c, y)))
            else:
                items.add((k, c))
        if isinstance(y, str) and isinstance(x, str) and (hit or x in self.special) and y.startswith("\\"):
            items.add((INTRO, "\\"))
        return V(items, False, v.kind)

    def replace_in_loop(self, n, v, env, g):
        """for c in CONST: s = s.replace(c, '\\' + c)"""
        p = n
        while p is not None and not isinstance(p, ast.For):
            p = p._parent
        if isinstance(p, ast.For) and isinstance(p.target, ast.Name):
            cs = self.fold.value(p.iter, g)
            try:
                cs = list(cs)
            except TypeError:
                raise Unknown("replace")
            for c in cs:
                x = self.fold.fold(n.args[0], {p.target.id: c}, g.module, g)
                y = self.fold.fold(n.args[1], {p.target.id: c}, g.module, g)
                if x is UNKNOWN or y is UNKNOWN:
                    raise Unknown("replace")
                v = self.replace(v, x, y)
            # the loop is interpreted several times; report repeated escapes only from one pass
            return V({(k, c) for k, c in v.items if not (k == BAD and "escaped again" in c and cs and cs[0] == "\\")}, False, v.kind)
        raise Unknown("replace")

    def apply(self, fn, v, g):
        if isinstance(fn, ast.Lambda):
            h = fn._func
        elif isinstance(fn, (ast.Name, ast.Attribute)):
            fake = ast.Call(func=fn, args=[], keywords=[])
            gs, exact = self.prj.callees(fake, g, g.module)
            e = self.prj.ext_name(fn, g, g.module)
            if e in ("builtins.str",):
                return v
            if len(gs) != 1:
                raise Unknown(text(fn))
            h = gs[0]
        else:
            raise Unknown(text(fn))
        ps = [p for p in h.params if p != h.selfname]
        return self.call(h, {ps[0]: v} if ps else {})

    def resub(self, n, modlevel, env, g, facts):
        args = list(n.args)
        kw = {k.arg: k.value for k in n.keywords}
        if modlevel:
            pat = self.fold.value(args[0], g)
            args = args[1:]
            fl = self.fold.value(kw["flags"], g) if "flags" in kw else 0
        else:
            pat = self.fold.value(n.func.value, g)
            fl = 0
        if isinstance(pat, Regex):
            pat, fl = pat.pattern, pat.flags
        if not isinstance(pat, str) or len(args) < 2 or not isinstance(fl, int):
            raise Unknown("re.sub")
        try:
            rx = re.compile(pat, fl)
        except re.error:
            raise Unknown("re.sub")
        v = self.ev(args[1], env, g, facts)
        if v is None:
            return None
        hit = {(k, c) for k, c in v.items if k != BAD and rx.fullmatch(c)}
        rest = set(v.items) - hit
        repl = self.fold.value(args[0], g)
        if isinstance(repl, str):
            for k, c in hit:
                try:
                    o = rx.fullmatch(c).expand(repl)
                except (re.error, IndexError):
                    raise Unknown("re.sub")
                if o == "\\" + c:
                    rest.add((INTRO, "\\"))
                    if k == INTRO:
                        rest.add((BAD, "%r that the writer itself put there is escaped again" % c))
                elif o == c:
                    rest.add((k, c))
                else:
                    rest.add((BAD, "%r is written as %r" % (c, o)))
            return V(rest, False, v.kind)
        # callback: the match object stands for the matched character
        fn = args[0]
        h = fn._func if isinstance(fn, ast.Lambda) else None
        if h is None:
            gs, exact = self.prj.callees(ast.Call(func=fn, args=[], keywords=[]), g, g.module)
            if len(gs) != 1:
                raise Unknown("re.sub")
            h = gs[0]
        ps = [p for p in h.params if p != h.selfname]
        m = V(hit, True, "match")
        r = self.callm(h, ps[0], m)
        if r is None:
            raise Unknown("re.sub")
        return V(rest | set(r.items), False, v.kind)

    def callm(self, h, p, m):
        sub = MatchInterp(self.prj, self.fold, self.special, p, V(m.items, True))
        sub.funcs = self.funcs
        return sub.call(h, {p: None})


class MatchInterp(Interp):
    """a callback of re.sub: p.group(...) and p[...] are the matched character"""
    def __init__(self, prj, fold, special, p, v):
        super().__init__(prj, fold, special)
        self.p, self.v = p, v

    def ev(self, n, env, g, facts):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "group" and isinstance(n.func.value, ast.Name) and n.func.value.id == self.p:
            return self.v
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == self.p:
            return self.v
        return super().ev(n, env, g, facts)


def boolean(g):
    """a predicate: every return is a truth value"""
    rs = [x.value for x in walk_own(g.node) if isinstance(x, ast.Return)]
    return bool(rs) and all(isinstance(r, (ast.Compare, ast.UnaryOp, ast.BoolOp)) or isinstance(r, ast.Constant) and isinstance(r.value, bool) or isinstance(r, ast.Call) for r in rs)


def truths(prj, fold, g, env, depth=4):
    """possible truth values of a function's result for constant arguments"""
    res = set()
    if depth <= 0:
        return {True, False}

    def val(n, facts):
        v = fold.fold(n, env, g.module, g)
        if v is not UNKNOWN:
            return {bool(v)}
        return {True, False}

    class W(FactWalker):
        def stmt(s_, s, facts):
            if isinstance(s, ast.Return):
                for a in facts:
                    v = fold.fold(a.node, env, g.module, g)
                    if v is not UNKNOWN and bool(v) != a.pol:
                        return
                res.update(val(s.value, facts) if s.value is not None else {False})
    if g.is_lambda:
        return val(g.node.body, [])
    w = W(g)
    end = w.block(g.node.body, [])
    if end is not None and not any(fold.fold(a.node, env, g.module, g) is not UNKNOWN and bool(fold.fold(a.node, env, g.module, g)) != a.pol for a in end):
        res.add(False)
    return res


def reader_special(prj, m, fold):
    """characters the reader's functions dispatch on"""
    res = set()
    for f in m.funcs.values():
        if not f.name.startswith("parse"):
            continue

        class W(FactWalker):
            def expr(s, n, facts):
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Subscript) and isinstance(n.ops[0], (ast.Eq, ast.In)) \
                        and not any("usegroups" in a.names for a in facts):
                    v = fold.value(n.comparators[0], f)
                    if isinstance(v, str) and not any(c.isalnum() for c in v):
                        res.update(v)
        W(f).run()
    return res - {" "}


def lenpred(prj, fold, test, f, s, depth=4):
    """possible truth values of a test when the text it looks at is the constant s"""
    if depth <= 0:
        return {True, False}
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return {not x for x in lenpred(prj, fold, test.operand, f, s, depth)}
    if isinstance(test, ast.Name):
        ds = reach(f).use.get(test)
        if ds and all(d[0] == "expr" for d in ds):
            r = set()
            for d in ds:
                r |= lenpred(prj, fold, d[1], f, s, depth - 1)
            return r
    if isinstance(test, ast.Call):
        gs, exact = prj.callees(test, f, f.module)
        if exact and len(gs) == 1 and len(gs[0].params) >= 1:
            b = bind(test, gs[0])
            if len(b) == 1:
                return truths(prj, fold, gs[0], {k: s for k in b})
        return {True, False}
    if isinstance(test, ast.BoolOp):
        rs = [lenpred(prj, fold, v, f, s, depth) for v in test.values]
        out = set()
        if isinstance(test.op, ast.And):
            if all(True in r for r in rs):
                out.add(True)
            if any(False in r for r in rs):
                out.add(False)
        else:
            if any(True in r for r in rs):
                out.add(True)
            if all(False in r for r in rs):
                out.add(False)
        return out
    names = {x.id for x in ast.walk(test) if isinstance(x, ast.Name)} & (f.locals | set(f.allparams))
    v = fold.fold(test, {n: s for n in names}, f.module, f)
    return {bool(v)} if v is not UNKNOWN else {True, False}


def run(prj, fold, rep):
    m = prj.module("UnicodeSets")
    w = m.funcs.get("list2us")
    if w is None:
        raise AnchorLost("UnicodeSets.list2us not found")
    special = FIXED | reader_special(prj, m, fold)
    rep.count("special_characters", len(special))
    rep.rule("no special character of the members reaches the result of list2us except behind a backslash or in hex; nothing is escaped twice; several characters are braced")
    it = Interp(prj, fold, special)
    it.loopenv = []
    try:
        args = {w.params[0]: V({(RAW, c) for c in special}, False, "list")}
        v = it.call(w, args)
    except Unknown as e:
        rep.note("the writer is not fully understood (%s): escaping is not judged" % e)
        v = None
    rep.count("writer_functions", len(it.funcs))
    for f in it.funcs:
        rep.site(f.qual)
    if v is not None:
        for c in sorted(v.raw()):
            rep.finding("unescaped", w, c, "%r can be written without an escape" % c, w.node)
        for k, c in sorted(v.items):
            if k == BAD:
                rep.finding("escape", w, c, c, w.node)
    # hex widths
    for f in it.funcs or {w}:
        hexwidths(prj, fold, rep, f)
    # braces
    for f in it.funcs or {w}:
        braces(prj, fold, rep, f)
    # the reader protects what hex escapes stand for
    p = m.funcs.get("parse")
    if p is not None:
        for n in walk_own(p.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "chr":
                q, prev = n._parent, n
                while q is not None and not isinstance(q, (ast.Lambda, ast.stmt)):
                    q = q._parent
                if not isinstance(q, ast.Lambda):
                    continue
                rep.count("reader_decodings")
                it2 = Interp(prj, fold, special | {" "})
                it2.loopenv = []
                try:
                    r = it2.ev(q.body, {}, q._func, [])
                except Unknown:
                    continue
                if r is not None and r.raw():
                    rep.finding("reader", p, text(n), "a character written in hex (such as %s) becomes syntax when it is decoded" % " ".join(sorted(repr(c) for c in r.raw())), n)


def hexwidths(prj, fold, rep, f):
    class W(FactWalker):
        def expr(s, n, facts):
            lit, args = None, []
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format":
                lit, args = fold.value(n.func.value, f), n.args
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                lit, args = fold.value(n.left, f), n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
                if isinstance(lit, str):
                    lit = re.sub(r"%([0-9]*[xX])", r"{:\1}", lit)
            elif isinstance(n, ast.JoinedStr):
                lit = "".join(v.value if isinstance(v, ast.Constant) else "{:%s}" % (ast.unparse(v.format_spec)[2:-1] if v.format_spec is not None else "") for v in n.values)
                args = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
            if not isinstance(lit, str):
                return
            mm = re.fullmatch(r"\\([uUx])\{[0-9]?:?([0-9]*)([xX])\}", lit)
            if not mm:
                return
            rep.count("hex_formats")
            k, wd = mm.group(1), mm.group(2)
            need = {"u": 4, "U": 8, "x": 2}[k]
            if wd != "0%d" % need:
                rep.finding("hex-width", f, text(n), "\\%s is read with %d digits but written with format %r" % (k, need, wd + mm.group(3)), n)
                return
            limit = 16 ** need - 1
            if k == "U" or not args:
                return
            top = 0x10FFFF
            for a in facts:
                c = a.node
                if isinstance(c, ast.Compare) and len(c.ops) == 1:
                    for l, op, r in ((c.left, type(c.ops[0]), c.comparators[0]), (c.comparators[0], {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(c.ops[0])), c.left)):
                        x = fold.value(r, f)
                        if isinstance(x, str) and len(x) == 1:
                            x = ord(x)
                        if not isinstance(x, int) or op is None or fold.value(l, f) is not UNKNOWN:
                            continue
                        if not a.pol:
                            op = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt}.get(op)
                        if op is ast.Lt:
                            top = min(top, x - 1)
                        elif op is ast.LtE:
                            top = min(top, x)
            if top > limit:
                rep.finding("hex-width", f, text(n), "code points up to %X can be written as \\%s, which is read with %d digits" % (top, k, need), n)
    W(f).run()


def braces(prj, fold, rep, f):
    """a step that puts braces round a member runs whenever the member has several characters"""
    def adds(n, depth=2):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            l = n
            while isinstance(l, ast.BinOp):
                l = l.left
            return fold.value(l, f) == "{"
        if isinstance(n, ast.JoinedStr):
            return bool(n.values) and isinstance(n.values[0], ast.Constant) and n.values[0].value.startswith("{") and len(n.values) > 1
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format":
            v = fold.value(n.func.value, f)
            return isinstance(v, str) and v.startswith("{{")
        if isinstance(n, ast.Call) and depth:
            gs, exact = prj.callees(n, f, f.module)
            if exact and len(gs) == 1:
                g = gs[0]
                rs = [x.value for x in walk_own(g.node) if isinstance(x, ast.Return) and x.value is not None]
                if len(rs) == 1 and isinstance(rs[0], (ast.BinOp, ast.JoinedStr)):
                    l = rs[0]
                    if isinstance(l, ast.JoinedStr):
                        return bool(l.values) and isinstance(l.values[0], ast.Constant) and l.values[0].value.startswith("{")
                    while isinstance(l, ast.BinOp):
                        l = l.left
                    return isinstance(l, ast.Constant) and l.value == "{"
        return False

    class W(FactWalker):
        def expr(s, n, facts):
            if not adds(n) or not facts or isinstance(n._parent, ast.BinOp):
                return
            rep.count("brace_sites")
            for a in facts:
                for t in ("ab", "abc"):
                    v = lenpred(prj, fold, a.node, f, t)
                    if v == {not a.pol}:
                        rep.finding("braces", f, text(n), "a member of %d characters is written without braces" % len(t), n)
                        return
    W(f).run()


U = "lib/sldr/UnicodeSets.py"
EXAMPLES = [
    ("good", {U: "def esc(s):\n    return '\\\\' + s if s in '[]{}\\\\&-|^$:' else s\ndef list2us(l):\n    res = []\n    for t in l:\n        n = len(t) > 1\n        t = ''.join(esc(c) for c in t)\n        if n:\n            t = '{' + t + '}'\n        res.append(t)\n    return '[{}]'.format(' '.join(res))\n"}, False),
    ("missing dollar", {U: "def esc(s):\n    return '\\\\' + s if s in '[]{}\\\\&-|^:' else s\ndef list2us(l):\n    return '[' + ' '.join([''.join(map(esc, t)) for t in l]) + ']'\n"}, ["unescaped"]),
    ("not called", {U: "def list2us(l):\n    return '[' + ' '.join(t for t in l) + ']'\n"}, ["unescaped"] * 11),
    ("guarded by length", {U: "def esc(s):\n    if len(s) == 1 and s in '[]{}\\\\&-|^$:':\n        return '\\\\' + s\n    return s\ndef list2us(l):\n    return '[' + ' '.join([''.join(map(esc, t)) for t in l]) + ']'\n"}, False),
    ("escaped after bracing", {U: "def esc(s):\n    return '\\\\' + s if s in '[]{}\\\\&-|^$:' else s\ndef list2us(l):\n    return '[' + ' '.join([''.join(map(esc, '{' + t + '}')) for t in l]) + ']'\n"}, ["escape", "escape"]),
    ("escaped twice", {U: "def esc(s):\n    return '\\\\' + s if s in '[]{}\\\\&-|^$:' else s\ndef list2us(l):\n    return '[' + ' '.join([''.join(map(esc, ''.join(map(esc, t)))) for t in l]) + ']'\n"}, ["escape"]),
    ("translate", {U: "T = {ord(c): '\\\\' + c for c in '[]{}\\\\&-|^$:'}\ndef list2us(l):\n    return '[' + ' '.join(t.translate(T) for t in l) + ']'\n"}, False),
    ("regex", {U: "import re\ndef list2us(l):\n    return '[' + ' '.join(re.sub(r'([\\[\\]{}\\\\&|^$:-])', r'\\\\\\1', t) for t in l) + ']'\n"}, False),
    ("regex misses", {U: "import re\ndef list2us(l):\n    return '[' + ' '.join(re.sub(r'([\\[\\]{}\\\\&|^$-])', r'\\\\\\1', t) for t in l) + ']'\n"}, ["unescaped"]),
    ("hex width", {U: "def hx(c):\n    return '\\\\u{:04x}'.format(ord(c))\ndef list2us(l):\n    return '[' + ' '.join(''.join(hx(c) for c in t) for t in l) + ']'\n"}, ["hex-width"]),
    ("hex width ok", {U: "def hx(c):\n    p = ord(c)\n    if p > 0xFFFF:\n        return '\\\\U{:08x}'.format(p)\n    return '\\\\u{:04x}'.format(p)\ndef list2us(l):\n    return '[' + ' '.join(''.join(hx(c) for c in t) for t in l) + ']'\n"}, False),
    ("braces from three", {U: "def esc(s):\n    return '\\\\' + s if s in '[]{}\\\\&-|^$:' else s\ndef need(t):\n    if len(t) > 2:\n        return True\n    return False\ndef list2us(l):\n    res = []\n    for t in l:\n        n = need(t)\n        t = ''.join(esc(c) for c in t)\n        if n:\n            t = '{' + t + '}'\n        res.append(t)\n    return '[' + ' '.join(res) + ']'\n"}, ["braces"]),
    ("reader", {U: "import re\nh = re.compile(r'\\\\u([0-9a-f]{4})')\ndef parse(s):\n    return h.sub(lambda m: chr(int(m.group(1), 16)), s)\ndef list2us(l):\n    return '[]'\n"}, ["reader"]),
]
