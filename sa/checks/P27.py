"""P27: patterns compile, groups exist, replacement templates are valid, flags are flags, failed matches are checked."""
import ast, re
import re._parser as sre_parse
import warnings
from ..core import text, walk_own, bind, parents
from ..consts import UNKNOWN, Regex, callers
from ..facts import FactWalker, Fact
from ..reach import reach
from ..noret import noreturn

TECHNIQUE = "constant folding of patterns + reaching definitions from match to group access + must-fact dataflow for failed matches"
NOTE = "Patterns that do not fold to constants (built from data) are only judged for flags and None checks; a match stored in a container or field is not followed."

MODULE = {"match": 2, "search": 2, "fullmatch": 2, "sub": 4, "subn": 4, "split": 3, "findall": 2, "finditer": 2, "compile": 1}
METHODS = ("match", "search", "fullmatch", "sub", "subn", "split", "findall", "finditer")
MATCHERS = ("match", "search", "fullmatch")


def regex_ctor(prj, n, f):
    e = prj.ext_name(n.func, f, f.module)
    if e and e.startswith(("re.", "regex.")) and e.split(".", 1)[1] in MODULE:
        return e.split(".", 1)[1]
    return None


class Use:
    """one use of a regular expression: op, pattern expression, other argument expressions"""
    def __init__(self, call, op, module_level, arg):
        self.call, self.op, self.module_level, self.arg = call, op, module_level, arg


def args_of(call, names):
    res = {}
    for n, a in zip(names, call.args):
        if isinstance(a, ast.Starred):
            break
        res[n] = a
    for k in call.keywords:
        if k.arg:
            res[k.arg] = k.value
    return res


SIG = {"match": ["pattern", "string", "flags"], "search": ["pattern", "string", "flags"], "fullmatch": ["pattern", "string", "flags"],
       "sub": ["pattern", "repl", "string", "count", "flags"], "subn": ["pattern", "repl", "string", "count", "flags"],
       "split": ["pattern", "string", "maxsplit", "flags"], "findall": ["pattern", "string", "flags"],
       "finditer": ["pattern", "string", "flags"], "compile": ["pattern", "flags"]}
MSIG = {"match": ["string", "pos", "endpos"], "search": ["string", "pos", "endpos"], "fullmatch": ["string", "pos", "endpos"],
        "sub": ["repl", "string", "count"], "subn": ["repl", "string", "count"], "split": ["string", "maxsplit"],
        "findall": ["string", "pos", "endpos"], "finditer": ["string", "pos", "endpos"]}


class Env:
    def __init__(self, prj, fold, rep):
        self.prj, self.fold, self.rep = prj, fold, rep
        self.compiled = {}

    # -- pattern values
    def values(self, n, f, depth=3, env=None):
        """list of constant values an expression can have, or None"""
        v = self.fold.fold(n, env or {}, f.module, f)
        if v is not UNKNOWN:
            return [v]
        if isinstance(n, ast.IfExp):
            a, b = self.values(n.body, f, depth, env), self.values(n.orelse, f, depth, env)
            return None if a is None or b is None else a + b
        if depth <= 0:
            return None
        if isinstance(n, ast.Name) and not (env and n.id in env):
            ds = reach(f).use.get(n)
            if ds and all(d[0] == "expr" for d in ds):
                res = []
                for d in ds:
                    w = self.values(d[1], f, depth - 1, env)
                    if w is None:
                        return None
                    res += w
                return res
        # parameters: one folding per call in the project
        g = f
        ps = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        while g is not None and not (ps & set(g.allparams)):
            g = g.outer if g.is_lambda or g.outer is not None else None
        if g is None or env is not None:
            return None
        ps &= set(g.allparams)
        if any(isinstance(x, ast.Name) and x.id in ps and isinstance(x.ctx, ast.Store) for x in walk_own(g.node)):
            return None
        res = []
        cs = callers(self.prj).get(g, [])
        if not cs:
            return None
        for c, cf in cs:
            b = bind(c, g)
            e = {}
            for p in ps:
                a = b.get(p, g.defaults.get(p))
                w = self.values(a, cf, depth - 1) if a is not None else None
                if w is None or len(w) != 1:
                    return None
                e[p] = w[0]
            w = self.values(n, f, 0, e)
            if w is None:
                return None
            res += w
        return res

    def comp(self, pattern, flags=0):
        """(compiled or None, error)"""
        k = (pattern, int(flags))
        if k not in self.compiled:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    self.compiled[k] = (re.compile(pattern, flags), None)
            except (re.error, TypeError, ValueError, OverflowError, RecursionError) as e:
                self.compiled[k] = (None, str(e))
        return self.compiled[k]

    def pattern_of(self, n, f, flags=0, env=None):
        """list of compiled patterns, or None"""
        vs = self.values(n, f, env=env)
        if vs is None:
            return None
        res = []
        for v in vs:
            if isinstance(v, Regex):
                if not isinstance(v.pattern, (str, bytes)) or not isinstance(v.flags, int):
                    return None
                c = self.comp(v.pattern, v.flags)[0]
            elif isinstance(v, (str, bytes)):
                c = self.comp(v, flags)[0]
            else:
                return None
            if c is None:
                return None
            res.append(c)
        return res

    def use(self, n, f):
        """Use for a call, or None"""
        op = regex_ctor(self.prj, n, f)
        if op:
            return Use(n, op, True, args_of(n, SIG[op]))
        if isinstance(n.func, ast.Attribute) and n.func.attr in METHODS:
            vs = self.values(n.func.value, f)
            if vs and all(isinstance(v, Regex) for v in vs):
                return Use(n, n.func.attr, False, dict(args_of(n, MSIG[n.func.attr]), pattern=n.func.value))
            if isinstance(n.func.value, ast.Call) and regex_ctor(self.prj, n.func.value, f) == "compile":
                return Use(n, n.func.attr, False, dict(args_of(n, MSIG[n.func.attr]), pattern=n.func.value))
            if self.maybe_regex(n.func.value, f):
                return Use(n, n.func.attr, False, dict(args_of(n, MSIG[n.func.attr]), pattern=n.func.value))
        return None

    def maybe_regex(self, n, f):
        """field every assignment of which compiles an expression (or is None)"""
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            c = self.prj.self_class(n.value.id, f)
            if c is not None:
                sites = [s for k in c.family() for s in k.selfattrs.get(n.attr, [])]
                vals = [x._parent.value for _, x in sites if isinstance(x._parent, ast.Assign)]
                return bool(vals) and len(vals) == len(sites) and any(isinstance(v, ast.Call) and regex_ctor(self.prj, v, g) == "compile"
                                                                     for v, (g, _) in zip(vals, sites)) \
                    and all(isinstance(v, ast.Constant) or isinstance(v, ast.Call) and regex_ctor(self.prj, v, g) == "compile" for v, (g, _) in zip(vals, sites))
        if isinstance(n, ast.Name):
            ds = reach(f).use.get(n)
            if ds:
                return all(d[0] == "expr" and isinstance(d[1], ast.Call) and regex_ctor(self.prj, d[1], f) == "compile" for d in ds)
        return False

    def flags_of(self, u, f):
        a = u.arg.get("flags")
        if a is None:
            return 0
        v = self.fold.value(a, f)
        return v if isinstance(v, int) and v is not UNKNOWN else None

    def patterns(self, u, f, env=None):
        fl = self.flags_of(u, f)
        if fl is None or "pattern" not in u.arg:
            return None
        return self.pattern_of(u.arg["pattern"], f, fl, env)

    # -- where a match object comes from
    def sources(self, n, f, depth=4, env=None):
        """list of (patterns or None, nullable, defining expression) for an expression holding a match object, or None when it may hold something else"""
        if depth <= 0:
            return None
        if isinstance(n, ast.NamedExpr):
            return self.sources(n.value, f, depth, env)
        if isinstance(n, ast.Constant) and n.value is None:
            return [(None, True, n)]
        if isinstance(n, ast.IfExp):
            a, b = self.sources(n.body, f, depth, env), self.sources(n.orelse, f, depth, env)
            return None if a is None or b is None else a + b
        if isinstance(n, ast.BoolOp):
            res = []
            for i, v in enumerate(n.values):
                s = self.sources(v, f, depth, env)
                if s is None:
                    return None
                last = i == len(n.values) - 1
                if isinstance(n.op, ast.Or):
                    res += [(p, null and last, d) for p, null, d in s]
                elif last:
                    res += s
                else:
                    res.append((None, True, v))
            return res
        if isinstance(n, ast.Call):
            u = self.use(n, f)
            if u is None and env and isinstance(n.func, ast.Attribute) and n.func.attr in METHODS and isinstance(n.func.value, ast.Name) and n.func.value.id in env:
                u = Use(n, n.func.attr, False, dict(args_of(n, MSIG[n.func.attr]), pattern=n.func.value))
            if u is not None:
                if u.op in MATCHERS:
                    p = self.patterns(u, f, env)
                    return [(p, not (p and u.op != "fullmatch" and all(cannot_fail(x) for x in p)), n)]
                return None
            gs, exact = self.prj.callees(n, f, f.module)
            if not exact or len(gs) != 1 or gs[0].name == "__init__":
                return None
            g = gs[0]
            b = bind(n, g)
            e = {}
            for p, a in b.items():
                vs = self.values(a, f, env=env)
                if vs and len(vs) == 1:
                    e[p] = vs[0]
            res = []
            rets = []

            class W(FactWalker):
                def stmt(s_, s, facts):
                    if isinstance(s, ast.Return):
                        rets.append((s, facts))
            w = W(g)
            w.noreturn = noreturn(self.prj, g)
            if g.is_lambda:
                rets.append((ast.Return(value=g.node.body), []))
                ends = None
            else:
                ends = w.block(g.node.body, [])
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(g.node)):
                return None
            for s, facts in rets:
                if s.value is None:
                    res.append((None, True, n))
                    continue
                r = self.sources(s.value, g, depth - 1, e)
                if r is None:
                    return None
                ok = checked(s.value, facts, r)
                res += [(p, null and not ok, n) for p, null, _ in r]
            if ends is not None:
                res.append((None, True, n))
            return res if any(p is not None or True for p, _, _ in res) and rets else None
        if isinstance(n, ast.Name):
            ds = reach(f).use.get(n)
            if ds is None:
                return self.outer_match(n, f, depth)
            res = []
            for d in ds:
                if d[0] == "expr":
                    r = self.sources(d[1], f, depth - 1, env)
                    if r is None:
                        return None
                    res += r
                elif d[0] == "iter" and d[2] is None:
                    r = self.elements(d[1], f, depth - 1, env)
                    if r is None:
                        return None
                    res += r
                elif d[0] == "param":
                    r = self.callback(d[1], n, f)
                    if r is None:
                        return None
                    res += r
                elif d[0] == "undef":
                    continue
                else:
                    return None
            return res
        return None

    def outer_match(self, n, f, depth):
        """name of an enclosing function or lambda parameter"""
        for p in parents(n):
            g = getattr(p, "_func", None)
            if g is None:
                continue
            if n.id in g.params:
                return self.callback(n.id, n, g)
            if g is not f and n.id in g.locals:
                return None
        return None

    def callback(self, pname, n, f):
        """a parameter that receives match objects from re.sub"""
        g = f
        if pname not in g.params:
            for p in parents(n):
                q = getattr(p, "_func", None)
                if q is not None and pname in q.params:
                    g = q
                    break
        ps = [p for p in g.params if p != g.selfname]
        if not ps or ps[0] != pname:
            return None
        refs = []
        if g.is_lambda:
            refs.append((g.node, g.outer or g.module.main))
        else:
            for h in self.prj.funcs:
                if h.module is not g.module:
                    continue
                for x in walk_own(h.node):
                    if isinstance(x, ast.Name) and x.id == g.name and isinstance(x.ctx, ast.Load) and self.prj.lookup(x.id, h, h.module) is g:
                        refs.append((x, h))
                    elif isinstance(x, ast.Attribute) and x.attr == g.name and isinstance(x.ctx, ast.Load) and g.cls is not None:
                        refs.append((x, h))
        if not refs:
            return None
        res = []
        for x, h in refs:
            c = x._parent
            while isinstance(c, (ast.keyword,)):
                c = c._parent
            if not isinstance(c, ast.Call):
                return None
            u = self.use(c, h)
            if u is None or u.op not in ("sub", "subn") or u.arg.get("repl") is not x:
                return None
            res.append((self.patterns(u, h), False, c))
        return res

    def elements(self, n, f, depth, env):
        if depth <= 0:
            return None
        if isinstance(n, ast.Call):
            u = self.use(n, f)
            if u is not None and u.op == "finditer":
                return [(self.patterns(u, f, env), False, n)]
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "reversed", "sorted") and len(n.args) == 1:
                return self.elements(n.args[0], f, depth, env)
            return None
        if isinstance(n, (ast.GeneratorExp, ast.ListComp)):
            if isinstance(n.elt, ast.Call):
                return self.sources(n.elt, f, depth, env)
            return None
        if isinstance(n, (ast.Tuple, ast.List)):
            res = []
            for x in n.elts:
                r = self.sources(x, f, depth, env)
                if r is None:
                    return None
                res += r
            return res or None
        if isinstance(n, ast.Name):
            ds = reach(f).use.get(n)
            if ds and all(d[0] == "expr" for d in ds):
                res = []
                for d in ds:
                    r = self.elements(d[1], f, depth - 1, env)
                    if r is None:
                        return None
                    res += r
                return res
        return None


def cannot_fail(p):
    """the pattern matches at any position of any text"""
    try:
        t = sre_parse.parse(p.pattern, p.flags & ~re.U if isinstance(p.pattern, bytes) else p.flags)
    except Exception:
        return False

    def ok(seq):
        for op, av in seq:
            o = str(op)
            if o in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                if av[0] == 0:
                    continue
                if not ok(av[2]):
                    return False
            elif o == "SUBPATTERN":
                if not ok(av[3]):
                    return False
            elif o == "BRANCH":
                if not any(ok(x) for x in av[1]):
                    return False
            elif o == "AT" and "BEGINNING" in str(av):
                continue
            else:
                return False
        return True
    return ok(t)


def optional_groups(p):
    """numbers of the groups that may be absent from a successful match"""
    try:
        t = sre_parse.parse(p.pattern, p.flags & ~re.U if isinstance(p.pattern, bytes) else p.flags)
    except Exception:
        return set()
    res = set()

    def go(seq, opt):
        for op, av in seq:
            o = str(op)
            if o in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                go(av[2], opt or av[0] == 0)
            elif o == "SUBPATTERN":
                if av[0] is not None and opt:
                    res.add(av[0])
                go(av[3], opt)
            elif o == "BRANCH":
                for x in av[1]:
                    go(x, True)
            elif o == "GROUPREF_EXISTS":
                go(av[1], True)
                if av[2]:
                    go(av[2], True)
            elif o == "ATOMIC_GROUP":
                go(av, opt)
            elif o == "ASSERT":
                go(av[1], opt)
            elif o == "ASSERT_NOT":
                go(av[1], True)
    go(t, False)
    return res


def bare_uses(fact, name):
    """the fact speaks about the name itself, not about something read from it"""
    for x in ast.walk(fact.node):
        if isinstance(x, ast.Name) and x.id == name:
            used = False
            for y in ast.walk(fact.node):
                if isinstance(y, (ast.Attribute, ast.Subscript)) and y.value is x:
                    used = True
            if not used:
                return True
    return False


def says_none(fact, name):
    """fact that asserts the name is None/false"""
    n = fact.node
    if isinstance(n, ast.Name):
        return not fact.pol
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.left, ast.Name) and n.left.id == name \
            and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
        return isinstance(n.ops[0], (ast.Is, ast.Eq)) == fact.pol
    return False


def checked(n, facts, srcs):
    if isinstance(n, ast.NamedExpr):
        n = n.target
    dumps = {ast.dump(d) for _, null, d in srcs if null and isinstance(d, ast.expr)} | {ast.dump(n)}
    for f in facts:
        if f.pol and ast.dump(f.node) in dumps:
            return True
        if isinstance(f.node, ast.Compare) and ast.dump(f.node.left) in dumps and not isinstance(n, ast.Name) \
                and isinstance(f.node.comparators[0], ast.Constant) and f.node.comparators[0].value is None:
            if isinstance(f.node.ops[0], (ast.Is, ast.Eq)) != f.pol:
                return True
    if isinstance(n, ast.Name):
        for f in facts:
            if n.id in f.names and bare_uses(f, n.id) and not says_none(f, n.id):
                return True
    return False


def tried(n, stop):
    """an enclosing try catches the AttributeError of a failed match"""
    prev = n
    for p in parents(n):
        if isinstance(p, ast.Try) and prev in p.body:
            for h in p.handlers:
                names = [ast.unparse(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type else [])]
                if h.type is None or any(x in ("AttributeError", "TypeError", "Exception", "BaseException") for x in names):
                    return True
        if isinstance(p, ast.With) and any("suppress" in ast.unparse(i.context_expr) for i in p.items):
            return True
        if p is stop:
            break
        prev = p
    return False


def group_args(n, fold, f):
    """constant group references of m.group(...), m[...]"""
    if isinstance(n, ast.Subscript):
        a = [n.slice]
    else:
        a = n.args
    res = []
    for x in a:
        if isinstance(x, ast.Starred):
            v = fold.value(x.value, f)
            if v is not UNKNOWN and isinstance(v, (list, tuple)):
                res += [(y, x) for y in v]
            continue
        v = fold.value(x, f)
        if v is not UNKNOWN and isinstance(v, (int, str)) and not isinstance(v, bool):
            res.append((v, x))
    return res


def has(p, g):
    return g in p.groupindex if isinstance(g, str) else 0 <= g <= p.groups


READS = ("group", "groups", "groupdict", "start", "end", "span", "expand", "string", "pos", "endpos", "lastindex", "lastgroup", "re", "regs")


def run(prj, fold, rep):
    env = Env(prj, fold, rep)
    rep.rule("constant patterns compile; groups read exist; templates valid; flags in flag positions; failed matches checked")
    for f in prj.funcs:
        for n in walk_own(f.node, include_lambda=False):
            if isinstance(n, ast.Call):
                u = env.use(n, f)
                if u is not None:
                    rep.count("regex_uses")
                    judge_use(prj, fold, rep, env, u, f)
        if not f.is_lambda:     # lambdas are walked inside their function
            judge_reads(prj, fold, rep, env, f)


def is_flag_expr(prj, n, f):
    ok = False
    for x in ast.walk(n):
        if isinstance(x, (ast.Attribute, ast.Name)):
            e = prj.ext_name(x, f, f.module)
            if e in ("re.I", "re.M", "re.S", "re.X", "re.A", "re.U", "re.L", "re.IGNORECASE", "re.MULTILINE", "re.DOTALL", "re.VERBOSE", "re.ASCII", "re.UNICODE"):
                ok = True
            elif e not in ("re", None):
                return False
        elif not isinstance(x, (ast.BinOp, ast.BitOr, ast.Add, ast.Load)):
            return False
    return ok


def judge_use(prj, fold, rep, env, u, f):
    n = u.call
    for k in ("count", "maxsplit", "pos", "endpos"):
        a = u.arg.get(k)
        if a is not None and is_flag_expr(prj, a, f):
            rep.finding("flag-position", f, text(n), "re flags passed where %s is expected" % k, n)
    fl = env.flags_of(u, f)
    a = u.arg.get("flags")
    if a is not None and isinstance(a, ast.Constant) and (isinstance(a.value, str) or isinstance(a.value, int) and a.value and not isinstance(a.value, bool)):
        rep.finding("flag-position", f, text(n), "%r passed as flags" % a.value, n)
    p = u.arg.get("pattern")
    if p is None:
        return
    vs = env.values(p, f) if u.module_level else None
    pats = []
    if vs is not None:
        for v in vs:
            if isinstance(v, Regex):
                if fl:
                    rep.finding("flag-position", f, text(n), "flags given together with an already compiled expression", n)
            elif isinstance(v, (str, bytes)):
                rep.count("patterns_compiled")
                c, err = env.comp(v, fl or 0)
                if c is None:
                    rep.finding("bad-pattern", f, text(n), "pattern %r does not compile: %s" % (v, err), n)
    pats = env.patterns(u, f)
    if u.op in ("sub", "subn") and pats:
        r = u.arg.get("repl")
        ts = env.values(r, f) if r is not None else None
        for t in ts or []:
            if isinstance(t, (str, bytes)):
                for c in pats:
                    try:
                        sre_parse.parse_template(t, c)
                        rep.count("templates_checked")
                    except (re.error, IndexError, TypeError) as e:
                        rep.finding("bad-template", f, text(n), "replacement %r does not fit pattern %r: %s" % (t, c.pattern, e), n)
        if ts is None and r is not None and data_string(prj, r, f):
            rep.finding("unescaped-template", f, text(n), "replacement text is built from data, whose backslashes would be read as group references", n)
    # unpacking
    par = n._parent
    if pats and isinstance(par, ast.Assign) and par.value is n and isinstance(par.targets[0], (ast.Tuple, ast.List)) and u.op in ("subn",):
        if len(par.targets[0].elts) != 2:
            rep.finding("unpack", f, text(par), "subn gives two values", n)
    if pats and u.op == "findall":
        tgt = par.target if isinstance(par, (ast.For, ast.comprehension)) and par.iter is n else None
        if isinstance(tgt, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in tgt.elts):
            for c in pats:
                rep.count("unpackings_checked")
                if c.groups < 2 or c.groups != len(tgt.elts):
                    rep.finding("unpack", f, text(n), "findall gives %d groups, %d are unpacked" % (c.groups, len(tgt.elts)), n)


def data_string(prj, r, f):
    """a string expression that contains run-time text that was not escaped"""
    def dyn(x):
        if isinstance(x, ast.Constant):
            return False
        if isinstance(x, ast.Call):
            e = prj.ext_name(x.func, f, f.module)
            if e == "re.escape":
                return False
            if isinstance(x.func, ast.Attribute) and x.func.attr == "replace" and x.args and isinstance(x.args[0], ast.Constant) and x.args[0].value == "\\":
                return False
            if isinstance(x.func, ast.Name) and x.func.id in ("str", "int", "len", "hex"):
                return x.func.id == "str"
        return True
    if isinstance(r, ast.JoinedStr):
        return any(isinstance(v, ast.FormattedValue) and dyn(v.value) and v.format_spec is None for v in r.values)
    if isinstance(r, ast.BinOp) and isinstance(r.op, ast.Add):
        parts, todo = [], [r]
        while todo:
            x = todo.pop()
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                todo += [x.left, x.right]
            else:
                parts.append(x)
        return any(isinstance(x, (ast.Constant, ast.JoinedStr)) for x in parts) and any(dyn(x) for x in parts if not isinstance(x, ast.JoinedStr))
    if isinstance(r, ast.BinOp) and isinstance(r.op, ast.Mod) and isinstance(r.left, ast.Constant) and isinstance(r.left.value, str):
        return "%s" in r.left.value
    return False


def judge_reads(prj, fold, rep, env, f):
    hits = []

    class W(FactWalker):
        def expr(s, n, facts):
            if isinstance(n, ast.Attribute) and n.attr in READS and isinstance(n.ctx, ast.Load):
                hits.append((n, n.value, facts))
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                hits.append((n, n.value, facts))
    w = W(f)
    w.noreturn = noreturn(prj, f)
    w.run()
    for n, base, facts in hits:
        if not isinstance(base, (ast.Name, ast.Call, ast.NamedExpr)):
            continue
        src = env.sources(base, f)
        if not src:
            continue
        if all(p is None and isinstance(d, ast.Constant) for p, _, d in src):
            continue
        rep.count("match_reads")
        if any(null for _, null, _ in src) and not checked(base, facts, src) and not tried(n, f.node):
            rep.finding("unchecked-match", f, text(n), "%s may be None here: the match can fail and nothing tests it first" % text(base), n)
        call = n._parent if isinstance(n, ast.Attribute) and isinstance(n._parent, ast.Call) and n._parent.func is n else None
        refs = []
        if isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Slice):
                continue
            refs = group_args(n, fold, f)
        elif call is not None and n.attr in ("group", "start", "end", "span"):
            refs = group_args(call, fold, f)
        elif call is not None and n.attr == "groupdict" and isinstance(call._parent, ast.Subscript):
            v = fold.value(call._parent.slice, f)
            if isinstance(v, str):
                refs = [(v, call)]
        elif call is not None and n.attr == "groups" and isinstance(call._parent, ast.Assign) and isinstance(call._parent.targets[0], (ast.Tuple, ast.List)):
            t = call._parent.targets[0]
            if not any(isinstance(x, ast.Starred) for x in t.elts):
                for ps, _, d in src:
                    for p in ps or []:
                        if p.groups != len(t.elts):
                            rep.finding("unpack", f, text(call._parent), "pattern %r has %d groups, %d are unpacked" % (p.pattern, p.groups, len(t.elts)), n)
        for g, x in refs:
            for ps, _, d in src:
                for p in ps or []:
                    rep.count("groups_checked")
                    if not has(p, g):
                        rep.finding("no-group", f, text(call or n), "group %r is not in pattern %r" % (g, p.pattern), n)
        # a group that may be absent, used as text at once
        if len(refs) == 1 and (isinstance(n, ast.Subscript) or n.attr == "group"):
            whole = n if isinstance(n, ast.Subscript) else call
            g = refs[0][0]
            gone = False
            for ps, _, d in src:
                for p in ps or []:
                    num = p.groupindex.get(g) if isinstance(g, str) else g
                    if num in optional_groups(p):
                        gone = p.pattern
            if gone and used_as_text(whole) and not tried(n, f.node):
                d = ast.dump(whole)
                if not any(d in ast.dump(x.node) or (isinstance(base, ast.Name) and ("lastindex" in ast.dump(x.node) or "groups" in ast.dump(x.node))) for x in facts):
                    rep.finding("absent-group", f, text(whole._parent), "group %r of %r may be absent from a match and is used without a test" % (g, gone), n)


def used_as_text(n):
    p = n._parent
    if isinstance(p, ast.Attribute):
        return True
    if isinstance(p, ast.Subscript) and p.value is n:
        return True
    if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("int", "float", "ord", "len") and p.args and p.args[0] is n:
        return True
    if isinstance(p, ast.BinOp) and isinstance(p.op, ast.Add):
        return True
    return False


L = "lib/sldr/a.py"
EXAMPLES = [
    ("bad pattern", {L: "import re\ndef f(s):\n    return re.sub(r'(a', '', s)\n"}, ["bad-pattern"]),
    ("module table pattern", {L: "import re\nr = re.compile(r'(?P<a>x)|(?P<b>y)')\ndef f(s):\n    m = r.match(s)\n    if m is None:\n        return None\n    return m.group('c')\n"}, ["no-group"]),
    ("ok named", {L: "import re\nr = re.compile(r'(?P<a>x)')\ndef f(s):\n    m = r.match(s)\n    if m is None:\n        return None\n    return m.group('a')\n"}, False),
    ("unchecked", {L: "import re\ndef f(s):\n    m = re.match(r'(x)', s)\n    return m.group(1)\n"}, ["unchecked-match"]),
    ("direct", {L: "import re\ndef f(s):\n    return re.search(r'(x)', s).group(1)\n"}, ["unchecked-match"]),
    ("try", {L: "import re\ndef f(s):\n    try:\n        return re.search(r'(x)', s).group(1)\n    except AttributeError:\n        return ''\n"}, False),
    ("ifexp", {L: "import re\ndef f(s):\n    m = re.search(r'(x)', s)\n    return m.group(1) if m else ''\n"}, False),
    ("walrus", {L: "import re\ndef f(s):\n    if (m := re.search(r'(x)', s)) is not None:\n        return m[1]\n"}, False),
    ("walrus bad group", {L: "import re\ndef f(s):\n    if (m := re.search(r'(x)', s)) is not None:\n        return m[2]\n"}, ["no-group"]),
    ("helper raising", {L: "import re\nr = re.compile('(?P<x>a)b')\ndef h(p, s):\n    m = p.match(s)\n    if m is None:\n        raise ValueError\n    return m\ndef f(s):\n    return h(r, s).group('x')\n"}, False),
    ("helper raising, bad group", {L: "import re\nr = re.compile('(?P<x>a)b')\ndef h(p, s):\n    m = p.match(s)\n    if m is None:\n        raise ValueError\n    return m\ndef f(s):\n    return h(r, s).group('y')\n"}, ["no-group"]),
    ("helper none", {L: "import re\nr = re.compile('(?P<x>a)b')\ndef h(p, s):\n    return p.match(s)\ndef f(s):\n    return h(r, s).group('x')\n"}, ["unchecked-match"]),
    ("callback", {L: "import re\ndef f(s):\n    return re.sub(r'(a)', lambda m: m.group(2), s)\n"}, ["no-group"]),
    ("callback def", {L: "import re\ndef f(s):\n    def g(m):\n        return m.group('l')\n    return re.sub(r'(?P<lang>a)', g, s)\n"}, ["no-group"]),
    ("template", {L: "import re\ndef f(s):\n    return re.sub(r'a', r'\\1', s)\n"}, ["bad-template"]),
    ("flags as count", {L: "import re\ndef f(s):\n    return re.sub(r'^a', r'', s, re.M)\n"}, ["flag-position"]),
    ("flags ok", {L: "import re\ndef f(s):\n    return re.sub(r'^a', r'', s, flags=re.M)\n"}, False),
    ("flags pos", {L: "import re\nr = re.compile('a')\ndef f(s):\n    return r.match(s, re.I)\n"}, ["flag-position"]),
    ("reused name", {L: "import re\na = re.compile('(?P<x>a)')\nb = re.compile('(?P<y>a)')\ndef f(s):\n    m = a.match(s)\n    if m:\n        return m.group('x')\n    m = b.match(s)\n    if m:\n        return m.group('y')\n"}, False),
    ("class from keys", {L: "import re\nT = {'[': 1, '\\\\': 2}\ndef f(b, s):\n    return re.sub('[' + ''.join(b.keys()) + ']', lambda m: b[m.group(0)], s)\ndef g(s):\n    return f(T, s)\n"}, ["bad-pattern"]),
    ("absent group", {L: "import re\ndef f(s):\n    m = re.match(r'(a)(\\d)?', s)\n    if m:\n        return int(m.group(2))\n"}, ["absent-group"]),
    ("absent group tested", {L: "import re\ndef f(s):\n    m = re.match(r'(a)(\\d)?', s)\n    if m and m.group(2):\n        return int(m.group(2))\n"}, False),
    ("findall unpack", {L: "import re\ndef f(s):\n    return {a: b for a, b in re.findall(r'(a)b', s)}\n"}, ["unpack"]),
    ("finditer", {L: "import re\ndef f(s):\n    return [m.group(1) for m in re.finditer(r'(a)b', s)]\n"}, False),
    ("never fails", {L: "import re\ndef f(s):\n    return re.match(r'\\s*', s).end()\n"}, False),
    ("data template", {L: "import re\ndef f(s, t):\n    return re.sub(r'a', '<' + t + '>', s)\n"}, ["unescaped-template"]),
    ("continue in loop", {L: "import re\ndef f(ls):\n    for l in ls:\n        m = re.match('(a)', l)\n        if not m:\n            continue\n        yield m.group(1)\n"}, False),
    ("script, module level", {"scripts/x": "#!/usr/bin/env python3\nimport re, sys\nm = re.match('(a)', sys.argv[1])\nprint(m.group(1))\n"}, ["unchecked-match"]),
    ("script, checked", {"scripts/x": "#!/usr/bin/env python3\nimport re, sys\nm = re.match('(a)', sys.argv[1])\nif m is None:\n    sys.exit(1)\nprint(m.group(1))\n"}, False),
]
