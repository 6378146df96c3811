"""Puts small helper functions that were split off from the reviewed code back where they are called, before anything is judged,
so that what is judged is what the code does and not how it is cut up.  Functions named in known_funcs.txt (those the rules were
reviewed with) stay; any other function that is only called, in its own module, class or enclosing function, and has no
decorators, nested functions' state or early exits that the call's place cannot express, is expanded in place."""
import ast, copy, os

HERE = os.path.dirname(os.path.abspath(__file__))
SIZE = 1500      # nodes of a helper that is expanded
SITES = 6


def known():
    with open(os.path.join(HERE, "known_funcs.txt"), encoding="utf-8") as f:
        return set(f.read().split())


def quals(tree, mod):
    """(qualified name, node, class or None, enclosing function or None, list it stands in)"""
    def go(body, pre, cls, outer):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield pre + "." + s.name, s, cls, outer, body
                yield from go(s.body, pre + "." + s.name, None, s)
            elif isinstance(s, ast.ClassDef):
                yield from go(s.body, pre + "." + s.name, s, None)
            else:
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(s, f, None)
                    if isinstance(b, list):
                        yield from go(b, pre, cls, outer)
                for h in getattr(s, "handlers", []):
                    yield from go(h.body, pre, cls, outer)
    return go(tree.body, mod, None, None)


def own(node):
    st = list(ast.iter_child_nodes(node))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))


def returns(body):
    return [n for s in body for n in [s] + list(own(s)) if isinstance(n, ast.Return)]


def ends(body):
    """no path falls out at the end"""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.With):
        return ends(s.body)
    if isinstance(s, ast.Try):
        return s.finalbody and ends(s.finalbody) or (ends(s.orelse) if s.orelse else ends(s.body)) and all(ends(h.body) for h in s.handlers)
    if isinstance(s, ast.While):
        return isinstance(s.test, ast.Constant) and bool(s.test.value) and not any(isinstance(n, ast.Break) for n in own(s))
    return False


class No(Exception):
    pass


def tail(body, give):
    """the body with every return, all of which must be in tail position, turned into give(value)"""
    out = []
    for i, s in enumerate(body):
        if isinstance(s, ast.Return):
            return out + give(s.value)
        if not returns([s]):
            out.append(s)
            continue
        rest = body[i + 1:]
        if isinstance(s, ast.If):
            b, o = ends(s.body), ends(s.orelse)
            if rest and not b and not o:
                if returns(s.body) and returns(s.orelse) or not (returns(s.body) or returns(s.orelse)):
                    raise No
                # one side returns on some paths only: the rest follows on both
                if len(rest) > 4:
                    raise No
                s.body = tail(s.body + copy.deepcopy(rest), give)
                s.orelse = tail(s.orelse + rest, give)
            elif b:
                s.body = tail(s.body, give)
                s.orelse = tail(s.orelse + rest, give)
            elif o:
                s.orelse = tail(s.orelse, give)
                s.body = tail(s.body + rest, give)
            else:
                s.body, s.orelse = tail(s.body, give), tail(s.orelse, give)
            s.body = s.body or [ast.copy_location(ast.Pass(), s)]
            return out + [s]
        if isinstance(s, ast.With) and (not rest or ends(s.body)):
            s.body = tail(s.body, give) or [ast.copy_location(ast.Pass(), s)]
            return out + [s]
        if isinstance(s, ast.Try) and not s.finalbody:
            if rest:
                # the rest must not move into the try
                if s.orelse or not ends(s.body) and returns(s.body):
                    raise No
                if ends(s.body):
                    hs = [h for h in s.handlers if not ends(h.body)]
                    if any(returns(h.body) for h in hs) or len(hs) > 1:
                        raise No
                    for h in hs:
                        h.body = h.body + rest
                else:
                    if not all(ends(h.body) for h in s.handlers):
                        raise No
                    s.orelse = rest
                rest = []
            s.body = tail(s.body, give) if not s.orelse or returns(s.body) else s.body
            s.orelse = tail(s.orelse, give) if s.orelse else []
            if not s.body:
                s.body = [ast.copy_location(ast.Pass(), s)]
            for h in s.handlers:
                h.body = tail(h.body, give) or [ast.copy_location(ast.Pass(), h)]
            return out + [s]
        raise No
    return out + give(None)


def as_expr(body):
    """the body as one expression, if it only decides what to return"""
    if len(body) == 1 and isinstance(body[0], ast.Return):
        return body[0].value or ast.copy_location(ast.Constant(None), body[0])
    s = body[0] if body else None
    if isinstance(s, ast.If):
        if ends(s.body) and (s.orelse and len(body) == 1 or not s.orelse and len(body) > 1):
            a, b = as_expr(s.body), as_expr(s.orelse or body[1:])
            if a is None or b is None:
                return None
            t = s.test
            tr = lambda x, v: isinstance(x, ast.Constant) and x.value is v
            boolean = lambda x: isinstance(x, ast.Compare) or isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) or isinstance(x, ast.BoolOp) and all(map(boolean, x.values)) \
                or isinstance(x, ast.Constant) and isinstance(x.value, bool)
            mk = lambda e: ast.copy_location(e, s)
            neg = lambda x: mk(ast.UnaryOp(ast.Not(), x))
            if boolean(t) and boolean(a) and boolean(b):
                if tr(a, True) and tr(b, False):
                    return t
                if tr(a, False) and tr(b, True):
                    return neg(t)
                if tr(a, True):
                    return mk(ast.BoolOp(ast.Or(), [t, b]))
                if tr(b, False):
                    return mk(ast.BoolOp(ast.And(), [t, a]))
                if tr(a, False):
                    return mk(ast.BoolOp(ast.And(), [neg(t), b]))
                if tr(b, True):
                    return mk(ast.BoolOp(ast.Or(), [neg(t), a]))
            return mk(ast.IfExp(t, a, b))
    return None


def simple(e):
    """can be written again where it is used"""
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return isinstance(e.ctx, ast.Load) and simple(e.value)
    return False


class Rename(ast.NodeTransformer):
    def __init__(self, names, subst):
        self.names, self.subst = names, subst

    def visit_Name(self, n):
        if n.id in self.subst and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.subst[n.id])
        if n.id in self.names:
            n.id = self.names[n.id]
        return n

    def visit_ExceptHandler(self, n):
        if n.name in self.names:
            n.name = self.names[n.name]
        return self.generic_visit(n)

    def inner(self, n, bound):
        hidden = {k: d.pop(k) for d in (self.names, self.subst) for k in list(d) if k in bound}
        was = ({k: v for k, v in hidden.items() if isinstance(v, str)}, {k: v for k, v in hidden.items() if not isinstance(v, str)})
        self.generic_visit(n)
        self.names.update(was[0])
        self.subst.update(was[1])
        return n

    def visit_Lambda(self, n):
        return self.inner(n, {a.arg for a in n.args.args + n.args.kwonlyargs})

    def comp(self, n):
        b = {y.id for g in n.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
        first = n.generators[0].iter
        n.generators[0].iter = ast.Constant(None)
        first = self.visit(first)
        self.inner(n, b)
        n.generators[0].iter = first
        return n

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp


def local_names(fn):
    res, glob = set(), set()
    comp = set()
    for n in own(fn):
        if isinstance(n, ast.comprehension):
            comp |= {id(y) for y in ast.walk(n.target)}
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in comp:
            res.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            res.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            res |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            res.add(n.name)
    return res - glob


def literal(v):
    if isinstance(v, ast.Constant):
        return True
    if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub):
        return isinstance(v.operand, ast.Constant)
    return isinstance(v, ast.Tuple) and all(literal(x) for x in v.elts)


class Constants(ast.NodeTransformer):
    """puts the value of a constant where its name is read"""
    def __init__(self, name, value, cls):
        self.name, self.value, self.cls, self.n = name, value, cls, 0

    def run(self, tree):
        self.visit(tree)
        return self.n

    def put(self, n):
        self.n += 1
        v = copy.deepcopy(self.value)
        for x in ast.walk(v):
            ast.copy_location(x, n)
        return v

    def visit_Name(self, n):
        return self.put(n) if self.cls is None and n.id == self.name and isinstance(n.ctx, ast.Load) else n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if self.cls is not None and n.attr == self.name and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls", self.cls.name):
            return self.put(n)
        return n

    def visit_JoinedStr(self, n):
        return n if isinstance(self.value, ast.Tuple) else self.generic_visit(n)


def boolean(e):
    """a test: what it gives is only true or false"""
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.op, ast.Not)
    if isinstance(e, ast.BoolOp):
        return all(boolean(v) for v in e.values)
    return isinstance(e, ast.Compare) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "hasattr")


PURE_CALLS = {"len", "isinstance", "hasattr", "type", "str", "int", "bool", "ord", "chr", "abs", "min", "max", "get", "startswith", "endswith", "lower", "upper", "strip",
              "lstrip", "rstrip", "isdigit", "isalpha", "isupper", "islower", "find", "count", "keys", "values", "items", "split", "exists", "isfile", "isdir"}


def plain_loops(fn):
    """loops that count what they do not use the count of"""
    done = 0
    for s in ast.walk(fn):
        if not isinstance(s, ast.For) or not isinstance(s.iter, ast.Call) or not isinstance(s.iter.func, ast.Name) or s.iter.keywords:
            continue
        c = s.iter
        if c.func.id == "enumerate" and c.args and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and isinstance(s.target.elts[0], ast.Name):
            i = s.target.elts[0].id
            if not any(isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Load) for n in ast.walk(fn)):
                s.target, s.iter = s.target.elts[1], c.args[0]
                done += 1
        elif c.func.id == "range" and len(c.args) == 1 and isinstance(s.target, ast.Name) and isinstance(c.args[0], ast.Call) and isinstance(c.args[0].func, ast.Name) \
                and c.args[0].func.id == "len" and len(c.args[0].args) == 1 and isinstance(c.args[0].args[0], ast.Name):
            i, e = s.target.id, c.args[0].args[0].id
            f = s.body[0]
            if isinstance(f, ast.Assign) and len(f.targets) == 1 and isinstance(f.targets[0], ast.Name) and isinstance(f.value, ast.Subscript) and isinstance(f.value.value, ast.Name) \
                    and f.value.value.id == e and isinstance(f.value.slice, ast.Name) and f.value.slice.id == i and len(s.body) > 1 \
                    and sum(1 for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == i) == 2 \
                    and not any(isinstance(n, ast.Name) and n.id == e for b in s.body[1:] for n in ast.walk(b)):
                s.target, s.iter = f.targets[0], c.args[0].args[0]
                del s.body[0]
                done += 1
    return done


FLIP = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def positive(t, neg=False):
    """a test with its negations moved down to what they are about (only its truth matters)"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return positive(t.operand, not neg)
    if isinstance(t, ast.BoolOp):
        vs = [positive(v, neg) for v in t.values]
        if neg:
            return ast.copy_location(ast.BoolOp(ast.Or() if isinstance(t.op, ast.And) else ast.And(), vs), t)
        if any(v is not w for v, w in zip(vs, t.values)):
            return ast.copy_location(ast.BoolOp(t.op, vs), t)
        return t
    if not neg:
        return t
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in FLIP:
        return ast.copy_location(ast.Compare(t.left, [FLIP[type(t.ops[0])]()], t.comparators), t)
    return ast.copy_location(ast.UnaryOp(ast.Not(), t), t)


def negations(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            n.test = positive(n.test)
        elif isinstance(n, ast.comprehension):
            n.ifs = [positive(x) for x in n.ifs]
    return 0


class Tests:
    """puts a test that was given a name back where its outcome is asked for"""
    def __init__(self, fn):
        self.fn, self.n = fn, 0
        self.again()

    def again(self):
        self.stores, self.loads, self.shut, self.comps = {}, {}, set(), set()
        a = self.fn.args
        for x in a.args + a.posonlyargs + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            self.shut.add(x.arg)
        for n in ast.walk(self.fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.shut |= set(n.names)
            elif isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and n is not self.fn:
                self.shut |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) \
                    else {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                self.comps |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            elif isinstance(n, ast.Name):
                (self.loads if isinstance(n.ctx, ast.Load) else self.stores).setdefault(n.id, []).append(n)

    def run(self):
        for _ in range(12):
            if not self.blocks(self.fn):
                break
            self.again()
        return self.n

    def blocks(self, node):
        for f in ("body", "orelse", "finalbody", "handlers", "cases"):
            b = getattr(node, f, None)
            if not isinstance(b, list):
                continue
            for i, s in enumerate(b):
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and (boolean(s.value) or self.asked(b, i, s)) and self.move(b, i, s):
                    return True
                if self.blocks(s):
                    return True
        return False

    def asked(self, b, i, s):
        """a plain value given a name only to ask, straight afterwards, whether it is true"""
        if not isinstance(s.value, (ast.Name, ast.Attribute, ast.Subscript, ast.BoolOp, ast.IfExp)) or len(b) < i + 2 or not isinstance(b[i + 1], ast.If):
            return False
        t = b[i + 1].test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t = t.operand
        return isinstance(t, ast.Name) and t.id == s.targets[0].id and len(self.loads.get(t.id, [])) == 1

    def move(self, b, i, s):
        v = s.targets[0].id
        uses = self.loads.get(v, [])
        if v in self.shut or len(self.stores.get(v, [])) != 1 or not uses or len(uses) > 4:
            return False
        names = {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}
        if names & self.comps:
            return False
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for x in ast.walk(s.value)):
            return False
        calls = [x for x in ast.walk(s.value) if isinstance(x, ast.Call)]
        if any((x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else "") not in PURE_CALLS for x in calls) and len(uses) > 1:
            return False
        deep = bool(calls) or any(isinstance(x, (ast.Attribute, ast.Subscript)) or isinstance(x, (ast.In, ast.NotIn)) for x in ast.walk(s.value))
        left = {id(u) for u in uses}
        places = []
        for t in b[i + 1:]:
            here = [u for u in ast.walk(t) if id(u) in left]
            if here:
                head = self.head(t)
                if head is not None and all(any(x is u for x in ast.walk(head)) for u in here):
                    pass            # asked for before anything in the statement happens
                elif self.changes(t, names, deep):
                    return False
                places += here
                left -= {id(u) for u in here}
            if not left:
                break
            if self.changes(t, names, deep):
                return False
        if left:
            return False
        for u in places:
            for n in ast.walk(self.fn):
                for f, x in ast.iter_fields(n):
                    if x is u:
                        setattr(n, f, self.fresh(s.value, u))
                    elif isinstance(x, list) and any(y is u for y in x):
                        x[:] = [self.fresh(s.value, u) if y is u else y for y in x]
        b.remove(s)
        self.n += 1
        return True

    def fresh(self, e, at):
        e = copy.deepcopy(e)
        for x in ast.walk(e):
            ast.copy_location(x, at)
        return e

    @staticmethod
    def head(t):
        if isinstance(t, (ast.If, ast.Assert)):
            return t.test
        if isinstance(t, (ast.Return, ast.Expr)):
            return t.value
        if isinstance(t, ast.Assign):
            return t.value
        return None

    def changes(self, t, names, deep):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and n.id in names:
                return True
            if isinstance(n, ast.ExceptHandler) and n.name in names:
                return True
            if deep:
                if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load) or isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                    return True
                if isinstance(n, ast.Call) and (n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else "") not in PURE_CALLS:
                    return True
        return False


class Inliner:
    def __init__(self, trees, names=None):
        self.trees = trees                      # {module name: tree}
        self.known = known() if names is None else names
        self.count = self.tests = 0

    def run(self):
        for m, t in self.trees.items():
            self.constants(m, t)
        for _ in range(8):
            if not any([self.module(m, t) for m, t in self.trees.items()]):
                break
        for t in self.trees.values():
            for f in ast.walk(t):
                if isinstance(f, ast.FunctionDef):
                    self.tests += Tests(f).run() + plain_loops(f)
                    negations(f)
        return self.count

    # -- constants that were given a name
    def constants(self, m, tree):
        homes = [(m, tree.body, None)] + [(m + "." + c.name, c.body, c) for c in tree.body if isinstance(c, ast.ClassDef)]
        names = [n for n in ast.walk(tree)]
        for pre, body, cls in homes:
            for s in body:
                if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and literal(s.value)):
                    continue
                x = s.targets[0].id
                if pre + "." + x in self.known or x.startswith("__"):
                    continue
                # given its value once, nowhere else known by that name
                other = sum(1 for n in names if isinstance(n, ast.Name) and n.id == x and not isinstance(n.ctx, ast.Load)) > 1 \
                    or any(isinstance(n, ast.Attribute) and n.attr == x and not isinstance(n.ctx, ast.Load) or isinstance(n, ast.arg) and n.arg == x
                           or isinstance(n, (ast.Global, ast.Nonlocal)) and x in n.names or isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == x
                           or isinstance(n, ast.ExceptHandler) and n.name == x or isinstance(n, ast.alias) and (n.asname or n.name) == x
                           or isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name == x for n in names)
                if cls is not None and any(isinstance(n, ast.Name) and n.id == x and not isinstance(n.ctx, ast.Load) or isinstance(n, ast.Attribute) and n.attr == x and not isinstance(n.ctx, ast.Load)
                                           for k, t in self.trees.items() if k != m for n in ast.walk(t)):
                    continue        # a subclass has its own
                if other:
                    continue
                self.count += Constants(x, s.value, cls).run(tree)

    # -- candidates
    def usable(self, h):
        if isinstance(h, ast.AsyncFunctionDef):
            return False
        a = h.args
        if a.vararg or a.kwarg or a.posonlyargs:
            return False
        if h.decorator_list and not (len(h.decorator_list) == 1 and isinstance(h.decorator_list[0], ast.Name) and h.decorator_list[0].id in ("staticmethod", "classmethod")):
            return False
        if h.name.startswith("__") and h.name.endswith("__"):
            return False
        if sum(1 for _ in ast.walk(h)) > SIZE:
            return False
        for n in ast.walk(h):
            if isinstance(n, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Await, ast.AsyncFor, ast.AsyncWith)) and n is not h:
                return False
            if isinstance(n, ast.Name) and n.id in ("super", "__class__", "locals", "vars", "eval", "exec"):
                return False
            if isinstance(n, ast.Name) and n.id == h.name or isinstance(n, ast.Attribute) and n.attr == h.name:
                return False
        return True

    def module(self, m, tree):
        defs = list(quals(tree, m))
        new = [d for d in defs if d[0] not in self.known and self.usable(d[1])]
        done = False
        for q, h, cls, outer, home in new:
            if sum(1 for d in defs if d[1].name == h.name) > 1:
                continue
            if self.helper(m, tree, h, cls, outer, home):
                done = True
        return done

    def helper(self, m, tree, h, cls, outer, home):
        # every mention, anywhere
        total, calls = 0, []
        for mm, t in self.trees.items():
            for n in ast.walk(t):
                if isinstance(n, ast.Name) and n.id == h.name and (mm == m or cls is not None) or isinstance(n, ast.Attribute) and n.attr == h.name:
                    total += 1
                elif isinstance(n, ast.Constant) and n.value == h.name:
                    total += 1
                elif isinstance(n, (ast.Import, ast.ImportFrom)) and any(a.name == h.name or a.asname == h.name for a in n.names):
                    total += 1
        if not total or total > SITES:
            return False
        did = 0
        for q, f, c, o, b in list(quals(tree, m)) + [(m, tree, None, None, None)]:
            if f is h:
                continue
            if cls is not None and (c is not cls or not f.args.args):
                continue
            if outer is not None and f is not outer:
                continue
            did += self.into(f, h, cls, c)
        if did == 0:
            return False
        self.count += did
        if did == total:
            home.remove(h)
            if not home:
                home.append(ast.copy_location(ast.Pass(), h))
        return True

    # -- one caller
    def is_call(self, n, f, h, cls):
        if not isinstance(n, ast.Call) or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return False
        if cls is None:
            return isinstance(n.func, ast.Name) and n.func.id == h.name
        if not (isinstance(n.func, ast.Attribute) and n.func.attr == h.name and isinstance(n.func.value, ast.Name)):
            return False
        decs = [d.id for d in getattr(f, "decorator_list", []) if isinstance(d, ast.Name)]
        hdec = [d.id for d in h.decorator_list]
        if "staticmethod" in decs:
            return n.func.value.id == cls.name and "staticmethod" in hdec
        first = f.args.args[0].arg
        if "classmethod" in decs:
            return n.func.value.id == first and hdec or n.func.value.id == cls.name and "staticmethod" in hdec
        if n.func.value.id == cls.name:
            return "staticmethod" in hdec
        return n.func.value.id == first and "classmethod" not in hdec

    def into(self, f, h, cls, c):
        n = 0
        while n < SITES:
            if not self.once(f, h, cls):
                break
            n += 1
        return n

    def once(self, f, h, cls):
        if isinstance(f, ast.Module):
            calls = [x for x in own(f) if self.is_call(x, f, h, None)] if cls is None else []
        else:
            calls = [x for x in list(own(f)) + [y for l in ast.walk(f) if isinstance(l, ast.Lambda) for y in ast.walk(l)] if self.is_call(x, f, h, cls)]
        for call in calls:
            for how in (self.expression, self.statement):
                try:
                    if how(f, h, cls, call):
                        ast.fix_missing_locations(f)
                        return True
                except No:
                    pass
        return False

    def args(self, h, cls, call):
        """{parameter: argument}"""
        ps = [a.arg for a in h.args.args]
        res = {}
        vals = list(call.args)
        if cls is not None and not any(d.id == "staticmethod" for d in h.decorator_list):
            vals.insert(0, call.func.value)
        if len(vals) > len(ps):
            raise No
        res.update(zip(ps, vals))
        for k in call.keywords:
            if k.arg in res or k.arg not in ps + [a.arg for a in h.args.kwonlyargs]:
                raise No
            res[k.arg] = k.value
        for p, d in list(zip(ps[len(ps) - len(h.args.defaults):], h.args.defaults)) + [(a.arg, d) for a, d in zip(h.args.kwonlyargs, h.args.kw_defaults) if d is not None]:
            if p not in res:
                if not isinstance(d, ast.Constant) and not (isinstance(d, ast.Tuple) and not d.elts):
                    raise No
                res[p] = d
        if set(res) != set(ps) | {a.arg for a in h.args.kwonlyargs}:
            raise No
        return res

    def body(self, h):
        b = h.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
            b = b[1:]
        while b and isinstance(b[0], ast.Pass):
            b = b[1:]
        return copy.deepcopy(b)

    def hidden(self, h, args):
        """names bound in comprehensions and lambdas of the helper that an argument mentions"""
        b = {y.id for n in ast.walk(h) if isinstance(n, ast.comprehension) for y in ast.walk(n.target) if isinstance(y, ast.Name)}
        b |= {a.arg for n in ast.walk(h) if isinstance(n, ast.Lambda) for a in n.args.args}
        return any(isinstance(y, ast.Name) and y.id in b for p, a in args.items() if not (isinstance(a, ast.Name) and a.id == p) for y in ast.walk(a))

    def uses(self, h, p):
        """times a parameter is read; many when it is read again and again"""
        n = sum(1 for x in ast.walk(h) if isinstance(x, ast.Name) and x.id == p)
        rep = any(isinstance(x, ast.Name) and x.id == p for c in ast.walk(h) if isinstance(c, (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda))
                  for y in ([c.elt] if hasattr(c, "elt") else [c.key, c.value] if isinstance(c, ast.DictComp) else [c]) for x in ast.walk(y))
        return 9 if rep and n else n

    # -- as an expression
    def expression(self, f, h, cls, call):
        args = self.args(h, cls, call)
        e = as_expr(self.body(h))
        if e is None or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(e)):
            return False
        if self.hidden(h, args):
            return False
        for p, a in args.items():
            if not simple(a) and self.uses(h, p) > 1:
                return False
        e = Rename({}, dict(args)).visit(e)
        self.put(f, call, e)
        return True

    def put(self, f, call, e):
        class R(ast.NodeTransformer):
            def visit(s, x):
                return e if x is call else super().visit(x)
        R().visit(f)

    # -- as statements
    def place(self, f, call):
        """(list, index, statement) the call stands in"""
        def go(body):
            for i, s in enumerate(body):
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    continue
                inner = []
                for fld in ("body", "orelse", "finalbody"):
                    x = getattr(s, fld, None)
                    if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
                        inner.append(x)
                inner += [hh.body for hh in getattr(s, "handlers", [])] + [cc.body for cc in getattr(s, "cases", [])]
                if any(x is call for x in ast.walk(s)):
                    for b in inner:
                        if any(x is call for st in b for x in ast.walk(st)):
                            return go(b)
                    return body, i, s
        return go(f.body)

    def first(self, e, call):
        """the call is evaluated before anything that could matter to it, and always"""
        if e is call:
            return True
        if isinstance(e, (ast.BoolOp,)):
            return self.first(e.values[0], call)
        if isinstance(e, ast.IfExp):
            return self.first(e.test, call)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return self.first(e.generators[0].iter, call)
        if isinstance(e, ast.Lambda):
            return False
        for x in ast.iter_child_nodes(e):
            if any(y is call for y in ast.walk(x)):
                return self.first(x, call)
            if any(isinstance(y, (ast.Call, ast.Yield, ast.Await, ast.YieldFrom)) for y in ast.walk(x)):
                return False
        return False

    def statement(self, f, h, cls, call):
        if isinstance(f, ast.Module):
            return False
        at = self.place(f, call)
        if at is None:
            return False
        blk, i, s = at
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(h))
        if gen:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom) and s.value.value is call):
                return False
        elif isinstance(s, (ast.Expr, ast.Return, ast.Assign, ast.AugAssign)):
            if s.value is None or not self.first(s.value, call):
                return False
            if isinstance(s, ast.Assign) and any(isinstance(y, ast.Call) for t in s.targets for y in ast.walk(t)):
                return False
        elif isinstance(s, ast.If):
            if not self.first(s.test, call):
                return False
        elif isinstance(s, ast.For):
            if not self.first(s.iter, call):
                return False
        elif isinstance(s, ast.With):
            if not self.first(s.items[0].context_expr, call):
                return False
        else:
            return False
        args = self.args(h, cls, call)
        body = self.body(h)
        rets = returns(body)
        # names
        taken = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)} | {a.arg for n in ast.walk(f) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs}
        locs = local_names(h)
        outs = {}
        if isinstance(s, ast.Assign) and s.value is call and len(s.targets) == 1:
            t = s.targets[0]
            for r in rets:
                pairs = [(t, r.value)]
                if isinstance(t, ast.Tuple) and isinstance(r.value, ast.Tuple) and len(t.elts) == len(r.value.elts):
                    pairs = list(zip(t.elts, r.value.elts))
                for a, b in pairs:
                    if isinstance(a, ast.Name) and isinstance(b, ast.Name) and b.id in locs:
                        outs.setdefault(b.id, set()).add(a.id)
        pre, names, subst = [], {}, {}
        argnames = {p: {y.id for y in ast.walk(a) if isinstance(y, ast.Name)} for p, a in args.items()}
        hide = self.hidden(h, args)
        for p, a in args.items():
            same = isinstance(a, ast.Name) and a.id == p
            if p not in locs and simple(a) and not hide:
                # written again in its place, unless the helper's other results overwrite it
                subst[p] = a
            elif same and (outs.get(p) == {p} or self.dead(f, blk, i, s, p)):
                pass
            else:
                names[p] = self.free(p, taken, outs.get(p))
                taken.add(names[p])
                if not (isinstance(a, ast.Name) and a.id == names[p]):
                    pre.append(ast.copy_location(ast.Assign([ast.Name(names[p], ast.Store())], a), call))
        # an attribute of something the helper changes is not the same later
        for p, a in list(subst.items()):
            if isinstance(a, ast.Attribute):
                if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == a.attr for x in ast.walk(h)):
                    names[p] = self.free(p, taken, None)
                    taken.add(names[p])
                    pre.append(ast.copy_location(ast.Assign([ast.Name(names[p], ast.Store())], a), call))
                    del subst[p]
        live = set().union(*[v for p, v in argnames.items() if p in subst]) if subst else set()
        for v in sorted(locs - set(args)):
            want = outs.get(v)
            if want and len(want) == 1:
                w = next(iter(want))
                if w not in live or subst.get(w) is not None and not any(w in argnames[p] for p in subst):
                    if w not in [names[x] for x in names]:
                        names[v] = w
                        continue
            names[v] = self.free(v, taken, None)
            taken.add(names[v])
        r = Rename(dict(names), dict(subst))
        body = [r.visit(b) for b in body]
        out = self.splice(f, h, s, call, body, gen, taken)
        blk[i:i + 1] = pre + (out or [ast.copy_location(ast.Pass(), s)])
        return True

    def dead(self, f, blk, i, s, v):
        """nothing reads the caller's variable after the call: it is in tail position"""
        if isinstance(s, ast.Return):
            return True
        return False

    def free(self, v, taken, want):
        if v not in taken:
            return v
        k = 1
        while "%s__%d" % (v, k) in taken:
            k += 1
        return "%s__%d" % (v, k)

    def splice(self, f, h, s, call, body, gen, taken):
        loc = lambda n: ast.copy_location(n, call)
        if gen:
            return tail(body, lambda v: [])
        if isinstance(s, ast.Return) and s.value is call:
            return body if ends(body) else body + [loc(ast.Return(ast.Constant(None)))]
        if isinstance(s, ast.Expr) and s.value is call:
            return tail(body, lambda v: [loc(ast.Expr(v))] if v is not None and not simple(v) else [])
        if isinstance(s, ast.Assign) and s.value is call:
            def give(v):
                v = v if v is not None else loc(ast.Constant(None))
                ts = copy.deepcopy(s.targets)
                if len(ts) == 1:
                    t = ts[0]
                    if isinstance(t, ast.Name) and isinstance(v, ast.Name) and t.id == v.id:
                        return []
                    if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts) and all(isinstance(x, ast.Name) for x in t.elts + v.elts):
                        ps = [(x, y) for x, y in zip(t.elts, v.elts) if x.id != y.id]
                        if not ps:
                            return []
                        if not {x.id for x, y in ps} & {y.id for x, y in ps}:
                            return [ast.copy_location(ast.Assign([x], y), s) for x, y in ps]
                return [ast.copy_location(ast.Assign(ts, v), s)]
            return tail(body, give)
        # one value at the end takes the call's place
        rs = returns(body)
        if len(rs) == 1 and body and body[-1] is rs[0] and rs[0].value is not None:
            self.put(s, call, rs[0].value)
            return body[:-1] + [s]
        tmp = self.free(h.name.strip("_") + "_result", taken, None)
        out = tail(body, lambda v: [loc(ast.Assign([ast.Name(tmp, ast.Store())], v if v is not None else ast.Constant(None)))])
        self.put(s, call, loc(ast.Name(tmp, ast.Load())))
        return out + [s]
