"""P19: results of work handed to worker processes are collected, so that a worker's failure surfaces."""
import ast
from ..core import walk_own, text, dotted, parents, Func
from ..consts import callers, single_assignment
from ..util import always_raises
from .P26 import classes, BROAD, raises_by_type

TECHNIQUE = "typestate of asynchronous results: every submission must reach a collecting call on all paths; swallowing handlers in workers"
NOTE = "Submissions are recognised by the multiprocessing and concurrent.futures method names. Results that leave the analysed functions are taken as collected."

ASYNC = {"apply_async", "map_async", "starmap_async"}
LAZY = {"imap", "imap_unordered"}
SYNC = {"starmap", "apply"}
COLLECT = {"get", "result"}
CONSUME = {"list", "tuple", "sorted", "set", "sum", "any", "all", "dict", "max", "min"}


def stmt_of(n):
    for p in [n] + list(parents(n)):
        if isinstance(p, ast.stmt):
            return p


def chain(n, top):
    """(statement, block owner, conditional test or None) from n outwards to the function"""
    res, cur = [], n
    for p in parents(n):
        if isinstance(p, ast.If):
            if cur is not p.test:
                res.append(("if", ast.dump(p.test), cur in p.body, p))
        elif isinstance(p, ast.While) and cur is not p.test:
            res.append(("while", ast.dump(p.test), True, p))
        elif isinstance(p, ast.ExceptHandler):
            res.append(("except", "", True, p))
        elif isinstance(p, ast.IfExp) and cur is not p.test:
            res.append(("if", ast.dump(p.test), cur is p.body, p))
        cur = p
        if p is top:
            break
    return res


def covers(sub, col, top, names):
    """the collecting node runs whenever the submission ran: every condition around it also surrounds the submission, repeats its test, or
    tests the result variable"""
    have = chain(sub, top)
    nodes = {id(c[3]): c for c in have}
    tests = {(c[1], c[2]) for c in have}
    for kind, t, side, p in chain(col, top):
        if id(p) in nodes and nodes[id(p)][2] == side:
            continue
        if kind == "if" and (t, side) in tests:
            continue
        if kind == "if" and names & {x.id for x in ast.walk(p.test) if isinstance(x, ast.Name)}:
            continue
        return False
    return True


class Sites:
    def __init__(self, prj, rep, fold):
        self.prj, self.rep, self.fold = prj, rep, fold

    def uses(self, scope, name, prev):
        for n in walk_own(scope.node):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                yield n
        for g in self.prj.funcs:
            if g.outer is scope and name not in g.locals:
                for n in walk_own(g.node):
                    if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                        yield n

    def collected(self, expr, sub, f, many, names=frozenset(), depth=5):
        """does the value of expr (a result, or many=True a container of them, or 'lazy') get collected?  True, False (dropped) or None (unknown)"""
        p = expr._parent
        if depth <= 0:
            return None
        if isinstance(p, ast.Expr):
            return False
        if isinstance(p, ast.Attribute) and p.value is expr:
            if isinstance(p._parent, ast.Call) and p._parent.func is p:
                if p.attr in COLLECT and many is not True and many != "lazy" and covers(sub, p, f.node, names):
                    return self.surfaces(p._parent, f)
                if p.attr in ("__next__",) and many == "lazy":
                    return True
                return False if p.attr in ("wait", "ready", "successful", "close", "join", "get", "result", "done") else None
            return None
        if isinstance(p, (ast.For, ast.comprehension)) and p.iter is expr:
            if many == "lazy":
                return covers(sub, p, f.node, names) or None
            if many is True:
                v = p.target
                if isinstance(v, ast.Name):
                    top = p if isinstance(p, ast.For) else p._parent
                    hits = [n for n in ast.walk(top) if isinstance(n, ast.Name) and n.id == v.id and isinstance(n.ctx, ast.Load)]
                    rs = [self.collected(n, sub, f, False, names | {v.id}, depth - 1) for n in hits]
                    return True if True in rs else None if None in rs else False
                return None
            return None
        if isinstance(p, ast.Call) and expr in p.args:
            fn = dotted(p.func) or ""
            last = fn.split(".")[-1]
            if last in CONSUME or last in ("deque",):
                return True if many == "lazy" else self.collected(p, sub, f, many, names, depth - 1)
            if last in ("iter", "enumerate", "zip", "as_completed", "tqdm", "reversed", "chain"):
                return self.collected(p, sub, f, True if last == "as_completed" else many, names, depth - 1)
            if last == "wait":
                return False
            if isinstance(p.func, ast.Attribute) and p.func.attr in ("append", "add", "extend") and isinstance(p.func.value, ast.Name):
                return self.named(p.func.value.id, sub, f, True, names, depth - 1)
            gs, exact = self.prj.callees(p, f, f.module)
            if exact and len(gs) == 1:
                from ..core import bind
                b = bind(p, gs[0])
                for k, a in b.items():
                    if a is expr:
                        rs = [self.collected(n, n, gs[0], many, names | {k}, depth - 1) for n in walk_own(gs[0].node)
                              if isinstance(n, ast.Name) and n.id == k and isinstance(n.ctx, ast.Load)]
                        return True if True in rs else None if None in rs else False
            return None
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            if len(ts) == 1 and isinstance(ts[0], ast.Name):
                return self.named(ts[0].id, sub, f, many, names, depth - 1, skip=p)
            if len(ts) == 1 and isinstance(ts[0], ast.Subscript) and isinstance(ts[0].value, ast.Name):
                return self.named(ts[0].value.id, sub, f, True, names, depth - 1)
            return None
        if isinstance(p, ast.Return):
            cs = callers(self.prj).get(f, [])
            rs = [self.collected(c, c, cf, many, names, depth - 1) for c, cf in cs]
            return None if not rs or None in rs else all(rs)
        if isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) and p.elt is expr:
            return self.collected(p, sub, f, True, names, depth - 1)
        if isinstance(p, (ast.List, ast.Tuple)):
            return self.collected(p, sub, f, True, names, depth - 1)
        if isinstance(p, ast.IfExp):
            return self.collected(p, sub, f, many, names, depth - 1)
        if isinstance(p, (ast.YieldFrom, ast.Starred)) and many == "lazy":
            return True
        if isinstance(p, ast.If) or isinstance(p, ast.Compare):
            return False
        return None

    def named(self, name, sub, f, many, names, depth, skip=None):
        rs = []
        scope = f
        while scope is not None and name not in scope.locals and scope is not f.module.main:
            scope = scope.outer or f.module.main
        for n in self.uses(scope or f, name, skip):
            if isinstance(n._parent, ast.Attribute) and n._parent.attr in ("append", "add", "extend"):
                continue
            rs.append(self.collected(n, sub, f, many, names | {name}, depth - 1))
        if True in rs:
            return True
        return None if None in rs else False

    def surfaces(self, call, f):
        """a collecting call inside a try whose broad handler drops the exception does not surface it"""
        cur = call
        for p in parents(call):
            if isinstance(p, ast.Try) and any(cur is s for s in p.body):
                for h in p.handlers:
                    if any(c in BROAD for c in classes(h.type, self.prj, f)) and not always_raises(h.body, self.prj, f) and not raises_by_type(h):
                        reported = any(isinstance(x, ast.Call) and (any(isinstance(y, ast.Name) and y.id == h.name for a in x.args for y in ast.walk(a)) and h.name
                                                                    or (dotted(x.func) or "").endswith(("exit", "exception", "print_exc"))) for x in ast.walk(h))
                        if not reported:
                            return False
            cur = p
            if isinstance(p, (ast.FunctionDef, ast.Lambda)):
                break
        return True


def worker_of(call, f, prj):
    a = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg in ("func", "fn", "target")), None)
    if isinstance(a, ast.Call) and (dotted(a.func) or "").endswith("partial") and a.args:
        a = a.args[0]
    if isinstance(a, ast.Name):
        t = prj.lookup(a.id, f, f.module)
        return t if isinstance(t, Func) else None
    return None


def swallowing(w, prj):
    """broad handlers in a worker that go on without raising or returning anything that tells of the failure; (handlers, returns failure values)"""
    bad, values = [], False
    for n in walk_own(w.node):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if not any(c in BROAD for c in classes(h.type, prj, w)) or always_raises(h.body, prj, w) or raises_by_type(h):
                    continue
                rets = [x for x in ast.walk(h) if isinstance(x, ast.Return)]
                if rets and all(r.value is not None and not (isinstance(r.value, ast.Constant) and r.value.value is None) for r in rets):
                    values = True
                elif any(isinstance(x, ast.Name) and x.id == h.name and h.name and isinstance(s, ast.Assign) for s in h.body for x in ast.walk(s)):
                    values = True
                else:
                    bad.append(h)
    return bad, values


def run(prj, fold, rep):
    rep.rule("the result of every apply_async/map_async/imap/submit reaches get()/result()/iteration wherever the submission ran; workers do not drop exceptions; failure values returned by workers are looked at")
    st = Sites(prj, rep, fold)
    for f in prj.funcs:
        for n in walk_own(f.node, include_lambda=False):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                if isinstance(n, ast.Call) and prj.ext_name(n.func, f, f.module) == "multiprocessing.Process":
                    kind = "process"
                else:
                    continue
            else:
                a = n.func.attr
                e = prj.ext_name(n.func, f, f.module)
                if e == "multiprocessing.Process":
                    kind = "process"
                elif a in ASYNC:
                    kind = "async"
                elif a in LAZY:
                    kind = "lazy"
                elif a in SYNC or a == "map":
                    kind = "sync"
                elif a == "submit":
                    kind = "async"
                else:
                    continue
                if a in ("map", "submit", "apply"):
                    # receiver must be a pool or executor
                    src = n.func.value
                    if isinstance(src, ast.Name):
                        t = prj.lookup(src.id, f, f.module)
                        scope = t[1].node if isinstance(t, tuple) and t[0] == "local" else f.module.tree
                        made = [ast.unparse(x.value) for x in ast.walk(scope) if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == src.id for y in x.targets)]
                        made += [ast.unparse(i.context_expr) for x in ast.walk(scope) if isinstance(x, ast.With) for i in x.items
                                 if isinstance(i.optional_vars, ast.Name) and i.optional_vars.id == src.id]
                    else:
                        made = [ast.unparse(src)]
                    if not any("Pool" in m or "Executor" in m for m in made):
                        continue
                    if a == "map" and any("Executor" in m for m in made):
                        kind = "lazy"
            rep.count("submissions")
            rep.site("%s:%d %s" % (f.module.path, n.lineno, text(n)))
            w = worker_of(n, f, prj)
            values = False
            if w is not None:
                bad, values = swallowing(w, prj)
                for h in bad:
                    rep.finding("worker-swallows", w, "except " + (text(h.type) if h.type else ""), "worker %s drops the exceptions caught here" % w.name, h)
            if kind == "process":
                r = st_named_process(n, f, st)
                if r is False:
                    rep.finding("process-exit-unchecked", f, text(n), "the exit code of the process started by %s is never looked at" % text(n), n)
                continue
            if kind == "async" or kind == "lazy":
                ec = next((k.value for k in n.keywords if k.arg == "error_callback"), None)
                if ec is not None and not (isinstance(ec, ast.Constant) and ec.value is None):
                    continue
                r = st.collected(n, n, f, "lazy" if kind == "lazy" else False)
                if r is False:
                    rep.finding("result-not-collected", f, text(n), "the result of %s is not collected wherever it was submitted, so a worker's failure is lost" % text(n), n)
            if values:
                # the worker reports failures as values: they must be looked at
                g = n
                while isinstance(g._parent, (ast.Attribute, ast.Call)) and not isinstance(g._parent, ast.Expr):
                    g = g._parent
                if isinstance(g._parent, ast.Expr) and r_dropped(g):
                    rep.finding("failure-values-dropped", f, text(n), "worker %s returns failures as values, which are dropped" % w.name, n)
                elif isinstance(g._parent, ast.Assign) and len(g._parent.targets) == 1 and isinstance(g._parent.targets[0], ast.Name):
                    nm = g._parent.targets[0].id
                    us = [x for x in ast.walk(f.module.tree) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load)]
                    used = [x for x in us if not (isinstance(x._parent, ast.Attribute) and isinstance(x._parent._parent, ast.Call) and isinstance(x._parent._parent._parent, ast.Expr))]
                    if not used:
                        rep.finding("failure-values-dropped", f, text(n), "worker %s returns failures as values, which are never looked at" % w.name, n)


def r_dropped(g):
    return isinstance(g, ast.Call)


def st_named_process(n, f, st):
    p = n._parent
    if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name):
        nm = p.targets[0].id
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr in ("exitcode", "sentinel"):
                return True
        return False
    return None


S = "scripts/t"
H = "#!/usr/bin/env python3\nfrom multiprocessing import Pool\nimport os\ndef doit(a):\n    os.stat(a)\n"
Z = {"lib/sldr/a.py": ""}
EXAMPLES = [
    ("dropped", {**Z, S: H + "pool = Pool()\npool.map_async(doit, [1])\npool.close()\npool.join()\n"}, True),
    ("named", {**Z, S: H + "pool = Pool()\nr = pool.map_async(doit, [1])\npool.close()\npool.join()\n"}, True),
    ("waited", {**Z, S: H + "pool = Pool()\nr = pool.map_async(doit, [1])\nr.wait()\n"}, True),
    ("got", {**Z, S: H + "pool = Pool()\nr = pool.map_async(doit, [1])\npool.close()\nr.get()\n"}, False),
    ("conditional get", {**Z, S: H + "import sys\npool = Pool()\nr = pool.map_async(doit, [1])\nif len(sys.argv) > 3:\n    r.get()\n"}, True),
    ("list", {**Z, S: H + "pool = Pool()\nrs = [pool.apply_async(doit, (x,)) for x in 'ab']\nfor r in rs:\n    r.get()\n"}, False),
    ("list wait", {**Z, S: H + "pool = Pool()\nrs = []\nfor x in 'ab':\n    rs.append(pool.apply_async(doit, (x,)))\nfor r in rs:\n    r.wait()\n"}, True),
    ("imap", {**Z, S: H + "pool = Pool()\npool.imap(doit, 'ab')\n"}, True),
    ("imap used", {**Z, S: H + "with Pool() as pool:\n    for x in pool.imap_unordered(doit, 'ab'):\n        pass\n"}, False),
    ("map", {**Z, S: H + "with Pool() as pool:\n    pool.map(doit, 'ab')\n"}, False),
    ("swallowed get", {**Z, S: H + "pool = Pool()\nr = pool.map_async(doit, [1])\ntry:\n    r.get()\nexcept Exception:\n    pass\n"}, True),
    ("worker", {**Z, S: H.replace("    os.stat(a)", "    try:\n        os.stat(a)\n    except Exception as e:\n        return") + "Pool().map(doit, 'ab')\n"}, True),
    ("worker values", {**Z, S: H.replace("    os.stat(a)", "    try:\n        os.stat(a)\n    except Exception as e:\n        return (False, str(e))\n    return (True, '')") + "rs = Pool().map(doit, 'ab')\nfor r in rs:\n    print(r)\n"}, False),
    ("worker values dropped", {**Z, S: H.replace("    os.stat(a)", "    try:\n        os.stat(a)\n    except Exception as e:\n        return (False, str(e))\n    return (True, '')") + "Pool().map(doit, 'ab')\n"}, True),
]
