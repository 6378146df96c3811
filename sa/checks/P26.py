"""P26: handlers in the library name what they expect, or raise again; nothing else swallows exceptions."""
import ast
from ..core import walk_own, text, dotted, parents
from ..util import library_code, always_raises

TECHNIQUE = "query over every handler, suppress and finally with resolved exception classes and an always-raises analysis of the body"
NOTE = "Trusted: the list of exceptions too broad to expect. A handler that raises on every path, or decides by the exception's type whether to raise, is accepted."

BROAD = {"Exception", "BaseException", "StandardError", "KeyboardInterrupt", "SystemExit", "MemoryError", "GeneratorExit"}
# malformed input: reporting it as a normal result hides it
PARSE = ("ParseError", "ExpatError", "expat.error", "XMLSyntaxError", "JSONDecodeError", "SyntaxError", "XPathEvalError")
PROGRAMMING = {"NameError", "UnboundLocalError", "AssertionError", "NotImplementedError", "RecursionError"}


# errors that a call to the project's own code only raises through a mistake
DEEP = {"TypeError", "AttributeError", "RuntimeError"}


def hides_project_code(t, f, prj):
    """the guarded statements call functions of the project, whose programming errors would be caught too"""
    for s in t.body:
        for n in [s] + list(walk_own(s)):
            if isinstance(n, ast.Call):
                fs, exact = prj.callees(n, f, f.module)
                if fs and exact:
                    return True
    return False


def classes(t, prj, f, depth=4):
    """resolved names of the exceptions a handler catches"""
    if t is None:
        return ["BaseException"]
    if isinstance(t, ast.Tuple):
        return [c for x in t.elts for c in classes(x, prj, f, depth)]
    if isinstance(t, ast.BinOp):
        return classes(t.left, prj, f, depth) + classes(t.right, prj, f, depth)
    e = prj.ext_name(t, f, f.module)
    if e and e.startswith("builtins."):
        return [e[9:]]
    if isinstance(t, ast.Name) and depth:
        r = prj.lookup(t.id, f, f.module)
        if isinstance(r, tuple) and r[0] in ("global", "local"):
            scope = r[1].tree if r[0] == "global" else r[1].node
            return [c for x in walk_own(scope) if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == t.id for y in x.targets)
                    for c in classes(x.value, prj, f, depth - 1)]
    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and depth:
        c = prj.self_class(t.value.id, f)
        if c is not None:
            for k in c.mro():
                if isinstance(k.attrs.get(t.attr), ast.expr):
                    return classes(k.attrs[t.attr], prj, k.module.main, depth - 1)
            return [x for g, s in c.selfattrs.get(t.attr, []) if isinstance(s._parent, ast.Assign)
                    for x in classes(s._parent.value, prj, g, depth - 1)]
    return [e or dotted(t) or "?"]


def raises_by_type(h):
    """body tests the exception and raises on one side: the handler is selective"""
    if not h.name:
        return False
    for n in ast.walk(h):
        if isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == h.name for x in ast.walk(n.test)) \
                and any(isinstance(x, ast.Raise) for b in (n.body, n.orelse) for s in b for x in ast.walk(s)):
            return True
    return False


def run(prj, fold, rep):
    rep.rule("every except clause in lib/sldr names specific exceptions or raises on every path; no suppress of broad classes; no return/break/continue in finally; no __exit__ returning a true constant")
    for f in prj.lib_funcs():
        for n in walk_own(f.node, include_lambda=False):
            if isinstance(n, ast.Try) or type(n).__name__ == "TryStar":
                for h in n.handlers:
                    rep.count("handlers")
                    cs = classes(h.type, prj, f)
                    rep.site("%s:%d except %s" % (f.module.path, h.lineno, ",".join(cs)))
                    bad = [c for c in cs if c in BROAD]
                    if not bad:
                        bad = [c for c in cs if c.endswith(PARSE)]
                    if not bad and f is not f.module.main:
                        bad = [c for c in cs if c in PROGRAMMING]
                    if not bad:
                        bad = [c for c in cs if c in DEEP and hides_project_code(n, f, prj)]
                    if bad and library_code(prj, h, f) and not always_raises(h.body, prj, f) and not raises_by_type(h):
                        rep.finding("swallowed", f, "except " + ",".join(sorted(set(bad))) + " around " + text(n.body[0], 40),
                                    "handler for %s goes on normally" % ", ".join(sorted(set(bad))), h)
                for s in n.finalbody:
                    for x in [s] + list(walk_own(s)):
                        inner = [p for p in parents(x)]
                        upto = inner[:inner.index(n)] if n in inner else []
                        if isinstance(x, ast.Return) and not any(isinstance(p, (ast.FunctionDef, ast.Lambda)) for p in upto) or \
                                isinstance(x, (ast.Break, ast.Continue)) and not any(isinstance(p, (ast.For, ast.While, ast.FunctionDef)) for p in upto):
                            rep.finding("finally-swallows", f, text(x), "%s in finally drops the exception on its way out" % text(x), x)
            elif isinstance(n, ast.Call) and prj.ext_name(n.func, f, f.module) == "contextlib.suppress":
                rep.count("handlers")
                bad = [c for a in n.args for c in classes(a, prj, f) if c in BROAD or c in PROGRAMMING]
                if bad and library_code(prj, n, f):
                    rep.finding("swallowed", f, text(n), "%s hides %s" % (text(n), ", ".join(bad)), n)
        if f.name == "__exit__" and f.cls is not None:
            for n in walk_own(f.node):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Constant) and n.value.value:
                    rep.finding("exit-swallows", f, text(n), "__exit__ returns a true value, which hides every exception", n)


A = "lib/sldr/a.py"
EXAMPLES = [
    ("bare", {A: "def f(x):\n    try:\n        return g(x)\n    except:\n        return None\n"}, True),
    ("exception", {A: "def f(x):\n    try:\n        return int(x)\n    except Exception as e:\n        print(e)\n"}, True),
    ("tuple", {A: "ERR = (ValueError, Exception)\ndef f(x):\n    try:\n        return int(x)\n    except ERR:\n        return 0\n"}, True),
    ("specific", {A: "def f(x):\n    try:\n        return int(x)\n    except (ValueError, KeyError):\n        return 0\n"}, False),
    ("reraise", {A: "def f(x):\n    try:\n        return int(x)\n    except Exception as e:\n        x.close()\n        raise ValueError(str(e))\n"}, False),
    ("reraise helper", {A: "def fail(e):\n    raise ValueError(e)\ndef f(x):\n    try:\n        return int(x)\n    except Exception as e:\n        fail(e)\n"}, False),
    ("half raise", {A: "def f(x, y):\n    try:\n        return int(x)\n    except Exception:\n        if y: raise\n"}, True),
    ("parse error", {A: "from xml.etree.ElementTree import ParseError, parse\ndef f(x):\n    try:\n        return parse(x)\n    except ParseError:\n        return None\n"}, True),
    ("suppress", {A: "import contextlib\ndef f(x):\n    with contextlib.suppress(Exception):\n        x.go()\n"}, True),
    ("finally", {A: "def f(x):\n    try:\n        x.go()\n    finally:\n        return 1\n"}, True),
    ("finally fine", {A: "def f(x):\n    try:\n        x.go()\n    finally:\n        for y in x:\n            if y: break\n"}, False),
]
