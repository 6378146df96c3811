"""P13: library code (everything outside the __main__ parts) does not print, exit, debug or change process state."""
import ast
from ..core import walk_own, text, dotted, parents
from ..consts import UNKNOWN
from ..util import library_code, DefaultReach

TECHNIQUE = "effect query over resolved calls and references, with branches pruned that only run when the caller switches output on"
NOTE = "Trusted: the table of effects. Calls through values the resolver cannot name (getattr with computed names) are not seen."

CALLS = {"builtins.input": "reads from the terminal", "builtins.breakpoint": "starts the debugger",
         "builtins.exit": "ends the process", "builtins.quit": "ends the process", "sys.exit": "ends the process", "os._exit": "ends the process",
         "os.abort": "ends the process", "os.chdir": "changes the working directory", "os.fchdir": "changes the working directory", "os.chroot": "changes the root directory",
         "os.putenv": "changes the environment", "os.unsetenv": "changes the environment", "locale.setlocale": "changes the locale",
         "sys.setrecursionlimit": "changes the recursion limit", "site.addsitedir": "changes the module path",
         "code.interact": "starts an interpreter", "IPython.embed": "starts an interpreter", "faulthandler.dump_traceback": "writes to standard error",
         "pprint.pprint": "writes to standard output", "pprint.pp": "writes to standard output",
         "contextlib.redirect_stdout": "replaces standard output", "contextlib.redirect_stderr": "replaces standard error", "contextlib.chdir": "changes the working directory"}
PREFIX = {"pdb.": "starts the debugger", "ipdb.": "starts the debugger", "traceback.print_": "writes to standard error"}
STD = ("sys.stdout", "sys.stderr", "sys.__stdout__", "sys.__stderr__")
STATE = {"os.environ": "changes the environment", "sys.path": "changes the module search path", "os.environb": "changes the environment"}
MUT = {"append", "insert", "extend", "remove", "pop", "clear", "update", "setdefault", "popitem", "reverse", "sort", "__setitem__", "__delitem__"}


def kw(call, name):
    return next((k.value for k in call.keywords if k.arg == name), None)


def own_import_fallback(n, prj):
    """inside an `except ImportError` whose try only imports modules of the package: that import succeeds whenever this module is itself
    imported as part of the package, so the handler is for running the bare file"""
    prev = n
    for p in parents(n):
        if isinstance(p, ast.ExceptHandler) and p.type is not None and dotted(p.type) in ("ImportError", "ModuleNotFoundError"):
            t = p._parent
            if t.body and all(isinstance(x, (ast.Import, ast.ImportFrom)) and
                              all((a.name if isinstance(x, ast.Import) else (x.module or "")).split(".")[0] == "sldr" or getattr(x, "level", 0) for a in x.names)
                              for x in t.body):
                return True
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            return False
        prev = p
    return False


def run(prj, fold, rep):
    rep.rule("no call or reference in library code (outside __main__ parts, on branches not switched on by an argument) prints, exits, debugs or changes process-wide state")
    reach = DefaultReach(prj, fold)
    for f in prj.lib_funcs():
        rep.count("functions")
        defaults = set()
        for d in f.defaults.values():
            defaults.update(ast.walk(d))
        nodes = list(walk_own(f.node, include_lambda=False))
        for n in nodes:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                continue
            what = None
            if isinstance(n, ast.Call):
                rep.count("calls")
                e = prj.ext_name(n.func, f, f.module)
                if e == "builtins.print":
                    o = kw(n, "file")
                    oe = prj.ext_name(o, f, f.module) if o is not None else None
                    if o is None or isinstance(o, ast.Constant) and o.value is None or oe in STD:
                        what = "writes to standard output" if oe not in ("sys.stderr", "sys.__stderr__") else "writes to standard error"
                    elif isinstance(o, ast.Name) and o.id in f.defaults and isinstance(f.defaults[o.id], ast.Constant) and f.defaults[o.id].value is None \
                            and not any(isinstance(x, ast.Name) and x.id == o.id and isinstance(x.ctx, ast.Store) for x in nodes):
                        # file=None is standard output
                        what = "writes to standard output"
                elif e in CALLS:
                    what = CALLS[e]
                    if e.startswith("pprint.") and (kw(n, "stream") is not None or len(n.args) > 1):
                        what = None
                elif e is not None:
                    for p, w in PREFIX.items():
                        if e.startswith(p) and kw(n, "file") is None:
                            what = w
                    if e == "os.write" and n.args and fold.value(n.args[0], f) in (1, 2):
                        what = "writes to standard output or error"
                    base, _, meth = e.rpartition(".")
                    if base in STATE and meth in MUT:
                        what = STATE[base]
            elif isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                e = prj.ext_name(n, f, f.module)
                if e in STD:
                    p = n._parent
                    if not (isinstance(p, ast.Attribute) and p.attr in ("encoding", "isatty", "closed", "errors", "fileno")) \
                            and not (isinstance(p, ast.Compare)) and not (isinstance(p, ast.keyword) and p.arg == "file"):
                        what = "uses " + e
                elif e == "builtins.print" and not (isinstance(n._parent, ast.Call) and n._parent.func is n):
                    what = "passes print on"
            elif isinstance(n, ast.Raise) and n.exc is not None:
                x = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                if prj.ext_name(x, f, f.module) == "builtins.SystemExit":
                    what = "ends the process"
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value if isinstance(n, ast.Subscript) else n
                e = prj.ext_name(b, f, f.module)
                if e in STATE:
                    what = STATE[e]
                elif isinstance(n, ast.Attribute) and e in STD + ("sys.stdin", "sys.excepthook", "sys.displayhook"):
                    what = "replaces " + e
            if what is None:
                continue
            rep.count("effects_seen")
            if not library_code(prj, n, f) or reach.off(n, f) or own_import_fallback(n, prj):
                continue
            c = text(n)
            rep.finding("library-effect", f, c, "%s %s" % (c, what), n)


A = "lib/sldr/a.py"
EXAMPLES = [
    ("print", {A: "def f(x):\n    print(x)\n"}, True),
    ("print switched", {A: "def f(x, verbose=False):\n    if verbose: print(x)\n    if not verbose: return 1\n    print(x)\n"}, False),
    ("print wrong branch", {A: "def f(x, verbose=False):\n    if not verbose: print(x)\n"}, True),
    ("main", {A: "import sys\nif __name__ == '__main__':\n    print(1)\n    sys.exit(2)\n"}, False),
    ("main function", {A: "import sys\ndef main():\n    print(1)\nif __name__ == '__main__':\n    main()\n"}, False),
    ("exit", {A: "import sys\ndef f(x):\n    if x: sys.exit(1)\n"}, True),
    ("exit by name", {A: "from sys import exit as leave\ndef f(x):\n    leave(1)\n"}, True),
    ("raise", {A: "def f(x):\n    raise SystemExit(1)\n"}, True),
    ("env", {A: "import os\ndef f(x):\n    os.environ['A'] = x\n"}, True),
    ("path", {A: "import sys\np = sys.path\np.insert(0, 'x')\n"}, True),
    ("stdout", {A: "import sys\ndef f(x):\n    w = sys.stdout.write\n    w(x)\n"}, True),
    ("reclimit", {A: "import sys\nsys.setrecursionlimit(9)\n"}, True),
    ("logging", {A: "import logging, sys\ndef f(x, o):\n    logging.getLogger(__name__).warning('x')\n    print(x, file=o)\n    o.write('x')\n"}, False),
    ("switch attribute", {A: "class C:\n    def __init__(self, debug=False):\n        self.debug = debug\n    def _say(self, m):\n        print(m)\n    def f(self):\n        if self.debug:\n            self._say(1)\n"}, False),
]
