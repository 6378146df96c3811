"""P25: nothing read from outside is executed, and methods are not selected by data."""
import ast
from ..core import walk_own, text, dotted
from ..consts import UNKNOWN, possible, single_assignment

TECHNIQUE = "who-may-call query over resolved calls, with constant propagation of what is executed and of computed attribute names"
NOTE = "Trusted: the table of executing calls. Constant code and commands (program name fixed, no shell) are allowed."

CODE = {"builtins.eval": 0, "builtins.exec": 0, "builtins.compile": 0, "builtins.execfile": 0}
SHELL = ("os.system", "os.popen", "os.popen2", "os.popen3", "subprocess.getoutput", "subprocess.getstatusoutput", "commands.getoutput", "asyncio.create_subprocess_shell",
         "pty.spawn", "platform.popen")
SUBP = ("subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen")
LOADS = ("pickle.load", "pickle.loads", "pickle.Unpickler", "_pickle.load", "_pickle.loads", "cPickle.load", "cPickle.loads", "dill.load", "dill.loads", "marshal.load", "marshal.loads",
         "shelve.open", "jsonpickle.decode", "joblib.load", "cloudpickle.load", "cloudpickle.loads", "yaml.unsafe_load", "yaml.full_load", "yaml.UnsafeLoader", "pandas.read_pickle")
YAML = ("yaml.load", "yaml.load_all")
IMPORT = ("builtins.__import__", "importlib.import_module", "importlib.__import__", "imp.load_source", "imp.load_module", "runpy.run_path", "runpy.run_module",
          "importlib.machinery.SourceFileLoader", "importlib.util.spec_from_file_location")
EXECV = ("os.execl", "os.execle", "os.execlp", "os.execv", "os.execve", "os.execvp", "os.execvpe", "os.spawnl", "os.spawnlp", "os.spawnv", "os.spawnvp", "os.posix_spawn", "os.startfile")


def const_prefix(n, f, fold):
    """the fixed beginning of a computed string, '' when there is none"""
    v = fold.value(n, f)
    if isinstance(v, str):
        return v
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a = const_prefix(n.left, f, fold)
        return a
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
        a = fold.value(n.left, f)
        return a.split("%")[0] if isinstance(a, str) else ""
    if isinstance(n, ast.JoinedStr) and n.values and isinstance(n.values[0], ast.Constant):
        return n.values[0].value
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format":
        a = fold.value(n.func.value, f)
        return a.split("{")[0] if isinstance(a, str) else ""
    if isinstance(n, ast.Name):
        s = single_assignment(f, n.id)
        if s is not None:
            return const_prefix(s, f, fold)
    return ""


def choices(n, f, fold, prj):
    """the name comes from a fixed set: constants, or the variable of a loop over constants, or guarded by `in` a constant table"""
    if possible(fold, n, f) is not None:
        return True
    if isinstance(n, ast.Name):
        for x in walk_own(f.node):
            if isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == n.id for y in ast.walk(x.target)):
                if fold.value(x.iter, f) is not UNKNOWN:
                    return True
            if isinstance(x, ast.Compare) and isinstance(x.left, ast.Name) and x.left.id == n.id and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops) \
                    and fold.value(x.comparators[0], f) is not UNKNOWN:
                return True
        s = single_assignment(f, n.id)
        if s is not None and isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == "get":
            return fold.value(s.func.value, f) is not UNKNOWN
    if isinstance(n, ast.Subscript):
        return fold.value(n.value, f) is not UNKNOWN
    return False


def command_ok(n, f, fold, prj):
    """list whose program is fixed"""
    if isinstance(n, ast.Name):
        t = prj.lookup(n.id, f, f.module)
        scope = t[1].node if isinstance(t, tuple) and t[0] == "local" else f.module.tree
        src = [x.value for x in walk_own(scope) if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == n.id for y in x.targets)]
        if isinstance(t, tuple) and t[0] == "local" and n.id in t[1].allparams:
            return None
        return all(command_ok(s, f, fold, prj) is not False for s in src) if src else None
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        return command_ok(n.left, f, fold, prj)
    if isinstance(n, (ast.List, ast.Tuple)):
        if not n.elts:
            return None
        v = fold.value(n.elts[0], f)
        if v is UNKNOWN and isinstance(n.elts[0], ast.Attribute) and prj.ext_name(n.elts[0], f, f.module) == "sys.executable":
            v = "python"
        return isinstance(v, str) and not (v.split("/")[-1] in ("sh", "bash", "zsh", "cmd", "perl") or
                                           v.startswith("python") and any(fold.value(x, f) == "-c" for x in n.elts[1:2]))
    if isinstance(n, (ast.JoinedStr,)) or isinstance(fold.value(n, f), str):
        return True
    return None


def run(prj, fold, rep):
    rep.rule("no call evaluates code, runs a shell or a data-chosen program, unpickles, imports by a computed name, or calls an attribute whose name comes from data without a fixed prefix")
    for f in prj.funcs:
        for n in walk_own(f.node, include_lambda=False):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load) and not (isinstance(n._parent, ast.Call) and n._parent.func is n) \
                    and not isinstance(n._parent, ast.Attribute):
                e = prj.ext_name(n, f, f.module)
                if e in CODE or e in SHELL or e in LOADS[:2]:
                    rep.finding("passes-executor", f, text(n._parent), "%s passes %s on" % (text(n._parent), e), n)
            if not isinstance(n, ast.Call):
                continue
            rep.count("calls")
            e = prj.ext_name(n.func, f, f.module)
            why = None
            kws = {k.arg: k.value for k in n.keywords}
            if e in CODE:
                if n.args and fold.value(n.args[0], f) is UNKNOWN:
                    why = "executes computed code"
            elif e in SHELL:
                if n.args and fold.value(n.args[0], f) is UNKNOWN:
                    why = "runs a computed shell command"
            elif e in SUBP:
                rep.count("subprocess_calls")
                sh = kws.get("shell")
                cmd = n.args[0] if n.args else kws.get("args")
                shv = fold.value(sh, f) if sh is not None else False
                if shv is UNKNOWN or shv:
                    if cmd is None or fold.value(cmd, f) is UNKNOWN:
                        why = "runs a computed command through the shell"
                elif cmd is not None and command_ok(cmd, f, fold, prj) is False:
                    why = "runs a program chosen by data"
            elif e in EXECV:
                if n.args and fold.value(n.args[0], f) is UNKNOWN and e not in ("os.spawnl", "os.spawnlp", "os.spawnv", "os.spawnvp"):
                    why = "runs a program chosen by data"
            elif e in LOADS:
                why = "loads data with an unsafe deserialiser"
            elif e in YAML:
                l = kws.get("Loader", n.args[1] if len(n.args) > 1 else None)
                le = prj.ext_name(l, f, f.module) if l is not None else None
                if le not in ("yaml.SafeLoader", "yaml.CSafeLoader", "yaml.BaseLoader"):
                    why = "loads data with an unsafe deserialiser"
            elif e in IMPORT:
                a = n.args[0] if n.args else None
                if a is not None and fold.value(a, f) is UNKNOWN and not choices(a, f, fold, prj):
                    why = "imports a module chosen by data"
            elif e is not None and e.endswith(".import_module") is False and e == "numpy.load":
                v = kws.get("allow_pickle")
                if v is not None and fold.value(v, f) is not False:
                    why = "loads data with an unsafe deserialiser"
            if why:
                rep.finding("executes-input", f, text(n), "%s %s" % (text(n), why), n)
            # getattr(x, computed)(...), also through a name
            g = n.func
            if isinstance(g, ast.Name):
                s = single_assignment(f, g.id) if g.id in f.locals else None
                if s is not None:
                    g = s
            if isinstance(g, ast.Call) and (prj.ext_name(g.func, f, f.module) in ("builtins.getattr", "operator.methodcaller", "operator.attrgetter")):
                e2 = prj.ext_name(g.func, f, f.module)
                a = g.args[1] if e2 == "builtins.getattr" and len(g.args) > 1 else g.args[0] if e2 != "builtins.getattr" and g.args else None
                if a is not None:
                    rep.count("computed_method_calls")
                    if fold.value(a, f) is UNKNOWN and not const_prefix(a, f, fold) and not choices(a, f, fold, prj):
                        rep.finding("method-by-data", f, text(g), "%s selects the method to call by a computed name" % text(g), n)
            elif isinstance(g, ast.Subscript) and isinstance(g.value, ast.Call) and prj.ext_name(g.value.func, f, f.module) in ("builtins.globals", "builtins.locals", "builtins.vars") \
                    or isinstance(g, ast.Subscript) and isinstance(g.value, ast.Attribute) and g.value.attr == "__dict__":
                if fold.value(g.slice, f) is UNKNOWN and not const_prefix(g.slice, f, fold):
                    rep.finding("method-by-data", f, text(g), "%s selects the function to call by a computed name" % text(g), n)


A = "lib/sldr/a.py"
EXAMPLES = [
    ("eval", {A: "def f(x):\n    return eval(x)\n"}, True),
    ("eval constant", {A: "def f(x):\n    return eval('1+1')\n"}, False),
    ("system", {A: "import os\ndef f(x):\n    os.system('ls ' + x)\n"}, True),
    ("shell", {A: "import subprocess as s\ndef f(x):\n    s.check_output('git log %s' % x, shell=True)\n"}, True),
    ("list", {A: "import subprocess as s\ndef f(x):\n    cmd = ['git', 'log', x]\n    cmd.extend(x)\n    s.check_output(cmd)\n"}, False),
    ("sh -c", {A: "import subprocess as s\ndef f(x):\n    s.check_output(['sh', '-c', x])\n"}, True),
    ("pickle", {A: "from pickle import load\ndef f(x):\n    return load(x)\n"}, True),
    ("getattr", {A: "class C:\n    def f(self, n):\n        return getattr(self, n.tag)(1)\n"}, True),
    ("getattr prefix", {A: "class C:\n    def f(self, n):\n        m = getattr(self, 'do_' + n.tag, None)\n        if m: return m(1)\n"}, False),
    ("getattr value", {A: "class C:\n    def f(self, n):\n        return getattr(self, n.tag)\n"}, False),
    ("map eval", {A: "def f(x):\n    return list(map(eval, x))\n"}, True),
    ("import", {A: "import importlib\ndef f(x):\n    return importlib.import_module(x)\n"}, True),
]
