"""P08: every call that opens a text stream names an encoding that does not come from the locale."""
import ast
from ..core import walk_own, text, dotted
from ..consts import UNKNOWN, possible, callers
from ..core import bind

TECHNIQUE = "resolved-call query with constant propagation of mode and encoding through helpers"
NOTE = "Trusted: the table of calls that open text streams. An open through a computed function value is not seen; a mode that cannot be determined is taken as binary."

# call -> (position of mode, default mode, position of encoding, 'b' means binary / 't' means text)
OPENERS = {
    "builtins.open": (1, "r", 3, "b"), "io.open": (1, "r", 3, "b"), "codecs.open": (1, "r", 2, "b"), "os.fdopen": (1, "r", 3, "b"),
    "gzip.open": (1, "rb", 3, "t"), "bz2.open": (1, "rb", 3, "t"), "lzma.open": (1, "rb", None, "t"),
    "tempfile.NamedTemporaryFile": (0, "w+b", 2, "b"), "tempfile.TemporaryFile": (0, "w+b", 2, "b"), "tempfile.SpooledTemporaryFile": (1, "w+b", 3, "b"),
    "io.TextIOWrapper": (None, "r", 1, "b"), "argparse.FileType": (0, "r", 2, "b"),
    "fileinput.input": (None, "r", None, "b"), "fileinput.FileInput": (None, "r", None, "b"), "logging.FileHandler": (None, "a", 2, "b"),
}
METHODS = {"read_text": (None, "r", 0, "b"), "write_text": (None, "w", 1, "b")}
LOCALE = ("locale.getpreferredencoding", "locale.getencoding", "locale.nl_langinfo", "sys.getfilesystemencoding", "locale.getlocale", "locale.getdefaultlocale",
          "sys.stdout.encoding", "sys.stdin.encoding", "sys.stderr.encoding")


def arg(call, pos, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    if pos is not None and pos < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args[:pos + 1]):
        return call.args[pos]
    return None


def is_path(n, f, prj, depth=3):
    """expression is a pathlib path"""
    if isinstance(n, ast.Call):
        e = prj.ext_name(n.func, f, f.module)
        if e and e.startswith("pathlib."):
            return True
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("joinpath", "with_suffix", "with_name", "resolve", "absolute", "expanduser"):
            return is_path(n.func.value, f, prj, depth)
        return False
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div):
        return is_path(n.left, f, prj, depth)
    if isinstance(n, ast.Attribute) and n.attr == "parent":
        return is_path(n.value, f, prj, depth)
    if isinstance(n, ast.Name) and depth:
        t = prj.lookup(n.id, f, f.module)
        if isinstance(t, tuple) and t[0] in ("local", "global"):
            src = [x.value for x in walk_own(t[1].node if t[0] == "local" else t[1].tree) if isinstance(x, ast.Assign)
                   and any(isinstance(y, ast.Name) and y.id == n.id for y in x.targets)]
            return bool(src) and all(is_path(s, f, prj, depth - 1) for s in src)
    return False


def bad_encoding(n, f, fold, prj, depth=3):
    """None when fine, else a reason"""
    if n is None:
        return "no encoding given"
    e = prj.ext_name(n, f, f.module)
    if e in LOCALE:
        return "encoding taken from " + e
    if isinstance(n, ast.Call):
        e = prj.ext_name(n.func, f, f.module)
        if e in LOCALE:
            return "encoding taken from " + e
    if isinstance(n, ast.Subscript):
        return bad_encoding(n.value, f, fold, prj, depth) if isinstance(n.value, ast.Call) else None
    if isinstance(n, ast.IfExp):
        return bad_encoding(n.body, f, fold, prj, depth) or bad_encoding(n.orelse, f, fold, prj, depth)
    if isinstance(n, ast.BoolOp):
        if isinstance(n.op, ast.Or):
            for x in n.values[:-1]:
                r = bad_encoding(x, f, fold, prj, depth)
                if r and "locale" in r:
                    return r
            return bad_encoding(n.values[-1], f, fold, prj, depth)
    v = fold.value(n, f)
    if v is not UNKNOWN:
        return "encoding is %r" % v if v is None or v in ("locale", "") else None
    if isinstance(n, ast.Name) and depth:
        t = prj.lookup(n.id, f, f.module)
        if isinstance(t, tuple) and t[0] == "local":
            g = t[1]
            stores = [x for x in walk_own(g.node) if isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store)]
            if n.id in g.allparams and not stores:
                cs = callers(prj).get(g, [])
                for c, cf in cs:
                    if any(k.arg is None for k in c.keywords) or any(isinstance(a, ast.Starred) for a in c.args):
                        continue
                    b = bind(c, g).get(n.id, g.defaults.get(n.id))
                    if b is not None:
                        r = bad_encoding(b, cf if b is not g.defaults.get(n.id) else (g.outer or g.module.main), fold, prj, depth - 1)
                        if r:
                            return r
                if n.id in g.defaults and not g.name.startswith("_"):
                    return bad_encoding(g.defaults[n.id], g.outer or g.module.main, fold, prj, depth - 1)
            elif stores and n.id not in g.allparams:
                for s in stores:
                    if isinstance(s._parent, ast.Assign):
                        r = bad_encoding(s._parent.value, g, fold, prj, depth - 1)
                        if r and "locale" in r or r and len(stores) == 1:
                            return r
    return None


def judge(call, spec, f, fold, prj):
    mpos, mdef, epos, how = spec
    m = arg(call, mpos, "mode") if mpos is not None or any(k.arg == "mode" for k in call.keywords) else None
    if any(k.arg is None for k in call.keywords) or any(isinstance(a, ast.Starred) for a in call.args):
        if arg(call, epos, "encoding") is None:
            return None          # cannot tell
    modes = {mdef} if m is None else possible(fold, m, f)
    if modes is None:
        return None
    textm = [x for x in modes if isinstance(x, str) and ("b" not in x if how == "b" else "t" in x)]
    if not textm:
        return None
    return bad_encoding(arg(call, epos, "encoding"), f, fold, prj)


def run(prj, fold, rep):
    rep.rule("every call that opens a text stream (open, codecs.open, TextIOWrapper, Path.read_text, FileType, ...) names an encoding that is neither None nor the locale's")
    for f in prj.funcs:
        for n in walk_own(f.node, include_lambda=False):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
                e = prj.ext_name(n, f, f.module)
                if e in OPENERS:
                    p = n._parent
                    if isinstance(p, ast.Call) and p.func is n:
                        continue
                    if isinstance(p, ast.Call) and n in p.args:
                        pe = prj.ext_name(p.func, f, f.module)
                        if pe == "functools.partial" and p.args[0] is n:
                            fake = ast.Call(func=n, args=p.args[1:], keywords=p.keywords)
                            rep.count("opens")
                            r = judge(fake, OPENERS[e], f, fold, prj)
                            if r and r != "no encoding given":
                                rep.finding("open-encoding", f, text(p), "%s: %s" % (text(p), r), n)
                        elif pe in ("builtins.map",) and p.args[0] is n and "b" not in OPENERS[e][1]:
                            rep.finding("open-encoding", f, text(p), "%s opens text files without an encoding" % text(p), n)
                    continue
            if not isinstance(n, ast.Call):
                continue
            e = prj.ext_name(n.func, f, f.module)
            spec = OPENERS.get(e)
            if spec is None and isinstance(n.func, ast.Attribute):
                if n.func.attr in METHODS and e is None and not prj.by_method.get(n.func.attr):
                    spec = METHODS[n.func.attr]
                elif n.func.attr == "open" and is_path(n.func.value, f, prj):
                    spec = (0, "r", 2, "b")
            if spec is None:
                continue
            rep.count("opens")
            rep.site("%s:%d %s" % (f.module.path, n.lineno, text(n)))
            r = judge(n, spec, f, fold, prj)
            if r:
                rep.finding("open-encoding", f, text(n), "%s: %s" % (text(n), r), n)


A = "lib/sldr/a.py"
EXAMPLES = [
    ("plain", {A: "def f(n):\n    return open(n).read()\n"}, True),
    ("codecs", {A: "import codecs\ndef f(n):\n    return codecs.open(n, 'w')\n"}, True),
    ("none", {A: "def f(n):\n    with open(n, 'w', encoding=None) as o: pass\n"}, True),
    ("locale", {A: "import locale\ndef f(n):\n    e = locale.getpreferredencoding()\n    return open(n, encoding=e)\n"}, True),
    ("helper", {A: "def o(n, mode):\n    return open(n, mode)\ndef f(n):\n    return o(n, 'rb')\ndef g(n):\n    return o(n, 'w')\n"}, True),
    ("helper ok", {A: "def o(n, mode):\n    return open(n, mode)\ndef f(n):\n    return o(n, 'rb')\n"}, False),
    ("fine", {A: "ENC='utf-8'\ndef f(n):\n    return open(n, 'r', encoding=ENC), open(n, 'rb'), open(n, 'r', -1, 'utf-8')\n"}, False),
    ("path", {A: "from pathlib import Path\ndef f(n):\n    return Path(n).read_text()\n"}, True),
    ("wrapper", {A: "import io, sys\ndef f(s):\n    return io.TextIOWrapper(s)\n"}, True),
]
