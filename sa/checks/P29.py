"""P29: texts put together from pieces: as many pieces as places, and each of the kind its place takes."""
import ast, re, string
from ..core import walk_own, text, dotted, targets, parents
from ..consts import UNKNOWN, possible

TECHNIQUE = "format strings folded from the source and parsed; places matched against arguments, with a small type inference for what fills them"
NOTE = ("Format strings that are not constant and arguments passed with * or ** are only judged as far as they are known; a value's type counts only when every "
        "assignment to the variable gives it.")

SPEC = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)?", re.S)
STRCALLS = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "join", "format", "replace", "capitalize", "casefold", "zfill", "ljust", "rjust", "center", "expandtabs", "swapcase"}
INTCALLS = {"len", "ord", "int", "hash", "id"}
LOGS = {"debug", "info", "warn", "warning", "error", "critical", "exception"}


def percent(s):
    """[(key, number of * , conversion)] of a %-format, or an error text"""
    res, i = [], 0
    while True:
        i = s.find("%", i)
        if i < 0:
            return res
        m = SPEC.match(s, i)
        c = m.group("conv")
        if c is None:
            return "it ends in a %% without a conversion" % ()
        if c not in "diouxXeEfFgGcrsa%":
            return "%r is not a conversion" % m.group(0)
        if c != "%":
            res.append((m.group("key"), (m.group("width") == "*") + (m.group("prec") == "*"), c))
        i = m.end()


def braces(s, depth=2):
    """[(field: number, name or None for the next one, conversion, spec)] of a {}-format, or an error text"""
    res = []
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if field is None:
                continue
            first = re.split(r"[.\[]", field)[0]
            res.append((None if first == "" else int(first) if first.isdigit() else first, field, conv, spec if field == first else None))
            if spec and "{" in spec and depth:
                inner = braces(spec, depth - 1)
                if isinstance(inner, str):
                    return inner
                res[-1] = res[-1][:3] + (None,)
                res += inner
    except ValueError as e:
        return str(e)
    return res


class Types:
    def __init__(self, prj, fold):
        self.prj, self.fold = prj, fold

    def of(self, n, f, depth=4):
        if n is None or depth <= 0:
            return None
        if isinstance(n, ast.Constant):
            v = n.value
            return "none" if v is None else type(v).__name__ if isinstance(v, (str, int, float, bytes)) else None
        if isinstance(n, ast.JoinedStr):
            return "str"
        if isinstance(n, (ast.List, ast.ListComp)):
            return "list"
        if isinstance(n, ast.Tuple):
            return "tuple"
        if isinstance(n, (ast.Dict, ast.DictComp)):
            return "dict"
        if isinstance(n, (ast.Set, ast.SetComp)):
            return "set"
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
            return self.of(n.operand, f, depth - 1)
        if isinstance(n, ast.BinOp):
            a, b = self.of(n.left, f, depth - 1), self.of(n.right, f, depth - 1)
            if isinstance(n.op, ast.Mod) and a == "str":
                return "str"
            if isinstance(n.op, ast.Div):
                return "float" if {a, b} <= {"int", "float"} else None
            if isinstance(n.op, ast.Add) and a == b:
                return a
            if isinstance(n.op, (ast.Sub, ast.Mult, ast.FloorDiv)) and a == b == "int":
                return "int"
            if isinstance(n.op, ast.Mult) and {a, b} == {"str", "int"}:
                return "str"
            return None
        if isinstance(n, ast.IfExp):
            a, b = self.of(n.body, f, depth - 1), self.of(n.orelse, f, depth - 1)
            return a if a == b else None
        if isinstance(n, ast.Call):
            e = self.prj.ext_name(n.func, f, f.module) or ""
            if e.startswith("builtins."):
                b = e[9:]
                if b in INTCALLS:
                    return "int"
                if b in ("str", "repr", "chr", "format", "hex", "oct", "bin", "ascii", "input"):
                    return "str"
                if b in ("list", "dict", "tuple", "set", "float", "bytes"):
                    return b
                if b == "sorted":
                    return "list"
                return None
            if e.startswith("os.path.") and e.rpartition(".")[2] in ("join", "basename", "dirname", "abspath", "realpath", "normpath", "expanduser", "relpath"):
                return "str"
            if isinstance(n.func, ast.Attribute) and not self.prj.callees(n, f, f.module)[0]:
                m = n.func.attr
                t = self.of(n.func.value, f, depth - 1)
                if t == "str":
                    if m in STRCALLS:
                        return "str"
                    if m in ("split", "rsplit", "splitlines"):
                        return "list"
                    if m in ("find", "rfind", "index", "count"):
                        return "int"
                    if m == "encode":
                        return "bytes"
                    if m in ("partition", "rpartition"):
                        return "tuple"
                if t == "bytes" and m == "decode":
                    return "str"
                if t == "dict" and m == "copy":
                    return "dict"
            return None
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            t = self.of(n.value, f, depth - 1)
            return t if t in ("str", "list", "tuple", "bytes") else None
        if isinstance(n, ast.Subscript):
            t = self.of(n.value, f, depth - 1)
            return "str" if t == "str" else None
        if isinstance(n, ast.Name):
            return self.name(n.id, f, depth)
        return None

    def name(self, name, f, depth):
        t = self.prj.lookup(name, f, f.module)
        if not (isinstance(t, tuple) and t[0] == "local") or t[1] is not f or name in f.allparams:
            return None
        ts = set()
        for x in walk_own(f.node):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)):
                p = x._parent
                if isinstance(p, ast.Assign) and x in p.targets:
                    ts.add(self.of(p.value, f, depth - 1))
                elif isinstance(p, ast.AnnAssign) and p.value is not None:
                    ts.add(self.of(p.value, f, depth - 1))
                elif isinstance(p, ast.NamedExpr):
                    ts.add(self.of(p.value, f, depth - 1))
                elif isinstance(p, ast.For) and p.target is x and isinstance(p.iter, ast.Call) and self.prj.ext_name(p.iter.func, f, f.module) == "builtins.range":
                    ts.add("int")
                elif isinstance(p, ast.comprehension):
                    if isinstance(p.iter, ast.Call) and self.prj.ext_name(p.iter.func, f, f.module) == "builtins.range" and p.target is x:
                        ts.add("int")
                    else:
                        ts.add(None)
                elif isinstance(p, ast.Tuple) and isinstance(p._parent, (ast.For, ast.comprehension)) and p._parent.target is p and p.elts[0] is x \
                        and isinstance(p._parent.iter, ast.Call) and self.prj.ext_name(p._parent.iter.func, f, f.module) == "builtins.enumerate":
                    ts.add("int")
                elif isinstance(p, ast.AugAssign):
                    # adding keeps the type it has, or fails
                    v = self.of(p.value, f, depth - 1)
                    ts.add("float" if isinstance(p.op, ast.Div) else v if isinstance(p.op, (ast.Add, ast.Sub)) and v in ("str", "int") else None)
                else:
                    ts.add(None)
        for x in walk_own(f.node):
            if isinstance(x, (ast.ExceptHandler,)) and x.name == name:
                ts.add(None)
            if isinstance(x, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name) == name for a in x.names):
                ts.add(None)
        for g in self.prj.funcs:
            if name in g.nonlocals and g.outer is f:
                return None
        return next(iter(ts)) if len(ts) == 1 else None


class Check:
    def __init__(self, prj, fold, rep):
        self.prj, self.fold, self.rep = prj, fold, rep
        self.types = Types(prj, fold)

    def texts(self, n, f):
        """the constant texts an expression may be"""
        v = self.fold.value(n, f)
        if isinstance(v, (str, bytes)):
            return [v]
        if v is UNKNOWN:
            p = possible(self.fold, n, f)
            if p and all(isinstance(x, str) for x in p):
                return sorted(p)
        return []

    def func(self, f):
        rep = self.rep
        for n in walk_own(f.node):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                for s in self.texts(n.left, f):
                    rep.count("percent_formats")
                    rep.site("%s %s: %r %%" % (f.module.path, f.qual, s[:40]))
                    self.percent(n, s, n.right, f)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
                rep.count("concatenations")
                self.add(n, f)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr == "format":
                    if self.prj.callees(n, f, f.module)[0]:
                        continue
                    for s in self.texts(n.func.value, f):
                        if isinstance(s, str):
                            rep.count("brace_formats")
                            rep.site("%s %s: %r.format" % (f.module.path, f.qual, s[:40]))
                            self.braces(n, s, f)
                elif isinstance(n.func, ast.Attribute) and n.func.attr == "join" and len(n.args) == 1:
                    self.join(n, f)
                else:
                    self.other(n, f)
            elif isinstance(n, ast.FormattedValue) and n.format_spec is not None:
                s = self.fold.value(n.format_spec, f)
                if isinstance(s, str) and n.conversion == -1:
                    rep.count("brace_formats")
                    self.spec(n, s, n.value, f)

    def percent(self, n, s, right, f):
        if isinstance(s, bytes):
            return
        r = percent(s)
        if isinstance(r, str):
            self.rep.finding("bad-format", f, text(n, 60), "the format %r cannot be used: %s" % (s, r), n)
            return
        keyed = [x for x in r if x[0] is not None]
        need = sum(1 + x[1] for x in r)
        if keyed:
            if isinstance(right, ast.Dict) and all(k is not None for k in right.keys):
                have = [self.fold.value(k, f) for k in right.keys]
                if UNKNOWN not in have:
                    for k, _, c in keyed:
                        if k not in have:
                            self.rep.finding("no-key", f, text(n, 60), "the format asks for %%(%s)%s, which it is not given" % (k, c), n)
                        else:
                            self.conv(n, c, right.values[have.index(k)], f)
            elif self.types.of(right, f) not in (None, "dict"):
                self.rep.finding("no-key", f, text(n, 60), "the format asks for %%(%s)%s, but is given a %s" % (keyed[0][0], keyed[0][2], self.types.of(right, f)), n)
            return
        if isinstance(right, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in right.elts):
                return
            if len(right.elts) != need:
                self.rep.finding("too-few" if len(right.elts) < need else "too-many", f, text(n, 60), "the format has %d places and is given %d values" % (need, len(right.elts)), n)
                return
            i = 0
            for k, stars, c in r:
                i += stars
                self.conv(n, c, right.elts[i], f)
                i += 1
            return
        t = self.types.of(right, f)
        if t == "tuple" and isinstance(right, ast.Name):
            return
        if t is not None and t not in ("dict", "tuple") or isinstance(right, ast.JoinedStr):
            if need != 1:
                self.rep.finding("too-few" if need else "too-many", f, text(n, 60), "the format has %d places and is given one value" % need, n)
            else:
                self.conv(n, r[0][2], right, f)
        elif need == 0 and t is None and not isinstance(right, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)):
            self.rep.finding("too-many", f, text(n, 60), "the format has no place for a value", n)
        elif need == 0 and isinstance(n.left, ast.Constant) and t != "dict":
            self.rep.finding("too-many", f, text(n, 60), "the format has no place for %s" % text(right, 40), n)

    def conv(self, n, c, v, f):
        t = self.types.of(v, f)
        if t is None:
            return
        if c in "diouxXeEfFgG" and t not in ("int", "float", "bool") or c in "oxX" and t == "float" or c == "c" and t not in ("int", "str"):
            self.rep.finding("wrong-type", f, text(n, 60), "%%%s is given %s, a %s" % (c, text(v, 40), t), n)

    def braces(self, n, s, f):
        r = braces(s)
        if isinstance(r, str):
            self.rep.finding("bad-format", f, text(n, 60), "the format %r cannot be used: %s" % (s, r), n)
            return
        auto = [x for x in r if x[0] is None]
        num = [x for x in r if isinstance(x[0], int)]
        if auto and num:
            self.rep.finding("bad-format", f, text(n, 60), "the format %r counts its places both by itself and by number" % s, n)
            return
        star = any(isinstance(a, ast.Starred) for a in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        kw = {k.arg: k.value for k in n.keywords if k.arg}
        used, i = set(), 0
        for where, field, conv, spec in r:
            if where is None:
                where = i
                i += 1
            if isinstance(where, int):
                if star:
                    used.add(where)
                    continue
                if where >= len(n.args):
                    self.rep.finding("too-few", f, text(n, 60), "the format has a place for value %d, but is given %d" % (where + 1, len(n.args)), n)
                    return
                used.add(where)
                v = n.args[where]
            else:
                if where not in kw:
                    if not dstar:
                        self.rep.finding("no-key", f, text(n, 60), "the format asks for {%s}, which it is not given" % where, n)
                        return
                    continue
                used.add(where)
                v = kw[where]
            if spec and conv is None:
                self.spec(n, spec, v, f)
        if not star:
            for j, a in enumerate(n.args):
                if j not in used:
                    self.rep.finding("too-many", f, text(n, 60), "the format %r has no place for %s, which is lost" % (s, text(a, 40)), n)
                    return
        for k in kw:
            if k not in used:
                self.rep.finding("too-many", f, text(n, 60), "the format %r has no place for %s, which is lost" % (s, k), n)
                return

    def spec(self, n, spec, v, f):
        """a value formatted by a fixed specification"""
        m = re.fullmatch(r"(?:.?[<>=^])?[-+ ]?z?#?0?\d*[_,]?(?:\.\d+)?(?P<t>[a-zA-Z%])?", spec, re.S)
        t = self.types.of(v, f)
        if m is None:
            if t in ("str", "int", "float"):
                self.rep.finding("bad-format", f, text(n, 60), "%r is not a format for a %s" % (spec, t), n)
            return
        c = m.group("t")
        if t in ("list", "dict", "tuple", "set", "none") and spec:
            self.rep.finding("wrong-type", f, text(n, 60), "%r formats %s, a %s" % (spec, text(v, 40), t), n)
        elif c and t == "str" and c != "s" or c and t == "int" and c not in "bcdoxXneEfFgG%" or c and t == "float" and c not in "eEfFgGn%":
            self.rep.finding("wrong-type", f, text(n, 60), "%r formats %s, a %s" % (spec, text(v, 40), t), n)

    def add(self, n, f):
        a, b = self.types.of(n.left, f), self.types.of(n.right, f)
        seq = ("str", "bytes", "list", "tuple")
        nums = ("int", "float", "bool")
        if a and b and a != b and not (a in nums and b in nums) and (a in seq or b in seq):
            self.rep.finding("mixed-types", f, text(n, 60), "%s, a %s, cannot be added to %s, a %s" % (text(n.right, 30), b, text(n.left, 30), a), n)

    def join(self, n, f):
        if self.types.of(n.func.value, f) != "str":
            return
        self.rep.count("joins")
        a = n.args[0]
        es = [a.elt] if isinstance(a, (ast.GeneratorExp, ast.ListComp, ast.SetComp)) else list(a.elts) if isinstance(a, (ast.List, ast.Tuple, ast.Set)) else []
        if isinstance(a, ast.Call) and self.prj.ext_name(a.func, f, f.module) == "builtins.map" and len(a.args) == 2:
            e = (self.prj.ext_name(a.args[0], f, f.module) or "")
            if e in ("builtins.len", "builtins.ord", "builtins.int", "builtins.list", "builtins.set", "builtins.tuple", "builtins.float"):
                self.rep.finding("mixed-types", f, text(n, 60), "only strings can be joined, not what %s returns" % e[9:], n)
        for e in es:
            t = self.types.of(e, f)
            if t and t != "str":
                self.rep.finding("mixed-types", f, text(n, 60), "only strings can be joined; %s is a %s" % (text(e, 40), t), n)

    def other(self, n, f):
        e = self.prj.ext_name(n.func, f, f.module) or ""
        log = isinstance(n.func, ast.Attribute) and n.func.attr in LOGS and (e.startswith("logging.") or self.logger(n.func.value, f))
        if log and n.args and not any(isinstance(a, ast.Starred) for a in n.args):
            for s in self.texts(n.args[0], f):
                if isinstance(s, str) and len(n.args) > 1:
                    self.rep.count("log_formats")
                    r = percent(s)
                    if isinstance(r, str):
                        self.rep.finding("bad-format", f, text(n, 60), "the format %r cannot be used: %s" % (s, r), n)
                    elif not any(x[0] for x in r):
                        need = sum(1 + x[1] for x in r)
                        if need != len(n.args) - 1:
                            self.rep.finding("too-few" if need > len(n.args) - 1 else "too-many", f, text(n, 60), "the message has %d places and is given %d values" % (need, len(n.args) - 1), n)
                        else:
                            i = 1
                            for k, stars, c in r:
                                self.conv(n, c, n.args[i + stars], f)
                                i += stars + 1
            return
        if e == "builtins.print" or e.startswith("builtins.") and (e.endswith(("Error", "Exception", "Warning", "Exit"))):
            if len(n.args) > 1 and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                s = n.args[0].value
                self.rep.count("messages")
                p, b = percent(s), braces(s)
                if isinstance(p, list) and p and all(x[2] in "sdrxXfg" for x in p) and re.search(r"%[sdrxXfg]|%\(", s) or isinstance(b, list) and b and re.search(r"\{\d*\}", s):
                    self.rep.finding("unformatted", f, text(n, 60), "the places in %r are never filled: the values are passed on beside it" % s[:50], n)
        if e.startswith("builtins.") and e[9:] in ("print",) or isinstance(n.func, ast.Attribute) and n.func.attr == "write":
            pass
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("add_argument", "add_parser", "ArgumentParser", "add_argument_group") or e == "argparse.ArgumentParser":
            for k in n.keywords:
                if k.arg == "help":
                    for s in self.texts(k.value, f):
                        if isinstance(s, str):
                            self.rep.count("help_texts")
                            r = percent(s)
                            if isinstance(r, str):
                                self.rep.finding("bad-format", f, text(n, 60), "the help text %r cannot be shown: %s" % (s[:50], r), n)
                            elif any(x[0] is None for x in r):
                                self.rep.finding("too-few", f, text(n, 60), "the help text %r has a place (%%%s) that nothing fills" % (s[:50], next(x[2] for x in r if x[0] is None)), n)
                            else:
                                for x in r:
                                    if x[0] not in ("default", "prog", "type", "dest", "metavar", "choices", "const", "nargs", "required", "option_strings", "help"):
                                        self.rep.finding("no-key", f, text(n, 60), "the help text asks for %%(%s)%s, which argparse does not give" % (x[0], x[2]), n)

    def logger(self, n, f):
        if isinstance(n, ast.Call):
            return (self.prj.ext_name(n.func, f, f.module) or "") == "logging.getLogger"
        d = (dotted(n) or "").split(".")[-1]
        return d in ("log", "logger", "logging", "_log", "_logger", "LOG", "LOGGER")


def run(prj, fold, rep):
    rep.rule("every format has as many places as it is given values, each value is of a kind its place takes, and only strings are joined to strings")
    chk = Check(prj, fold, rep)
    for f in prj.funcs:
        rep.count("functions")
        chk.func(f)


L = "lib/sldr/a.py"
EXAMPLES = [
    ("percent", {L: "def f(a, b):\n    return '%s %s' % (a, b)\n"}, False),
    ("percent few", {L: "def f(a, b):\n    return '%s %s %s' % (a, b)\n"}, ["too-few"]),
    ("percent many", {L: "def f(a, b):\n    return '%s' % (a, b)\n"}, ["too-many"]),
    ("percent star", {L: "def f(a, b):\n    return '%*d' % (len(a), len(b))\n"}, False),
    ("percent escaped", {L: "def f(a):\n    return '%d%%' % a\n"}, False),
    ("percent none", {L: "def f(a):\n    return 'all' % len(a)\n"}, ["too-many"]),
    ("percent two of one", {L: "def f(a):\n    return '%s %s' % str(a)\n"}, ["too-few"]),
    ("percent unknown", {L: "def f(a):\n    return '%s %s' % a\n"}, False),
    ("percent keys", {L: "def f(a):\n    return '%(x)s' % {'x': a}\n"}, False),
    ("percent no key", {L: "def f(a):\n    return '%(x)s' % {'y': a}\n"}, ["no-key"]),
    ("percent type", {L: "def f(a):\n    s = ' '.join(a)\n    return '%d' % s\n"}, ["wrong-type"]),
    ("percent bad", {L: "def f(a):\n    return '100%' % a\n"}, ["bad-format"]),
    ("modulus", {L: "def f(a):\n    n = len(a)\n    return n % 2\n"}, False),
    ("braces", {L: "def f(a, b):\n    return '{} {}'.format(a, b)\n"}, False),
    ("braces few", {L: "def f(a, b):\n    return '{} {} {}'.format(a, b)\n"}, ["too-few"]),
    ("braces lost", {L: "def f(a, b):\n    return '{}'.format(a, b)\n"}, ["too-many"]),
    ("braces named", {L: "def f(a, b):\n    return '{x} {y}'.format(x=a, y=b)\n"}, False),
    ("braces no name", {L: "def f(a, b):\n    return '{x} {z}'.format(x=a, y=b)\n"}, ["no-key"]),
    ("braces number", {L: "def f(a, b):\n    return '{0} {1[0]} {0}'.format(a, b)\n"}, False),
    ("braces mixed", {L: "def f(a, b):\n    return '{0} {}'.format(a, b)\n"}, ["bad-format"]),
    ("braces open", {L: "def f(a, b):\n    return '{} {'.format(a, b)\n"}, ["bad-format"]),
    ("braces star", {L: "def f(a):\n    return '{}/{}'.format(*a)\n"}, False),
    ("braces hex", {L: "def f(c):\n    n = ord(c)\n    return '{:04x}'.format(n)\n"}, False),
    ("braces hex of text", {L: "def f(c):\n    n = str(c)\n    return '{:04x}'.format(n)\n"}, ["wrong-type"]),
    ("braces built", {L: "def f(v, i):\n    d = '{{:0{}d}}'.format(len(v))\n    return d.format(i)\n"}, False),
    ("table text", {L: "T = '{}-{}'\ndef f(a):\n    return T.format(a)\n"}, ["too-few"]),
    ("fstring", {L: "def f(c):\n    n = c.strip()\n    return f'{str(n):d}'\n"}, ["wrong-type"]),
    ("fstring fine", {L: "def f(c):\n    return f'{len(c):>5d}'\n"}, False),
    ("text and number", {L: "def f(c):\n    return 'n' + len(c)\n"}, ["mixed-types"]),
    ("text and text", {L: "def f(c):\n    return 'n' + str(len(c))\n"}, False),
    ("list and text", {L: "def f(c):\n    return [c] + 'x'\n"}, ["mixed-types"]),
    ("numbers joined", {L: "def f(c):\n    return ' '.join(len(x) for x in c)\n"}, ["mixed-types"]),
    ("texts joined", {L: "def f(c):\n    return ' '.join(str(len(x)) for x in c)\n"}, False),
    ("numbers mapped", {L: "def f(c):\n    return ' '.join(map(ord, c))\n"}, ["mixed-types"]),
    ("log", {L: "import logging\nlog = logging.getLogger()\ndef f(c):\n    log.error('%s: %s', c)\n"}, ["too-few"]),
    ("log fine", {L: "import logging\nlog = logging.getLogger()\ndef f(c):\n    log.error('%s: %d', c, len(c))\n    log.info('100%')\n"}, False),
    ("raise beside", {L: "def f(c):\n    raise SyntaxError('cannot find {}', c)\n"}, ["unformatted"]),
    ("print beside", {L: "def f(c):\n    print('cannot find %s', c)\n"}, ["unformatted"]),
    ("print list", {L: "def f(c):\n    print('cannot find', c)\n"}, False),
    ("help", {"scripts/a": "#!/usr/bin/env python3\nimport argparse\np = argparse.ArgumentParser()\np.add_argument('-n', default=1, help='share in % of all')\nargs = p.parse_args()\n"}, True),
    ("help default", {"scripts/a": "#!/usr/bin/env python3\nimport argparse\np = argparse.ArgumentParser()\np.add_argument('-n', default=1, help='share in %% [%(default)s]')\nargs = p.parse_args()\n"}, False),
    ("two types", {L: "def f(c):\n    n = str(c)\n    if c:\n        n = len(c)\n    return '{:d}'.format(n)\n"}, False),
    ("counted", {L: "def f(c):\n    n = 0\n    for x in c:\n        n += 1\n    return 'n=' + n\n"}, ["mixed-types"]),
    ("choice of formats", {L: "def g(t, a):\n    return t.format(a)\ndef f(c):\n    return g('{}', c) + g('{} {}', c)\n"}, ["too-few"]),
]
