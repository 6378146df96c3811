"""P12: while a target file is open truncated, nothing that depends on the document and can fail is done."""
import ast
from ..core import walk_own, text, dotted, parents, bind, targets
from ..consts import UNKNOWN, possible, single_assignment, callers
from .P08 import arg

TECHNIQUE = "ordering analysis: between the truncating open and the end of the file's life only already produced bytes are written (call-graph reachability of the serialiser, encoding, laziness)"
NOTE = "Covers functions that write documents (from which the serialiser is reachable). Disk errors while writing the finished bytes are outside the property. Writing to a temporary name that is then moved into place is accepted."

OPENS = {"builtins.open": (1, "r"), "io.open": (1, "r"), "codecs.open": (1, "r"), "os.fdopen": (1, "r"), "gzip.open": (1, "rb")}
SERIAL = {"serialize_xml", "etwrite"}
REMOVE = {"os.remove", "os.unlink", "os.truncate", "shutil.rmtree"}
MOVE = {"os.replace", "os.rename", "shutil.move"}


class State:
    def __init__(self, prj, fold):
        self.prj, self.fold, self.reach = prj, fold, {}

    def serialises(self, f):
        """the serialiser can run below this function"""
        if f not in self.reach:
            r = False
            for g in self.prj.closure([f], lambdas=True):
                if g.name in SERIAL:
                    r = True
                    break
                for n in walk_own(g.node, include_lambda=False):
                    if isinstance(n, ast.Attribute) and n.attr in SERIAL or isinstance(n, ast.Name) and n.id in SERIAL and isinstance(n.ctx, ast.Load):
                        r = True
                        break
                if r:
                    break
            self.reach[f] = r
        return self.reach[f]

    def truncating(self, n, f):
        """None, 'text' or 'bytes' for a call that opens a file for writing from scratch"""
        if not isinstance(n, ast.Call):
            return None
        e = self.prj.ext_name(n.func, f, f.module)
        if e in OPENS:
            pos, dflt = OPENS[e]
            m = arg(n, pos, "mode")
            ms = {dflt} if m is None else possible(self.fold, m, f)
            if ms and all(isinstance(x, str) and ("w" in x or "+" in x and "w" in x) for x in ms):
                t = "bytes" if all("b" in x for x in ms) and e != "gzip.open" else "text"
                if e == "codecs.open" and t == "bytes":
                    t = "text" if arg(n, 2, "encoding") is not None else "bytes"
                if t == "text":
                    er = arg(n, 4 if e in ("builtins.open", "io.open") else 3, "errors")
                    if er is not None and self.fold.value(er, f) in ("xmlcharrefreplace", "surrogatepass", "replace", "backslashreplace", "ignore", "surrogateescape"):
                        t = "bytes"
                return t
            return None
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("open",) and e is None and n.args:
            m = self.fold.value(n.args[0], f)
            if isinstance(m, str) and m.startswith("w"):
                return "bytes" if "b" in m else "text"
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("write_text",):
            return "text!"
        gs, exact = self.prj.callees(n, f, f.module)
        if exact and len(gs) == 1:
            rets = [x.value for x in walk_own(gs[0].node) if isinstance(x, ast.Return) and x.value is not None]
            ks = [self.truncating(r, gs[0]) for r in rets if isinstance(r, ast.Call)]
            if rets and len(ks) == len(rets) and all(ks):
                return "text" if "text" in ks else "bytes"
        return None

    def opened_name(self, n, f):
        """file name expression of an opening call"""
        return arg(n, 0, "file") if n.args or n.keywords else None


def pathlike_dump(n):
    return ast.dump(n) if n is not None else None


def run(prj, fold, rep):
    rep.rule("in every function that can run the serialiser: while a file is open with its old content gone, no call reaches the serialiser, encodes, or evaluates lazily; text files are not used for documents because they encode while writing; the target is not removed before the text exists")
    st = State(prj, fold)
    prj.need("ETWriter", "save_as", "ldml")
    for f in prj.funcs:
        if f.is_lambda or not st.serialises(f):
            continue
        rep.count("functions_that_serialise")
        body = f.node
        moved = set()
        for n in walk_own(body):
            if isinstance(n, ast.Call) and prj.ext_name(n.func, f, f.module) in MOVE and n.args:
                moved.add(pathlike_dump(n.args[0]))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("replace", "rename") and len(n.args) == 1:
                moved.add(pathlike_dump(n.func.value))
        for n in walk_own(body):
            k = st.truncating(n, f)
            if not k:
                continue
            fn = st.opened_name(n, f)
            if pathlike_dump(fn) in moved:
                rep.count("writes_via_temporary")
                continue
            wraps = wrapped(n, prj, f)
            if wraps:
                k = "text"
            region, how = life(n, f)
            rep.count("truncating_opens")
            rep.site("%s:%d %s (%s)" % (f.module.path, n.lineno, text(n), k))
            if region is None:
                continue
            judge(region, n, k, f, st, rep)
        # removal of the target before it is written
        removal(f, st, rep)


def wrapped(n, prj, f):
    p = n._parent
    if isinstance(p, ast.Call) and n in p.args:
        e = prj.ext_name(p.func, f, f.module)
        if e == "io.TextIOWrapper" or isinstance(p.func, ast.Call) and prj.ext_name(p.func.func, f, f.module) == "codecs.getwriter":
            return True
    return False


def life(n, f):
    """expressions and statements that run while the file is open"""
    cur = n
    for p in parents(n):
        if isinstance(p, ast.withitem):
            w = p._parent
            after = w.items[w.items.index(p) + 1:]
            return [i.context_expr for i in after] + w.body, "with"
        if isinstance(p, (ast.Assign, ast.NamedExpr, ast.AnnAssign)):
            s = p
            while not isinstance(s, ast.stmt):
                s = s._parent
            ts = p.targets[0] if isinstance(p, ast.Assign) else p.target
            name = ts.id if isinstance(ts, ast.Name) else None
            return following(s, name, f), "assigned"
        if isinstance(p, ast.stmt):
            # used inside one expression: everything around it
            return [p], "inline"
        if isinstance(p, ast.Lambda):
            return None, None
        cur = p
    return None, None


def following(s, name, f):
    res = []
    cur = s
    while True:
        p = cur._parent
        done = False
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(p, fld, None)
            if isinstance(b, list) and cur in b:
                for x in b[b.index(cur) + 1:]:
                    if name and isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) \
                            and x.value.func.attr == "close" and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == name:
                        done = True
                        break
                    res.append(x)
                if fld == "body" and isinstance(p, ast.Try):
                    res.extend(p.orelse)
        if done or p is None or isinstance(p, (ast.FunctionDef, ast.Module, ast.For, ast.While)):
            return res
        cur = p


def judge(region, call, kind, f, st, rep):
    prj, fold = st.prj, st.fold
    for r in region:
        for n in [r] + list(walk_own(r)):
            if not isinstance(n, ast.Call) or n is call:
                continue
            gs, exact = prj.callees(n, f, f.module)
            for g in gs:
                if st.serialises(g) and not (g.name == "save_as"):
                    rep.finding("serialise-while-open", f, text(n), "%s serialises while %s has already emptied the file" % (text(n), text(call)), n)
                    break
            else:
                if isinstance(n.func, ast.Attribute) and n.func.attr in SERIAL:
                    rep.finding("serialise-while-open", f, text(n), "%s serialises while %s has already emptied the file" % (text(n), text(call)), n)
                elif isinstance(n.func, ast.Attribute) and n.func.attr in ("write", "writelines") and len(n.args) == 1:
                    v = n.args[0]
                    if kind == "text" and not isinstance(v, ast.Constant) and doc_text(v, f, st):
                        rep.finding("encode-while-open", f, text(n), "%s encodes while writing: text that cannot be encoded fails after %s emptied the file" % (text(n), text(call)), n)
                    elif encodes(v, f, fold, prj):
                        rep.finding("encode-while-open", f, text(n), "%s encodes after %s emptied the file" % (text(n), text(call)), n)
                    elif lazy(v, f, prj, st):
                        rep.finding("serialise-while-open", f, text(n), "%s evaluates its data while %s has already emptied the file" % (text(n), text(call)), n)
                else:
                    if isinstance(n.func, ast.Attribute) and n.func.attr == "encode" and fold.value(n.func.value, f) is UNKNOWN and not isinstance(n._parent, ast.Call):
                        rep.finding("encode-while-open", f, text(n), "%s encodes after %s emptied the file" % (text(n), text(call)), n)
                    for g in gs if exact else []:
                        # a helper that writes: its own encoding and laziness count too
                        for x in walk_own(g.node):
                            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "encode" and fold.value(x.func.value, g) is UNKNOWN:
                                rep.finding("encode-while-open", f, text(n), "%s encodes (in %s) after %s emptied the file" % (text(n), g.name, text(call)), n)
                            elif kind == "text" and isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("write", "writelines") and x.args and doc_text(x.args[0], g, st):
                                rep.finding("encode-while-open", f, text(n), "%s encodes (in %s) while writing to the file emptied by %s" % (text(n), g.name, text(call)), n)


def doc_text(v, f, st, depth=4):
    """the value comes from the serialiser: collected by a list or stream handed to it, or returned by a function that runs it"""
    prj = st.prj
    for x in ast.walk(v):
        if isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr in SERIAL or any(st.serialises(g) for g in prj.callees(x, f, f.module)[0]):
                return True
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and depth:
            if x.id in f.params and x.id not in {t for s in walk_own(f.node) if isinstance(s, ast.Assign) for y in s.targets for t in targets(y)}:
                for c, cf in callers(prj).get(f, []):
                    a = bind(c, f).get(x.id)
                    if a is not None and doc_text(a, cf, st, depth - 1):
                        return True
                continue
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and any(isinstance(y, ast.Name) and y.id == x.id for a in n.args for y in ast.walk(a)):
                    if isinstance(n.func, ast.Attribute) and n.func.attr in SERIAL or any(g.name in SERIAL for g in prj.callees(n, f, f.module)[0]):
                        return True
                elif isinstance(n, ast.Assign) and any(x.id in targets(t) for t in n.targets) and not any(y is x for y in ast.walk(n)):
                    if doc_text(n.value, f, st, depth - 1):
                        return True
                elif isinstance(n, (ast.For, ast.comprehension)) and x.id in targets(n.target) and doc_text(n.iter, f, st, depth - 1):
                    return True
    return False


def encodes(v, f, fold, prj, depth=2):
    for x in ast.walk(v):
        if isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr == "encode" or isinstance(x.func, ast.Name) and x.func.id == "bytes" and len(x.args) == 2):
            if fold.value(x, f) is UNKNOWN:
                return True
        if isinstance(x, ast.Call) and depth:
            gs, exact = prj.callees(x, f, f.module)
            if exact and any(encodes(r.value, g, fold, prj, depth - 1) for g in gs for r in walk_own(g.node) if isinstance(r, ast.Return) and r.value is not None):
                return True
    return False


def lazy(v, f, prj, st):
    if isinstance(v, ast.Name):
        s = single_assignment(f, v.id) if v.id in f.locals else None
        if s is not None:
            v = s
    if isinstance(v, ast.GeneratorExp) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("map", "filter"):
        if isinstance(v, ast.Call) and v.args and (dotted(v.args[0]) or "").startswith("str."):
            return True
        for x in ast.walk(v):
            if isinstance(x, ast.Call) and (prj.callees(x, f, f.module)[0] or isinstance(x.func, ast.Attribute) and x.func.attr == "encode"):
                return True
        return False
    if isinstance(v, ast.Call):
        gs, exact = prj.callees(v, f, f.module)
        return exact and any(isinstance(x, (ast.Yield, ast.YieldFrom)) and st.serialises(g) for g in gs for x in walk_own(g.node))
    return False


def removal(f, st, rep):
    prj = st.prj
    saves, rems = [], []
    for n in walk_own(f.node):
        if isinstance(n, ast.Call):
            e = prj.ext_name(n.func, f, f.module)
            if e in REMOVE and n.args:
                rems.append((n, ast.dump(n.args[0])))
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "unlink" and not n.args:
                rems.append((n, ast.dump(n.func.value)))
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "save_as" and n.args:
                saves.append((n, ast.dump(n.args[0])))
            elif st.truncating(n, f) and n.args:
                saves.append((n, ast.dump(n.args[0])))
    for r, d in rems:
        for s, d2 in saves:
            if d == d2 and before(r, s):
                rep.finding("removed-before-save", f, text(r), "%s removes the old file before %s has produced the new one" % (text(r), text(s)), r)


def before(a, b):
    return (a.lineno, a.col_offset) < (b.lineno, b.col_offset)


A = "lib/sldr/ldml.py"
B = "class ETWriter:\n    def serialize_xml(self, write, base=None):\n        write('x')\n    def save_as(self, fname):\n"
EXAMPLES = [
    ("good", {A: B + "        out = []\n        self.serialize_xml(out.append)\n        data = ''.join(out).encode('utf-8')\n        with open(fname, 'wb') as o:\n            o.write(data)\n"}, False),
    ("streamed", {A: B + "        with open(fname, 'w', encoding='utf-8') as o:\n            self.serialize_xml(o.write)\n"}, True),
    ("text", {A: B + "        out = []\n        self.serialize_xml(out.append)\n        with open(fname, 'w', encoding='utf-8') as o:\n            o.write(''.join(out))\n"}, True),
    ("report", {A: B + "        out = []\n        self.serialize_xml(out.append)\n        with open(fname + '.log', 'w', encoding='utf-8') as o:\n            o.write(fname)\n"}, False),
    ("late encode", {A: B + "        out = []\n        self.serialize_xml(out.append)\n        with open(fname, 'wb') as o:\n            for x in out:\n                o.write(x.encode('utf-8'))\n"}, True),
    ("helper", {A: B + "        out = []\n        with open(fname, 'wb') as o:\n            data = self._text()\n            o.write(data)\n    def _text(self):\n        out = []\n        self.serialize_xml(out.append)\n        return ''.join(out).encode('utf-8')\n"}, True),
    ("helper good", {A: B + "        data = self._text()\n        with open(fname, 'wb') as o:\n            self._put(o, data)\n    def _put(self, o, d):\n        o.write(d)\n    def _text(self):\n        out = []\n        self.serialize_xml(out.append)\n        return ''.join(out).encode('utf-8')\n"}, False),
    ("generator", {A: B + "        out = []\n        self.serialize_xml(out.append)\n        data = (x.encode('utf-8') for x in out)\n        with open(fname, 'wb') as o:\n            o.writelines(data)\n"}, True),
    ("temporary", {A: "import os\n" + B + "        t = fname + '.tmp'\n        with open(t, 'w', encoding='utf-8') as o:\n            self.serialize_xml(o.write)\n        os.replace(t, fname)\n"}, False),
    ("unlink", {A: "import os\n" + B + "        os.unlink(fname)\n        out = []\n        self.serialize_xml(out.append)\n        data = ''.join(out).encode('utf-8')\n        with open(fname, 'wb') as o:\n            o.write(data)\n"}, True),
    ("opened early", {A: B + "        o = open(fname, 'wb')\n        out = []\n        self.serialize_xml(out.append)\n        data = ''.join(out).encode('utf-8')\n        try:\n            o.write(data)\n        finally:\n            o.close()\n"}, True),
]
