"""P31: what the code looks for by name exists where it looks: element paths, tags and attributes against the schema and the data files."""
import ast, os, re
import xml.etree.ElementTree as ET
from ..core import walk_own, text, dotted, targets, parents, bind
from ..consts import UNKNOWN, possible, callers

TECHNIQUE = ("a small type inference gives each receiver its vocabulary (the SIL LDML schema or one of the data files the package ships) and its element names; every constant "
             "path, tag and attribute used on it is then walked through the parent-child and attribute declarations read from that schema or file")
NOTE = ("Only names that the source spells out are judged, on receivers whose kind of document can be told from the source; what a function itself removes from a document "
        "(older spellings that are being cleared away) may be outside the schema; documents of other formats (keyboards, ISO tables) are not judged.")

HOLE = "\uffff"
NS = {"{urn://www.sil.org/ldml/0.1}": "sil:", "{http://www.w3.org/XML/1998/namespace}": "xml:"}
DOC = ("doc",)
# parts of a data file's format that older releases of it carry and the loader, which can be given another file, still reads
OLDER = {"supplementalMetadata.xml": {"metadata": {"validity": ["path"], "distinguishing": []}, "validity": {"variable": ["id", "type"]},
                                      "distinguishing": {"distinguishingItems": ["exclude", "elements", "attributes"]}}}
LOOK1, LOOKN = {"find", "findtext"}, {"findall", "iterfind"}
OWN = {"ensure_path", "remove_path"}
WRAP = {"list", "sorted", "reversed", "iter", "tuple", "set"}
TABLES = {"takesCData", "blocks", "serialElements"}


def plainname(n):
    for k, v in NS.items():
        if n.startswith(k):
            return v + n[len(k):]
    return n


class Vocab:
    """element names with their children, attributes and the values these are limited to"""
    def __init__(self, name):
        self.name, self.kids, self.attrs, self.values, self.roots = name, {}, {}, {}, set()
        self.full = True
        self._up = None

    def known(self, t):
        return t in self.kids

    def children(self, tags):
        if tags is None:
            return set(self.kids)
        return set().union(*(self.kids.get(t, set()) for t in tags)) if tags else set()

    def up(self, tags):
        if tags is None:
            return None
        return frozenset(p for p, k in self.kids.items() if k & set(tags))

    def attr(self, tags, a):
        if tags is None:
            return any(a in x for x in self.attrs.values())
        return any(a in self.attrs.get(t, ()) for t in tags)

    def value(self, tags, a, v):
        if not tags:
            return True
        return any(v in self.values[t, a] if (t, a) in self.values else a in self.attrs.get(t, ()) for t in tags)


def from_dtd(src, name):
    v = Vocab(name)
    src = re.sub(r"<!--.*?-->", "", src, flags=re.S)
    for m in re.finditer(r"<!ELEMENT\s+(\S+)\s+([^>]*)>", src):
        v.kids.setdefault(m.group(1), set()).update(x for x in re.findall(r"#?[A-Za-z_][\w.:\-]*", m.group(2)) if not x.startswith("#") and x not in ("EMPTY", "ANY"))
    for m in re.finditer(r"<!ATTLIST\s+(\S+)\s+(.*?)>", src, flags=re.S):
        el, rest = m.group(1), re.sub(r'"[^"]*"', ' "" ', m.group(2))
        for a in re.finditer(r"([A-Za-z_][\w.:\-]*)\s+(\([^)]*\)|NOTATION\s*\([^)]*\)|[A-Z]+)\s+(?:#REQUIRED|#IMPLIED|#FIXED\s+\"\"|\"\")", rest):
            v.attrs.setdefault(el, set()).add(a.group(1))
            if a.group(2).startswith("("):
                v.values[el, a.group(1)] = {x.strip() for x in a.group(2)[1:-1].split("|")}
    used = set().union(*v.kids.values()) if v.kids else set()
    v.roots = {"ldml"} if "ldml" in v.kids else set(v.kids) - used
    for t in v.kids:
        v.attrs.setdefault(t, set())
    return v


def from_xml(data, name):
    v = Vocab(name)
    r = ET.fromstring(data)
    v.roots = {r.tag}
    for e in r.iter():
        v.kids.setdefault(plainname(e.tag), set()).update(plainname(c.tag) for c in e if isinstance(c.tag, str))
        v.attrs.setdefault(plainname(e.tag), set()).update(plainname(a) for a in e.attrib)
    for t, kids in OLDER.get(name, {}).items():
        for k, attrs in kids.items():
            v.kids.setdefault(t, set()).add(k)
            v.kids.setdefault(k, set())
            v.attrs.setdefault(k, set()).update(attrs)
    return v


STEP = re.compile(r"((?:\{[^}]*\})?[^/\[\]{}]*)((?:\[[^\]]*\])*)(?:/|$)")
PRED = re.compile(r"\[([^\]]*)\]")


def steps(p):
    """[(name, [predicates])] or None when it cannot be taken apart"""
    res, i = [], 0
    while i < len(p):
        m = STEP.match(p, i)
        if m is None or m.end() == i:
            return None
        res.append((m.group(1), PRED.findall(m.group(2))))
        i = m.end()
    if p.endswith("/"):
        res.append(("", []))
    return res


class Check:
    def __init__(self, prj, fold, rep):
        self.prj, self.fold, self.rep = prj, fold, rep
        self.vocs, self.busy, self.memo, self.cut = {}, set(), {}, False
        self.seen, self.places = set(), {}

    # ---- vocabularies
    def voc(self, name):
        if name not in self.vocs:
            v = None
            p = os.path.join(self.prj.repo, "lib", "sldr", "sil.dtd" if name == "ldml" else name)
            if os.path.exists(p):
                try:
                    with open(p, "rb") as inf:
                        data = inf.read()
                    v = from_dtd(data.decode("utf-8"), name) if name == "ldml" else from_xml(data, name)
                except (ET.ParseError, UnicodeDecodeError):
                    v = None
                self.rep.count("elements_declared", len(v.kids) if v else 0)
            self.vocs[name] = v
        return self.vocs[name]

    # ---- texts
    def pats(self, n, f, depth=6):
        """possible texts of an expression, HOLE standing for what is not known"""
        if n is None or depth <= 0:
            return {HOLE}
        v = self.fold.value(n, f)
        if isinstance(v, str):
            return {v}
        if v is not UNKNOWN:
            return {HOLE}
        res = self._pats(n, f, depth - 1)
        return res if 0 < len(res) <= 24 else {HOLE}

    def _pats(self, n, f, d):
        if isinstance(n, ast.JoinedStr):
            res = {""}
            for x in n.values:
                q = {x.value} if isinstance(x, ast.Constant) else self.pats(x.value, f, d) if x.format_spec is None and x.conversion == -1 else {HOLE}
                res = {a + b for a in res for b in q}
            return res
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return {a + b for a in self.pats(n.left, f, d) for b in self.pats(n.right, f, d)}
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            return {re.sub(r"%(?:\(\w+\))?[-+ #0]*\d*(?:\.\d+)?[a-zA-Z]", HOLE, a).replace("%%", "%") for a in self.pats(n.left, f, d)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and not any(isinstance(a, ast.Starred) for a in n.args):
            res = set()
            for a in self.pats(n.func.value, f, d):
                if HOLE in a:
                    return {HOLE}
                parts, k = [""], 0
                import string
                try:
                    for lit, field, spec, conv in string.Formatter().parse(a):
                        q = {""}
                        if field is not None:
                            arg = None
                            if field == "":
                                arg, k = (n.args[k] if k < len(n.args) else None), k + 1
                            elif field.isdigit() and int(field) < len(n.args):
                                arg = n.args[int(field)]
                            else:
                                arg = next((w.value for w in n.keywords if w.arg == field), None)
                            q = {HOLE} if arg is None or spec or conv else self.pats(arg, f, d)
                        parts = [x + lit + y for x in parts for y in q]
                except ValueError:
                    return {HOLE}
                res |= set(parts)
            return res
        if isinstance(n, ast.IfExp):
            return self.pats(n.body, f, d) | self.pats(n.orelse, f, d)
        if isinstance(n, ast.NamedExpr):
            return self.pats(n.value, f, d)
        if isinstance(n, ast.Name):
            p = possible(self.fold, n, f)
            if p is not None and all(isinstance(x, str) for x in p):
                return p
            bs = self.bindings(n, f)
            if bs is None:
                return {HOLE}
            res = set()
            for kind, val, owner in bs:
                if kind == "is":
                    key = ("p", id(val))
                    if key in self.busy:
                        return {HOLE}
                    self.busy.add(key)
                    try:
                        res |= self.pats(val, owner, d)
                    finally:
                        self.busy.discard(key)
                elif kind == "add":             # x += 'more'
                    base = {HOLE}
                    others = [b for b in bs if b[0] == "is"]
                    if len(others) == len(bs) - 1:
                        base = set().union(*(self.pats(b[1], b[2], d) for b in others)) if others else {HOLE}
                    res |= {a + b for a in base for b in self.pats(val, owner, d)}
                elif kind == "each":
                    c = self.fold.value(val, owner)
                    if isinstance(c, (list, tuple, set, frozenset, dict)) and all(isinstance(x, str) for x in c):
                        res |= set(c)
                    elif isinstance(val, (ast.Tuple, ast.List, ast.Set)) and not any(isinstance(x, ast.Starred) for x in val.elts):
                        for x in val.elts:
                            res |= self.pats(x, owner, d)
                    else:
                        return {HOLE}
                else:
                    return {HOLE}
            return res
        return {HOLE}

    # ---- names
    def bindings(self, n, f):
        """[(kind, expression, function)] of every binding of a name, or None; kinds: is, each, param, add"""
        for q in parents(n):
            if isinstance(q, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for g in q.generators:
                    if isinstance(g.target, ast.Name) and g.target.id == n.id:
                        return [("each", g.iter, f)]
                    if n.id in set(targets(g.target)):
                        r = self.unpacked(g.target, g.iter, n.id, f)
                        return None if r is None else [r]
            if isinstance(q, ast.Lambda) and n.id in [a.arg for a in q.args.args]:
                return None
            if q is f.node:
                break
        t = self.prj.lookup(n.id, f, f.module)
        owner = t[1] if isinstance(t, tuple) and t[0] == "local" else None
        if owner is None:
            if n.id in f.module.globals or n.id in getattr(f.module.main, "locals", ()):
                owner = f.module.main
            else:
                return None
            if any(n.id in g.globals_ for g in self.prj.funcs if g.module is f.module):
                return None
        last = self.latest(n, owner) if owner is f else None
        if last is not None:
            return [last + (owner,)]
        res = []
        if n.id in owner.allparams:
            if n.id in (owner.vararg, owner.kwarg):
                return None
            res.append(("param", n.id, owner))
        for x in walk_own(owner.node, include_lambda=False):
            if isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, (ast.Store, ast.Del)):
                p = x._parent
                if any(isinstance(q, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) for q in parents(x) if q is not owner.node) and not isinstance(p, ast.NamedExpr):
                    continue
                if isinstance(p, ast.Assign) and x in p.targets or isinstance(p, (ast.AnnAssign, ast.NamedExpr)) and p.value is not None:
                    res.append(("is", p.value, owner))
                elif isinstance(p, ast.For) and p.target is x:
                    res.append(("each", p.iter, owner))
                elif isinstance(p, ast.AugAssign) and isinstance(p.op, ast.Add):
                    res.append(("add", p.value, owner))
                else:
                    top = x
                    while isinstance(top._parent, (ast.Tuple, ast.List)):
                        top = top._parent
                    p = top._parent
                    r = self.unpacked(top, p.iter, n.id, owner) if isinstance(p, ast.For) and p.target is top else \
                        self.beside(top, p.value, n.id, owner) if isinstance(p, ast.Assign) else None
                    if r is None:
                        return None
                    res.append(r)
        for g in owner.nested.values():
            if n.id in g.nonlocals:
                return None
        return res or None

    def latest(self, n, owner):
        """the value of the assignment that certainly ran last before a use, or None"""
        def binds(s):
            return any(isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(s))
        inner = n
        for q in parents(n):
            if isinstance(q, (ast.For, ast.While)) and inner is not getattr(q, "iter", None) and binds(q):
                stmts = None
                for b in (q.body, q.orelse):
                    if any(inner is s for s in b):
                        stmts = b
                hit = self.back(stmts, inner, n.id, binds) if stmts else None
                if hit is False and isinstance(q, ast.For) and stmts is q.body and isinstance(q.target, ast.Name) and q.target.id == n.id and not any(binds(s) for s in q.body):
                    return ("each", q.iter)
                return ("is", hit) if isinstance(hit, ast.AST) else None
            for b in ("body", "orelse", "finalbody"):
                stmts = getattr(q, b, None)
                if isinstance(stmts, list) and any(inner is s for s in stmts):
                    hit = self.back(stmts, inner, n.id, binds)
                    if hit is not False:
                        return ("is", hit) if hit is not None else None
            if isinstance(q, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp, ast.Lambda)) or isinstance(q, ast.ExceptHandler) or isinstance(q, ast.Try) and not any(inner is s for s in q.body):
                return None
            inner = q
            if q is owner.node:
                break
        return None

    def back(self, stmts, inner, name, binds):
        """the assigned value; None when something else binds the name; False when nothing does"""
        i = next(k for k, s in enumerate(stmts) if s is inner)
        if not isinstance(inner, (ast.FunctionDef, ast.ClassDef)) and isinstance(inner, (ast.With, ast.For, ast.Assign, ast.AugAssign)) and binds(inner) and not isinstance(inner, ast.Assign):
            return None
        for s in reversed(stmts[:i]):
            if binds(s):
                ok = isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
                return s.value if ok else None
        return False

    def unpacked(self, tgt, it, name, f):
        """for i, x in enumerate(y)"""
        if isinstance(it, ast.Call) and dotted(it.func) == "enumerate" and it.args and isinstance(tgt, ast.Tuple) and len(tgt.elts) == 2 \
                and isinstance(tgt.elts[1], ast.Name) and tgt.elts[1].id == name:
            return ("each", it.args[0], f)
        return None

    def beside(self, tgt, val, name, f):
        if isinstance(tgt, ast.Tuple) and isinstance(val, ast.Tuple) and len(tgt.elts) == len(val.elts) and not any(isinstance(x, ast.Starred) for x in tgt.elts + val.elts):
            for a, b in zip(tgt.elts, val.elts):
                if isinstance(a, ast.Name) and a.id == name:
                    return ("is", b, f)
        return None

    # ---- kinds of documents and elements
    def join(self, ks):
        ks = list(ks)
        if not ks or any(k is None for k in ks):
            return None
        ks = [k for k in ks if k != "nothing"]
        if not ks:
            return None
        r = ks[0]
        for k in ks[1:]:
            if k == r:
                continue
            if k[0] == r[0] == "el" and k[1] == r[1]:
                r = ("el", r[1], None if r[2] is None or k[2] is None else r[2] | k[2])
            elif k[0] == r[0] == "list":
                j = self.join([r[1], k[1]])
                if j is None:
                    return None
                r = ("list", j)
            else:
                return None
        return r

    def ldmlclass(self, c):
        return any(x.name == "Ldml" for x in c.mro())

    def of(self, n, f, depth=16):
        if n is None or depth <= 0:
            return None
        key = ("k", id(n), f)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            self.cut = True             # a value made from itself adds nothing
            return "nothing"
        self.busy.add(key)
        before, self.cut = self.cut, False
        try:
            r = self._of(n, f, depth - 1)
        finally:
            self.busy.discard(key)
        if not self.cut or not any(k[0] == "k" for k in self.busy):
            self.memo[key] = r
            self.cut = before
        return r

    def _of(self, n, f, d):
        if isinstance(n, ast.Constant) and n.value is None:
            return "nothing"
        if isinstance(n, ast.Name):
            g = f
            while g is not None and n.id not in g.allparams and n.id not in g.locals and g.outer is not None:
                g = g.outer
            if g is not None and g.cls is not None and n.id == g.selfname and not g.is_classmethod:
                return DOC if self.ldmlclass(g.cls) else None
            if self.asked(n, f):
                return DOC
            bs = self.bindings(n, f)
            if bs is None:
                return None
            res = []
            for kind, val, owner in bs:
                if kind == "is":
                    res.append(self.of(val, owner, d))
                elif kind == "each":
                    res.append(self.each(self.of(val, owner, d)))
                elif kind == "param":
                    res.append(self.param(val, owner, d))
                else:
                    res.append(None)
            return self.join(res)
        if isinstance(n, ast.NamedExpr):
            return self.of(n.value, f, d)
        if isinstance(n, ast.IfExp):
            return self.join([self.of(n.body, f, d), self.of(n.orelse, f, d)])
        if isinstance(n, ast.BoolOp):
            return self.join([self.of(x, f, d) for x in n.values])
        if isinstance(n, ast.Attribute):
            if n.attr == "root":
                k = self.of(n.value, f, d)
                if k == DOC:
                    return ("el", "ldml", frozenset(["ldml"]))
            elif n.attr == "parent":
                k = self.of(n.value, f, d)
                if k and k[0] == "el" and self.voc(k[1]):
                    return ("el", k[1], self.voc(k[1]).up(k[2]))
                return None
            if isinstance(n.value, ast.Name):
                g = f
                while g is not None and n.value.id not in g.allparams and g.outer is not None:
                    g = g.outer
                if g is not None and g.cls is not None and n.value.id == g.selfname:
                    return self.attribute(g.cls, n.attr, d)
            return None
        if isinstance(n, ast.Subscript):
            k = self.of(n.value, f, d)
            if k is None or k == "nothing" or k == DOC:
                return None
            if k[0] == "list":
                return k if isinstance(n.slice, ast.Slice) else k[1]
            return self.each(k) if not isinstance(n.slice, ast.Slice) and not isinstance(n.slice, ast.Constant) or isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) else None
        if isinstance(n, ast.Call):
            return self.call(n, f, d)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            k = self.of(n.elt, f, d)
            return ("list", k) if k not in (None, "nothing") else None
        return None

    def asked(self, n, f):
        """inside 'if isinstance(x, Ldml):'"""
        inner = n
        for q in parents(n):
            if isinstance(q, (ast.If, ast.IfExp)):
                inside = any(inner is s for s in q.body) if isinstance(q, ast.If) else inner is q.body
                t = q.test
                if inside and isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 \
                        and isinstance(t.args[0], ast.Name) and t.args[0].id == n.id:
                    c = self.prj.resolve_class(t.args[1], f.module, f)
                    if c is not None and self.ldmlclass(c) and not any(isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store) and x.lineno < n.lineno
                                                                        for s in (q.body if isinstance(q, ast.If) else []) for x in ast.walk(s)):
                        return True
            inner = q
            if q is f.node:
                break
        return False

    def each(self, k):
        if k is None or k == "nothing" or k == DOC:
            return None
        if k[0] == "list":
            return k[1]
        if k[0] == "el" and self.voc(k[1]):
            v = self.voc(k[1])
            return ("el", k[1], None if k[2] is None else frozenset(v.children(k[2])))
        return None

    def param(self, name, g, d):
        cs = callers(self.prj).get(g, [])
        if not cs:
            return None
        res = []
        for c, cf in cs:
            if any(isinstance(a, ast.Starred) for a in c.args) or any(k.arg is None for k in c.keywords):
                return None
            b = bind(c, g)
            res.append(self.of(b[name], cf, d - 1) if name in b else self.of(g.defaults.get(name), g, d) if name in g.defaults else None)
        return self.join(res)

    def attribute(self, cls, name, d):
        res = []
        for c in cls.family():
            for m in self.prj.funcs:
                if m.cls is not c or not m.selfname:
                    continue
                for x in walk_own(m.node):
                    if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == m.selfname:
                        p = x._parent
                        if not (isinstance(p, ast.Assign) and x in p.targets):
                            return None
                        res.append(self.of(p.value, m, d))
        return self.join(res)

    def files(self, n, f, depth=5):
        """names of .xml files that a file name expression can end in"""
        res = set()
        if depth <= 0:
            return res
        for x in ast.walk(n):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.endswith(".xml"):
                res.add(os.path.basename(x.value))
            elif isinstance(x, ast.Name):
                v = self.fold.value(x, f)
                if isinstance(v, str):
                    if v.endswith(".xml"):
                        res.add(os.path.basename(v))
                    continue
                for kind, val, owner in self.bindings(x, f) or []:
                    if kind == "is":
                        res |= self.files(val, owner, depth - 1)
        return res

    def call(self, n, f, d):
        c = self.prj.resolve_class(n.func, f.module, f) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
        if c is not None:
            return DOC if self.ldmlclass(c) else None
        name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
        if isinstance(n.func, ast.Name) and name in WRAP and len(n.args) == 1:
            k = self.of(n.args[0], f, d)
            e = self.each(k)
            return ("list", e) if e is not None else None
        ext = self.prj.ext_name(n.func, f, f.module) or ""
        if (ext.endswith(".parse") or ext.endswith(".XML") or ext.endswith(".fromstring")) and "xml" in ext.lower() + dotted(n.func).lower() and n.args:
            fs = self.files(n.args[0], f)
            if len(fs) == 1 and ext.endswith(".parse"):
                x = next(iter(fs))
                if self.voc(x) is not None:
                    return ("tree", x)
            return None
        if ext.endswith(".SubElement") and len(n.args) >= 2:
            k = self.of(n.args[0], f, d)
            t = self.pats(n.args[1], f)
            return ("el", k[1], frozenset(plainname(x) for x in t)) if k and k[0] == "el" and not any(HOLE in x for x in t) else None
        if isinstance(n.func, ast.Attribute):
            k = self.of(n.func.value, f, d)
            if k is not None and k != "nothing":
                if name == "getroot" and k[0] == "tree":
                    return ("el", k[1], frozenset(self.voc(k[1]).roots))
                if name in LOOK1 | LOOKN | OWN and (k == DOC or k[0] in ("el", "tree")) and n.args:
                    base = self.base(n, k, f, d)
                    if base is None:
                        return None
                    r = []
                    for p in self.pats(n.args[0], f):
                        r.append(self.walk(p, base, None, None))
                    r = self.join(r)
                    if r is None:
                        r = ("el", base[1], None)
                    return r if name in LOOK1 and name != "findtext" else ("list", r) if name != "findtext" else None
                if name == "iter" and k[0] in ("el", "tree"):
                    return ("list", ("el", k[1], None))
                if name == "getparent" and k[0] == "el":
                    return ("el", k[1], self.voc(k[1]).up(k[2]) if self.voc(k[1]) else None)
                if name == "makeelement" and k[0] == "el" and n.args:
                    t = self.pats(n.args[0], f)
                    return ("el", k[1], frozenset(plainname(x) for x in t)) if not any(HOLE in x for x in t) else None
        gs, exact = self.prj.callees(n, f, f.module)[:2] if isinstance(self.prj.callees(n, f, f.module), tuple) else ([], False)
        if gs and len(gs) == 1 and d > 2:
            g = next(iter(gs))
            if g.name == "getldml" or g.name == "flattenlocale":
                return DOC
            if isinstance(g.node, ast.Module) or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(g.node)):
                return None
            rs = [self.of(x.value, g, d - 2) if x.value is not None else "nothing" for x in walk_own(g.node) if isinstance(x, ast.Return)]
            return self.join(rs)
        return None

    def base(self, n, k, f, d):
        """where a search starts: the document's root, its given base, or the element itself"""
        if k == DOC:
            e = None
            for w in n.keywords:
                if w.arg in ("elem", "base"):
                    e = w.value
            if e is None and len(n.args) > 1 and n.func.attr in ("find", "findall"):
                e = n.args[1]
            if e is None:
                return ("el", "ldml", frozenset(["ldml"]))
            b = self.of(e, f, d)
            return b if b and b[0] == "el" else ("el", "ldml", None) if b is None else ("el", "ldml", frozenset(["ldml"])) if b == "nothing" else None
        if k[0] == "tree":
            return ("el", k[1], frozenset(self.voc(k[1]).roots))
        return k

    def walk(self, p, base, complain, gone):
        """the element a path leads to; complain(rule, text) is told what does not exist"""
        v = self.voc(base[1])
        if v is None:
            return None
        tags = base[2]
        st = steps(p)
        if st is None:
            return None
        trail, deep = [], False
        for name, preds in st:
            name = plainname(name)
            if HOLE in name:
                tags = None
                trail = [HOLE]
                continue
            if name == ".":
                continue
            if name == "":
                tags, deep = None, True
                continue
            if name == "..":
                tags = v.up(tags)
                continue
            if name == "*":
                tags = None if tags is None else frozenset(v.children(tags))
                continue
            trail.append(name)
            if gone is not None and not deep and "/".join(trail) in gone:
                return None
            ok = v.children(tags)
            if name not in ok:
                if complain and not deep and tags is not None and not trail[:1] == [HOLE]:
                    complain("no-such-path", "%r is not in %s" % (name, " or ".join(sorted(tags)[:3]) or "it"))
                elif complain:
                    complain("no-such-path", "there is no %r at all" % name)
                return None
            tags = frozenset([name])
            for q in preds:
                m = re.match(r"\s*@([^=\s]+)\s*(?:!?=\s*(.*))?$", q, re.S)
                if m is None:
                    continue
                a = plainname(m.group(1))
                if HOLE in a:
                    continue
                if not v.attr(tags, a):
                    if complain:
                        complain("no-such-attribute", "%s has no %r" % (name, a))
                elif m.group(2) and HOLE not in m.group(2) and not v.value(tags, a, m.group(2).strip()[1:-1]):
                    if complain:
                        complain("no-such-value", "%s is never %s in %s" % (a, m.group(2), name))
        return ("el", base[1], tags)

    # ---- judging
    def finding(self, rule, f, n, msg):
        key = (rule, id(n), msg)
        if key not in self.seen:
            self.seen.add(key)
            self.rep.finding(rule, f, text(n), msg, n)

    def func(self, f):
        gone, popped = self.cleared(f)
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                self.judge_call(n, f, gone, popped)
            elif isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == "attrib":
                self.judge_attr(n.value.value, n.slice, n, f, popped)
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                r = n.comparators[0]
                if isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(r, ast.Attribute) and r.attr == "attrib":
                    self.judge_attr(r.value, n.left, n, f, popped)
                for a, b in ((n.left, r), (r, n.left)):
                    if isinstance(a, ast.Attribute) and a.attr == "tag" and isinstance(n.ops[0], (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
                        self.judge_tag(a.value, b, n, f)
            elif isinstance(n, ast.Assign):
                self.judge_table(n, f)

    def cleared(self, f):
        """paths of elements and names of attributes that the function takes out of the document"""
        gone, popped = set(), set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr == "remove" and len(n.args) == 1 and isinstance(n.args[0], ast.Name):
                    for kind, val, owner in self.bindings(n.args[0], f) or []:
                        if kind == "is" and isinstance(val, ast.Call) and isinstance(val.func, ast.Attribute) and val.func.attr in LOOK1 and val.args:
                            gone |= {p[2:] if p.startswith("./") else p for p in self.pats(val.args[0], owner) if HOLE not in p}
                elif n.func.attr == "pop" and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "attrib" and n.args:
                    popped |= self.pats(n.args[0], f)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == "attrib":
                        popped |= self.pats(t.slice, f)
        return gone, popped

    def judge_call(self, n, f, gone, popped):
        if not isinstance(n.func, ast.Attribute):
            ext = self.prj.ext_name(n.func, f, f.module) or ""
            if ext.endswith(".SubElement") and len(n.args) >= 2:
                self.judge_made(n.args[0], n.args[1], n, f)
            return
        name = n.func.attr
        if name in LOOK1 | LOOKN | OWN and n.args:
            k = self.of(n.func.value, f)
            if k is None and name in OWN:
                k = DOC
            if k is None or k == "nothing" or not (k == DOC or k[0] in ("el", "tree")):
                return
            base = self.base(n, k, f, 8)
            if base is None or self.voc(base[1]) is None:
                return
            self.rep.count("paths")
            self.rep.site("%s: %s in %s" % (f.where(), text(n, 60), base[1]))
            for p in sorted(self.pats(n.args[0], f)):
                if p == HOLE:
                    continue
                show = p.replace(HOLE, "…")
                if k == DOC:
                    bad = self.own_language(p)
                    if bad:
                        self.finding("not-understood", f, n, "the path %r: %s" % (show, bad))
                        continue
                else:
                    bad = self.et_language(p, n)
                    if bad:
                        self.finding("not-understood", f, n, "the path %r: %s" % (show, bad))
                        continue
                if base[1:] == ("ldml", frozenset(["ldml"])):
                    st = steps(p) or []
                    trail = [plainname(x) for x, q in st if x != "."]
                    for i, x in enumerate(trail):
                        if x.startswith("sil:") and (i == 0 or not trail[i - 1].startswith("sil:")) and not any(HOLE in y or y in ("", "*", "..") for y in trail):
                            self.places.setdefault(x, {}).setdefault("/".join(trail[:i]), []).append((f, n, show))
                self.walk(p, base, lambda rule, t: self.finding(rule, f, n, "the path %r cannot lead anywhere: %s (%s)" % (show, t, base[1])), gone)
            return
        if name == "SubElement" and len(n.args) >= 2:
            self.judge_made(n.args[0], n.args[1], n, f)
        elif name in ("subelement", "addnode") and len(n.args) >= 2 and self.of(n.func.value, f) == DOC:
            self.judge_made(n.args[0], n.args[1], n, f, True)
        elif name in ("get", "set") and n.args:
            self.judge_attr(n.func.value, n.args[0], n, f, popped, n.args[1] if name == "set" and len(n.args) > 1 else None)
        elif name in ("get", "pop", "setdefault") and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "attrib" and n.args:
            self.judge_attr(n.func.value.value, n.args[0], n, f, popped)
        elif name == "makeelement" and n.args:
            self.judge_made(n.func.value, n.args[0], n, f)

    def own_language(self, p):
        if p.startswith("/"):
            return "a document's own paths start at its root, without a slash"
        for s in p.split("/"):
            tag = re.split(r"\[.*?\]", s)[0] if HOLE not in s else s.split("[")[0]
            if s == "":
                return "'//' is not one of the steps a document's own paths know"
            if tag in ("*", ".."):
                return "%r is not one of the steps a document's own paths know" % tag
            if s.count("[") != s.count("]") or s.count('"') % 2 or s.count("'") % 2 and not s.count('"'):
                return "it is taken apart at a slash inside a name or a test"
            for q in re.findall(r"\[(.*?)\]", s):
                if HOLE not in q and not re.match(r"@[^=]+=\s*(['\"]).*\1$", q.strip(), re.S):
                    return "the test [%s] is not one a document's own paths know" % q
        return None

    def et_language(self, p, n):
        if p.startswith("/"):
            return "an element cannot be asked for an absolute path"
        if len(n.args) > 1 or n.keywords:
            return None
        for name, preds in steps(p) or []:
            m = re.match(r"([A-Za-z_][\w\-]*):", name)
            if m and HOLE not in name and m.group(1) != "xml":
                return "the prefix %r is not declared in this search" % m.group(1)
        return None

    def judge_made(self, par, tag, n, f, own=False):
        k = self.of(par, f)
        if k is None or k == "nothing" or k == DOC or k[0] != "el" or self.voc(k[1]) is None:
            return
        self.rep.count("elements_made")
        v = self.voc(k[1])
        for t in sorted(self.pats(tag, f)):
            if HOLE in t:
                continue
            if not own and re.match(r"\w+:", t):
                self.finding("not-understood", f, n, "an element called %r is made without its namespace" % t)
                continue
            t = plainname(t)
            if t not in v.children(k[2]):
                self.finding("no-such-path", f, n, "%s does not take a %r (%s)" % (" or ".join(sorted(k[2] or ["nothing"])[:3]), t, k[1]))

    def element_name(self, e, f, n):
        """in the document classes: a plain name that stands for an element, of whatever kind"""
        c = f
        while c is not None and c.cls is None:
            c = c.outer
        if c is None or not self.ldmlclass(c.cls) or not isinstance(e, ast.Name) or e.id == c.selfname:
            return False
        t = self.prj.lookup(e.id, f, f.module)
        if not (isinstance(t, tuple) and t[0] == "local"):
            return False
        uses = {x.attr for x in walk_own(t[1].node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == e.id}
        return bool(uses & {"attrib", "tag", "parent", "attrHash", "contentHash", "alternates"}) or \
            any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "set" and len(x.args) == 2 and isinstance(x.func.value, ast.Name)
                and x.func.value.id == e.id and isinstance(x.args[0], ast.Constant) and isinstance(x.args[0].value, str) for x in walk_own(t[1].node))

    def judge_attr(self, e, a, n, f, popped, val=None):
        k = self.of(e, f)
        if k is None and self.element_name(e, f, n):
            k = ("el", "ldml", None)
        if k is None or k == "nothing" or k == DOC or k[0] != "el" or self.voc(k[1]) is None:
            return
        v = self.voc(k[1])
        self.rep.count("attributes")
        for x in sorted(self.pats(a, f)):
            if HOLE in x or x in popped:
                continue
            x = plainname(x)
            if k[2] is not None and not all(v.known(t) for t in k[2]) or k[2] == frozenset():
                continue
            if x == "text" and k[2] is None and any(isinstance(y, ast.Constant) and y.value == "!--" for y in walk_own(f.node)):
                continue        # what the library's parser reports for a comment
            if not v.attr(k[2], x):
                self.finding("no-such-attribute", f, n, "%s an attribute %r (%s)" % ((" or ".join(sorted(k[2])[:3]) + " has not") if k[2] else "no element has", x, k[1]))
            elif val is not None:
                for y in sorted(self.pats(val, f)):
                    if HOLE not in y and not v.value(k[2], x, y):
                        self.finding("no-such-value", f, n, "%r is not one of the values of %s in %s" % (y, x, " or ".join(sorted(k[2])[:3])))

    def judge_tag(self, e, b, n, f):
        k = self.of(e, f)
        if k is None and f.cls is not None and self.ldmlclass(f.cls):
            k = ("el", "ldml", None)
        if k is None or k == "nothing" or k == DOC or k[0] != "el" or self.voc(k[1]) is None:
            return
        v = self.voc(k[1])
        self.rep.count("tags")
        c = self.fold.value(b, f)
        names = [c] if isinstance(c, str) else list(c) if isinstance(c, (list, tuple, set, frozenset)) else sorted(self.pats(b, f))
        for t in names:
            if not isinstance(t, str) or HOLE in t or t in ("", "!--"):      # (a comment, to the parser of the library)
                continue
            if re.match(r"\w+:", t):
                self.finding("not-understood", f, n, "a tag is never spelled %r: it carries the whole namespace" % t)
            elif plainname(t) not in (v.kids if k[2] is None else k[2]):
                self.finding("no-such-path", f, n, "there is no element %r here (%s)" % (t, k[1]))

    def judge_table(self, n, f):
        """the tables of element names that the document classes keep"""
        for t in n.targets:
            if isinstance(t, ast.Attribute) and t.attr in TABLES and isinstance(t.value, ast.Name):
                own = f.cls if f is not None and f.cls is not None and t.value.id == f.selfname else None
                if own is None or not self.ldmlclass(own):
                    continue
                self.table(n.value, f, n)
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr in ("keyContexts", "nonkeyContexts"):
                if f.cls is None or not self.ldmlclass(f.cls):
                    continue
                v = self.voc("ldml")
                if v is None:
                    continue
                self.rep.count("table_entries")
                for x in sorted(self.pats(t.slice, f)):
                    if HOLE in x:
                        continue
                    if not v.known(plainname(x)):
                        self.finding("no-such-path", f, n, "there is no element %r (ldml)" % x)
                        continue
                    c = self.fold.value(n.value, f)
                    for a in sorted(c) if isinstance(c, (set, list, tuple, frozenset)) else []:
                        if isinstance(a, str) and not v.attr([plainname(x)], plainname(a)):
                            self.finding("no-such-attribute", f, n, "%s has no attribute %r (ldml)" % (plainname(x), a))

    def table(self, val, f, n):
        v = self.voc("ldml")
        if v is None:
            return
        for x in ast.walk(val):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and isinstance(getattr(x, "_parent", None), (ast.List, ast.Tuple, ast.Set)):
                self.rep.count("table_entries")
                if not v.known(plainname(x.value)):
                    self.finding("no-such-path", f, n, "there is no element %r (ldml)" % x.value)

    def agree(self):
        """SIL's own elements may stand in any 'special'; where one is looked for is settled by everyone looking in the same place"""
        for x, where in self.places.items():
            n = sum(len(v) for v in where.values())
            top = max(len(v) for v in where.values())
            if len(where) < 2 or top < 3 or top < n - 1:
                continue
            best = next(k for k, v in where.items() if len(v) == top)
            for k, v in where.items():
                for f, node, show in v if k != best else []:
                    self.finding("odd-place", f, node, "the path %r looks for %s in %s, while everything else keeps it in %s" % (show, x, k or "the root", best))

    def classes(self):
        for c in self.prj.classes:
            if not self.ldmlclass(c):
                continue
            for s in c.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id in TABLES for t in s.targets):
                    self.table(s.value, c.module.main, s)


def run(prj, fold, rep):
    rep.rule("every constant element path, tag and attribute name leads, step by step, through declarations of the document it is used on; a path uses only what its search understands")
    chk = Check(prj, fold, rep)
    for f in prj.funcs:
        rep.count("functions")
        chk.func(f)
    chk.classes()
    chk.agree()
    if chk.voc("ldml") is None:
        rep.note("lib/sldr/sil.dtd is not there: nothing to judge LDML names against")


L = "lib/sldr/a.py"
_DTD = """<!ELEMENT ldml (identity, fallback*, collations?, special*)>
<!ATTLIST ldml draft (approved | proposed) #IMPLIED >
<!ELEMENT identity (language, script?, special*)>
<!ELEMENT language EMPTY>
<!ATTLIST language type NMTOKEN #REQUIRED >
<!--@VALUE-->
<!ELEMENT script EMPTY>
<!ATTLIST script type NMTOKEN #REQUIRED >
<!ELEMENT fallback (#PCDATA)>
<!ELEMENT collations (collation*)>
<!ELEMENT collation (cr?)>
<!ATTLIST collation type NMTOKEN "standard" >
<!ELEMENT cr (#PCDATA)>
<!ELEMENT special (sil:identity | sil:names)>
<!ELEMENT sil:identity EMPTY>
<!ATTLIST sil:identity uid CDATA #IMPLIED >
<!ATTLIST sil:identity usage (unused|developing) #IMPLIED >
<!ELEMENT sil:names (sil:name*)>
<!ELEMENT sil:name (#PCDATA)>
<!ATTLIST sil:name xml:lang NMTOKEN #IMPLIED >
"""
_XML = "<supplementalData><parentLocales><parentLocale parent='root' locales='az_Arab'/></parentLocales></supplementalData>"
_LIB = """
import os
from xml.etree import ElementTree as et
class Ldml:
    silns = "urn://www.sil.org/ldml/0.1"
    takesCData = set(('cr', 'sil:name'))
    def __init__(self, fname):
        self.root = et.parse(fname).getroot()
        self.blocks = ["identity", "collation"]
    @classmethod
    def read(cls, fname=None):
        if fname is None:
            fname = os.path.join(os.path.dirname(__file__), 'supplementalData.xml')
        doc = et.parse(fname)
        for p in doc.getroot().find('parentLocales').findall('parentLocale'):
            cls.parent = p.get('parent')
    def ensure_path(self, path, base=None):
        return []
    def find(self, path, elem=None):
        return self.ensure_path(path, base=elem)[0]
    def analyse(self):
        i = self.root.find('./identity/special/{' + self.silns + '}identity')
        if i is not None:
            self.uid = i.get('uid', None)
    def name(self, lang):
        return self.ensure_path('special/sil:names/sil:name[@xml:lang="{}"]'.format(lang))[0]
    def aliases(self):
        for c in self.root:
            if c.tag == 'fallback':
                self.root.remove(c)
def script(l):
    t = l.find('identity/script')
    return t.get('type') if t is not None else None
def main(f):
    l = Ldml(f)
    print(script(l))
    for i in l.root.findall('collations/collation/cr'):
        i.text = ''
"""


def _e(name, want, *edits):
    s = _LIB
    for a, b in edits:
        assert a in s, (name, a)
        s = s.replace(a, b)
    return (name, {L: s, "lib/sldr/sil.dtd": _DTD, "lib/sldr/supplementalData.xml": _XML}, want)


_P, _A, _V, _U = ["no-such-path"], ["no-such-attribute"], ["no-such-value"], ["not-understood"]
EXAMPLES = [
    _e("fine", False),
    _e("path in pieces", False, ("l.root.findall('collations/collation/cr')", "l.root.findall('collations/' + 'collation' + '/cr')")),
    _e("step by step", False, ("for i in l.root.findall('collations/collation/cr'):\n        i.text = ''",
                               "for c in l.root.find('collations'):\n        for i in c.findall('cr'):\n            i.text = ''")),
    _e("step by step wrong", _P, ("for i in l.root.findall('collations/collation/cr'):\n        i.text = ''",
                                  "for c in l.root.find('collations'):\n        for i in c.findall('rules'):\n            i.text = ''")),
    _e("any depth", False, ("l.root.findall('collations/collation/cr')", "l.root.findall('.//cr')")),
    _e("any depth wrong", _P, ("l.root.findall('collations/collation/cr')", "l.root.findall('.//crr')")),
    _e("root child", _P, ("l.root.findall('collations/collation/cr')", "l.root.findall('collation/cr')")),
    _e("wrong element", _P, ("'identity/script'", "'identity/scripts'")),
    _e("special left out", _P, ("'./identity/special/{'", "'./identity/{'")),
    _e("no namespace", _P, ("'./identity/special/{' + self.silns + '}identity'", "'./identity/special/identity'")),
    _e("prefix in a plain search", _U, ("'./identity/special/{' + self.silns + '}identity'", "'./identity/special/sil:identity'")),
    _e("absolute", _U, ("'./identity/special/{'", "'/identity/special/{'")),
    _e("attribute", _A, ("i.get('uid', None)", "i.get('uuid', None)")),
    _e("attribute elsewhere", _A, ("t.get('type')", "t.get('uid')")),
    _e("predicate", _A, ("sil:name[@xml:lang=", "sil:name[@lang=")),
    _e("predicate slash", _U, ("sil:name[@xml:lang=\"{}\"]", "sil:name[@xml:lang=\"a/b\"]")),
    _e("descendants asked of a document", _U, ("'identity/script'", "'.//identity/script'")),
    _e("any asked of a document", _U, ("'identity/script'", "'identity/*'")),
    _e("tag", _P, ("c.tag == 'fallback'", "c.tag == 'fallbacks'")),
    _e("tag prefix", _U, ("c.tag == 'fallback'", "c.tag == 'sil:names'")),
    _e("table", _P, ("set(('cr', 'sil:name'))", "set(('cr', 'sil:nam'))")),
    _e("blocks", _P, ('["identity", "collation"]', '["identity", "collator"]')),
    _e("data file", _P, ("find('parentLocales')", "find('parentLocale')")),
    _e("data attribute", _A, ("p.get('parent')", "p.get('parents')")),
    _e("value", _V, ("self.uid = i.get('uid', None)", "i.set('usage', 'none')")),
    _e("value fine", False, ("self.uid = i.get('uid', None)", "i.set('usage', 'unused')")),
    _e("made", _P, ("        i.text = ''", "        et.SubElement(i, 'rules')")),
    _e("made fine", False, ("    for i in l.root.findall('collations/collation/cr'):\n        i.text = ''",
                            "    for i in l.root.findall('collations/collation'):\n        et.SubElement(i, 'cr')")),
    _e("made with prefix", _U, ("        i.text = ''", "        et.SubElement(i, 'sil:name')")),
    _e("taken out", False, ("    print(script(l))", "    o = l.root.find('orientation')\n    if o is not None:\n        l.root.remove(o)\n    print(script(l))")),
    _e("not taken out", _P, ("    print(script(l))", "    o = l.root.find('orientation')\n    print(script(l))")),
    _e("looped", False, ("    print(script(l))", "    for p in ('identity/language', 'identity/script'):\n        print(l.root.find(p).get('type'))")),
    _e("looped wrong", _P, ("    print(script(l))", "    for p in ('identity/language', 'identity/territory'):\n        print(l.root.find(p).get('type'))")),
    _e("extended", _P, ("    print(script(l))", "    p = 'identity'\n    p += '/names'\n    print(l.root.find(p))")),
    _e("other document", False, ("    print(script(l))", "    print(et.parse('other.xml').getroot().find('keyboard/row').get('key'))")),
    _e("unknown path", False, ("'identity/script'", "input()")),
]
