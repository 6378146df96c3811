"""P06: serialising puts nothing into the document that it does not take out again, and takes out nothing else."""
import ast
from ..core import text
from ..terms import Walk, sub, show, facts_of, implies, negate, truth, const, NONE, TRUE, FALSE, atoms
from ..tree import Side, canon, flat, strip, unclear, root

TECHNIQUE = "effect pairing: every child placed into a document element by the code reached from Ldml.serialize_xml must be taken out again in an exit handler that covers every later write, and only such children may be taken out"
NOTE = ("Only the write callback (and the recursion) is taken to be able to fail. With nouid=False the document gains its identity on purpose; that call is left out. "
        "Attributes are not part of the property. Conditions kept in flags or unknown calls are taken as sufficient.")
ADD = {"insert", "append", "extend"}
DROP = {"remove", "pop", "clear"}
OTHER = {"sort", "reverse"}


def anon(t):
    """the term whichever passage through a collection it was seen in"""
    if isinstance(t, frozenset):
        return frozenset(anon(x) for x in t)
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ("elem", "key", "loopvar") and len(t) == 3:
        return (t[0], anon(t[1]), 0)
    return tuple(anon(x) for x in t)


class Decide:
    def __init__(self, prj, fold, rep, f, cls):
        self.prj, self.rep, self.f = prj, rep, f
        self.me = {g.module.name + ":" + g.qual for c in cls.mro() for g in c.methods.values() if g.name == f.name}
        self.w = w = Walk(prj, fold)
        w.root(f, cls, {"nouid": const(True)} if "nouid" in f.allparams else None)
        ps = f.params[1:]
        self.write = ("param", ps[0])
        self.mine = Side([("attr", ("self",), "root"), ("param", ps[1])])

    def bad(self, rule, e, msg):
        self.rep.finding(rule, e.func, text(e.node), msg, e.node)

    def parts(self, t):
        return [x for x in flat(canon(t)) if self.mine.own(x) is True and self.element(x)]

    def element(self, t):
        """an element, not a collection of them made here"""
        return not (t[0] == "call" or t[0] == "attr" and t[2] in ("attrib", "alternates", "children"))

    def same(self, a, b):
        a, b = {x for x in flat(canon(a)) if x != NONE and x[0] != "loopvar"}, {x for x in flat(canon(b)) if x != NONE and x[0] != "loopvar"}
        return a == b

    def writes(self, e):
        return e.kind == "call" and e.name == "__call__" and self.write in flat(e.recv) or e.kind == "pcall" and e.name in self.me

    def run(self):
        w, rep = self.w, self.rep
        self.puts, self.takes, self.restores = [], [], []       # (event, container, what)
        self.outs = [e for e in w.events if self.writes(e)]
        rep.count("writes", len(self.outs))
        for e in w.events:
            if e.kind == "call" and isinstance(e.name, str) and self.parts(e.recv):
                a = list(e.args or ())
                if e.name in ADD and a:
                    x = a[-1]
                    if e.name == "extend":
                        x, _ = w.element(x, w.fresh(), None)
                    self.puts.append((e, e.recv, canon(x)))
                elif e.name in DROP:
                    self.takes.append((e, e.recv, canon(a[0]) if e.name == "remove" and a else None))
                elif e.name in OTHER:
                    self.bad("children-changed", e, "the children of an element are put into another order by writing it")
            elif e.kind == "call" and e.name in ("et.SubElement", "SubElement") or e.kind == "call" and e.recv and e.recv[0] == "builtin" and str(e.name).endswith("SubElement"):
                if e.args and self.parts(e.args[0]):
                    self.puts.append((e, e.args[0], canon(e.value) if e.value else NONE))
            elif e.kind == "setitem" and self.parts(e.recv):
                self.stored(e)
            elif e.kind == "delitem" and self.parts(e.recv):
                self.takes.append((e, e.recv, None))
        rep.count("placed", len(self.puts))
        rep.count("taken_out", len(self.takes) + len(self.restores))
        for p in self.puts:
            self.put(*p)
        for t in self.takes:
            self.take(*t)

    def stored(self, e):
        k, v = e.name, e.value
        whole = k[0] == "range" or k[0] == "call" and k[1] in ("slice", "list")
        if whole and any(c[0] in ("finally", "except") for c in e.ctx) or whole and self.saved(e):
            self.restores.append((e, e.recv))
            return
        if whole and k[0] == "range" and k[1] == k[2] and k[1] != NONE and k[3] == NONE:        # n[i:i] = [...]
            x, _ = self.w.element(v, self.w.fresh(), None)
            self.puts.append((e, e.recv, canon(x)))
            return
        if whole and v[0] in ("new", "list", "bin", "comp", "phi"):
            self.puts.append((e, e.recv, None))
            return
        self.bad("children-changed", e, "the children of an element are replaced by writing it")

    def saved(self, e):
        """the children as they were, kept in a variable"""
        n = e.node.value if isinstance(e.node, ast.Assign) else None
        return isinstance(n, (ast.Name, ast.Attribute)) and self.same(strip(e.value), e.recv)

    # ---- what is placed must be taken out -----------------------------------------------------------------------
    def put(self, e, cont, x):
        here = [truth(canon(f)) for f in e.facts]
        later = [o for o in self.outs if o.seq > e.seq and not any(negate(truth(canon(f))) in here for f in o.facts)]
        cands = [(r, c, v) for r, c, v in self.takes if self.same(c, cont)] + [(r, c, "all") for r, c in self.restores if self.same(c, cont)]
        if not cands:
            self.bad("left-in", e, "what is placed among the children of an element here is not taken out again")
            return
        why = None
        for r, c, v in cands:
            y = self.covers(e, r, v, x, later)
            if y is None:
                return
            why = why or y
        self.bad("left-in", e, "what is placed among the children of an element here %s" % why)

    def covers(self, e, r, v, x, later):
        """None when r takes out what e has placed, on every exit; else what is wrong"""
        tries = [t for k, t in r.ctx if k == "finally"]
        excs = [t for k, t in r.ctx if k == "except" and any(self.catchall(h) for h in t.handlers)]
        if not tries and excs:
            if not any(q.seq != r.seq and not q.ctx for q, c, _ in self.takes + [(q, c, 0) for q, c in self.restores] if q.seq > e.seq):
                return "is only taken out again when writing fails"
            tries = excs
        if not tries:
            return "is taken out again only when nothing fails before"
        for o in later:
            if not any(("try", t) in o.ctx for t in tries):
                return "stays there when the write in line %d fails" % getattr(o.node, "lineno", 0)
        if v == "all":
            return None
        if v is None:
            return None
        base = [anon(canon(f)) for f in self.w.known(e)]
        extra = []
        marks, lists = self.evidence(r, v, extra)
        for f in extra:
            f = anon(f)
            if f in base or self.harmless(f, v):
                continue
            if any(z[0] in ("new", "gen", "lambda", "opaque", "pcall", "none", "stored") for z in sub(f)) or f[0] in ("or", "stored", "none"):
                continue
            if any(self.weaker(f, b) for b in base):
                continue
            return "is not taken out again where %s does not hold" % show(f)
        for m, tr in marks:
            s = [q for q in self.w.events if q.kind == "store" and q.name == m and x is not None and self.alike(q.recv, x) and truthy(q.value)]
            if not s and x is not None:
                return "is not marked for being taken out again"
            if s and not any(all(anon(canon(f)) in base or self.harmless(canon(f), x) or f[0] in ("stored", "none") for f in q.facts) for q in s):
                return "is marked for being taken out again only under some condition"
        return None

    def alike(self, a, b):
        a, b = anon(canon(a)), anon(canon(b))
        return a == b or bool(set(flat(a)) & set(flat(b)) - {NONE})

    def weaker(self, f, b):
        """f holds whenever b does (for what is written differently)"""
        return f == truth(b) or implies([b], lambda a: a == f)

    def harmless(self, f, x):
        xs = flat(x) if x is not None else []
        if f[0] == "cmp" and f[1] in ("is not", "!=") and f[3] == NONE:
            return True
        if f[0] == "call" and f[1] in ("hasattr", "isinstance"):
            return True
        return False

    def catchall(self, h):
        return h.type is None or isinstance(h.type, ast.Name) and h.type.id == "BaseException"

    # ---- only what was placed may be taken out ------------------------------------------------------------------
    def evidence(self, r, x, rest=None):
        """markers (attribute name, known to be true) and local lists that say x was placed here; other conditions go to rest"""
        marks, lists = [], []
        fs = [canon(f) for f in self.w.known(r)]
        xs = [x] + flat(x)
        for f in fs:
            used = False
            for a in ([f] if f[0] != "and" else f[1]):
                t = truth(a)
                hit = t if t[0] == "attr" else t[2] if t[0] == "cmp" and t[1] in ("is", "==") and truthy(t[3]) else None
                if hit is not None and hit[0] == "call" and hit[1] == "getattr" and len(hit[2]) >= 2 and hit[2][1][0] == "const":
                    hit = ("attr", hit[2][0], hit[2][1][1])
                if hit is not None and hit[0] == "attr" and hit[1] in xs:
                    marks.append((hit[2], True))
                    used = True
                elif t[0] == "call" and t[1] == "hasattr" and len(t[2]) == 2 and t[2][0] in xs and t[2][1][0] == "const":
                    marks.append((t[2][1][1], False))
                    used = True
                elif t[0] == "cmp" and t[1] == "in" and (t[2] in xs or any(z in xs for z in sub(t[2]))):
                    lists.append(t[3])
                    used = True
                elif t[0] == "call" and t[1] == "any" or t[0] == "pcall" or t[0] == "phi":
                    lists.append(t)
                    used = True
            if not used and rest is not None:
                rest.append(f)
        for f in [canon(g) for g in r.facts]:
            if f[0] == "stored" and f[1] in xs and f[3] in (FALSE, NONE, const(0)):
                for q in self.w.events:
                    if q.kind == "store" and q.name == f[2] and q.seq < r.seq and q.func is r.func and canon(q.recv) == f[1] \
                            and implies([canon(g) for g in q.facts], lambda a: truth(a) == ("attr", f[1], f[2]) or a[0] == "call" and a[1] == "getattr" and a[2][0] == f[1]):
                        marks.append((f[2], True))
        if any(m[1] for m in marks):
            marks = [m for m in marks if m[1]]
        for y in xs:
            c = y
            while c[0] in ("elem", "item", "key", "slice", "call", "meth"):
                c = c[2][0] if c[0] == "call" and c[2] else c[1]
                if not isinstance(c, tuple):
                    break
                if c[0] in ("new", "phi", "comp", "gen", "opaque", "loopvar", "list", "pcall"):
                    lists.append(c)
                    break
        return marks, lists

    def inserted(self, t):
        """may the list hold things that were placed (and nothing else that is known)"""
        if t[0] == "new":
            got = [canon(v) for _, v, _ in self.w.contents.get(t) or []]
            return not got or any(self.alike(g, x) or any(self.alike(z, x) for z in sub(g) if isinstance(z[0], str)) for g in got for _, _, x in self.puts if x is not None)
        if t[0] in ("phi",):
            return any(self.inserted(x) for x in t[1] if x[0] != "loopvar") or all(x[0] == "loopvar" for x in t[1])
        return t[0] != "attr" and t[0] != "param" and not (t[0] == "comp" and self.mine.own(t) is True)

    def take(self, e, cont, x):
        rep = self.rep
        fs = [canon(f) for f in self.w.known(e)]
        if x is None:
            self.byindex(e, cont, fs)
            return
        marks, lists = self.evidence(e, x)
        same = any(p is not None and self.alike(x, p) for _, _, p in self.puts)
        if not marks and not same and not any(self.inserted(l) for l in lists):
            if self.mine.own(x) is not False:
                self.bad("child-removed", e, "a child is taken out of its element although nothing says that it was placed there for this write")
            return
        for m, true in marks:
            if not any(q.kind == "store" and q.name == m and truthy(q.value) and any(p is not None and self.alike(q.recv, p) for _, _, p in self.puts) for q in self.w.events):
                if self.puts:
                    self.bad("child-removed", e, "children are taken out that have %s, which is not set on what is placed here" % m)
                continue
            if lists and any(self.inserted(l) for l in lists):
                continue
            off = [q for q in self.w.events if (q.kind == "delattr" or q.kind == "store" and q.value in (FALSE, NONE, const(0), const("")) and true) and q.name == m]
            off += [q for q in self.w.events if q.kind == "call" and q.name == "delattr" and q.args and len(q.args) > 1 and q.args[1] == const(m)]
            if not off:
                self.bad("marker-stays", e, "the mark %s stays on an alternate after it was taken out: a later write would take it out wherever it is then" % m)
            elif not any(self.paired(q, e, m) for q in off):
                self.bad("marker-stays", e, "the mark %s is not cleared everywhere an alternate is taken out" % m)
        self.loop(e, cont)

    def paired(self, q, e, m):
        """q happens whenever e does: under no further condition, in the same exit handler (or before it)"""
        mine = [canon(f) for f in e.facts]
        other = [canon(f) for f in q.facts]
        if any(f not in mine and f[0] not in ("stored", "none") and not any(z[0] in ("opaque", "new", "loopvar") or z[0] == "attr" and z[2] == m for z in sub(f)) for f in other):
            return False
        return any(k == "finally" for k, _ in q.ctx) or q.ctx == e.ctx

    def loop(self, e, cont):
        loops = [l for l in e.loops if l[0] == "for"]
        if not loops:
            return
        k, s, it, uid = loops[-1]
        if self.same(it, cont) and canon(it)[0] != "call":
            self.bad("siblings-skipped", e, "children are taken out of the element that is being gone through, so that the next one is passed over")
        for q in self.w.events:
            if q.kind in ("break", "return") and q.loops and q.loops[-1][3] == uid and q.loops[-1][1] is s and q.func is e.func:
                self.bad("left-in", q, "the loop that takes alternates out again stops early")

    def byindex(self, e, cont, fs):
        if not self.puts:
            self.bad("child-removed", e, "children are taken out of an element by writing it")


def truthy(t):
    return t[0] == "const" and bool(t[1]) or t[0] in ("tuple", "list") and bool(t[1]) or t[0] in ("param", "attr", "elem", "new", "item", "key")


def run(prj, fold, rep):
    rep.rule("children inserted into a document element by the code reached from Ldml.serialize_xml are removed in a finally block whose try covers every later call of the write callback; "
             "only children marked (and unmarked with the removal) or listed as inserted are removed; the removal does not go through the element it changes; nothing else changes children")
    f = prj.need("Ldml", "serialize_xml")
    d = Decide(prj, fold, rep, f, prj.cls("Ldml"))
    d.run()
    rep.count("events", len(d.w.events))


_SRC = '''
class ETWriter:
    def serialize_xml(self, write, base=None, indent='', topns=True, namespaces=None):
        if base is None:
            base = self.root
            write('<?xml?>')
        write('<' + base.tag)
        for b in base:
            self.serialize_xml(write, base=b, indent=indent + ' ')
        write('>')
class Ldml(ETWriter):
    def serialize_xml(self, write, base=None, indent='', topns=True, namespaces=None, nouid=True):
        if base is None and not nouid:
            self.root.append(self.uid)
        if self.useDrafts:
            n = base if base is not None else self.root
            offset = 0
            for (i, c) in enumerate(list(n)):
                if not hasattr(c, 'alternates'): continue
                for a in sorted(c.alternates.keys()):
                    offset += 1
                    n.insert(i + offset, c.alternates[a])
                    c.alternates[a].tempnode = True
        try:
            super(Ldml, self).serialize_xml(write, base, indent, topns, namespaces)
        finally:
            if self.useDrafts:
                n = base if base is not None else self.root
                for c in list(n):
                    if hasattr(c, 'tempnode') and c.tempnode:
                        n.remove(c)
                        c.tempnode = False
'''


def _x(name, want, *edits):
    s = _SRC
    for a, b in edits:
        assert a in s, (name, a)
        s = s.replace(a, b)
    return (name, {"lib/sldr/ldml.py": s}, want)


_I, _M, _R, _S, _C = "left-in", "marker-stays", "child-removed", "siblings-skipped", "children-changed"
_REM = "                        n.remove(c)\n                        c.tempnode = False\n"
_INS = "                    n.insert(i + offset, c.alternates[a])\n                    c.alternates[a].tempnode = True\n"
_FIN = _SRC[_SRC.index("                n = base if base is not None else self.root\n                for c in list(n):"):]
EXAMPLES = [
    _x("as it should be", False),
    _x("no finally", [_I], ("        try:\n            super", "        if True:\n            super"), ("        finally:\n            if self", "        if True:\n            if self")),
    _x("mark not cleared", [_M], ("                        c.tempnode = False\n", "")),
    _x("mark cleared only sometimes", [_M], ("                        c.tempnode = False\n", "                        if len(c): c.tempnode = False\n")),
    _x("goes through the element", [_S], ("for c in list(n):\n                    if has", "for c in n:\n                    if has")),
    _x("stops after one", [_I], ("                        c.tempnode = False\n", "                        c.tempnode = False\n                        break\n")),
    _x("all with alternates go", True, ("if hasattr(c, 'tempnode') and c.tempnode:", "if c.get('alt'):")),
    _x("a write before the try", [_I], ("        try:\n            super", "        write(indent)\n        try:\n            super")),
    _x("only some taken out", [_I], ("and c.tempnode:", "and c.tempnode and len(c):")),
    _x("listed", False, ("        if self.useDrafts:\n            n =", "        placed = []\n        if self.useDrafts:\n            n ="),
       ("                    c.alternates[a].tempnode = True\n", "                    placed.append(c.alternates[a])\n"),
       (_FIN, "                n = base if base is not None else self.root\n                for c in placed:\n                    n.remove(c)\n")),
    _x("saved and restored", False, ("            offset = 0\n", "            offset = 0\n            saved = list(n)\n"),
       (_FIN, "                n = base if base is not None else self.root\n                n[:] = saved\n")),
    _x("helper", False, ("        try:\n            super", "        try:\n            self._w(write, base, indent)\n            return\n            super"),
       ("        finally:\n            if self.useDrafts:\n" + _FIN, "        finally:\n            if self.useDrafts:\n                self._out(base if base is not None else self.root)\n"
        "    def _w(self, write, base, indent):\n        super(Ldml, self).serialize_xml(write, base, indent)\n"
        "    def _out(self, n):\n        for c in list(n):\n            if not getattr(c, 'tempnode', False): continue\n            n.remove(c)\n            c.tempnode = False\n")),
    _x("sorted for writing", [_C], ("            offset = 0\n", "            offset = 0\n            n[:] = sorted(n, key=lambda x: x.tag)\n")),
    _x("not taken out at all", [_I], (_REM, "                        pass\n")),
]
