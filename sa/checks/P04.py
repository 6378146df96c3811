"""P04: overlaying a fallback only adds what is missing."""
import ast
from ..core import text, walk_own
from ..terms import Walk, sub, show, facts_of, negate, implies, truth, holds, FALSE, NONE, TRUE, atoms
from ..tree import Side, canon, flat, unclear, strip, fresh_list

TECHNIQUE = "effect analysis with dominating conditions: every change reached from overlay is to a copy, or under the condition that makes it a gap"
NOTE = ("Trusted: _copynode and makeelement give new elements. The fallback font list inside external resources is the stated exception; that its fonts are put back is checked, "
        "the arithmetic on their types is not.")
MARKER = "\u2191\u2191\u2191"
MARK_OK = (MARKER,)


class Decide:
    def __init__(self, prj, fold, rep, f, cls):
        self.prj, self.rep, self.f = prj, rep, f
        self.me = f.module.name + ":" + f.qual
        keep = [g for c in cls.mro() for g in c.methods.values() if g.name in ("_copynode", "normalise", "_calc_hashes", "serialize_xml")]
        self.copiers = {g.module.name + ":" + g.qual for g in keep if g.name == "_copynode"}
        self.w = w = Walk(prj, fold, keep=keep)
        w.root(f, cls)
        ps = f.params[1:]
        this = next((p for p in ps[1:] if p == "this"), ps[-1])
        self.ps, self.thisp = ps, this
        self.mine = Side([("attr", ("self",), "root"), ("param", this)])
        self.theirs = Side([("param", ps[0])])

    def flagged(self, facts):
        return unclear(facts, known=(self.me,)) is not None

    def key(self, facts, t):
        """elements of the other document that t is known to have the key of"""
        res = set()

        def pred(a):
            if a[0] == "cmp" and a[1] == "==":
                l, r = canon(a[2]), canon(a[3])
                for x, y in ((l, r), (r, l)):
                    if x[0] == "attr" and y[0] == "attr" and x[2] == y[2] and x[2] in ("attrHash", "contentHash") and x[1] == t \
                            and self.theirs.own(y[1]) is not False:
                        res.add(y[1])
                        return True
            return False
        return res if implies(facts, pred) else set()

    def fonttag(self, y):
        cs = [z[1] for z in sub(y) if z[0] == "const" and isinstance(z[1], str)]
        return any(c.endswith("font") for c in cs) or not cs

    def font(self, facts, t):
        def pred(a):
            if a[0] != "cmp" or a[1] != "==":
                return False
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if canon(x) == ("attr", t, "tag"):
                    return self.fonttag(y)
            return False
        if t[0] == "elem":
            found = [strip(canon(x)) for x in flat(t[1]) if x[0] != "loopvar"]
            if found and all(x[0] == "meth" and x[2] in ("findall", "iterfind") and x[3] and self.fonttag(x[3][0]) for x in found):
                return True
        return implies(facts, pred)

    def inherit(self, facts, t):
        def pred(a):
            if a[0] == "cmp" and a[1] in ("==", "in", "is"):
                for x, y in ((a[2], a[3]), (a[3], a[2])):
                    x = canon(x)
                    while x[0] == "meth" and x[2] == "strip":
                        x = x[1]
                    if x == ("attr", t, "text"):
                        if y[0] == "const":
                            return y[1] in MARK_OK
                        if y[0] in ("tuple", "list", "set"):
                            return a[1] == "in" and all(z[0] == "const" and z[1] in MARK_OK for z in y[1])
                        return a[1] == "==" and y[0] in ("global", "attr") and not (y[0] == "attr" and y[2] in ("text", "tag", "tail")) 
            return False
        return implies(facts, pred)

    def absent(self, facts, t, k):
        at = ("attr", t, "attrib")

        def pred(a):
            a = canon(a)
            if a[0] == "cmp" and a[1] == "not in" and a[2] == k and (a[3] in (t, at) or a[3][0] == "meth" and a[3][1] in (t, at) and a[3][2] == "keys"):
                return True
            g = [x for x in sub(a) if x[0] == "meth" and x[2] == "get" and x[1] in (t, at) and x[3][:1] == (k,)]
            return bool(g) and (a[0] == "cmp" and a[1] in ("is", "==") and a[3] == NONE or a[0] == "not" and a[1] in g)
        return implies(facts, pred)

    def alt_absent(self, facts, al, k):
        def pred(a):
            a = canon(a)
            if a[0] == "cmp" and a[1] == "not in" and a[2] == k and (a[3] == al or a[3][0] == "meth" and a[3][1] == al):
                return True
            return a[0] == "cmp" and a[1] in ("is", "==") and a[3] == NONE and a[2] == ("item", al, k)
        return implies(facts, pred)

    def bad(self, rule, e, msg):
        self.rep.finding(rule, e.func, text(e.node), msg, e.node)

    def parts(self, t):
        """the elements of this document a receiver may be, when it is certainly of this document"""
        if t[0] in ("phi", "if", "cases"):
            return [x for x in flat(t) if self.mine.own(x) is True]
        return [t] if self.mine.own(t) is True and not fresh_list(t) else []

    def run(self):
        rep, w = self.rep, self.w
        taken, back = [], []
        for e in w.events:
            facts = [canon(f) for f in w.known(e)]
            if e.kind == "pcall" and e.name == self.me:
                self.recursion(e, facts)
                continue
            if e.kind == "call" and isinstance(e.name, str) and e.recv[0] != "builtin":
                r, n, a = canon(e.recv), e.name, [canon(x) for x in e.args]
                if r[0] == "attr" and r[2] == "attrib":
                    if self.mine.own(r[1]) is True:
                        self.attribute(e, r[1], n, a, facts)
                    continue
                if r[0] == "attr" and r[2] == "alternates":
                    if self.mine.own(r[1]) is True and n in ("pop", "clear", "update", "popitem"):
                        self.quietly(facts) or self.bad("existing-changed", e, "alternates of an existing element are replaced or removed")
                    continue
                ts = self.parts(r)
                if not ts:
                    continue
                if n == "set" and len(a) == 2:
                    for t in ts:
                        self.attribute(e, t, "set", a, [canon(f) for f in w.known(e, t)])
                elif n == "remove" and a:
                    rep.count("removals")
                    if self.mine.own(a[0]) is True or self.mine.own(a[0]) is None:
                        if self.quietly(facts):
                            continue
                        if self.font(facts, a[0]):
                            taken.append(e)
                        else:
                            self.bad("existing-removed", e, "an existing element is taken out of the document that is overlaid")
                elif n in ("clear", "pop"):
                    self.quietly(facts) or self.bad("existing-removed", e, "%s() takes existing elements out of the document that is overlaid" % n)
                elif n in ("append", "insert", "extend"):
                    x = a[-1] if a else NONE
                    if n == "extend":
                        x, cs = w.element(x, w.fresh(), None)
                        facts = facts + [canon(c) for c in cs]
                    self.addition(e, r, canon(x), facts, back)
            elif e.kind == "store":
                r = canon(e.recv)
                for t in self.parts(r):
                    fs = [canon(f) for f in w.known(e, t)]
                    if e.name == "text":
                        rep.count("text_stores")
                        if not self.inherit(fs, t) and not self.quietly(fs):
                            self.bad("existing-changed", e, "the text of an existing element is replaced where it is not the inherit marker")
                    elif e.name in ("tag", "attrib"):
                        self.quietly(fs) or self.bad("existing-changed", e, "the %s of an existing element is replaced" % e.name)
                    elif e.name == "alternates" and not self.quietly(fs):
                        def lacks(a):
                            a = canon(a)
                            return a[0] == "not" and (a[1] == ("attr", t, "alternates") or a[1][0] == "call" and a[1][1] == "hasattr")
                        if not implies(fs, lacks) and not any(x == ("attr", t, "alternates") for x in sub(canon(e.value))):
                            self.bad("existing-changed", e, "the alternates of an existing element are replaced")
            elif e.kind in ("setitem", "delitem", "aug"):
                r = canon(e.recv)
                if e.kind == "aug":
                    if r[0] == "attr" and r[2] == "text" and self.mine.own(r[1]) is True and not self.inherit(facts, r[1]) and not self.quietly(facts):
                        self.bad("existing-changed", e, "the text of an existing element is changed")
                    continue
                if r[0] == "attr" and r[2] == "attrib" and self.mine.own(r[1]) is True:
                    self.attribute(e, r[1], "set" if e.kind == "setitem" else "pop", [canon(e.name)], facts)
                elif r[0] == "attr" and r[2] == "alternates" and self.mine.own(r[1]) is True:
                    if e.kind == "delitem":
                        self.quietly(facts) or self.bad("existing-removed", e, "an alternate of an existing element is removed")
                    elif not self.alt_absent(facts, r, canon(e.name)) and not self.quietly(facts):
                        self.bad("existing-changed", e, "an alternate of an existing element is replaced")
                elif self.mine.own(r) is True and not self.quietly(facts):
                    if e.kind == "delitem":
                        self.bad("existing-removed", e, "existing elements are deleted from the document that is overlaid")
                    elif e.value[0] == "comp" and e.value[4]:
                        x, conds = w.pairs(e.value)
                        out = facts + facts_of(negate(("and", conds)))
                        if self.mine.own(canon(x)) is True and not self.quietly(out):
                            if self.font(out, canon(x)):
                                taken.append(e)
                            else:
                                self.bad("existing-removed", e, "existing elements are left out of the document that is overlaid")
                    elif e.name[0] != "range" and not (e.name[0] == "call" and e.name[1] == "slice"):
                        if self.mine.own(canon(e.value)) is False and self.copied(canon(e.value)) is not None:
                            self.bad("existing-removed", e, "an existing element is replaced by one of the other document")
                    else:
                        v = strip(canon(e.value))
                        if v[0] in ("list", "tuple"):
                            kept = any(self.mine.own(x[1] if x[0] == "star" else x) is not False for x in v[1])
                        elif v[0] == "bin":
                            kept = any(self.mine.own(x) is not False or x[0] == "comp" for x in sub(v) if x is not v and isinstance(x[0], str))
                        elif v[0] == "comp":
                            kept = self.mine.own(v[3]) is not False
                        else:
                            kept = self.mine.own(v) is not False or v[0] in ("new", "meth", "pcall", "cases", "gen", "phi")
                        if not kept:
                            self.bad("existing-removed", e, "existing children are replaced by others")
        for e in taken:
            if not any(b.seq > e.seq for b in back):
                self.bad("fonts-lost", e, "the fonts taken out here are never put back")

    def quietly(self, facts):
        if self.flagged(facts):
            self.rep.count("changes_under_unknown_conditions")
            return True
        return False

    def attribute(self, e, t, n, a, facts):
        rep = self.rep
        if n in ("get", "items", "keys", "values", "copy"):
            return
        rep.count("attribute_changes")
        if self.quietly(facts):
            return
        k = a[0] if a else NONE
        if self.font(facts, t) or any(self.font([canon(x) for x in self.w.elemfacts.get(y, [])], canon(y)) for y in self.w.elemfacts if canon(y) == t):
            if n in ("set", "pop") and k[0] == "const" and k[1] != "types":
                self.bad("existing-changed", e, "an attribute other than types of an existing font is changed")
            return
        if n in ("set", "setdefault") and (n == "setdefault" or self.absent(facts, t, k)):
            return
        if n == "update" and a and a[0][0] == "comp":
            kv, conds = self.w.pairs(a[0])
            if kv[0] == "tuple" and self.absent(facts + [canon(c) for c in conds], t, canon(kv[1][0])):
                return
        self.bad("existing-changed", e, "an attribute of an existing element is changed or removed")

    def recursion(self, e, facts):
        self.rep.count("recursions")
        args = {k: canon(v) for k, v in e.kws}
        o, t = args.get(self.ps[0]), args.get(self.thisp)
        if o is None or t is None or self.mine.own(t) is not True or self.theirs.own(o) is not True or t[0] not in ("elem", "item"):
            return
        if self.quietly(facts):
            return
        os = self.key(facts, t)
        if o not in os:
            self.bad("overlaid-on-another", e, "an element is overlaid with one of the other document that is not known to have its key")

    def addition(self, e, r, a, facts, back):
        rep = self.rep
        if self.mine.own(a) is not False and (self.mine.own(a) is True or any(self.mine.own(x) for x in flat(a))):
            back.append(e)
            return
        rep.count("additions")
        src = self.copied(a)
        if src is None:
            return
        if self.quietly(facts):
            return
        if self.font(facts, src):
            return
        # something has to say that r has no child with the key
        if any(self.missing(f, facts) for f in facts):
            return
        self.bad("added-unchecked", e, "an element of the other document is added although nothing says that one with its key is missing")

    def missing(self, f, facts):
        """the fact can only hold when a search for the key has failed"""
        k = f[0]
        if k == "or":
            return all(self.missing(x, facts) for x in f[1])
        if k == "and":
            return any(self.missing(x, facts) for x in f[1])
        if k == "cmp" and f[1] in ("==", "is") and f[3] == NONE and any(x == ("attr", f[2], "attrHash") for g in facts for x in sub(g)):
            return True
        if not any(x[0] == "attr" and x[2] == "attrHash" for x in sub(f)):
            return False
        if k == "cmp":
            if f[1] in ("==", "is"):
                return any(x[0] == "const" for x in (f[2], f[3]))
            return f[1] in ("!=", "not in", "is not")
        return True

    def copied(self, a):
        """what a new element is a copy of"""
        if a[0] == "pcall" and a[1] in self.copiers:
            return next((x for x in a[2] if self.theirs.own(x) is True), None)
        if a[0] == "call" and a[1] in ("copy.copy", "copy.deepcopy") and a[2]:
            return a[2][0] if self.theirs.own(a[2][0]) is True else None
        return a if self.theirs.own(a) is True else None


def run(prj, fold, rep):
    rep.rule("of everything reached from LdmlMerge.overlay that can change an element of the document itself: text is stored only where it is the inherit marker, attributes only "
             "where missing, elements are not removed and only added after looking for one with the same key, and the recursion pairs elements of equal key; the font list is excepted")
    f = prj.need("LdmlMerge", "overlay")
    d = Decide(prj, fold, rep, f, prj.cls("LdmlMerge"))
    d.run()
    rep.count("events", len(d.w.events))
    missing(prj, fold, rep)


def missing(prj, fold, rep):
    """the fonts of the list are narrowed and dropped by one reading of a font that names no types"""
    for f in prj.funcs:
        if f.cls is None or f.cls not in prj.cls("LdmlMerge").family():
            continue
        lists = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.For):
                pairs = [(n.target, n.iter, n)]
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
                pairs = [(g.target, g.iter, n) for g in n.generators]
            else:
                continue
            for t, i, where in pairs:
                if not (isinstance(t, ast.Name) and isinstance(i, ast.Name)):
                    continue
                for c in ast.walk(where):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "get" and len(c.args) == 2 and isinstance(c.func.value, ast.Name) \
                            and c.func.value.id == t.id and fold.value(c.args[0], f) == "types" and isinstance(fold.value(c.args[1], f), str):
                        lists.setdefault(i.id, {})[id(c)] = (fold.value(c.args[1], f), c)
        for name, reads in lists.items():
            vals = {v for v, c in reads.values()}
            rep.count("readings_of_types", len(reads))
            if len(vals) > 1:
                for v, c in reads.values():
                    if v == "":
                        rep.finding("fonts-lost", f, text(c), "a font that names no types counts as one of types %s elsewhere, but as one of no type at all here, where it is dropped"
                                    % " or ".join(repr(x) for x in sorted(vals - {""})), c)


_SRC = '''
class Ldml:
    silns = "urn://www.sil.org/ldml/0.1"
    def __init__(self, fname): self.root = fname
    def _copynode(self, n, parent=None): return n
class LdmlMerge(Ldml):
    def overlay(self, other, usedrafts=False, this=None):
        if this == None: this = self.root
        other = getattr(other, 'root', other)
        for o in other:
            if o.tag in self.blocks:
                continue
            if o.tag == '{'+self.silns+'}external-resources':
                self._overlay_external_resources(o, this, usedrafts)
            else:
                self._overlay_child(o, this, usedrafts)
    def _overlay_child(self, o, this, usedrafts):
        addme = True
        for t in filter(lambda x: x.attrHash == o.attrHash, this):
            addme = False
            if o.contentHash != t.contentHash:
                self.overlay(o, usedrafts=usedrafts, this=t)
                if t.text == "\u2191\u2191\u2191" and o.text != "":
                    t.text = o.text
            break
        if addme and (o.tag != "alias" or not len(this)):
            this.append(self._copynode(o, parent=this))
    def _overlay_external_resources(self, other, this, usedrafts):
        silfonttag = '{'+self.silns+'}font'
        fonts = []
        matches = [x for x in this if x.attrHash == other.attrHash]
        if not len(matches):
            this.append(self._copynode(other, parent=this))
            return
        this = matches[0]
        for t in list(this):
            if t.tag == silfonttag:
                fonts.append(t)
                this.remove(t)
        for o in other:
            if o.tag == silfonttag:
                types = o.get('types', '').split(' ')
                for t in types:
                    if t == 'default':
                        fonts = []
                        break
                    else:
                        for f in fonts:
                            tt = f.get('types', 'default').split(' ')
                            if t in tt:
                                f.set('types', " ".join(x for x in tt if x != t))
                        fonts = [x for x in fonts if x.get('types', 'default') != '']
                this.append(self._copynode(o, parent=this))
            else:
                self._overlay_child(o, this, usedrafts)
        for f in fonts:
            this.append(f)
'''


def _x(name, want, *edits):
    s = _SRC
    for a, b in edits:
        assert a in s, (name, a)
        s = s.replace(a, b)
    return (name, {"lib/sldr/ldml_merge.py": s}, want)


_C, _R, _F, _O, _A = "existing-changed", "existing-removed", "fonts-lost", "overlaid-on-another", "added-unchecked"
_T = 'if t.text == "\u2191\u2191\u2191" and o.text != "":'
EXAMPLES = [
    _x("as it should be", False),
    _x("empty text filled too", [_C], (_T, 'if not t.text or t.text == "\u2191\u2191\u2191":')),
    _x("text always", [_C], (_T, 'if o.text:')),
    _x("text under a negated marker", [_C], (_T, 'if t.text != "\u2191\u2191\u2191":')),
    _x("attributes taken over", [_C], ("= o.text\n            break\n", "= o.text\n            for k, v in o.items(): t.set(k, v)\n            break\n")),
    _x("missing attributes only", False, ("= o.text\n            break\n", "= o.text\n            for k, v in o.items():\n                if k not in t.attrib: t.set(k, v)\n            break\n")),
    _x("existing replaced", [_R, _A], ("                self.overlay(o, usedrafts=usedrafts, this=t)\n", "                this.remove(t)\n                this.append(self._copynode(o))\n")),
    _x("flag never cleared", [_A], ("            addme = False\n", "")),
    _x("aligned by tag", [_O, _C], ("filter(lambda x: x.attrHash == o.attrHash, this)", "filter(lambda x: x.tag == o.tag, this)"), (_T, "if True:")),
    _x("untyped dropped", [_F], ("if x.get('types', 'default') != ''", "if x.get('types', '') != ''")),
    _x("all children taken out", True, ("if t.tag == silfonttag:\n                fonts", "if t.tag != 'alias':\n                fonts")),
    _x("fonts not put back", [_F], ("        for f in fonts:\n            this.append(f)\n", "")),
    _x("engines narrowed as well", [_C], ("f.set('types', ", "f.set('engines', '')\n                                f.set('types', ")),
    _x("found by a helper", False, ("        addme = True\n", "        t = self._same(o, this)\n"),
       ("        for t in filter(lambda x: x.attrHash == o.attrHash, this):\n            addme = False\n            if o.", "        if t is not None:\n            if o."),
       ("            break\n        if addme and (", "        elif ("),
       ("    def _overlay_external", "    def _same(self, o, this):\n        for x in this:\n            if x.attrHash == o.attrHash: return x\n        return None\n    def _overlay_external")),
    _x("early return", False, ("            break\n        if addme and (", "            return\n        if (o.attrHash not in [x.attrHash for x in this]) and (")),
]
