"""P05: removing another document's content takes out only what the other document has too."""
from ..core import text
from ..terms import Walk, sub, show, facts_of, negate, implies, truth, FALSE, NONE, atoms
from ..tree import Side, canon, flat, unclear, strip, fresh_list

TECHNIQUE = "dominating conditions: every removal reached from difference must be under a comparison of content fingerprints with the other document, or a recursion that implies it"
NOTE = ("Trusted: equal fingerprints mean equal content (P17). Conditions kept in flags or unknown calls are taken as sufficient. "
        "Elements with the same key and all children equal are taken out although their other attributes may differ, as the statement says.")
LOSSY = {"lower", "upper", "casefold", "title", "capitalize", "swapcase", "isspace", "count", "find", "startswith", "endswith", "split", "partition"}


class Decide:
    def __init__(self, prj, fold, rep, f, cls):
        self.prj, self.rep, self.f = prj, rep, f
        self.me = f.module.name + ":" + f.qual
        copies = [g for c in cls.mro() for g in c.methods.values() if g.name in ("_copynode", "flatten_collation", "serialize_xml", "normalise", "_calc_hashes")]
        self.w = w = Walk(prj, fold, keep=copies)
        ps = f.params[1:]
        w.root(f, cls)
        this = [("attr", ("self",), "root")] + [("param", p) for p in ps[1:]]
        self.mine = Side(this)
        self.theirs = Side([("param", ps[0])])

    # ---- what a condition says
    def hashes(self, a, name):
        """(element of this document, element of the other) of a comparison of two fingerprints"""
        if a[0] == "cmp" and a[1] == "==":
            l, r = canon(a[2]), canon(a[3])
            for x, y in ((l, r), (r, l)):
                if x[0] == "attr" and y[0] == "attr" and x[2] == y[2] == name and self.mine.own(x[1]) is not False and self.theirs.own(y[1]) is not False:
                    return x[1], y[1]
        return None

    def recursion(self, a):
        if a[0] == "pcall" and a[1] == self.me:
            args = dict(zip(a[3], a[2]))
            ps = self.f.params[1:]
            if len(ps) >= 2 and ps[0] in args and ps[1] in args:
                return args[ps[1]], args[ps[0]]
        return None

    def same_content(self, facts, t):
        def pred(a):
            p = self.hashes(a, "contentHash")
            if p is not None and p[0] == t:
                return True
            p = self.recursion(a)
            if p is not None and p[0] == t:
                o = p[1]
                return self.theirs.own(o) is not False and implies(facts, lambda b: (self.hashes(b, "attrHash") or ())[:1] == (t,) and self.hashes(b, "attrHash")[1] == o)
            return False
        return implies(facts, pred)

    def empty(self, facts, t):
        def pred(a):
            return a == ("not", t) or a[0] == "cmp" and a[1] == "==" and a[3] == ("const", 0) and a[2][0] == "call" and a[2][1] == "len" \
                and strip(a[2][2][0]) == t
        return implies(facts, pred)

    def text_gone(self, facts, t):
        def pred(a):
            if a[0] == "not" and canon(a[1]) == ("attr", t, "text"):
                return True
            if a[0] == "cmp" and a[1] in ("==", "is") and canon(a[2]) == ("attr", t, "text") and a[3][0] == "const" and not a[3][1]:
                return True
            if a[0] == "cmp" and a[1] == "==":
                for x, y in ((a[2], a[3]), (a[3], a[2])):
                    if any(canon(s) == ("attr", t, "text") for s in sub(x)) \
                            and any(s[0] == "attr" and s[2] == "text" and self.theirs.own(s[1]) is not False for s in sub(canon(y))):
                        return not any(s[0] == "meth" and s[2] in LOSSY or s[0] in ("slice", "item") or s[0] == "call" and s[1] == "len"
                                       for z in (x, y) for s in sub(z))
            return False
        return implies(facts, pred)

    def no_alternates(self, facts, t):
        al = ("attr", t, "alternates")

        def pred(a):
            a = canon(a)
            return a[0] == "not" and (a[1] == al or a[1][0] == "call" and a[1][1] == "hasattr" and a[1][2] == (t, ("const", "alternates"))) \
                or a[0] == "cmp" and a[1] == "==" and (a[3] == ("const", 0) and a[2][0] == "call" and a[2][1] == "len" and strip(a[2][2][0]) == al
                                                       or a[2] == al and a[3][0] in ("new", "dict"))
        return implies(facts, pred)

    # ---- obligations
    def removal(self, t, facts, e, how):
        self.rep.count("removals")
        for x in flat(t):
            if self.mine.own(x) is not True and self.mine.own(t) is not True:
                continue
            if unclear(facts, known=(self.me,)):
                self.rep.count("removals_under_unknown_conditions")
                continue
            same = [t] + [b for f in facts if f[0] == "cmp" and f[1] in ("is", "==") for a, b in ((f[2], f[3]), (f[3], f[2])) if a == t and self.mine.own(b)]
            if any(self.same_content(facts, y) and self.no_alternates(facts, y) for y in same):
                return
            if not self.same_content(facts, t):
                self.rep.finding("removed-without-equal-content", e.func, text(e.node),
                                 "%s takes an element out although nothing says the other document has one with the same key and content" % how, e.node)
            elif not self.no_alternates(facts, t):
                self.rep.finding("alternates-removed", e.func, text(e.node),
                                 "%s takes an element out with alternates that were not compared with the other document's" % how, e.node)
            return

    def alternate(self, al, key, facts, e):
        self.rep.count("removals_of_alternates")
        if unclear(facts, known=(self.me,)):
            self.rep.count("removals_under_unknown_conditions")
            return
        t = al[1]

        def pred(a):
            p = self.hashes(a, "contentHash")
            if p is None:
                return False
            x, y = p
            return x == ("item", al, key) and y[0] == "item" and y[2] == key and y[1][0] == "attr" and y[1][2] == "alternates"
        if not implies(facts, pred):
            self.rep.finding("removed-without-equal-content", e.func, text(e.node),
                             "an alternate is taken out although nothing says the other document has it with the same content", e.node)
        elif not self.same_content(facts, t) and not implies(facts, lambda a: (self.hashes(a, "attrHash") or (None,))[0] == t):
            self.rep.finding("removed-without-equal-content", e.func, text(e.node),
                             "an alternate is taken out although its element was not found to have the key of the other document's", e.node)

    def kept(self, comp, facts, e, what):
        """a filtered copy stored in the place of the original: what is left out"""
        e2, conds = self.w.pairs(comp)
        out = facts + facts_of(negate(("and", tuple(conds)) if conds else ("const", True)))
        return e2, out, bool(conds)

    def run(self):
        rep, w = self.rep, self.w
        for e in w.events:
            facts = w.known(e)
            if e.kind == "call" and isinstance(e.name, str) and e.recv[0] != "builtin":
                r, n, a = canon(e.recv), e.name, e.args
                if r[0] == "attr" and r[2] == "alternates" and self.mine.own(r[1]):
                    if n == "pop" and a:
                        self.alternate(r, canon(a[0]), facts, e)
                    elif n in ("clear", "popitem", "update", "setdefault"):
                        rep.finding("document-altered", e.func, text(e.node), "the alternates are changed other than by taking out equal ones", e.node)
                    continue
                if r[0] == "attr" and r[2] == "attrib" and self.mine.own(r[1]) and n in ("pop", "clear", "update", "setdefault", "popitem"):
                    rep.finding("document-altered", e.func, text(e.node), "attributes are changed while content is removed", e.node)
                    continue
                if self.mine.own(r) is not True or fresh_list(r):
                    continue
                if n == "remove" and a:
                    self.removal(canon(a[0]), facts, e, "this removal")
                elif n in ("append", "insert", "extend", "set", "clear", "pop"):
                    rep.finding("document-altered", e.func, text(e.node), "%s() changes the document otherwise than by taking out an equal element" % n, e.node)
            elif e.kind == "store":
                r = canon(e.recv)
                if self.mine.own(r) is True and e.name in ("text", "tag", "attrib"):
                    rep.finding("document-altered", e.func, text(e.node), "the element's %s is changed while content is removed" % e.name, e.node)
                elif self.mine.own(r) is True and e.name == "alternates":
                    v = e.value
                    if v[0] == "comp" and v[1] == "dict" and len(v[2]) == 1:
                        kv, out, some = self.kept(v, facts, e, "alternates")
                        if some and kv[0] == "tuple":
                            self.alternate(("attr", r, "alternates"), canon(kv[1][0]), out, e)
                    elif v[0] in ("new", "dict"):
                        rep.finding("removed-without-equal-content", e.func, text(e.node), "all alternates are taken out at once", e.node)
            elif e.kind in ("setitem", "delitem"):
                r = canon(e.recv)
                if r[0] == "attr" and r[2] == "alternates" and self.mine.own(r[1]) is True:
                    if e.kind == "delitem":
                        self.alternate(r, canon(e.name), facts, e)
                    else:
                        rep.finding("document-altered", e.func, text(e.node), "an alternate is replaced while content is removed", e.node)
                elif r[0] == "attr" and r[2] == "attrib" and self.mine.own(r[1]) is True:
                    rep.finding("document-altered", e.func, text(e.node), "attributes are changed while content is removed", e.node)
                elif self.mine.own(r) is True:
                    if e.kind == "delitem":
                        if e.name[0] == "range" and e.name[1:] == (NONE, NONE, NONE):
                            rep.finding("removed-without-equal-content", e.func, text(e.node), "all children are taken out at once", e.node)
                        else:
                            self.removal(("item", r, canon(e.name)), facts, e, "this deletion") if e.name[0] == "const" else rep.count("removals_under_unknown_conditions")
                    elif e.value[0] == "comp" and len(e.value[2]) == 1:
                        x, out, some = self.kept(e.value, facts, e, "children")
                        if some:
                            self.removal(canon(x), out, e, "this selection")
                    elif e.value[0] in ("new", "list", "tuple") and not (e.value[0] == "new" and self.w.contents.get(e.value)):
                        rep.finding("removed-without-equal-content", e.func, text(e.node), "all children are replaced at once", e.node)
        # what a true result stands for: the caller takes the whole element out on it
        if any(e.kind == "pcall" and e.name == self.me for e in w.events):
            tops = {canon(v) for e in w.events for v in [e.recv] if e.kind == "loop" and v is not None and self.mine.own(strip(canon(v))) is True
                    and strip(canon(v))[0] != "elem"}
            this = None
            for t in list(tops) + [x for fs, v, _ in w.returns for x in sub(v)] + [x for fs, v, _ in w.returns for f in fs for x in sub(f)]:
                t = strip(canon(t))
                if t[0] in ("phi", "param", "if", "or") and self.mine.own(t) is True:
                    this = t
                    break
            for fs, v, node in w.returns:
                if this is None:
                    break
                c = truth(v)
                if c == FALSE:
                    continue
                rep.count("results")
                facts = [canon(x) for x in list(fs) + facts_of(c) if x[0] != "stored"]
                if unclear(facts, known=(self.me,)):
                    rep.count("results_under_unknown_conditions")
                    continue
                if self.same_top(facts, this):
                    continue
                if not self.empty(facts, this):
                    rep.finding("equal-without-comparison", self.f, text(node), "an element counts as equal without its content having been compared or taken out", node)
                elif not self.text_gone(facts, this):
                    rep.finding("equal-without-comparison", self.f, text(node), "an element counts as equal although its own text was not compared", node)

    def same_top(self, facts, this):
        return implies(facts, lambda a: (self.hashes(a, "contentHash") or (None,))[0] == this)


def run(prj, fold, rep):
    rep.rule("every removal reached from LdmlMerge.difference is dominated by a content fingerprint comparison of that element (or alternate) with the other "
             "document's, or by the recursion plus a key comparison; a true result implies equal content, or no children left and no differing text; nothing else changes the document")
    f = prj.need("LdmlMerge", "difference")
    cls = prj.cls("LdmlMerge")
    d = Decide(prj, fold, rep, f, cls)
    d.run()
    rep.count("events", len(d.w.events))


_SRC = '''
class Ldml:
    def __init__(self, fname): self.root = fname
    def _copynode(self, n, parent=None): return n
class LdmlMerge(Ldml):
    def difference(self, other, this=None):
        if this == None: this = self.root
        other = getattr(other, 'root', other)
        if (not len(other) and not len(this)) or this.tag in self.blocks:
            return (other.contentHash == this.contentHash)
        for o in other:
            for t in filter(lambda x: x.attrHash == o.attrHash, this):
                if o.contentHash == t.contentHash or self.difference(o, this=t):
                    talts = getattr(t, 'alternates', {})
                    for (k, v) in getattr(o, 'alternates', {}).items():
                        if k in talts and v.contentHash == talts[k].contentHash:
                            del talts[k]
                    if len(talts) == 0:
                        this.remove(t)
                break
        return not len(this) and (not this.text or this.text == other.text)
'''


def _x(name, want, *edits):
    s = _SRC
    for a, b in edits:
        assert a in s, (name, a)
        s = s.replace(a, b)
    return (name, {"lib/sldr/ldml_merge.py": s}, want)


_R, _E, _A, _D = "removed-without-equal-content", "equal-without-comparison", "alternates-removed", "document-altered"
_IF = "if o.contentHash == t.contentHash or self.difference(o, this=t):"
EXAMPLES = [
    _x("as it should be", False),
    _x("any element with the key", [_R], (_IF, "if True:")),
    _x("recursion not waited for", [_R], (_IF, "if o.contentHash != t.contentHash or self.difference(o, this=t):")),
    _x("key instead of content", [_R], ("o.contentHash == t.contentHash or", "o.attrHash == t.attrHash or")),
    _x("aligned by tag", [_R, _R], ("x.attrHash == o.attrHash", "x.tag == o.tag")),
    _x("first child removed", [_R], ("this.remove(t)", "this.remove(this[0])")),
    _x("alternate by key only", [_R], ("if k in talts and v.contentHash == talts[k].contentHash", "if k in talts")),
    _x("alternates dropped", [_A], ("                    if len(talts) == 0:\n                        this.remove(t)", "                    this.remove(t)")),
    _x("text forgotten", [_E], ("not len(this) and (not this.text or this.text == other.text)", "not len(this)")),
    _x("texts compared roughly", [_E], ("this.text == other.text", "this.text.lower() == other.text.lower()")),
    _x("leaves always equal", [_E], ("return (other.contentHash == this.contentHash)", "return True")),
    _x("leaves by key", [_E], ("return (other.contentHash == this.contentHash)", "return (other.attrHash == this.attrHash)")),
    _x("text blanked", [_D], ("                break", "                t.text = ''\n                break")),
    _x("draft set", [_D], ("                break", "                t.set('draft', 'x')\n                break")),
    _x("by helper", False, (_IF, "if self._eq(o, t):"),
       ("        return not len(this) and (not this.text or this.text == other.text)", "        return not len(this) and (not this.text or this.text == other.text)\n"
        "    def _eq(self, o, t):\n        if o.contentHash == t.contentHash:\n            return True\n        return self.difference(o, this=t)\n")),
    _x("helper removes", False, ("                    talts = getattr(t, 'alternates', {})\n                    for (k, v) in getattr(o, 'alternates', {}).items():\n"
                                 "                        if k in talts and v.contentHash == talts[k].contentHash:\n                            del talts[k]\n"
                                 "                    if len(talts) == 0:\n                        this.remove(t)\n", "                    self._strip(o, t, this)\n"),
       ("        return not len(this) and (not this.text or this.text == other.text)", "        return not len(this) and (not this.text or this.text == other.text)\n"
        "    def _strip(self, o, t, this):\n        alts = getattr(t, 'alternates', None) or {}\n        for k in list(alts):\n            oa = getattr(o, 'alternates', {})\n"
        "            if k in oa and alts[k].contentHash == oa[k].contentHash:\n                alts.pop(k)\n        if alts:\n            return\n        this.remove(t)\n")),
    _x("by index", False, ("            for t in filter(lambda x: x.attrHash == o.attrHash, this):\n", "            for t in [x for x in this if x.attrHash == o.attrHash][:1]:\n")),
    _x("inverted", False, (_IF + "\n", "if o.contentHash != t.contentHash and not self.difference(o, this=t):\n                    break\n                if True:\n")),
    _x("named condition", False, (_IF, "same = o.contentHash == t.contentHash or self.difference(o, this=t)\n                if same:")),
    _x("first match", False, ("            for t in filter(lambda x: x.attrHash == o.attrHash, this):\n", "            for t in [next((x for x in this if x.attrHash == o.attrHash), None)]:\n                if t is None: continue\n")),
]
