"""P03: overlay and difference leave the other document alone, and take nothing of it over without copying."""
import ast
from ..flow import flow, show
from ..core import AnchorLost

TECHNIQUE = "interprocedural alias and effect analysis: no effect of overlay or difference on anything reachable from the other document, no store of any part of it into anything else"
NOTE = "Strings are immutable, so sharing them is fine; an object reached only through an unresolved call is not followed."

CONTENT = {"items", "attr:text", "attr:tail", "attr:tag", "attr:attrib", "attr:alternates", "attr:comments", "attr:commentsafter", "attr:parent", "attr:namespaces", "attr:default_draft"}
ENTRY = {"overlay", "difference"}


def run(prj, fold, rep):
    fl = flow(prj, fold)
    rep.rule("nothing reachable from the other document is changed, and nothing of it is stored elsewhere")
    found = []
    for f in prj.funcs:
        if f.cls is None or f.name not in ENTRY or f.module.is_script or len(f.params) < 2 or f.outer is not None and f.outer is not f.module.main:
            continue
        if not any(k.find("ensure_path") or k.find("_copynode") or k.name.startswith("Ldml") for k in f.cls.mro()):
            continue
        found.append(f)
    names = {f.name for f in found}
    for n in ENTRY - names:
        raise AnchorLost("no document method %s" % n)
    done = set()
    for f in found:
        s = fl.sum[f]
        other = f.params[1]
        rep.site("%s:%s %s" % (f.module.path, f.node.lineno, f.qual))
        rep.count("entry_points")
        reach, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g in reach:
                continue
            reach.add(g)
            todo += fl.calls.get(g, ())
        rep.count("functions_reached", len(reach))
        for (t, kind), (g, node) in s.mut.items():
            rep.count("effects")
            if t[0] == "p" and t[1] == other and kind in CONTENT and (g, node, kind) not in done:
                done.add((g, node, kind))
                rep.finding("effect", g, show(t), "%s of the other document given to %s is changed" % (show(t), f.qual), node)
        for (t, fld, x), (g, node) in s.sto.items():
            rep.count("stores")
            if x[0] == "p" and x[1] == other and not (t[0] == "p" and t[1] == other) and fld not in ("document", "?") and (g, node, fld) not in done:
                done.add((g, node, fld))
                rep.finding("share", g, show(x), "%s of the other document becomes part of %s without being copied" % (show(x), show(t)), node)
        for (t, ps), (g, node) in s.adopt.items():
            rep.count("adopted_nodes")
            if not (t[0] == "p" and t[1] == other) and all(p[0] == "p" and p[1] == other for p in ps) and (g, node, "parent") not in done:
                done.add((g, node, "parent"))
                rep.finding("parent", g, show(t), "an element added to %s still names %s of the other document as its parent, so removing or promoting it changes that document" % (show(t), show(sorted(ps)[0])), node)


DOC = """class Node(list):
    def makeelement(self, tag, attrib):
        return Node()
class Ldml:
    def _copynode(self, n, parent=None):
        res = n.makeelement(n.tag, n.attrib)
        res.text = n.text
        for a in ('contentHash', 'parent', 'document'):
            if hasattr(n, a):
                setattr(res, a, getattr(n, a, None))
        for a in ('comments',):
            if hasattr(n, a):
                setattr(res, a, list(getattr(n, a)))
        if parent is not None:
            res.parent = parent
        for c in n:
            res.append(self._copynode(c, parent=res))
        if hasattr(n, 'alternates'):
            res.alternates = {k: self._copynode(v, parent=getattr(res, 'parent', None)) for k, v in n.alternates.items()}
        return res
"""
MERGE = """    def difference(self, other, this=None):
        if this is None: this = self.root
        other = getattr(other, 'root', other)
        for o in other:
            for t in list(this):
                if o.contentHash == t.contentHash:
                    this.remove(t)
                    break
        return not len(this)
    def overlay(self, other, this=None):
        if this is None: this = self.root
        other = getattr(other, 'root', other)
        for o in other:
            for t in this:
                if t.attrHash == o.attrHash:
                    self.overlay(o, this=t)
                    if t.text == "x":
                        t.text = o.text
                    break
            else:
                this.append(self._copynode(o, parent=this))
"""
EXAMPLES = [
 ("copied", {"lib/sldr/ldml.py": DOC + MERGE}, False),
 ("not copied", {"lib/sldr/ldml.py": DOC + MERGE.replace("self._copynode(o, parent=this)", "o")}, ["share"]),
 ("parent left", {"lib/sldr/ldml.py": DOC + MERGE.replace("self._copynode(o, parent=this)", "self._copynode(o)")}, ["parent"]),
 ("comments shared", {"lib/sldr/ldml.py": DOC.replace("list(getattr(n, a))", "getattr(n, a)") + MERGE}, ["share"]),
 ("alternates shared", {"lib/sldr/ldml.py": DOC.replace("{k: self._copynode(v, parent=getattr(res, 'parent', None)) for k, v in n.alternates.items()}", "dict(n.alternates)") + MERGE}, ["share"]),
 ("children shared", {"lib/sldr/ldml.py": DOC.replace("res.append(self._copynode(c, parent=res))", "res.append(c)") + MERGE}, ["share"]),
 ("other pruned", {"lib/sldr/ldml.py": DOC + MERGE.replace("                    this.remove(t)\n", "                    this.remove(t)\n                    other.remove(o)\n")}, ["effect"]),
 ("other's attributes", {"lib/sldr/ldml.py": DOC + MERGE.replace("        for o in other:\n            for t in this", "        for o in other:\n            o.attrib.pop('draft', None)\n            for t in this")}, ["effect"]),
 ("other's text by a helper", {"lib/sldr/ldml.py": DOC + "    def trim(self, n):\n        n.text = n.text.strip()\n" + MERGE.replace("        for o in other:\n            for t in this", "        for o in other:\n            self.trim(o)\n            for t in this")}, ["effect"]),
 ("through a list", {"lib/sldr/ldml.py": DOC + MERGE.replace("this.append(self._copynode(o, parent=this))", "new = [x for x in other]\n                this.extend(new)")}, ["share"]),
 ("snapshot of other", {"lib/sldr/ldml.py": DOC + MERGE.replace("        for o in other:\n            for t in this", "        kids = list(other)\n        kids.sort(key=lambda x: x.tag)\n        for o in kids:\n            for t in this")}, False),
]
