"""P18: canonical order of children and attributes."""
import ast
import itertools
from ..core import text, AnchorLost
from ..terms import Walk, State, Frame, sub, show, truth, conj, facts_of, implies, atoms, const, NONE, TRUE, FALSE, has
from ..tree import canon, flat, strip

TECHNIQUE = ("what the sort keys are made of: the key functions of the sorts that give the order of children and of attributes are applied to a symbolic child, and the components of the key, their order, "
             "the conditions they are under and the sources they draw on are compared with the schema order, tag, and sorted attribute names and values; recursion and storing of the result are checked as effects")
NOTE = ("Two children with the same tag and attributes (case aside) stay in document order. Order given by comparison functions (cmp_to_key) or several stable sorts in turn is not examined.")
OUTSIDE = {"id", "hash", "random.random", "random.randint", "random.choice", "random.shuffle", "time.time", "object", "repr"}
CASE = {"lower", "casefold", "upper"}
ELEMENT = {"text", "tail", "contentHash", "attrHash", "comments", "commentsafter", "parent", "document", "line", "alternates"}


class Part:
    def __init__(self, term, facts, each):
        self.term, self.facts, self.each = term, facts, each      # each: the iterable it is repeated for, or None


class Unknown(Exception):
    pass


class Decide:
    def __init__(self, prj, fold, rep, f, cls):
        self.prj, self.fold, self.rep, self.f, self.cls = prj, fold, rep, f, cls
        self.B = ("param", f.params[1]) if len(f.params) > 1 else ("attr", ("self",), "root")
        self.alts = {self.B, ("attr", ("self",), "root"), NONE}
        self.done = set()

    def bad(self, rule, node, msg, func=None):
        key = (rule, text(node) if not isinstance(node, str) else node, msg)
        if key in self.done:
            return
        self.done.add(key)
        self.rep.finding(rule, func or self.f, key[1], msg, None if isinstance(node, str) else node)

    def norm(self, t):
        """one name for the element being normalised"""
        if not isinstance(t, tuple) or not t:
            return frozenset(self.norm(x) for x in t) if isinstance(t, frozenset) else t
        if t[0] in ("phi", "if", "cases", "or") and all(x in self.alts for x in flat(t)):
            return self.B
        r = tuple(self.norm(x) if isinstance(x, (tuple, frozenset)) else x for x in t)
        if r[0] == "phi":
            xs = [x for x in r[1] if x != r]
            if len(set(xs)) == 1:
                return xs[0]
        return r

    # ---- children ---------------------------------------------------------------------------------------------------
    def ofchildren(self, t):
        """the iterable (or list) t goes through all children of the element; 'some' when through part of them"""
        r = "all"
        while True:
            if t in (self.B,):
                return r
            if t[0] == "call" and t[2] and t[1] in ("list", "tuple", "iter", "reversed", "enumerate", "sorted"):
                t = t[2][0]
            elif t[0] == "call" and t[1] == "filter" and len(t[2]) == 2:
                r, t = "some", t[2][1]
            elif t[0] == "slice":
                r, t = (r if t[2][0] == "range" and all(y == NONE for y in t[2][1:3]) else "some"), t[1]
            elif t[0] == "comp" and len(t[2]) == 1:
                if t[4]:
                    r = "some"
                t = t[2][0][0]
            elif t[0] == "meth" and t[2] in ("findall", "iterfind") and t[3] and t[3][0] in (const("*"), const("./*")):
                t = t[1]
            elif t[0] == "meth" and t[2] in ("findall", "iterfind"):
                r, t = "some", t[1]
            elif t[0] == "meth" and t[2] in ("iter", "getiterator") and not t[3]:
                return "deep" if has(t[1], self.B) else None
            else:
                return None

    def run(self):
        rep = self.rep
        w = self.w = Walk(self.prj, self.fold)
        w.root(self.f, self.cls)
        es = w.events
        sorts = []
        for e in es:
            if e.kind != "call":
                continue
            if e.name == "sorted" and e.recv == ("builtin", "sorted") and e.args:
                s = self.norm(e.args[0])
            elif e.name == "sort" and e.recv and e.recv[0] != "builtin":
                s = self.norm(e.recv)
            else:
                continue
            # also lists of (key, ..., child)
            how = self.ofchildren(s)
            if how is None and any(x[0] == "elem" and self.ofchildren(x[1]) in ("all", "some") for x in [s[3]] if s[0] == "comp"):
                how = "all"
            if how is not None:
                sorts.append((e, s, how))
        rep.count("sorts_of_children", len(sorts))
        if not sorts:
            if not any(e.kind == "call" and e.name in ("sort", "sorted", "heappush", "insort", "bisect", "heapq.merge") or e.kind == "pcall" and e.name.rsplit(".", 1)[-1] != self.f.name
                       and any(self.norm(a) == self.B for a in e.args) for e in es):
                self.bad("not-sorted", self.f.name, "the children of an element are not put in order")
            return
        stored = False
        for e, s, how in sorts:
            v = self.norm(e.value) if e.name == "sorted" else s
            into = [x for x in es if x.seq > e.seq and (x.kind == "setitem" and self.norm(x.recv) == self.B
                                                        or x.kind == "call" and self.norm(x.recv) == self.B and x.name in ("extend", "append", "insert", "__setitem__")
                                                        or x.kind == "pcall") and
                    any(v == y for t in [x.value, *(x.args or ()), *(l[2] for l in x.loops)] if isinstance(t, tuple) for y in sub(self.norm(t)))]
            if not into and v[0] not in ("new", "opaque", "phi", "loopvar", "comp"):
                continue
            stored = True
            for x in [e] + into[:1]:
                for fct in x.facts:
                    g = self.norm(canon(fct))
                    if self.clear(g) and not self.trivial(g):
                        self.bad("not-everywhere", x.node, "children are put in order only where %s" % show(g), x.func)
            if how == "some":
                self.bad("not-everywhere", e.node, "only some of the children are put in order", e.func)
            for x in into[:1]:
                if x.kind == "setitem" and x.name and x.name[0] == "range" and any(y != NONE for y in x.name[1:]):
                    self.bad("not-stored", x.node, "the children in order replace only a part of the children", x.func)
                src = next((y for t in [x.value, *(x.args or ())] if isinstance(t, tuple) for y in sub(self.norm(t)) if y[0] == "call" and y[1] == "reversed" and v in sub(y)), None)
                if src is not None:
                    self.bad("reversed", x.node, "the children are stored in the opposite order", x.func)
        if not stored:
            self.bad("not-stored", sorts[0][0].node, "the children in order are not stored back into the element", sorts[0][0].func)
            return
        deep = any(how == "deep" for _, _, how in sorts)
        if not deep:
            self.recursion()
        for e, s, how in sorts:
            self.sortkey(e, s)

    def clear(self, f):
        return not any(x[0] in ("stored", "none", "opaque", "loopvar", "gen", "lambda", "method", "pcall", "obj", "new", "default") for x in sub(f))

    def trivial(self, f):
        f = truth(f)
        n = ("call", "len", (self.B,), ())
        if f == self.B or f[0] == "cmp" and f[1] in ("is not", "!=") and f[3] == NONE and f[2] in self.alts:
            return True
        if f[0] == "cmp" and f[2][0] == "call" and f[2][1] == "len" and strip(f[2][2][0]) == self.B and f[3][0] == "const" and isinstance(f[3][1], int):
            return (f[1], f[3][1]) in ((">", 0), (">", 1), (">=", 1), (">=", 2), ("!=", 0), ("!=", 1))
        if f[0] == "call" and f[1] in ("hasattr", "isinstance", "callable"):
            return True
        if f[0] == "or":
            return any(self.trivial(x) for x in f[1])
        if f[0] == "and":
            return all(self.trivial(x) for x in f[1])
        return not any(x == self.B or x[0] == "param" for x in sub(f)) and not any(x == ("self",) for x in sub(f))

    def recursion(self):
        me = "%s:%s" % (self.f.module.name, self.f.qual)
        calls = [e for e in self.w.events if e.kind == "pcall" and e.name == me]
        self.rep.count("recursive_calls", len(calls))
        good = []
        why = None
        for e in calls:
            for t in e.args:
                t = self.norm(t)
                if t[0] == "elem":
                    how = self.ofchildren(t[1])
                    if how is None:
                        continue
                    if any(l[2] is not None and self.ofchildren(self.norm(canon(l[2]))) == "some" for l in e.loops):
                        how = "some"
                    lim = [g for g in (self.norm(canon(x)) for x in list(e.facts) + [y for u in (t[2],) for y in self.w.elemfacts.get(t, ())]) if self.clear(g) and not self.trivial(g)
                           and not (g[0] == "cmp" and g[1] in (">", ">=", "!=") and g[2][0] == "call" and g[2][1] == "len" and g[2][2][0] == t and g[3][0] == "const"
                                    and (g[1], g[3][1]) in ((">", 0), (">=", 1), ("!=", 0)))]
                    if how == "some":
                        why = why or (e, "only for some of its children")
                    elif lim:
                        why = why or (e, "only for children where %s" % show(lim[0]))
                    else:
                        good.append(e)
        for e in good:
            for x in self.w.events:
                if x.kind in ("break", "return") and x.loops and e.loops and x.loops[-1] == e.loops[-1] and x.func is e.func:
                    g = [y for y in (self.norm(canon(z)) for z in x.facts)]
                    if all(self.clear(y) for y in g):
                        self.bad("not-everywhere", x.node, "the loop that goes down into the children is left early", x.func)
        if good:
            return
        if why is not None:
            self.bad("not-everywhere", why[0].node, "the order is applied further down " + why[1], why[0].func)
        elif not calls and not any(e.kind == "pcall" or e.kind == "call" and e.value and e.value[0] == "meth" and e.value[1][0] in ("opaque",) for e in self.w.events
                                   if any(x[0] == "elem" for a in e.args or () for x in sub(a))):
            self.bad("not-everywhere", self.f.name, "only the children of the element itself are put in order, not those further down")

    # ---- keys -------------------------------------------------------------------------------------------------------
    def kws(self, e):
        return dict((k, v) for k, v in (e.kws or ()) if k)

    def call(self, w, fn, args, func, cls):
        """value of calling fn, with the events of the call"""
        n = len(w.events)
        w.stack.append(Frame(func, ("self",), cls))
        w.budget = max(w.budget, 20000)
        st = State({}, [])
        v = w.apply(fn, args, (), st, None)
        w.stack.pop()
        return v, w.events[n:]

    def sortkey(self, e, s):
        w = self.w
        kw = self.kws(e)
        if kw.get("reverse") == TRUE:
            self.bad("reversed", e.node, "the children are put in the opposite order", e.func)
        X = ("param", "<child>")
        key = kw.get("key")
        if s[0] == "comp" and s[3][0] == "tuple" and s[3][1]:
            # (key, child) pairs
            k = s[3][1][0]
            x = next((y for y in s[3][1][1:] if y[0] == "elem"), None)
            if x is None or key is not None and key != NONE and not (key[0] in ("obj", "meth") or key[0] == "call" and key[1] == "operator.itemgetter"):
                return
            self.child = x
            self.components(k, [ev for ev in w.events if ev.seq < e.seq], e)
            return
        if key is None or key == NONE:
            self.bad("no-key", e.node, "the children are sorted without a key", e.func)
            return
        if key[0] not in ("lambda", "fn", "method"):
            return
        self.child = X
        v, evs = self.call(w, key, (X,), e.func, self.cls)
        self.components(v, evs, e)

    def parts(self, t, evs, facts=(), depth=0):
        """the components of a key, in order"""
        if depth > 12:
            raise Unknown
        k = t[0]
        if k in ("tuple", "list"):
            r = []
            for x in t[1]:
                if x[0] == "star":
                    r += self.parts(x[1], evs, facts, depth + 1)
                elif x[0] in ("tuple", "list", "comp") or x[0] == "call" and x[1] in ("tuple", "list"):
                    r += self.parts(x, evs, facts, depth + 1)
                else:
                    r.append(Part(x, facts, None))
            return r + self.added(t, [], [t], evs, facts, depth) if k == "list" and depth < 6 else r
        if k == "bin" and t[1] == "Add":
            return self.parts(t[2], evs, facts, depth + 1) + self.parts(t[3], evs, facts, depth + 1)
        if k == "call" and t[1] in ("tuple", "list", "iter") and len(t[2]) == 1:
            return self.parts(t[2][0], evs, facts, depth + 1)
        if k == "call" and t[1] in ("itertools.chain",):
            return [p for x in t[2] for p in self.parts(x, evs, facts, depth + 1)]
        if k == "call" and t[1] == "itertools.chain.from_iterable" and len(t[2]) == 1:
            return self.parts(t[2][0], evs, facts, depth + 1)
        if k == "comp":
            it = [x[0] for x in t[2]]
            inner = self.pieces(t[3], evs, depth)
            return [Part(x, tuple(facts) + tuple(fs) + tuple(t[4]), p) for p in [it[0]] for fs, x in inner]
        if k in ("phi", "new", "loopvar"):
            members = [x for x in (t[1] if k == "phi" else [t]) if x[0] != "loopvar"]
            lv = [x for x in (t[1] if k == "phi" else [t]) if x[0] == "loopvar"]
            r = []
            for m in members[:1]:
                if m[0] != "new":
                    r += self.parts(m, evs, facts, depth + 1)
            if len(members) > 1:
                raise Unknown
            r += self.added(t, lv, members, evs, facts, depth, bool(members) and members[0][0] == "list")
            if not r:
                raise Unknown
            return r
        raise Unknown

    def added(self, t, lv, members, evs, facts, depth, had=False):
        """what is put at the end of a list later on"""
        r = []
        for e in evs:
            recv = self.norm(canon(e.recv)) if e.recv is not None else None
            mine = recv is not None and (recv == t or lv and any(x in lv for x in flat(recv)) or members and recv == members[0])
            if not mine or had and recv == members[0]:
                continue
            value, args = self.norm(canon(e.value)) if e.value is not None else None, [self.norm(canon(a)) for a in e.args or ()]
            each = next((self.norm(canon(l[2])) for l in reversed(e.loops) if l[2] is not None), None) if e.loops else None
            fs = tuple(facts) + tuple(self.w.known(e))
            if e.kind == "aug":
                vs = [(f2, x) for f2, x in self.pieces(value, evs, depth)]
            elif e.kind == "call" and e.name == "extend" and args:
                a = args[0]
                if a[0] == "comp":
                    r += self.parts(a, evs, fs, depth + 1)
                    continue
                vs = [(f2, x) for f2, x in self.pieces(a, evs, depth)]
            elif e.kind == "call" and e.name == "append" and args:
                vs = [(f2, x) for f2, x in self.pieces(args[0], evs, depth)]
            elif e.kind in ("call", "setitem", "delitem") and e.name in ("insert", "sort", "reverse", "pop", "remove", "clear") or e.kind in ("setitem", "delitem"):
                raise Unknown
            else:
                continue
            r += [Part(x, fs + tuple(f2), each) for f2, x in vs]
        return r

    def pieces(self, t, evs, depth):
        """[(facts, term)] for a value added to a list: tuples come apart"""
        if t[0] in ("tuple", "list"):
            r = []
            for x in t[1]:
                r += self.pieces(x[1] if x[0] == "star" else x, evs, depth)
            return r
        if t[0] == "if":
            return [((t[1],) + f, x) for f, x in self.pieces(t[2], evs, depth)] + [((("not", t[1]),) + f, x) for f, x in self.pieces(t[3], evs, depth)]
        if t[0] == "cases":
            return [((c,) + f, x) for c, v in t[1] for f, x in self.pieces(v, evs, depth)]
        if t[0] == "comp" or t[0] == "call" and t[1] in ("tuple", "list"):
            return [(tuple(p.facts), p.term) for p in self.parts(t, evs, (), depth + 1)]
        return [((), t)]

    def components(self, v, evs, e):
        rep, X = self.rep, self.child
        v = self.norm(canon(v))
        evs2 = evs
        self.sources(v, evs, e)
        opts = [x for x in flat(v)] if v[0] in ("if", "cases") else [v]
        for o in opts:
            try:
                ps = self.parts(o, evs2)
            except Unknown:
                rep.count("keys_not_understood")
                self.loose(o, evs, e)
                return
            rep.count("key_components", len(ps))
            self.examine(ps, e)

    def order(self, t):
        return any(x[0] == "attr" and x[2] == "elementOrder" for x in sub(t))

    def istag(self, t):
        """the tag by itself"""
        tag = ("attr", self.child, "tag")
        if t == tag:
            return True
        if t[0] == "call" and t[1] in ("str",) and len(t[2]) == 1:
            return self.istag(t[2][0])
        return not self.order(t) and has(t, tag) and not any(x[0] == "attr" and x[2] in ("attribvals", "attributeOrder") for x in sub(t)) and t[0] not in ("cmp", "not") \
            and not any(x[0] == "call" and x[1] == "len" for x in sub(t))

    def examine(self, ps, e):
        """the components against: schema order, tag, attributes"""
        X, B = self.child, self.B
        io = next((i for i, p in enumerate(ps) if self.order(p.term)), None)
        opaque = any(x[0] in ("opaque", "loopvar", "pcall", "gen") for p in ps for x in sub(p.term))
        if io is None:
            if not opaque:
                self.bad("schema-order", e.node, "the schema's order of elements does not come into the order of children", e.func)
        else:
            t = ps[io].term
            xs = list(sub(t))
            if ("attr", X, "tag") not in xs and not opaque:
                self.bad("schema-order", show(t), "the schema order is not that of the child's tag", e.func)
            if ("attr", B, "tag") not in xs and not opaque and not any(x[0] == "attr" and x[2] == "tag" and x[1] != X and x[1] != ("attr", ("self",), "root") for x in xs):
                self.bad("schema-order", show(t), "the schema order is not the one for the element whose children are sorted", e.func)
            if io > 0 and not opaque and any(has(p.term, X) for p in ps[:io]):
                self.bad("schema-order", show(ps[0].term), "something else comes before the schema's order of elements", e.func)
            for x in xs:
                if x[0] == "meth" and x[2] == "get" and x[3] and x[3][0] == ("attr", X, "tag"):
                    d = x[3][1] if len(x[3]) > 1 else NONE
                    if d[0] == "const" and not (isinstance(d[1], (int, float)) and d[1] >= 1000):
                        self.bad("schema-order", show(x), "children that the schema does not know do not come after those it knows", e.func)
                if x[0] == "un" and x[1] in ("USub", "-") or x[0] == "bin" and x[1] in ("Mult", "Sub", "FloorDiv", "Mod", "RShift") or x[0] == "neg":
                    self.bad("schema-order", show(x), "the schema order is reversed or made coarser", e.func)
        it = next((i for i, p in enumerate(ps) if p.each is None and self.istag(p.term)), None)
        attrs = [(i, p) for i, p in enumerate(ps) if p.each is not None or any(self.fromattrs(x) for x in sub(p.term))]
        if it is None:
            if not opaque:
                self.bad("tag", e.node, "the tag does not come into the order of children", e.func)
        else:
            t = ps[it].term
            lossy = next((x for x in sub(t) if x[0] == "meth" and x[2] in CASE | {"split", "rsplit", "partition", "rpartition", "strip"} or x[0] == "slice"), None)
            if lossy is not None:
                self.bad("tag", show(t), "only part of the tag comes into the order of children", e.func)
            if attrs and attrs[0][0] < it and not opaque:
                self.bad("tag", show(t), "attributes come before the tag", e.func)
        if not attrs:
            if not opaque:
                self.bad("attributes", e.node, "attributes do not come into the order of children", e.func)
            return
        self.attributes([p for _, p in attrs], e, opaque)

    def fromattrs(self, x):
        X = self.child
        return x == ("attr", X, "attrib") or x[0] == "meth" and x[1] == X and x[2] in ("get", "items", "keys")

    def nameof(self, p):
        """(name, value) terms of the attribute a repeated part is about"""
        X = self.child
        at = ("attr", X, "attrib")
        for x in itertools.chain(sub(p.term), *(sub(f) for f in p.facts)):
            if x[0] == "key" and strip(x[1]) in (X, at):
                return x
            if x[0] == "elem" and isinstance(x[1], tuple):
                s = x[1]
                while True:
                    if s[0] == "call" and s[2] and s[1] in ("sorted", "list", "tuple", "iter", "reversed", "set"):
                        s = s[2][0]
                    elif s[0] == "comp" and len(s[2]) == 1:
                        s = s[2][0][0]
                    else:
                        break
                if s in (X, at) and s != X or s[0] == "meth" and s[1] in (X, at) and s[2] == "keys":
                    return x
        return None

    def itername(self, it):
        X = self.child
        at = ("attr", X, "attrib")
        return any(s == at or s[0] == "meth" and s[1] in (X, at) and s[2] in ("keys", "items") for s in sub(it))

    def attributes(self, ps, e, opaque):
        X = self.child
        at = ("attr", X, "attrib")
        its = []
        for p in ps:
            if p.each is not None and p.each not in its:
                its.append(p.each)
        if not its:
            if not opaque:
                self.bad("attributes", show(ps[0].term), "only particular attributes come into the order of children", e.func)
            return
        for it in its:
            self.attrorder(self.norm(canon(it)), X, e, "children")
        def isvalue(t, k):
            return isinstance(t, tuple) and bool(t) and isinstance(t[0], str) and (t in (("item", X, k), ("item", at, k)) or t[0] == "meth" and t[1] in (X, at) and t[2] == "get" and bool(t[3]) and t[3][0] == k)
        names = [k for k in (self.nameof(p) for p in ps) if k is not None]
        if not names:
            return
        k = names[0]
        def only(t, found):
            """found somewhere in t outside look-ups by it"""
            if found(t):
                return True
            if isvalue(t, k) or not isinstance(t, (tuple, frozenset)):
                return False
            if isinstance(t, frozenset):
                return any(only(y, found) for y in t if isinstance(y, (tuple, frozenset)))
            if t and t[0] == "elem":
                return False
            if t and t[0] in ("item",) and t[2] == k:
                return only(t[1], found)
            if t and t[0] == "meth" and t[2] == "get":
                return any(only(y, found) for y in (t[1], *t[3][1:])) if t[3] and t[3][0] == k else any(only(y, found) for y in (t[1], *t[3]))
            return any(only(y, found) for y in t if isinstance(y, (tuple, frozenset)))
        name, value = [], []
        for p in ps:
            kk = self.nameof(p) or k
            def same(t):
                return t == kk or t == k
            if only(p.term, same):
                name.append(p)
            if any(isvalue(x, kk) or isvalue(x, k) for x in sub(p.term)):
                value.append(p)
        if not opaque:
            if not name:
                self.bad("attributes", show(ps[0].term), "the names of attributes do not come into the order of children", e.func)
            if not value:
                self.bad("attributes", show(ps[0].term), "the values of attributes do not come into the order of children", e.func)
        for what, qs in (("name", name), ("value", value)):
            if not qs:
                continue
            alts = [conj([truth(self.norm(canon(f))) for f in q.facts if f[0] != "stored" and f not in e.facts and self.clear(self.norm(canon(f)))
                          and not self.trivial(self.norm(canon(f)))]) for q in qs]
            miss = self.uncovered(alts, e)
            if miss is not None:
                self.bad("attributes", show(qs[0].term), "the %s of an attribute comes into the order of children only under a condition (%s)" % (what, miss), e.func)
        listed = False
        for q in value:
            t = q.term
            kk = self.nameof(q) or k
            vs = [x for x in sub(t) if isvalue(x, kk) or isvalue(x, k)]
            cond = any(x[0] == "attr" and x[2] == "attribvals" for f in q.facts for x in sub(f))
            if any(x[0] == "attr" and x[2] == "attribvals" for x in sub(t)):
                listed = True
                for x in sub(t):
                    if x[0] == "meth" and x[2] == "get" and x[3] and any(y in vs for y in sub(x[3][0])) and has(x[1], vs[0]) is False:
                        d = x[3][1] if len(x[3]) > 1 else NONE
                        if not any(y in vs for y in sub(d)) and not any(y[0] in ("opaque", "pcall", "loopvar", "gen") for y in sub(d)):
                            self.bad("attributes", show(x), "values that the schema does not list all count as the same", e.func)
                continue
            loss = next((x for x in sub(t) if x[0] == "slice" and any(y in vs for y in sub(x[1])) or x[0] == "call" and x[1] in ("len", "hash", "bool", "ord", "min", "max", "set", "sorted")
                         and any(y in vs for y in sub(x)) or x[0] == "meth" and x[1] in vs and x[2] in ("split", "rsplit", "partition", "rpartition", "count", "find", "startswith", "endswith", "isdigit")
                         or x[0] == "cmp" and any(y in vs for y in sub(x)) or x[0] == "item" and x[1] in vs), None)
            if loss is not None:
                self.bad("attributes", show(loss), "only part of the values of attributes comes into the order of children", e.func)
            elif not any(x[0] == "meth" and x[2] in CASE for x in sub(t)) and not any(x[0] in ("opaque", "pcall", "loopvar") for x in sub(t)):
                self.bad("attributes", show(t), "values of attributes are compared with regard to case", e.func)
        self.rep.count("attribute_components", len(ps))

    def uncovered(self, alts, e):
        """an assignment of the atoms under which none of the conditions holds"""
        if any(a == TRUE for a in alts):
            return None
        def pos(a):
            flip = {"not in": "in", "!=": "==", "is not": "is", "<=": ">", ">=": "<"}
            if a[0] == "cmp" and a[1] in flip:
                return ("cmp", flip[a[1]], a[2], a[3]), False
            return a, True
        ats = []
        for f in alts:
            for a in atoms(f):
                p = pos(a)[0]
                if p not in ats and not (p[0] == "const"):
                    ats.append(p)
        if len(ats) > 10:
            return None
        def ev(f, env):
            if f[0] == "and":
                return all(ev(x, env) for x in f[1])
            if f[0] == "or":
                return any(ev(x, env) for x in f[1])
            if f[0] == "not":
                return not ev(f[1], env)
            if f[0] == "const":
                return bool(f[1])
            p, y = pos(f)
            return env.get(p, True) == y
        for bits in itertools.product((True, False), repeat=len(ats)):
            env = dict(zip(ats, bits))
            if not any(ev(a, env) for a in alts):
                return ", ".join(("" if b else "not ") + show(a) for a, b in env.items())
        return None

    def attrorder(self, it, n, e, what):
        """the iterable gives attribute names in schema order, then by name"""
        t = it
        while True:
            if any(x.kind == "call" and x.name == "sort" and x.recv is not None and self.norm(canon(x.recv)) == t for x in self.w.events):
                return          # sorted in place
            if t[0] == "call" and t[1] in ("list", "tuple", "iter", "enumerate") and t[2]:
                t = t[2][0]
            elif t[0] == "comp" and len(t[2]) == 1:
                if any(self.clear(c) for c in t[4]) and what == "children":
                    c = next(c for c in t[4] if self.clear(c))
                    if any(x[0] in ("elem", "key") for x in sub(c)):
                        self.bad("attributes", show(c), "attributes come into the order only under a condition", e.func)
                t = t[2][0][0]
            elif t[0] == "call" and t[1] == "reversed" and t[2]:
                self.bad("attribute-order", show(t), "attributes are taken in the opposite order", e.func)
                return
            elif t[0] == "slice" and t[2][0] == "range" and all(y == NONE for y in t[2][1:3]):
                t = t[1]
            elif t[0] == "slice":
                self.bad("attributes", show(t), "only some attributes are taken", e.func)
                return
            else:
                break
        if t[0] in ("phi", "if", "cases"):
            for x in flat(t):
                self.attrorder(x, n, e, what)
            return
        if t[0] == "call" and t[1] in ("sorted",):
            self.rep.count("attribute_sorts")
            kw = dict(t[3])
            if kw.get("reverse") == TRUE:
                self.bad("attribute-order", show(t), "attributes are taken in the opposite order", e.func)
            key = kw.get("key", NONE)
            if any(x[0] == "slice" for x in sub(t[2][0])):
                self.bad("attributes", show(t), "only some attributes are taken", e.func)
            arg = ("param", "<name>")
            pairs = t[2][0] if t[2][0][0] == "comp" and t[2][0][3][0] == "tuple" else None
            if key == NONE and pairs is None:
                self.bad("attribute-order", show(t), "attributes are not in the order of the schema", e.func)
                return
            if key == NONE or pairs is not None:
                if key != NONE:
                    return
                arg, v, evs = pairs[2][0][1], canon(pairs[3]), []
                self.attrkey(v, evs, arg, e)
                return
            if key[0] not in ("lambda", "fn", "method") or key[0] == "lambda" and key[1] not in self.w.lambdas:
                return
            pair = any(x[0] == "meth" and x[2] == "items" for x in sub(t[2][0]))
            v, evs = self.call(self.w, key, (("tuple", (arg, ("param", "<value>"))) if pair else arg,), e.func, self.cls)
            self.attrkey(canon(v), evs, arg, e)
            return
        if self.plain(t) or what == "writing" and t[0] in ("new", "dict") and "dict" in t[:2]:
            self.bad("attribute-order", show(t), "attributes are taken in the order they happened to have in the document", e.func)

    def attrkey(self, v, evs, a, e):
        """the key by which attribute names are sorted"""
        try:
            ps = self.parts(v, evs) if v[0] in ("tuple", "list") else [Part(v, (), None)]
        except Unknown:
            return
        if any(x[0] in ("opaque", "pcall", "loopvar", "gen") for p in ps for x in sub(p.term)) and not any(p.term == a for p in ps):
            return
        io = next((i for i, p in enumerate(ps) if any(x[0] == "attr" and x[2] == "attributeOrder" for x in sub(p.term))), None)
        ia = next((i for i, p in enumerate(ps) if p.term == a), None)
        if io is None:
            if not any(x[0] in ("opaque", "pcall") for p in ps for x in sub(p.term)):
                self.bad("attribute-order", show(v), "attributes are not in the order of the schema", e.func)
        else:
            o = ps[io].term
            if not any(x[0] == "attr" and x[2] == "tag" for x in sub(o)) and not any(x[0] in ("opaque", "pcall") for x in sub(o)):
                self.bad("attribute-order", show(o), "the order of attributes is not that of the element's tag", e.func)
            def keys(x):
                return x[2] if x[0] == "item" else x[3][0] if x[0] == "meth" and x[2] == "get" and x[3] else None
            if any(keys(x) is not None and keys(x)[0] == "attr" and keys(x)[2] == "tag" and any(keys(y) == a for y in sub(x[1])) for x in sub(o)):
                self.bad("attribute-order", show(o), "the order of attributes is looked up by the element's tag in place of the attribute's name", e.func)
            if a not in set(sub(o)):
                self.bad("attribute-order", show(o), "the order of attributes does not depend on their names", e.func)
            for x in sub(o):
                if x[0] == "meth" and x[2] == "get" and x[3] and x[3][0] == a:
                    d = x[3][1] if len(x[3]) > 1 else NONE
                    if d[0] == "const" and not (isinstance(d[1], (int, float)) and d[1] >= 1000):
                        self.bad("attribute-order", show(x), "attributes that the schema does not know do not come after those it knows", e.func)
        if ia is None:
            if not any(has(p.term, a) and not any(x[0] == "attr" and x[2] == "attributeOrder" for x in sub(p.term)) and not any(x[0] == "meth" and x[2] in CASE or x[0] == "slice"
                       or x[0] == "call" and x[1] in ("len", "hash") for x in sub(p.term)) for p in ps):
                self.bad("attribute-order", show(v), "attributes of the same rank are in the order they happened to have in the document", e.func)
        elif io is not None and ia < io:
            self.bad("attribute-order", show(v), "the name of an attribute comes before its place in the schema", e.func)
        for p in ps:
            for x in sub(p.term):
                if x[0] == "call" and x[1] in OUTSIDE:
                    self.bad("attribute-order", show(x), "the order of attributes depends on %s()" % x[1], e.func)

    def plain(self, t):
        """attributes as the element has them"""
        if t[0] == "attr" and t[2] == "attrib" or t[0] == "meth" and t[2] in ("keys", "items") and not any(x[0] in ("opaque", "pcall", "gen") for x in sub(t)):
            return True
        return t[0] == "call" and t[1] in ("set", "frozenset") and bool(t[2]) and self.plain(t[2][0])

    def sources(self, v, evs, e):
        """nothing but tag and attributes of the child comes into its key"""
        X = self.child
        for x in evs:
            if x.kind in ("break", "return") and x.loops and x.loops[-1][2] is not None and any(y is x.loops[-1][1] for y in ast.walk(x.func.node)) and self.itername(self.norm(canon(x.loops[-1][2]))) \
                    and all(self.clear(self.norm(canon(f))) for f in x.facts):
                self.bad("attributes", x.node, "the attributes after this one do not come into the order of children", x.func)
        seen = [v] + [self.norm(canon(t)) for x in evs if x.kind in ("aug", "call") for t in [x.value, *(x.args or ())] if isinstance(t, tuple) and (x.kind == "aug" or x.name in ("append", "extend"))]
        for t in seen:
            for x in sub(t):
                if x[0] == "attr" and x[1] == X and x[2] in ELEMENT:
                    self.bad("other-source", show(x), "the order of children depends on %s of the child" % x[2], e.func)
                elif x[0] == "call" and x[1] in OUTSIDE and any(y == X or y[0] == "param" for y in sub(x)) or x[0] == "call" and x[1] in OUTSIDE and x[1].startswith(("random", "time")):
                    self.bad("other-source", show(x), "the order of children depends on %s()" % x[1], e.func)
                elif x[0] == "call" and x[1] == "len" and x[2] == (X,):
                    self.bad("other-source", show(x), "the order of children depends on how many children they have", e.func)
                elif x[0] == "meth" and x[1] == X and x[2] in ("itertext", "find", "findtext", "findall", "iter", "getchildren"):
                    self.bad("other-source", show(x), "the order of children depends on what is in them", e.func)

    def loose(self, v, evs, e):
        """a key that is not understood in full: only what is nowhere in it"""
        X = self.child
        ts = [v] + [self.norm(canon(t)) for x in evs for t in [x.value, x.recv, *(x.args or ())] if isinstance(t, tuple)]
        xs = {x for t in ts for x in sub(t)}
        if any(x[0] in ("pcall", "gen") for x in xs):
            return
        if not any(x[0] == "attr" and x[2] == "elementOrder" for x in xs):
            self.bad("schema-order", e.node, "the schema's order of elements does not come into the order of children", e.func)
        if ("attr", X, "tag") not in xs:
            self.bad("tag", e.node, "the tag does not come into the order of children", e.func)
        if not any(self.fromattrs(x) for x in xs):
            self.bad("attributes", e.node, "attributes do not come into the order of children", e.func)

    # ---- writing ----------------------------------------------------------------------------------------------------
    def writing(self, f, cls):
        """attributes are written in schema order"""
        w = self.w = Walk(self.prj, self.fold, keep=())
        w.root(f, cls)
        self.f = f
        self.cls = cls
        n = 0
        seen = []
        for e in w.events:
            if e.kind != "loop" or e.func.name != f.name and f not in e.stack:
                continue
            it = canon(e.recv) if e.recv is not None else None
            if it is None:
                continue
            # loops that write, for what they loop over
            uid = e.value
            if uid is None or not isinstance(uid, tuple):
                continue
            ks = [x for x in sub(uid) if x[0] in ("elem", "key", "item")]
            wr = [x for x in w.events if x.kind == "call" and x.seq > e.seq and x.recv and x.recv[0] == "param" and any(l[2] == e.recv for l in x.loops)
                  and any(any(k in set(sub(a)) for k in ks) for a in x.args) and any(isinstance(y[1], str) and "=" in y[1] for a in x.args for y in sub(a) if y[0] == "const")]
            if not wr or it in seen:
                continue
            seen.append(it)
            n += 1
            self.attrorder(it, None, e, "writing")
        self.rep.count("attribute_writing_loops", n)


# ---- the schema's order -------------------------------------------------------------------------------------------------
def outside(f):
    """variables of the functions around f, as terms of their own"""
    r, g = {}, f.outer
    while g is not None:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in f.allparams:
                r.setdefault(n.id, ("param", n.id))
        for p in g.allparams:
            if p not in f.allparams:
                r.setdefault(p, ("param", p))
        g = g.outer
    own = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return {k: v for k, v in r.items() if k not in own}


def schema(prj, fold, rep):
    """places in the schema are counted up"""
    for f in prj.funcs:
        w = None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in ("elementOrder", "attributeOrder"):
                w = Walk(prj, fold)
                break
        if w is None or f.outer is None and not any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Subscript) for t in x.targets) for x in ast.walk(f.node)):
            continue
        own = [x for s in f.body for x in ast.walk(s)] if not f.is_lambda else []
        if not any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for x in own):
            continue
        w.root(f, f.cls, outside(f))
        for e in w.events:
            if e.kind != "setitem" or e.func is not f:
                continue
            tab = next((x[2] for x in sub(e.recv) if x[0] == "attr" and x[2] in ("elementOrder", "attributeOrder")), None)
            if tab is None:
                continue
            v = e.value
            if v[0] in ("dict", "new", "comp") or v[0] == "call" and v[1] in ("dict",):
                continue
            rep.count("schema_places")
            if v[0] == "const":
                rep.finding("schema-order", f, text(e.node), "every place in %s is the same" % tab, e.node)
            elif v[0] in ("item", "attr", "param"):
                aug = [x for x in w.events if x.kind in ("aug", "store", "setitem") and x.seq < e.seq
                       and (x.kind == "aug" and x.recv == v or x.kind == "setitem" and x is not e and ("item", x.recv, x.name) == v or x.kind == "store" and ("attr", x.recv, x.name) == v)]
                if not aug and v[0] != "param":
                    rep.finding("schema-order", f, text(e.node), "the place stored in %s is not counted up" % tab, e.node)
                elif not aug:
                    rep.finding("schema-order", f, text(e.node), "the place stored in %s is not counted up" % tab, e.node) \
                        if any(l for l in e.loops) else None
        # a counter handed down and given back
        for n in own:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == f.name \
                    and any(isinstance(r, ast.Return) and r.value is not None and not (isinstance(r.value, ast.Constant)) for r in own) \
                    and any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id in f.allparams for x in own):
                rep.finding("schema-order", f, text(n), "places counted in the inner part of a content model are given out again", n)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name:
                for i, a in enumerate(n.args):
                    if i < len(f.params) and isinstance(a, ast.Constant) and isinstance(a.value, int) and \
                            any(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == f.params[i] for x in own):
                        rep.finding("schema-order", f, text(n), "counting of places starts again in the inner part of a content model", n)


def highest(prj, fold, rep):
    """the place of what the schema does not know is past all others"""
    for f in prj.funcs:
        if f.is_lambda or not any(isinstance(x, ast.Attribute) and x.attr in ("maxEls", "maxAts") and isinstance(x.ctx, ast.Store) for s in f.body for x in ast.walk(s)):
            continue
        w = Walk(prj, fold)
        w.root(f, f.cls, outside(f))
        for e in w.events:
            if e.kind != "store" or e.name not in ("maxEls", "maxAts") or e.func is not f:
                continue
            v = e.value
            if v[0] == "const" or any(x[0] in ("opaque", "pcall") for x in sub(v)) and v[0] != "bin":
                continue
            rep.count("highest_places")
            if any(x[0] == "call" and x[1] == "max" for x in sub(v)) and not any(x[0] == "bin" and x[1] == "Add" or x[0] == "call" and x[1] == "len" for x in sub(v)):
                rep.finding("schema-order", f, text(e.node), "%s is not past the last place given out" % e.name, e.node)
            if not any(x[0] == "call" and x[1] == "max" or x[0] == "attr" and x[2] == e.name for x in sub(v)) and f.outer is not None and not any(x[0] == "attr" and x[2] == e.name for g in e.facts for x in sub(g)):
                rep.finding("schema-order", f, text(e.node), "%s is that of the last element declared, not the highest" % e.name, e.node)


def run(prj, fold, rep):
    found = False
    for m in prj.modules.values():
        for c in m.classes.values():
            f = c.methods.get("normalise")
            if f is not None and "elementOrder" in {n.attr for g in c.methods.values() for n in ast.walk(g.node) if isinstance(n, ast.Attribute)}:
                found = True
                rep.site("%s normalise" % c.qual)
                Decide(prj, fold, rep, f, c).run()
            f = c.methods.get("serialize_xml")
            if f is not None and any(isinstance(n, ast.Attribute) and n.attr == "attributeOrder" for g in c.methods.values() for n in ast.walk(g.node)):
                Decide(prj, fold, rep, f, c).writing(f, c)
    schema(prj, fold, rep)
    highest(prj, fold, rep)
    if not found:
        raise AnchorLost("no class with normalise() and an elementOrder")
    rep.rule("children: sort key = (schema place, tag, sorted attribute names and values), stored back, at every depth")
    rep.rule("attributes: (schema place, name)")


BASE = """
import re
class Writer(object):
    maxAts = None
    def __init__(self, et, attributeOrder={}):
        self.root = et
        self.attributeOrder = attributeOrder
    def _sortedattrs(self, n, attribs=None):
        def getorder(x):
            return self.attributeOrder.get(n.tag, {}).get(x, self.maxAts)
        return sorted((attribs if attribs is not None else n.keys()), key=lambda x: (getorder(x), x))
    def serialize_xml(self, write, base=None):
        if base is None:
            base = self.root
        write('<{}'.format(base.tag))
        for k in self._sortedattrs(base, base.attrib):
            write(' {}="{}"'.format(k, base.attrib[k]))
        for b in base:
            self.serialize_xml(write, base=b)
class Doc(Writer):
    @classmethod
    def read(cls):
        cls.elementOrder = {}
        cls.attributeOrder = {}
        cls.maxEls = 0
        counts = {}
        def model(name, nodes, cls, count):
            for n in nodes:
                if n[2] is not None:
                    count += 1
                    cls.elementOrder.setdefault(name, {})[n[2]] = count
                if len(n[3]):
                    count = model(name, n[3], cls, count)
            return count
        def element(name, m):
            count = model(name, m[3], cls, 0)
            cls.maxEls = max(cls.maxEls, count + 1)
            cls.attributeOrder[name] = {}
            counts[name] = 0
        def attlist(elname, attname):
            counts[elname] += 1
            cls.attributeOrder[elname][attname] = counts[elname]
    def normalise(self, base=None, usedrafts=False):
        if base is None:
            base = self.root
        if len(base):
            for b in base:
                self.normalise(b, usedrafts=usedrafts)
            def keyel(x):
                xl = self._sortedattrs(x)
                res = [self.elementOrder.get(base.tag, {}).get(x.tag, self.maxEls), x.tag]
                for k, a in ((l, x.get(l)) for l in xl):
                    if x.tag in self.attribvals and k in self.attribvals[x.tag]:
                        res += (k, self.attribvals[x.tag][k].get(a, "{}{}".format(len(self.attribvals[x.tag][k]), a)))
                    else:
                        res += (k, a.lower())
                return res
            children = sorted(base, key=keyel)
            base[:] = children
        base.tail = None
"""
OTHER = """                for k in self._sortedattrs(x):
                    a = x.get(k)
                    vals = self.attribvals.get(x.tag, {}).get(k)
                    res.append(k)
                    if vals is None:
                        res.append(a.casefold())
                    else:
                        res.append(vals.get(a, "{}{}".format(len(vals), a)))
                return res
"""


def ex(name, want, *edits):
    src = BASE
    for a, b in edits:
        assert a in src, a
        src = src.replace(a, b, 1)
    return (name, {"lib/sldr/x.py": src}, want)


LOOP = BASE[BASE.index("                for k, a in ((l"):BASE.index("            children = sorted")]
EXAMPLES = (
    ex("as it is", False),
    ex("other loop", False, (LOOP, OTHER)),
    ex("key as a method", False, ("            def keyel(x):\n                xl", "            children = sorted(base, key=lambda c: self._key(base, c))\n            base[:] = children\n    def _key(self, base, x):\n                xl"),
       ("            children = sorted(base, key=keyel)\n            base[:] = children\n        base.tail = None\n", "")),
    ex("in place", False, ("            children = sorted(base, key=keyel)\n", "            children = list(base)\n            children.sort(key=keyel)\n")),
    ex("pairs", False, ("            children = sorted(base, key=keyel)\n", "            children = [c for _, _, c in sorted((keyel(c), i, c) for i, c in enumerate(base))]\n")),
    ex("reverse", "reversed", ("key=keyel)", "key=keyel, reverse=True)")),
    ex("only with drafts", "not-everywhere", ("            children = sorted(base, key=keyel)\n            base[:] = children", "            if usedrafts:\n                base[:] = sorted(base, key=keyel)")),
    ex("not stored", "not-stored", ("            base[:] = children\n", "")),
    ex("not below", "not-everywhere", ("                self.normalise(b, usedrafts=usedrafts)\n", "                b.tail = None\n")),
    ex("some below", "not-everywhere", ("                self.normalise(b, ", "                if b.tag != 'collation': self.normalise(b, ")),
    ex("no schema order", "schema-order", ("[self.elementOrder.get(base.tag, {}).get(x.tag, self.maxEls), x.tag]", "[x.tag]")),
    ex("wrong schema order", "schema-order", ("self.elementOrder.get(base.tag", "self.elementOrder.get(x.tag")),
    ex("unknown first", "schema-order", ("x.tag, self.maxEls)", "x.tag, 0)")),
    ex("no tag", "tag", ("self.maxEls), x.tag]", "self.maxEls)]")),
    ex("no names", "attributes", ("res += (k, self", "res += (self"), ("a)))", "a)),)"), ("res += (k, a.lower())", "res += (a.lower(),)")),
    ex("no values", "attributes", ("res += (k, self.attribvals[x.tag][k].get(a, \"{}{}\".format(len(self.attribvals[x.tag][k]), a)))", "res += (k,)"), ("(k, a.lower())", "(k,)")),
    ex("values only if listed", "attributes", ("                    else:\n                        res += (k, a.lower())\n", "")),
    ex("case", "attributes", ("a.lower()", "a")),
    ex("unlisted all the same", "attributes", ("\"{}{}\".format(len(self.attribvals[x.tag][k]), a)", "''")),
    ex("document order", "attribute-order", ("xl = self._sortedattrs(x)", "xl = list(x.keys())")),
    ex("first attribute", "attributes", ("xl = self._sortedattrs(x)", "xl = self._sortedattrs(x)[:1]")),
    ex("text", "other-source", ("                return res\n", "                res.append(x.text or '')\n                return res\n")),
    ex("no name", "attribute-order", ("(getorder(x), x)", "getorder(x)")),
    ex("name first", "attribute-order", ("(getorder(x), x)", "(x, getorder(x))")),
    ex("by name", "attribute-order", (", key=lambda x: (getorder(x), x)", "")),
    ex("written as they come", "attribute-order", ("for k in self._sortedattrs(base, base.attrib)", "for k in base.attrib")),
    ex("counted again", "schema-order", ("count = model(name, n[3], cls, count)", "model(name, n[3], cls, count)")),
    ex("not counted", "schema-order", ("            counts[elname] += 1\n", "")),
    ex("last not highest", "schema-order", ("max(cls.maxEls, count + 1)", "count + 1")),
)
