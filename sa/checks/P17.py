"""P17: the fingerprints of an element depend on everything that makes elements differ."""
import ast
import itertools
from ..core import text
from ..terms import Walk, sub, show, truth, implies, const, NONE, TRUE, FALSE, has
from ..tree import canon, flat, strip

TECHNIQUE = ("information flow into the fingerprint objects: which of tag, text, children and attributes reach them, under which conditions (the conditions on attributes are decided by a truth table "
             "over the attribute name, draft handling and whether the attribute is distinguishing), and that the mixing step depends on all it is given, on what came before and on their order")
NOTE = ("Collisions of Python's hash() and of 64 bit mixing are not considered. Conditions kept in flags or unknown calls are taken to hold. Text that is white space only, and line breaks at the start of "
        "a text, are not told apart from no text (normalising strips them).")
LOSSY_M = {"lower", "upper", "casefold", "title", "capitalize", "swapcase", "isspace", "count", "find", "index", "startswith", "endswith", "partition", "rpartition", "strip", "lstrip", "rstrip",
           "splitlines", "replace", "translate", "rsplit", "split", "isdigit", "isalpha", "__len__"}
LOSSY_C = {"len", "bool", "int", "float", "re.sub", "set", "frozenset", "sum", "min", "max", "any", "all", "type", "ord", "round", "abs"}
GENERIC = "some-attribute"


class Unknown(Exception):
    pass


def outer(t, x):
    """the terms around x inside t, outermost first; None when x is not in t"""
    if t == x:
        return []
    for y in t:
        if isinstance(y, frozenset):
            for z in y:
                r = outer(z, x)
                if r is not None:
                    return [t] + r
        elif isinstance(y, tuple):
            r = outer(y, x)
            if r is not None:
                return [t] + r
    return None


def options(t, conds=()):
    """[(conditions, value)] for what a term may be; the conditions of merged values are not known"""
    if t[0] == "if":
        return options(t[2], conds + (t[1],)) + options(t[3], conds + (("not", t[1]),))
    if t[0] == "cases":
        return [o for c, v in t[1] for o in options(v, conds + (c,))]
    if t[0] == "phi":
        return [o for v in t[1] for o in options(v, conds)]
    return [(conds, t)]


class Decide:
    def __init__(self, prj, fold, rep, f, cls):
        self.prj, self.fold, self.rep, self.f, self.cls = prj, fold, rep, f, cls
        self.w = Walk(prj, fold)
        hashes = []
        for m in prj.modules.values():
            for c in m.classes.values():
                if "update" in c.methods and "merge" in c.methods and "hashed" in {n.attr for g in c.methods.values() for n in ast.walk(g.node) if isinstance(n, ast.Attribute)}:
                    hashes.append(c)
        self.hashes = hashes
        self.w = Walk(prj, fold, keep=[g for c in hashes for g in c.methods.values() if g.name != "__init__"])
        self.w.root(f, cls)
        self.base = ("param", f.params[1])

    def bad(self, rule, node, msg, func=None):
        self.rep.finding(rule, func or self.f, text(node) if not isinstance(node, str) else node, msg, None if isinstance(node, str) else node)

    # ---- what a condition needs -----------------------------------------------------------------------------------
    def clear(self, f):
        """a condition that is understood: nothing in it comes from flags, unknown calls, or what was done before"""
        if f[0] in ("stored", "none"):
            return False
        return not any(x[0] in ("opaque", "loopvar", "gen", "lambda", "method", "pcall", "obj", "new", "default") or x[0] == "phi" and all(y[0] in ("const", "loopvar") for y in x[1])
                       for x in sub(f))

    def trivial(self, f, of=None):
        """conditions that lose nothing"""
        f = truth(f)
        b = self.base
        if f[0] == "cmp" and f[1] in ("is not", "!=") and f[3] == NONE and f[2] in (b, of):
            return True
        if f[0] == "call" and f[1] == "hasattr":
            return True
        if of is not None:
            if f == of or f[0] == "cmp" and f[1] in ("!=", "is not") and f[2] == of and f[3] in (NONE, const("")):
                return True
            if f[0] == "meth" and f[1] == of and f[2] == "strip" and not f[3]:
                return True
            if f[0] == "cmp" and f[1] == ">" and f[2] == ("call", "len", (of,), ()) and f[3] == const(0):
                return True
            if f[0] == "or":
                return any(self.trivial(x, of) for x in f[1])
            if f[0] == "and":
                return all(self.trivial(x, of) for x in f[1])
        return False

    def limits(self, e, of=None):
        return [f for f in (canon(x) for x in self.w.known(e)) if self.clear(f) and not self.trivial(f, of)]

    def lossy(self, t, x, whole=False):
        """the first step between x and t that loses something of x"""
        os = outer(t, x)
        if os is None:
            return None
        os = list(os)
        inner = x
        for o in reversed(os):
            if o[0] == "meth" and o[1] == inner and o[2] in LOSSY_M:
                if o[2] in ("split", "splitlines") and whole and (o[2] == "split" and o[3] and o[3][0][0] == "const" and isinstance(o[3][0][1], str)):
                    pass
                elif o[2] == "strip" and whole and not o[3]:
                    pass
                else:
                    return o
            if o[0] == "call" and o[1] in LOSSY_C:
                return o
            if o[0] in ("slice", "cmp", "not"):
                return o
            if o[0] == "item" and o[1] == inner:
                return o
            if o[0] == "comp" and o[4]:
                return o
            inner = o
        return None

    # ---- the element's fingerprints -------------------------------------------------------------------------------
    def run(self):
        rep, w = self.rep, self.w
        store = {}
        for e in w.events:
            if e.kind == "store" and canon(e.recv) == self.base and e.name in ("contentHash", "attrHash"):
                store.setdefault(e.name, []).append(e)
        for n in ("contentHash", "attrHash"):
            if n not in store:
                self.bad("no-fingerprint", "_calc_hashes", "%s is not set" % n)
                return
        self.C, self.A = [[x for x in flat(store[n][-1].value) if x[0] == "obj"] for n in ("contentHash", "attrHash")]
        if not self.C or not self.A:
            rep.note("the fingerprints are not objects of a class known here")
            return
        if set(self.C) & set(self.A):
            pass
        for e in w.events:
            if e.kind in ("break", "return") and e.loops and e.func.name != "_sortedattrs" and not any(not self.clear(canon(f)) for f in e.facts) and self.early(e):
                self.bad("left-out", e.node, "the loop is left before all of the element has been gone through", e.func)
        self.gave = []
        self.extra = {}
        for e in w.events:
            if e.kind == "pcall" and e.recv and e.recv[0] == "obj":
                self.gave.append((e, e.recv, [canon(a) for a in e.args]))
            elif e.kind == "call" and e.recv and e.recv[0] in ("if", "cases", "phi") and any(e.name in c.methods for c in self.hashes):
                for conds, o in options(e.recv):
                    if o[0] == "obj":
                        self.extra[len(self.gave)] = conds
                        self.gave.append((e, o, [canon(a) for a in e.args]))
        rep.count("contributions", len(self.gave))
        # content gets the key fingerprint last
        self.toC, self.toA = [g for g in self.gave if g[1] in self.C], [g for g in self.gave if g[1] in self.A]
        joined = None
        for e, _, a in self.toC:
            if any(x in self.A for t in a for x in sub(t)) and not self.limits(e):
                joined = e
        late = [g for g in self.toA if joined is not None and g[0].seq > joined.seq]
        for g in late:
            if not any(h[2] == g[2] and all(f in g[0].facts for f in h[0].facts) for h in self.toC):
                self.bad("key-not-in-content", g[0].node, "this goes into the key fingerprint only after the content fingerprint has taken that over", g[0].func)
        self.content = self.toC + (self.toA if joined is not None else [])
        for n, gs, rule in (("key", self.toA, "tag-left-out"), ("content", self.content, "tag-left-out")):
            self.whole("the tag", ("attr", self.base, "tag"), gs, rule, n)
        self.whole("the text", ("attr", self.base, "text"), self.toC, "text-left-out", "content")
        self.children()
        self.attributes(joined)
        self.keys()

    def early(self, e):
        it = canon(e.loops[-1][2]) if e.loops[-1][2] is not None else None
        return it is not None and has(it, self.base) and e.func is self.f

    def whole(self, what, x, gs, rule, which):
        """x reaches the fingerprint whenever there is something of it"""
        some = [(e, a) for e, _, a in gs if any(has(t, x) for t in a)]
        if not some:
            if not self.hidden(gs):
                self.bad(rule, which, "%s does not reach the %s fingerprint" % (what, which))
            return
        for e, a in some:
            lim = self.limits(e, x)
            loss = None
            for t in a:
                if has(t, x):
                    loss = self.lossy(t, x, whole=True)
                    if loss is None:
                        break
            if not lim and loss is None:
                return
        e, a = some[0]
        lim = self.limits(e, x)
        if lim:
            self.bad(rule, e.node, "%s reaches the %s fingerprint only where %s" % (what, which, show(lim[0])), e.func)
        else:
            self.bad(rule, e.node, "something of %s is lost before it reaches the %s fingerprint" % (what, which), e.func)

    def hidden(self, gs):
        """contributions whose values are not understood"""
        return any(x[0] in ("opaque", "gen", "default") for _, _, a in gs for t in a for x in sub(t))

    def source(self, it):
        """what a loop over children goes through: 'all', 'some', 'shuffled', None (unknown)"""
        it = canon(it)
        r = "all"
        while it != self.base:
            k = it[0]
            if k == "call" and it[2] and it[1] in ("list", "tuple", "iter", "enumerate", "reversed"):
                it = it[2][0]
            elif k == "call" and it[2] and it[1] in ("sorted", "set", "frozenset"):
                r = "shuffled"
                it = it[2][0]
            elif k == "call" and it[1] == "filter" and len(it[2]) == 2:
                r = "some"
                it = it[2][1]
            elif k == "slice" or k == "call" and it[1] == "itertools.islice" and it[2]:
                r = "some"
                it = it[1] if k == "slice" else it[2][0]
            elif k == "meth" and it[2] in ("findall", "iterfind"):
                if it[3] and it[3][0] in (const("*"), const("./*")):
                    it = it[1]
                else:
                    r, it = "some", it[1]
            elif k == "phi":
                return None
            else:
                return None
        return r

    def children(self):
        best = []
        for e, _, a in self.toC:
            for t in a:
                for x in sub(t):
                    if x[0] == "attr" and x[2] == "contentHash" and x[1][0] == "elem" and has(x[1], self.base):
                        best.append((e, x[1]))
        if not best:
            only = [e for e, _, a in self.toC for t in a for x in sub(t) if x[0] == "attr" and x[2] == "attrHash" and x[1][0] == "elem"]
            if only:
                self.bad("children-left-out", only[0].node, "only the key fingerprints of the children reach the content fingerprint", only[0].func)
            elif not self.hidden(self.toC):
                self.bad("children-left-out", "content", "the fingerprints of the children do not reach the content fingerprint")
            return
        why = None
        for e, x in best:
            lim = [f for f in self.limits(e, x) if not self.trivial(f, ("attr", x, "contentHash"))]
            s = self.loopsource(e, x)
            if s is None or not lim and s == "all":
                return
            why = why or (e, "only where %s" % show(lim[0]) if lim else "in an order of their own, not that of the document" if s == "shuffled" else "only for some of them")
        self.bad("children-left-out", why[0].node, "the fingerprints of the children reach the content fingerprint %s" % why[1], why[0].func)

    def loopsource(self, e, x):
        """the iterable as it is written in the loop that binds x (wrappers are gone from x itself)"""
        for k, s, it, uid in reversed(e.loops):
            if k == "for" and it is not None and has(canon(it), self.base) and self.f is e.func:
                return self.source(it)
        return self.source(x[1])

    # ---- attributes -------------------------------------------------------------------------------------------------
    def names(self, t):
        """attribute name terms inside t"""
        for x in sub(t):
            if x[0] == "key" and (x[1] == self.base or x[1] == ("attr", self.base, "attrib")):
                yield x
            elif x[0] == "elem":
                s = strip(x[1])
                if s == ("attr", self.base, "attrib") or s[0] == "meth" and s[2] in ("keys",) and s[1] in (self.base, ("attr", self.base, "attrib")):
                    yield x

    def value(self, k):
        b, at = self.base, ("attr", self.base, "attrib")
        return [("item", x, k) for x in (b, at)] + [("meth", x, "get", a, ()) for x in (b, at) for a in ((k,),)]

    def values(self, t, k):
        vs = [x for x in sub(t) if x in self.value(k) or x[0] == "meth" and x[2] == "get" and x[1] in (self.base, ("attr", self.base, "attrib")) and x[3] and x[3][0] == k]
        return vs

    def string(self, t):
        """a string constant (the library's own namespace is left as a mark)"""
        if t[0] == "const" and isinstance(t[1], str):
            return t[1]
        if t[0] == "bin" and t[1] == "Add":
            return self.string(t[2]) + self.string(t[3])
        if t[0] == "attr" and t[2] == "silns":
            return "SILNS"
        if t[0] == "meth" and t[2] == "format" and t[1][0] == "const":
            return t[1][1].format(*[self.string(x) for x in t[3]])
        if t[0] == "fstr":
            return "".join(self.string(x) for x in t[1])
        raise Unknown

    def strings(self, t):
        if t[0] in ("tuple", "list", "set"):
            return [self.string(x) for x in t[1]]
        if t[0] == "call" and t[1] in ("set", "frozenset", "tuple", "list") and len(t[2]) == 1:
            return self.strings(t[2][0])
        if t[0] == "const" and isinstance(t[1], (frozenset, tuple)):
            return list(t[1])
        raise Unknown

    def atom(self, a, k, name, drafts, free):
        """truth of an atom for the attribute called name; unknown ones are looked up in free"""
        if a[0] == "param" and "draft" in a[1].lower() or a[0] == "attr" and a[1] == ("self",) and a[2] == "useDrafts":
            return drafts
        if a[0] == "cmp" and a[1] in ("==", "!=", "is", "is not", "in", "not in"):
            pos = a[1] in ("==", "is", "in")
            l, r = a[2], a[3]
            if r == k and l != k and a[1] in ("==", "!="):
                l, r = r, l
            if l == k:
                try:
                    if a[1] in ("in", "not in"):
                        return (name in self.strings(r)) == pos
                    return (name == self.string(r)) == pos
                except Unknown:
                    pass
                if a[1] in ("in", "not in") and r[0] in ("if", "cases"):
                    for conds, o in options(r):
                        if all(self.holds(c, k, name, drafts, free) for c in conds):
                            try:
                                return (name in self.strings(o)) == pos
                            except Unknown:
                                return free.get(a if pos else ("cmp", "in", l, r), True) == pos
            if not pos:
                return not free.get(("cmp", {"!=": "==", "is not": "is", "not in": "in"}[a[1]], a[2], a[3]), True)
        if a[0] == "meth" and a[1] == k and a[2] in ("startswith", "endswith") and len(a[3]) == 1:
            try:
                return getattr(name, a[2])(self.string(a[3][0]))
            except Unknown:
                pass
        return free.get(a, True)

    def holds(self, f, k, name, drafts, free):
        f = truth(f)
        if f[0] == "and":
            return all(self.holds(x, k, name, drafts, free) for x in f[1])
        if f[0] == "or":
            return any(self.holds(x, k, name, drafts, free) for x in f[1])
        if f[0] == "not":
            return not self.holds(f[1], k, name, drafts, free)
        if f[0] == "const":
            return bool(f[1])
        return bool(self.atom(f, k, name, drafts, free))

    def attributes(self, joined):
        rep = self.rep
        events = []
        for i, (e, r, a) in enumerate(self.gave):
            if r not in self.C and r not in self.A:
                continue
            ks = [k for t in a for k in self.names(t)]
            if not ks:
                vs = [x for t in a for x in sub(t) if x[0] in ("elem",) and strip(x[1])[0] == "meth" and strip(x[1])[2] == "items" and has(x, self.base)]
                if vs:
                    return          # name and value together
                continue
            k = ks[0]
            raw = [t for t in a]
            loss = None
            if not any(self.values(t, k) for t in raw):
                self.rep.count("contributions_without_value")
                continue
            v = next(v for t in raw for v in self.values(t, k))
            # the name on its own, outside the look-up of the value
            def named(t):
                if t == k:
                    return True
                if t == v or not isinstance(t, (tuple, frozenset)):
                    return False
                return any(named(y) for y in t if isinstance(y, (tuple, frozenset)))
            if not any(named(t) for t in raw):
                self.bad("attribute-left-out", e.node, "only the values of attributes go into the fingerprint, not their names", e.func)
                return
            ls = [self.lossy(t, v) for t in raw if has(t, v)]
            if ls and all(x is not None for x in ls):
                self.bad("attribute-left-out", e.node, "something of the values of attributes is lost (%s)" % show(ls[0]), e.func)
                return
            events.append((e, r, k, [canon(f) for f in list(self.w.known(e)) + list(self.extra.get(i, ()))]))
        rep.count("attribute_contributions", len(events))
        if not events:
            if not self.hidden(self.gave):
                self.bad("attribute-left-out", "content", "names and values of attributes do not reach the fingerprints")
            return
        # rename the attribute's name to the same term in all
        K = ("key", self.base, 0)
        V = ("item", self.base, K)
        table = []
        for e, r, k, fs in events:
            gs = []
            for f in fs:
                f = self.swap(f, k, K, V)
                if self.clear(f) and not self.trivial(f):
                    gs.append(f)
            table.append((r in self.A, gs, e))
        names = {"draft", "alt", "{SILNS}alias", GENERIC}
        free = set()
        for _, gs, _ in table:
            for g in gs:
                self.collect(g, K, names, free)
        free = sorted(free, key=repr)
        inkeys = [a for a in free if a[0] == "cmp" and a[1] == "in" and a[2] == K]
        rep.count("attribute_names", len(names))
        if len(free) > 8:
            return
        n = 0
        for name, drafts, bits in itertools.product(sorted(names), (False, True), itertools.product((False, True), repeat=len(free))):
            fr = dict(zip(free, bits))
            n += 1
            if drafts and name in ("draft", "alt", "{SILNS}alias"):
                continue
            got = [isA for isA, gs, _ in table if all(self.holds(g, K, name, drafts, fr) for g in gs)]
            eff = [g for g in got if not g or joined is not None]
            how = "with" if drafts else "without"
            cond = [show(a) for a, b in fr.items() if b and a not in inkeys] + ["not " + show(a) for a, b in fr.items() if not b and a not in inkeys]
            if not eff:
                self.bad("attribute-left-out", table[0][2].node, "the attribute %s does not reach the content fingerprint %s draft handling%s"
                         % (name if name != GENERIC else "that is %sa distinguishing one" % ("" if any(fr[a] for a in inkeys) else "not "), how, " (%s)" % ", ".join(cond) if cond else ""), table[0][2].func)
                return
            if inkeys and all(fr[a] for a in inkeys) and True not in got:
                self.bad("key-attribute-left-out", table[0][2].node, "a distinguishing attribute (%s) does not reach the key fingerprint %s draft handling" % (name, how), table[0][2].func)
                return
        rep.count("truth_table_rows", n)
        if not inkeys and any(isA for isA, _, _ in table) is False and not any(not gs for isA, gs, _ in table if isA):
            self.bad("key-attribute-left-out", table[0][2].node, "no attribute reaches the key fingerprint", table[0][2].func)
        self.inkeys = inkeys

    inkeys = ()

    def swap(self, t, k, K, V):
        if t == k:
            return K
        if t in self.value(k):
            return V
        if isinstance(t, tuple):
            return tuple(self.swap(x, k, K, V) if isinstance(x, (tuple, frozenset)) else x for x in t)
        if isinstance(t, frozenset):
            return frozenset(self.swap(x, k, K, V) for x in t)
        return t

    def collect(self, f, K, names, free):
        f = truth(f)
        if f[0] in ("and", "or"):
            for x in f[1]:
                self.collect(x, K, names, free)
        elif f[0] == "not":
            self.collect(f[1], K, names, free)
        elif f[0] != "const":
            a = f
            if a[0] == "param" and "draft" in a[1].lower() or a[0] == "attr" and a[1] == ("self",) and a[2] == "useDrafts":
                return
            if a[0] == "cmp" and a[1] in ("==", "!=", "is", "is not", "in", "not in"):
                l, r = a[2], a[3]
                if r == K and l != K and a[1] in ("==", "!="):
                    l, r = r, l
                if l == K:
                    try:
                        names |= set(self.strings(r)) if a[1] in ("in", "not in") else {self.string(r)}
                        return
                    except Unknown:
                        pass
                if l == K and a[1] in ("in", "not in") and r[0] in ("if", "cases"):
                    for conds, o in options(r):
                        for c in conds:
                            self.collect(c, K, names, free)
                        try:
                            names |= set(self.strings(o))
                        except Unknown:
                            free.add(("cmp", "in", l, r))
                    return
                pos = {"!=": "==", "is not": "is", "not in": "in"}.get(a[1], a[1])
                free.add(("cmp", pos, a[2], a[3]))
                return
            if a[0] == "meth" and a[1] == K and a[2] in ("startswith", "endswith") and len(a[3]) == 1:
                try:
                    s = self.string(a[3][0])
                    names.add(s + "x" if a[2] == "startswith" else "x" + s)
                    return
                except Unknown:
                    pass
            free.add(a)

    def keys(self):
        """the set of distinguishing attributes is the schema's: common ones, less those of the element that are not, and those only of the element"""
        for a in self.inkeys:
            X = a[3]
            ts = list(sub(X))
            if any(x[0] in ("opaque", "gen", "pcall", "lambda", "new", "comp", "default", "obj") for x in ts):
                continue
            at = {x[2] for x in ts if x[0] == "attr" and x[1] == ("self",)}
            if "keys" not in at and "keyContexts" not in at:
                continue
            for n in ("keys", "keyContexts"):
                if n not in at:
                    self.bad("key-attribute-left-out", n, "the distinguishing attributes are taken without %s" % n)
            for x in ts:
                if x[0] == "bin" and x[1] in ("BitAnd", "BitXor") or x[0] == "bin" and x[1] == "Sub" and any(y[0] == "attr" and y[2] in ("keyContexts", "keys") for y in sub(x[3])):
                    self.bad("key-attribute-left-out", show(x[3]), "distinguishing attributes are taken away by a set operation")
                if x[0] == "bin" and x[1] == "Sub" and x[3][0] == "set":
                    for y in x[3][1]:
                        if y[0] == "const" and y[1] not in ("draft", "alt"):
                            self.bad("key-attribute-left-out", repr(y[1]), "the attribute %s is never taken as distinguishing" % y[1])
            for e in self.w.events:
                if e.kind == "call" and e.name in ("discard", "remove", "difference_update", "clear") and e.recv[0] != "builtin" and set(flat(canon(e.recv))) & set(flat(X)):
                    c = e.args[0] if e.args else NONE
                    ok = c[0] == "const" and c[1] in ("draft", "alt") and implies([canon(f) for f in e.facts], lambda z: z[0] == "param" and "draft" in z[1].lower()
                                                                                   or z[0] == "attr" and z[2] == "useDrafts")
                    if not ok and (c[0] == "const" or not e.args):
                        self.bad("key-attribute-left-out", e.node, "a distinguishing attribute is taken out of the set", e.func)

    # ---- the mixing -------------------------------------------------------------------------------------------------
    def mixing(self):
        used = {e.name.rsplit(".", 1)[-1] for e, r, _ in getattr(self, "gave", []) if r in self.C + self.A}
        cs = {r[1] for _, r, _ in getattr(self, "gave", []) if r in self.C + self.A}
        for c in self.hashes:
            if ("class", c.module.name + ":" + c.qual) not in cs:
                continue
            for n in sorted(used):
                g = c.find(n)
                if g is not None:
                    self.mix(g, c)
            g = c.find("__eq__")
            if g is None:
                self.bad("equality", c.qual, "fingerprints are compared by identity", self.f)
            else:
                self.equality(g, c)

    def mix(self, g, c):
        w = Walk(self.prj, self.fold)
        w.root(g, c)
        stores = [e for e in w.events if e.kind == "store" and e.recv == ("self",) and any(x == ("attr", ("self",), e.name) for x in sub(e.value)) and e.name not in ("minhash",)]
        plain = [e for e in w.events if e.kind == "store" and e.recv == ("self",) and e not in stores and e.name == "hashed"]
        self.rep.count("mixing_steps", len(stores))
        for e in plain:
            if not any(x[0] in ("opaque", "loopvar", "pcall", "gen") for x in sub(e.value)):
                self.bad("mixing", e.node, "the fingerprint is replaced without regard to what was mixed in before", g)
        if not stores:
            if not plain and not w.budget < 0:
                self.bad("mixing", g.name, "%s leaves the fingerprint as it was" % g.name, g)
            return
        ps = g.allparams[1:] if g.selfname else g.allparams
        for e in stores:
            v = e.value
            old = ("attr", ("self",), e.name)
            fs = [f for f in (canon(x) for x in e.facts) if self.clear(f) and not self.trivial(f)]
            if fs and len(stores) == 1:
                self.bad("mixing", e.node, "the fingerprint is changed only where %s" % show(fs[0]), g)
            for p in ps:
                P = ("param", p)
                if not has(v, P):
                    if not any(x[0] in ("opaque", "loopvar", "new", "pcall", "elem") for x in sub(v)):
                        self.bad("mixing", e.node, "the fingerprint does not depend on %s" % p, g)
                    continue
                loss = next((x for x in (outer(v, P) or []) if x[0] == "slice" or x[0] == "comp" and x[4] or x[0] == "call" and x[1] in LOSSY_C - {"sum"} or x[0] == "item" and x[1] == P
                             or x[0] == "attr" and x[1] == P and x[2] not in ("hashed", "_hashed", e.name)), None)
                if loss is None and p == g.vararg:
                    loss = next((x for x in outer(v, P) or [] if x[0] == "call" and x[1] in ("sorted", "set", "frozenset")), None)
                if loss is not None:
                    self.bad("mixing", e.node, "only part of what is given to %s goes into the fingerprint (%s)" % (g.name, show(loss)), g)
            self.order(g, e, v, old)

    def order(self, g, e, v, old):
        # masks must leave enough bits
        t = canon(v)
        while t[0] == "bin" and t[1] in ("BitAnd", "Mod"):
            m = next((x for x in (t[3], t[2]) if not has(x, old)), None)
            n = self.number(m, g)
            if n is not None and n < (1 << 32) - 1:
                self.bad("mixing", e.node, "only %d bits of the fingerprint are kept" % n.bit_length(), g)
            t = t[2] if m is t[3] else t[3]
        body = t
        if t[0] == "call" and t[1] in ("functools.reduce", "reduce") and t[2]:
            f = t[2][0]
            if f[0] == "lambda" and f[1] in self.lams(g):
                return self.lam(g, e, self.lams(g)[f[1]])
            return
        ops = {x[1] for x in sub(body) if x[0] == "bin" and has(x, old)}
        if any(x[0] in ("loopvar", "opaque", "pcall") for x in sub(body)) and not ops:
            return
        if any(x[0] == "call" and x[1] == "hash" and has(x, old) for x in sub(body)):
            return
        self.combine(g, e, body, old)

    def combine(self, g, e, body, old):
        """the previous value must be multiplied or shifted, so that order counts, and the new one added"""
        ops = [x for x in sub(body) if x[0] == "bin" and has(x, old)]
        names = {x[1] for x in ops}
        if not names:
            return
        if names & {"BitAnd", "Mod", "FloorDiv", "RShift", "Div"} and body[0] == "bin" and body[1] in ("BitAnd", "FloorDiv", "RShift"):
            self.bad("mixing", e.node, "mixing loses what was in the fingerprint before", g)
        if "BitOr" in names:
            self.bad("mixing", e.node, "or-ing values into the fingerprint loses what they were", g)
        grow = [x for x in ops if x[1] in ("Mult", "LShift", "Pow")]
        if not grow and names <= {"Add", "BitXor", "Sub"}:
            self.bad("mixing", e.node, "the order in which values are mixed into the fingerprint does not count", g)
        for x in grow:
            o = x[3] if has(x[2], old) else x[2]
            n = self.number(o, g)
            if n is not None and (x[1] == "Mult" and n in (0, 1, -1) or x[1] == "LShift" and n == 0):
                self.bad("mixing", e.node, "the order in which values are mixed into the fingerprint does not count", g)

    def number(self, t, g):
        if t is None:
            return None
        if t[0] == "const" and isinstance(t[1], int):
            return t[1]
        if t[0] == "attr" and t[1] == ("self",) and g.cls is not None:
            try:
                v = g.cls.assigns.get(t[2]) if hasattr(g.cls, "assigns") else None
                for s in g.cls.node.body:
                    if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == t[2] for x in s.targets):
                        v = ast.literal_eval(s.value) if not isinstance(s.value, ast.BinOp) else eval(compile(ast.Expression(s.value), "", "eval"), {"__builtins__": {}})
                        return v if isinstance(v, int) else None
            except Exception:
                return None
        if t[0] == "bin":
            a, b = self.number(t[2], g), self.number(t[3], g)
            if a is not None and b is not None and 0 <= b < 256:
                return {"Sub": a - b, "Add": a + b, "LShift": a << b, "Mult": a * b}.get(t[1])
        return None

    def lams(self, g):
        if not hasattr(self, "_lams"):
            self._lams = {}
        if g not in self._lams:
            w = Walk(self.prj, self.fold)
            w.root(g, g.cls)
            self._lams[g] = {uid: f[0] for uid, f in w.lambdas.items()}
        return self._lams[g]

    def lam(self, g, e, f):
        if not f.is_lambda:
            return
        w = Walk(self.prj, self.fold)
        ps = f.allparams
        if len(ps) != 2:
            return
        from ..terms import Frame, State
        w.stack.append(Frame(f, None, None))
        v = w.expr(f.node.body, State({p: ("param", p) for p in ps}, []))
        x, y = ("param", ps[0]), ("param", ps[1])
        if not has(v, x) or not has(v, y):
            self.bad("mixing", e.node, "the mixing of several values uses only one of them", g)
            return
        if any(z[0] == "call" and z[1] == "hash" for z in sub(v)):
            return
        self.combine(g, e, v, x)
        for z in sub(v):
            if z[0] == "bin" and z[1] in ("BitAnd", "Mod", "RShift", "FloorDiv") and has(z[2], y) and not has(z[2], x):
                n = self.number(z[3], g)
                if n is not None and (z[1] not in ("BitAnd", "Mod") or n < (1 << 32) - 1):
                    self.bad("mixing", e.node, "only part of each value is mixed in", g)

    def equality(self, g, c):
        w = Walk(self.prj, self.fold)
        w.root(g, c)
        ps = g.allparams[1:]
        if not ps:
            return
        o = ("param", ps[0])
        names = {x[1].rsplit(".", 1)[-1] for x in ()}
        for fs, v, node in w.returns:
            v = canon(v)
            if v in (FALSE, NONE) or v[0] in ("builtin", "global", "opaque", "pcall") or any(x[0] in ("opaque", "pcall", "loopvar", "gen") for x in sub(v)):
                continue
            def same(a):
                a = truth(a)
                if a[0] == "cmp" and a[1] in ("is",) and {a[2], a[3]} == {("self",), o}:
                    return True
                return a[0] == "cmp" and a[1] == "==" and any(x == ("attr", ("self",), "hashed") for x in sub(a)) and any(x == ("attr", o, "hashed") for x in sub(a))
            if not implies([canon(f) for f in fs] + [truth(v)], same):
                self.bad("equality", text(node) if not isinstance(node, str) else node, "fingerprints count as equal without being so", g)

    # ---- callers ----------------------------------------------------------------------------------------------------
    def callers(self):
        """whoever has fingerprints calculated says whether drafts are in use"""
        f = self.f
        ps = [p for p in f.allparams if "draft" in p.lower()]
        if not ps or ps[0] not in f.defaults:
            return
        for g in self.prj.funcs:
            if g is f or g.module.tree is None:
                continue
            for n in g.own_nodes() if hasattr(g, "own_nodes") else []:
                pass
            from ..core import walk_own, bind
            for n in walk_own(g.node):
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name):
                    continue
                self.rep.count("callers")
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                i = f.params.index(ps[0]) - 1 if ps[0] in f.params else None
                given = next((k.value for k in n.keywords if k.arg == ps[0]), n.args[i] if i is not None and len(n.args) > i else None)
                if given is None or isinstance(given, ast.Constant) and not given.value:
                    self.bad("draft-setting", n, "fingerprints are calculated here as if drafts were not in use: those of the same content differ from others", g)


def run(prj, fold, rep):
    rep.rule("in Ldml._calc_hashes tag, text, the content fingerprints of all children in order and name and value of every attribute reach the content fingerprint, tag and distinguishing attributes the key "
             "fingerprint (truth table over names and draft handling), the mixing of the fingerprint class depends on every value, on the previous state and on the order, and equality compares the state")
    f = prj.need("Ldml", "_calc_hashes")
    d = Decide(prj, fold, rep, f, prj.cls("Ldml"))
    d.run()
    if hasattr(d, "gave"):
        d.mixing()
    d.callers()


_SRC = '''
import functools
class _minhash:
    _mask = 0xFFFFFFFFFFFFFFFF
    def __init__(self, hasher=hash, nominhash=True):
        self.minhash = None
        self.hashed = 0
        self.hasher = hasher
    def __eq__(self, other):
        return self.hashed == other.hashed and self.minhash == other.minhash
    def update(self, *vec):
        h = [self.hasher(x) for x in vec]
        self.hashed = functools.reduce(lambda x,y:x * 1000003 + y, h, self.hashed) & self._mask
    def merge(self, aminh):
        self.hashed = (self.hashed * 1000003 + aminh.hashed) & self._mask
class Ldml:
    silns = "urn"
    def normalise(self, base, usedrafts=False):
        self._calc_hashes(base, usedrafts=usedrafts)
    def _calc_hashes(self, base, usedrafts=False):
        base.contentHash = _minhash(nominhash = True)
        for b in base:
            base.contentHash.merge(b.contentHash)
        if base.text: base.contentHash.update(*(base.text.split("\\n")))
        distkeys = set(self.keys)
        if base.tag in self.nonkeyContexts:
            distkeys -= self.nonkeyContexts[base.tag]
        if base.tag in self.keyContexts:
            distkeys |= self.keyContexts[base.tag]
        if usedrafts:
            distkeys.discard('draft')
        base.attrHash = _minhash(nominhash = True)
        base.attrHash.update(base.tag)
        for k, v in sorted(base.items()):
            if usedrafts and k == 'alt':
                val = v
            elif k in distkeys:
                base.attrHash.update(k, v)
            elif not usedrafts or (k != 'draft' and k != 'alt' and k != '{'+self.silns+'}alias'):
                base.contentHash.update(k, v)
        base.contentHash.merge(base.attrHash)
'''


def _x(name, want, *edits):
    s = _SRC
    for a, b in edits:
        assert a in s, (name, a)
        s = s.replace(a, b)
    return (name, {"lib/sldr/ldml.py": s}, want)


EXAMPLES = [
    _x("as it should be", False),
    _x("no tag", ["tag-left-out", "tag-left-out"], ("        base.attrHash.update(base.tag)\n", "")),
    _x("text of leaves only", ["text-left-out"], ("if base.text:", "if base.text and not len(base):")),
    _x("text in lower case", ["text-left-out"], ("base.text.split(", "base.text.lower().split(")),
    _x("children with text only", ["children-left-out"], ("            base.contentHash.merge(b", "            if b.text: base.contentHash.merge(b")),
    _x("keys of children", ["children-left-out"], ("merge(b.contentHash)", "merge(b.attrHash)")),
    _x("children sorted", ["children-left-out"], ("for b in base:", "for b in sorted(base, key=lambda x: x.tag):")),
    _x("references left out", ["attribute-left-out"], ("            if usedrafts and k == 'alt':", "            if k == 'references': continue\n            if usedrafts and k == 'alt':")),
    _x("alt left out always", ["attribute-left-out"], ("if usedrafts and k == 'alt'", "if k == 'alt'")),
    _x("draft left out always", ["attribute-left-out"], ("not usedrafts or (k != 'draft' and", "(k != 'draft' and")),
    _x("distinguishing only", ["attribute-left-out"], ("            elif not usedrafts or (k != 'draft' and k != 'alt' and k != '{'+self.silns+'}alias'):\n                base.contentHash.update(k, v)\n", "")),
    _x("values only", ["attribute-left-out"], ("                base.contentHash.update(k, v)", "                base.contentHash.update(v)")),
    _x("values in lower case", ["attribute-left-out"], ("                base.contentHash.update(k, v)", "                base.contentHash.update(k, v.lower())")),
    _x("key too early", True, ("        base.contentHash.merge(base.attrHash)\n", ""), ("        for k, v in sorted", "        base.contentHash.merge(base.attrHash)\n        for k, v in sorted")),
    _x("key not merged", True, ("        base.contentHash.merge(base.attrHash)\n", "")),
    _x("no contexts", ["key-attribute-left-out"], ("distkeys |= self", "distkeys = distkeys; self")),
    _x("sum of hashes", ["mixing"], ("(self.hashed * 1000003 + aminh.hashed)", "(self.hashed + aminh.hashed)")),
    _x("xor", ["mixing"], ("x * 1000003 + y", "x ^ y")),
    _x("short mask", True, ("0xFFFFFFFFFFFFFFFF", "0xFFFF")),
    _x("first only", ["mixing"], ("for x in vec]", "for x in vec[:1]]")),
    _x("equality of minhash only", ["equality"], ("self.hashed == other.hashed and ", "")),
    _x("draft setting", ["draft-setting"], ("self._calc_hashes(base, usedrafts=usedrafts)", "self._calc_hashes(base)")),
    _x("local objects", False, ("        base.contentHash = _minhash(nominhash = True)\n", "        ch = _minhash(nominhash=True)\n        ah = _minhash(nominhash=True)\n"),
       ("        base.attrHash = _minhash(nominhash = True)\n", ""), ("base.contentHash.", "ch."), ("base.attrHash.", "ah."), ("merge(base.attrHash)\n", "merge(ah)\n        base.contentHash, base.attrHash = ch, ah\n")),
    _x("by name", False, ("for k, v in sorted(base.items()):\n", "for k in sorted(base.keys()):\n            v = base.get(k)\n")),
    _x("by name in attrib", False, ("for k, v in sorted(base.items()):\n", "for k in sorted(base.attrib):\n            v = base.attrib[k]\n")),
    _x("tuple of names", False, ("(k != 'draft' and k != 'alt' and k != '{'+self.silns+'}alias')", "k not in ('draft', 'alt', '{'+self.silns+'}alias')")),
    _x("continue", False, ("            if usedrafts and k == 'alt':\n                val = v\n            elif k in", "            if usedrafts and k == 'alt':\n                continue\n            if k in")),
]
