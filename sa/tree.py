"""What the checks about document trees share: which document a term belongs to, which calls change an element."""
from .terms import sub, show, truth, facts_of, negate, conj, holds, implies, atoms, NONE, const

MUTATORS = {"append", "insert", "remove", "extend", "clear", "pop", "set", "update", "setdefault", "popitem", "sort", "reverse", "__setitem__",
            "__delitem__", "__setattr__"}
COPYING = ("copy.copy", "copy.deepcopy")


def strip(t):
    """through wrappers that keep the same elements"""
    while t[0] == "call" and t[1] in ("list", "tuple", "iter", "reversed", "sorted", "set") and t[2]:
        t = t[2][0]
    return t


def fresh_list(t):
    """a new list, tuple or set, whatever it holds: changing it changes nothing else"""
    return t[0] == "call" and t[1] in ("list", "tuple", "sorted", "set", "frozenset", "dict", "collections.deque") or t[0] in ("comp", "slice", "list", "tuple", "new")


def root(t):
    while t[0] in ("elem", "key", "item", "slice", "attr", "call", "meth"):
        if t[0] == "call":
            if not t[2] or not isinstance(t[2][0], tuple):
                break
            t = t[2][0]
        else:
            t = t[1]
    return t


class Side:
    """Which terms denote elements of the tree(s) given by the root terms.  Copies are nobody's."""

    def __init__(self, roots, copies=()):
        self.roots = set(roots)
        self.copies = copies
        self.memo = {}

    def own(self, t):
        """True, False, or None when it may be either"""
        r = self.memo.get(t)
        if r is None and t not in self.memo:
            self.memo[t] = None
            r = self.memo[t] = self._own(t)
        return r

    def _own(self, t):
        if t in self.roots:
            return True
        k = t[0]
        if k in ("elem", "key", "slice"):
            return self.own(t[1])
        if k == "item":
            return self.own(t[1])
        if k == "attr":
            return self.own(t[1]) if t[2] in ("root", "alternates", "parent", "attrib", "children") else False
        if k == "call":
            if t[1] == "getattr" and len(t[2]) >= 2:
                return self.own(t[2][0])
            return self.own(t[2][0]) if t[1] in ("list", "tuple", "iter", "reversed", "sorted", "set", "enumerate") and t[2] else False
        if k == "meth":
            if t[2] in ("find", "findall", "iter", "getchildren", "iterfind", "get", "pop", "values", "items", "setdefault", "copy") and t[2] != "copy":
                if t[2] == "get" and not (t[1][0] == "attr" and t[1][2] == "alternates"):
                    return False
                return self.own(t[1])
            return False
        if k == "comp":
            return self.own(t[3])
        if k in ("phi", "if", "or", "and"):
            xs = list(t[1]) if k == "phi" else [t[2], t[3]] if k == "if" else list(t[1])
            xs = [x for x in xs if x != NONE and root(x)[0] != "loopvar"]
            rs = [self.own(x) for x in xs]
            if rs and all(r is True for r in rs):
                return True
            return False if not any(rs) and None not in rs else None
        if k == "cases":
            rs = [self.own(v) for _, v in t[1] if v != NONE]
            return True if rs and all(rs) else False if not any(rs) else None
        if k in ("opaque", "loopvar"):
            return None
        return False


def canon(t):
    """X.get(k) on a dictionary of alternates is X[k]"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "meth" and t[2] == "get" and t[3] and t[1][0] == "attr" and t[1][2] == "alternates":
        return ("item", canon(t[1]), canon(t[3][0]))
    if t and t[0] == "call" and t[1] == "getattr" and len(t[2]) >= 2 and t[2][1][0] == "const":
        return ("attr", canon(t[2][0]), t[2][1][1])
    return tuple(canon(x) if isinstance(x, tuple) else x for x in t)


def flat(t):
    """the terms a value may be"""
    if t[0] == "phi":
        return [y for x in t[1] for y in flat(x)]
    if t[0] == "if":
        return flat(t[2]) + flat(t[3])
    if t[0] == "cases":
        return [y for _, v in t[1] for y in flat(v)]
    if t[0] in ("and", "or"):
        return [y for x in t[1] for y in flat(x)]
    return [t]


def visible(t):
    """the terms inside, without where elements come from"""
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
                if x[0] in ("elem", "none"):
                    continue
            todo.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            todo.extend(x)


def unclear(facts, about=None, known=()):
    """a condition among the facts that the analysis does not understand (a flag, an unknown call)"""
    for f in facts:
        for a in atoms(f):
            for x in visible(a):
                if x[0] in ("opaque", "loopvar", "gen", "lambda", "method") or x[0] == "pcall" and x[1] not in known \
                        or x[0] == "meth" and x[2] == "__call__" or x[0] == "phi" and all(y[0] in ("const", "loopvar") for y in x[1]) \
                        or x[0] == "call" and x[1] in ("any", "all"):
                    return x
    return None
