"""Models of strings the code builds: trees of fixed text and document data, the transformations applied to the data, and
the lexical states an XML text passes through.  The model is extracted from the syntax tree; the code itself is never run.

values (hashable tuples)
  ('lit', s)              fixed text
  ('base', key, chars)    document data; chars: the only characters it can have (frozenset) or None
  ('opaque', key)         something the model does not know; nothing is claimed about it
  ('op', name, args)      a library string function with fixed meaning applied to values
  ('seq', (v, ...))       concatenation
  ('alt', ((conds, v), ...))   one of several, conds: frozenset of (condition, truth)
  ('star', v)             any number of times
  ('acc', key)            what an accumulator held before the loop body
  ('list', v)             a list; v is made of ('item', value)
  ('tup', (v, ...)), ('const', Const), ('fn', func), ('writer',), ('none',)
  ('at', node, v)         output written by node
"""
import html, itertools, re

EMPTY = ("lit", "")
NONE = ("none",)


class Const:
    """a folded constant that is not a string"""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash(type(self.v).__name__)

    def __repr__(self):
        return "Const(%r)" % (self.v,)


class NodeRef:
    """a syntax node compared by identity"""
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, NodeRef) and self.n is o.n

    def __hash__(self):
        return id(self.n)


def seq(*vs):
    res = []
    for v in vs:
        if v[0] == "seq":
            res.extend(v[1])
        elif v != EMPTY:
            res.append(v)
    out = []
    for v in res:
        if out and v[0] == "lit" and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + v[1])
        else:
            out.append(v)
    if not out:
        return EMPTY
    return out[0] if len(out) == 1 else ("seq", tuple(out))


def alt(choices):
    """choices: list of (conds, value)"""
    vals = {v for _, v in choices}
    if len(vals) == 1:
        return choices[0][1]
    return ("alt", tuple(choices))


def star(v):
    return EMPTY if v == EMPTY else ("star", v)


def items_of(v):
    """item structure of a list value"""
    return v[1] if v[0] == "list" else None


def join(sep, tree, first=True):
    """text of sep.join(list).  tree made of item/seq/alt/star"""
    def strip(t):
        k = t[0]
        if k == "item":
            return t[1]
        if k == "seq":
            return seq(*[strip(x) for x in t[1]])
        if k == "alt":
            return alt([(c, strip(x)) for c, x in t[1]])
        if k == "star":
            return star(strip(t[1]))
        return t
    if sep == EMPTY:
        return strip(tree)

    def lead(t):          # every item with the separator before it
        k = t[0]
        if k == "item":
            return seq(sep, t[1])
        if k == "seq":
            return seq(*[lead(x) for x in t[1]])
        if k == "alt":
            return alt([(c, lead(x)) for c, x in t[1]])
        if k == "star":
            return star(lead(t[1]))
        return t

    def begin(t):         # (text when at least one item, can be empty)
        k = t[0]
        if k == "item":
            return t[1], False
        if k == "seq":
            outs, rest = [], list(t[1])
            while rest:
                x = rest.pop(0)
                b, e = begin(x)
                if b is not None:
                    outs.append((frozenset(), seq(b, *[lead(y) for y in rest])))
                if not e:
                    return alt(outs), False
            return (alt(outs) if outs else None), True
        if k == "alt":
            outs, empty = [], False
            for c, x in t[1]:
                b, e = begin(x)
                empty |= e
                if b is not None:
                    outs.append((c, b))
            return (alt(outs) if outs else None), empty
        if k == "star":
            b, _ = begin(t[1])
            return (seq(b, star(lead(t[1]))) if b is not None else None), True
        if t == EMPTY:
            return None, True
        return t, False
    b, e = begin(tree)
    if b is None:
        return EMPTY
    return alt([(frozenset(), b), (frozenset(), EMPTY)]) if e else b


# ---- evaluation on sample words ------------------------------------------------------------------------------------------
class Opaque(Exception):
    pass


class TooMany(Exception):
    pass


def bases(v, res=None):
    res = set() if res is None else res
    k = v[0]
    if k == "base":
        res.add(v)
    elif k == "op":
        for a in v[2]:
            if isinstance(a, tuple):
                bases(a, res)
    elif k == "seq":
        for x in v[1]:
            bases(x, res)
    elif k == "alt":
        for c, x in v[1]:
            bases(x, res)
            for cc, _ in c:
                cbases(cc, res)
    elif k in ("star", "item", "list"):
        bases(v[1], res)
    elif k == "at":
        bases(v[2], res)
    return res


def cbases(c, res):
    for a in c:
        if isinstance(a, tuple) and a:
            if a[0] in ("base", "op", "seq", "alt", "lit"):
                bases(a, res)
            elif a[0] in CONDS:
                cbases(a, res)


def asked(v, res):
    """{base: the fixed texts it is compared with} in the conditions of a value or in conditions"""
    if not isinstance(v, tuple) or not v:
        return res
    if v[0] in ("in", "ends", "starts", "eq") and len(v) == 3:
        for a, b in ((v[1], v[2]), (v[2], v[1])):
            if isinstance(a, tuple) and a and a[0] == "lit" and len(a[1]) < 40:
                for x in bases(b):
                    res.setdefault(x, set()).add(a[1])
    for x in v:
        if isinstance(x, (tuple, frozenset)):
            for y in x if isinstance(x, frozenset) else (x,):
                asked(y, res)
    return res


def words(v, env):
    """set of texts a value may stand for when the bases have the given texts"""
    k = v[0]
    if k == "lit":
        return {v[1]}
    if k == "base":
        return {env[v]}
    if k == "seq":
        res = {""}
        for x in v[1]:
            w = words(x, env)
            res = {a + b for a in res for b in w}
            if len(res) > 400:
                raise TooMany
        return res
    if k == "alt":
        res = set()
        for c, x in v[1]:
            if all(holds(cc, env) in (None, t) for cc, t in c):
                res |= words(x, env)
        return res
    if k == "star":
        w = words(v[1], env)
        return {""} | w | {a + b for a in w for b in w}
    if k == "op":
        args = [sorted(words(a, env)) if isinstance(a, tuple) else [a] for a in v[2]]
        res = set()
        for c in itertools.product(*args):
            try:
                res.add(OPS[v[1]](*c))
            except Exception:
                raise Opaque
            if len(res) > 400:
                raise TooMany
        return res
    if k == "at":
        return words(v[2], env)
    raise Opaque


def holds(c, env):
    """truth of a condition on sample words: True, False or None"""
    try:
        k = c[0]
        if k == "not":
            r = holds(c[1], env)
            return None if r is None else not r
        if k in ("and", "or"):
            rs = [holds(x, env) for x in c[1:]]
            stop = k == "or"
            return stop if stop in rs else (not stop) if all(r is (not stop) for r in rs) else None
        if k == "in":
            a, b = words(c[1], env), words(c[2], env)
            rs = {x in y for x in a for y in b}
        elif k == "ends":
            rs = {y.endswith(x) for x in words(c[1], env) for y in words(c[2], env)}
        elif k == "starts":
            rs = {y.startswith(x) for x in words(c[1], env) for y in words(c[2], env)}
        elif k == "re":
            p = re.compile(c[1], c[2])
            rs = {getattr(p, c[3])(y) is not None for y in words(c[4], env)}
        elif k == "truth":
            rs = {bool(y) for y in words(c[1], env)}
        elif k == "eq":
            rs = {x == y for x in words(c[1], env) for y in words(c[2], env)}
        else:
            return None
        return rs.pop() if len(rs) == 1 else None
    except (Opaque, TooMany, KeyError, re.error):
        return None


CONDS = ("not", "and", "or", "in", "ends", "starts", "re", "truth", "eq", "cond")


def _table_sub(pattern, flags, table, default, count, txt):
    t = table.v

    def one(m):
        if default is not None:
            d = m.group(0) if default == "group" else default[1]
            return t.get(m.group(0), d)
        return t[m.group(0)]
    return re.sub(pattern, one, txt, count=count, flags=flags)


def _charmap(table, txt):
    return "".join(table.v.get(c, c) for c in txt)


def _until(needle, a, b, txt):
    for _ in range(60):
        if needle not in txt:
            break
        txt = txt.replace(a, b)
    return txt


OPS = {
    "replace": lambda t, a, b: t.replace(a, b),
    "replacen": lambda t, a, b, n: t.replace(a, b, n.v),
    "resub": lambda p, f, r, n, t: re.sub(p, r, t, count=n, flags=f),
    "tablesub": _table_sub,
    "translate": lambda table, t: t.translate(table.v),
    "charmap": _charmap,
    "until": _until,
    "strip": lambda t, *a: t.strip(*a), "lstrip": lambda t, *a: t.lstrip(*a), "rstrip": lambda t, *a: t.rstrip(*a),
    "upper": lambda t: t.upper(), "lower": lambda t: t.lower(), "title": lambda t: t.title(),
    "html.escape": lambda t, q: html.escape(t, q.v),
    "sax.escape": lambda t, m: __import__("xml.sax.saxutils", fromlist=["x"]).escape(t, m.v),
    "sax.quoteattr": lambda t, m: __import__("xml.sax.saxutils", fromlist=["x"]).quoteattr(t, m.v),
    "slice": lambda t, a, b: t[a.v:b.v],
    "joinsplit": lambda t, a, b: b.join(t.split(a)),
    "repr": lambda t: repr(t),
}


# ---- the lexer ------------------------------------------------------------------------------------------------------------
class Bad(Exception):
    pass


NAMESTOP = set(" \t\r\n/>=")
ENT = {"lt", "gt", "amp", "quot", "apos"}


def step(st, ch):
    """st: (mode, aux, stack).  Returns the next state or raises Bad(message)"""
    mode, aux, stack = st
    if mode in ("start", "content", "c]", "c]]"):
        if ch == "<":
            return ("lt", "start" if mode == "start" else "", stack)
        if ch == "&":
            return ("amp", ("content", ""), stack)
        if ch == ">" and mode == "c]]":
            raise Bad("']]>' in element text")
        if ch == "]":
            return ("c]]" if mode in ("c]", "c]]") else "c]", "", stack)
        return ("content", "", stack)
    if mode == "amp":
        ret, buf = aux
        if ch == ";":
            if buf in ENT or re.match(r"^#(\d+|x[0-9A-Fa-f]+)$", buf):
                return (ret, "", stack) if ret == "content" else (ret[0], ret[1], stack)
            raise Bad("'&%s;' is no known entity" % buf)
        if not re.match(r"[#\w.\-]", ch) or len(buf) > 30:
            raise Bad("'&' is not escaped")
        return ("amp", (ret, buf + ch), stack)
    if mode == "lt":
        if ch == "/":
            return ("endname", (), stack)
        if ch == "!":
            return ("bang", "", stack)
        if ch == "?":
            return ("pi", None if aux == "start" else "", stack)
        if ch in " \t\r\n<>&=\"'":
            raise Bad("'<' is not escaped")
        return ("name", (ch,), stack)
    if mode == "name":
        if ch == ">":
            return ("content", "", stack + (aux,))
        if ch == "/":
            return ("slash", aux, stack)
        if ch in " \t\r\n":
            return ("tag", aux, stack)
        if ch in "<=\"'&":
            raise Bad("%r in a tag name" % ch)
        return ("name", addch(aux, ch), stack)
    if mode == "tag":           # inside a start tag after white space
        if ch in " \t\r\n":
            return st
        if ch == ">":
            return ("content", "", stack + (aux,))
        if ch == "/":
            return ("slash", aux, stack)
        if ch in "<=\"'&":
            raise Bad("%r inside a start tag" % ch)
        return ("attname", aux, stack)
    if mode == "slash":
        if ch == ">":
            return ("content", "", stack)
        raise Bad("'/' inside a start tag")
    if mode == "attname":
        if ch == "=":
            return ("eq", aux, stack)
        if ch in " \t\r\n":
            return ("eqw", aux, stack)
        if ch in "<>\"'/&":
            raise Bad("attribute without a value")
        return st
    if mode == "eqw":
        if ch in " \t\r\n":
            return st
        if ch == "=":
            return ("eq", aux, stack)
        raise Bad("attribute without a value")
    if mode == "eq":
        if ch in " \t\r\n":
            return st
        if ch in "\"'":
            return ("val" + ch, aux, stack)
        raise Bad("attribute value without quotes")
    if mode in ("val\"", "val'"):
        if ch == mode[3]:
            return ("after", aux, stack)
        if ch == "<":
            raise Bad("'<' in an attribute value")
        if ch == "&":
            return ("amp", ((mode, aux), ""), stack)
        return st
    if mode == "after":         # straight after an attribute value
        if ch in " \t\r\n":
            return ("tag", aux, stack)
        if ch == ">":
            return ("content", "", stack + (aux,))
        if ch == "/":
            return ("slash", aux, stack)
        raise Bad("no space after an attribute value")
    if mode == "endname":
        if ch == ">" or ch in " \t\r\n":
            if not aux:
                raise Bad("end tag without a name")
            if not stack:
                raise Bad("end tag without a start tag")
            if stack[-1] != aux:
                raise Bad("end tag name differs from the start tag's")
            return (("content", "", stack[:-1]) if ch == ">" else ("endws", "", stack[:-1]))
        if ch in "<=\"'&/":
            raise Bad("%r in an end tag" % ch)
        return ("endname", addch(aux, ch), stack)
    if mode == "endws":
        if ch == ">":
            return ("content", "", stack)
        if ch in " \t\r\n":
            return st
        raise Bad("text in an end tag")
    if mode == "bang":
        b = aux + ch
        if b == "--":
            return ("comment", "", stack)
        if b == "[CDATA[":
            return ("cdata", "", stack)
        if b == "DOCTYPE":
            return ("doctype", "", stack)
        if not any(x.startswith(b) for x in ("--", "[CDATA[", "DOCTYPE")):
            raise Bad("'<!%s' begins nothing" % b)
        return ("bang", b, stack)
    if mode == "doctype":
        return ("content", "", stack) if ch == ">" else st
    if mode == "comment":
        return ("comment-", "", stack) if ch == "-" else st
    if mode == "comment-":
        return ("comment--", "", stack) if ch == "-" else ("comment", "", stack)
    if mode == "comment--":
        if ch == ">":
            return ("content", "", stack)
        raise Bad("'--' in a comment")
    if mode == "cdata":
        return ("cdata]", "", stack) if ch == "]" else st
    if mode == "cdata]":
        return ("cdata]]", "", stack) if ch == "]" else ("cdata", "", stack)
    if mode == "cdata]]":
        if ch == ">":
            return ("content", "", stack)
        return st if ch == "]" else ("cdata", "", stack)
    if mode == "pi":
        if aux is not None and len(aux) < 4:
            aux += ch
            if aux in ("xml ", "xml?"):
                raise Bad("an XML declaration that is not at the start of the output")
            if ch != "?":
                return ("pi", aux, stack)
        return ("pi?", "", stack) if ch == "?" else st
    if mode == "pi?":
        return ("content", "", stack) if ch == ">" else ("pi", None, stack)
    raise Bad("unknown state " + mode)


def addch(aux, ch):
    """names are kept as tuples of text and values"""
    if aux and isinstance(aux[-1], str):
        return aux[:-1] + (aux[-1] + ch,)
    return aux + (ch,)


def feed(st, s):
    for ch in s:
        st = step(st, ch)
    return st


NAMEMODES = ("lt", "name", "endname", "attname", "tag")
ALPHABET = {"content": "&<>]\"'a\n;", "comment": "-a>\n", "cdata": "]>a\n[", "val": "&<>\"'a\n", "pi": "?>a"}
LENGTH = {"content": 3, "comment": 4, "cdata": 4, "val": 3, "pi": 3}
EXTRA = {"content": ["]]>", "a]]>a", "&lt;", "<a>", "&amp;&", "a&b<c>d"], "val": ["&lt;", "a\"b'c<d>&", "&quot;"], "comment": ["a-->b", "------"],
         "cdata": ["]]>]]>", "]]]>", "]]>>", "a]]>b"], "pi": ["a?>b"]}


def family(mode):
    if mode.startswith("c]") or mode in ("content", "start"):
        return "content"
    if mode.startswith("comment"):
        return "comment"
    if mode.startswith("cdata"):
        return "cdata"
    if mode.startswith("val"):
        return "val"
    if mode.startswith("pi"):
        return "pi"
    return None


def samples(fam, chars=None):
    if chars is not None:
        cs = sorted(chars, key=lambda c: (c not in ALPHABET[fam], c))[:4]
        return [""] + cs
    al = ALPHABET[fam]
    res = [""]
    for n in range(1, LENGTH[fam] + 1):
        res.extend("".join(p) for p in itertools.product(al, repeat=n))
    return res + EXTRA[fam]


class Lexer:
    """runs the XML states over an output tree.  errors: {(message, node): piece}"""
    LIMIT = 4000

    def __init__(self):
        self.errors = {}
        self.cache = {}
        self.holes = {}
        self.opaque = 0
        self.node = None
        self.gaveup = False

    def err(self, msg, piece):
        self.errors.setdefault((msg, NodeRef(self.node)), piece)

    def run(self, tree, states):
        """states: set of (lexer state, decisions)"""
        if len(states) > self.LIMIT:
            self.gaveup = True
            return set()
        k = tree[0]
        if k == "lit":
            out = set()
            for st, d in states:
                try:
                    out.add((feed(st, tree[1]), d))
                except Bad as e:
                    self.err(str(e), tree)
            return out
        if k == "seq":
            for x in tree[1]:
                states = self.run(x, states)
            return states
        if k == "at":
            save, self.node = self.node, tree[1].n
            states = self.run(tree[2], states)
            self.node = save
            return states
        if k == "alt" and structural(tree):
            out = set()
            for conds, x in tree[1]:
                sub = set()
                for st, d in states:
                    if not any((c, not t) in d for c, t in conds):
                        sub.add((st, d | conds))
                out |= self.run(x, sub) if sub else set()
            return self.thin(out)
        if k == "star" and structural(tree):
            seen = set(states)
            cur = set(states)
            for _ in range(12):
                nxt = set()
                for s in cur:
                    nxt |= {(st, s[1]) for st, d in self.run(tree[1], {s})}
                cur = nxt - seen
                if not cur:
                    return seen
                seen |= nxt
                if any(len(st[2]) > 12 for st, _ in cur):
                    self.err("a loop opens elements without closing them", tree)
                    return seen
            return seen
        if k in ("balanced",):
            out = set()
            for st, d in states:
                if st[0] in ("start", "content", "c]", "c]]"):
                    out.add((("content", "", st[2]), d))
                else:
                    self.err("elements are written inside " + where(st[0]), tree)
            return out
        out = set()
        for st, d in states:
            out |= {(s, d) for s in self.hole(tree, st, d)}
        return out

    def thin(self, states):
        """forgets decisions when there are too many combinations"""
        if len(states) <= 300:
            return states
        return {(s, frozenset()) for s, _ in states}

    def hole(self, v, st, d):
        mode, aux, stack = st
        if mode in NAMEMODES:
            if mode == "tag":
                return {("attname", aux, stack)}
            if mode == "attname":
                return {st}
            a = () if mode == "lt" else aux
            return {("name" if mode in ("lt", "name") else mode, a + (v,), stack)}
        fam = family(mode)
        if fam is None:
            if mode == "eq":       # something that brings its own quotes
                fam = "val"
            else:
                self.opaque += 1
                return {st}
        key = (v, mode, aux if mode.startswith("val") or mode == "eq" else None, frozenset(x for x in d))
        if key in self.cache:
            errs, modes = self.cache[key]
        else:
            errs, modes = self.cache[key] = self.decide(v, st, d, fam)
        for m in errs:
            self.err(m, v)
        return {(m, a, stack) for m, a in modes}

    def decide(self, v, st, d, fam):
        mode, aux, stack = st
        bs = sorted(bases(v), key=repr)
        free = [b for b in bs if b[2] is None]
        lists = []
        lits = asked(v, {})
        for c, _ in d:
            asked(c, lits)
        for b in bs:
            if b[2] is not None:
                lists.append(samples(fam, b[2]))
            elif len(free) == 1:
                lists.append(samples(fam))
            else:
                al = ALPHABET[fam]
                lists.append([""] + list(al) + ([x + y for x in al for y in al] if len(free) == 2 else []))
            more = [w for w in sorted(lits.get(b, ()))[:6] if b[2] is None or set(w) <= set(b[2])]
            lists[-1] = list(lists[-1]) + [w for w in more if w not in lists[-1]]
            if b[2] is None and len(free) <= 2:
                lists[-1] += [x for w in more for y in ALPHABET[fam] for x in (w + y, y + w) if len(free) == 1 or x == w + y]
        errs, modes = {}, set()
        self.holes[v] = fam
        n = 0
        try:
            for combo in itertools.product(*lists):
                n += 1
                if n > 60000:
                    break
                env = dict(zip(bs, combo))
                if any(holds(c, env) is (not t) for c, t in d):
                    continue
                for w in words(v, env):
                    try:
                        r = feed((mode, aux, ()), w)
                    except Bad as e:
                        errs.setdefault(str(e), w)
                        continue
                    if r[0] == "amp":
                        errs.setdefault("'&' is not escaped", w)
                    elif family(r[0]) != fam and not (mode == "eq" and r[0] in ("after", "eq")):
                        errs.setdefault("the data can end or begin %s" % where(mode if family(r[0]) in (None, "content") and fam != "content" else r[0]), w)
                    elif fam == "content" and r[2] != ():
                        errs.setdefault("the data can open an element", w)
                    else:
                        modes.add((r[0], r[1]))
        except (Opaque, TooMany):
            self.opaque += 1
            return {}, {(mode, aux)}
        if errs or not modes:
            modes = {(mode, aux)}
        return errs, modes


def where(mode):
    f = family(mode)
    return {"content": "element text", "comment": "a comment", "cdata": "a CDATA block", "val": "an attribute value", "pi": "a processing instruction"}.get(
        f, "a tag" if mode in ("lt", "name", "tag", "attname", "after", "eq", "endname", "slash") else mode)


def structural(t):
    """contains literal markup, so it is lexed piece by piece; otherwise it is one piece of data"""
    k = t[0]
    if k == "lit":
        return True
    if k in ("at", "balanced"):
        return True
    if k == "seq":
        return any(structural(x) for x in t[1])
    if k == "alt":
        return any(structural(x) for _, x in t[1])
    if k == "star":
        return structural(t[1])
    return False
