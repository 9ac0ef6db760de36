"""A plain model of a registry and the operations on it, shared by C17 and C18."""
from eth_abi.base import BaseCoder
from eth_abi.decoding import BaseDecoder
from eth_abi.encoding import BaseEncoder
from eth_abi.exceptions import MultipleEntriesFound, NoEntriesFound
from eth_abi.registry import ABIRegistry, Equals

from props import ref

TYPES = ("aa", "bb")


class World:
    """matching behaviour of the predicates: one symbolic bool per predicate and type"""

    def __init__(self, S):
        self.S = S
        self.m = {}

    def match(self, i, t):
        if t not in TYPES:
            return False
        if (i, t) not in self.m:
            self.m[i, t] = self.S.bool("m%d_%s" % (i, t))
        return self.m[i, t]


class Pred:
    """a predicate; two with the same index are equal but different objects"""

    def __init__(self, w, i):
        self.w = w
        self.i = i

    def __call__(self, t):
        return self.w.match(self.i, t)

    def __eq__(self, o):
        return isinstance(o, Pred) and o.i == self.i

    def __hash__(self):
        return self.i

    def __repr__(self):
        return "P%d" % self.i


class Table:
    """current registrations of one side: (key, label, tag)"""

    def __init__(self, rows=()):
        self.rows = list(rows)

    def add(self, lookup, label, tag):
        k = key(lookup)
        if isinstance(lookup, str):
            label = lookup
        for k2, l2, _ in self.rows:
            if k2 == k or (label is not None and l2 == label):
                return False
        self.rows.append((k, label, tag))
        return True

    def remove(self, x):
        for i, (k, l, _) in enumerate(self.rows):
            if (l == x) if isinstance(x, str) else (k == key(x)):
                del self.rows[i]
                return True
        return False

    def tags(self, w, t):
        out = []
        for k, _, tag in self.rows:
            if k[0] == "p":
                if w.match(k[1], t):
                    out.append(tag)
            elif k[1] == t:
                out.append(tag)
        return out


def key(lookup):
    if isinstance(lookup, str):
        return ("s", lookup)
    if isinstance(lookup, Pred):
        return ("p", lookup.i)
    return ("s", lookup.value)


class Model:
    def __init__(self):
        self.enc = Table()
        self.dec = Table()

    def copy(self):
        m = Model()
        m.enc = Table(self.enc.rows)
        m.dec = Table(self.dec.rows)
        return m


class Enc(BaseEncoder):
    tag = None

    def encode(self, value):
        return ref.word(self.tag)

    def validate_value(self, value):
        return None


class Dec(BaseDecoder):
    is_dynamic = True
    tag = None

    def decode(self, stream):
        stream.read(32)
        return self.tag


def coder(kind, side, tag):
    """what is registered: a plain callable, a coder class or a decoder instance"""
    if kind == "class" or (kind == "instance" and side == "e"):
        def make(cls, type_str, registry):
            c = cls()
            c.made = type_str
            c.registry = registry
            return c
        return type("C", (Enc if side == "e" else Dec,),
                    {"tag": tag, "from_type_str": classmethod(make)})
    if kind == "static class":
        return type("C", (Enc if side == "e" else Dec,),
                    {"tag": tag, "is_dynamic": False,
                     "from_type_str": classmethod(lambda cls, type_str, registry: cls())})
    if kind == "instance":
        d = Dec()
        d.tag = tag
        return d

    def f(x):
        if side == "e":
            return ref.word(tag)
        x.read(32)
        return tag
    f.tag = tag
    return f


def apply(S, w, r, model, op, tag, kind):
    """perform op on the registry r and on the model; check that it is refused iff it should be"""
    what, x, label = op
    if isinstance(x, int):
        x = Pred(w, x)
    elif x == "=aa":
        x = Equals("aa")
    kw = {} if label is None else {"label": label}
    if what == "re":
        ok = model.enc.add(x, label, tag)
        res, e = ref.outcome(r.register_encoder, x, coder(kind, "e", tag), **kw)
    elif what == "rd":
        ok = model.dec.add(x, label, tag)
        res, e = ref.outcome(r.register_decoder, x, coder(kind, "d", tag), **kw)
    elif what == "r":
        save = Table(model.enc.rows)
        ok = model.enc.add(x, label, tag)
        if ok:
            ok = model.dec.add(x, label, tag)
            if not ok:
                model.enc = save
        res, e = ref.outcome(r.register, x, coder(kind, "e", tag), coder(kind, "d", tag), **kw)
    elif what == "ue":
        ok = model.enc.remove(x)
        res, e = ref.outcome(r.unregister_encoder, x)
    elif what == "ud":
        ok = model.dec.remove(x)
        res, e = ref.outcome(r.unregister_decoder, x)
    else:
        ok = model.enc.remove(x)
        if ok:
            ok = model.dec.remove(x)
        res, e = ref.outcome(r.unregister, x)
    if ok:
        S.check(res == "ok", "%s refused (%s)" % (show(op), type(e).__name__))
    else:
        S.check(res == "err", "%s not refused" % show(op))
        S.cover("refused")


def show(op):
    return "%s(%s%s)" % ({"re": "register_encoder", "rd": "register_decoder", "r": "register",
                          "ue": "unregister_encoder", "ud": "unregister_decoder",
                          "u": "unregister"}[op[0]], op[1],
                         "" if op[2] is None else ", label=" + op[2])


def look_one(S, w, r, tags, get, t, kind, reg=None):
    res, got = ref.outcome(get, t)
    if len(tags) == 1:
        S.check(res == "ok", "the registered coder is not found (%s)" % type(got).__name__)
        S.check(getattr(got, "tag", None) == tags[0], "another coder is returned")
        if hasattr(got, "made"):
            S.check(got.made == t, "a coder made for another type string")
            S.check(got.registry is r, "a coder made for another registry")
        S.cover("found")
    elif len(tags) == 0:
        S.check(res == "err" and isinstance(got, NoEntriesFound), "no NoEntriesFound")
    else:
        S.check(res == "err" and isinstance(got, MultipleEntriesFound),
                "no MultipleEntriesFound")
        S.cover("several")


def look(S, w, r, model, kind, types=TYPES, sides="ed"):
    for t in types:
        if "e" in sides:
            tags = model.enc.tags(w, t)
            look_one(S, w, r, tags, r.get_encoder, t, kind)
            res, has = ref.outcome(r.has_encoder, t)
            if len(tags) > 1:
                S.check(res == "err" and isinstance(has, MultipleEntriesFound), "has_encoder")
            else:
                S.check(res == "ok" and has is (len(tags) == 1), "has_encoder")
        if "d" in sides:
            tags = model.dec.tags(w, t)
            look_one(S, w, r, tags, r.get_decoder, t, kind)
            look_one(S, w, r, tags, lambda t: r.get_decoder(t, strict=False), t, kind)


def ops(sides, register=True, unregister=True, small=False):
    """the operations one step may choose from.  Integers stand for predicates; one label equals
    a lookup string"""
    out = []
    for s in sides:
        if register:
            out += [("r" + s, "aa", None), ("r" + s, "=aa", "L"), ("r" + s, 0, None),
                    ("r" + s, 0, "L"), ("r" + s, 1, "aa"), ("r" + s, 1, "L")]
            if not small:
                out += [("r" + s, "bb", None), ("r" + s, 1, None), ("r" + s, 0, "aa"),
                        ("r" + s, "=aa", None)]
        if unregister:
            out += [("u" + s, "aa", None), ("u" + s, "L", None), ("u" + s, 0, None)]
            if s:
                out += [("u" + s, "=aa", None)]
            if not small:
                out += [("u" + s, "bb", None), ("u" + s, 1, None)]
    return out
