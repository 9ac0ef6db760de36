"""C24: the kinds of arguments that are accepted, and that the kind changes nothing."""
import collections

from eth_abi import decode, encode, is_encodable
from eth_abi.codec import ABICodec, ABIDecoder, ABIEncoder
from eth_abi.exceptions import EncodingError
from eth_abi.packed import encode_packed
from eth_abi.registry import registry

from props import common, dec, ref
from sx.api import Case

INFO = dict(
    bounds="Type and value lists of the listed shapes with arbitrary contents, given as list, "
           "tuple, subclasses of them and named tuples in every combination, and in the listed "
           "other kinds of object; payloads of the listed lengths with every content, as "
           "bytes, bytearray and other objects; every pair of list lengths from 0 to 4.",
    outside="Other shapes; objects of kinds not listed in props/c24.py.",
    assumptions=common.ASSUMPTIONS)


class Lst(list):
    pass


class Tup(tuple):
    pass


class Byt(bytes):
    pass


def named(x):
    return collections.namedtuple("N", ["f%d" % i for i in range(len(x))])(*x)


SEQS = [list, tuple, Lst, Tup, named]
BYTES = [bytes, bytearray]


class Iter:
    def __init__(self, x):
        self.x = x

    def __iter__(self):
        return iter(self.x)

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return self.x[i]


NOT_SEQ = [
    ("set", set), ("frozenset", frozenset), ("iterator", iter), ("generator", lambda x: (y for y in x)),
    ("dict", lambda x: {i: y for i, y in enumerate(x)}), ("keys", lambda x: dict.fromkeys(range(len(x))).keys()),
    ("deque", collections.deque), ("UserList", collections.UserList), ("range", lambda x: range(len(x))),
    ("None", lambda x: None), ("int", len), ("text", lambda x: "a" * len(x)),
    ("bytes", lambda x: b"a" * len(x)), ("bytearray", lambda x: bytearray(len(x))),
    ("Iter", Iter), ("map", lambda x: map(lambda y: y, x)), ("zip", lambda x: zip(x)),
    ("object", lambda x: object()), ("list type", lambda x: list), ("True", lambda x: True),
]
CODEC = ABICodec(registry)
ENC = [encode, CODEC.encode, ABIEncoder(registry).encode]
DEC = [decode, CODEC.decode, ABIDecoder(registry).decode]
HOW = [(a, b, ENC[(i + j) % 3], DEC[(i + 2 * j) % 3], BYTES[(i + j) % 2])
       for i, a in enumerate(SEQS) for j, b in enumerate(SEQS)]


def kinds(S, types, lens):
    """every accepted kind of list gives the result of a plain list"""
    ts = [ref.T(t) for t in types]
    vals, absv = ref.many(S, ts, lens)
    want = ref.enc_seq(ts, absv)
    data = want
    back = tuple(ref.to_py(t, v) for t, v in zip(ts, absv))
    a, b, f, g, raw = S.choice("how", HOW)
    kind, got = ref.outcome(f, a(types), b(vals))
    S.check(kind == "ok", "encode raised %s" % type(got).__name__)
    S.check(S.eq(got, want), "the kind of list changes the encoding")
    S.check(type(got) is bytes or S.symbolic, "encode does not return bytes")
    kind, got = ref.outcome(encode_packed, a(types), b(vals))
    S.check(kind == "ok" and S.eq(got, b"".join(ref.packed(t, v) for t, v in zip(ts, absv))),
            "the kind of list changes the packed encoding")
    kind, got = ref.outcome(g, a(types), raw(data))
    S.check(kind == "ok", "decode raised %s" % type(got).__name__)
    S.check(isinstance(got, tuple), "decode does not return a tuple")
    S.check(S.eq(got, back), "the kind of list or of bytes changes the values")
    S.cover("done")


def inner(S, typ, lens):
    """the kind of sequence used for arrays and tuples inside a value makes no difference"""
    t = ref.T(typ)
    a, b = S.choice("arrays", SEQS), S.choice("tuples", SEQS)
    v, av = ref.fresh(S, t, "v", ref.Plan(lens), seq=(lambda g: a(list(g)), lambda g: b(list(g))))
    kind, got = ref.outcome(encode, [typ], [v])
    S.check(kind == "ok", "encode raised %s" % type(got).__name__)
    S.check(S.eq(got, ref.enc_seq([t], [ref.extend(t, av)])),
            "the kind of sequence changes the encoding")
    kind, ok = ref.outcome(is_encodable, typ, v)
    S.check(kind == "ok" and ok is True, "is_encodable depends on the kind of sequence")
    S.cover("done")


def refused(S, types, lens):
    """any other kind of list is refused with TypeError, whatever it contains"""
    ts = [ref.T(t) for t in types]
    vals, absv = ref.many(S, ts, lens)
    data = ref.enc_seq(ts, absv)
    name, make = S.choice("kind", NOT_SEQ)
    f = S.choice("by", [encode, encode_packed])
    which = S.choice("which", ["types", "values", "both"])
    hashable = name not in ("set", "frozenset") or not S.symbolic
    tv = make(types) if which != "values" else list(types)
    try:
        vv = make(vals) if which != "types" and hashable else list(vals)
    except TypeError:
        vv = None  # unhashable contents
    if which == "values" and not hashable:
        S.cover("skipped")
        return
    kind, got = ref.outcome(f, tv, vv)
    S.check(kind == "err" and isinstance(got, TypeError),
            "%s accepted as %s" % (name, which))
    kind, got = ref.outcome(decode, make(types), data)
    S.check(kind == "err" and isinstance(got, TypeError), "%s accepted as types" % name)
    S.cover("done")


NOT_DATA = [
    ("text", lambda d: "0x" + "00" * 64), ("None", lambda d: None), ("int", lambda d: 5),
    ("memoryview", lambda d: memoryview(bytes(64))), ("list", lambda d: [0] * 64),
    ("tuple", lambda d: (0,) * 64), ("empty list", lambda d: []), ("empty text", lambda d: ""),
    ("True", lambda d: True), ("object", lambda d: object()), ("bytes in a list", lambda d: [d]),
    ("iterator", lambda d: iter([d])), ("bytes type", lambda d: bytes),
    ("UserList", lambda d: collections.UserList([0] * 64)), ("range", lambda d: range(64)),
]


def payload_kinds(S, types, n, strict):
    """bytes and bytearray of the same content decode alike, anything else is refused"""
    data = S.bytes("data", n)
    k1, g1 = ref.outcome(decode, types, data, strict)
    k2, g2 = ref.outcome(decode, types, bytearray(data), strict=strict)
    S.check(k1 == k2, "the kind of data changes the outcome")
    if k1 == "ok":
        S.check(S.eq(g1, g2), "the kind of data changes the values")
    else:
        S.check(dec.err_name(g1) == dec.err_name(g2), "the kind of data changes the error")
    S.observe("outcome", g1 if k1 == "ok" else dec.err_name(g1))
    S.cover("compared")


def not_data(S, types):
    name, make = S.choice("kind", NOT_DATA)
    strict = S.choice("strict", [True, False])
    kind, got = ref.outcome(decode, types, make(S.bytes("d", 64)), strict=strict)
    S.check(kind == "err" and isinstance(got, TypeError), "%s accepted as data" % name)
    S.cover("done")


def arity(S, typ):
    """different numbers of types and values never encode"""
    t = ref.T(typ)
    m, n = S.choice("types", list(range(5))), S.choice("values", list(range(5)))
    a, b = S.choice("tk", [list, tuple]), S.choice("vk", [list, tuple])
    vals, absv = ref.many(S, [t] * n, [1])
    for f in (encode, encode_packed):
        kind, got = ref.outcome(f, a([typ] * m), b(vals))
        if m != n:
            S.check(kind == "err" and isinstance(got, EncodingError),
                    "%d values for %d types accepted" % (n, m))
        else:
            S.check(kind == "ok", "raised %s" % type(got).__name__)
            S.check(S.eq(got, ref.enc_seq([t] * n, absv) if f is encode
                         else b"".join(ref.packed(t, v) for v in absv)), "encoding")
    S.cover("done")


SHAPES = [(("uint8",), [1]), (("bytes", "bool"), [33]), (("uint16[]", "string"), [2, 3]),
          (("(uint8,bytes)", "int8"), [2]), ((), [1])]


def cases(tier):
    out = []
    for types, lens in SHAPES:
        nm = ",".join(types)
        if types:
            out.append(Case("lists for %s" % nm, kinds, types, lens, budget=200, covers=("done",)))
        out.append(Case("other objects for %s" % nm, refused, types, lens, budget=200,
                        covers=("done",)))
        for n in (0, 31, 32, 33, 64, 65, 96, 128):
            for strict in (True, False):
                out.append(Case("payload for %s of %d bytes, strict=%s" % (nm, n, strict),
                                payload_kinds, types, n, strict, budget=200,
                                covers=("compared",)))
        out.append(Case("not a payload for %s" % nm, not_data, types, covers=("done",)))
    for t in ("uint8", "bytes", "uint8[]", "(bool,string)"):
        out.append(Case("numbers of %s" % t, arity, t, budget=200, covers=("done",)))
    for t, lens in (("uint8[2]", [1]), ("uint8[]", [3]), ("(uint8,bool)", [1]), ("bytes[]", [2, 3]),
                    ("(uint8,bytes)[]", [2, 1, 3]), ("uint8[2][]", [2]), ("((bool,string)[1],int8)",
                                                                        [2])):
        out.append(Case("sequences in %s" % t, inner, t, lens, budget=200, covers=("done",)))
    return out
