"""C20: custom coders take part in compound types like built-in ones."""
from eth_abi.codec import ABICodec
from eth_abi.decoding import BaseDecoder
from eth_abi.encoding import BaseEncoder
from eth_abi.exceptions import DecodingError, EncodingError
from eth_abi.registry import BaseEquals, registry as default

from props import common, ref
from sx.api import Case

INFO = dict(
    bounds="A custom type (32 static bytes, 64 static bytes, or dynamic) coded by plain "
           "functions, callable objects, coder classes or coder instances in every combination, "
           "in the listed arrays, tuples and argument lists; every content, refused by the coder "
           "iff its first byte is 128 or more.",
    outside="Other shapes and lengths, coders with other layouts.",
    assumptions=common.ASSUMPTIONS)


# the custom type: a byte string, stored backwards; contents starting with 128.. are refused
def refuses(v, size):
    return not isinstance(v, bytes) or (size is not None and len(v) != size) or (
        len(v) > 0 and v[0] >= 128)


def put(v, size):
    if refuses(v, size):
        raise EncodingError("refused")
    if size is None:
        return ref.word(len(v)) + ref.pad32(v[::-1])
    return v[::-1]


def get(stream, size):
    if size is None:
        n = int.from_bytes(stream.read(32), "big")
        d = stream.read(n + (-n) % 32)[:n]
    else:
        d = stream.read(size)
        if len(d) != size:
            raise DecodingError("short")
    v = d[::-1]
    if len(v) > 0 and v[0] >= 128:
        raise DecodingError("refused")
    return v


class EncObj:
    """a callable that is not a coder class"""

    def __init__(self, size):
        self.size = size
        if size is None:
            self.is_dynamic = True

    def __call__(self, v):
        return put(v, self.size)


class DecObj:
    def __init__(self, size):
        self.size = size
        self.is_dynamic = size is None

    def __call__(self, stream):
        return get(stream, self.size)


def coders(kind, size):
    """(encoder, decoder)"""
    if kind == "function":
        def e(v):
            return put(v, size)

        def d(stream):
            return get(stream, size)
        if size is None:
            e.is_dynamic = d.is_dynamic = True
        return e, d
    if kind == "object":
        return EncObj(size), DecObj(size)

    class E(BaseEncoder):
        is_dynamic = size is None

        def validate_value(self, v):
            if refuses(v, size):
                self.invalidate_value(v)

        def encode(self, v):
            self.validate_value(v)
            return put(v, size)

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls()

    class D(BaseDecoder):
        is_dynamic = size is None

        def decode(self, stream):
            return get(stream, size)

        @classmethod
        def from_type_str(cls, type_str, registry):
            return cls()

    return (E, D) if kind == "class" else (E(), D())


def setup(ekind, dkind, size, pred):
    r = default.copy()
    e, d = coders(ekind, size)[0], coders(dkind, size)[1]
    if pred:
        r.register(BaseEquals("aa"), e, d, label="custom")
    else:
        r.register("aa", e, d)
    return ABICodec(r)


def T(s, size):
    """reference type: the custom type is laid out like bytes, bytes32 or bytes32[2]"""
    return ref.T(s.replace("aa", {None: "bytes", 32: "bytes32", 64: "bytes32[2]"}[size]))


def value(S, s, t, name, size, plan):
    """(python value, abstract value, [contents of the custom parts])"""
    if s.startswith("aa") and "[" not in s:
        n = plan.next() if size is None else size
        b = S.bytes(name, n)
        back = b[::-1]
        return b, ([back[:32], back[32:]] if size == 64 else back), [b]
    if s.endswith("]"):
        i = s.rindex("[")
        n = t[2] if t[2] is not None else plan.next()
        ps = [value(S, s[:i], t[1], "%s_%d" % (name, k), size, plan) for k in range(n)]
        cont = list
    elif s.startswith("("):
        ps = [value(S, c, ct, "%s_%d" % (name, k), size, plan)
              for k, (c, ct) in enumerate(zip(split(s[1:-1]), t[1]))]
        cont = tuple
    else:
        v, a = ref.fresh(S, t, name, plan)
        return v, a, []
    return (cont(p[0] for p in ps), [p[1] for p in ps],
            [c for p in ps for c in p[2]])


def split(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
            continue
        depth += {"(": 1, ")": -1}.get(c, 0)
        cur += c
    return out + [cur]


def frozen(v):
    return tuple([frozen(x) for x in v]) if isinstance(v, (list, tuple)) else v


def shape(S, ekind, dkind, size, types, lens, pred=False):
    c = setup(ekind, dkind, size, pred)
    plan = ref.Plan(lens)
    ts = [T(s, size) for s in types]
    ps = [value(S, s, t, "v%d" % i, size, plan) for i, (s, t) in enumerate(zip(types, ts))]
    vals = [p[0] for p in ps]
    refused = False
    for p in ps:
        for b in p[2]:
            if len(b) > 0 and b[0] >= 128:
                refused = True
    data = ref.enc_seq(ts, [p[1] for p in ps])
    kind, got = ref.outcome(c.encode, list(types), vals)
    if refused:
        S.check(kind == "err" and isinstance(got, EncodingError), "a refused value is encoded")
        S.cover("refused")
        dk, dv = ref.outcome(c.decode, list(types), data)
        S.check(dk == "err" and isinstance(dv, DecodingError), "a refused content is decoded")
    else:
        S.check(kind == "ok", "encode raised %s" % type(got).__name__)
        S.check(S.eq(got, data), "the custom type is not placed like a built-in one")
        for strict in (True, False):
            dk, dv = ref.outcome(c.decode, list(types), data, strict=strict)
            S.check(dk == "ok", "decode raised %s" % type(dv).__name__)
            S.check(S.eq(dv, frozen(tuple(vals))), "values do not round-trip")
        S.cover("coded")
    for s, p in zip(types, ps):
        bad = False
        for b in p[2]:
            if len(b) > 0 and b[0] >= 128:
                bad = True
        k, r = ref.outcome(c.is_encodable, s, p[0])
        S.check(k == "ok", "is_encodable raised %s" % type(r).__name__)
        S.check(r is (not bad), "is_encodable")
        S.check(c.is_encodable_type(s) is True, "is_encodable_type")
    S.observe("encoded", got if kind == "ok" else None)


def objects(S, ekind, size):
    """other Python objects are refused everywhere in the same way"""
    c = setup(ekind, ekind, size, False)
    v = S.choice("v", [None, 5, "abc", bytearray(b"a" * 32), [b"a"], b"a" * 33, b"", b"\xff" * 32,
                       b"a" * 32, b"b" * 64, 1.5, True, object()])
    ok = not refuses(v, size)
    for t, w in (("aa", lambda v: v), ("aa[]", lambda v: [v]), ("aa[1]", lambda v: [v]),
                 ("(aa)", lambda v: (v,)), ("(bool,aa[])", lambda v: (True, [v])),
                 ("(aa,bytes)[]", lambda v: [(v, b"")]), ("aa[][1]", lambda v: [[v]])):
        k, e = ref.outcome(c.encode, [t], [w(v)])
        S.check((k == "ok") is ok, "encode of " + t)
        if not ok:
            S.check(isinstance(e, EncodingError), "raised " + type(e).__name__)
        k, e = ref.outcome(c.is_encodable, t, w(v))
        S.check(k == "ok" and e is ok, "is_encodable of " + t)
    S.cover("done")


SHAPES = [
    (("aa",), [33]), (("aa", "aa"), [0, 5]), (("aa", "bytes", "aa"), [1, 2, 3]),
    (("bytes", "aa", "uint8"), [40, 31]),
    (("aa[]",), [2, 1, 33]), (("aa[]",), [0]), (("aa[2]",), [3, 4]), (("aa[1]", "bool"), [32]),
    (("(aa)",), [2]), (("(aa,uint8)",), [2]), (("(uint8,aa)", "bytes"), [2, 1]),
    (("(bytes,aa)",), [1, 2]), (("(aa,bytes)[]",), [2, 1, 2, 0, 3]),
    (("aa[][2]",), [1, 3, 2, 1, 0]), (("aa[2][]", "aa"), [1, 2, 3, 4]),
    (("((aa,bool)[2],string)", "uint8"), [1, 2, 3]), (("(bool,(aa[],aa))[1]",), [2, 1, 2, 3]),
    (("(aa[2],bytes)", "aa"), [1, 0, 2, 3]),
]
KINDS = ["function", "object", "class", "instance"]


def cases(tier):
    out = []
    deep = tier == "thorough"
    for size in (None, 32, 64):
        for e in KINDS:
            out.append(Case("objects %s %s" % (e, size), objects, e, size, covers=("done",)))
            for d in KINDS:
                for i, (types, lens) in enumerate(SHAPES):
                    if e != d and (i + KINDS.index(e) + 2 * KINDS.index(d)) % 2 and not deep:
                        continue
                    out.append(Case("%s/%s %s %s %s" % (e, d, {None: "dynamic"}.get(size, size),
                                                        ",".join(types), lens),
                                    shape, e, d, size, types, lens, i % 2 == 1,
                                    covers=("coded",)))
    return out
