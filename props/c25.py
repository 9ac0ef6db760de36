"""C25: coders built by hand refuse sizes that do not fit and are exact for those that do."""
from eth_abi import decoding as d, encoding as e
from eth_abi.exceptions import DecodingError, EncodingError
from eth_abi.registry import registry

from props import common, ref
from sx.api import Case

INFO = dict(
    bounds="Constructor arguments: every value_bit_size in -64..1024, data_byte_size in 0..128 "
           "and frac_places in -100..200, for every number and bytes coder class; coding: the "
           "listed pairs of sizes (data of 1 to 64 bytes) with every value and every data "
           "word; array and tuple coders composed by hand in the listed shapes; from_type_str of "
           "every coder class on the listed type strings.",
    outside="Other pairs of sizes, other shapes, subclasses that change encode_fn.",
    assumptions=common.ASSUMPTIONS)

NUM = {"uint": (e.UnsignedIntegerEncoder, d.UnsignedIntegerDecoder),
       "int": (e.SignedIntegerEncoder, d.SignedIntegerDecoder),
       "ufixed": (e.UnsignedFixedEncoder, d.UnsignedFixedDecoder),
       "fixed": (e.SignedFixedEncoder, d.SignedFixedDecoder),
       "bytesn": (e.BytesEncoder, d.BytesDecoder)}


def sizes(S, kind, which):
    """the constructor refuses exactly the sizes that do not fit"""
    cls = NUM[kind][which]
    bits = S.int("bits", -64, 1024)
    size = S.int("size", 0, 128)
    kw = dict(value_bit_size=bits, data_byte_size=size)
    if kind.endswith("fixed"):
        kw["frac_places"] = S.int("frac", -100, 200)
    k, got = ref.outcome(cls, **kw)
    S.observe("kind", k)
    ok = S.both(bits % 8 == 0, bits <= size * 8)
    if "frac_places" in kw:
        ok = S.both(ok, kw["frac_places"] >= 1, kw["frac_places"] <= 80)
    if k == "ok":
        S.check(ok, "sizes that do not fit are accepted")
        S.check(got.value_bit_size is bits or got.value_bit_size == bits, "value_bit_size lost")
        S.cover("accepted")
    else:
        S.check(isinstance(got, ValueError), "raised " + type(got).__name__)
        S.check(S.neg(ok), "sizes that fit are refused")
        S.cover("refused")


def missing(S, kind, which):
    """sizes left out, unknown arguments"""
    cls = NUM[kind][which]
    bits = S.int("bits", 1, 32) * 8
    full = dict(value_bit_size=bits, data_byte_size=32)
    if kind.endswith("fixed"):
        full["frac_places"] = S.int("frac", 1, 80)
    k, _ = ref.outcome(cls, **full)
    S.check(k == "ok", "refused")
    for drop in full:
        kw = {a: b for a, b in full.items() if a != drop}
        k, got = ref.outcome(cls, **kw)
        if drop == "data_byte_size":
            S.check(k == "ok" and got.data_byte_size == 32, "the data size is not 32 by default")
        else:
            S.check(k == "err" and isinstance(got, ValueError), "missing %s accepted" % drop)
        k, got = ref.outcome(cls, **dict(full, **{drop: None}))
        S.check(k == "err" and isinstance(got, ValueError), "%s=None accepted" % drop)
    k, got = ref.outcome(cls, **dict(full, no_such_size=1))
    S.check(k == "err" and isinstance(got, AttributeError), "unknown argument accepted")


def widen(t, v, size):
    """the abstract value of t as `size` bytes"""
    if t[0] == "bytesn":
        return v + b"\x00" * (size - len(v))
    return v.to_bytes(size, "big", signed=t[0] in ("int", "fixed"))


def make(t, size):
    kw = dict(value_bit_size=t[1] * 8 if t[0] == "bytesn" else t[1], data_byte_size=size)
    if t[0].endswith("fixed"):
        kw["frac_places"] = t[2]
    enc, dec = NUM[t[0]]
    return enc(**kw), dec(**kw)


def put(S, t, size):
    """encoding is exact for the values of the type and refuses the others"""
    enc, dec = make(t, size)
    if t[0] == "bytesn":
        n = S.choice("n", sorted({0, 1, t[1] - 1, t[1], t[1] + 1, size, size + 1}))
        v = a = S.bytes("v", n)
        ok = n <= t[1]
    else:
        lo, hi = ref.irange(t)
        a = S.int("v", 2 * lo - 300, 2 * hi + 300)
        v = ref.exact(a, t[2]) if t[0].endswith("fixed") else a
        ok = S.both(a >= lo, a <= hi)
    k, got = ref.outcome(enc, v)
    if k == "ok":
        S.check(ok, "a value that does not fit is encoded")
        S.check(S.eq(got, widen(t, a, size)), "encoding")
        k, back = ref.outcome(dec, d.ContextFramesBytesIO(got))
        S.check(k == "ok", "its encoding is refused (%s)" % type(back).__name__)
        want = ref.to_py(t, a + b"\x00" * (t[1] - len(a)) if t[0] == "bytesn" else a)
        S.check(S.eq(back, want), "does not round-trip")
        S.observe("encoded", got)
        S.cover("coded")
    else:
        S.check(isinstance(got, EncodingError), "raised " + type(got).__name__)
        S.check(S.neg(ok), "a value of the type is refused")
        S.observe("refused", type(got).__name__)
    k, _ = ref.outcome(enc.validate_value, v)
    S.check(S.eq(k == "ok", True) if ok is True else (k == "ok") == bool(ok), "validate_value")


def get(S, t, size):
    """decoding accepts exactly the canonical data"""
    _, dec = make(t, size)
    w = S.bytes("w", size)
    n = S.choice("have", sorted({0, size - 1, size, size + 5}))
    data = w[:n] if n <= size else w + b"\x07" * (n - size)
    k, got = ref.outcome(dec, d.ContextFramesBytesIO(data))
    if n < size:
        S.check(k == "err" and isinstance(got, DecodingError), "short data accepted")
        return
    if t[0] == "bytesn":
        ok, a = w[t[1]:] == b"\x00" * (size - t[1]), w[:t[1]]
    else:
        lo, hi = ref.irange(t)
        a = int.from_bytes(w, "big", signed=t[0] in ("int", "fixed"))
        ok = S.both(a >= lo, a <= hi)
    if k == "ok":
        S.check(ok, "data that is no value is accepted")
        S.check(S.eq(got, ref.to_py(t, a)), "value")
        S.observe("value", got)
        S.cover("decoded")
    else:
        S.check(isinstance(got, DecodingError), "raised " + type(got).__name__)
        S.check(S.neg(ok), "the data of a value is refused")
        S.cover("refused")


# -- composition by hand ------------------------------------------------------------------
def build_enc(t):
    k = t[0]
    if k in NUM:
        return make(t, 32)[0]
    if k == "bool":
        return e.BooleanEncoder()
    if k == "address":
        return e.AddressEncoder()
    if k == "bytes":
        return e.ByteStringEncoder()
    if k == "string":
        return e.TextStringEncoder()
    if k == "tup":
        return e.TupleEncoder(encoders=[build_enc(c) for c in t[1]])
    if t[2] is None:
        return e.DynamicArrayEncoder(item_encoder=build_enc(t[1]))
    return e.SizedArrayEncoder(array_size=t[2], item_encoder=build_enc(t[1]))


def build_dec(t):
    k = t[0]
    if k in NUM:
        return make(t, 32)[1]
    if k == "bool":
        return d.BooleanDecoder()
    if k == "address":
        return d.AddressDecoder()
    if k == "bytes":
        return d.ByteStringDecoder()
    if k == "string":
        return d.StringDecoder()
    if k == "tup":
        return d.TupleDecoder(decoders=[build_dec(c) for c in t[1]])
    if t[2] is None:
        return d.DynamicArrayDecoder(item_decoder=build_dec(t[1]))
    return d.SizedArrayDecoder(array_size=t[2], item_decoder=build_dec(t[1]))


def compose(S, types, lens):
    ts = [ref.T(t) for t in types]
    vals, absv = ref.many(S, ts, lens)
    enc = build_enc(("tup", ts))
    k, got = ref.outcome(enc, vals)
    S.check(k == "ok", "encoder raised %s" % type(got).__name__)
    S.check(S.eq(got, ref.enc_seq(ts, absv)), "layout")
    S.check(enc.is_dynamic is ref.dynamic(("tup", ts)), "is_dynamic of the encoder")
    dec = build_dec(("tup", ts))
    S.check(dec.is_dynamic is ref.dynamic(("tup", ts)), "is_dynamic of the decoder")
    k, back = ref.outcome(dec, d.ContextFramesBytesIO(got))
    S.check(k == "ok", "decoder raised %s" % type(back).__name__)
    S.check(S.eq(back, tuple(ref.to_py(t, v) for t, v in zip(ts, absv))), "does not round-trip")
    # at another place of a longer stream
    pre = S.bytes("pre", 5)
    st = d.ContextFramesBytesIO(pre + got + b"\x00")
    st.push_frame(5)
    k, back2 = ref.outcome(dec, st)
    S.check(k == "ok", "decoder in a frame raised %s" % type(back2).__name__)
    S.check(S.eq(back2, back), "values depend on the place in the stream")
    S.observe("values", back)
    S.cover("done")


# -- from_type_str ------------------------------------------------------------------------
CLASSES = {
    "bool": (e.BooleanEncoder, d.BooleanDecoder), "uint": NUM["uint"], "int": NUM["int"],
    "ufixed": NUM["ufixed"], "fixed": NUM["fixed"], "address": (e.AddressEncoder, d.AddressDecoder),
    "bytesn": NUM["bytesn"], "bytes": (e.ByteStringEncoder, d.ByteStringDecoder),
    "string": (e.TextStringEncoder, d.StringDecoder), "tup": (e.TupleEncoder, d.TupleDecoder),
    "arr": (e.BaseArrayEncoder, d.BaseArrayDecoder),
}
STRINGS = ["bool", "uint8", "uint", "int8", "int256", "int", "ufixed8x1", "ufixed", "fixed128x18",
           "fixed", "address", "bytes1", "bytes32", "byte", "function", "bytes", "string",
           "(bool)", "(uint8,bytes)", "bool[]", "uint8[2]", "(int8)[1]", "bytes[][2]", "string[3]"]
BASE = {"bytesn": "bytes", "arr": None}


def from_str(S, name):
    """from_type_str builds a coder for a type of its own kind and refuses every other kind"""
    s = S.choice("type", STRINGS)
    t = ref.T(s)
    enc, dec = CLASSES[name]
    own = t[0] == name
    if not own and BASE.get(name, name) == BASE.get(t[0], t[0]) == "bytes":
        return  # bytes and bytes<M> share their base: left open
    if not own and name == "tup" and s.startswith("("):
        return  # arrays of tuples: left to the coder class
    for cls in (enc, dec):
        k, got = ref.outcome(cls.from_type_str, s, registry)
        if not own:
            S.check(k == "err" and isinstance(got, ValueError),
                    "%s made for %s" % (cls.__name__, s))
            continue
        S.check(k == "ok", "%s refused %s" % (cls.__name__, s))
    if own:
        v, a = ref.fresh(S, t, "v", ref.Plan([1, 2]))
        got = enc.from_type_str(s, registry)(v)
        S.check(S.eq(got, ref.enc(t, ref.extend(t, a))), "encoding of " + s)
        back = dec.from_type_str(s, registry)(d.ContextFramesBytesIO(got))
        S.check(S.eq(back, ref.to_py(t, ref.extend(t, a))), "decoding of " + s)
        S.cover("own")


PAIRS = {
    "uint": [(8, 1), (8, 2), (16, 2), (24, 31), (64, 33), (256, 64), (8, 64), (264, 33)],
    "int": [(8, 1), (8, 2), (16, 2), (24, 31), (64, 33), (256, 64), (8, 64), (256, 32)],
    "ufixed": [(8, 1, 1), (16, 2, 3), (128, 20, 18), (8, 33, 80)],
    "fixed": [(8, 1, 1), (16, 2, 3), (128, 20, 18), (8, 33, 80)],
    "bytesn": [(1, 1), (1, 2), (3, 3), (20, 20), (20, 32), (31, 40), (40, 64)],
}


def cases(tier):
    out = []
    for k in NUM:
        for w in (0, 1):
            nm = NUM[k][w].__name__
            out.append(Case("sizes of " + nm, sizes, k, w, covers=("accepted", "refused")))
            out.append(Case("arguments of " + nm, missing, k, w))
        for p in PAIRS[k]:
            t = (k, p[0]) + tuple(p[2:])
            out.append(Case("%s in %d bytes, encoding" % ("%s%s" % (k, t[1:]), p[1]), put, t, p[1],
                            budget=120, covers=("coded",)))
            out.append(Case("%s in %d bytes, decoding" % ("%s%s" % (k, t[1:]), p[1]), get, t, p[1],
                            budget=120, covers=("decoded",)))
    for types, lens in common.SHAPES + (common.DEEP if tier == "thorough" else []):
        if types:
            out.append(Case("by hand %s/%s" % (",".join(types), lens), compose, types, lens,
                            budget=120))
    for name in CLASSES:
        out.append(Case("from_type_str of %s coders" % name, from_str, name, covers=("own",)))
    return out
