"""C08: strict=False relaxes only the padding of bytes and string."""
from eth_abi import decode
from eth_abi.exceptions import DecodingError

from props import c06, common, dec, ref
from sx.api import Case

INFO = dict(
    bounds="Every byte string of every length up to the number of bytes listed per type list, "
           "decoded in both modes; for every listed nesting a valid encoding with one word "
           "replaced by an arbitrary one; valid encodings with arbitrary contents and arbitrary "
           "padding bytes, cut anywhere in the last padding.",
    outside="Longer arbitrary payloads; other nestings.",
    assumptions=common.ASSUMPTIONS)


def nested(types):
    """bytes or string inside an array or tuple (finding D10)"""
    for t in types:
        t = ref.T(t)
        if t[0] in ("arr", "tup") and _has(t):
            return True
    return False


def _has(t):
    if t[0] == "arr":
        return _has(t[1])
    if t[0] == "tup":
        return any(_has(c) for c in t[1])
    return t[0] in ("bytes", "string")


def same(S, kind, got, exp):
    if kind == "ok":
        return exp is not None and S.eq(got, exp)
    return exp is None


def relaxed(S, types, data, both=True):
    ts = [ref.T(t) for t in types]
    kind, got = ref.outcome(decode, list(types), data, strict=False)
    if kind == "err":
        S.check(isinstance(got, (DecodingError, UnicodeDecodeError)),
                "raised %s instead of a DecodingError" % type(got).__name__)
    exp, why = dec.expected(ts, data, "relaxed")
    if nested(types):
        known = same(S, kind, got, exp)
        S.known("D10", known, "padding of a nested bytes/string value checked in non-strict mode")
        if known is not True and S.neg(known):
            exp, why = dec.expected(ts, data, "outer")
            S.check(same(S, kind, got, exp), "non-strict decoding differs from both references")
    elif kind == "ok":
        S.check(exp is not None, "non-strict accepted a payload that denotes no value (%s)" % why)
        S.check(S.eq(got, exp), "non-strict values differ from the denoted ones")
    else:
        S.check(exp is None, "non-strict refused a payload that denotes values")
    S.observe("relaxed", got if kind == "ok" else dec.err_name(got))
    S.cover("accepted" if kind == "ok" else "refused")
    if both:
        k2, g2 = ref.outcome(decode, list(types), data)
        if k2 == "ok":
            S.check(kind == "ok", "accepted in strict mode only")
            S.check(S.eq(got, g2), "values depend on the mode")
        S.observe("strict", k2)


def any_payload(S, types, n):
    relaxed(S, types, S.buffer("data", n, 0))


def corrupt(S, types, lens, places):
    data = c06.encoding(types, lens)
    k = S.choice("at", places)
    data = data[:32 * k] + S.bytes("w", 32) + data[32 * k + 32:]
    relaxed(S, types, S.payload("p", data) if len(data) < 20000 else data, False)


def dirty_enc(S, t, v, name):
    """encoding with arbitrary padding; returns (bytes, padding bytes)"""
    k = t[0]
    if k in ("bytes", "string"):
        pad = S.bytes(name + "_pad", (32 - len(v) % 32) % 32)
        return ref.word(len(v)) + v + pad, [pad]
    if k == "arr":
        body, pads = dirty_seq(S, [t[1]] * len(v), v, name)
        return (ref.word(len(v)) + body if t[2] is None else body), pads
    if k == "tup":
        return dirty_seq(S, t[1], v, name)
    return ref.enc(t, v), []


def dirty_seq(S, ts, vs, name):
    heads, tails, pads = [], [], []
    pos = sum(ref.head_words(t) for t in ts) * 32
    for i, (t, v) in enumerate(zip(ts, vs)):
        e, p = dirty_enc(S, t, v, "%s_%d" % (name, i))
        pads += p
        if ref.dynamic(t):
            heads.append(ref.word(pos))
            tails.append(e)
            pos += len(e)
        else:
            heads.append(e)
    return b"".join(heads) + b"".join(tails), pads


def padding(S, types, lens, cut):
    ts = [ref.T(t) for t in types]
    plan = ref.Plan(lens)
    vs = [ref.sample(t, plan) for t in ts]
    data, pads = dirty_seq(S, ts, vs, "v")
    want = tuple(ref.to_py(t, v) for t, v in zip(ts, vs))
    inner = nested(types)
    last = len(pads[-1]) if pads else 0
    if cut and last and not inner:
        n = S.choice("cut", list(range(1, last + 1)))
        data = data[:len(data) - n]
    clean = S.both(*[p == b"\x00" * len(p) for p in pads]) if pads else True
    kind, got = ref.outcome(decode, list(types), data, strict=False)
    ok = kind == "ok" and S.eq(got, want)
    if inner:
        S.known("D10", ok, "padding of a nested bytes/string value checked in non-strict mode")
        if kind == "ok":
            S.check(S.eq(got, want), "non-strict decoding changed the values")
        else:
            S.check(isinstance(got, DecodingError), "raised " + type(got).__name__)
            S.check(S.neg(clean), "canonical encoding refused")
    else:
        S.check(ok, "non-strict decoding did not ignore the padding")
    k2, g2 = ref.outcome(decode, list(types), data)
    if cut and last and not inner:
        S.check(k2 == "err", "strict decoding accepted missing padding")
    elif k2 == "ok":
        S.check(clean, "strict decoding accepted dirty padding")
        S.check(S.eq(g2, want), "strict decoding changed the values")
    else:
        S.check(S.neg(clean), "strict decoding refused clean padding")
    S.observe("kinds", (kind, k2))
    S.cover("done")


LISTS = [
    (("bytes",), 200), (("string",), 160), (("bytes", "bytes"), 192),
    (("uint16", "bytes", "string"), 192),
    (("uint8[]", "bytes"), 160), (("string", "uint8[2]"), 192), (("bytes", "bool"), 160),
    (("bytes[]",), 160), (("(bytes,uint8)",), 192), (("uint8[][]",), 160), (("string[1]",), 160),
    (("(uint8,(string))",), 192), (("uint256",), 64), (("int8", "bytes4"), 80),
    (("address[]",), 128), (("bool", "ufixed8x1"), 80),
]


def cases(tier):
    out = []
    for types, n in LISTS + (c06.LISTS if tier == "thorough" else []):
        nm = "%s up to %d bytes" % (",".join(types), n)
        if nm not in [c.name for c in out]:
            out.append(Case(nm, any_payload, types, n, budget=150,
                            covers=("accepted", "refused")))
    for types, lens in common.SHAPES + common.DEEP:
        n = len(c06.encoding(types, lens)) // 32
        nm = ",".join(types)
        if not (tier == "quick" and n > 18):
            for i in range(0, n, 5):
                out.append(Case("%s/%s word %d.." % (nm, lens, i), corrupt, types,
                                lens, list(range(i, min(n, i + 5))), budget=120))
        if any(_has(ref.T(t)) for t in types) and n < 60:
            out.append(Case("%s/%s padding" % (nm, lens), padding, types, lens, False,
                            covers=("done",)))
            if not nested(types):
                out.append(Case("%s/%s padding cut" % (nm, lens), padding, types, lens, True,
                                covers=("done",)))
    for types, lens, places in common.BIGDEC:
        for k in places[-2:]:
            out.append(Case("%s word %d" % (common.big_name(types, lens), k), corrupt, types, lens,
                            [k], budget=120))
    for n in (255, 256, 257, 1023, 1025, 4097, 65535, 65536, 65537, 70000):
        for t in ("bytes", "string"):
            out.append(Case("%s of length %d" % (t, n), padding, ("uint8", t), [n], n % 2 == 1,
                            covers=("done",)))
    for n in range(0, 68):
        out.append(Case("bytes of length %d" % n, padding, ("uint8", "bytes"), [n], True,
                        covers=("done",)))
        out.append(Case("string of length %d" % n, padding, ("string",), [n], False,
                        covers=("done",)))
    return out
