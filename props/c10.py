"""C10: whatever decodes can be encoded again, to the same values."""
from eth_abi import decode, encode, is_encodable

from props import c06, common, ref
from sx.api import Case

INFO = dict(
    bounds="Every byte string of every length up to the number of bytes listed per type list, as "
           "one symbolic buffer; for every listed nesting a valid encoding with one word replaced "
           "by an arbitrary one; for every elementary static type every 32-byte word.",
    outside="Longer arbitrary payloads; other nestings.",
    assumptions=common.ASSUMPTIONS)


def again(S, types, data):
    types = list(types)
    kind, vals = ref.outcome(decode, types, data)
    if kind != "ok":
        S.observe("kind", kind)
        return
    for t, v in zip(types, vals):
        S.check(is_encodable(t, v), "is_encodable is False for a decoded value")
    kind, enc = ref.outcome(encode, types, vals)
    S.check(kind == "ok", "decoded values cannot be encoded")
    kind, back = ref.outcome(decode, types, enc)
    S.check(kind == "ok", "the new encoding does not decode")
    S.check(S.eq(back, vals), "decoding the new encoding gives other values")
    S.observe("enc", enc)
    S.cover("decoded")


def payload(S, types, n):
    again(S, types, S.buffer("data", n, 0))


def word(S, t):
    again(S, [t], S.bytes("w", 32))


def corrupt(S, types, lens, places):
    data = c06.encoding(types, lens)
    k = S.choice("at", places)
    data = data[:32 * k] + S.bytes("w", 32) + data[32 * k + 32:]
    again(S, types, S.payload("p", data) if len(data) < 20000 else data)


LISTS = [
    (("bytes",), 160), (("string",), 130), (("uint8[]",), 160), (("bytes[]",), 160),
    (("uint8", "bytes"), 160), (("bytes", "bytes"), 136), (("(uint8,bytes)",), 192),
    (("bool[]", "bytes3"), 160), (("uint8[][]",), 160), (("string[]",), 160),
    (("(int8,fixed8x1)[]",), 160), (("address[]",), 160), (("bytes[1]",), 160),
]


def cases(tier):
    out = []
    for types, n in LISTS + (c06.LISTS if tier == "thorough" else []):
        nm = "%s up to %d bytes" % (",".join(types), n)
        if nm not in [c.name for c in out]:
            out.append(Case(nm, payload, types, n, budget=150, covers=("decoded",)))
    for t in common.STATIC + (common.more_fixed() if tier == "thorough" else []):
        out.append(Case(t, word, t, covers=("decoded",)))
    for types, lens in common.SHAPES + common.DEEP:
        n = len(c06.encoding(types, lens)) // 32
        if not (tier == "quick" and n > 14):
            for i in range(0, n, 5):
                out.append(Case("%s/%s word %d.." % (",".join(types), lens, i), corrupt, types,
                                lens, list(range(i, min(n, i + 5))), budget=120))
    for types, lens, places in common.BIGDEC:
        for k in places[-1:] if types in (("bytes",), ("bytes[66]",)) else places[-2:]:
            out.append(Case("%s word %d" % (common.big_name(types, lens), k), corrupt, types, lens,
                            [k], budget=120))
    return out
