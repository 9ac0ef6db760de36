"""C07: offsets into the head or past the end are rejected, all others are followed."""
from eth_abi import decode
from eth_abi.exceptions import DecodingError, InvalidPointer

from props import common, dec, ref
from sx.api import Case

INFO = dict(
    bounds="For every listed nesting with dynamic parts: a valid encoding, followed by 0, 1 or 64 "
           "more bytes, in which any one offset is replaced by an arbitrary 256-bit word; strict "
           "and non-strict.  For argument lists of one to three dynamic values: all offsets of "
           "the outermost head arbitrary at once.",
    outside="Several bad offsets at different depths at once (C06 covers small cases).",
    assumptions=common.ASSUMPTIONS)


def pointers(ts, data, base=0):
    """[(position of the word, base, head size)] of all offsets in a valid encoding"""
    out = []
    hw = sum(ref.head_words(t) for t in ts) * 32
    p = base
    for t in ts:
        if ref.dynamic(t):
            out.append((p, base, hw))
            q = base + int.from_bytes(data[p:p + 32], "big")
            p += 32
        else:
            q = p
            p += 32 * ref.head_words(t)
        if not ref.dynamic(t):
            continue
        if t[0] == "tup":
            out += pointers(t[1], data, q)
        elif t[0] == "arr":
            n = t[2]
            if n is None:
                n = int.from_bytes(data[q:q + 32], "big")
                q += 32
            if ref.dynamic(t[1]):
                out += pointers([t[1]] * n, data, q)
    return out


def encoding(types, lens):
    ts = [ref.T(t) for t in types]
    plan = ref.Plan(lens)
    return ref.enc_seq(ts, [ref.sample(t, plan) for t in ts])


def one(S, types, lens, place, extra, strict):
    data = encoding(types, lens)
    pos, base, hw = place
    v = S.int("offset", 0, 2 ** 256 - 1)
    tail = S.bytes("tail", extra)
    size = len(data) + extra
    data = data[:pos] + v.to_bytes(32, "big") + data[pos + 32:] + tail
    data = S.payload("p", data)
    bad = S.either(v < hw, v >= size - base)
    if bad:
        kind, got = ref.outcome(decode, list(types), data, strict=strict)
        S.check(kind == "err" and isinstance(got, InvalidPointer),
                "bad offset did not raise InvalidPointer")
        S.observe("error", type(got).__name__)
        S.cover("bad")
    else:
        if strict:
            kind, got, why = dec.compare(S, types, data)
        else:
            kind, got, why = dec.compare_loose(S, types, data)
        if kind == "err":
            S.check(not isinstance(got, InvalidPointer) or why == "pointer",
                    "InvalidPointer for an offset into the payload")
        S.cover("good")


def head(S, types, n, strict):
    """arbitrary outermost head over a buffer of n bytes"""
    data = S.buffer("data", n)
    ts = [ref.T(t) for t in types]
    hw = sum(ref.head_words(t) for t in ts) * 32
    p = 0
    ok = []
    canonical = True
    for t in ts:
        if ref.dynamic(t):
            o = int.from_bytes(data[p:p + 32], "big")
            ok.append(S.both(o >= hw, o < n))
            p += 32
        else:
            try:
                ref.dec(t, data, p, "strict")
            except ref.Refuse:
                canonical = False
            p += 32 * ref.head_words(t)
    kind, got = ref.outcome(decode, list(types), data, strict=strict)
    if S.both(*ok):
        S.cover("good")
        S.observe("kind", kind)
    else:
        S.check(kind == "err" and isinstance(got, InvalidPointer if canonical else DecodingError),
                "bad offset did not raise InvalidPointer")
        S.observe("error", type(got).__name__)
        S.cover("bad")


HEADS = [(("bytes",), 96), (("bytes", "bytes"), 160), (("bytes[]", "uint8"), 128),
         (("uint8[]", "bytes", "uint8[]"), 160), (("uint8", "string"), 128),
         (("(uint8,bytes)", "(uint8,bool)"), 160), (("uint8[2]", "(bytes)"), 160),
         (("string[2]", "uint8[2]"), 160)]


def cases(tier):
    out = []
    for types, lens in common.SHAPES + common.DEEP:
        data = encoding(types, lens)
        n = len(data) // 32
        if tier == "quick" and n > 28:
            continue
        for k, place in enumerate(pointers([ref.T(t) for t in types], data)):
            for extra in ((0, 1, 64) if tier == "thorough" else (0,) if k % 2 else (1,)):
                for strict in (True, False):
                    if tier == "quick" and not strict and k > 1:
                        continue
                    out.append(Case("%s/%s offset at %d +%d%s" % (
                        ",".join(types), lens, place[0], extra, "" if strict else " non-strict"),
                        one, types, lens, place, extra, strict, covers=("bad", "good")))
    for types, lens, _ in common.BIGDEC:
        data = encoding(types, lens)
        if len(data) > 20000:
            continue
        ptr = pointers([ref.T(t) for t in types], data)
        if len(types) == 1 and types != ("bytes",):
            ptr = ptr[1:]  # the outermost offset of a long array: too many places to start at
        if len(ptr) > 6:
            ptr = [ptr[0], ptr[1], ptr[-2], ptr[-1]]
        for k, place in enumerate(ptr):
            for strict in (True, False) if k == len(ptr) - 1 else (k % 2 == 0,):
                out.append(Case("%s offset at %d%s" % (
                    common.big_name(types, lens), place[0], "" if strict else " non-strict"),
                    one, types, lens, place, 0, strict, covers=("bad", "good")))
    for types, n in HEADS:
        for strict in (True, False):
            out.append(Case("head of %s in %d bytes%s" % (
                ",".join(types), n, "" if strict else " non-strict"), head, types, n, strict,
                covers=("bad", "good")))
    return out
