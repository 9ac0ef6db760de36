"""C14: only legal ABI types can be encoded or decoded."""
from eth_abi import decode, encode, is_encodable, is_encodable_type
from eth_abi.exceptions import DecodingError, EncodingError
from eth_abi.packed import encode_packed

from props import c13, common, ref
from sx.api import Case

INFO = dict(
    bounds="Every type string made of a listed frame (a base name, alone, in an array, in a "
           "tuple) and 0 to 4 arbitrary characters (any code point) or up to 4 digits on each "
           "side of an x.",
    outside="Longer infills; type strings of other shapes.",
    assumptions=common.ASSUMPTIONS)

BARE = ("uint", "int", "fixed", "ufixed", "function", "byte", "bytes", "string", "bool",
        "address")


def legal(t):
    if t[0] == "tuple":
        return all([legal(c) for c in t[1]])
    base, sub = t[1], t[2]
    if sub is None:
        for b in BARE:
            if base == b:
                return True
        return False
    if isinstance(sub, tuple):
        if base == "fixed" or base == "ufixed":
            m, n = sub
            return 8 <= m <= 256 and m % 8 == 0 and 1 <= n <= 80
        return False
    if base == "uint" or base == "int":
        return 8 <= sub <= 256 and sub % 8 == 0
    if base == "bytes":
        return 1 <= sub <= 32
    return False


def supported(S, pre, n, post, ranges, m=0, mid="x"):
    text = pre + S.str("s", n, ranges)
    if m:
        text = text + mid + S.str("u", m, ranges)
    text = text + post
    tree = c13.reference(text)
    ok = tree is not None and legal(tree)
    v = object()
    if ok:
        S.check(is_encodable_type(text) is True, "is_encodable_type is False for a legal type")
        for f in (encode, encode_packed):
            kind, e = ref.outcome(f, [text], [v])
            S.check(kind == "err" and isinstance(e, EncodingError),
                    "a legal type is refused (%s)" % type(e).__name__)
        for strict in (True, False):
            kind, e = ref.outcome(decode, [text], b"", strict=strict)
            S.check(kind == "err" and isinstance(e, DecodingError),
                    "a legal type is refused by decode (%s)" % type(e).__name__)
        S.cover("legal")
    else:
        kind, r = ref.outcome(is_encodable_type, text)
        S.check(kind == "ok", "is_encodable_type raised %s" % type(r).__name__)
        S.check(r is False, "is_encodable_type is True for an illegal type")
        kind, r = ref.outcome(is_encodable, text, 0)
        S.check(kind == "ok" and r is False, "is_encodable for an illegal type")
        for f in (encode, encode_packed):
            kind, e = ref.outcome(f, [text], [v])
            S.check(kind == "err", "encode accepted an illegal type")
            S.check(not isinstance(e, EncodingError), "a value was looked at for an illegal type")
        for strict in (True, False):
            kind, e = ref.outcome(decode, [text], b"", strict=strict)
            S.check(kind == "err", "decode accepted an illegal type")
            S.check(not isinstance(e, DecodingError), "data was looked at for an illegal type")
        S.cover("illegal")
    S.observe("ok", ok)


ANY = c13.ANY
DIGITS = c13.DIGITS
NAMES = ["uint", "int", "bytes", "string", "bool", "address", "function", "byte", "fixed",
         "ufixed", "hash", "foo", "Uint", "tuple", "uin", "byt", "fixe", "xint"]


def cases(tier):
    out = []

    def add(pre, n, post, ranges, m=0, mid="x", budget=60.0):
        nm = "%r %d x %s%s %r" % (pre, n, "any" if ranges is ANY else "digits",
                                  " %s %d" % (mid, m) if m else "", post)
        out.append(Case(nm, supported, pre, n, post, ranges, m, mid, budget=budget))

    k = 2 if tier == "quick" else 3
    for b in NAMES:
        for n in range(0, k + 1):
            add(b, n, "", ANY, budget=120.0)
            if n < k:
                add("%s" % b, n, "[2]", ANY)
                add("(%s" % b, n, ",bool)[]", ANY)
        for n in (3, 4):
            add(b, n, "", DIGITS)
        add(b, 3, "[]", DIGITS)
        add("(bytes,(%s" % b, 3, ")[2])", DIGITS)
        for n, m in ((1, 1), (2, 1), (3, 1), (3, 2), (3, 3), (1, 2), (4, 2)):
            add(b, n, "", DIGITS, m)
        add("(uint8,%s" % b, 3, ")[2]", DIGITS, 2)
    for n in (1, 2, 3):
        add("", n, "", ANY)
        add("", n, "int8", ANY)
        add("", n, "ytes", ANY)
        add("", n, "fixed8x1", ANY)
    add("uint8[", 2, "]", ANY)
    add("uint8[", 3, "]", DIGITS)
    add("bytes[", 2, "][]", ANY)
    add("(", 2, ",bool)", ANY)
    add("(uint8", 2, "bool)", ANY)
    return out
