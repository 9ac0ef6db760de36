"""C15: aliases mean exactly their canonical types."""
from eth_abi import decode, encode, is_encodable, is_encodable_type
from eth_abi.exceptions import DecodingError, EncodingError
from eth_abi.grammar import normalize
from eth_abi.packed import encode_packed, is_encodable_packed

from props import c13, common, dec, domain, ref
from sx.api import Case

INFO = dict(
    bounds="normalize: every string made of a listed frame and 1 to 4 arbitrary ASCII "
           "characters.  Coding: every value (as in C02/C03), every 32-byte word and candidate "
           "objects for each alias alone, in arrays and in tuples, compared with the canonical "
           "type.",
    outside="Longer infills, non-ASCII neighbours.",
    assumptions=common.ASSUMPTIONS)

ASCII = [(0, 127)]
ALIASES = {"uint": "uint256", "int": "int256", "fixed": "fixed128x18",
           "ufixed": "ufixed128x18", "function": "bytes24", "byte": "bytes1"}


def expand(S, s):
    """replace whole words"""

    def wordchar(c):
        o = ord(c)
        return S.either(S.both(o >= 97, o <= 122), S.both(o >= 65, o <= 90),
                        S.both(o >= 48, o <= 57), o == 95)

    out = ""
    i, n = 0, len(s)
    while i < n:
        if not wordchar(s[i]):
            out = out + s[i]
            i += 1
            continue
        j = i
        while j < n and wordchar(s[j]):
            j += 1
        w = s[i:j]
        for a in ALIASES:
            if len(a) == j - i and w == a:
                w = ALIASES[a]
                break
        out = out + w
        i = j
    return out


def norm(S, pre, n, post):
    text = pre + S.str("s", n, ASCII) + post
    got = normalize(text)
    S.check(S.eq(got, expand(S, text)), "normalize did not replace exactly the aliases")
    S.check(S.eq(normalize(got), got), "normalize is not idempotent")
    S.observe("normal", got)
    S.cover("done")


def values(S, alias, canon, lens):
    ts = [ref.T(canon)]
    vals, absv = ref.many(S, ts, lens)
    for f in (encode, encode_packed):
        k1, a = ref.outcome(f, [alias], vals)
        k2, b = ref.outcome(f, [canon], vals)
        S.check(k1 == "ok" and k2 == "ok", "refused")
        S.check(S.eq(a, b), "alias and canonical type encode differently")
    S.check(is_encodable(alias, vals[0]) and is_encodable_packed(alias, vals[0]), "is_encodable")
    data = ref.enc_seq(ts, absv)
    for strict in (True, False):
        k1, a = ref.outcome(decode, [alias], data, strict=strict)
        S.check(k1 == "ok" and S.eq(a, tuple(ref.to_py(t, v) for t, v in zip(ts, absv))),
                "decode differs")
    S.observe("enc", data)
    S.cover("done")


def words(S, alias, canon, pre):
    data = pre + S.bytes("w", 32)
    for strict in (True, False):
        k1, a = ref.outcome(decode, [alias], data, strict=strict)
        k2, b = ref.outcome(decode, [canon], data, strict=strict)
        S.check(k1 == k2, "alias and canonical type accept different words")
        if k1 == "ok":
            S.check(S.eq(a, b), "alias and canonical type decode differently")
        else:
            S.check(type(a) is type(b), "different errors")
    dec.compare(S, [alias], data)


def objects(S, alias, canon, wrap):
    v = S.choice("v", domain.oddities())
    v = wrap(v)
    for f in (encode, encode_packed):
        k1, a = ref.outcome(f, [alias], [v])
        k2, b = ref.outcome(f, [canon], [v])
        S.check(k1 == k2, "alias and canonical type accept different values")
        S.check(S.eq(a, b) if k1 == "ok" else type(a) is type(b), "results differ")
    S.check(is_encodable(alias, v) is is_encodable(canon, v), "is_encodable differs")


def mixed(S):
    """several aliases in one type"""
    alias = "(uint,(byte[2],function)[],int[],fixed,bytes)"
    canon = "(uint256,(bytes1[2],bytes24)[],int256[],fixed128x18,bytes)"
    values(S, alias, canon, [1, 2, 3])


def many(S, k):
    """k aliases in one tuple"""
    names = (list(ALIASES) * k)[:k]
    alias = "(" + ",".join(names) + ")"
    canon = "(" + ",".join(ALIASES[n] for n in names) + ")"
    values(S, alias, canon, [1])


def cases(tier):
    out = []
    frames = [("", 4, ""), ("uint", 2, ""), ("", 2, "uint"), ("u", 2, "t"), ("in", 2, ""),
              ("byte", 2, ""), ("byt", 2, ""), ("", 2, "byte"), ("fixe", 2, ""), ("", 2, "fixed"),
              ("functio", 2, ""), ("function", 2, ""), ("(int", 1, "uint)"), ("int[", 2, "]"),
              ("(byte,", 3, ")"), ("ufixed", 3, ""), ("uint8,", 3, ""), ("", 1, "int_8"),
              ("uint", 3, "int"), ("(uint8,int", 1, "bytes,byte", )]
    for f in frames:
        out.append(Case("normalize %r %d %r" % f, norm, *f, covers=("done",), budget=120))
    for k in (5, 9, 17, 40):
        f = ("(" + ",".join((list(ALIASES) * k)[:k]) + ",", 2, ",uint)")
        out.append(Case("normalize %d aliases %d %r" % (k, f[1], f[2]), norm, *f,
                        covers=("done",), budget=120))
    for f in [("(" * 12 + "uint", 1, "byte" + ")" * 12), ("int" + "[2]" * 12, 1, ",byte"),
              ("uint8" * 9, 2, "uint")]:
        out.append(Case("normalize %r %d %r" % f, norm, *f, covers=("done",), budget=120))
    if tier == "thorough":
        for f in [("", 5, ""), ("uint", 4, ""), ("", 4, "byte"), ("(byte,", 4, ")")]:
            out.append(Case("normalize %r %d %r" % f, norm, *f, covers=("done",), budget=120))
    Z = b"\x00" * 32
    for a, c in ALIASES.items():
        for fa, pre in (("%s", b""), ("%s[2]", Z), ("(bool,%s)", Z),
                        ("%s[]", ref.word(32) + ref.word(1))):
            out.append(Case("values " + fa % a, values, fa % a, fa % c, [2], covers=("done",)))
            out.append(Case("words " + fa % a, words, fa % a, fa % c, pre))
        out.append(Case("values %s[][2]" % a, values, a + "[][2]", c + "[][2]", [1, 2],
                        covers=("done",)))
        out.append(Case("objects " + a, objects, a, c, lambda v: v))
        out.append(Case("objects %s[]" % a, objects, a + "[]", c + "[]", lambda v: [v]))
        out.append(Case("objects (%s,bool)" % a, objects, "(%s,bool)" % a, "(%s,bool)" % c,
                        lambda v: (v, True)))
    out.append(Case("several aliases", mixed, covers=("done",)))
    for k in (7, 13, 20):
        out.append(Case("%d aliases" % k, many, k, covers=("done",)))
    return out
