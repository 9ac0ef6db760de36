"""C21: strategies generate only encodable values and reach the whole range."""
import eth_utils.address as _address

from eth_abi import encode, is_encodable
from eth_abi.tools import get_abi_strategy

from props import common, ref
from props.fakehyp import strategies as st
from sx.api import Case

INFO = dict(
    bounds="Every draw (numbers, contents) of the strategies of every intN, uintN, bytesN, the "
           "listed fixed sizes, bool, address, bytes, string, the aliases and the listed arrays "
           "and tuples; every value of the type is shown to be drawable (numbers, fixed-size and "
           "short contents, 100 for string, bool[], uint8[] and bytes1[]; other lists of 0 to 2 "
           "or exactly the fixed size).",
    outside="Longer texts and lists; how hypothesis itself draws (its strategies are replaced by "
            "descriptions of the sets they generate); address checksums are tried with four "
            "fixed hash values.",
    assumptions=common.ASSUMPTIONS + [
        "hypothesis.strategies.integers/binary/text/decimals/lists/tuples/booleans generate "
        "exactly the values their arguments describe"])

HASH = [None]
_keccak = _address.keccak


def keccak(*a, **k):
    if HASH[0] is not None:
        return HASH[0]
    return _keccak(*a, **k)


_address.keccak = keccak
HASHES = [b"\x00" * 32, b"\xff" * 32, b"\x0f" * 32, bytes(range(0, 256, 8))]


def has_address(t):
    return "address" in t


def generate(S, typ):
    """whatever is drawn can be encoded"""
    strategy = get_abi_strategy(typ)
    h = S.choice("hash", HASHES) if has_address(typ) else None
    HASH[0] = h if S.symbolic else None
    try:
        v = strategy.draw(S, "v", None)
    except st.Unknown:
        S.cover("undescribed")
        return
    kind, ok = ref.outcome(is_encodable, typ, v)
    S.check(kind == "ok" and ok is True, "a generated value is not encodable")
    kind, e = ref.outcome(encode, [typ], [v])
    S.check(kind == "ok", "a generated value is refused by encode (%s)" % type(e).__name__)
    t = ref.T(typ)
    if t[0] == "bytesn":
        S.check(len(v) == t[1], "a size other than the type's")
    S.observe("encoded", e)
    S.cover("done")


def covers(S, s, t, v, py):
    """condition under which the strategy can generate py, the Python form of v"""
    if isinstance(s, st.OneOf):
        return S.either(*[covers(S, p, t, v, py) for p in s.parts])
    if t[0] in ("arr", "tup"):
        if isinstance(s, st.Mapped) and s.f in (tuple, list):
            return covers(S, s.base, t, v, py)
        if t[0] == "arr" and isinstance(s, st.Lists):
            if s.unique:
                return False
            return S.both(s.lo <= len(v), s.hi is None or len(v) <= s.hi,
                          *[covers(S, s.item, t[1], a, b) for a, b in zip(v, py)])
        if t[0] == "tup" and isinstance(s, st.Tuples) and len(s.parts) == len(t[1]):
            return S.both(*[covers(S, p, c, a, b)
                            for p, c, a, b in zip(s.parts, t[1], v, py)])
        raise st.Unknown(t[0])
    if t[0] in ("fixed", "ufixed"):
        cands = [v, (v, 0), (v, t[2])]
    elif t[0] == "string":
        cands = [py]
    else:
        cands = [v]
    out = []
    for c, got in s.reach(S, cands):
        if t[0] == "address":
            out.append(S.both(c, S.either(S.eq(got.lower(), py) if isinstance(got, str)
                                          else False, S.eq(got, v))))
        elif t[0] in ("fixed", "ufixed"):
            out.append(S.both(c, got == py))
        else:
            out.append(S.both(c, S.eq(got, py)))
    return S.either(*out) if out else False


def leaf_value(S, t, name, plan):
    """abstract value and Python form, over the whole type"""
    if t[0] == "string":
        py = S.str(name, plan.next(), [(0, 0xD7FF), (0xE000, 0x10FFFF)])
        return None, py
    if t[0] == "arr":
        n = t[2] if t[2] is not None else plan.next()
        ps = [leaf_value(S, t[1], "%s_%d" % (name, i), plan) for i in range(n)]
        return [p[0] for p in ps], [p[1] for p in ps]
    if t[0] == "tup":
        ps = [leaf_value(S, c, "%s_%d" % (name, i), plan) for i, c in enumerate(t[1])]
        return [p[0] for p in ps], tuple(p[1] for p in ps)
    _, v = ref.fresh(S, t, name, plan)
    return v, ref.to_py(t, v)


def reach(S, typ, lens):
    """every value of the type can be drawn"""
    strategy = get_abi_strategy(typ)
    HASH[0] = HASHES[3] if has_address(typ) and S.symbolic else None
    t = ref.T(typ)
    v, py = leaf_value(S, t, "x", ref.Plan(lens, free=10 ** 6))
    try:
        c = covers(S, strategy, t, v, py)
    except st.Unknown:
        S.cover("undescribed")
        return
    S.check(c, "a value of the type cannot be generated")
    S.cover("done")


def cases(tier):
    out = []
    deep = tier == "thorough"
    types = [t for t in common.STATIC if deep or not t.startswith(("ufixed", "fixed"))]
    types += common.UFIXED + common.FIXED
    types += common.more_fixed() if deep else []
    types += ["bytes", "string"]
    for t in dict.fromkeys(types):
        out.append(Case("generate " + t, generate, t, budget=60))
        for n in ([0, 1, 33, 200] if t == "bytes" else [0, 1, 3] if t == "string" else [0]):
            out.append(Case("reach %s %d" % (t, n), reach, t, [n], budget=60))
    out.append(Case("reach bytes 4096", reach, "bytes", [4096]))
    for t in ("string", "bool[]", "uint8[]", "bytes1[]"):
        out.append(Case("reach %s, 100 long" % t, reach, t, [100]))
    for t in ("uint8[]", "int16[2]", "bytes3[2][2]", "bool[]", "(uint8,bool)", "(uint8[1],int8)",
              "address[2]", "string[]", "(string,bytes4)", "((bool,uint16)[],byte)", "int8[3]",
              "fixed8x1[2]", "(ufixed16x2,function)", "uint8[][2]", "bytes32[1][]",
              "(bool,(int8,uint)[2])[1]", "string[1][]", "(address,int[])", "bytes[1]"):
        out.append(Case("generate " + t, generate, t, budget=60))
        out.append(Case("reach " + t, reach, t, [2, 1, 0, 2], budget=60))
        out.append(Case("reach %s, short" % t, reach, t, [0, 1, 2], budget=60))
    return out
