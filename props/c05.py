"""C05: a static word decodes only if it is canonical."""
from eth_abi.exceptions import InsufficientDataBytes

from props import common, dec, ref
from sx.api import Case

INFO = dict(
    bounds="Every 256-bit word for every elementary static type (all intN, uintN, bytesN, bool, "
           "address, the aliases, the listed fixed sizes; thorough: about half of all 2x2560), "
           "alone and as last item of T[2], (bool,T) and T[], strict and non-strict; every byte "
           "string of 0..31 bytes alone and as the last word of those.",
    outside="fixed sizes not listed.",
    assumptions=common.ASSUMPTIONS)

Z = b"\x00" * 32


def prefix(shape, t):
    """type list and the concrete words before the symbolic one"""
    if shape == "alone":
        return [t], b""
    if shape == "array":
        return ["%s[2]" % t], Z
    if shape == "tuple":
        return ["(bool,%s)" % t], Z
    return ["%s[]" % t], ref.word(32) + ref.word(1)


def word(S, t, shape, strict):
    types, pre = prefix(shape, t)
    w = S.bytes("w", 32)
    kind, got, why = dec.compare(S, types, pre + w, strict)
    if kind == "err":
        S.check(not isinstance(got, InsufficientDataBytes), "no data missing")


def short(S, t, shape, strict):
    types, pre = prefix(shape, t)
    n = S.choice("n", list(range(32)))
    w = S.bytes("w", n)
    kind, got, why = dec.compare(S, types, pre + w, strict)
    S.check(kind == "err" and isinstance(got, InsufficientDataBytes),
            "short data did not raise InsufficientDataBytes")


def full(t):
    """no word is illegal for t"""
    k = ref.T(t)
    return k[0] in ("uint", "int", "ufixed", "fixed") and k[1] == 256 or k == ("bytesn", 32)


def cases(tier):
    out = []
    types = list(common.STATIC)
    if tier == "thorough":
        types += common.more_fixed()
    for t in types:
        for shape in ("alone", "array", "tuple", "dynamic array"):
            for strict in (True, False):
                if shape != "alone" and not strict and tier == "quick":
                    continue
                nm = "%s %s%s" % (t, shape, "" if strict else " non-strict")
                out.append(Case(nm, word, t, shape, strict,
                                covers=("accepted",) if full(t) else ("accepted", "refused")))
                out.append(Case(nm + " short", short, t, shape, strict, covers=("refused",)))
    return out
