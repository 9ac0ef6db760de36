"""C09: a truncated encoding never decodes."""
from eth_abi import decode, encode
from eth_abi.exceptions import DecodingError

from props import common, ref
from sx.api import Case

INFO = dict(
    bounds="Every cut point (symbolic) of the ABI encoding (which encode produces, C02) of "
           "arbitrary values, for the types, nestings and lengths of props/common.py; fixed "
           "values for its largest types, the very largest cut at the last 100 bytes only; strict "
           "and non-strict.",
    outside=common.VALUE_OUTSIDE,
    assumptions=common.ASSUMPTIONS)


def truncated(S, types, lens, strict, concrete, tail=None, outer=list, **forms):
    ts = [ref.T(t) for t in types]
    if concrete:
        plan = ref.Plan(lens)
        absv = [ref.sample(t, plan) for t in ts]
        data = encode(list(types), [ref.to_py(t, v) for t, v in zip(ts, absv)])
        S.check(S.eq(data, ref.enc_seq(ts, absv)), "encoding differs from the ABI layout")
    else:
        vals, absv = ref.many(S, ts, lens, **forms)
        data = ref.enc_seq(ts, absv)
    n = S.int("cut", 0 if tail is None else max(0, len(data) - tail), len(data) - 1)
    kind, got = ref.outcome(decode, list(types), data[:n], strict=strict)
    if kind == "ok":
        S.check(not strict, "a proper prefix of an encoding decoded")
        want = tuple(ref.to_py(t, v) for t, v in zip(ts, absv))
        S.check(S.eq(got, want), "non-strict decoding of a prefix gave other values")
        S.cover("accepted")
    else:
        S.check(isinstance(got, DecodingError), "raised %s" % type(got).__name__)
        S.observe("error", type(got).__name__)
        S.cover("refused")


LONG = ("bytes1[257]", "bool[1025]", "bool[4097]")


def expand(lens):
    out = [[]]
    for x in lens:
        out = [a + [y] for a in out for y in ([x] if type(x) is int else x)]
    return out


def cases(tier):
    out = []
    for name, types, lens, forms in common.value_cases(tier):
        if forms and tier == "quick":
            continue
        big = (types, lens) in common.BIG
        text = "string" in "".join(types)
        for ls in expand(lens) if big or ((types, lens) in common.SYMLEN and text) else [lens]:
            tail = None
            if big and (sum(x for x in ls if type(x) is int) > 250 or sum(map(len, types)) > 600
                        or types[0] in LONG):
                tail = 100
            for strict in (True, False):
                out.append(Case(name + str(ls) + ("" if strict else " non-strict"), truncated,
                                types, ls, strict,
                                big or (types, lens) in common.DEEP or ls is not lens,
                                tail, covers=("refused",), **forms))
    return out
