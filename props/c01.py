"""C01: decode(types, encode(types, values)) returns the values."""
from eth_abi import decode, encode

from props import common, ref
from sx.api import Case

INFO = dict(bounds=common.VALUE_BOUNDS, outside=common.VALUE_OUTSIDE,
            assumptions=common.ASSUMPTIONS)


def roundtrip(S, types, lens, outer=list, **forms):
    ts = [ref.T(t) for t in types]
    vals, absv = ref.many(S, ts, lens, **forms)
    want = tuple(ref.to_py(t, v) for t, v in zip(ts, absv))
    kind, data = ref.outcome(encode, outer(types), outer(vals))
    S.check(kind == "ok", "encode refused values of the types")
    S.check(type(data) is bytes, "encode did not return bytes")
    kind, got = ref.outcome(decode, outer(types), data)
    S.check(kind == "ok", "strict decode refused an encoding")
    S.check(S.eq(got, want), "strict decode returned other values")
    S.observe("values", got)
    kind, got = ref.outcome(decode, outer(types), data, strict=False)
    S.check(kind == "ok", "non-strict decode refused an encoding")
    S.check(S.eq(got, want), "non-strict decode returned other values")
    S.cover("decoded")


def empty(S):
    S.check(decode([], encode([], [])) == (), "empty argument list")
    S.cover("decoded")


def cases(tier):
    out = [Case("no arguments", empty, covers=("decoded",))]
    for name, types, lens, forms in common.value_cases(tier):
        out.append(Case(name, roundtrip, types, lens, covers=("decoded",), **forms))
    return out
