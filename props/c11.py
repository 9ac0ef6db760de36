"""C11: packed encoding is the plain concatenation of minimal-width values."""
from eth_abi import encode
from eth_abi.exceptions import EncodingError
from eth_abi.packed import encode_packed

from props import common, domain, ref
from sx.api import Case

INFO = dict(bounds=common.VALUE_BOUNDS + "  Acceptance: the candidate values of C03.",
            outside=common.VALUE_OUTSIDE, assumptions=common.ASSUMPTIONS)


def packed_all(ts, vs):
    return b"".join(ref.packed(t, v) for t, v in zip(ts, vs))


def layout(S, types, lens, outer=list, **forms):
    ts = [ref.T(t) for t in types]
    vals, absv = ref.many(S, ts, lens, **forms)
    kind, got = ref.outcome(encode_packed, outer(types), outer(vals))
    S.check(kind == "ok", "encode_packed refused values of the types")
    S.check(type(got) is bytes, "encode_packed did not return bytes")
    S.check(S.eq(got, packed_all(ts, absv)), "not the concatenation of minimal forms")
    S.observe("enc", got)
    S.cover("encoded")


def candidate(S, typ, fn):
    t = ref.T(typ)
    v, acc, a, d1 = fn(S)
    kind, got = ref.outcome(encode_packed, [typ], [v])
    k2, _ = ref.outcome(encode, [typ], [v])
    S.check(kind == k2, "acceptance differs from standard mode")
    S.observe("kind", kind)
    if kind == "ok":
        if acc:
            S.check(S.eq(got, ref.packed(t, ref.extend(t, a))),
                    "not the concatenation of minimal forms")
        S.cover("accepted")
    else:
        S.check(isinstance(got, EncodingError), "refused with " + type(got).__name__)
        S.check(S.neg(acc), "refused a value of the type")
        S.cover("refused")


def cases(tier):
    out = []
    for name, types, lens, forms in common.value_cases(tier):
        out.append(Case(name, layout, types, lens, covers=("encoded",), **forms))
    for name, t, fn in domain.scenarios(tier):
        out.append(Case("candidate " + name, candidate, t, fn))
    return out
