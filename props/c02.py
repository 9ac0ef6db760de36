"""C02: encode produces exactly the Solidity ABI layout."""
from eth_abi import encode
from eth_abi.abi import default_codec

from props import common, ref
from sx.api import Case

INFO = dict(bounds=common.VALUE_BOUNDS, outside=common.VALUE_OUTSIDE,
            assumptions=common.ASSUMPTIONS)


def layout(S, types, lens, outer=list, **forms):
    ts = [ref.T(t) for t in types]
    vals, absv = ref.many(S, ts, lens, **forms)
    kind, got = ref.outcome(encode, outer(types), outer(vals))
    S.check(kind == "ok", "encode refused values of the types")
    S.check(type(got) is bytes, "encode did not return bytes")
    S.check(S.eq(got, ref.enc_seq(ts, absv)), "encoding differs from the ABI layout")
    S.cover("encoded")
    S.observe("enc", got)


def empty(S):
    S.check(encode([], []) == b"" and encode((), ()) == b"", "empty argument list")
    S.cover("encoded")


def cases(tier):
    out = [Case("no arguments", empty, covers=("encoded",))]
    for name, types, lens, forms in common.value_cases(tier):
        out.append(Case(name, layout, types, lens, covers=("encoded",), **forms))
    return out
