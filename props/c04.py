"""C04: is_encodable says True exactly when encode would succeed (also packed)."""
from eth_abi import encode, is_encodable
from eth_abi.packed import encode_packed, is_encodable_packed

from props import common, domain, ref
from sx.api import Case

INFO = dict(
    bounds="The candidate values of C03 (props/domain.py), acceptable and not, for the standard "
           "and the packed functions; values of the types of C01's list.",
    outside="Values of other Python classes; custom coders (see C20).",
    assumptions=common.ASSUMPTIONS)


def agree(S, typ, v, ask, enc, what):
    kind, r = ref.outcome(ask, typ, v)
    S.check(kind == "ok", "%s raised %s" % (what, type(r).__name__))
    S.check(r is True or r is False, "%s returned neither True nor False" % what)
    kind, _ = ref.outcome(enc, [typ], [v])
    S.check(r is (kind == "ok"), "%s disagrees with encoding" % what)
    S.observe(what, r)
    S.cover("true" if r else "false")
    return r


def candidate(S, typ, fn, packed):
    v = fn(S)[0]
    if packed:
        agree(S, typ, v, is_encodable_packed, encode_packed, "is_encodable_packed")
    else:
        agree(S, typ, v, is_encodable, encode, "is_encodable")


def values(S, types, lens, outer=list, **forms):
    ts = [ref.T(t) for t in types]
    vals, _ = ref.many(S, ts, lens, **forms)
    for t, v in zip(types, vals):
        S.check(agree(S, t, v, is_encodable, encode, "is_encodable"), "False for a value")
        S.check(agree(S, t, v, is_encodable_packed, encode_packed, "is_encodable_packed"),
                "packed: False for a value")


def cases(tier):
    out = []
    for name, t, fn in domain.scenarios(tier):
        out.append(Case(name, candidate, t, fn, False))
        out.append(Case("packed " + name, candidate, t, fn, True))
    for name, types, lens, forms in common.value_cases(tier):
        if types[0] in common.STATIC and len(types) == 1:
            continue
        if "big" in name and sum(x for x in lens if type(x) is int) > 1000:
            continue
        out.append(Case(name, values, types, lens, covers=("true",), **forms))
    return out
