"""C03: a value is encoded exactly or refused with an EncodingError."""
from eth_abi import encode
from eth_abi.exceptions import EncodingError

from props import common, domain, ref
from sx.api import Case

INFO = dict(
    bounds="Integers of -2^270..2^270 for every intN/uintN; decimals c*10^e with c symbolic "
           "(past both ends of the range) and e in 0, 2, -1, -n+1, -n, -n-1, -n-3 for the listed "
           "fixed sizes; bytes of the lengths around the width; address and string texts of "
           "symbolic characters; arrays of 0..3 items; a list of Python objects of other kinds "
           "alone and inside compounds.",
    outside="Other container classes; decimals with other exponents; bool for fixed types.",
    assumptions=common.ASSUMPTIONS)


def exact_or_refused(S, typ, fn, fun=encode, layout=ref.enc_seq):
    t = ref.T(typ)
    v, acc, a, d1 = fn(S)
    kind, got = ref.outcome(fun, [typ], [v])
    S.observe("kind", kind)
    if kind == "ok":
        S.known("D1", S.either(acc, S.neg(d1)),
                "accepted a negative value with excess fractional digits")
        S.check(S.either(acc, d1), "accepted a value the type cannot represent")
        if acc:
            S.check(S.eq(got, layout([t], [ref.extend(t, a)])), "encoding changes the value")
            S.observe("enc", got)
            S.cover("accepted")
    else:
        S.check(isinstance(got, EncodingError),
                "refused with %s instead of an EncodingError" % type(got).__name__)
        S.check(S.neg(acc), "refused a value of the type")
        S.observe("error", type(got).__name__)
        S.cover("refused")


def arity(S, types, item):
    """a wrong number of arguments"""
    n = S.choice("n", list(range(6)))
    kind, got = ref.outcome(encode, list(types), [item] * n)
    if kind == "ok":
        S.check(n == len(types), "accepted a wrong number of arguments")
    else:
        S.check(n != len(types), "refused the right number of arguments")
        S.check(isinstance(got, EncodingError), "refused with %s" % type(got).__name__)


def cases(tier):
    out = []
    for name, t, fn in domain.scenarios(tier):
        out.append(Case(name, exact_or_refused, t, fn))
    for types, item in ((("uint8", "uint8"), 1), (("bytes",), b"a"), ((), 1),
                        (("string",) * 4, "x")):
        out.append(Case("arity %d" % len(types), arity, types, item))
    return out
