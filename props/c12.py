"""C12: fixed-point coding is exact in any ambient decimal context."""
import decimal

from eth_abi import decode, encode, is_encodable
from eth_abi.exceptions import EncodingError
from eth_abi.packed import encode_packed

from props import common, domain, ref
from sx.api import Case

INFO = dict(
    bounds="Every word of the listed fixed and ufixed types decoded, and every in-range value "
           "c*10^-n (and candidates beyond the range or the precision) encoded, under each of the "
           "listed ambient contexts: precisions 1, 2, 3, 9, 28, 77, 79, 200 with every rounding "
           "mode, all traps on, all traps off, narrow exponent ranges, clamping.  Thorough: "
           "precisions 1..100.",
    outside="Other contexts and fixed sizes.",
    assumptions=common.ASSUMPTIONS + [
        "status flags are modelled for rounding only; others are compared when path models are "
        "replayed on the real interpreter"])

ROUND = [decimal.ROUND_HALF_EVEN, decimal.ROUND_DOWN, decimal.ROUND_UP, decimal.ROUND_FLOOR,
         decimal.ROUND_CEILING, decimal.ROUND_HALF_UP, decimal.ROUND_HALF_DOWN,
         decimal.ROUND_05UP]
SIGNALS = [decimal.Clamped, decimal.DivisionByZero, decimal.FloatOperation, decimal.Inexact,
           decimal.InvalidOperation, decimal.Overflow, decimal.Rounded, decimal.Subnormal,
           decimal.Underflow]


def contexts(tier):
    out = []
    precs = [1, 2, 3, 9, 28, 77, 79, 200]
    for i, p in enumerate(precs):
        for j, r in enumerate(ROUND):
            if tier == "quick" and p > 3 and (i + j) % 4:
                continue
            out.append(("prec %d %s" % (p, r), dict(prec=p, rounding=r, traps=[])))
    for p in (1, 5, 28, 60, 100):
        out.append(("prec %d all traps" % p, dict(prec=p, traps=SIGNALS)))
        out.append(("prec %d default traps" % p, dict(
            prec=p, traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow])))
    out.append(("Inexact trapped", dict(prec=10, traps=[decimal.Inexact])))
    out.append(("narrow exponents", dict(prec=10, Emin=-5, Emax=5, traps=[])))
    out.append(("narrow exponents, traps", dict(prec=4, Emin=-1, Emax=1, traps=SIGNALS)))
    out.append(("zero exponents", dict(prec=28, Emin=0, Emax=0, traps=[], clamp=1)))
    out.append(("clamped, lower case", dict(prec=6, clamp=1, capitals=0, traps=[])))
    if tier == "thorough":
        for p in range(1, 101):
            out.append(("precision %d" % p, dict(prec=p, traps=[])))
    return out


def state(c):
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp,
            tuple(c.traps[s] for s in SIGNALS), tuple(c.flags[s] for s in SIGNALS))


def within(S, ctx, f, *a):
    """outcome of f(*a) in an ambient context, which must come out unchanged"""
    with decimal.localcontext(decimal.Context(**ctx)):
        c = decimal.getcontext()
        before = state(c)
        r = ref.outcome(f, *a)
        same = decimal.getcontext() is c
        after = state(c)
    S.check(same, "the ambient context was replaced")
    S.check(before == after, "the ambient context was changed")
    return r


def pick(S, tier):
    if tier == "few":
        return S.choice("ctx", [c for _, c in contexts("quick")][::9])
    return S.choice("ctx", [c for _, c in contexts(tier)])


def decoding(S, typ, tier):
    t = ref.T(typ)
    w = S.int("w", *ref.irange(t))
    data = ref.word(w)
    kind, got = within(S, pick(S, tier), decode, [typ], data)
    S.check(kind == "ok", "decode refused a canonical word")
    S.check(S.eq(got, (ref.exact(w, t[2]),)), "decoded value is not exact")
    S.observe("value", got)
    S.cover("decoded")


def encoding(S, typ, exp, tier):
    t = ref.T(typ)
    v, acc, w, d1 = domain.s_dec(S, t, exp)
    ctx = pick(S, tier)
    kind, got = within(S, ctx, encode, [typ], [v])
    if kind == "ok":
        S.known("D1", S.either(acc, S.neg(d1)),
                "accepted a negative value with excess fractional digits")
        S.check(S.either(acc, d1), "accepted a value the type cannot represent")
        if acc:
            S.check(S.eq(got, ref.word(w)), "encoded value is not exact")
        S.cover("accepted")
    else:
        S.check(isinstance(got, EncodingError), "raised " + type(got).__name__)
        S.check(S.neg(acc), "refused a value of the type")
    S.observe("kind", kind)


def others(S, typ, exp, tier):
    """is_encodable and encode_packed agree with encode's outcome"""
    t = ref.T(typ)
    v, acc, w, d1 = domain.s_dec(S, t, exp)
    ctx = pick(S, tier)
    if S.neg(d1):
        kind, got = within(S, ctx, is_encodable, typ, v)
        S.check(kind == "ok", "is_encodable raised")
        S.check(got if acc else not got, "is_encodable is wrong")
        kind, got = within(S, ctx, encode_packed, [typ], [v])
        if acc:
            S.check(kind == "ok", "encode_packed refused a value")
            S.check(S.eq(got, ref.packed(t, w)), "packed value is not exact")
        else:
            S.check(kind == "err" and isinstance(got, EncodingError), "encode_packed")


def integers(S, typ, tier):
    t = ref.T(typ)
    v, acc, w, _ = domain.s_fixed_int(S, t)
    kind, got = within(S, pick(S, tier), encode, [typ], [v])
    if kind == "ok":
        S.check(acc, "accepted an integer out of range")
        S.check(S.eq(got, ref.word(w)), "encoded value is not exact")
    else:
        S.check(isinstance(got, EncodingError), "raised " + type(got).__name__)
        S.check(S.neg(acc), "refused a value of the type")


def specials(S, typ, tier):
    """odd decimals in any context"""
    D = decimal.Decimal
    t = ref.T(typ)
    v = S.choice("v", [D("NaN"), D("sNaN"), D("Infinity"), D("-Infinity"), D("-0"), D("0E-99"),
                       D("1E-2000000"), D("1E+2000000"), D("0." + "0" * 90 + "1"), D("1E-81"),
                       D("0E+5000"), 0, 1, 10 ** 40, 1.5, None])
    acc, w = domain.accepts(t, v)
    kind, got = within(S, pick(S, tier), encode, [typ], [v])
    if acc:
        S.check(kind == "ok" and S.eq(got, ref.word(w)), "not encoded exactly")
    else:
        S.check(kind == "err" and isinstance(got, EncodingError), "not refused cleanly")


TYPES = ["ufixed8x1", "fixed8x1", "fixed8x80", "ufixed16x3", "fixed64x18", "fixed128x18",
         "ufixed128x18", "ufixed256x80", "fixed256x80", "fixed256x1"]


def cases(tier):
    out = []
    for t in TYPES + (common.UFIXED + common.FIXED if tier == "thorough" else []):
        if t + " decode" in [c.name for c in out]:
            continue
        n = ref.T(t)[2]
        out.append(Case(t + " decode", decoding, t, tier, covers=("decoded",), budget=120))
        for e in (-n, -n - 1, 0):
            few = tier == "quick" and (e == 0 or "256" in t)
            out.append(Case("%s encode c*10^%d" % (t, e), encoding, t, e, "few" if few else tier,
                            covers=("accepted",), budget=120))
        out.append(Case("%s is_encodable, packed" % t, others, t, -n, tier, budget=120))
        out.append(Case(t + " encode integers", integers, t,
                        "few" if tier == "quick" else tier, budget=120))
        out.append(Case(t + " special decimals", specials, t, tier, budget=120))
    return out
