"""Comparing decode with the reference decoder."""
from eth_abi import decode
from eth_abi.exceptions import DecodingError

from props import ref


def expected(ts, data, mode):
    """(values, None) or (None, reason)"""
    try:
        want = ref.dec_list(ts, data, 0, mode)
        return tuple(ref.to_py(t, v) for t, v in zip(ts, want)), None
    except ref.Refuse as e:
        return None, e.kind
    except UnicodeDecodeError:
        return None, "utf8"


def err_name(e):
    return "UnicodeDecodeError" if isinstance(e, UnicodeDecodeError) else type(e).__name__


def compare(S, types, data, strict=True, mode="strict", kwargs=True):
    """decode agrees with the reference; returns (kind, result, reason)"""
    ts = [ref.T(t) for t in types]
    if strict and not kwargs:
        kind, got = ref.outcome(decode, list(types), data)
    else:
        kind, got = ref.outcome(decode, list(types), data, strict=strict)
    exp, why = expected(ts, data, mode)
    if kind == "ok":
        S.check(exp is not None, "accepted a payload that denotes no value (%s)" % why)
        S.check(S.eq(got, exp), "decoded values differ from the denoted ones")
        S.cover("accepted")
        S.observe("values", got)
    else:
        S.check(isinstance(got, (DecodingError, UnicodeDecodeError)),
                "raised %s instead of a DecodingError" % type(got).__name__)
        S.check(exp is None, "refused a payload that denotes values (%s)" % type(got).__name__)
        S.cover("refused")
        S.observe("error", err_name(got))
    return kind, got, why


def compare_loose(S, types, data):
    """non-strict decoding agrees with the relaxed reference wherever it accepts, and with the
    strict one wherever that accepts (what lies between is C08's business)"""
    ts = [ref.T(t) for t in types]
    kind, got = ref.outcome(decode, list(types), data, strict=False)
    if kind == "ok":
        exp, why = expected(ts, data, "relaxed")
        S.check(exp is not None, "accepted a payload that denotes no value (%s)" % why)
        S.check(S.eq(got, exp), "decoded values differ from the denoted ones")
        S.cover("accepted")
        S.observe("values", got)
    else:
        S.check(isinstance(got, (DecodingError, UnicodeDecodeError)),
                "raised %s instead of a DecodingError" % type(got).__name__)
        exp, why = expected(ts, data, "strict")
        S.check(exp is None, "refused a payload that denotes values (%s)" % type(got).__name__)
        S.cover("refused")
        S.observe("error", err_name(got))
    return kind, got, why
