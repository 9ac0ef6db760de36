"""C23: malformed text is handled as the string decoder was configured, and in no other way."""
from eth_abi.codec import ABICodec
from eth_abi.decoding import ContextFramesBytesIO, StringDecoder
from eth_abi.encoding import TextStringEncoder
from eth_abi.exceptions import DecodingError
from eth_abi.registry import registry as default

from props import c06, common, dec, ref
from sx.api import Case

HANDLERS = ["surrogateescape", "ignore", "replace", "backslashreplace", "strict"]
INFO = dict(
    bounds="Each documented error handler; every byte string of every length up to the number of "
           "bytes listed per type list, and for the listed nestings a valid layout with an "
           "arbitrary word, or with arbitrary contents of the listed lengths; strict and "
           "non-strict decoding.",
    outside="Other handlers (including ones installed with codecs.register_error), longer "
            "payloads.",
    assumptions=common.ASSUMPTIONS + [
        "bytes.decode with an error handler is one function of the bytes and the handler"])


def codec(h):
    r = default.copy()
    r.register("aa", TextStringEncoder, StringDecoder(handle_string_errors=h))
    return ABICodec(r)


def layout(s):
    return ref.T(s.replace("aa", "bytes"))


def text(s, t, v, h):
    """the Python value of the abstract value v, "aa" being text read with handler h"""
    if s == "aa":
        return v.decode("utf-8", h)
    if s.endswith("]"):
        i = s.rindex("[")
        return tuple(text(s[:i], t[1], x, h) for x in v)
    if s.startswith("("):
        return tuple(text(c, ct, x, h) for c, ct, x in zip(split(s[1:-1]), t[1], v))
    return ref.to_py(t, v)


def split(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
            continue
        depth += {"(": 1, ")": -1}.get(c, 0)
        cur += c
    return out + [cur]


def expected(types, data, mode, h):
    ts = [layout(s) for s in types]
    try:
        vs = ref.dec_list(ts, data, 0, mode)
        return tuple(text(s, t, v, h) for s, t, v in zip(types, ts, vs))
    except (ref.Refuse, UnicodeDecodeError):
        return None


def compare(S, c, h, types, data, strict):
    kind, got = ref.outcome(c.decode, list(types), data, strict=strict)
    exp = expected(types, data, "strict" if strict else "relaxed", h)
    if kind == "ok":
        S.check(exp is not None, "accepted a payload that denotes no value")
        S.check(S.eq(got, exp), "text differs from what the handler makes of the content")
        S.observe("values", got)
    else:
        S.check(isinstance(got, (DecodingError, UnicodeDecodeError)),
                "raised %s instead of a DecodingError" % type(got).__name__)
        if h != "strict" and not any("string" in t for t in types):
            S.check(not isinstance(got, UnicodeDecodeError), "the handler was not used")
        S.check(exp is None, "refused a payload that denotes values (%s)" % type(got).__name__)
        S.observe("error", type(got).__name__)
    S.cover("accepted" if kind == "ok" else "refused")


def nested(types):
    return any(("(" in t or "[" in t) and ("aa" in t or "bytes" in t or "string" in t)
               for t in types)


def any_payload(S, h, types, n, strict):
    compare(S, codec(h), h, types, S.buffer("data", n, 0), strict)


def corrupt(S, h, types, lens, places):
    lay = [s.replace("aa", "bytes") for s in types]
    data = c06.encoding(lay, lens)
    k = S.choice("at", places)
    data = data[:32 * k] + S.bytes("w", 32) + data[32 * k + 32:]
    compare(S, codec(h), h, types, S.payload("p", data), True)


def contents(S, h, n):
    """arbitrary contents in every position; the default type next to it keeps its own rule"""
    c = codec(h)
    b = S.bytes("b", n)
    for s in ("aa", "aa[1]", "(aa)", "(bool,aa[])"):
        t = layout(s)
        v = {"aa": b, "aa[1]": [b], "(aa)": [b], "(bool,aa[])": [True, [b]]}[s]
        data = ref.enc_seq([t], [v])
        for strict in (True, False):
            compare(S, c, h, (s,), data, strict)
    # both types in one call, and the default one afterwards
    data = ref.enc_seq([("bytes",), ("bytes",)], [b, b])
    compare(S, c, h, ("aa", "string"), data, True)
    compare(S, c, h, ("string", "aa"), data, True)
    kind, got = ref.outcome(c.decode, ["string"], ref.enc_seq([("bytes",)], [b]))
    try:
        want = b.decode("utf-8")
    except UnicodeDecodeError:
        want = None
    if kind == "ok":
        S.check(want is not None and S.eq(got, (want,)), "the default string type has changed")
    else:
        S.check(want is None and isinstance(got, UnicodeDecodeError),
                "the default string type has changed")


def direct(S, h, n, positional):
    """the decoder used on its own"""
    d = StringDecoder(h) if positional else StringDecoder(handle_string_errors=h)
    b = S.bytes("b", n)
    kind, got = ref.outcome(d, ContextFramesBytesIO(ref.word(n) + ref.pad32(b)))
    try:
        want = b.decode("utf-8", h)
    except UnicodeDecodeError:
        want = None
    if want is None:
        S.check(kind == "err" and isinstance(got, UnicodeDecodeError), "accepted malformed text")
        S.cover("refused")
    else:
        S.check(kind == "ok", "raised %s" % type(got).__name__)
        S.check(S.eq(got, want), "text differs from what the handler makes of the content")
        S.cover("accepted")


LISTS = [(("aa",), 160), (("uint8", "aa"), 160), (("aa[]",), 160), (("(aa,uint8)",), 160),
         (("aa", "string"), 192), (("bytes", "aa"), 192)]
SHAPES = [(("aa", "uint8"), [5]), (("aa[]", "string"), [2, 3, 33, 2]), (("(aa,bytes)[1]",), [4, 5]),
          (("aa[2]",), [31, 32])]


def cases(tier):
    out = []
    deep = tier == "thorough"
    for h in HANDLERS:
        for types, n in LISTS if deep or h in ("replace", "surrogateescape") else LISTS[:3]:
            for strict in (True, False):
                if not strict and nested(types):
                    continue  # finding D10
                out.append(Case("%s %s up to %d bytes%s" % (h, ",".join(types), n,
                                                            "" if strict else ", non-strict"),
                                any_payload, h, types, n, strict, budget=120,
                                covers=("accepted", "refused")))
        for types, lens in SHAPES:
            n = len(c06.encoding([s.replace("aa", "bytes") for s in types], lens)) // 32
            for i in range(0, n, 5):
                out.append(Case("%s %s/%s word %d.." % (h, ",".join(types), lens, i), corrupt, h,
                                types, lens, list(range(i, min(n, i + 5))), budget=120))
        for n in [0, 1, 2, 3, 4, 5, 31, 32, 33, 64] + (list(range(6, 31)) if deep else []):
            out.append(Case("%s contents of %d bytes" % (h, n), contents, h, n, budget=120))
            out.append(Case("%s decoder on %d bytes" % (h, n), direct, h, n, n % 2 == 0,
                            budget=60))
    return out
