"""C26: calls made at the same time do not influence each other."""
from eth_abi.codec import ABICodec
from eth_abi.exceptions import DecodingError, EncodingError
from eth_abi.packed import encode_packed
from eth_abi.registry import registry as default

from props import common, dec, ref
from sx import sched
from sx.api import Case

INFO = dict(
    bounds="Two calls of encode, encode_packed, is_encodable and decode (strict or not, succeeding "
           "or refused) through one codec on the same or on related types, with symbolic values, "
           "on two threads; every schedule in which the first call is suspended at any entry into "
           "a function of the package (for equal operations also at any source line) and the "
           "second then runs; with a second switch back to the first after any (bytes, thorough) "
           "or every ninth entry of the second.  With coders already built and with a fresh "
           "registry.  Also calls made from inside a custom coder "
           "while an outer call is under way.",
    outside="More than two calls or more switches; registrations made at the same time; switches "
            "inside C code.",
    assumptions=common.ASSUMPTIONS)


def prepare(S, name, op, types, lens):
    """(function of a codec, check of its outcome, the same call on fixed values)"""
    ts = [ref.T(t) for t in types]
    plan = ref.Plan(lens, free=1 if name == "a" and len(types) > 1 else 0)
    vals, absv = [], []
    for i, t in enumerate(ts):
        p, a = ref.fresh(S, t, "%s%d" % (name, i), plan)
        vals.append(p)
        absv.append(ref.extend(t, a))
    splan = ref.Plan(lens)
    svals = [ref.to_py(t, ref.sample(t, splan)) for t in ts]
    splan = ref.Plan(lens)
    sdata = ref.enc_seq(ts, [ref.sample(t, splan) for t in ts])
    types = list(types)
    if op == "encode" or op == "packed":
        def go(c):
            return c.encode(types, vals) if op == "encode" else encode_packed(types, vals)

        def dry(c):
            return c.encode(types, svals) if op == "encode" else encode_packed(types, svals)

        want = ref.enc_seq(ts, absv) if op == "encode" else b"".join(
            [ref.packed(t, a) for t, a in zip(ts, absv)])

        def look(kind, got):
            S.check(kind == "ok", "encode refused (%s)" % type(got).__name__)
            S.check(S.eq(got, want), "encode gives another result")
    elif op == "refuse":
        bad = vals[:-1] + [spoil(ts[-1], vals[-1])]

        def go(c):
            return c.encode(types, bad)

        def dry(c):
            return c.is_encodable(types[0], svals[0])

        def look(kind, got):
            S.check(kind == "err" and isinstance(got, EncodingError), "a bad value is encoded")
    elif op == "is":
        def go(c):
            return c.is_encodable(types[-1], vals[-1])

        def dry(c):
            return c.is_encodable(types[-1], svals[-1])

        def look(kind, got):
            S.check(kind == "ok" and got is True, "is_encodable")
    else:
        strict = op != "loose" and op != "dirty"
        data = ref.enc_seq(ts, absv)
        exp = tuple(ref.to_py(t, a) for t, a in zip(ts, absv))
        mode = "strict" if strict else "outer"
        if op == "pointer":
            data, exp = bad_offset(ts, data), None
        elif op == "short":
            data, exp = data[:len(data) - 32], None
        elif op == "dirty" or op == "pad":
            data = data[:len(data) - 1] + S.bytes(name + "pad", 1)
            exp, _ = dec.expected(ts, data, mode)

        def go(c):
            return c.decode(types, data, strict=strict)

        def dry(c):
            return c.decode(types, sdata, strict=strict)

        def look(kind, got):
            if exp is None:
                S.check(kind == "err" and isinstance(got, DecodingError), "a bad payload decodes")
            else:
                S.check(kind == "ok", "decode refused (%s)" % type(got).__name__)
                S.check(S.eq(got, exp), "decode gives another result")
    return go, look, dry


def bad_offset(ts, data):
    """the first offset (the innermost of the first argument) points past the end"""
    i, base, t = 0, 0, ts[0]
    while True:
        q = base + int.from_bytes(bytes(data[i:i + 32]), "big")
        if t[0] == "tup":
            i, base = q, q
            for t in t[1]:
                if ref.dynamic(t):
                    break
                i += 32 * ref.head_words(t)
        elif t[0] == "arr" and ref.dynamic(t[1]):
            i = base = q + (32 if t[2] is None else 0)
            t = t[1]
        else:
            return data[:i] + ref.word(9999) + data[i + 32:]


def spoil(t, v):
    if t[0] == "arr":
        return list(v[:-1]) + [spoil(t[1], v[-1])] if v else 5
    if t[0] == "tup":
        return list(v[:-1]) + [spoil(t[1][-1], v[-1])]
    return object()


def pair(S, ops, typesets, lenses, cold, lines, back):
    calls = [prepare(S, n, op, t, l) for n, op, t, l in zip("ab", ops, typesets, lenses)]
    c = ABICodec(default.copy())
    for _, _, dry in calls:
        dry(c)
    if cold:
        n = []
        for _, _, dry in calls:
            d = ABICodec(default.copy())
            n.append(sched.count(lambda: dry(d), lines))
        c = ABICodec(default.copy())
    else:
        n = [sched.count(lambda: dry(c), lines) for _, _, dry in calls]
    a, b = back
    plan = [S.choice("first", list(range(0, n[0] + 1, a)))]
    if b:
        plan.append(S.choice("second", list(range(0, n[1] + 1, b))))
    try:
        res = sched.interleave([lambda go=go: ref.outcome(go, c) for go, _, _ in calls], plan,
                               lines)
    except sched.Blocked:
        S.cover("done")
        return
    for (_, look, _), (kind, got) in zip(calls, res):
        look(kind, got)
    S.cover("done")


# -- calls made from inside a coder ---------------------------------------------------------------
def inside(S, types, lens, op, strict):
    """aa is coded like bytes; its coder makes a call of its own on the same types"""
    r = default.copy()
    c = ABICodec(r)
    ts = [ref.T(t.replace("aa", "bytes")) for t in types]
    inner = prepare_inner(S, op, types, ts, lens)
    depth = [0]
    enc0, dec0 = r.get_encoder("bytes"), r.get_decoder("bytes")
    late = S.choice("late", [False, True])

    def nested():
        if depth[0]:
            return
        depth[0] = 1
        try:
            inner(c)
        finally:
            depth[0] = 0

    def e(v):
        if not late:
            nested()
        out = enc0(v)
        if late:
            nested()
        return out

    def d(stream):
        if not late:
            nested()
        out = dec0(stream)
        if late:
            nested()
        return out

    e.is_dynamic = d.is_dynamic = True
    r.register("aa", e, d)
    plan = ref.Plan(lens, free=1)
    vals, absv = [], []
    for i, t in enumerate(ts):
        p, a = ref.fresh(S, t, "o%d" % i, plan)
        vals.append(p)
        absv.append(ref.extend(t, a))
    data = ref.enc_seq(ts, absv)
    kind, got = ref.outcome(c.encode, list(types), vals)
    S.check(kind == "ok", "encode refused (%s)" % type(got).__name__)
    S.check(S.eq(got, data), "encode gives another result")
    kind, got = ref.outcome(c.decode, list(types), data, strict=strict)
    S.check(kind == "ok", "decode refused (%s)" % type(got).__name__)
    S.check(S.eq(got, tuple(ref.to_py(t, a) for t, a in zip(ts, absv))),
            "decode gives another result")
    for t, v in zip(types, vals):
        S.check(c.is_encodable(t, v) is True, "is_encodable")
    S.cover("done")


def prepare_inner(S, op, types, ts, lens):
    plan = ref.Plan([n + 1 for n in lens])
    absv = [ref.sample(t, plan) for t in ts]
    vals = [ref.to_py(t, v) for t, v in zip(ts, absv)]
    data = ref.enc_seq(ts, absv)

    def go(c):
        if op == "encode":
            kind, got = ref.outcome(c.encode, list(types), vals)
            S.check(kind == "ok" and S.eq(got, data), "a call from inside a coder: encode")
        elif op == "refuse":
            kind, got = ref.outcome(c.encode, list(types), [object()] * len(vals))
            S.check(kind == "err", "a call from inside a coder: a bad value is encoded")
        elif op == "decode" or op == "loose":
            kind, got = ref.outcome(c.decode, list(types), data, strict=op == "decode")
            S.check(kind == "ok" and S.eq(got, tuple(vals)), "a call from inside a coder: decode")
        else:
            kind, got = ref.outcome(c.decode, list(types), data[:len(data) - 32])
            S.check(kind == "err", "a call from inside a coder: a short payload decodes")

    return go


BYTES = (("bytes",), [3]), (("bytes",), [34])
PAIRS = [
    ("bytes", *BYTES), ("string", (("string",), [2]), (("string",), [5])),
    ("arrays", (("uint8[]",), [1]), (("uint8[]",), [2])),
    ("bytes[]", (("bytes[]",), [1, 2]), (("bytes[]",), [2, 1, 0])),
    ("tuples", (("(uint8,bytes)",), [2]), (("(uint8,bytes)",), [33])),
    ("two bytes", (("(bytes,bytes)",), [1, 2]), (("(bytes,bytes)",), [2, 33])),
    ("static", (("uint8", "int16"), []), (("uint8", "int16"), [])),
    ("bytes3", (("bytes3", "address"), []), (("bytes3", "address"), [])),
    ("fixed", (("ufixed128x18",), []), (("ufixed128x18",), [])),
    ("sized", (("uint8[2]", "bool"), []), (("uint8[2]", "bool"), [])),
    ("bytes and bytes[1]", (("bytes",), [3]), (("bytes[1]",), [2])),
]
OPS = [("encode", "encode"), ("decode", "decode"), ("decode", "loose"), ("loose", "decode"),
       ("decode", "short"), ("encode", "refuse"), ("encode", "is"), ("decode", "encode"),
       ("encode", "decode"), ("packed", "packed"), ("pad", "dirty"), ("short", "decode"),
       ("refuse", "encode"), ("is", "encode"), ("dirty", "pad"), ("decode", "pointer"),
       ("pointer", "decode")]


def cases(tier):
    out = []
    deep = tier == "thorough"
    for i, (nm, (t1, l1), (t2, l2)) in enumerate(PAIRS):
        dynamic = any(ref.dynamic(ref.T(t)) for t in t1)
        for j, ops in enumerate(OPS):
            if not dynamic and ("dirty" in ops or "pad" in ops or "pointer" in ops):
                continue
            if j > 3 and not deep and (i + j) % 3 and "pointer" not in ops:
                continue
            for cold in (False, True):
                if cold and not deep and (i + j) % 3:
                    continue
                out.append(Case("%s: %s, %s%s" % (nm, ops[0], ops[1], ", fresh" if cold else ""),
                                pair, ops, (t1, t2), (l1, l2), cold, False,
                                (2 if cold and not deep else 1, 0),
                                covers=("done",), budget=90))
                if not cold and (j < 4 or deep):
                    back = (1, 1) if deep or nm == "bytes" else (5, 9)
                    out.append(Case("%s: %s, %s, two switches" % (nm, ops[0], ops[1]), pair, ops,
                                    (t1, t2), (l1, l2), cold, False, back, covers=("done",),
                                    budget=120))
            if ops[0] == ops[1] or deep:
                out.append(Case("%s: %s, %s by lines" % (nm, ops[0], ops[1]), pair, ops, (t1, t2),
                                (l1, l2), False, True, (1, 0), covers=("done",), budget=90))
    for types, lens in ((("aa",), [3]), (("aa[]",), [2, 1, 3]), (("(uint8,aa)",), [2]),
                        (("uint8", "aa", "bytes"), [2, 3]), (("(aa,bytes)[]", "bool"), [1, 2, 3])):
        for op in ("encode", "refuse", "decode", "loose", "short"):
            for strict in (True, False):
                out.append(Case("inside %s: %s, strict=%s" % (",".join(types), op, strict), inside,
                                types, lens, op, strict, covers=("done",)))
    return out
