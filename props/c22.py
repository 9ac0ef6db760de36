"""C22: a call's result does not depend on earlier calls."""
import decimal

from eth_abi import decode, encode, is_encodable, is_encodable_type
from eth_abi.codec import ABICodec
from eth_abi.decoding import ByteStringDecoder, StringDecoder
from eth_abi.encoding import ByteStringEncoder
from eth_abi.exceptions import DecodingError, EncodingError
from eth_abi.packed import encode_packed, is_encodable_packed
from eth_abi.registry import registry as default

from props import common, dec, ref
from sx.api import Case

INFO = dict(
    bounds="Every sequence of 3 or 4 calls chosen by solver variables from menus of encode, "
           "encode_packed, is_encodable and decode calls (strict or not; succeeding, with refused "
           "values, short data, bad pointers, wrong padding or unknown types) on the same or "
           "related types, with symbolic contents; each result is compared with the stateless "
           "reference.  Ambient decimal contexts of precision 3 to 28, with and without traps.  Argument "
           "lists and payload buffers changed in every listed way between up to three calls.",
    outside="Longer sequences, threads.",
    assumptions=common.ASSUMPTIONS)


def snapshot(v):
    """structure and identities of mutable arguments"""
    if isinstance(v, list):
        return ("list", [(id(x), snapshot(x)) for x in v])
    if isinstance(v, tuple):
        return ("tuple", [snapshot(x) for x in v])
    if isinstance(v, bytearray):
        return ("bytearray", v[:])
    return None


def same(S, a, b):
    if a is None or b is None:
        return a is b
    if a[0] != b[0] or (a[0] != "bytearray" and len(a[1]) != len(b[1])):
        return False
    if a[0] == "bytearray":
        return S.eq(a[1], b[1])
    if a[0] == "list":
        return S.both(*[S.both(x[0] == y[0], same(S, x[1], y[1])) for x, y in zip(a[1], b[1])])
    return S.both(*[same(S, x, y) for x, y in zip(a[1], b[1])])


def call(S, f, types, args, **kw):
    """run f and check that it leaves its arguments alone"""
    types = list(types)
    t0, a0 = list(types), snapshot(args)
    kind, got = ref.outcome(f, types, args, **kw)
    S.check(types == t0, "the list of types was modified")
    S.check(same(S, snapshot(args), a0), "an argument was modified")
    return kind, got


class Calls:
    """calls on one type (list) with the results they must have"""

    def __init__(self, S, codec, types, lens, dirty=None, packed=True):
        self.S = S
        self.c = codec
        self.types = types
        self.ts = [ref.T(t.replace("aa", "bytes")) for t in types]
        plan = ref.Plan(lens, free=1)
        self.absv = [ref.sample(t, plan) for t in self.ts]
        self.vals = [thaw(ref.to_py(t, v)) for t, v in zip(self.ts, self.absv)]
        self.data = ref.enc_seq(self.ts, self.absv)
        self.dirty = dirty

    def encode(self):
        S = self.S
        kind, got = call(S, self.c.encode, self.types, list(self.vals))
        S.check(kind == "ok", "encode refused (%s)" % type(got).__name__)
        S.check(S.eq(got, self.data), "encode gives another result")

    def refuse(self):
        S = self.S
        bad = list(self.vals[:-1]) + [spoil(self.ts[-1], self.vals[-1])]
        kind, got = call(S, self.c.encode, self.types, bad)
        S.check(kind == "err" and isinstance(got, EncodingError), "a bad value is encoded")
        S.check(self.c.is_encodable(self.types[-1], bad[-1]) is False, "is_encodable")

    def good(self):
        for t, v in zip(self.types, self.vals):
            self.S.check(self.c.is_encodable(t, v) is True, "is_encodable")

    def clean(self, strict=True):
        self._decode(self.data, strict)

    def loose(self):
        self._decode(self.data, False)

    def pad(self, strict=True):
        """the last padding byte of the first dynamic content is symbolic"""
        S = self.S
        d = self.data
        x = S.bytes("pad%d" % S_next(self), 1)
        i = self.dirty
        self._decode(d[:i] + x + d[i + 1:], strict)

    def pad_loose(self):
        self.pad(False)

    def short(self, strict=True):
        d = self.data
        self._decode(d[:len(d) - 32], strict)

    def short_loose(self):
        self.short(False)

    def pointer(self):
        """an offset word of any (small) value"""
        S = self.S
        d = self.data
        i = 31
        for t in self.ts:
            if ref.dynamic(t):
                break
            i += 32 * ref.head_words(t)
        x = S.choice("ptr%d" % S_next(self), [b"\x00", b"\xff"])
        self._decode(d[:i] + x + d[i + 1:], True)

    def unknown(self):
        S = self.S
        kind, got = call(S, self.c.decode, ["uint7"], self.data)
        S.check(kind == "err", "an illegal type is decoded")
        kind, got = call(S, self.c.encode, ["nosuch[2]"], [[1, 2]])
        S.check(kind == "err", "an unknown type is encoded")
        S.check(self.c.is_encodable_type("nosuch") is False, "is_encodable_type")

    def _decode(self, data, strict):
        S = self.S
        kind, got = call(S, self.c.decode, self.types, bytearray(data), strict=strict)
        exp, why = dec.expected(self.ts, data, "strict" if strict else "outer")
        if exp is not None:
            S.check(kind == "ok", "decode (strict=%s) refused a valid payload" % strict)
            S.check(S.eq(got, exp), "decode gives another result")
            S.cover("decoded")
        else:
            S.check(kind == "err", "decode (strict=%s) accepted a payload (%s)" % (strict, why))
            S.check(isinstance(got, (DecodingError, UnicodeDecodeError)), "exception type")
            S.cover("refused")


COUNT = [0]


def S_next(c):
    COUNT[0] += 1
    return COUNT[0]


def thaw(v):
    """lists for tuples and bytearrays for bytes, so that modifications can be seen"""
    if isinstance(v, bytes):
        return bytearray(v)
    return [thaw(x) for x in v] if isinstance(v, tuple) else v


def spoil(t, v):
    """like v but with a refused leaf at the end"""
    if t[0] == "arr":
        return list(v[:-1]) + [spoil(t[1], v[-1])] if v else 5
    if t[0] == "tup":
        return list(v[:-1]) + [spoil(t[1][-1], v[-1])]
    return object()


MENU = ["encode", "refuse", "clean", "loose", "pad", "pad_loose", "short", "short_loose",
        "pointer", "unknown", "good"]


def seq(S, groups, firsts, lasts, custom=None):
    """calls on several related types, interleaved in every way"""
    COUNT[0] = 0
    c = ABICodec(default)
    if custom is not None:
        r = default.copy()
        register(r, custom)
        c = ABICodec(r)
    objs = [Calls(S, c, types, lens, dirty) for types, lens, dirty in groups]
    for i, menu in enumerate(firsts + [lasts]):
        o = S.choice("on%d" % i, objs)
        m = S.choice("call%d" % i, menu)
        getattr(o, m)()
    S.cover("done")


def register(r, custom):
    """"aa" coded like bytes"""
    if custom == "instance":
        r.register("aa", ByteStringEncoder(), ByteStringDecoder())
    elif custom == "shared":
        # one decoder instance registered under two names
        d = ByteStringDecoder()
        r.register("aa", ByteStringEncoder(), d)
        r.register("bb", ByteStringEncoder(), d)
    else:
        class D(ByteStringDecoder):
            @classmethod
            def from_type_str(cls, type_str, registry):
                return cls()

        class E(ByteStringEncoder):
            @classmethod
            def from_type_str(cls, type_str, registry):
                return cls()
        r.register("aa", E, D)


def functions(S, steps):
    """the module-level functions"""
    x = S.int("x", -200, 300)
    t = S.bytes("p", 1)
    d = ref.word(32) + ref.word(1) + b"A" + t + b"\x00" * 30
    for i in range(steps):
        k = S.choice("call%d" % i, ["enc", "packed", "is", "ispacked", "dec", "decl", "str",
                                    "int", "arr"])
        if k == "enc":
            kind, got = call(S, encode, ["uint8", "bytes"], [x, b"A"])
            if x >= 0 and x < 256:
                S.check(kind == "ok" and S.eq(got, ref.enc_seq([("uint", 8), ("bytes",)],
                                                               [x, b"A"])), "encode")
            else:
                S.check(kind == "err", "encode accepted")
        elif k == "packed":
            kind, got = call(S, encode_packed, ["int8", "bytes"], [x, b"A"])
            if x >= -128 and x < 128:
                S.check(kind == "ok" and S.eq(got, ref.packed(("int", 8), x) + b"A"),
                        "encode_packed")
            else:
                S.check(kind == "err", "encode_packed accepted")
        elif k == "is":
            S.check(is_encodable("int8[]", [x]) is (x >= -128 and x < 128), "is_encodable")
            S.check(is_encodable("bytes2", t) is True, "is_encodable")
        elif k == "ispacked":
            S.check(is_encodable_packed("uint8", x) is (x >= 0 and x < 256),
                    "is_encodable_packed")
        elif k == "dec":
            dec.compare(S, ["bytes"], d)
        elif k == "decl":
            kind, got = call(S, decode, ["bytes"], d, strict=False)
            S.check(kind == "ok" and S.eq(got, (b"A",)), "decode, not strict")
        elif k == "str":
            dec.compare(S, ["string"], d)
        elif k == "int":
            dec.compare(S, ["int8", "uint8"], d)
        else:
            dec.compare(S, ["bool[]"], d)
    S.cover("done")


def ambient(S, typ):
    """the ambient decimal context neither matters nor changes"""
    prec = S.choice("prec", [28, 3, 1])
    trap = S.choice("trap", [[], [decimal.Inexact, decimal.Rounded]])
    rounding = S.choice("round", [decimal.ROUND_HALF_EVEN, decimal.ROUND_UP])
    t = ref.T(typ)
    lo, hi = ref.irange(t)
    v = S.int("v", lo, hi)
    py = ref.exact(v, t[2])
    with decimal.localcontext(decimal.Context(prec=prec, rounding=rounding, traps=trap)):
        kind, got = ref.outcome(encode, [typ], [py])
        S.check(kind == "ok", "encode refused (%s)" % type(got).__name__)
        S.check(S.eq(got, ref.word(v)), "encode depends on the decimal context")
        kind, e = ref.outcome(is_encodable, typ, py)
        S.check(kind == "ok" and e is True, "is_encodable depends on the decimal context")
        kind, d = ref.outcome(decode, [typ], ref.word(v))
        S.check(kind == "ok", "decode refused (%s)" % type(d).__name__)
        now = decimal.getcontext()
        S.check(now.prec == prec and now.rounding == rounding, "the decimal context was changed")
        S.check(now.traps[decimal.Inexact] is (len(trap) > 0), "the decimal context was changed")
    S.check(d[0] == py, "decode depends on the decimal context")
    S.observe("enc", got)
    S.cover("done")


def changed(S, shape):
    """the same argument object, changed between the calls"""
    x, y = S.int("x", -3, 300), S.int("y", -3, 300)
    b = S.bytes("b", 2)
    leaf = [1]
    if shape == "array":
        typ, v, put = "uint8[]", leaf, leaf
    elif shape == "sized":
        typ, v, put = "uint8[2]", leaf, leaf
        leaf.append(2)
    elif shape == "nested":
        typ, v, put = "uint8[][]", [[2], leaf], leaf
    elif shape == "in tuple":
        typ, v, put = "(bool,uint8[])", [True, leaf], leaf
    elif shape == "tuple":
        typ, v, put = "(uint8,bytes)", [1, b"ab"], None
    else:
        typ, v, put = "(uint8,bytes)[]", [[1, b"ab"]], None
    t = ref.T(typ)
    types, args = [typ], [v]

    def look(f):
        inside = True
        for n in numbers(v):
            inside = S.both(inside, n >= 0, n < 256)
        if shape == "sized" and len(leaf) != 2:
            inside = False
        if f == "is" or f == "ispacked":
            g = is_encodable if f == "is" else is_encodable_packed
            kind, got = ref.outcome(g, typ, v)
            S.check(kind == "ok" and got is bool(inside), f + "_encodable after a change")
            return
        kind, got = call(S, encode if f == "enc" else encode_packed, types, args)
        if inside:
            S.check(kind == "ok", "refused after a change")
            a = freeze(v)
            S.check(S.eq(got, ref.enc_seq([t], [a]) if f == "enc" else ref.packed(t, a)),
                    "result after a change")
        else:
            S.check(kind == "err" and isinstance(got, EncodingError), "accepted after a change")

    calls = ["enc", "is", "packed", "ispacked"]
    if shape not in ("sized", "array"):
        calls = calls[:2]
    for i in range(2):
        look(S.choice("call%d" % i, calls))
        how = S.choice("how%d" % i, ["set", "append", "drop"])
        new = x if i == 0 else y
        if put is not None:
            if how == "set" and put:
                put[-1] = new
            elif how == "append":
                put.append(new)
            elif put:
                put.pop()
        elif shape == "tuple":
            v[0], v[1] = (new, b) if how == "set" else (new, b"")
        elif how == "append":
            v.append([new, b])
        elif how == "set" and v:
            v[-1][0] = new
        elif v:
            v.pop()
    look(S.choice("last", calls))
    S.cover("done")


def numbers(v):
    if isinstance(v, (list, tuple)):
        return [n for x in v for n in numbers(x)]
    return [v] if isinstance(v, int) and not isinstance(v, bool) else []


def freeze(v):
    return [freeze(x) for x in v] if isinstance(v, (list, tuple)) else v


def payloads(S):
    """the same payload object, changed between the calls; results do not follow it"""
    w, p = S.bytes("w", 1), S.bytes("p", 1)
    data = bytearray(ref.word(64) + ref.word(5) + ref.word(2) + b"ab" + b"\x00" * 30)
    types = ["bytes", "uint8"]
    seen = []
    for i in range(2):
        strict = S.choice("strict%d" % i, [True, False])
        now = bytes(data)
        kind, got = call(S, decode, types, data, strict=strict)
        exp, why = dec.expected([("bytes",), ("uint", 8)], now, "strict" if strict else "outer")
        S.check((kind == "ok") is (exp is not None), "acceptance after a change")
        if kind == "ok":
            S.check(S.eq(got, exp), "result after a change")
            seen.append((got, exp))
        at = S.choice("at%d" % i, [31, 63, 95, 127])
        data[at] = (w if i == 0 else p)[0]
    dec.compare(S, types, bytes(data))
    for got, exp in seen:
        S.check(S.eq(got, exp), "an earlier result changed with the payload")
    S.cover("done")


# (types, lengths, position of the last padding byte of a content or None)
def group(types, lens, dirty=True):
    ts = [ref.T(t.replace("aa", "bytes")) for t in types]
    n = len(ref.enc_seq(ts, [ref.sample(t, p) for p in [ref.Plan(lens)] for t in ts]))
    return (types, lens, n - 1)


def cases(tier):
    out = []
    deep = tier == "thorough"
    LOOK = ["clean", "loose", "pad", "pad_loose", "encode", "short"]
    plain = [
        ("bytes", [group(("bytes",), [5])]),
        ("string", [group(("string",), [5])]),
        ("uint8[], bytes", [group(("uint8[]", "bytes"), [2, 3])]),
        ("bytes and bytes[]", [group(("bytes",), [5]), group(("bytes[]",), [1, 5])]),
        ("string and tuple", [group(("string",), [5]), group(("(uint8,string)",), [3])]),
        ("array and tuple", [group(("(bytes,bool)[]",), [1, 5]), group(("bytes[1]",), [4])]),
        ("nested", [group(("(string,(bytes,string)[])",), [1, 1, 2, 3]), group(("string",), [1])]),
    ]
    for nm, g in plain:
        big = len(g) > 1
        out.append(Case("calls on " + nm, seq, g, [MENU] if big and not deep else [MENU, MENU],
                        MENU, covers=("done",), budget=90))
        if big:
            out.append(Case("decodings of " + nm, seq, g, [LOOK[:4]] * (3 if deep else 2), LOOK,
                            covers=("done",), budget=90))
    for k in ("instance", "shared", "class"):
        for nm, g in (("aa", [group(("aa",), [5]), group(("bytes",), [4])]),
                      ("aa in tuple", [group(("aa",), [5]), group(("(bool,aa)",), [4])]),
                      ("aa in array", [group(("aa[]",), [1, 5]), group(("aa", "aa"), [4, 3])])):
            out.append(Case("custom %s, %s" % (k, nm), seq, g, [LOOK[:4]] * (3 if deep else 2),
                            LOOK, k, covers=("done",), budget=90))
    for s in ("array", "sized", "nested", "in tuple", "tuple", "tuples"):
        out.append(Case("changed arguments, " + s, changed, s, covers=("done",), budget=90))
    out.append(Case("changed payloads", payloads, covers=("done",), budget=90))
    out.append(Case("module functions", functions, 4 if deep else 3, covers=("done",), budget=90))
    for t in ("fixed128x18", "ufixed8x2", "fixed256x80", "ufixed256x1", "fixed8x1"):
        out.append(Case("decimal context " + t, ambient, t, covers=("done",)))
    return out
