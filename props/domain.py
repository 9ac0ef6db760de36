"""Arbitrary candidate values for a type, with the oracle for whether the type accepts them.

A scenario is (name, type string, fn); fn(S) returns (value, accept, abstract value, d1) where
accept may be symbolic, the abstract value is meaningful when it holds and d1 marks the values of
finding D1 (negative numbers with excess fractional digits).
"""
import collections
import decimal
import enum
import fractions

from props import common, ref

D = decimal.Decimal


class Lst(list):
    pass


class Tup(tuple):
    pass


class Int(int):
    pass


class Byt(bytes):
    pass


class Str(str):
    pass


class Dec(decimal.Decimal):
    pass


class Num(enum.IntEnum):
    FIVE = 5
    BIG = 2 ** 256


class HasIndex:
    def __index__(self):
        return 1

    def __int__(self):
        return 1


class HasBytes:
    def __bytes__(self):
        return b"a" * 20


Pair = collections.namedtuple("Pair", "a b")


def s_int(S, t):
    lo, hi = ref.irange(t)
    v = S.int("v", -2 ** 270, 2 ** 270)
    return v, S.both(v >= lo, v <= hi), v, False


def s_dec(S, t, exp):
    """decimal with a symbolic coefficient and a given exponent"""
    n = t[2]
    lo, hi = ref.irange(t)
    k = exp + n
    span = 2 ** (t[1] + 2) + 7
    if k >= 0:
        c = S.int("c", -(span // 10 ** k + 12), span // 10 ** k + 12)
        w = c * 10 ** k
        return ref.exact(c, -exp), S.both(w >= lo, w <= hi), w, False
    p = 10 ** -k
    q = S.int("q", -span, span)
    r = S.int("r", 0, p - 1)
    c = S.euclid(q, p, r)
    acc = S.both(q >= lo, q <= hi, r == 0)
    d1 = S.both(q < 0, S.neg(r == 0), q >= lo)
    return ref.exact(c, -exp), acc, q, d1


def s_fixed_int(S, t):
    """a Python int for a fixed-point type"""
    lo, hi = ref.irange(t)
    p = 10 ** t[2]
    big = 4 * (2 ** t[1] // p + 3)
    v = S.int("v", -big, big)
    w = v * p
    return v, S.both(w >= lo, w <= hi), w, False


def s_bytesn(S, t, n, raw=bytes):
    b = S.bytes("v", n)
    return raw(b), n <= t[1], b, False


def s_bytes(S, t, n, raw=bytes):
    b = S.bytes("v", n)
    return raw(b), True, b, False


def s_address(S, t, n, raw=bytes):
    b = S.bytes("v", n)
    return raw(b), n == 20, b, False


HEX = [(48, 57), (65, 70), (97, 102)]


def s_address_text(S, t, pre, n, ranges):
    """pre + n characters"""
    s = S.str("v", n, ranges)
    acc = n == 40 and pre.lower() in ("", "0x")
    if acc:
        ok = []
        for ch in s:
            o = ord(ch)
            ok.append(S.either(S.both(o >= 48, o <= 57), S.both(o >= 65, o <= 70),
                               S.both(o >= 97, o <= 102)))
        acc = S.both(*ok)
    if acc is not False and acc:
        return pre + s, True, bytes.fromhex(s), False
    return pre + s, False, None, False


def s_text(S, t, n, ranges):
    s = S.str("v", n, ranges)
    for ch in s:
        o = ord(ch)
        if S.both(o >= 0xD800, o <= 0xDFFF):
            return s, False, None, False
    return s, True, s.encode("utf-8"), False


def oddities():
    """one of every kind of Python object that is not special for the type"""
    return [
        None, True, False, 0, 1, -1, 255, 256, 2 ** 256, -2 ** 255 - 1, 0.0, 1.0, 1.5,
        float("nan"), float("inf"), D(0), D(1), D("1.5"), D("NaN"), D("sNaN"), D("Infinity"),
        D("-Infinity"), D("-0"), D("1E-2000000"), D("1E+2000000"), 1j, fractions.Fraction(1, 2),
        "", "a", "1", "0x", "0x00", "é", "\ud800", "0x" + "11" * 20, "11" * 20, "0X" + "aB" * 20,
        "0x" + "11" * 19 + "1g", "0x" + "11" * 21, b"", b"\x01", b"a" * 20, b"a" * 32, b"a" * 33,
        bytearray(b""), bytearray(b"\x05"), bytearray(b"a" * 20), memoryview(b"a" * 20),
        [], (), [1], (1,), [1, 2], (1, 2), [True], [b"a"], ["a"], [None], [[1]], [(1, "a")],
        [[1], [2]], ((1, 2), (3, 4)), [1, b"a"], (1, b"a"), [[], []], [b"a", b"b"], range(2),
        {}, {1: 2}, set(), {1}, frozenset(), object(), type, int, len, iter([1]), (x for x in [1]),
        collections.deque([1, 2]), Lst([1, 2]), collections.UserList([1, 2]), Ellipsis,
        Int(7), Int(256), Int(-1), Num.FIVE, Num.BIG, Byt(b"a"), Byt(b"b" * 20), Byt(b"b" * 33),
        Str("a"), Str("0x" + "1a" * 20), Str("\ud800"), Dec("1.5"), Dec("NaN"), Dec(0), HasIndex(),
        HasBytes(), Pair(1, 2), Pair(Pair(1, 2), (3, 4)), Tup((1, 2)), [Int(1), Int(2)],
        [Int(300)], [Byt(b"a"), Byt(b"bb")], [Str("x")],
        10 ** 5000, -10 ** 5000, [10 ** 5000], "a" * 300, b"a" * 300, [1] * 300,
    ]


def accepts(t, v):
    """the oracle on concrete Python values: (accept, abstract value)"""
    k = t[0]
    no = (False, None)
    if k in ("uint", "int"):
        lo, hi = ref.irange(t)
        return (isinstance(v, int) and type(v) is not bool and lo <= v <= hi), v
    if k == "bool":
        return type(v) is bool, v
    if k in ("ufixed", "fixed"):
        if isinstance(v, int):
            if abs(v) > 2 ** 300:
                return no
            w = v * 10 ** t[2]
        elif isinstance(v, D) and v.is_finite():
            if not v:
                w = 0
            elif v.adjusted() > 300 or v.adjusted() < -t[2]:
                return no
            else:
                f = fractions.Fraction(v) * 10 ** t[2]
                if f.denominator != 1:
                    return no
                w = f.numerator
        else:
            return no
        lo, hi = ref.irange(t)
        return lo <= w <= hi, w
    if k == "address":
        if isinstance(v, (bytes, bytearray)):
            return len(v) == 20, bytes(v)
        if isinstance(v, str):
            h = v[2:] if v[:2] in ("0x", "0X") else v
            if len(h) == 40 and all(c in "0123456789abcdefABCDEF" for c in h):
                return True, bytes.fromhex(h)
        return no
    if k == "bytesn":
        if isinstance(v, (bytes, bytearray)) and len(v) <= t[1]:
            return True, bytes(v)
        return no
    if k == "bytes":
        return (True, bytes(v)) if isinstance(v, (bytes, bytearray)) else no
    if k == "string":
        if not isinstance(v, str):
            return no
        try:
            return True, v.encode("utf-8")
        except UnicodeEncodeError:
            return no
    if isinstance(v, (str, bytes, bytearray)) or not isinstance(v, collections.abc.Sequence):
        return no
    if k == "arr":
        if t[2] is not None and len(v) != t[2]:
            return no
        rs = [accepts(t[1], x) for x in v]
    else:
        if len(v) != len(t[1]):
            return no
        rs = [accepts(c, x) for c, x in zip(t[1], v)]
    return all(r[0] for r in rs), [r[1] for r in rs]


def s_odd(S, t):
    opts = oddities()
    # left open: bool for a fixed type (Python treats it as 0 or 1)
    if t[0] in ("fixed", "ufixed"):
        opts = [o for o in opts if type(o) is not bool]
    if t[0] in ("arr", "tup"):
        # memoryview is a Sequence only for newer interpreters: left open
        opts = [o for o in opts if type(o) is not memoryview]
    v = S.choice("odd", opts)
    acc, a = accepts(t, v)
    return v, acc, a, False


def s_items(S, t, sizes, wide, seq=list):
    """array of small integers, any length of sizes, items possibly out of range"""
    n = S.choice("n", sizes)
    vs = [S.int("v%d" % i, -wide, wide) for i in range(n)]
    lo, hi = ref.irange(t[1])
    acc = S.both(*[S.both(v >= lo, v <= hi) for v in vs]) if vs else True
    if t[2] is not None and n != t[2]:
        acc = False
    return seq(vs), acc, vs, False


def s_comp(S, t, n, pos, bad, good, seq=tuple):
    """compound whose component at pos is bad; good: the other values"""
    vs = list(good)
    v = S.choice("bad", bad)
    vs[pos] = v
    acc, a = accepts(t, seq(vs))
    return seq(vs), acc, a, False


def s_wrong_arity(S, t, item):
    n = S.choice("n", list(range(0, 6)))
    kind = S.choice("kind", [list, tuple, collections.deque, Lst])
    v = kind([item] * n)
    acc, a = accepts(t, v)
    return v, acc, a, False


def s_nested_dec(S, t):
    """(fixed8x1, bytes)[]: one decimal that may be inexact"""
    c = S.int("c", -1400, 1400)
    b = S.bytes("b", 2)
    q, r = divmod(c, 10)
    acc = S.both(q >= -128, c <= 1270, r == 0)
    d1 = S.both(c < 0, S.neg(r == 0), c >= -1280)
    return [(ref.exact(c, 2), b)], acc, [[q, b]], d1


def s_nested_bytes(S, t):
    """bytes4[2] with every combination of lengths 0..6"""
    a = S.choice("a", list(range(7)))
    b = S.choice("b", list(range(7)))
    x, y = S.bytes("x", a), S.bytes("y", b)
    return [x, y], a <= 4 and b <= 4, [x, y], False


def s_matrix(S, t):
    """int8[2][]: rows of any length 0..3"""
    rows = []
    n = S.choice("rows", [0, 1, 2])
    ok = True
    for i in range(n):
        m = S.choice("n%d" % i, [0, 1, 2, 3])
        if m != 2:
            ok = False
        rows.append([S.int("v%d_%d" % (i, j), 100, 140) for j in range(m)])
    if ok:
        acc = S.both(*[v <= 127 for r in rows for v in r]) if rows else True
    else:
        acc = False
    return rows, acc, rows, False


def scenarios(tier, odd=True):
    out = []

    def add(name, t, fn, *a, **k):
        tt = ref.T(t)
        out.append(("%s: %s" % (t, name), t, lambda S: fn(S, tt, *a, **k)))

    for t in common.UINTS + common.INTS + ["uint", "int"]:
        add("any integer", t, s_int)
    for t in common.UFIXED + common.FIXED + ["ufixed", "fixed"]:
        n = ref.T(t)[2]
        m = ref.T(t)[1]
        for e in sorted({0, 2, -1, -n, -n + 1, -n - 1, -n - 3}):
            add("decimal c*10^%d" % e, t, s_dec, e)
        add("any integer", t, s_fixed_int)
    for t in common.BYTESN + ["function", "byte"]:
        n = ref.T(t)[1]
        for k in sorted({0, 1, n - 1, n, n + 1, n + 2, 32, 33, 64}):
            if k >= 0:
                add("%d bytes" % k, t, s_bytesn, k)
        add("bytearray", t, s_bytesn, n, bytearray)
        add("long bytearray", t, s_bytesn, n + 1, bytearray)
    for n in (0, 1, 31, 32, 33, 100):
        add("%d bytes" % n, "bytes", s_bytes, n)
    add("bytearray", "bytes", s_bytes, 7, bytearray)
    for n in (0, 1, 19, 20, 21, 32, 40):
        add("%d bytes" % n, "address", s_address, n)
    add("bytearray", "address", s_address, 20, bytearray)
    add("short bytearray", "address", s_address, 19, bytearray)
    for pre in ("0x", "0X", "", "x0", "0o"):
        for n in (38, 39, 40, 41, 42):
            add("%r + %d hex digits" % (pre, n), "address", s_address_text, pre, n, HEX)
        add("%r + 40 ASCII characters" % pre, "address", s_address_text, pre, 40, [(32, 126)])
    add("0x + 40 characters", "address", s_address_text, "0x", 40, [(0, 0xD7FF)])
    for n in (0, 1, 2, 3):
        add("%d code points" % n, "string", s_text, n, [(0, 0x10FFFF)])
    add("20 ASCII", "string", s_text, 20, [(0, 127)])
    for t, wide in (("uint8[3]", 300), ("uint8[]", 300), ("int8[2]", 300), ("int16[]", 70000),
                    ("uint256[2]", 2 ** 257), ("int256[]", 2 ** 256), ("uint8[1]", 300),
                    ("int[2]", 2 ** 256)):
        for seq in (list, tuple):
            add("0 to 3 integers in a %s" % seq.__name__, t, s_items, [0, 1, 2, 3], wide, seq)
    for t, it in (("bool[2]", True), ("uint8[3]", 5), ("bytes[2]", b"a"), ("string[4]", "s"),
                  ("(uint8,uint8)", 1), ("(bytes,bytes,bytes)", b"x"), ("(uint8)", 2),
                  ("uint8[2][2]", [1, 2]), ("(uint8,bool)[3]", (1, True)), ("uint8" +
                                                                          "[5]", 1)):
        add("any number of items", t, s_wrong_arity, it)
    bad = oddities()
    for t, pos, good in (
            ("(uint8,bytes,string)", 0, (1, b"", "")), ("(uint8,bytes,string)", 1, (1, b"", "")),
            ("(uint8,bytes,string)", 2, (1, b"", "")), ("(bool,address)", 1, (True, None)),
            ("uint8[3]", 2, [1, 2, 3]), ("bytes[]", 1, [b"", b"x"]), ("(uint8,bool)[2]", 1,
                                                                     [(1, True), 0]),
            ("string[2][]", 0, [["a", "b"], ["c", "d"]]), ("((bytes4,int8),bool)", 0, (None, True)),
            ("(bool,bytes1[])", 1, (False, None))):
        add("component %d is odd" % pos, t, s_comp, len(good), pos, bad, good,
            tuple if t[0] == "(" and t[-1] == ")" else list)
    add("inexact inside", "(fixed8x1,bytes)[]", s_nested_dec)
    add("lengths inside", "bytes4[2]", s_nested_bytes)
    add("rows", "int8[2][]", s_matrix)
    for t in ["uint8", "int256", "bool", "address", "bytes", "string", "bytes1", "bytes20",
              "bytes32", "ufixed8x1", "fixed128x18", "fixed256x80", "function", "byte", "uint8[]",
              "uint8[2]", "bytes[]", "string[1]", "bool[1]", "(uint8,uint8)",
              "(uint8,bytes)", "(uint8)", "uint8[][]", "(uint8,string)[]", "(uint8[2])",
              "((uint8,uint8),(uint8,uint8))"]:
        add("odd values", t, s_odd)
    return out
