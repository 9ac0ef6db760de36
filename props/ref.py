"""Reference semantics of the contract ABI, written independently of eth_abi.

Runs both on concrete values and, instrumented, on symbolic ones.  Types are tuples:
("uint",n) ("int",n) ("bool",) ("address",) ("bytesn",n) ("bytes",) ("string",)
("ufixed",m,n) ("fixed",m,n) ("arr",item,size|None) ("tup",(t,...)).
Abstract values: int for numbers (the scaled integer for fixed), bool, 20 bytes for address,
bytes for bytes and (UTF-8) string, lists for arrays and tuples.
"""
import decimal

from sx.api import cut

ALIASES = {"uint": "uint256", "int": "int256", "fixed": "fixed128x18",
           "ufixed": "ufixed128x18", "function": "bytes24", "byte": "bytes1"}


def T(s):
    """Parse a concrete type string (harness use only)."""
    t, rest = _t(s)
    if rest:
        raise ValueError(s)
    return t


def _t(s):
    if s[0] == "(":
        comps = []
        s = s[1:]
        while True:
            c, s = _t(s)
            comps.append(c)
            if s[0] == ",":
                s = s[1:]
                continue
            break
        s = s[1:]
        t = ("tup", tuple(comps))
    else:
        i = 0
        while i < len(s) and s[i] not in "[],()":
            i += 1
        t = _basic(s[:i])
        s = s[i:]
    while s and s[0] == "[":
        j = s.index("]")
        d = s[1:j]
        t = ("arr", t, int(d) if d else None)
        s = s[j + 1:]
    return t, s


def _basic(b):
    b = ALIASES.get(b, b)
    if b in ("bool", "address", "bytes", "string"):
        return (b,)
    for p in ("uint", "int"):
        if b.startswith(p):
            return (p, int(b[len(p):]))
    for p in ("ufixed", "fixed"):
        if b.startswith(p):
            m, n = b[len(p):].split("x")
            return (p, int(m), int(n))
    if b.startswith("bytes"):
        return ("bytesn", int(b[5:]))
    raise ValueError(b)


def dynamic(t):
    k = t[0]
    if k in ("bytes", "string"):
        return True
    if k == "arr":
        return t[2] is None or dynamic(t[1])
    if k == "tup":
        return any(dynamic(c) for c in t[1])
    return False


def head_words(t):
    """number of 32-byte words a component takes in the head"""
    if dynamic(t):
        return 1
    if t[0] == "arr":
        return t[2] * head_words(t[1])
    if t[0] == "tup":
        return sum(head_words(c) for c in t[1])
    return 1


# -- encoding -----------------------------------------------------------------------------
def word(v):
    return (v % 2 ** 256).to_bytes(32, "big")


def pad32(b):
    return b + b"\x00" * ((32 - len(b) % 32) % 32)


def enc(t, v):
    k = t[0]
    if k in ("uint", "int", "ufixed", "fixed"):
        return word(v)
    if k == "bool":
        return word(1 if v else 0) if isinstance(v, bool) and not _symb(v) else word(_b2i(v))
    if k == "address":
        return b"\x00" * 12 + v
    if k == "bytesn":
        return v + b"\x00" * (32 - len(v))
    if k in ("bytes", "string"):
        return word(len(v)) + pad32(v)
    if k == "arr":
        body = enc_seq([t[1]] * len(v), v)
        return word(len(v)) + body if t[2] is None else body
    return enc_seq(t[1], v)


def _symb(v):
    return v is not True and v is not False


def _b2i(v):
    return v + 0


def enc_seq(ts, vs):
    heads, tails = [], []
    pos = sum(head_words(t) for t in ts) * 32
    for t, v in zip(ts, vs):
        e = enc(t, v)
        if dynamic(t):
            heads.append(word(pos))
            tails.append(e)
            pos += len(e)
        else:
            heads.append(e)
    return b"".join(heads) + b"".join(tails)


def packed(t, v):
    k = t[0]
    if k in ("uint", "int", "ufixed", "fixed"):
        n = t[1] // 8
        return (v % 2 ** t[1]).to_bytes(n, "big")
    if k == "bool":
        return _b2i(v).to_bytes(1, "big")
    if k == "address":
        return v
    if k == "bytesn":
        return v + b"\x00" * (t[1] - len(v))
    if k in ("bytes", "string"):
        return v
    items = t[1] if k == "tup" else [t[1]] * len(v)
    return b"".join(packed(c, x) for c, x in zip(items, v))


# -- decoding -----------------------------------------------------------------------------
class Refuse(Exception):
    """the payload denotes no value; kind: short, pad, pointer, utf8"""

    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


def rd(data, pos, n=32):
    """n (concrete) bytes at pos"""
    if pos > len(data) - n:
        raise Refuse("short")
    return cut(data, pos, n)


def rdint(data, pos):
    return int.from_bytes(rd(data, pos), "big")


def dec(t, data, pos, mode):
    """abstract value of type t whose encoding starts at pos.
    mode: "strict", "relaxed" (padding after bytes/string content ignored) or "outer" (ignored
    for bytes/string arguments, not for those inside arrays and tuples)."""
    k = t[0]
    if k in ("uint", "ufixed"):
        v = rdint(data, pos)
        if v >= 2 ** t[1]:
            raise Refuse("pad")
        return v
    if k in ("int", "fixed"):
        v = int.from_bytes(rd(data, pos), "big", signed=True)
        if v < -(2 ** (t[1] - 1)) or v >= 2 ** (t[1] - 1):
            raise Refuse("pad")
        return v
    if k == "bool":
        v = rdint(data, pos)
        if v > 1:
            raise Refuse("pad")
        return v == 1
    if k == "address":
        w = rd(data, pos)
        if w[:12] != b"\x00" * 12:
            raise Refuse("pad")
        return w[12:]
    if k == "bytesn":
        w = rd(data, pos)
        n = t[1]
        if n < 32 and w[n:] != b"\x00" * (32 - n):
            raise Refuse("pad")
        return w[:n]
    if k in ("bytes", "string"):
        n = rdint(data, pos)
        pos = pos + 32
        if n > len(data) - pos:
            raise Refuse("short")
        if mode == "strict":
            if n % 32 != 0:
                r = 32 - n % 32
                if n + r > len(data) - pos:
                    raise Refuse("short")
                if cut(data, pos + n, r) != b"\x00" * r:
                    raise Refuse("pad")
        return cut(data, pos, n)
    if mode == "outer":
        mode = "strict"
    if k == "arr":
        n = t[2]
        if n is None:
            n = rdint(data, pos)
            pos = pos + 32
        return dec_seq(t[1], n, data, pos, mode)
    return dec_list(t[1], data, pos, mode)


def dec_seq(t, n, data, base, mode):
    """n (possibly symbolic) items of type t"""
    w = head_words(t) * 32
    out = []
    i = 0
    dyn = dynamic(t)
    while i < n:
        p = base + w * i
        if dyn:
            off = rdint(data, p)
            if off < w * n or base + off >= len(data):
                raise Refuse("pointer")
            p = base + off
        elif p > len(data) - w:
            raise Refuse("short")
        out.append((t, p))
        i += 1
    return [dec(t, data, p, mode) for t, p in out]


def dec_list(ts, data, base, mode):
    hw = sum(head_words(t) for t in ts) * 32
    if base > len(data) - hw:
        raise Refuse("short")
    places = []
    p = base
    for t in ts:
        if dynamic(t):
            off = rdint(data, p)
            if off < hw or base + off >= len(data):
                raise Refuse("pointer")
            places.append(base + off)
            p = p + 32
        else:
            places.append(p)
            p = p + 32 * head_words(t)
    return [dec(t, data, q, mode) for t, q in zip(ts, places)]


# -- python values ------------------------------------------------------------------------
def exact(w, n):
    """w / 10**n exactly"""
    with decimal.localcontext(decimal.Context(prec=999)):
        return decimal.Decimal(w) * decimal.Decimal((0, (1,), -n))


def to_py(t, v):
    """The Python value decode returns for an abstract value."""
    k = t[0]
    if k in ("ufixed", "fixed"):
        return exact(v, t[2])
    if k == "address":
        return "0x" + v.hex()
    if k == "string":
        return v.decode("utf-8")
    if k == "arr":
        return tuple(to_py(t[1], x) for x in v)
    if k == "tup":
        return tuple(to_py(c, x) for c, x in zip(t[1], v))
    return v


def irange(t):
    """range of the (scaled) integer of a numeric type"""
    if t[0] in ("uint", "ufixed"):
        return 0, 2 ** t[1] - 1
    return -(2 ** (t[1] - 1)), 2 ** (t[1] - 1) - 1


class Plan:
    """Lengths for the variable parts of a value, consumed in order (last one repeats)."""

    def __init__(self, lens, free=4):
        self.lens = list(lens) or [1]
        self.i = 0
        self.leaf = 0
        self.free = free

    def narrow(self):
        """Beyond the first `free` scalar leaves the sign of a number and the value of a bool are
        fixed (0: positive, 1: negative), to keep the number of paths small."""
        self.leaf += 1
        if self.leaf <= self.free:
            return None
        return self.leaf % 2

    def next(self):
        n = self.lens[min(self.i, len(self.lens) - 1)]
        self.i += 1
        return n


def addr_form(form, b):
    if form == "bytes":
        return b
    if form == "bytearray":
        return bytearray(b)
    h = b.hex()
    if form == "hex":
        return "0x" + h
    if form == "upper":
        return "0x" + h.upper()
    if form == "0X":
        return "0X" + h
    return h


def length(S, name, n):
    """a length, or one of a list of lengths (each on its own paths)"""
    return n if type(n) is int else S.choice(name + "_n", n)


def fresh(S, t, name, plan, addr="bytes", seq=(list, tuple), raw=bytes, short=0):
    """(python value to pass to encode, abstract value), symbolic.
    seq: container for (arrays, tuples); raw: bytes type; short: bytes missing from bytesN."""
    k = t[0]
    if k in ("uint", "ufixed", "int", "fixed", "bool"):
        side = plan.narrow()
        if k == "bool":
            v = S.bool(name) if side is None else side == 0
            return v, v
        lo, hi = irange(t)
        if side == 0 or (side == 1 and lo == 0):
            lo = 1
        elif side == 1:
            hi = -1
        v = S.int(name, lo, hi)
        return (v if k in ("uint", "int") else exact(v, t[2])), v
    if k == "address":
        b = S.bytes(name, 20)
        return addr_form(addr, b), b
    if k == "bytesn":
        b = S.bytes(name, max(0, t[1] - short))
        return raw(b), b
    if k == "bytes":
        b = S.bytes(name, length(S, name, plan.next()))
        return raw(b), b
    if k == "string":
        n = length(S, name, plan.next())
        if n > 200:
            b = b"a" * (n - 20) + S.bytes(name, 20)
            try:
                return b.decode("utf-8"), b
            except UnicodeDecodeError:
                S.assume(False)
        s = S.text(name, n)
        return s, s.encode("utf-8")
    if k == "arr":
        n = t[2] if t[2] is not None else plan.next()
        ps = [fresh(S, t[1], "%s_%d" % (name, i), plan, addr, seq, raw, short)
              for i in range(n)]
        return seq[0](p[0] for p in ps), [p[1] for p in ps]
    ps = [fresh(S, c, "%s_%d" % (name, i), plan, addr, seq, raw, short)
          for i, c in enumerate(t[1])]
    return seq[1](p[0] for p in ps), [p[1] for p in ps]


def extend(t, v):
    """abstract value with short bytesN extended"""
    k = t[0]
    if k == "bytesn":
        return v + b"\x00" * (t[1] - len(v))
    if k == "arr":
        return [extend(t[1], x) for x in v]
    if k == "tup":
        return [extend(c, x) for c, x in zip(t[1], v)]
    return v


def sample(t, plan, seed=0):
    """a fixed abstract value of type t with distinctive content"""
    k = t[0]
    plan.leaf += 1
    i = plan.leaf * 37 + seed
    if k in ("uint", "ufixed"):
        return i % 2 ** t[1]
    if k in ("int", "fixed"):
        return (i % 2 ** (t[1] - 1)) - (2 ** (t[1] - 1) if plan.leaf % 2 else 0)
    if k == "bool":
        return plan.leaf % 2 == 1
    if k in ("address", "bytesn"):
        n = 20 if k == "address" else t[1]
        return bytes((i + j) % 255 + 1 for j in range(n))
    if k in ("bytes", "string"):
        return bytes((i + j) % 26 + 97 for j in range(plan.next()))
    if k == "arr":
        n = t[2] if t[2] is not None else plan.next()
        return [sample(t[1], plan, seed) for _ in range(n)]
    return [sample(c, plan, seed) for c in t[1]]


def many(S, ts, lens, **forms):
    """(python values, abstract values) for a list of types"""
    plan = Plan(lens)
    vals, absv = [], []
    for i, t in enumerate(ts):
        p, a = fresh(S, t, "v%d" % i, plan, **forms)
        vals.append(p)
        absv.append(extend(t, a))
    return vals, absv


def outcome(f, *a, **k):
    """("ok", value) or ("err", exception)"""
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "err", e
