"""Calls from instrumented code: models of builtins and C functions on symbolic values.

`sx_call(f, ...)` is what every call expression of the instrumented source turns into.  Python
functions are called as they are (their own source is instrumented, or they only pass values
around); C functions with symbolic arguments go through the models below, are known to be safe
because they work through the normal protocols, or get concretised arguments (recorded).
"""
import abc
import binascii
import builtins
import codecs
import copy
import decimal
import functools
import io
import itertools
import math
import operator
import re
import struct
import sys
import types

import z3

from . import core
from .core import PathCut, SxControl, engine
from .values import (
    BV, Sym, SymBool, SymBytes, SymDecimal, SymInt, SymOpaque, SymStr, SymText, _ListBase,
    as_int, b2i, byte_cp, diversify, cp_info, mkbyte, bytes_decode, bytes_eq, concretize, conj, cp_in, dec_to_int, disj, i2b,
    int_from_bytes, is_sym, ite, mkbool, mkbytes, mkcp, mkint, mkstr, ndigits, str_encode,
    sx_not, type_of, c2t, SYM_TYPES, _fix, as_dec, _dec_op,
)

try:
    import regex as _regexmod
    PATTERN_TYPES = (re.Pattern, type(_regexmod.compile("a")))
except ImportError:  # pragma: no cover
    _regexmod = None
    PATTERN_TYPES = (re.Pattern,)

_SYM = frozenset(SYM_TYPES)
BuiltinFn = types.BuiltinFunctionType
_CMethod = type(re.compile("a").fullmatch)


def has_sym(x, depth=2):
    t = type(x)
    if t in _SYM:
        return True
    if depth and t in (list, tuple):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(has_sym(k, 0) or has_sym(v, depth - 1) for k, v in x.items())
    if t is slice:
        return has_sym(x.start, 0) or has_sym(x.stop, 0) or has_sym(x.step, 0)
    return False


# -- strings ------------------------------------------------------------------------------
def sx_repr(x):
    t = type(x)
    if t is SymInt:
        lim = sys.get_int_max_str_digits()
        if lim and max(abs(x.lo), abs(x.hi)) >= 10 ** lim:
            if abs(x) >= 10 ** lim:
                raise ValueError("Exceeds the limit (%d digits) for integer string conversion"
                                 % lim)
        if x.digits is not None:
            return x.digits
        return SymOpaque([x], ndigits(x), repr)
    if t is SymOpaque or t is SymStr or t is SymText:
        return SymOpaque([x], None, repr)
    if t is SymBool:
        return "True" if x else "False"
    if t is SymBytes and x.items is not None and all(type(i) is int for i in x.items):
        return repr(x._py(bytes(x.items)))
    if t in _SYM:
        return SymOpaque([x], None, repr)
    if t in (list, tuple) and has_sym(x, 6):
        op, cl = ("[", "]") if t is list else ("(", ",)" if len(x) == 1 else ")")
        parts = []
        for k, y in enumerate(x):
            if k:
                parts.append(", ")
            parts.append(sx_repr(y))
        return str_concat([op] + parts + [cl])
    if t is dict and has_sym(x, 6):
        for k, v in x.items():
            sx_repr(k)
            sx_repr(v)
        return SymOpaque([x], None, repr)
    return repr(x)


def sx_str(x=""):
    t = type(x)
    if t is SymStr or t is SymText or t is SymOpaque:
        return x
    if t in _SYM or t in (list, tuple, dict):
        return sx_repr(x)
    return str(x)


def sx_format(x, spec):
    t = type(x)
    if spec == "" or spec is None:
        if t in _SYM or t in (list, tuple, dict):
            return sx_str(x)
        return format(x, "")
    if t in _SYM:
        if t is SymStr:
            return SymOpaque([x], None, lambda v: format(v, spec))
        return SymOpaque([x], None, lambda v: format(v, spec))
    return format(x, spec)


def str_concat(parts):
    out = []
    sym = False
    for p in parts:
        t = type(p)
        if t is SymOpaque or t is SymText:
            return SymOpaque.concat(parts)
        if t is SymStr:
            sym = True
    if not sym:
        return "".join(parts)
    for p in parts:
        out.extend(SymStr.of(p).c)
    return mkstr(out)


def sx_fstr(*parts):
    """parts: str constants or (value, conversion, spec) tuples."""
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = sx_repr(v)
        elif conv == 115:
            v = sx_str(v)
        elif conv == 97:
            v = sx_repr(v)
        if type(spec) in _SYM:
            spec = concretize(spec)
        out.append(sx_format(v, spec))
    return str_concat(out)


def sx_mod(a, b):
    if type(a) in (str,) and has_sym(b, 3):
        # printf formatting: opaque text
        args = b if type(b) is tuple else (b,)
        for y in args:
            if type(y) is not dict:
                sx_repr(y)
        return SymOpaque([a, b], None, lambda f, x: f % x)
    return a % b


def _str_format(fmt, *a, **k):
    if not has_sym(list(a), 4) and not has_sym(k, 4):
        return fmt.format(*a, **k)
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            v, _ = string.Formatter().get_field(field, a, k)
        if spec and "{" in spec:
            return SymOpaque([fmt, list(a), k], None, lambda f, x, y: f.format(*x, **y))
        if conv in ("r", "a"):
            v = sx_repr(v)
        elif conv == "s":
            v = sx_str(v)
        out.append(sx_format(v, spec))
    return str_concat(out)


def _str_join(sep, parts):
    parts = list(parts)
    if not has_sym(parts, 1) and type(sep) is str:
        return sep.join(parts)
    out = []
    for i, p in enumerate(parts):
        if not isinstance(p, str):
            raise TypeError("sequence item %d: expected str instance, %s found"
                            % (i, type_of(p).__name__))
        if i:
            out.append(sep)
        out.append(p)
    return str_concat(out) if out else ""


def sx_int(x=0, base=None, **kw):
    if "base" in kw:
        base = kw["base"]
    t = type(x)
    if t is SymOpaque:
        x = x.force()
        t = type(x)
    if t is SymText:
        x = concretize(x)
        t = str
    if t is SymInt:
        return x
    if t is SymBool:
        return x._i()
    if t is SymDecimal:
        return dec_to_int(x)
    if t is SymStr:
        return _int_of_str(x, 10 if base is None else concretize(base))
    if t is SymBytes:
        if base is None and not isinstance(x, (bytes, bytearray)):
            raise TypeError("int() argument")
        return _int_of_str(SymStr([c if isinstance(c, int) else mkcp(z3.ZeroExt(13, c))
                                   for c in x.fix()]), 10 if base is None else concretize(base))
    if base is not None:
        return int(concretize(x), concretize(base))
    m = getattr(type(x), "__int__", None)
    if m is None and getattr(type(x), "__index__", None) is not None:
        m = type(x).__index__
    if t in (int, float, str, bytes, bool, bytearray) or m is None:
        return int(x)
    if isinstance(m, types.FunctionType):
        return m(x)
    return int(x)


def _int_of_str(s, base):
    """int(text): decides that every character is a digit (others: by concretisation)."""
    cps = s.c
    if not cps:
        raise ValueError("invalid literal for int() with base %d: ''" % base)
    if base == 10:
        if conj(cp_in(c, [(48, 57)]) for c in cps):
            lim = sys.get_int_max_str_digits()
            if lim and len(cps) > lim:
                raise ValueError("Exceeds the limit (%d digits) for integer string conversion"
                                 % lim)
            v = 0
            for c in cps:
                d = c - 48 if isinstance(c, int) else mkint(
                    z3.Extract(4, 0, c - BV(48, 21)), 0, 9)
                v = v * 10 + d
            if isinstance(v, SymInt):
                z = cp_in(cps[0], [(48, 48)])
                if len(cps) == 1 or z is False or not (z is True or bool(z)):
                    v = SymInt(v.t, v.lo, v.hi)
                    v.digits = mkstr(list(cps))
            return v
    if base == 16:
        if len(cps) > 2 and conj([cp_in(cps[0], [(48, 48)]), cp_in(cps[1], [(88, 88), (120, 120)])]):
            cps = cps[2:]
        if conj(cp_in(c, [(48, 57), (65, 70), (97, 102)]) for c in cps):
            v = 0
            for c in cps:
                v = v * 16 + _hexval(c)
            return v
    engine().note_conc("int(str, %d)" % base)
    return int(concretize(s), base)


def _hexval(c):
    if isinstance(c, int):
        return int(chr(c), 16)
    t = c2t(c)
    n = z3.If(z3.ULE(t, BV(57, 21)), t - 48, z3.If(z3.ULE(t, BV(70, 21)), t - 55, t - 87))
    return mkint(z3.Extract(4, 0, n), 0, 15)


# -- bytes --------------------------------------------------------------------------------
def sx_bytes(*a, **k):
    return _mkbytes(bytes, a, k)


def sx_bytearray(*a, **k):
    r = _mkbytes(bytearray, a, k)
    if type(r) is bytearray and engine() is not None:
        # symbolic bytes may be added later
        r = SymBytes(list(r), bytearray)
    return r


# -- struct -------------------------------------------------------------------------------
_STRUCT = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True),
           "I": (4, False), "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False)}


def _struct_fields(fmt):
    """[(char, count)] and the byte order, or None if the format is not modelled"""
    f = concretize(fmt)
    f = f.decode() if isinstance(f, bytes) else f
    order = "little"
    if f[:1] in (">", "!", "<", "="):
        order = "big" if f[0] in ">!" else "little"
        f = f[1:]
    elif any(c not in "bBsxc?0123456789 " for c in f):
        return None
    out = []
    num = ""
    for c in f:
        if c.isspace():
            continue
        if c.isdigit():
            num += c
            continue
        if c not in _STRUCT and c not in "sxc?":
            return None
        n = int(num) if num else 1
        num = ""
        out.extend([(c, n)] if c in "sx" else [(c, 1)] * n)
    return (out, order) if not num else None


def sx_pack(fmt, *vals):
    fs = _struct_fields(fmt)
    if fs is None or not has_sym(vals, 0):
        return _conc_call(struct.pack, (fmt,) + vals, {}, "struct.pack") if has_sym(vals, 0) \
            else struct.pack(concretize(fmt), *vals)
    fields, order = fs
    vals = list(vals)
    if len(vals) != len([1 for c, _ in fields if c != "x"]):
        raise struct.error("pack expected another number of items")
    out = b""
    for c, n in fields:
        if c == "x":
            out = out + b"\x00" * n
            continue
        v = vals.pop(0)
        if c == "s" or c == "c":
            if not isinstance(v, (bytes, bytearray)):
                raise struct.error("argument for '%s' must be a bytes object" % c)
            v = sx_bytes(v)
            if c == "c" and sx_len(v) != 1:
                raise struct.error("char format requires a bytes object of length 1")
            v = v[:n]
            out = out + v + b"\x00" * (n - sx_len(v))
        elif c == "?":
            out = out + (b"\x01" if v else b"\x00")
        else:
            size, signed = _STRUCT[c]
            v = as_int(v)
            if v is None:
                raise struct.error("required argument is not an integer")
            lo, hi = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else \
                (0, (1 << 8 * size) - 1)
            if v < lo or v > hi:
                raise struct.error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
            out = out + sx_call(v.to_bytes, size, order, signed=signed)
    return out


def sx_unpack(fmt, data):
    if not has_sym(data, 0):
        return struct.unpack(concretize(fmt), data)
    fs = _struct_fields(fmt)
    if fs is None:
        return _conc_call(struct.unpack, (fmt, data), {}, "struct.unpack")
    fields, order = fs
    total = struct.calcsize(concretize(fmt))
    if sx_len(data) != total:
        raise struct.error("unpack requires a buffer of %d bytes" % total)
    return _unpack(fields, order, data, 0)


def sx_unpack_from(fmt, data, offset=0):
    if not has_sym(data, 0) and not has_sym(offset, 0):
        return struct.unpack_from(concretize(fmt), data, offset)
    fs = _struct_fields(fmt)
    if fs is None:
        return _conc_call(struct.unpack_from, (fmt, data, offset), {}, "struct.unpack_from")
    total = struct.calcsize(concretize(fmt))
    offset = as_int(offset)
    n = sx_len(data)
    if offset < 0:
        offset = offset + n
    if offset < 0 or n - offset < total:
        raise struct.error("unpack_from requires a buffer of at least %d bytes" % total)
    return _unpack(fs[0], fs[1], SymBytes.of(data), offset)


_STRUCT_FN = {"pack": sx_pack, "unpack": sx_unpack, "unpack_from": sx_unpack_from}


def _unpack(fields, order, data, at):
    out = []
    for c, n in fields:
        size = _STRUCT[c][0] if c in _STRUCT else n
        part = data[at:at + size]
        at = at + size
        if c in "sc":
            out.append(sx_bytes(part))
        elif c == "?":
            out.append(part[0] != 0)
        elif c != "x":
            out.append(sx_from_bytes(part, order, signed=_STRUCT[c][1]))
    return tuple(out)


def _mkbytes(py, a, k):
    a = tuple(a) + tuple(k.values())
    if not a:
        return py()
    x = a[0]
    t = type(x)
    if t is SymBytes:
        if x.items is None:
            if py is bytes:
                return x if x._py is bytes else SymBytes.view(x.base, x.start, x.n) \
                    if x.base is not None else SymBytes.ralign(x.ritems, x.n)
            x.fix()
        return SymBytes(list(x.items), py) if py is bytearray else mkbytes(list(x.items))
    if t in (SymStr, SymText, SymOpaque):
        if len(a) == 1:
            raise TypeError("string argument without an encoding")
        r = str_encode(x.force() if t is SymOpaque else x, *a[1:])
        return r if py is bytes else _mkbytes(py, (r,), {})
    if t in (SymInt, SymBool):
        r = b"\x00" * as_int(x)
        return r if py is bytes else _mkbytes(py, (r,), {})
    if isinstance(x, (bytes, bytearray, memoryview, str, int)):
        return py(*[concretize(q) for q in a])
    m = getattr(type(x), "__bytes__", None)
    if isinstance(m, types.FunctionType):
        r = m(x)
        return r if py is bytes else _mkbytes(py, (r,), {})
    items = list(x)
    if has_sym(items, 0) or any(type(q) in _SYM for q in items):
        items = [i2b(q) for q in items]
        return mkbytes(items, py)
    return py(items)


def sx_memoryview(x):
    if type(x) is SymBytes:
        s = SymBytes(x.items, memoryview)
        s.base, s.start, s.n, s.ritems = x.base, x.start, x.n, x.ritems
        return s
    return memoryview(x)


def _bytes_join(sep, parts):
    parts = list(parts)
    if not has_sym(parts, 1):
        return sep.join(parts)
    return SymBytes.of(sep).join(parts)


def _fromhex(s, py=bytes):
    if type(s) is SymOpaque:
        s = s.force()
    if type(s) is SymText:
        s = concretize(s)
    if type(s) is not SymStr:
        return py.fromhex(s)
    if any(isinstance(c, int) and c in b" \t\n\r\x0b\x0c" for c in s.c):
        engine().note_conc("fromhex")
        return py.fromhex(concretize(s))
    return _unhex(s.c, ValueError, py)


def _unhex(cps, exc, py=bytes):
    if not conj(cp_in(c, [(48, 57), (65, 70), (97, 102)]) for c in cps):
        raise exc("Non-hexadecimal digit found")
    if len(cps) % 2:
        raise exc("Odd-length string")
    out = []
    for i in range(0, len(cps), 2):
        a, b = cp_info(cps[i]), cp_info(cps[i + 1])
        if a is not None and b is not None and a[2] is not None and b[2] is not None:
            out.append(mkbyte(z3.Concat(a[2], b[2])))
            continue
        v = _hexval(cps[i]) * 16 + _hexval(cps[i + 1])
        out.append(i2b(v))
    return mkbytes(out, py)


def sx_unhexlify(x):
    if type(x) in (SymText, SymOpaque):
        x = concretize(x)
    if type(x) is SymStr:
        return _unhex(x.c, binascii.Error)
    if type(x) is SymBytes:
        return _unhex([byte_cp(c) for c in x.fix()], binascii.Error)
    return binascii.unhexlify(x)


def sx_hexlify(x, *a):
    if type(x) is SymBytes and not a:
        return str_encode(x.hex(), "ascii")
    return binascii.hexlify(concretize(x), *a)


def sx_from_bytes(b, byteorder="big", *, signed=False):
    if type(b) is SymBytes or (type(b) in (list, tuple) and has_sym(b, 1)):
        return int_from_bytes(b, byteorder, signed=bool(signed))
    if isinstance(b, (bytes, bytearray, memoryview, list, tuple)):
        return int.from_bytes(b, byteorder, signed=bool(signed))
    return sx_from_bytes(list(b), byteorder, signed=signed)


def sx_codecs_encode(obj, encoding="utf-8", errors="strict"):
    if type(obj) is SymOpaque:
        obj = obj.force()
    if type(obj) in (SymStr, SymText):
        return str_encode(obj, encoding, errors)
    if type(obj) is SymBytes and encoding in ("hex", "hex_codec"):
        return sx_hexlify(obj)
    return codecs.encode(concretize(obj), encoding, errors)


def sx_codecs_decode(obj, encoding="utf-8", errors="strict"):
    if type(obj) is SymBytes:
        if encoding in ("hex", "hex_codec"):
            return sx_unhexlify(obj)
        return bytes_decode(obj, encoding, errors)
    return codecs.decode(concretize(obj), encoding, errors)


# -- containers ---------------------------------------------------------------------------
class SxRange:
    """range with symbolic bounds (step +/- constant): forks at each further iteration."""

    def __init__(self, a, b, s):
        self.start, self.stop, self.step = a, b, s

    __class__ = property(lambda self: range)

    def __iter__(self):
        i = self.start
        n = 0
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step
            n += 1
            if n > engine().max_iter:
                raise PathCut("iteration bound")

    def __reversed__(self):
        n = concretize(self.sx_len())
        return iter([self.start + self.step * i for i in range(n - 1, -1, -1)])

    def sx_len(self):
        if self.step > 0:
            d = self.stop - self.start
            s = self.step
        else:
            d = self.start - self.stop
            s = -self.step
        n = (d + (s - 1)) // s
        return n if not isinstance(n, SymInt) and n > 0 else (
            ite(n > 0, n, 0) if isinstance(n, SymInt) else 0)

    def __len__(self):
        return concretize(self.sx_len())

    def __contains__(self, x):
        x = as_int(x)
        if x is None:
            return False
        if self.step > 0:
            c = conj([x >= self.start, x < self.stop, (x - self.start) % self.step == 0])
        else:
            c = conj([x <= self.start, x > self.stop, (self.start - x) % -self.step == 0])
        return bool(c)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return range(concretize(self.start), concretize(self.stop),
                         self.step)[i]
        n = self.sx_len()
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError("range object index out of range")
        return self.start + self.step * i

    def __eq__(self, o):
        return range(concretize(self.start), concretize(self.stop), self.step) == o

    __hash__ = None


def sx_range(*a):
    if not any(type(x) in _SYM for x in a):
        return range(*a)
    for x in a:
        if as_int(x) is None:
            raise TypeError("'%s' object cannot be interpreted as an integer"
                            % type_of(x).__name__)
    if len(a) == 1:
        s, e, st = 0, as_int(a[0]), 1
    else:
        s, e = as_int(a[0]), as_int(a[1])
        st = as_int(a[2]) if len(a) > 2 else 1
    st = concretize(st)
    if st == 0:
        raise ValueError("range() arg 3 must not be zero")
    return SxRange(s, e, st)


def sx_len(x):
    t = type(x)
    if t is SymBytes:
        return x.length()
    if t is SymText and not x.lossy:
        return x.sx_len()
    if t is SymOpaque:
        return x.sx_len()
    if t is SxRange:
        return x.sx_len()
    if t in (SymInt, SymBool, SymDecimal):
        raise TypeError("object of type '%s' has no len()" % type_of(x).__name__)
    m = getattr(t, "__len__", None)
    if isinstance(m, types.FunctionType) and t not in _SYM:
        # a Python class: its __len__ may return a symbolic int
        r = m(x)
        if type(r) is SymInt:
            return r
        return len(x) if r is NotImplemented else operator.index(r)
    return len(x)


def sx_type(*a, **k):
    if len(a) == 1 and not k:
        return type_of(a[0])
    return type(*a, **k)


def sx_map(f, *its):
    return map(lambda *a: sx_call(f, *a), *its)


def sx_filter(f, it):
    if f is None:
        return filter(None, it)
    return filter(lambda x: sx_call(f, x), it)


def _wrapkey(kw):
    if kw.get("key") is not None:
        f = kw["key"]
        kw = dict(kw)
        kw["key"] = lambda x: sx_call(f, x)
    return kw


def sx_sorted(it, **kw):
    return sorted(it, **_wrapkey(kw))


def sx_max(*a, **kw):
    return max(*a, **_wrapkey(kw))


def sx_min(*a, **kw):
    return min(*a, **_wrapkey(kw))


def sx_reduce(f, *a):
    return functools.reduce(lambda x, y: sx_call(f, x, y), *a)


def sx_accumulate(it, func=None, **kw):
    if func is None:
        return itertools.accumulate(it, **kw)
    return itertools.accumulate(it, lambda x, y: sx_call(func, x, y), **kw)


def sx_starmap(f, it):
    return itertools.starmap(lambda *a: sx_call(f, *a), it)


def sx_takewhile(f, it):
    return itertools.takewhile(lambda *a: sx_call(f, *a), it)


def sx_dropwhile(f, it):
    return itertools.dropwhile(lambda *a: sx_call(f, *a), it)


def sx_iter(x, *s):
    if s:
        return iter(lambda: sx_call(x), *s)
    return iter(x)


def sx_ord(x):
    t = type(x)
    if t is SymStr:
        if len(x.c) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(x.c))
        c = x.c[0]
        return c if isinstance(c, int) else mkint(z3.ZeroExt(1, c), 0, 0x10FFFF)
    if t is SymBytes:
        return x[0]
    return ord(concretize(x))


def sx_chr(x):
    if type(x) is SymInt:
        if x < 0 or x > 0x10FFFF:
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr([mkcp(z3.Extract(20, 0, x.t if x.t.size() >= 21 else
                                      z3.SignExt(21 - x.t.size(), x.t)))])
    return chr(x)


def sx_hex(x):
    x = as_int(x)
    if type(x) is SymInt:
        return SymOpaque([x], None, hex)
    return hex(x)


def sx_abs(x):
    return abs(x)


def sx_bool(x=False):
    if type(x) is SymBool:
        return x
    return bool(x)


def sx_float(x=0.0):
    return float(concretize(x))


def sx_divmod(a, b):
    return divmod(a, b)


def sx_pow(a, b, m=None):
    if m is None:
        return a ** b
    return pow(concretize(a), concretize(b), concretize(m))


def sx_hash(x):
    return hash(concretize(x)) if is_sym(x) else hash(x)


def sx_id(x):
    return id(x)


def sx_decimal(value="0", context=None):
    t = type(value)
    if t is SymDecimal:
        return value
    if t in (SymInt, SymBool):
        return SymDecimal(as_int(value), 0)
    if t in (tuple, list) and has_sym(value, 2):
        sign, digits, exp = value
        c = 0
        for d in digits:
            c = c * 10 + d
        e = concretize(exp)
        if type(c) is SymInt:
            if sign:
                c = -c
            return SymDecimal(c, e)
        value = (concretize(sign), digits, e)
    if t in (SymStr, SymText, SymOpaque):
        engine().note_conc("Decimal(str)")
        value = concretize(value)
    return decimal.Decimal(value) if context is None else decimal.Decimal(value, context)


def _ctx_method(ctx, name, a, k):
    ops = dict(add="add", subtract="sub", multiply="mul", divide="truediv",
               divide_int="floordiv", remainder="mod")
    with decimal.localcontext(ctx):
        if name in ops:
            return _dec_op(ops[name], a[0] if isinstance(a[0], (SymDecimal, decimal.Decimal))
                           else sx_decimal(a[0]), a[1])
        x = sx_decimal(a[0])
        if name in ("plus", "create_decimal"):
            return +x
        if name == "minus":
            return -x
        if name == "abs":
            return abs(x)
        if name == "scaleb":
            return x.scaleb(a[1])
        if name == "quantize":
            return x.quantize(a[1])
        if name in ("to_integral_exact", "to_integral_value"):
            return getattr(x, name)()
        engine().note_conc("Context.%s" % name)
        return getattr(ctx, name)(*[concretize(q) for q in a], **k)


# -- dictionaries with symbolic keys ------------------------------------------------------
def _dict_find(d, key):
    """the stored key equal to a symbolic key, or None."""
    for q in list(d):
        if type_of(q) is type_of(key) or (isinstance(q, (int, str, bytes))):
            r = q == key
            if r is not NotImplemented and r:
                return (q,)
    return None


def sx_getitem(o, k):
    t = type(o)
    if type(k) in _SYM:
        if isinstance(o, dict):
            f = _dict_find(o, k)
            if f:
                return o[f[0]]
            m = getattr(t, "__missing__", None)
            if m is not None:
                return m(o, concretize(k))
            raise KeyError(k)
        if t in (bytes, bytearray):
            return SymBytes.of(o)[k]
        if t in (list, tuple):
            i = as_int(k)
            if i is None:
                raise TypeError("indices must be integers")
            return o[concretize(i)]
        return o[k]
    if t is slice:
        return o[k]
    if type(k) is slice and (type(k.start) in _SYM or type(k.stop) in _SYM or type(k.step) in _SYM):
        if t in (bytes, bytearray, memoryview):
            return SymBytes.of(o)[k]
        if t in (list, tuple, str):
            return o[slice(_clamp(k.start, len(o)), _clamp(k.stop, len(o)), concretize(k.step))]
    if type(k) is tuple and isinstance(o, dict) and has_sym(k, 1):
        k = concretize(k)
    return o[k]


def _clamp(v, n):
    """slice bound: pick among the values that matter for a sequence of length n."""
    if type(v) is not SymInt:
        return v
    if v >= n:
        return n
    if v <= -n:
        return -n
    return concretize(v)


def sx_in(x, c):
    t = type(c)
    if type(x) in _SYM:
        if t in (set, frozenset) or isinstance(c, (dict, type({}.keys()))):
            return _dict_find(c, x) is not None
        if t is str:
            return SymStr.of(c).__contains__(x)
        if t in (bytes, bytearray):
            return SymBytes.of(c).__contains__(x)
        if t is range:
            return SxRange(c.start, c.stop, c.step).__contains__(x)
    return x in c


def sx_cmp(op, a, b):
    # Decimal's own comparison takes a symbolic integer for a Rational; ask the other operand
    if type(a) is decimal.Decimal and isinstance(b, Sym):
        return _SWAP[op](b, a)
    return _CMP[op](a, b)


_CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge,
        "==": operator.eq, "!=": operator.ne}
_SWAP = {"<": operator.gt, "<=": operator.ge, ">": operator.lt, ">=": operator.le,
         "==": operator.eq, "!=": operator.ne}


def sx_is(a, b):
    ta, tb = type(a), type(b)
    if ta is SymBool or tb is SymBool:
        if a is b:
            return True
        if (ta is SymBool or a is True or a is False) and (
                tb is SymBool or b is True or b is False):
            return a == b if ta is SymBool else b == a
        return False
    return a is b


# -- caches -------------------------------------------------------------------------------
class SxCache:
    """functools.cache / lru_cache as a list of entries compared by equality."""

    def __init__(self, f, maxsize=None, typed=False):
        self.__wrapped__ = f
        self.maxsize = maxsize
        self.typed = typed
        self.exact = {}
        self.entries = []
        self.hits = self.misses = 0
        try:
            functools.update_wrapper(self, f)
        except AttributeError:
            pass

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def __call__(self, *a, **k):
        sym = has_sym(list(a), 1) or (k and has_sym(k, 1))
        if not sym and not self.entries:
            key = (a, tuple(k.items())) if k else a
            if self.typed:
                key = (key, tuple(type(x) for x in a), tuple(type(x) for x in k.values()))
            if key in self.exact:
                self.hits += 1
                if self.maxsize is not None:
                    self.exact[key] = self.exact.pop(key)
                return self.exact[key]
            self.misses += 1
            r = sx_call(self.__wrapped__, *a, **k)
            if self.maxsize is not None:
                if self.maxsize == 0:
                    return r
                while len(self.exact) >= self.maxsize:
                    self.exact.pop(next(iter(self.exact)))
            self.exact[key] = r
            return r
        for q in list(a) + list(k.values()):
            if not is_sym(q):
                hash(q)
        kk = tuple(k.items())
        for (a2, k2), r in [(_split(q), r) for q, r in self.exact.items()] + self.entries:
            if len(a2) == len(a) and len(k2) == len(kk) and _all_eq(a, a2) and all(
                    p[0] == q[0] for p, q in zip(kk, k2)) and _all_eq(
                        [p[1] for p in kk], [q[1] for q in k2]):
                self.hits += 1
                return r
        self.misses += 1
        r = sx_call(self.__wrapped__, *a, **k)
        self.entries.append(((a, kk), r))
        return r

    def cache_clear(self):
        self.exact.clear()
        del self.entries[:]
        self.hits = self.misses = 0

    def cache_info(self):
        return functools._CacheInfo(self.hits, self.misses, self.maxsize,
                                    len(self.exact) + len(self.entries))

    def cache_parameters(self):
        return dict(maxsize=self.maxsize, typed=self.typed)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _split(q):
    if len(q) == 2 and type(q[0]) is tuple and type(q[1]) is tuple and all(
            type(x) is tuple and len(x) == 2 and type(x[0]) is str for x in q[1]) and q[1]:
        return q
    return q, ()


def _all_eq(a, b):
    for x, y in zip(a, b):
        if x is y:
            continue
        r = x == y
        if not r:
            return False
    return True


def sx_cache(f):
    return SxCache(f)


def sx_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return SxCache(maxsize, 128)
    return lambda f: SxCache(f, maxsize, typed)


class SxPartial(functools.partial):
    def __call__(self, *a, **k):
        kk = dict(self.keywords)
        kk.update(k)
        return sx_call(self.func, *self.args, *a, **kk)


# -- dispatcher ---------------------------------------------------------------------------
def _ident(name):
    return name


BYID = {}
_KEEP = []


def model(f, h):
    BYID[id(f)] = h
    _KEEP.append(f)


for _f, _h in [
    (len, sx_len), (type, sx_type), (range, sx_range), (int, sx_int), (bytes, sx_bytes),
    (bytearray, sx_bytearray), (memoryview, sx_memoryview), (str, sx_str), (repr, sx_repr),
    (ascii, sx_repr), (format, lambda x, s="": sx_format(x, s)), (map, sx_map),
    (filter, sx_filter), (sorted, sx_sorted), (max, sx_max), (min, sx_min),
    (functools.reduce, sx_reduce), (itertools.accumulate, sx_accumulate),
    (itertools.starmap, sx_starmap), (itertools.takewhile, sx_takewhile),
    (itertools.dropwhile, sx_dropwhile), (iter, sx_iter), (ord, sx_ord), (chr, sx_chr),
    (hex, sx_hex), (bool, sx_bool), (float, sx_float), (pow, sx_pow), (hash, sx_hash),
    (decimal.Decimal, sx_decimal), (binascii.unhexlify, sx_unhexlify),
    (binascii.a2b_hex, sx_unhexlify), (binascii.hexlify, sx_hexlify),
    (binascii.b2a_hex, sx_hexlify), (codecs.encode, sx_codecs_encode),
    (codecs.decode, sx_codecs_decode), (functools.cache, sx_cache),
    (functools.lru_cache, sx_lru_cache), (operator.is_, sx_is),
    (operator.is_not, lambda a, b: sx_not(sx_is(a, b))),
    (operator.getitem, sx_getitem), (operator.contains, lambda c, x: sx_in(x, c)),
    (operator.not_, lambda x: not x), (operator.truth, sx_bool),
    (functools.partial, SxPartial), (struct.pack, sx_pack), (struct.unpack, sx_unpack),
    (struct.unpack_from, sx_unpack_from),
]:
    model(_f, _h)

if hasattr(math, "ceil"):
    def _sx_ceil(x):
        if type(x) in (SymInt, SymBool):
            return as_int(x)
        return math.ceil(concretize(x))

    model(math.ceil, _sx_ceil)
    model(math.floor, lambda x: as_int(x) if type(x) in (SymInt, SymBool)
          else math.floor(concretize(x)))


def _any_all(neg):
    """any (neg False) or all (neg True) as one condition instead of one fork per item."""
    def one(x):
        if type(x) is SymBool:
            return sx_not(x) if neg else x
        if type(x) is SymInt:
            b = x != 0
            return sx_not(b) if neg else b
        return bool(x) is not neg

    def out(b):
        return sx_not(b) if neg else b

    def f(it):
        t = type(it)
        if t is SymBytes:
            if it.items is None and it.base is not None and it.max_len() <= 64:
                return out(disj(conj([it.n > i, one(b2i(it.at(i)))])
                                for i in range(it.max_len())))
            it = it.fix()
            return out(disj(one(b2i(x)) for x in it))
        if t not in (list, tuple, types.GeneratorType, map, filter, zip) \
                or (t is types.GeneratorType and it.gi_code.co_name != "<genexpr>"):
            return (all if neg else any)(it)
        acc = []
        it = iter(it)
        while True:
            try:
                x = next(it)
            except StopIteration:
                break
            except Exception:
                # reached only if no earlier item has settled the answer
                if acc and disj(acc):
                    return not neg
                raise
            if not isinstance(x, Sym):
                if bool(x) is not neg:
                    # this item settles it, whatever the earlier ones are
                    return not neg
                continue
            b = one(x)
            if b is True:
                return not neg
            if b is not False:
                acc.append(b)
        return out(disj(acc))

    return f


model(any, _any_all(False))
model(all, _any_all(True))

# builtins that work through protocols on proxies
SAFE = set(map(id, [
    isinstance, issubclass, callable, getattr, setattr, hasattr, delattr, sum, abs,
    divmod, zip, enumerate, reversed, next, list, tuple, dict, set, frozenset, object, property,
    staticmethod, classmethod, super, id, print, iter, vars, dir, round, slice,
    itertools.chain, itertools.zip_longest, itertools.islice, itertools.repeat, itertools.count,
    itertools.cycle, itertools.tee, itertools.pairwise, itertools.batched,
    itertools.compress, itertools.chain.from_iterable,
    copy.copy, copy.deepcopy, operator.add, operator.sub, operator.mul, operator.mod,
    operator.floordiv, operator.truediv, operator.and_, operator.or_, operator.xor,
    operator.lshift, operator.rshift, operator.eq, operator.ne, operator.lt, operator.le,
    operator.gt, operator.ge, operator.neg, operator.pos, operator.abs, operator.concat,
    operator.setitem, operator.delitem, operator.itemgetter, operator.attrgetter,
    types.SimpleNamespace,
]))
_CONTAINERS = (list, dict, set, frozenset, tuple)
_CONTAINER_OK = {"append", "extend", "insert", "items", "keys", "values", "clear", "copy",
                 "update", "popitem", "reverse", "setdefault", "count", "index", "remove",
                 "sort", "__iter__", "__len__", "appendleft", "popleft"}


def _const(x):
    return not has_sym(x, 0) or (type(x) is SymBytes and x.items is not None
                                 and all(type(q) is int for q in x.items))


def _conc_call(f, a, k, label):
    if not all(map(_const, a)) or not all(map(_const, k.values())):
        engine().note_conc(label)
        for x in a:
            diversify(x)
    return f(*[concretize(x) for x in a], **{q: concretize(x) for q, x in k.items()})


def _bound(f, s, a, k):
    """method of a concrete builtin object with (possibly) symbolic arguments"""
    n = f.__name__
    t = type(s)
    if t is str:
        if n == "join":
            return _str_join(s, a[0])
        if n == "format":
            return _str_format(s, *a, **k)
        if has_sym(a, 1):
            if n == "encode":
                return s.encode(*[concretize(x) for x in a])
            return getattr(SymStr.of(s), n)(*a, **k)
        return f(*a, **k)
    if t in (bytes, bytearray):
        if n == "join":
            return _bytes_join(s, a[0])
        if has_sym(a, 1):
            if t is bytearray and n in ("extend", "append", "insert", "__setitem__"):
                raise PathCut("symbolic bytes into a concrete bytearray")
            return getattr(SymBytes.of(s), n)(*a, **k)
        return f(*a, **k)
    if isinstance(s, PATTERN_TYPES):
        if has_sym(a, 1) or any(callable(x) for x in a):
            from .regex import pattern_method
            return pattern_method(s, n, a, k)
        return f(*a, **k)
    if t is struct.Struct and n in _STRUCT_FN:
        return _STRUCT_FN[n](s.format, *a, **k)
    if isinstance(s, dict):
        if a and type(a[0]) in _SYM and n in ("get", "pop", "__getitem__", "__contains__",
                                               "setdefault"):
            q = _dict_find(s, a[0])
            if n == "__contains__":
                return q is not None
            if q is not None:
                return getattr(s, n)(q[0], *a[1:])
            if n == "__getitem__" or (n == "pop" and len(a) == 1):
                raise KeyError(a[0])
            if n == "setdefault":
                return s.setdefault(concretize(a[0]), *a[1:])
            return a[1] if len(a) > 1 else None
        return f(*a, **k)
    if isinstance(s, (list, tuple, set, frozenset)):
        if n == "sort":
            return f(*a, **_wrapkey(k))
        if n == "pop" and a:
            return f(*[concretize(x) for x in a])
        return f(*a, **k)
    if isinstance(s, decimal.Context):
        if has_sym(a, 1):
            return _ctx_method(s, n, a, k)
        return f(*a, **k)
    if isinstance(s, type):
        if n == "from_bytes" and issubclass(s, int):
            return sx_from_bytes(*a, **k)
        if n == "fromhex" and s in (bytes, bytearray):
            return _fromhex(a[0], s)
        if n in ("__new__", "__init__", "__init_subclass__", "mro", "__subclasses__", "fromkeys"):
            return f(*a, **k)
    if t is int or t is bool:
        if n == "to_bytes" and has_sym(a, 1):
            b = a[1] if len(a) > 1 else k.get("byteorder", "big")
            if not k.get("signed") and type(a[0]) is SymInt and s >= 0:
                w = max(s.bit_length() + 1, 2)
                return SymInt(BV(s, w), s, s).to_bytes(a[0], b)
            return s.to_bytes(concretize(a[0]), *a[1:], **k)
        return f(*a, **k)
    if t in (object, type(None)):
        return f(*a, **k)
    return NotImplemented


_METHOD_DESC = type(str.join)
_WRAPPER_DESC = type(int.__add__)
_CLSMETHOD_DESC = type(int.__dict__["from_bytes"])


def sx_call(f, /, *a, **k):
    h = BYID.get(id(f))
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        return f(*a, **k)
    if t is BuiltinFn or t is _CMethod:
        s = f.__self__
        if s is not None and type(s) is not types.ModuleType:
            r = _bound(f, s, a, k)
            if r is not NotImplemented:
                return r
            return f(*a, **k)
        if id(f) in SAFE or not (has_sym(a, 1) or (k and has_sym(k, 1))):
            return f(*a, **k)
        if s is not None and s.__name__ == "_io":
            return f(*a, **k)
        return _conc_call(f, a, k, "%s.%s" % (getattr(s, "__name__", "?"), f.__name__))
    if t is _METHOD_DESC or t is _WRAPPER_DESC:
        # unbound method of a builtin type: bytes.join(sep, parts) ...
        if a and has_sym(a, 2):
            recv = a[0]
            if type(recv) in _SYM:
                if type(recv) is SymOpaque:
                    recv = recv.force()
                m = getattr(recv, f.__name__, None)
                if m is not None:
                    return sx_call(m, *a[1:], **k)
            elif hasattr(recv, f.__name__):
                return sx_call(getattr(recv, f.__name__), *a[1:], **k)
        return f(*a, **k)
    if isinstance(f, type):
        if f.__module__ in ("builtins", "_struct", "array", "fractions") and id(f) not in SAFE \
                and not issubclass(f, BaseException) and (has_sym(a, 1)):
            if getattr(f, "__init__", None) is not object.__init__ and isinstance(
                    getattr(f, "__init__"), types.FunctionType):
                return f(*a, **k)
            return _conc_call(f, a, k, f.__name__)
        return f(*a, **k)
    if isinstance(f, PATTERN_TYPES):
        return f(*a, **k)
    return f(*a, **k)


def _re_func(mod, name):
    def g(pattern, *a, **k):
        if not isinstance(pattern, PATTERN_TYPES):
            flags = k.pop("flags", 0)
            nfix = {"sub": 2, "subn": 2, "split": 1}.get(name, 1)
            a = list(a)
            if name in ("match", "fullmatch", "search", "findall", "finditer") and len(a) > 1:
                flags = a.pop(1)
            pattern = mod.compile(concretize(pattern), flags)
        return sx_call(getattr(pattern, name), *a, **k)

    return g


for _m in (re, _regexmod):
    if _m is not None:
        for _n in ("match", "fullmatch", "search", "findall", "finditer", "sub", "subn", "split"):
            model(getattr(_m, _n), _re_func(_m, _n))
