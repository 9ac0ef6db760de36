"""JSON encoding of Python values used for inputs, observations and replay files."""
import decimal


def enc(x):
    t = type(x)
    if x is None or t is bool or t is str and _plain(x):
        return x
    if t is int:
        return {"i": hex(x)} if abs(x) > 2 ** 53 else x
    if t is str:
        return {"u": [ord(c) for c in x]}
    if t is bytes:
        return {"b": x.hex()}
    if t is bytearray:
        return {"ba": x.hex()}
    if t is decimal.Decimal:
        s, d, e = x.as_tuple()
        return {"d": [s, "".join(map(str, d)), e]}
    if t is list:
        return {"l": [enc(y) for y in x]}
    if t is tuple:
        return {"t": [enc(y) for y in x]}
    if t is dict:
        return {"m": [[enc(k), enc(v)] for k, v in x.items()]}
    if t is float:
        return {"f": repr(x)}
    return {"r": "%s" % t.__name__}


def _plain(s):
    return all(32 <= ord(c) < 127 for c in s)


def dec(j):
    if not isinstance(j, dict):
        return j
    (k, v), = j.items()
    if k == "i":
        return int(v, 16)
    if k == "u":
        return "".join(map(chr, v))
    if k == "b":
        return bytes.fromhex(v)
    if k == "ba":
        return bytearray.fromhex(v)
    if k == "d":
        s, d, e = v
        return decimal.Decimal((s, tuple(map(int, d)), e))
    if k == "l":
        return [dec(y) for y in v]
    if k == "t":
        return tuple(dec(y) for y in v)
    if k == "m":
        return {dec(a): dec(b) for a, b in v}
    if k == "f":
        return float(v)
    return "<%s>" % v
