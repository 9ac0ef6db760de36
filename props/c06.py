"""C06: any payload either denotes the returned values or is refused cleanly."""
from props import common, dec, ref
from sx.api import Case

INFO = dict(
    bounds="Every byte string of every length up to the number of bytes listed per type list "
           "(64 to 400, thorough to 2000; props/c06.py), as one symbolic buffer with symbolic "
           "length; and, for every listed nesting, a valid encoding in which one word (thorough: "
           "also any two) is replaced by an arbitrary one.",
    outside="Longer arbitrary payloads; other nestings.",
    assumptions=common.ASSUMPTIONS)


def decode_any(S, types, n, lo):
    data = S.buffer("data", n, lo)
    dec.compare(S, types, data, kwargs=False)


def fixed_len(S, types, n):
    data = S.buffer("data", n)
    dec.compare(S, types, data, kwargs=False)


def encoding(types, lens):
    ts = [ref.T(t) for t in types]
    plan = ref.Plan(lens)
    return ref.enc_seq(ts, [ref.sample(t, plan) for t in ts])


def corrupt(S, types, lens, places, count=1):
    """a valid encoding with words replaced by arbitrary ones"""
    data = encoding(types, lens)
    at = []
    for i in range(count):
        k = S.choice("at%d" % i, places if not at else list(range(at[-1])) or [0])
        at.append(k)
        data = data[:32 * k] + S.bytes("w%d" % i, 32) + data[32 * k + 32:]
    if len(data) < 20000:
        data = S.payload("p", data)
    dec.compare(S, types, data, kwargs=False)


def long(S, typ, have):
    """long contents: the declared length and the bytes that are there differ by a little"""
    n = have + S.choice("more", [-33, -32, -1, 0, 1, 31, 32, 33, 2 ** 16, 2 ** 200])
    body = b"a" * (have - 3) + S.bytes("last", 3)
    pad = S.bytes("pad", S.choice("pads", [-have % 32, 0, 32]))
    dec.compare(S, ["uint8", typ], ref.word(7) + ref.word(64) + ref.word(n) + body + pad,
                kwargs=False)


def cases(tier):
    out = []
    for types, n in LISTS + (MORE if tier == "thorough" else []):
        out.append(Case("%s up to %d bytes" % (",".join(types), n), decode_any, types, n, 0,
                        budget=120, covers=("accepted", "refused")))
    for types, lens in common.SHAPES + common.DEEP:
        n = len(encoding(types, lens)) // 32
        step = 5
        if n > 28 and tier == "quick" and types[0] not in ("uint8[40]", "bool[17][2]"):
            continue
        for i in range(0, n, step):
            out.append(Case("%s/%s word %d.." % (",".join(types), lens, i), corrupt, types, lens,
                            list(range(i, min(n, i + step))), budget=120))
    for types, lens, places in common.BIGDEC:
        n = len(encoding(types, lens)) // 32
        for k in places:
            assert k < n, (types, k, n)
            out.append(Case("%s word %d" % (common.big_name(types, lens), k), corrupt, types,
                            lens, [k], budget=120))
    for typ in ("bytes", "string"):
        for have in (1023, 1024, 1025, 4096, 65535, 65536, 65537):
            out.append(Case("long %s of %d bytes" % (typ, have), long, typ, have, budget=120,
                            covers=("accepted", "refused")))
    if tier == "thorough":
        for types, lens in common.SHAPES:
            n = len(encoding(types, lens)) // 32
            if n <= 10:
                for i in range(1, n):
                    out.append(Case("%s/%s two words, %d" % (",".join(types), lens, i), corrupt,
                                    types, lens, [i], 2, budget=120))
    return out


LISTS = [
    (("bytes[2]",), 192), (("(bytes)[]",), 192), (("bytes[1][]",), 192), (("bytes[]",), 192),
    (("string[]",), 192), (("(bytes,uint8)[]",), 192), (("bytes[][]",), 192),
    (("(string,uint8[])",), 192), (("uint8[][2]",), 192), (("uint8[][][]",), 192),
    (("bytes", "bytes", "bytes"), 192), (("uint8[]", "uint8[]"), 192),
    (("(bytes,(uint8,string))",), 224), ((("((uint8,bool)[2],bytes)"),), 224),
    (("uint8[]",), 320), (("bytes",), 400), (("string",), 260),
    (("uint256",), 64), (("bool", "int8"), 96),
    (("uint8[]",), 160), (("bool[2]", "address"), 128), (("(uint8,bytes3)",), 96),
    (("string[]",), 160), (("uint8[][]",), 192),
    (("bytes[1]",), 160), (("(uint8,bytes[])",), 224),
    (("(uint8,bytes)",), 192), (("(bytes,bytes)",), 192), (("uint16", "bytes", "string"), 192),
    (("bytes", "bytes"), 192), (("(uint8)[]",), 160), (("(uint8,bool)[]",), 160),
    (("uint8[2][]",), 192), (("((bytes))",), 192),
    (("uint8[]", "bool"), 160), (("bytes32[]", "bytes"), 192), (("address[]",), 160),
    (("fixed8x1[]",), 160), (("function[]",), 128), (("uint8", "uint8", "uint8", "bytes"), 224),
]
MORE = [
    (("bytes[]",), 224), (("bytes[]",), 256), (("string[]",), 224), (("(bytes,uint8)[]",), 256),
    (("(bytes,(uint8,string))",), 256), (("bytes[][]",), 224), (("(bytes)[]",), 224),
    (("bytes[1][]",), 224), (("uint8[][][]",), 224), (("bytes[2][1]",), 256),
    (("bytes", "bytes", "bytes"), 224), (("uint8[]", "uint8[]"), 224), (("string[2]", "bool"), 224),
    (("(uint8[],string)[1]",), 256), (("bytes",), 2000), (("uint8[]",), 700), (("string",), 1000),
    (("((uint8,bool)[2],bytes)",), 256), (("uint8[][2]",), 224),
]
