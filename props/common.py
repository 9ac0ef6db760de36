"""Type shapes shared by the harnesses."""

UINTS = ["uint%d" % n for n in range(8, 257, 8)]
INTS = ["int%d" % n for n in range(8, 257, 8)]
BYTESN = ["bytes%d" % n for n in range(1, 33)]
FIXED_SIZES = [(8, 1), (8, 2), (8, 80), (16, 3), (32, 9), (64, 18), (128, 18), (128, 80), (200, 40),
               (248, 77), (256, 1), (256, 18), (256, 80)]
UFIXED = ["ufixed%dx%d" % p for p in FIXED_SIZES]
FIXED = ["fixed%dx%d" % p for p in FIXED_SIZES]
ALIAS = ["uint", "int", "ufixed", "fixed", "function", "byte"]
STATIC = UINTS + INTS + BYTESN + UFIXED + FIXED + ["bool", "address"] + ALIAS

# type lists with lengths for their variable parts (in order; the last one repeats)
SHAPES = [
    (("uint8", "bytes"), [5]),
    (("bytes", "uint8"), [33]),
    (("string", "bytes", "string"), [0, 32, 7]),
    (("uint256[]",), [0]), (("uint256[]",), [1]), (("int24[]",), [5]),
    (("bool[3]", "bytes"), [1]),
    (("address[]", "address[2]"), [2]),
    (("bytes3[]", "bytes32[2]"), [3]),
    (("bytes[]",), [0]), (("bytes[]",), [1, 0]), (("bytes[]",), [3, 31, 0, 33]),
    (("string[]",), [2, 3, 40]),
    (("bytes[2]",), [1, 64]), (("string[3]", "int8"), [4, 0, 5]),
    (("uint8[2][3]", "bytes"), [2]),
    (("uint8[][2]",), [2, 1]), (("uint8[2][]",), [2]), (("uint8[][]",), [2, 0, 3]),
    (("bytes[][2]",), [1, 3, 2, 0, 9]), (("bytes[2][]",), [2, 1, 2, 3, 4]),
    (("uint16[2][2][2]", "string"), [1]), (("uint8[][][]",), [2, 1, 2, 1, 0]),
    (("(uint8,bytes)",), [3]), (("(bytes,string)", "bool"), [0, 1]),
    (("(uint8,uint16)", "bytes"), [4]), (("((uint8,uint16),bytes)",), [4]),
    (("(uint8[2],bool)", "string"), [6]),
    (("(uint8,uint16)[2]", "bytes"), [2]), (("(uint8,uint16)[]",), [3]),
    (("(uint8,bytes)[]",), [2, 1, 33]), (("(uint8,bytes)[2]",), [0, 5]),
    (("((bytes))",), [2]), (("(((uint8)))", "(bytes)"), [1]),
    (("(uint8,(bytes,int16)[])",), [2, 3, 4]),
    (("((uint8,bytes)[2],string)", "uint8"), [1, 2, 3]),
    (("(bytes[],uint8[])[]",), [2, 1, 2, 1, 0, 2]),
    (("fixed128x18[]", "ufixed8x2[2]"), [2]),
    (("(bool,address,bytes4)", "(int8,int8)[2][2]", "bytes"), [3]),
    (("uint[]", "function[1]", "byte[2]", "(int,fixed)[]", "ufixed"), [1, 1]),
    (("(string,(string,(string,uint8[])))",), [1, 2, 3, 2]),
    (("bytes", "bytes", "bytes", "bytes", "bytes", "bytes", "bytes", "bytes", "bytes"),
     [1, 32, 0, 31, 33, 2, 64, 5, 9]),
    (("uint8", "int8", "bytes1", "bool", "address", "uint16[]", "(bool,bytes2)", "string",
      "int256[2]", "bytes"), [2, 5, 40]),
]

DEEP = [
    (("uint8[1][1][1][1][1]", "bytes"), [1]),
    (("((((((bytes,uint8))))))", "bool"), [5]),
    (("bytes[1][1][1][]",), [2, 3, 4]),
    (("(uint8[][2],(bytes[2],string)[])[]",), [2, 1, 2, 1, 3, 4, 5, 0, 0, 1, 2, 3, 4]),
    (("string[][][2]",), [2, 1, 3, 2, 0, 4, 1, 1, 2]),
    (("uint8[40]",), []), (("uint16[]",), [40]), (("bytes[]",), [20, 1]),
    (("(int8,bytes)[12]",), [3]), (("bool[17][2]",), []),
    (tuple(["uint8", "bytes"] * 20), [1]),
]

VALUE_BOUNDS = (
    "Every value of every elementary type listed (all 32 intN, uintN and bytesN, bool, address, "
    "the aliases, 13 to 2x2560 fixed sizes); bytes and string contents of every length up to "
    "130 and selected lengths to 131073 (texts: 1048577); type lists and nestings listed in "
    "props/common.py with the array lengths given there.  In one value only the first four "
    "numeric or bool leaves range over everything; later ones over all values of one sign.")
VALUE_OUTSIDE = ("Other array lengths, other nestings, other content lengths; texts longer "
                 "than 200 bytes are ASCII but for their last 20 bytes.")
ASSUMPTIONS = [
    "C-implemented callees (decimal, io.BytesIO, bytes/str/int methods, regex, codecs) are "
    "replaced by models; each run replays path models against the real interpreter",
]


def more_fixed():
    return ["%s%dx%d" % (p, m, n) for p in ("ufixed", "fixed") for m in range(8, 257, 8)
            for n in range(1, 81)
            if (m, n) not in FIXED_SIZES and (n % 8 == 1 or m % 64 == 0)]


def value_cases(tier):
    """(name, types, lens, forms) shared by the value-driven properties"""
    out = []
    for t in STATIC:
        out.append((t, (t,), [], {}))
    if tier == "thorough":
        for t in more_fixed():
            out.append((t, (t,), [], {}))
    for types, lens in SHAPES + DEEP:
        out.append(("%s/%s" % (",".join(types), lens), types, lens, {}))
    # symbolic content length
    for types, lens in SYMLEN:
        out.append(("%s/%s" % (",".join(types), lens), types, lens, {}))
    for types, lens in BIG:
        nm = ",".join(types)
        nm = nm if len(nm) < 60 else nm[:40] + "..(%d)" % len(nm)
        out.append(("big %s/%s" % (nm, lens), types, lens, {}))
    # other forms of the same values
    for f in ("hex", "upper", "0X", "bare", "bytearray"):
        out.append(("address as " + f, ("address", "(bytes,address)[]"), [1, 0],
                    dict(addr=f)))
    out.append(("bytearrays", ("bytes", "bytes7", "(bytes,bytes32)[]", "bytes1[2]"), [5, 1, 33],
                dict(raw=bytearray)))
    out.append(("tuples as lists", ("(uint8,(bytes,bool)[2])[]", "uint8[]"), [2, 1, 0, 3, 4, 1],
                dict(seq=(tuple, list))))
    out.append(("outer tuples", ("uint8", "bytes"), [3], dict(outer=tuple)))
    for t in BYTESN + ["function", "byte"]:
        for k in (1, 2, 7, 31, 32):
            if t in ("byte", "bytes1") and k > 1:
                continue
            if t.startswith("bytes") and k > int(t[5:]):
                continue
            if t == "function" and k > 24:
                continue
            out.append(("%s short by %d" % (t, k), (t,), [], dict(short=k)))
    out.append(("short bytesN inside", ("bytes5[2]", "(bytes,bytes32)[]"), [2, 1, 33],
                dict(short=3)))
    return out


EDGE = [0, 1, 31, 32, 33, 63, 64, 65]
SYMLEN = [
    (("bytes",), [range(0, 131)]), (("string",), [range(0, 71)]),
    (("bytes", "bytes"), [EDGE, EDGE]),
    (("uint8", "(bytes,bool)"), [range(0, 70)]),
    (("bytes[]",), [2, EDGE, EDGE]),
    (("string[2]", "bytes"), [EDGE, [0, 5, 32, 33], 3]),
    (("(int8,string)[]",), [1, range(0, 40)]),
]

BIG = [
    (("bytes",), [[255, 256, 257]]), (("string",), [[255, 1023, 1024, 1025]]),
    (("bytes",), [[4095, 4096, 4097]]), (("bytes",), [[8191, 8192]]),
    (("bytes", "uint8"), [[65535, 65536, 65537]]),
    (("bytes[]",), [2, 300, 65536]),
    (("string", "bytes"), [70000, 5]),
    (("bytes",), [131073]), (("string", "bool"), [1048577]), (("bytes2[]",), [10001]),
    (("bytes[]",), [1025, 1]), (("(bytes2,string)[]",), [520, 1]), (("bool[4097]",), []),
    (("bytes[]",), [3, 65536, 1, 0]), (("string[2]", "bool"), [70000, 3]),
    (("((bytes,bytes)[],uint8)",), [2, 65500, 3, 65536, 1]),
    (("uint8[]",), [300]), (("bytes1[257]",), []), (("bool[]",), [64]),
    (("bytes2[]",), [1030]), (("bool[1025]", "bytes"), [1]), (("string[]",), [260, 1]),
    (tuple(["bytes2", "bool"] * 130), []), (("bytes[2][]",), [65, 1]),
    (("bytes[]",), [65, 0]), (("(uint8,bytes)[]",), [33, 1]),
    (tuple(["uint8"] * 70), []), (tuple(["bytes"] * 40), [1]),
    (("(" + ",".join(["uint8"] * 40) + ",bytes)",), [3]),
    (("uint8" + "[1]" * 12,), []), (("bytes" + "[]" * 8,), [1, 1, 1, 1, 1, 1, 1, 1, 4]),
    (("(" * 10 + "uint8,bytes" + ")" * 10,), [3]),
]

# large payloads for the decoding properties: (types, lengths, words that are made arbitrary)
BIGDEC = [
    (("bytes",), [1025], (0, 1, 34)), (("string",), [4097], (130,)),
    (("bytes",), [65537], (2050,)), (("uint8", "string"), [70000], (2190,)),
    (("uint8[]",), [300], (257, 301)), (("bool[]",), [70], (1, 66, 71)),
    (("bytes2[]",), [1030], (1026, 1031)), (("bool[1025]",), [], (1024,)),
    (("bytes2[]",), [10001], (10002,)), (("string",), [1048577], (32770,)),
    (("bytes[]",), [1025, 0], (2051,)), (("(bytes2,bytes)[]",), [520, 1], (2600, 2601)),
    (("bytes1[257]",), [], (0, 256)), (("int8[130]", "bool"), [], (129, 130)),
    (("bytes[]",), [66, 0], (2, 66, 67, 133)), (("bytes[66]",), [1], (1, 66, 67, 198)),
    (("(uint8,bytes)[]",), [34, 1], (36, 171)),
    (("(uint8,bool)[]",), [40], (1, 80, 81)), (("uint8[2][]",), [33], (66, 67)),
    (tuple(["uint8"] * 70), [], (0, 64, 69)), (tuple(["bytes"] * 34), [1], (0, 33, 101)),
    (("(" + ",".join(["uint8"] * 40) + ",bytes)",), [3], (40, 41, 43)),
    (("uint8" + "[1]" * 12, "bool"), [], (0, 1)),
    (("bytes" + "[]" * 8,), [1, 1, 1, 1, 1, 1, 1, 1, 4], (8, 15, 16, 17, 18)),
    (("(" * 10 + "uint8,bytes" + ")" * 10,), [3], (0, 9, 10, 11, 12, 13)),
]


def big_name(types, lens):
    nm = ",".join(types)
    return "big %s/%s" % (nm if len(nm) < 60 else nm[:40] + "..(%d)" % len(nm), lens)
