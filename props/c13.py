"""C13: parsing accepts exactly the type grammar and prints back the same string."""
from eth_abi.exceptions import ParseError
from eth_abi.grammar import ABIType, BasicType, TupleType, parse

from props import common, ref
from sx.api import Case

INFO = dict(
    bounds="Every string of up to 6 characters (any code point) and, inside the listed frames "
           "(e.g. '(' ... ')', 'uint' ... '[]'), every infill of 3 or 4 characters.",
    outside="Longer arbitrary strings; numbers of more than 20 digits.",
    assumptions=common.ASSUMPTIONS)


class Bad(Exception):
    pass


def isletter(c):
    return "a" <= c <= "z" or "A" <= c <= "Z"


def isdigit(c):
    return "0" <= c <= "9"


def r_type(s, i):
    """(tree, end) of the longest type at i"""
    n = len(s)
    if i >= n:
        raise Bad()
    if s[i] == "(":
        i += 1
        comps = []
        while True:
            c, i = r_type(s, i)
            comps.append(c)
            if i >= n:
                raise Bad()
            if s[i] == ",":
                i += 1
                continue
            if s[i] == ")":
                i += 1
                break
            raise Bad()
        head = ("tuple", tuple(comps))
    else:
        j = i
        while j < n and isletter(s[j]):
            j += 1
        if j == i:
            raise Bad()
        base = s[i:j]
        i = j
        sub = None
        a, i = r_num(s, i)
        if a is not None:
            sub = a
            if i < n and s[i] == "x":
                b, k = r_num(s, i + 1)
                if b is not None:
                    sub = (a, b)
                    i = k
        head = ("basic", base, sub)
    dims = []
    while i < n and s[i] == "[":
        a, k = r_num(s, i + 1)
        if k < n and s[k] == "]":
            dims.append(() if a is None else (a,))
            i = k + 1
        else:
            break
    return head + (tuple(dims) or None,), i


def r_num(s, i):
    """(value or None, end) of a number without leading zeros at i"""
    n = len(s)
    if i >= n or not ("1" <= s[i] <= "9"):
        return None, i
    j = i
    while j < n and isdigit(s[j]):
        j += 1
    return int(s[i:j]), j


def reference(s):
    try:
        t, i = r_type(s, 0)
    except Bad:
        return None
    return t if i == len(s) else None


def same_tree(S, got, want):
    """the parsed type has the structure written in the string"""
    S.check(isinstance(got, ABIType), "not an ABIType")
    dims = want[-1]
    S.check(got.is_array is (dims is not None), "is_array")
    if want[0] == "basic":
        S.check(isinstance(got, BasicType), "not a BasicType")
        S.check(S.eq(got.base, want[1]), "base")
        S.check(S.eq(got.sub, want[2]), "suffix")
    else:
        S.check(isinstance(got, TupleType), "not a TupleType")
        S.check(len(got.components) == len(want[1]), "number of components")
        for g, w in zip(got.components, want[1]):
            same_tree(S, g, w)
    if dims is None:
        S.check(got.arrlist is None, "dimensions")
        kind, e = ref.outcome(lambda: got.item_type)
        S.check(kind == "err" and isinstance(e, ValueError), "item_type of a non-array")
    else:
        S.check(S.eq(got.arrlist, dims), "dimensions")
        same_tree(S, got.item_type, want[:-1] + (dims[:-1] or None,))


def parsing(S, pre, n, post, ranges):
    s = S.str("s", n, ranges)
    text = pre + s + post
    kind, got = ref.outcome(parse, text)
    want = reference(text)
    if kind == "ok":
        S.check(want is not None, "accepted a string outside the grammar")
        same_tree(S, got, want)
        S.check(S.eq(got.to_type_str(), text), "prints back another string")
        S.observe("type", got.to_type_str())
        S.cover("accepted")
    else:
        S.check(want is None, "rejected a type string (%s)" % type(got).__name__)
        S.check(isinstance(got, (ParseError, ValueError)), "raised " + type(got).__name__)
        S.observe("error", type(got).__name__)
        S.cover("rejected")


def first(S, ranges, n):
    parsing(S, S.str("c", 1, ranges), n, "", ANY)


def not_text(S):
    v = S.choice("v", [b"uint8", bytearray(b"uint8"), None, 5, ("uint8",), ["uint8"], 1.5, True])
    kind, got = ref.outcome(parse, v)
    S.check(kind == "err", "parsed something that is not a string")
    S.cover("rejected")


ANY = [(0, 0x10FFFF)]
DIGITS = [(48, 57)]
DIM = [(48, 57), (91, 91), (93, 93)]
PUNCT = [(40, 41), (44, 44), (97, 97)]
PUNCT2 = [(40, 41), (44, 44), (97, 97), (91, 91), (93, 93), (49, 49)]
FRAMES = [
    ("(", 4, "", ANY), ("(", 4, ")", ANY), ("(a", 4, ")", ANY), ("((", 3, "))", ANY),
    ("a", 5, "", ANY), ("a1", 4, "", ANY), ("a1x", 4, "", ANY), ("uint", 4, "", ANY),
    ("uint8", 4, "", ANY), ("uint8[", 4, "", ANY), ("uint8[", 3, "]", ANY),
    ("uint8[2][", 3, "]", ANY), ("uint8[][", 3, "]", ANY),
    ("fixed128", 4, "", ANY), ("fixed128x", 3, "[]", ANY), ("ufixed", 3, "x18", ANY),
    ("(uint8,", 3, ")", ANY), ("(a,b)[", 3, "]", ANY), ("(a,b)", 4, "", ANY),
    ("a[1" + "0" * 8, 2, "]", ANY), ("a" + "9" * 20, 2, "", ANY), ("a" + "1" * 40, 2, "x1", ANY),
    ("a1x" + "1" * 17, 2, "", ANY), ("a[" + "8" * 77, 2, "]", ANY), ("a[1" + "0" * 5, 6, "]", DIGITS),
    ("abcdefghijklmnopqrstuvwxyzabcdefg", 2, "[]", ANY),
    ("a" + "[]" * 6, 3, "", ANY), ("a[1][2][3][4][5][6][7][8", 2, "]", ANY),
    ("(a)" + "[]" * 9, 2, "", ANY), ("(" * 9 + "a", 2, ")" * 9, ANY),
    ("(" + "a," * 17, 2, ")", ANY), ("(" + "(a),b[]," * 6, 2, ")[2]", ANY),
    ("(a", 3, ",b[2])[]", ANY), ("((a),", 3, ",c)", ANY), ("a[]", 4, "", ANY),
    ("(a[", 3, "],b)", ANY), ("(bytes,(a", 3, ")[2])", ANY), ("", 3, "8[3]", ANY),
    ("", 3, ")", ANY), ("", 2, "uint8", ANY), ("", 3, "(a)", ANY), ("", 3, "[]", ANY),
    ("a", 6, "", DIGITS), ("a[", 6, "]", DIGITS), ("a1x", 6, "", DIGITS), ("a", 3, "x123", DIGITS),
    ("(a,b)[", 5, "]", DIGITS), ("a1", 9, "", DIGITS),
    ("a", 7, "", DIM), ("(a)", 6, "", DIM), ("a1", 6, "]", DIM),
    ("(", 6, ")", PUNCT), ("", 7, "", PUNCT), ("(a,", 5, ")[]", PUNCT),
    ("(", 5, "", PUNCT2), ("", 6, "", PUNCT2), ("(a[1]", 5, "]", PUNCT2),
]
DEEPER = [
    ("", 6, "", ANY), ("(", 5, "", ANY), ("(", 5, ")", ANY), ("a", 6, "", ANY),
    ("uint", 5, "", ANY), ("uint8[", 5, "", ANY), ("(uint8,", 5, ")", ANY), ("", 5, ")", ANY),
    ("fixed", 5, "x18", ANY), ("", 9, "", PUNCT), ("", 8, "", PUNCT2), ("a", 10, "", DIM),
    ("a1", 15, "", DIGITS), ("a[1", 15, "]", DIGITS), ("(a,b)[][", 5, "]", ANY),
]


def cases(tier):
    out = [Case("not a string", not_text, covers=("rejected",))]
    for pre, ranges in (("", [(97, 122), (65, 90)]), ("", [(0, 64), (91, 96), (123, 0x10FFFF)])):
        out.append(Case("6 characters, first %s" % ("a letter" if ranges[0][0] == 97 else "other"),
                        first, ranges, 5, budget=200))
    out.append(Case("5 characters", parsing, "", 5, "", ANY, budget=200))
    for pre, n, post, ranges in FRAMES + (DEEPER if tier == "thorough" else []):
        nm = "%r %d x %s %r" % (pre, n, {id(ANY): "any", id(DIGITS): "digits", id(DIM): "dim",
                                         id(PUNCT): "punctuation"}.get(id(ranges), "symbols"),
                                post)
        out.append(Case(nm, parsing, pre, n, post, ranges, budget=120))
    for n in range(0, 5):
        out.append(Case("%d characters" % n, parsing, "", n, "", ANY))
    return out
