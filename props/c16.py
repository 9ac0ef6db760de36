"""C16: static or dynamic classification is right and consistent."""
from eth_abi import decode, encode
from eth_abi.grammar import parse
from eth_abi.packed import encode_packed

from props import c13, c14, common, ref
from sx.api import Case

INFO = dict(
    bounds="Classification: every type string made of a listed frame and up to 5 arbitrary "
           "characters or up to 6 digits and brackets.  Layout: every nesting of depth up to 4 "
           "(arrays [], [1], [2], tuples of one or two components) over the leaves uint8, "
           "bytes3, bytes, string, chosen by solver variables; array lengths 0 to 2, fixed contents, a "
           "symbolic neighbour.",
    outside="Deeper nestings, wider tuples, larger dimensions than the infill can spell.",
    assumptions=common.ASSUMPTIONS)


def dyn_tree(t):
    """t: a tree of c13.reference"""
    dims = t[-1]
    if dims is not None:
        for d in dims:
            if len(d) == 0:
                return True
    if t[0] == "tuple":
        for c in t[1]:
            if dyn_tree(c):
                return True
        return False
    if t[1] == "string":
        return True
    return t[1] == "bytes" and t[2] is None


def classify(S, pre, n, post, ranges):
    """is_dynamic of the parsed type, for every infill of the frame that makes a legal type"""
    text = pre + S.str("s", n, ranges) + post
    tree = c13.reference(text)
    if tree is None or not c14.legal(tree):
        S.cover("other")
        return
    t = parse(text)
    want = dyn_tree(tree)
    S.check(t.is_dynamic is want, "is_dynamic of the parsed type")
    # the type is placed accordingly: a static type never has its first word read as an offset
    S.observe("dynamic", t.is_dynamic)
    for d in range(0 if tree[-1] is None else len(tree[-1])):
        t = t.item_type
        tree = tree[:-1] + (tree[-1][:-1] or None,)
        S.check(t.is_dynamic is dyn_tree(tree), "is_dynamic of the item type")
    if tree[0] == "tuple":
        for c, w in zip(t.components, tree[1]):
            S.check(c.is_dynamic is dyn_tree(w), "is_dynamic of a component")
    S.cover("dynamic" if want else "static")


LEAVES = ["uint8", "bytes", "string", "bytes3"]


def grow(S, name, depth, wide):
    """a type chosen by solver variables: (type string)"""
    k = S.choice(name + "k", ["leaf", "[]", "[2]", "tup1", "tup2", "[1]"]) if depth else "leaf"
    if k == "leaf":
        return S.choice(name + "l", LEAVES if wide else LEAVES[:2])
    if k == "tup1":
        return "(" + grow(S, name + "a", depth - 1, wide) + ")"
    if k == "tup2":
        return "(" + grow(S, name + "a", depth - 1, wide) + "," + \
            grow(S, name + "b", depth - 1 if wide else 0, False) + ")"
    return grow(S, name + "a", depth - 1, wide) + k


def layout(S, frame, depth, wide, lens):
    """A type of any nesting followed by a marker: static types take their words in the head and
    push the marker along, dynamic ones take one offset word."""
    typ = frame % grow(S, "t", depth, wide)
    t = ref.T(typ)
    u = ("bytesn", 32)
    absv = ref.sample(t, ref.Plan(lens))
    val = ref.to_py(t, absv)
    mark = S.bytes("mark", 32)
    parsed = parse(typ)
    S.check(parsed.is_dynamic is ref.dynamic(t), "is_dynamic of the parsed type")
    data = encode([typ, "bytes32"], [val, mark])
    at = 32 * ref.head_words(t)
    S.check(len(data) >= at + 32, "encoding too short")
    S.check(S.eq(data[at:at + 32], mark), "the type takes another number of head bytes")
    if ref.dynamic(t):
        S.check(S.eq(data[:32], ref.word(64)), "a dynamic type is not placed behind an offset")
        S.cover("dynamic")
    else:
        S.check(len(data) == at + 32, "a static type takes more than its head")
        S.cover("static")
    want = ref.enc_seq([t, u], [absv, mark])
    S.check(S.eq(data, want), "layout differs")
    got = decode([typ, "bytes32"], want)
    S.check(S.eq(got, (ref.to_py(t, absv), mark)), "decode expects another layout")
    got = decode([typ, "bytes32"], want, strict=False)
    S.check(S.eq(got, (ref.to_py(t, absv), mark)), "decode (not strict) expects another layout")
    # and the same as a component of a tuple and as the item of an array
    inner = "(%s,bytes32)" % typ
    tt = ("tup", (t, u))
    got = decode([inner, "bool"], ref.enc_seq([tt, ("bool",)], [[absv, mark], True]))
    S.check(S.eq(got, ((ref.to_py(t, absv), mark), True)), "decode of a tuple with the type")
    S.check(S.eq(encode([inner, "bool"], [(val, mark), True]),
                 ref.enc_seq([tt, ("bool",)], [[absv, mark], True])), "encode of a tuple")
    arr = typ + "[2]"
    ta = ("arr", t, 2)
    wa = ref.enc_seq([ta, u], [[absv, absv], mark])
    S.check(S.eq(encode([arr, "bytes32"], [[val, val], mark]), wa), "encode of an array")
    p = ref.to_py(t, absv)
    S.check(S.eq(decode([arr, "bytes32"], wa), ((p, p), mark)), "decode of an array")
    S.observe("type", typ)


ANY = c13.ANY
DIM = c13.DIM


def cases(tier):
    out = []
    deep = tier == "thorough"
    frames = [("uint8[", "]"), ("bytes[", "]"), ("string", ""), ("bytes", ""), ("(bytes", ")"),
              ("(uint8,", ")"), ("(uint8,bytes", ")[2]"), ("(uint8,(bool,", "))"),
              ("uint8[2][", "]"), ("uint8[][", "]"), ("(uint8[", "],bool)"), ("", "[2]"),
              ("", "8"), ("(", "[2],bool)[3]"), ("((uint8[2],", "),bool)[2][3]"), ("strin", "")]
    for pre, post in frames:
        n = 4 if deep else 3
        out.append(Case("classify %r %d %r" % (pre, n, post), classify, pre, n, post, ANY,
                        budget=90))
        for n in (1, 2):
            out.append(Case("classify %r %d %r" % (pre, n, post), classify, pre, n, post, ANY))
    for pre, post in (("uint8", ""), ("bytes", ""), ("(bool,int8)", ""), ("(bool,string)", ""),
                      ("string", "]"), ("(uint8,bytes", ",bool)"), ("(uint8,bytes1", ",bool)")):
        n = 7 if deep else 6
        out.append(Case("dimensions %r %d %r" % (pre, n, post), classify, pre, n, post, DIM,
                        budget=90))
        out.append(Case("dimensions %r %d %r" % (pre, n - 1, post), classify, pre, n - 1, post,
                        DIM, budget=90))
    for pre, post in (("uint8[", "]" + "[1]" * 4), ("uint8[", "]" + "[1]" * 9),
                      ("uint8" + "[1]" * 6 + "[", "]"), ("(" + "uint8," * 17 + "byte", ",bool)"),
                      ("(" * 8 + "uint8,bytes", ")" * 8), ("(bool,(uint8[", "])[1][1][1])[2]"),
                      ("(string" + "[1]" * 5 + "[", "],bool)[1][1]"),
                      ("uint8[" + "1" * 12, "]"), ("bytes[1][1][1][", "][1][1]")):
        out.append(Case("classify %r 2 %r" % (pre, post), classify, pre, 2, post, ANY, budget=90))
        out.append(Case("classify %r 0 %r" % (pre, post), classify, pre, 0, post, ANY))
    for f in ("%s[1][1][1][1]", "(((((%s)))))", "(bool,(bool,(bool,(bool,%s))))",
              "%s[][1][1][1]", "((%s)[1],bool)[1][1]"):
        out.append(Case("nesting " + f, layout, f, 1, True, [1], budget=100))
    for f in ("%s", "%s[]", "%s[2]", "%s[1]", "(%s)", "(%s,uint8)", "(%s,bytes)", "(bytes3,%s)"):
        for lens in ([1, 2, 0], [0, 1], [2, 1]):
            if not deep and lens == [0, 1] and f != "%s":
                continue
            out.append(Case("nesting %s %s" % (f, lens), layout, f, 3 if deep else 2, True, lens,
                            budget=100))
    for f in ("%s", "%s[]", "%s[2]", "(%s,uint8)"):
        out.append(Case("deep nesting " + f, layout, f, 4 if deep else 3, False, [1, 2],
                        budget=100))
    return out
