"""C18: copies of a registry are independent."""
import copy

from eth_abi.codec import ABICodec
from eth_abi.registry import ABIRegistry, registry as default, registry_packed

from props import common, ref
from props.regmodel import Model, World, apply, look, ops
from sx.api import Case

INFO = dict(
    bounds="Every history: up to two registrations, a copy (copy(), copy.copy or copy.deepcopy), "
           "two or three operations each on the original, the copy or a copy of the copy, with "
           "lookups before any step or not; names and predicates as in C17.  The standard "
           "registries: one operation on either side.  One deepcopy of a list, dict, codec or "
           "object that holds two registries.",
    outside="Longer histories, more copies.",
    assumptions=common.ASSUMPTIONS)

HOW = [lambda r: r.copy(), copy.copy, copy.deepcopy]


def pair(S, before, after, kind, again):
    w = World(S)
    r, m = ABIRegistry(), Model()
    sides = "ed"
    n = 0
    for i, choices in enumerate(before):
        apply(S, w, r, m, S.choice("b%d" % i, choices), n, kind)
        n += 1
    if S.bool("lookb"):
        look(S, w, r, m, kind, sides=sides)
    how = S.choice("how", HOW)
    rs = [(r, m), (how(r), m.copy())]
    if again:
        rs.append((how(rs[1][0]), m.copy()))
    for i, choices in enumerate(after):
        if S.bool("look%d" % i):
            for q, qm in rs:
                look(S, w, q, qm, kind, sides=sides)
        q, qm = S.choice("on%d" % i, rs)
        apply(S, w, q, qm, S.choice("op%d" % i, choices), n, kind)
        n += 1
    for q, qm in rs:
        look(S, w, q, qm, kind, sides=sides)
    S.cover("done")


class Holder:
    def __init__(self, *rs):
        self.codecs = [ABICodec(r) for r in rs]


# what holds two registries, and how to get at them; one deepcopy copies both
HELD = [
    (lambda a, b: [a, b], lambda h: h),
    (lambda a, b: {"a": a, "b": (b,)}, lambda h: (h["a"], h["b"][0])),
    (lambda a, b: (ABICodec(a), ABICodec(b)), lambda h: [c._registry for c in h]),
    (Holder, lambda h: [c._registry for c in h.codecs]),
]


def held(S, choices, kind, same):
    """one deepcopy of something that holds two registries copies each of them"""
    w = World(S)
    r1, m1 = ABIRegistry(), Model()
    apply(S, w, r1, m1, S.choice("b0", choices), 0, kind)
    r2, m2 = (r1.copy(), m1.copy()) if same else (ABIRegistry(), Model())
    apply(S, w, r2, m2, S.choice("b1", choices), 1, kind)
    mk, get = S.choice("held", HELD)
    c1, c2 = get(copy.deepcopy(mk(r1, r2)))
    rs = [(r1, m1), (r2, m2), (c1, m1.copy()), (c2, m2.copy())]
    for q, qm in rs:
        look(S, w, q, qm, kind, sides="ed")
    q, qm = S.choice("on", rs)
    apply(S, w, q, qm, S.choice("op", choices), 2, kind)
    for q, qm in rs:
        look(S, w, q, qm, kind, sides="ed")
    S.cover("done")


def e_word(n):
    return lambda v: ref.word(n)


def d_word(n):
    def f(stream):
        stream.read(32)
        return n
    return f


TYPES = {"uint8": 1, "uint8[]": [1, 2], "(bool,uint8)": (True, 1), "string": "a",
         "(bytes,uint8[2])[]": [(b"x", [1, 2])], "bytes3": b"abc"}


def results(c, packed):
    out = []
    for t, v in TYPES.items():
        k, x = ref.outcome(c.encode, [t], [v])
        out.append((k, x if k == "ok" else type(x).__name__))
        out.append(ref.outcome(c.is_encodable_type, t))
        if not packed:
            data = ref.enc_seq([ref.T(t)], [abstract(t, v)])
            for strict in (True, False):
                k, x = ref.outcome(c.decode, [t], data, strict=strict)
                out.append((k, x if k == "ok" else type(x).__name__))
    return out


def abstract(t, v):
    return {"string": b"a"}.get(t, v)


def standard(S, packed, use_first):
    """changing one of two standard registries does not change what the other codes"""
    a = registry_packed if packed else default
    b = S.choice("how", HOW)(a)
    if S.bool("swap"):
        a, b = b, a
    ca, cb = ABICodec(a), ABICodec(b)
    if use_first:
        x = results(ca, packed)
        if S.bool("useb"):
            S.check(S.eq(results(cb, packed), x), "a copy resolves differently")
    else:
        x = results(ABICodec((registry_packed if packed else default).copy()), packed)
    label = S.choice("label", ["uint", "string", "has_arrlist", "is_base_tuple", "bytes<M>"])
    a.unregister_encoder(label)
    if not packed:
        a.unregister_decoder(label)
    S.check(S.eq(results(cb, packed), x), "unregistering on one changes the other")
    if S.bool("again"):
        y = results(ca, packed)
        S.check(y != x, "unregistering has no effect")
        S.check(S.eq(results(cb, packed), x), "looking up on one changes the other")
    pred = "uint8" if label == "uint" else lambda t: t == "uint99"
    a.register_encoder(pred, e_word(77), **({} if label == "uint" else {"label": label}))
    if not packed:
        a.register_decoder(pred, d_word(77), **({} if label == "uint" else {"label": label}))
    if S.bool("more"):
        y = results(ca, packed)
    S.check(S.eq(results(cb, packed), x), "registering on one changes the other")
    if label == "uint":
        S.check(S.eq(ca.encode(["uint8[]"], [[1]])[-32:], ref.word(77)), "no effect")
    S.check(S.eq(cb.encode(["uint8"], [5]), b"\x05" if packed else ref.word(5)), "other coder")
    S.cover("done")


def cases(tier):
    out = []
    deep = tier == "thorough"
    small = [("r", "aa", None), ("r", 0, "L"), ("u", "aa", None), ("u", "L", None)]
    sm = small + [("re", 0, None), ("ue", 0, None), ("rd", "=aa", "L"), ("ud", "aa", None)]
    first = [("r", "aa", None), ("r", 0, "L"), ("re", 1, "aa"), ("rd", "=aa", "L")]
    for kind in ("fn", "class", "instance"):
        for i, f in enumerate(first):
            if kind != "fn" and i > 1 and not deep:
                continue
            out.append(Case("%s, %s, copy, one operation" % (kind, f[:2]), pair, [[f]], [sm], kind,
                            False, covers=("done",), budget=80))
            if kind == "fn" or deep:
                out.append(Case("%s, %s, copy, two operations" % (kind, f[:2]), pair, [[f]],
                                [sm if deep else small,
                                 small if deep or f[0] == "r" else small[::2]], kind, False, covers=("done",),
                                budget=90))
                out.append(Case("%s, %s, two copies" % (kind, f[:2]), pair, [[f]],
                                [sm if deep else small], kind, True, covers=("done",), budget=80))
            if deep:
                out.append(Case("%s, %s, any, copy, two operations" % (kind, f[:2]), pair,
                                [[f], small], [small, small], kind, False, covers=("done",),
                                budget=90))
                out.append(Case("%s, %s, two copies, two operations" % (kind, f[:2]), pair,
                                [[f]], [small, small], kind, True, covers=("done",), budget=90))
    out.append(Case("copy of an empty registry", pair, [], [sm, small], "fn", deep,
                    covers=("done",), budget=80))
    for same in (False, True):
        out.append(Case("two registries in one deepcopy%s" % (", one a copy" if same else ""),
                        held, sm if deep else small, "fn", same, covers=("done",), budget=80))
    for p in (False, True):
        for u in (False, True):
            out.append(Case("standard registry%s%s" % (" packed" if p else "",
                                                       ", used before" if u else ""),
                            standard, p, u, covers=("done",)))
    return out
