"""C17: a lookup reflects exactly the current registrations."""
from eth_abi.base import BaseCoder
from eth_abi.codec import ABICodec
from eth_abi.exceptions import MultipleEntriesFound, NoEntriesFound, ParseError
from eth_abi.grammar import parse
from eth_abi.registry import (ABIRegistry, BaseEquals, Equals, Predicate, has_arrlist,
                              is_base_tuple, registry as default)

from props import c13, c14, common, ref
from props.regmodel import (Model, Pred, Table, World, apply, coder, look, look_one, ops)
from sx.api import Case

INFO = dict(
    bounds="Every history of 3 to 5 operations (register, unregister by label, lookup string or "
           "equal predicate, with lookups of every type string before any step or not) over two "
           "lookup strings, an Equals predicate, two predicates with arbitrary (symbolic) "
           "matching behaviour and three labels; callables, coder classes and decoder "
           "instances.  Built-in predicates: every type string of a listed frame with up to 4 "
           "arbitrary characters.",
    outside="Longer histories, more names (names are only compared), concurrent use.",
    assumptions=common.ASSUMPTIONS)


def history(S, steps, kind, sides):
    w = World(S)
    r = ABIRegistry()
    model = Model()
    for i, choices in enumerate(steps):
        if i and S.bool("look%d" % i):
            look(S, w, r, model, kind, sides=sides)
        op = S.choice("op%d" % i, choices)
        apply(S, w, r, model, op, i, kind)
    look(S, w, r, model, kind, sides=sides)
    look(S, w, r, model, kind, sides=sides)
    S.cover("done")


def compound(S, steps, kind):
    """lookups of compound types see the current registration of their component"""
    w = World(S)
    r = default.copy()
    model = Model()
    types = ("aa", "aa[]", "(bool,aa[2])", "(bytes,(aa))[]")
    for i, choices in enumerate(steps):
        if i and S.bool("look%d" % i):
            both(S, w, r, model, types)
        op = S.choice("op%d" % i, choices)
        apply(S, w, r, model, op, 7000 + i, kind)
    both(S, w, r, model, types)
    S.cover("done")


W = ref.word
DATA = {
    "aa": (0, W(0), lambda n: n),
    "aa[]": ([0, 0], W(32) + W(2) + W(0) + W(0), lambda n: (n, n)),
    "(bool,aa[2])": ((True, [0, 0]), W(1) + W(0) + W(0), lambda n: (True, (n, n))),
    "(bytes,(aa))[]": ([(b"", (0,))], W(32) + W(1) + W(32) + W(64) + W(0) + W(0),
                       lambda n: ((b"", (n,)),)),
}


def both(S, w, r, model, types):
    c = ABICodec(r)
    for side in "ed":
        tags = (model.enc if side == "e" else model.dec).tags(w, "aa")
        for t in types:
            val, data, want = DATA[t]
            if side == "e":
                res, got = ref.outcome(c.encode, [t], [val])
            else:
                res, got = ref.outcome(c.decode, [t], data)
            if len(tags) == 1:
                S.check(res == "ok", "%s is not found" % t)
                if side == "e":
                    S.check(W(tags[0]) in got and len(got) >= len(data), "a stale encoder")
                else:
                    S.check(got == (want(tags[0]),), "a stale decoder")
            elif len(tags) == 0:
                S.check(res == "err" and isinstance(got, NoEntriesFound),
                        "no NoEntriesFound for " + t)
            else:
                S.check(res == "err" and isinstance(got, MultipleEntriesFound),
                        "no MultipleEntriesFound for " + t)


def behaves(S, steps):
    """what encode and decode do follows the registration in force at the time of the call"""
    r = default.copy()
    c = ABICodec(r)
    now = None
    types = ("aa", "aa[]", "(bool,aa)")
    for i in range(steps):
        if i == 0 or S.bool("use%d" % i):
            use(S, c, now, types)
        what = S.choice("op%d" % i, ["register", "unregister", "replace"])
        if what != "register" and now is not None:
            r.unregister("aa")
            now = None
        if what != "unregister" and now is None:
            now = i
            r.register("aa", enc_of(i), dec_of(i))
    use(S, c, now, types)
    S.cover("done")


def enc_of(i):
    return lambda v: ref.word(100 + i)


def dec_of(i):
    def f(stream):
        stream.read(32)
        return 100 + i
    return f


def use(S, c, now, types):
    v = {"aa": 0, "aa[]": [0, 0], "(bool,aa)": (True, 0)}
    d = {"aa": b"\x00" * 32, "aa[]": ref.word(32) + ref.word(1) + ref.word(0),
         "(bool,aa)": ref.word(1) + ref.word(0)}
    for t in types:
        S.check(c.is_encodable_type(t) is (now is not None), "is_encodable_type")
        k1, e = ref.outcome(c.encode, [t], [v[t]])
        k2, g = ref.outcome(c.decode, [t], d[t])
        if now is None:
            S.check(k1 == "err" and k2 == "err", "an unregistered type is coded")
            continue
        n = 100 + now
        S.check(k1 == "ok" and k2 == "ok", "a registered type is not coded")
        S.check(e.endswith(ref.word(n)), "encoded by another encoder")
        S.check(g == ({"aa": n, "aa[]": (n,), "(bool,aa)": (True, n)}[t],), "decoded by another")


def builtin(S, pre, n, post, ranges):
    """the predicates of the standard registrations match what their documentation says"""
    text = pre + S.str("s", n, ranges) + post
    tree = c13.reference(text)
    base = tree is not None and tree[0] == "basic" and tree[-1] is None
    got = has_arrlist(text)
    S.check(got is (tree is not None and tree[-1] is not None), "has_arrlist")
    got = is_base_tuple(text)
    S.check(got is (tree is not None and tree[0] == "tuple" and tree[-1] is None),
            "is_base_tuple")
    for name in ("uint", "bytes", "byte", "a"):
        eq = base and tree[1] == name
        sub = eq and tree[2] is not None
        if eq:
            S.cover("match")
        S.check(S.neg(S.neg(BaseEquals(name)(text))) is eq, "BaseEquals")
        S.check(S.neg(S.neg(BaseEquals(name, with_sub=True)(text))) is sub, "BaseEquals with_sub")
        S.check(S.neg(S.neg(BaseEquals(name, with_sub=False)(text))) is (eq and not sub),
                "BaseEquals without sub")
    S.check(S.eq(Equals(pre + "8" + post)(text), S.eq(text, pre + "8" + post)), "Equals")


def standard(S, pre, n, post, ranges):
    """Any type string is resolved by at most one standard registration"""
    text = pre + S.str("s", n, ranges) + post
    for get in (default.get_encoder, default.get_decoder):
        res, got = ref.outcome(get, text)
        if res == "err":
            S.check(not isinstance(got, MultipleEntriesFound), "two standard registrations match")
            S.check(isinstance(got, (NoEntriesFound, ParseError, ValueError)),
                    "raised " + type(got).__name__)
        else:
            S.cover("found")


def bad_lookup(S):
    """lookups that are neither callable nor text are refused without effect"""
    r = ABIRegistry()
    x = S.choice("x", [None, 5, b"aa", ("aa",), 1.5, True])
    for f, a in ((r.register_encoder, (x, len)), (r.register_decoder, (x, len)),
                 (r.register, (x, len, len)), (r.unregister_encoder, (x,)),
                 (r.unregister_decoder, (x,))):
        res, e = ref.outcome(f, *a)
        S.check(res == "err", "accepted")
    w = World(S)
    look(S, w, r, Model(), "fn")
    S.cover("done")


class Starts(Predicate):
    """a user's predicate with the same attributes as Equals"""
    __slots__ = ("value",)

    def __init__(self, value):
        self.value = value

    def __call__(self, t):
        return len(t) > len(self.value) and t[:len(self.value)] == self.value

    def __str__(self):
        return "starts with " + self.value


class Longer(Predicate):
    """a user's predicate with the same attributes as BaseEquals"""
    __slots__ = ("base", "with_sub")

    def __init__(self, base, with_sub=None):
        self.base = base
        self.with_sub = with_sub

    def __call__(self, t):
        return len(t) > 6

    def __str__(self):
        return "longer"


class Never(Equals):
    """a subclass of a built-in predicate"""
    __slots__ = ()

    def __call__(self, t):
        return False


def even(t):
    return len(t) % 2 == 0


def odd(t):
    return len(t) % 2 == 1


# what makes a lookup, what identifies it, and which of SEEN it matches
MENU = [
    (lambda: "aa", ("Equals", "aa"), ("aa",)),
    (lambda: Equals("aa"), ("Equals", "aa"), ("aa",)),
    (lambda: Equals("bb"), ("Equals", "bb"), ("bb",)),
    (lambda: Starts("aa"), ("Starts", "aa"), ("aa8", "aa8[2]")),
    (lambda: Never("aa"), ("Never", "aa"), ()),
    (lambda: BaseEquals("aa"), ("BaseEquals", "aa", None), ("aa", "aa8")),
    (lambda: BaseEquals("aa", with_sub=True), ("BaseEquals", "aa", True), ("aa8",)),
    (lambda: BaseEquals("aa", with_sub=False), ("BaseEquals", "aa", False), ("aa",)),
    (lambda: BaseEquals("bb"), ("BaseEquals", "bb", None), ("bb",)),
    (lambda: Longer("aa"), ("Longer", "aa", None), ("(aa,bb)",)),
    (lambda: even, ("even",), ("aa", "bb", "aa8[2]")),
    (lambda: odd, ("odd",), ("aa8", "(aa,bb)")),
    (lambda: has_arrlist, ("has_arrlist",), ("aa8[2]",)),
    (lambda: is_base_tuple, ("is_base_tuple",), ("(aa,bb)",)),
]
SEEN = ("aa", "bb", "aa8", "aa8[2]", "(aa,bb)")


def lookups(S, side, first):
    """every pair of lookups of different kinds: taken for the same exactly if they are"""
    r = ABIRegistry()
    reg, unreg, get = (r.register_encoder, r.unregister_encoder, r.get_encoder) if side == "e" \
        else (r.register_decoder, r.unregister_decoder, r.get_decoder)
    cur = {}
    f, g = coder("fn", side, 1), coder("fn", side, 2)
    mk, ident, match = MENU[first]
    reg(mk(), f)
    cur[ident] = (f, match)
    mk2, ident2, match2 = S.choice("second", MENU)
    res, e = ref.outcome(reg, mk2(), g)
    if ident == ident2:
        S.check(res == "err", "a duplicate lookup is accepted")
        S.cover("duplicate")
    else:
        S.check(res == "ok", "a different lookup is refused")
        cur[ident2] = (g, match2)
        S.check(not mk() == mk2(), "different lookups are equal")
    see(S, get, cur)
    what = S.choice("remove", [ident, ident2, None])
    if what is not None:
        m = mk if what == ident else mk2
        res, e = ref.outcome(unreg, m())
        S.check(res == "ok", "unregistering refused")
        del cur[what]
        see(S, get, cur)
        res, e = ref.outcome(unreg, m())
        S.check(res == "err", "unregistered twice")
        res, e = ref.outcome(reg, m(), f)
        S.check(res == "ok", "the lookup is not free again")
        cur[what] = (f, match if what == ident else match2)
        see(S, get, cur)
    if not isinstance(mk(), str):
        S.check(mk() == mk() and hash(mk()) == hash(mk()), "equal lookups differ")
    S.cover("done")


def named(S, side):
    """a lookup string names its registration, whatever label is given along with it"""
    r = ABIRegistry()
    reg, unreg, get = (r.register_encoder, r.unregister_encoder, r.get_encoder) if side == "e" \
        else (r.register_decoder, r.unregister_decoder, r.get_decoder)
    f, g, h = (coder("fn", side, i) for i in (1, 2, 3))
    first, second = S.choice("names", [("aa", "bb"), ("bb", "aa"), ("aa", "aa8")])
    label = S.choice("label", [None, "L", second, "uint"])
    reg(first, f, label=label)
    cur = {first: (f, (first,))}
    res, e = ref.outcome(reg, first, g, label="M")
    S.check(res == "err", "a duplicate lookup is accepted")
    see(S, get, cur)
    if label != second and S.bool("other"):
        reg(second, g, label=S.choice("label2", [None, "M"]))
        cur[second] = (g, (second,))
        see(S, get, cur)
    res, e = ref.outcome(unreg, first)
    S.check(res == "ok", "a lookup string does not name its registration")
    del cur[first]
    see(S, get, cur)
    res, e = ref.outcome(reg, first, h, label=S.choice("label3", [None, label]))
    S.check(res == "ok", "the lookup and its label are not free again")
    cur[first] = (h, (first,))
    see(S, get, cur)
    S.cover("done")


def see(S, get, cur):
    for t in SEEN:
        want = [c for c, m in cur.values() if t in m]
        res, got = ref.outcome(get, t)
        if len(want) == 1:
            S.check(res == "ok" and got is want[0], "another coder for " + t)
        else:
            S.check(res == "err" and isinstance(
                got, MultipleEntriesFound if want else NoEntriesFound), "wrong error for " + t)


ANY = c13.ANY


def cases(tier):
    out = [Case("bad lookups", bad_lookup, covers=("done",))]
    deep = tier == "thorough"
    for side in "ed":
        for i in range(len(MENU)):
            out.append(Case("%s lookup %d and any other" % (side, i), lookups, side, i,
                            covers=("done", "duplicate")))
    for side in "ed":
        out.append(Case("%s lookup strings with labels" % side, named, side, covers=("done",)))
    for side in "ed":
        R, U, A = ops([side], True, False), ops([side], False, True), ops([side])
        r, u, a = (ops([side], True, False, True), ops([side], False, True, True),
                   ops([side], small=True))
        few = [o for o in r if o[1:] in (("aa", None), (0, "L"), (1, "aa"))]
        for kind in ("fn", "class", "instance"):
            if kind == "instance" and side == "e":
                continue
            for i, first in enumerate(R):
                if not deep and (i % 4 if kind != "fn" else side == "d" and i % 2):
                    continue
                nm = "%s %s: %s%s, any, any" % (side, kind, first[1], "" if first[2] is None
                                                else " as " + first[2])
                steps = [[first], A, A] if deep else [[first], a, a] if kind == "fn" else \
                    [[first], u, a]
                out.append(Case(nm, history, steps, kind, side, covers=("done",), budget=90))
        for first in r if deep else few:
            if deep or side == "e":
                out.append(Case("%s: %s as %s, register, unregister, register" % (
                    side, first[1], first[2]), history,
                    [[first], r, u, r] if deep else [[first], few, u, few], "fn", side,
                    covers=("done",), budget=90))
            if deep:
                out.append(Case("%s: %s as %s, unregister, any, any" % (side, first[1], first[2]),
                                history, [[first], u, a, a], "fn", side,
                                covers=("done",), budget=90))
                out.append(Case("%s: %s as %s, any, any, any" % (side, first[1], first[2]),
                                history, [[first], A, A, a], "fn", side, covers=("done",),
                                budget=90))
                out.append(Case("%s: %s as %s, register, unregister, register, unregister" % (
                    side, first[1], first[2]), history, [[first], r, u, few, u], "fn", side,
                    covers=("done",), budget=90))
    both_ops = ops([""], small=True)
    mixed = [o for o in ops(["e", "d"], small=True) if o[1] in (0, "aa", "L")]
    for i, first in enumerate(mixed + both_ops):
        if not deep and i >= len(mixed) and first[1] in (1, "=aa"):
            continue
        if deep or i >= len(mixed):
            out.append(Case("both tables %d, one, both" % i, history, [[first], mixed, both_ops],
                            "fn", "ed", covers=("done",), budget=60))
            out.append(Case("both tables %d, both, one" % i, history, [[first], both_ops, mixed],
                            "fn", "ed", covers=("done",), budget=60))
        else:
            out.append(Case("both tables %d, both" % i, history, [[first], both_ops],
                            "fn", "ed", covers=("done",), budget=60))
    comp = [("r", "aa", None), ("u", "aa", None), ("re", 0, None), ("ue", 0, None),
            ("rd", "=aa", "L"), ("ud", "=aa", None), ("ud", "L", None), ("ue", "aa", None)]
    for k in ("fn", "static class"):
        for i, first in enumerate(comp):
            out.append(Case("compound types %s %d" % (k, i), compound,
                            [[first], comp, comp] if deep or i < 3 else [[first], comp], k,
                            covers=("done",), budget=60))
    out.append(Case("coding follows registrations", behaves, 4 if deep else 3, covers=("done",)))
    for pre, n, post in (("", 3, ""), ("uint", 2, ""), ("byte", 2, ""), ("bytes", 2, ""),
                         ("(uint8", 2, ""), ("(a", 2, ")"), ("a", 3, ""), ("uint8[", 2, "]"),
                         ("(a,b)", 3, ""), ("", 2, "bytes"), ("", 1, "uint8"), ("a", 1, "[2]")):
        out.append(Case("predicates %r %d %r" % (pre, n, post), builtin, pre, n, post, ANY))
        if deep:
            out.append(Case("predicates %r %d %r" % (pre, n + 1, post), builtin, pre, n + 1, post,
                            ANY))
    for pre, n, post in (("uint", 2, ""), ("byte", 2, ""), ("bytes", 2, ""), ("(uint8", 2, ")"),
                         ("strin", 2, ""), ("", 2, "int8"), ("function", 1, ""),
                         ("ufixed8x", 2, ""), ("address", 2, ""), ("(bool)", 2, "")):
        out.append(Case("standard %r %d %r" % (pre, n, post), standard, pre, n, post, ANY))
    return out
