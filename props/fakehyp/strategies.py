"""Descriptions of hypothesis strategies.  draw(S, name, plan) gives a symbolic element of the
described set; reach(S, cands) the set of elements, among the candidates, that it can produce."""
import decimal
import fractions


class Unknown(Exception):
    """the strategy uses something this stand-in does not describe"""


class SearchStrategy:
    def map(self, f):
        return Mapped(self, f)

    def filter(self, f):
        return Filtered(self, f)

    def flatmap(self, f):
        return FlatMapped(self, f)

    def __or__(self, other):
        return OneOf([self, other])

    def example(self):
        raise Unknown("example")

    def validate(self):
        return None


class Mapped(SearchStrategy):
    def __init__(self, base, f):
        self.base = base
        self.f = f

    def draw(self, S, name, plan):
        return self.f(self.base.draw(S, name, plan))

    def reach(self, S, cands):
        return [(c, self.f(v)) for c, v in self.base.reach(S, cands)]


class Filtered(SearchStrategy):
    def __init__(self, base, f):
        self.base = base
        self.f = f

    def draw(self, S, name, plan):
        v = self.base.draw(S, name, plan)
        if not self.f(v):
            S.assume(False)
        return v

    def reach(self, S, cands):
        return [(S.both(c, self.f(v)), v) for c, v in self.base.reach(S, cands)]


class FlatMapped(SearchStrategy):
    def __init__(self, base, f):
        self.base = base
        self.f = f

    def draw(self, S, name, plan):
        return self.f(self.base.draw(S, name + "b", plan)).draw(S, name, plan)

    def reach(self, S, cands):
        raise Unknown("flatmap")


class OneOf(SearchStrategy):
    def __init__(self, parts):
        self.parts = list(parts)

    def draw(self, S, name, plan):
        return S.choice(name + "_of", self.parts).draw(S, name, plan)

    def reach(self, S, cands):
        return [r for p in self.parts for r in p.reach(S, cands)]


class Just(SearchStrategy):
    def __init__(self, v):
        self.v = v

    def draw(self, S, name, plan):
        return self.v

    def reach(self, S, cands):
        return [(True, self.v)]


class Integers(SearchStrategy):
    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi

    def draw(self, S, name, plan):
        lo = -2 ** 300 if self.lo is None else self.lo
        hi = 2 ** 300 if self.hi is None else self.hi
        return S.int(name, lo, hi)

    def reach(self, S, cands):
        out = []
        for v in cands:
            if isinstance(v, int) and not isinstance(v, bool):
                out.append((S.both(self.lo is None or v >= self.lo,
                                   self.hi is None or v <= self.hi), v))
        return out


class Booleans(SearchStrategy):
    def draw(self, S, name, plan):
        return S.bool(name)

    def reach(self, S, cands):
        return [(True, v) for v in cands if isinstance(v, bool)]


class Decimals(SearchStrategy):
    def __init__(self, lo, hi, nan, inf, places):
        self.lo, self.hi, self.nan, self.inf, self.places = lo, hi, nan, inf, places

    def _range(self, p):
        """coefficients of values with exponent -p"""
        lo = -10 ** 100 if self.lo is None else ceil(fractions.Fraction(self.lo) * 10 ** p)
        hi = 10 ** 100 if self.hi is None else floor(fractions.Fraction(self.hi) * 10 ** p)
        return lo, hi

    def draw(self, S, name, plan):
        special = []
        if self.nan:
            special.append(decimal.Decimal("NaN"))
        if self.inf:
            special += [decimal.Decimal("Infinity"), decimal.Decimal("-Infinity")]
        if special:
            k = S.choice(name + "_special", [None] + special)
            if k is not None:
                return k
        if self.places is not None:
            p = self.places
        else:
            p = S.choice(name + "_places", [0, 1, 18, 81])
        lo, hi = self._range(p)
        return S.decimal(name, lo, hi, -p)

    def reach(self, S, cands):
        out = []
        for c in cands:
            if isinstance(c, tuple):
                coef, p = c
                if self.places is None or p == self.places:
                    lo, hi = self._range(p)
                    with decimal.localcontext(decimal.Context(prec=999)):
                        v = decimal.Decimal(coef) * decimal.Decimal((0, (1,), -p))
                    out.append((S.both(coef >= lo, coef <= hi), v))
        return out


def ceil(f):
    return -((-f.numerator) // f.denominator)


def floor(f):
    return f.numerator // f.denominator


class Binary(SearchStrategy):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def sizes(self):
        hi = self.hi
        out = [self.lo, self.lo + 1, self.lo + 33]
        if hi is not None:
            out = [n for n in out if n <= hi] + [hi if hi <= 70 else hi]
        return sorted(set(out))

    def draw(self, S, name, plan):
        n = S.choice(name + "_n", self.sizes())
        return S.bytes(name, n) if n <= 300 else S.bytes(name, 40) + b"\x01" * (n - 40)

    def reach(self, S, cands):
        return [(self.lo <= len(v) and (self.hi is None or len(v) <= self.hi), v)
                for v in cands if isinstance(v, bytes)]


class Opaque(SearchStrategy):
    """a strategy this stand-in has no description for"""

    def __init__(self, what):
        self.what = what

    def draw(self, S, name, plan):
        raise Unknown(self.what)

    def reach(self, S, cands):
        raise Unknown(self.what)


class Deferred(SearchStrategy):
    def __init__(self, f):
        self.f = f

    def draw(self, S, name, plan):
        return self.f().draw(S, name, plan)

    def reach(self, S, cands):
        return self.f().reach(S, cands)


class Composite(SearchStrategy):
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def draw(self, S, name, plan):
        count = [0]

        def one(strategy, label=None):
            count[0] += 1
            return strategy.draw(S, "%s_c%d" % (name, count[0]), plan)

        return self.f(one, *self.a, **self.k)

    def reach(self, S, cands):
        raise Unknown("composite")


class Characters(SearchStrategy):
    def __init__(self, lo, hi, surrogates, exact=None):
        self.lo, self.hi, self.surrogates = lo, hi, surrogates
        self.exact = exact

    def ranges(self):
        if self.exact is not None:
            return self.exact
        lo, hi = self.lo or 0, 0x10FFFF if self.hi is None else self.hi
        if self.surrogates:
            return [(lo, hi)]
        return [r for r in ((lo, min(hi, 0xD7FF)), (max(lo, 0xE000), hi)) if r[0] <= r[1]]

    def draw(self, S, name, plan):
        return S.str(name, 1, self.ranges())


class Text(SearchStrategy):
    def __init__(self, alphabet, lo, hi):
        self.alphabet, self.lo, self.hi = alphabet, lo, hi

    def draw(self, S, name, plan):
        ns = [n for n in (self.lo, self.lo + 1, self.lo + 2) if self.hi is None or n <= self.hi]
        n = S.choice(name + "_n", ns)
        a = self.alphabet
        if isinstance(a, Characters):
            return S.str(name, n, a.ranges())
        if isinstance(a, SearchStrategy):
            raise Unknown("alphabet")
        return S.str(name, n, [(ord(c), ord(c)) for c in a])

    def reach(self, S, cands):
        a = self.alphabet
        if isinstance(a, Characters):
            rs = a.ranges()
        elif isinstance(a, SearchStrategy):
            raise Unknown("alphabet")
        else:
            rs = [(ord(c), ord(c)) for c in a]
        out = []
        for v in cands:
            if isinstance(v, str):
                c = [self.lo <= len(v), self.hi is None or len(v) <= self.hi]
                for ch in v:
                    o = ord(ch)
                    c.append(S.either(*[S.both(o >= lo, o <= hi) for lo, hi in rs]))
                out.append((S.both(*c), v))
        return out


class Lists(SearchStrategy):
    def __init__(self, item, lo, hi, unique):
        self.item, self.lo, self.hi, self.unique = item, lo, hi, unique

    def draw(self, S, name, plan):
        if self.hi == self.lo:
            n = self.lo
        else:
            n = S.choice(name + "_n", [k for k in (self.lo, self.lo + 1, self.lo + 2)
                                       if self.hi is None or k <= self.hi])
        return [self.item.draw(S, "%s_%d" % (name, i), plan) for i in range(n)]


class Tuples(SearchStrategy):
    def __init__(self, parts):
        self.parts = parts

    def draw(self, S, name, plan):
        return tuple(p.draw(S, "%s_%d" % (name, i), plan) for i, p in enumerate(self.parts))


def integers(min_value=None, max_value=None):
    return Integers(min_value, max_value)


def booleans():
    return Booleans()


def decimals(min_value=None, max_value=None, *, allow_nan=None, allow_infinity=None, places=None):
    free = min_value is None and max_value is None
    nan = free if allow_nan is None else allow_nan
    inf = (min_value is None or max_value is None) if allow_infinity is None else allow_infinity
    return Decimals(min_value, max_value, nan, inf, places)


def binary(*, min_size=0, max_size=None):
    return Binary(min_size, max_size)


def characters(*, codec=None, min_codepoint=None, max_codepoint=None, categories=None,
               exclude_categories=None, blacklist_categories=None, whitelist_categories=None,
               exclude_characters=None, include_characters=None, **kw):
    cats = categories if categories is not None else whitelist_categories
    ex = exclude_categories if exclude_categories is not None else blacklist_categories
    if kw:
        return Opaque("characters")
    if cats is not None or exclude_characters or include_characters or codec is not None \
            or (ex is not None and set(ex) - {"Cs"}):
        return Characters(None, None, None, _charset(
            codec, min_codepoint, max_codepoint, cats, ex, exclude_characters or "",
            include_characters or ""))
    return Characters(min_codepoint, max_codepoint, ex is not None and "Cs" not in ex)


def _charset(codec, lo, hi, cats, ex, without, extra):
    import unicodedata
    out = []
    if cats is None and ex is None:
        ex = () if codec is not None else ("Cs",)
    for cp in range(lo or 0, (0x10FFFF if hi is None else hi) + 1):
        c = chr(cp)
        k = unicodedata.category(c)
        ok = True
        if cats is not None:
            ok = k in cats or k[0] in cats
        if ex is not None and (k in ex or k[0] in ex):
            ok = False
        if ok and codec is not None:
            try:
                c.encode(codec)
            except UnicodeError:
                ok = False
        if (ok and c not in without) or c in extra:
            if out and out[-1][1] == cp - 1:
                out[-1][1] = cp
            else:
                out.append([cp, cp])
    for c in extra:
        if not any(a <= ord(c) <= b for a, b in out):
            out.append([ord(c), ord(c)])
    return [tuple(r) for r in sorted(out)]


def text(alphabet=None, *, min_size=0, max_size=None):
    return Text(Characters(None, None, False) if alphabet is None else alphabet, min_size,
                max_size)


def lists(elements, *, min_size=0, max_size=None, unique_by=None, unique=False):
    return Lists(elements, min_size, max_size, bool(unique or unique_by))


def tuples(*args):
    return Tuples(args)


def just(value):
    return Just(value)


def none():
    return Just(None)


def one_of(*args):
    if len(args) == 1 and not isinstance(args[0], SearchStrategy):
        args = tuple(args[0])
    return OneOf(args)


def sampled_from(elements):
    return OneOf([Just(e) for e in elements])


def builds(target, *args, **kwargs):
    if kwargs:
        return Opaque("builds")
    return Tuples(args).map(lambda t: target(*t))


def deferred(f):
    return Deferred(f)


def composite(f):
    def make(*a, **k):
        return Composite(f, a, k)

    return make


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return lambda *a, **k: Opaque(name)
