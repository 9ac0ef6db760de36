"""Backtracking regular expression matcher over symbolic text (patterns from re or regex)."""
import re
import warnings

import z3

from .core import PathCut, engine
from .values import BV, SymStr, SymText, SymOpaque, concretize, cp_in, mkstr, is_sym, sx_not

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    try:
        from re import _parser as P, _constants as C
    except ImportError:  # pragma: no cover
        import sre_parse as P
        import sre_constants as C

_CACHE = {}


def _parse(pat):
    key = (pat.pattern, pat.flags)
    r = _CACHE.get(key)
    if r is None:
        fl = 0
        for nm in ("IGNORECASE", "ASCII", "MULTILINE", "DOTALL", "VERBOSE"):
            f = getattr(re, nm)
            if type(pat).__module__.startswith("_regex") or type(pat) is not re.Pattern:
                import regex
                on = pat.flags & getattr(regex, nm)
            else:
                on = pat.flags & f
            if on:
                fl |= f
        tree = P.parse(pat.pattern, fl)
        r = _CACHE[key] = (tree, fl | (tree.state.flags & (re.I | re.A | re.M | re.S)))
    return r


class Unsupported(Exception):
    pass


def _word(c, flags):
    if isinstance(c, int):
        return bool(re.match(r"\w", chr(c), re.ASCII if flags & re.ASCII else 0))
    if not flags & re.ASCII and engine().decide(z3.UGE(c, BV(128, 21))):
        engine().note_conc("unicode word class")
        v = engine().pick(c, lambda q: q.as_long())
        return _word(v, flags)
    return cp_in(c, [(48, 57), (65, 90), (95, 95), (97, 122)])


def _cat(cat, c, flags):
    n = str(cat)
    if n.endswith("DIGIT"):
        base = [(48, 57)]
        neg = "NOT" in n
    elif n.endswith("SPACE"):
        base = [(9, 13), (32, 32)]
        neg = "NOT" in n
    elif n.endswith("WORD"):
        r = _word(c, flags)
        return sx_not(r) if "NOT" in n else r
    else:
        raise Unsupported(n)
    if not flags & re.ASCII:
        if isinstance(c, int):
            if c > 127:
                r = bool(re.match(r"\d" if "DIGIT" in n else r"\s", chr(c)))
                return (not r) if neg else r
        elif engine().decide(z3.UGE(c, BV(128, 21))):
            engine().note_conc("unicode class")
            return _cat(cat, engine().pick(c, lambda q: q.as_long()), flags)
    r = cp_in(c, base)
    return sx_not(r) if neg else r


def _fold(ranges, flags):
    if not flags & re.IGNORECASE:
        return ranges
    out = list(ranges)
    for lo, hi in ranges:
        for a, b, d in ((65, 90, 32), (97, 122, -32)):
            x, y = max(lo, a), min(hi, b)
            if x <= y:
                out.append((x + d, y + d))
        if hi > 127 or (not flags & re.ASCII and any(
                lo <= q <= hi for q in (73, 105, 75, 107, 83, 115))):
            out.extend([(0x212A, 0x212A)] if lo <= 75 <= hi or lo <= 107 <= hi else [])
            out.extend([(0x17F, 0x17F)] if lo <= 83 <= hi or lo <= 115 <= hi else [])
            out.extend([(0x130, 0x131)] if lo <= 73 <= hi or lo <= 105 <= hi else [])
    return out


def _test(op, av, c, flags):
    if op is C.LITERAL:
        return cp_in(c, _fold([(av, av)], flags))
    if op is C.NOT_LITERAL:
        return sx_not(cp_in(c, _fold([(av, av)], flags)))
    if op is C.ANY:
        return True if flags & re.DOTALL else sx_not(cp_in(c, [(10, 10)]))
    if op is C.IN:
        neg = False
        ranges = []
        for o, v in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                ranges.append((v, v))
            elif o is C.RANGE:
                ranges.append(v)
            elif o is C.CATEGORY:
                if _cat(v, c, flags):
                    return not neg
            else:
                raise Unsupported(str(o))
        r = cp_in(c, _fold(ranges, flags))
        return sx_not(r) if neg else r
    raise Unsupported(str(op))


def _m(seq, i, text, pos, end, groups, flags, k):
    """Match seq[i:] at pos, then continuation k(pos, groups) -> result or None."""
    if i == len(seq):
        return k(pos, groups)
    op, av = seq[i]
    rest = lambda p, g: _m(seq, i + 1, text, p, end, g, flags, k)
    if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
        if pos < end and _test(op, av, text[pos], flags):
            return rest(pos + 1, groups)
        return None
    if op is C.BRANCH:
        for alt in av[1]:
            r = _m(list(alt), 0, text, pos, end, groups, flags, rest)
            if r is not None:
                return r
        return None
    if op is C.SUBPATTERN:
        gid, add, dele, sub = av
        fl = (flags | add) & ~dele

        def close(p, g):
            if gid is not None:
                g = dict(g)
                g[gid] = (pos, p)
            return rest(p, g)

        return _m(list(sub), 0, text, pos, end, groups, fl, close)
    if op in (C.MAX_REPEAT, C.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
        lo, hi, sub = av
        sub = list(sub)
        if str(op) == "POSSESSIVE_REPEAT":
            raise Unsupported("possessive")

        def rep(n, p, g, last):
            def more():
                if (hi is C.MAXREPEAT or n < hi) and p != last:
                    return _m(sub, 0, text, p, end, g, flags,
                              lambda q, g2: rep(n + 1, q, g2, p))
                return None

            if n < lo:
                return _m(sub, 0, text, p, end, g, flags,
                          lambda q, g2: rep(n + 1, q, g2, None))
            if op is C.MAX_REPEAT:
                r = more()
                return r if r is not None else rest(p, g)
            r = rest(p, g)
            return r if r is not None else more()

        return rep(0, pos, groups, None)
    if op is C.AT:
        n = str(av)
        if n in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            ok = pos == 0 or (n == "AT_BEGINNING" and flags & re.MULTILINE
                              and bool(cp_in(text[pos - 1], [(10, 10)])))
        elif n == "AT_END_STRING":
            ok = pos == end
        elif n == "AT_END":
            ok = pos == end or (pos == end - 1 and bool(cp_in(text[pos], [(10, 10)]))) or (
                flags & re.MULTILINE and bool(cp_in(text[pos], [(10, 10)])))
        elif n in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
            a = bool(pos > 0 and _word(text[pos - 1], flags))
            b = bool(pos < end and _word(text[pos], flags))
            ok = (a != b) == (n == "AT_BOUNDARY")
        else:
            raise Unsupported(n)
        return rest(pos, groups) if ok else None
    if op in (C.ASSERT, C.ASSERT_NOT):
        d, sub = av
        if d < 0:
            lo, hi = sub.getwidth()
            if lo != hi:
                raise Unsupported("lookbehind")
            s = pos - lo
            r = None if s < 0 else _m(list(sub), 0, text, s, end, groups, flags,
                                      lambda p, g: (p, g) if p == pos else None)
        else:
            r = _m(list(sub), 0, text, pos, end, groups, flags, lambda p, g: (p, g))
        if (r is not None) != (op is C.ASSERT):
            return None
        return rest(pos, r[1] if r is not None else groups)
    if op is C.GROUPREF:
        g = groups.get(av)
        if g is None:
            return None
        n = g[1] - g[0]
        from .values import cp_eq, conj
        if pos + n <= end and conj(cp_eq(text[g[0] + j], text[pos + j]) for j in range(n)):
            return rest(pos + n, groups)
        return None
    if str(op) == "ATOMIC_GROUP":
        r = _m(list(av), 0, text, pos, end, groups, flags, lambda p, g: (p, g))
        return None if r is None else rest(*r)
    raise Unsupported(str(op))


class SxMatch:
    def __init__(self, pat, s, start, end, groups):
        self.re = pat
        self.string = s
        self._g = dict(groups)
        self._g[0] = (start, end)
        self.pos = 0

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        return g

    def span(self, g=0):
        return self._g.get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            i = self._idx(g)
            if i > self.re.groups:
                raise IndexError("no such group")
            sp = self._g.get(i)
            r.append(None if sp is None else self.string[sp[0]:sp[1]])
        return r[0] if len(r) == 1 else tuple(r)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return tuple(self.group(i) if i in self._g else default
                     for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: (self.group(i) if i in self._g else default)
                for n, i in self.re.groupindex.items()}

    @property
    def lastindex(self):
        ks = [k for k in self._g if k]
        return max(ks) if ks else None

    def __bool__(self):
        return True


def _at(pat, s, pos, full):
    tree, flags = _parse(pat)
    text = s.c
    end = len(text)
    r = _m(list(tree), 0, text, pos, end, {}, flags,
           lambda p, g: ((p, g) if (not full or p == end) else None))
    return None if r is None else SxMatch(pat, s, pos, r[0], r[1])


def pattern_method(pat, name, a, k):
    a = list(a)
    si = 1 if name in ("sub", "subn") else 0
    if len(a) <= si:
        a.insert(si, k.pop("string"))
    s = a[si]
    if type(s) is SymOpaque:
        s = s.force()
    if type(s) is SymText:
        s = concretize(s)
    if not isinstance(s, str):
        raise TypeError("expected string or bytes-like object, got '%s'" % type(s).__name__)
    if type(s) is str and name not in ("sub", "subn"):
        return getattr(pat, name)(s, *[concretize(x) for x in a[1:]], **k)
    s = SymStr.of(s)
    try:
        if name in ("match", "fullmatch", "search"):
            pos = concretize(a[1]) if len(a) > 1 else k.get("pos", 0)
            if len(a) > 2:
                s = SymStr(s.c[: concretize(a[2])])
            if name != "search":
                return _at(pat, s, min(pos, len(s.c)), name == "fullmatch")
            for p in range(pos, len(s.c) + 1):
                m = _at(pat, s, p, False)
                if m is not None:
                    return m
            return None
        ms = []
        p = 0
        while p <= len(s.c):
            m = _at(pat, s, p, False)
            if m is None:
                p += 1
                continue
            ms.append(m)
            p = m.end() if m.end() > m.start() else p + 1
        if name == "finditer":
            return iter(ms)
        if name == "findall":
            return [m.groups() if pat.groups > 1 else m.group(1 if pat.groups else 0)
                    for m in ms]
        if name in ("sub", "subn"):
            repl = a[0]
            count = a[2] if len(a) > 2 else k.get("count", 0)
            from .models import str_concat, sx_call
            out = []
            last = 0
            n = 0
            for m in ms:
                if count and n >= count:
                    break
                out.append(mkstr(s.c[last:m.start()]))
                if isinstance(repl, str):
                    if is_sym(repl):
                        out.append(repl)
                    elif "\\" in repl:
                        for part in P.parse_template(repl, re.compile(pat.pattern)):
                            out.append(m.group(part) if isinstance(part, int) else part)
                    else:
                        out.append(repl)
                else:
                    out.append(sx_call(repl, m))
                last = m.end()
                n += 1
            out.append(mkstr(s.c[last:]))
            r = str_concat(out)
            return (r, n) if name == "subn" else r
        if name == "split":
            out, last = [], 0
            for m in ms:
                out.append(mkstr(s.c[last:m.start()]))
                out.extend(m.groups())
                last = m.end()
            out.append(mkstr(s.c[last:]))
            return out
    except Unsupported as e:
        engine().note_conc("regex feature %s" % e)
    engine().note_conc("regex %s" % name)
    a[si] = concretize(s)
    return getattr(pat, name)(*a, **k)
