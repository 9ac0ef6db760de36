"""What a harness sees: the same calls work symbolically and, for replay, concretely."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    try:
        with open(p) as f:
            d = json.load(f)
    except FileNotFoundError:
        return {}
    return {e["id"]: e for e in d.get("findings", []) if e.get("status") == "known"}


def cut(data, pos, n):
    """data[pos:pos+n] where 0 <= pos and pos + n <= len(data) have been established."""
    sub = getattr(type(data), "sub", None)
    if sub is not None:
        return b"" if type(n) is int and n == 0 else sub(data, pos, n)
    from . import core
    if core.engine() is not None:
        from . import values as V
        return V.SymBytes.of(data).sub(pos, n)
    return data[pos:pos + n]


class Violation(BaseException):
    def __init__(self, what):
        super().__init__(what)
        self.what = what


class Unreplayable(BaseException):
    """inputs do not satisfy the harness assumptions"""


class Case:
    def __init__(self, name, fn, *args, budget=60.0, covers=(), max_paths=None, **kw):
        self.name = name
        self.fn = fn
        self.args = args
        self.kw = kw
        self.budget = budget
        self.covers = tuple(covers)
        self.max_paths = max_paths


class ConcreteCtx:
    """Replay: inputs come from a dict; nothing symbolic."""

    symbolic = False

    def __init__(self, inputs, known=None):
        self.inputs = inputs
        self.observed = []
        self.covered = set()
        self.known_ids = load_known() if known is None else known
        self.known_hit = {}

    def _in(self, name):
        if name not in self.inputs:
            raise Unreplayable("no input %s" % name)
        return self.inputs[name]

    def int(self, name, lo, hi):
        return self._in(name)

    def bool(self, name):
        return self._in(name)

    def euclid(self, q, p, r):
        """q * p + r where 0 <= r < p (p constant)"""
        return q * p + r

    def bytes(self, name, n, py=bytes):
        return self._in(name)

    def buffer(self, name, n, lo=None):
        return self._in(name)

    def payload(self, name, data):
        """data, in a form that is cheap to read at symbolic places"""
        return bytes(data)

    def text(self, name, nbytes):
        return self._in(name)

    def str(self, name, n, ranges):
        return self._in(name)

    def decimal(self, name, lo, hi, exp):
        return self._in(name)

    def choice(self, name, options):
        return options[self._in(name)]

    def assume(self, c):
        if not c:
            raise Unreplayable("assumption")

    def check(self, c, what):
        if not c:
            raise Violation(what)

    def known(self, fid, c, what):
        if not c:
            if fid in self.known_ids:
                self.known_hit[fid] = what
            else:
                raise Violation(what)

    def cover(self, name):
        self.covered.add(name)

    def observe(self, name, v):
        self.observed.append((name, v))

    def eq(self, a, b):
        return deep_eq_concrete(a, b)

    def both(self, *cs):
        return all(cs)

    def either(self, *cs):
        return any(cs)

    def neg(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b


def deep_eq_concrete(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(
            deep_eq_concrete(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and bool(a == b)


def make_symbolic_ctx(eng, known=None):
    import z3
    from . import values as V

    class SymbolicCtx:
        symbolic = True

        def __init__(self):
            self.observed = []
            self.known_ids = load_known() if known is None else known
            self.reset()

        def reset(self):
            self.observed = []

        def _reg(self, name, v, render=None):
            if name in eng.inputs:
                raise RuntimeError("duplicate input %s" % name)
            eng.inputs[name] = render or (lambda m, v=v: V.ev(m, v))

        def int(self, name, lo, hi):
            if lo == hi:
                eng.inputs[name] = lambda m: lo
                return lo
            w = V.width(lo, hi)
            t = z3.BitVec(name, w)
            v = V.SymInt(t, lo, hi)
            if not (lo == -(1 << (w - 1)) and hi == (1 << (w - 1)) - 1):
                eng.assume(z3.And(t >= lo, t <= hi))
            self._reg(name, v)
            return v

        def euclid(self, q, p, r):
            return V.euclid(q, p, r) if isinstance(q, V.SymInt) else q * p + r

        def bool(self, name):
            v = V.SymBool(z3.Bool(name))
            self._reg(name, v)
            return v

        def bytes(self, name, n, py=bytes):
            if n == 0:
                eng.inputs[name] = lambda m: py()
                return py()
            v = V.SymBytes([z3.BitVec("%s_%d" % (name, i), 8) for i in range(n)], py)
            self._reg(name, v, lambda m: py(V.ev(m, V.SymBytes(list(items)))))
            items = tuple(v.items)
            return v

        def buffer(self, name, n, lo=None):
            base = V.ArrayBase(name, n)
            if lo is None or lo == n:
                if n == 0:
                    eng.inputs[name] = lambda m: b""
                    return b""
                v = V.SymBytes.view(base, 0, n)
            else:
                ln = self.int(name + "_len", lo, n)
                v = V.SymBytes.view(base, 0, ln)
            eng.inputs[name] = lambda m: V.ev(m, V.SymBytes.view(base, 0, V.ev(m, v.length())))
            return v

        def payload(self, name, data):
            b = V.SymBytes.of(data)
            items = list(b.fix())
            v = V.SymBytes.view(V.ArrayBase(name, len(items), items), 0, len(items))
            return v

        def text(self, name, nbytes):
            if nbytes == 0:
                eng.inputs[name] = lambda m: ""
                return ""
            b = V.SymBytes([z3.BitVec("%s_%d" % (name, i), 8) for i in range(nbytes)])
            eng.assume(V.zbool(V.utf8_valid(b)))
            v = V.SymText(b)
            self._reg(name, v)
            return v

        def str(self, name, n, ranges):
            if n == 0:
                eng.inputs[name] = lambda m: ""
                return ""
            cs = [z3.BitVec("%s_%d" % (name, i), 21) for i in range(n)]
            for c in cs:
                eng.assume(V.zbool(V.cp_in(c, ranges)))
                V.tag_cp(c, ranges)
            v = V.SymStr(cs)
            self._reg(name, v)
            return v

        def decimal(self, name, lo, hi, exp):
            c = self.int(name + "_coef", lo, hi)
            if not isinstance(c, V.SymInt):
                v = V.mkdec(c, exp)
            else:
                v = V.SymDecimal(c, exp)
            del eng.inputs[name + "_coef"]
            self._reg(name, v)
            return v

        def choice(self, name, options):
            k = eng.choose(name, len(options))
            eng.inputs[name] = lambda m: k
            return options[k]

        def assume(self, c):
            eng.assume(V.zbool(c))

        def check(self, c, what):
            if isinstance(c, V.SymBool):
                eng.check(c.t, what)
            else:
                eng.check(bool(c), what)

        def known(self, fid, c, what):
            if fid not in self.known_ids:
                return self.check(c, what)
            if isinstance(c, V.SymBool):
                saved = eng.model
                eng.stats["checks"] += 1
                r = eng._check(z3.Not(c.t))
                if r == z3.unsat:
                    eng.stats["discharged"] += 1
                elif r == z3.sat:
                    eng.model = eng.witness(z3.Not(c.t))
                    self._hit(fid, what)
                else:
                    eng.inconclusive.append("check undecided: %s" % what)
                eng.model = saved
            elif not c:
                eng.model = eng.witness()
                self._hit(fid, what)

        def _hit(self, fid, what):
            if fid not in eng.notes:
                eng.notes[fid] = dict(what=what, inputs=eng.extract(eng.model))

        def cover(self, name):
            eng.cover(name)

        def observe(self, name, v):
            self.observed.append((name, v))

        def eq(self, a, b):
            return V.deep_eq(a, b)

        def both(self, *cs):
            return V.conj(cs)

        def either(self, *cs):
            return V.disj(cs)

        def neg(self, c):
            return V.sx_not(c)

        def ite(self, c, a, b):
            return V.ite(c, a, b)

    return SymbolicCtx()
