"""C19: nested frames address and restore the decoding stream exactly."""
import io

from eth_abi.decoding import ContextFramesBytesIO

from props import common, ref
from sx.api import Case

INFO = dict(
    bounds="Every sequence of up to 4 operations (push, pop, seek, seek in frame, read, tell) "
           "after up to 3 pushes, chosen by solver variables; offsets, positions and sizes range "
           "over -2^62..2^62 (frames that start at negative places excluded), the content over all byte "
           "strings of 8 and 40 bytes.",
    outside="Longer sequences; frames on streams that are written to.",
    assumptions=common.ASSUMPTIONS)

BIG = 2 ** 62 // 8


class Plain:
    """frames over a plain position"""

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.base = 0
        self.stack = []

    def push(self, off):
        self.stack.append((self.base, self.pos))
        self.base = self.base + off
        self.pos = self.base

    def pop(self):
        self.base, self.pos = self.stack.pop()

    def read(self, n):
        """expected length of the result; the content is compared byte by byte"""
        left = len(self.data) - self.pos
        if left < 0:
            left = 0
        if n < 0 or n > left:
            n = left
        return n


def near(S, name, lo, hi):
    """an offset: any value"""
    return S.int(name, lo, hi)


def step(S, i, s, p, kinds, small):
    k = S.choice("k%d" % i, kinds)
    lo, hi = (-9, 12) if small else (-BIG, BIG)
    if k == "push":
        off = near(S, "off%d" % i, lo, hi)
        S.assume(p.base + off >= 0)
        s.push_frame(off)
        p.push(off)
        S.cover("push")
    elif k == "pop":
        kind, e = ref.outcome(s.pop_frame)
        if not p.stack:
            S.check(kind == "err" and isinstance(e, IndexError), "no IndexError")
            S.cover("empty pop")
        else:
            S.check(kind == "ok", "pop refused")
            p.pop()
            S.cover("pop")
    elif k == "frame":
        q = near(S, "q%d" % i, lo, hi)
        if p.base + q >= 0:
            s.seek_in_frame(q)
            p.pos = p.base + q
        else:
            kind, e = ref.outcome(s.seek_in_frame, q)
            S.check(kind == "err" and isinstance(e, ValueError), "a seek to a negative place")
            S.cover("negative")
    elif k == "seek":
        q = near(S, "q%d" % i, 0, hi)
        s.seek(q)
        p.pos = q
    elif k == "skip":
        q = near(S, "q%d" % i, 0, hi)
        s.seek(q, io.SEEK_CUR)
        p.pos = p.pos + q
    elif k == "end":
        q = near(S, "q%d" % i, lo, hi)
        s.seek(q, 2)
        p.pos = S.ite(len(p.data) + q >= 0, len(p.data) + q, 0)
    else:
        n = S.choice("n%d" % i, [0, 1, 5, 32, -1]) if small else S.choice("n%d" % i, [1, 32])
        got = s.read(n)
        m = p.read(n)
        S.check(len(got) == m, "read returns another number of bytes")
        if small:
            j = 0
            while j < m:
                S.check(S.eq(got[j:j + 1], p.data[p.pos + j:p.pos + j + 1]), "read other bytes")
                j += 1
        p.pos = p.pos + m
    S.check(S.eq(s.tell(), p.pos), "the cursor is elsewhere")


def frames(S, n, pre, steps, small):
    data = S.bytes("data", n)
    s = ContextFramesBytesIO(data)
    p = Plain(data)
    for i, k in enumerate(list(pre) + [steps[1]] * steps[0]):
        step(S, i, s, p, [k] if isinstance(k, str) else k, small)
    # whatever happened, popping everything leads back
    while p.stack:
        s.pop_frame()
        p.pop()
        S.check(S.eq(s.tell(), p.pos), "a pop does not restore the cursor")
        q = s.tell()
        s.seek_in_frame(3)
        S.check(S.eq(s.tell(), p.base + 3), "a pop does not restore the offset base")
        s.seek(q)
    S.check(S.eq(s.tell(), p.pos), "cursor")
    kind, e = ref.outcome(s.pop_frame)
    S.check(kind == "err" and isinstance(e, IndexError), "no IndexError")
    S.check(S.eq(s.tell(), p.pos), "a refused pop moves the cursor")
    s.seek_in_frame(0)
    S.check(S.eq(s.tell(), 0), "base after popping everything")
    S.check(S.eq(s.getvalue(), data), "content")
    S.observe("pos", p.pos)
    S.cover("done")


def two(S):
    """streams do not share frames"""
    a = ContextFramesBytesIO(S.bytes("a", 8))
    off = S.int("off", 0, BIG)
    a.push_frame(off)
    b = ContextFramesBytesIO(S.bytes("b", 8))
    b.seek_in_frame(2)
    S.check(S.eq(b.tell(), 2), "a new stream starts with an offset")
    kind, e = ref.outcome(b.pop_frame)
    S.check(kind == "err" and isinstance(e, IndexError), "a new stream has frames")
    off2 = S.int("off2", 0, BIG)
    b.push_frame(off2)
    a.seek_in_frame(1)
    S.check(S.eq(a.tell(), off + 1), "frames are shared")
    a.pop_frame()
    S.check(S.eq(a.tell(), 0), "pop")
    b.seek_in_frame(4)
    S.check(S.eq(b.tell(), off2 + 4), "frames are shared")
    S.cover("done")


def cases(tier):
    out = [Case("two streams", two, covers=("done",))]
    deep = tier == "thorough"
    MOVE = ["push", "pop", "frame", "seek", "read", "skip", "end"]
    CORE = ["push", "pop", "frame", "seek"]
    for n in (8, 40):
        for pre in ((), ("push",), ("push", "push"), ("seek", "push", "seek", "push"),
                    ("push", "read", "push", "pop"), ("push", "push", "push", "pop", "pop"),
                    ("push", "frame", "push", "seek", "push", "pop"), ("skip", "push"),
                    ("push", "pop", "push", "push")):
            if n == 40 and len(pre) > 1 and not deep:
                continue
            out.append(Case("%d bytes, %s then any 2" % (n, " ".join(pre)), frames, n, pre,
                            (3 if deep else 2, MOVE), False, covers=("done",), budget=80))
            out.append(Case("%d bytes, %s then any 3" % (n, " ".join(pre)), frames, n, pre,
                            (4 if deep else 3, CORE), False, covers=("done",), budget=80))
    for pre in (("push",), ("push", "read", "push", "pop", "read"), ("seek", "read"),
                ("push", "seek", "push", "read", "pop"), ("end", "read"), ("skip", "push", "read")):
        out.append(Case("near: %s" % " ".join(pre), frames, 8, pre, (1, MOVE if len(pre) < 5 or deep else CORE), True,
                        covers=("done",), budget=80))
    return out
