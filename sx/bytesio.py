"""io.BytesIO over possibly symbolic bytes with possibly symbolic positions."""
import io as _io
import sys

from .core import engine
from .values import SymBytes, SymInt, as_int, concretize, imax, is_sym, mkbytes, mkint


class SxBytesIO:
    def __init__(self, initial_bytes=b""):
        if initial_bytes is None:
            initial_bytes = b""
        if not isinstance(initial_bytes, (bytes, bytearray, memoryview)):
            raise TypeError("a bytes-like object is required, not '%s'"
                            % type(initial_bytes).__name__)
        if type(initial_bytes) is SymBytes:
            self._b = initial_bytes if initial_bytes._py is bytes else mkbytes(
                list(initial_bytes.fix()))
        else:
            self._b = bytes(initial_bytes)
        self._pos = 0
        self._closed = False

    def _n(self):
        return self._b.length() if type(self._b) is SymBytes else len(self._b)

    def _chk(self):
        if self._closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, size=-1):
        self._chk()
        n = self._n()
        p = self._pos
        if size is None:
            size = -1
        size = as_int(size)
        if size is None:
            raise TypeError("argument should be integer or None, not 'x'")
        if size > sys.maxsize or size < -sys.maxsize - 1:
            raise OverflowError("cannot fit 'int' into an index-sized integer")
        if p >= n:
            m = 0
        elif size < 0 or size > n - p:
            m = n - p
            if isinstance(m, SymInt):
                m = mkint(m.t, max(m.lo, 1), m.hi)
        else:
            m = size
            if isinstance(m, SymInt):
                h = n - p
                m = mkint(m.t, max(m.lo, 0), min(m.hi, h.hi if isinstance(h, SymInt) else h))
        end = p + m
        if type(self._b) is SymBytes or isinstance(p, SymInt) or isinstance(end, SymInt):
            r = SymBytes.of(self._b)
            if not isinstance(m, SymInt) and m == 0:
                r = b""
            else:
                r = r.sub(p, m)
        else:
            r = self._b[p:end]
        self._pos = end
        return r

    read1 = read

    def readinto(self, b):
        data = self.read(len(b))
        n = len(data)
        b[:n] = data
        return n

    def readline(self, size=-1):
        return _io.BytesIO(concretize(self._b)).readline()

    def seek(self, pos, whence=0):
        self._chk()
        pos = as_int(pos)
        if pos is None:
            raise TypeError("'x' object cannot be interpreted as an integer")
        if pos > sys.maxsize or pos < -sys.maxsize - 1:
            raise OverflowError("cannot fit 'int' into an index-sized integer")
        whence = concretize(whence)
        if whence == 0:
            if pos < 0:
                raise ValueError("negative seek value %s" % (pos if not is_sym(pos) else "?"))
        elif whence == 1:
            if pos > sys.maxsize - self._pos:
                raise OverflowError("new position too large")
            pos = imax(self._pos + pos, 0)
        elif whence == 2:
            if pos > sys.maxsize - self._n():
                raise OverflowError("new position too large")
            pos = imax(self._n() + pos, 0)
        else:
            raise ValueError("invalid whence (%d, should be 0, 1 or 2)" % whence)
        self._pos = pos
        return pos

    def tell(self):
        self._chk()
        return self._pos

    def getvalue(self):
        self._chk()
        return self._b

    def getbuffer(self):
        self._chk()
        if type(self._b) is SymBytes:
            s = SymBytes(self._b.items, memoryview)
            s.base, s.start, s.n, s.ritems = (self._b.base, self._b.start, self._b.n,
                                              self._b.ritems)
            return s
        return memoryview(self._b)

    def write(self, data):
        self._chk()
        p = concretize(self._pos)
        items = list(self._b) if type(self._b) is bytes else list(self._b.fix())
        new = list(SymBytes.of(data).fix())
        if not new:
            return 0
        if p > len(items):
            items += [0] * (p - len(items))
        items[p:p + len(new)] = new
        self._b = mkbytes(items)
        self._pos = p + len(new)
        return len(new)

    def truncate(self, size=None):
        n = concretize(self._pos if size is None else size)
        self._b = self._b[:n]
        return n

    def readable(self):
        return True

    seekable = writable = readable

    def close(self):
        self._closed = True

    @property
    def closed(self):
        return self._closed

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(_io.BytesIO(concretize(self._b)[concretize(self._pos):]))


class SxIO:
    """Stand-in for the io module in instrumented code."""
