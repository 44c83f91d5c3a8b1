"""
Simulated storage: a block device below the real HDF5 library (through h5py's Python file-object driver)
and simulated text files. Every operation is numbered; faults are placed by operation number.
"""
import errno
import io

ERRORS = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EDQUOT": errno.EDQUOT, "EFBIG": errno.EFBIG}


class Device(io.RawIOBase):
    """
    data        initial content
    fail        {operation number: kind}; kinds: ENOSPC, EIO, ... raised as OSError; INT raises KeyboardInterrupt
    full_from   from this operation on every write or extension fails with ENOSPC (sticky full disk)
    partial     fraction of a failing write which still reaches the disk (torn write)
    """

    def __init__(self, data=b"", fail=None, full_from=None, partial=0.0, sim=None):
        self.buf = bytearray(data)
        self.initial = bytes(data)
        self.pos = 0
        self.n = 0
        self.fail = {int(k): v for k, v in (fail or {}).items()}
        self.full_from = full_from
        self.partial = partial
        self.sim = sim
        self.journal = []
        self.fired = 0
        self.kinds = []

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else len(self.buf) + off)
        return self.pos

    def tell(self):
        return self.pos

    def _op(self, kind, *args):
        self.n += 1
        if self.sim is not None:
            self.sim.time += 1
        self.kinds.append(kind)
        bad = self.fail.get(self.n)
        if bad is None and self.full_from is not None and self.n >= self.full_from and kind in "wt":
            bad = "ENOSPC"
        return bad

    def _raise(self, bad, kind):
        self.fired += 1
        if self.sim is not None:
            self.sim.fault("%s-on-%s" % (bad, {"r": "read", "w": "write", "t": "truncate", "f": "flush"}[kind]))
        if bad == "INT":
            raise KeyboardInterrupt()
        raise OSError(ERRORS[bad], "simulated " + bad)

    def readinto(self, buf):
        m = memoryview(buf).cast("B")
        bad = self._op("r")
        if bad:
            self._raise(bad, "r")
        d = self.buf[self.pos: self.pos + len(m)]
        m[: len(d)] = d
        self.pos += len(d)
        return len(d)

    def _put(self, pos, data):
        if pos > len(self.buf):
            self.buf.extend(bytes(pos - len(self.buf)))
        self.buf[pos: pos + len(data)] = data

    def write(self, buf):
        data = bytes(memoryview(buf).cast("B"))
        bad = self._op("w")
        if bad:
            part = data[: int(len(data) * self.partial)]
            if part:
                self._put(self.pos, part)
                self.journal.append(("w", self.pos, part))
            self._raise(bad, "w")
        self._put(self.pos, data)
        self.journal.append(("w", self.pos, data))
        self.pos += len(data)
        return len(data)

    def truncate(self, n=None):
        n = self.pos if n is None else n
        bad = self._op("t")
        if bad:
            self._raise(bad, "t")
        self._trunc(n)
        self.journal.append(("t", n, b""))
        return n

    def _trunc(self, n):
        if n < len(self.buf):
            del self.buf[n:]
        else:
            self.buf.extend(bytes(n - len(self.buf)))

    def flush(self):
        bad = self._op("f")
        if bad:
            self._raise(bad, "f")

    def image(self):
        return bytes(self.buf)

    def crash_image(self, k, torn=None):
        """Content after a crash which keeps the first k modifications, and a fraction of the next one"""
        d = Device(self.initial)
        for kind, pos, data in self.journal[:k]:
            if kind == "w":
                d._put(pos, data)
            else:
                d._trunc(pos)
        if torn is not None and k < len(self.journal) and self.journal[k][0] == "w":
            _, pos, data = self.journal[k]
            d._put(pos, data[: int(len(data) * torn)])
        return bytes(d.buf)


class TextWriter(io.TextIOBase):
    """Simulated text output file; fails at the n-th write, possibly after writing a part of the text"""

    def __init__(self, fail_at=None, kind="ENOSPC", sticky=False, partial=0.0, sim=None):
        self.parts = []
        self.n = 0
        self.fail_at, self.kind, self.sticky, self.partial, self.sim = fail_at, kind, sticky, partial, sim
        self.fired = 0

    def writable(self):
        return True

    def write(self, s):
        self.n += 1
        if self.sim is not None:
            self.sim.time += 1
        if self.fail_at is not None and (self.n == self.fail_at or (self.sticky and self.n > self.fail_at)):
            self.fired += 1
            self.parts.append(s[: int(len(s) * self.partial)])
            if self.sim is not None:
                self.sim.fault("text-" + self.kind)
            if self.kind == "INT":
                raise KeyboardInterrupt()
            raise OSError(ERRORS[self.kind], "simulated " + self.kind)
        self.parts.append(s)
        return len(s)

    def getvalue(self):
        return "".join(self.parts)


class TextReader(io.StringIO):
    """Simulated text input file; the n-th read operation fails"""

    def __init__(self, text, fail_at=None, kind="EIO", sim=None):
        super().__init__(text)
        self.n = 0
        self.fail_at, self.kind, self.sim = fail_at, kind, sim
        self.fired = 0

    def _op(self):
        self.n += 1
        if self.sim is not None:
            self.sim.time += 1
        if self.fail_at is not None and self.n == self.fail_at:
            self.fired += 1
            if self.sim is not None:
                self.sim.fault("text-read-" + self.kind)
            if self.kind == "INT":
                raise KeyboardInterrupt()
            raise OSError(ERRORS[self.kind], "simulated " + self.kind)

    def read(self, *a):
        self._op()
        return super().read(*a)

    def readline(self, *a):
        self._op()
        return super().readline(*a)

    def __next__(self):
        self._op()
        return super().__next__()
