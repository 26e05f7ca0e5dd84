"""Contracts for what the command line tools use: files, the reader and the writer (C09, C22), standard streams.

A tool is run on tokens: reading a file gives tokens that stand for its contents, writing records the tokens."""
import builtins

from . import engine as E
from .engine import Sym, Unsupported


class Token(Sym):
    """an opaque value"""

    def __init__(self, what, *pt, **attrs):
        self.what, self.pytypes = what, pt
        self.__dict__.update(attrs)

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("comparison of %s" % self.what)

    def __ne__(self, o):
        return not self == o

    __hash__ = Sym.__hash__

    def __bool__(self):
        raise Unsupported("truth value of %s" % self.what)

    def __repr__(self):
        return "<%s>" % self.what


class Args:
    """parsed command line"""

    def __init__(self, **k):
        self.__dict__.update(k)


class File:
    """an open file; contents are known to the script only through the reader and writer contracts"""

    def __init__(self, io, path, mode):
        self.io, self.path, self.mode, self.closed = io, path, mode, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def write(self, data):
        if self.closed:
            raise ValueError("write to closed file")
        self.io.log.append(("bytes", self.path, data))
        return len(data) if isinstance(data, (bytes, str)) else None

    def read(self, *a):
        if a and a != (-1,) or self.closed:
            raise Unsupported("partial read of a file")
        f = self.io.contents.get(id(self.path))
        if f is None:
            raise Unsupported("direct read of a file")
        return f


class IO:
    """the file system as the tool sees it: log of everything that was opened, read and written"""

    def __init__(self, r, v, reader=None, writer=None):
        self.r, self.v, self.log, self.contents, self.opened = r, v, [], {}, []
        self.existing = None
        self.reader, self.writer = reader, writer
        r.stub(builtins.open, self.open)
        r.stub(v.dfreader.DFReader, self.mk_reader)
        r.stub(v.dfwriter.DFWriter, self.mk_writer)

    def open(self, path, mode="r", *a, **k):
        if "x" in mode or "w" in mode:
            if "x" in mode and self.exists(path):
                raise FileExistsError(17, "File exists")
            self.log.append(("create", path, mode))
        elif "r" not in mode or "+" in mode:
            raise Unsupported("file mode %s" % mode)
        f = File(self, path, mode)
        self.opened.append(f)
        return f

    def exists(self, path):
        if self.existing is None:
            raise Unsupported("existence of a file")
        return self.existing(path)

    def mk_reader(self, f, **k):
        if k or not isinstance(f, File) or "b" not in f.mode or "r" not in f.mode:
            raise Unsupported("reader on something else")
        return self.reader(self, f)

    def mk_writer(self, f, **k):
        if k or not isinstance(f, File) or "b" not in f.mode or "r" in f.mode:
            raise Unsupported("writer on something else")
        return self.writer(self, f)

    def all_closed(self):
        return all(f.closed for f in self.opened if f.mode[:1] in "wxa")


class Stream:
    """base of the reader and writer contracts: closing it closes the file"""

    def __init__(self, io, f):
        self.io, self.f, self.r = io, f, io.r

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.f.close()

    def need_open(self):
        if self.f.closed:
            raise ValueError("I/O operation on closed file")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s has no contract here" % (type(self).__name__, n))
