import io

from ..refcodec import B, BitSrc
from .base import Bad, eq, need, raises


class Stream(io.BytesIO):
    def __init__(self, *a):
        super().__init__(*a)
        self.final = None

    def close(self):
        if not self.closed:
            self.final = self.getvalue()
        super().close()


class NoSeek(io.BufferedIOBase):
    """write-only sink without tell/seek"""

    def __init__(self):
        self.out = bytearray()

    def writable(self):
        return True

    def seekable(self):
        return False

    def write(self, b):
        self.out += bytes(b)
        return len(b)

    def tell(self):
        raise OSError("no tell")

    def seek(self, *a):
        raise OSError("no seek")


def gen(g):
    n = 0
    while True:
        n += 1
        kind = ("reader", "writer", "writer", "sink")[n % 4]
        ops = []
        if kind == "reader":
            size = g.r.randint(2, 24)
            for _ in range(g.r.randint(1, 14)):
                ops.append(g.r.choice([["read", g.r.randint(1, 20), g.bool()], ["seek", g.r.randint(0, size * 8)], ["skip", g.r.randint(-30, 30)],
                                       ["align"], ["bytes", g.r.randint(0, 4)], ["read", g.r.randint(1, 8), g.bool()]]))
            yield {"kind": kind, "size": size, "seed": g.r.randrange(256), "ops": ops, "noclose": g.bool()}
            continue
        for _ in range(g.r.randint(1, 14)):
            w = g.r.choice([g.r.randint(1, 8), g.r.randint(1, 40)])
            c = [["write", w, g.r.randrange(1 << w)], ["write", w, (1 << w) - 1], ["align"], ["bytes", g.bytes(4)], ["flush"]]
            if kind == "writer":
                c += [["seek", g.r.randint(0, 30) * 8, False], ["seek", g.r.randint(0, 240), True], ["seek", g.r.randint(0, 240), False], ["skip", g.r.randint(0, 4)]]
            ops.append(g.r.choice(c))
        yield {"kind": kind, "init": [g.r.randrange(256) for _ in range(g.r.choice([0, 0, 12, 20]))], "ops": ops, "noclose": g.bool(),
               "release": g.bool()}


def check(dm, case):
    (check_reader if case["kind"] == "reader" else check_writer)(dm, case)


def check_reader(dm, case):
    data = bytes((i * 37 + case["seed"] * 11 + (i * i) // 3) & 255 for i in range(case["size"]))
    st = Stream(data)
    r = dm.bitio.BitIOReader(st, noclose=case["noclose"])
    src = BitSrc(data)
    for o in case["ops"]:
        if o[0] == "read":
            if src.pos + o[1] > len(data) * 8:
                continue
            eq(r.read(o[1], o[2]), src.f(o[1], o[2]), "read(%d, %s) at bit %d", o[1], o[2], src.pos)
        elif o[0] == "bytes":
            if src.pos + 8 * o[1] > len(data) * 8:
                continue
            eq(bytes(r.read_bytes(o[1])), src.b(o[1]), "read_bytes at bit %d", src.pos)
        elif o[0] == "seek":
            r.bit_seek(o[1])
            src.pos = o[1]
        elif o[0] == "skip":
            if not 0 <= src.pos + o[1] <= len(data) * 8:
                continue
            r.skip(o[1])
            src.pos += o[1]
        else:
            r.align()
            src.align()
        eq(r.bit_tell(), src.pos, "position after %s", o)
        eq(bool(r.aligned()), src.pos % 8 == 0, "aligned() after %s", o)
    with r:
        pass
    eq(st.closed, not case["noclose"], "underlying stream closed")


class WModel:
    """byte array + pending partial byte"""

    def __init__(self, init):
        self.buf = bytearray(init)
        self.pos = 0
        self.cur = 0
        self.dirty = False

    def put(self, p, v):
        if p >= len(self.buf):
            self.buf += bytes(p + 1 - len(self.buf))
        self.buf[p] = v

    def write(self, width, val):
        for k in range(width):
            if self.pos % 8 == 0:
                self.cur = 0
            self.cur |= (val >> k & 1) << (self.pos % 8)
            self.pos += 1
            self.dirty = True
            if self.pos % 8 == 0:
                self.put(self.pos // 8 - 1, self.cur)
                self.cur, self.dirty = 0, False

    def flush(self):
        if self.pos % 8 and self.dirty:
            self.put(self.pos // 8, self.cur)
            self.pos = (self.pos + 7) // 8 * 8
        self.cur, self.dirty = 0, False

    def seek(self, p):
        self.flush()
        self.pos = p


def check_writer(dm, case):
    sink = case["kind"] == "sink"
    if sink:
        case = dict(case, init=[])
    st = NoSeek() if sink else Stream(bytes(case["init"]))
    w = dm.bitio.BitIOWriter(st, noclose=case["noclose"])
    m = WModel(case["init"])
    for o in case["ops"]:
        if o[0] == "write":
            w.write(o[1], o[2])
            m.write(o[1], o[2])
        elif o[0] == "bytes":
            w.write_bytes(B(o[1]))
            for b in B(o[1]):
                m.write(8, b)
        elif o[0] == "flush":
            w.flush()
            m.flush()
        elif o[0] == "align":
            w.align()
            m.flush()
            m.pos = (m.pos + 7) // 8 * 8
        elif o[0] == "skip":
            if m.pos % 8:
                continue
            w.skip(o[1] * 8)
            m.seek(m.pos + o[1] * 8)
        elif o[0] == "seek":
            if o[1] % 8 and not o[2]:
                raises(RuntimeError, lambda: w.bit_seek(o[1]), "unaligned seek")
                eq(w.bit_tell(), m.pos, "position after refused seek")
                continue
            if o[2]:
                w.bit_seek(o[1], allow_unaligned=True)
            else:
                w.bit_seek(o[1])
            m.seek(o[1])
        eq(w.bit_tell(), m.pos, "position after %s", o)
        eq(bool(w.aligned()), m.pos % 8 == 0, "aligned() after %s", o)
    keep = case["noclose"]
    if case["release"]:
        w.release()
        keep = True
    w.close()
    m.flush()
    eq(st.closed, not keep, "underlying stream closed")
    out = bytes(st.out) if sink else (st.getvalue() if keep else st.final)
    eq(out, bytes(m.buf), "stream contents")
