from ..refcodec import B, BitBuf, BitSrc
from .base import Bad, eq, need, reader, write_with


def gen(g):
    # systematic part: every start offset x width 1..70, corner values
    for off in range(8):
        for w in range(1, 71):
            m = (1 << w) - 1
            vals = {0, 1, m, m >> 1, 1 << (w - 1), -1, -(1 << (w - 1)), g.r.randrange(1 << w)}
            for v in sorted(vals):
                if -(1 << (w - 1)) <= v <= m:
                    ops = ([["w", off, g.r.randrange(1 << off)]] if off else []) + [["w", w, v], ["w", 3, g.r.randrange(8)]]
                    yield {"ops": ops, "prefix": 0}
        for n in range(0, 6):
            ops = ([["w", off, g.r.randrange(1 << off)]] if off else []) + [["b", "".join(chr(g.r.randrange(256)) for _ in range(n))], ["w", 5, 21]]
            yield {"ops": ops, "prefix": 0}
    while True:
        ops = []
        for _ in range(g.r.randint(1, 30)):
            if g.chance(0.15):
                ops.append(["b", g.bytes(20)])
            else:
                w = g.r.choice([g.r.randint(1, 16), g.int(1, 70), g.r.randint(1, 300)])
                lo, hi = -(1 << (w - 1)), (1 << w) - 1
                v = g.r.choice([lo, hi, 0, -1 if w > 1 else 0, g.r.randint(lo, hi), g.r.randint(lo, hi)] + g.within(lo, hi)[:40])
                ops.append(["w", w, v])
        yield {"ops": ops, "prefix": g.r.choice([0, 0, 1, 5])}


def check(dm, case):
    ops, prefix = case["ops"], bytes(range(case["prefix"]))
    ref = BitBuf()
    base = 8 * len(prefix)

    def run(w):
        eq(w.bit_tell(), base, "initial writer position")
        for o in ops:
            if o[0] == "w":
                w.write(o[1], o[2])
                ref.f(o[1], o[2])
            else:
                w.write_bytes(B(o[1]))
                ref.b(B(o[1]))
            eq(w.bit_tell(), base + ref.tell(), "writer position after %s", o[:2])
            eq(bool(w.aligned()), ref.tell() % 8 == 0, "aligned()")

    out = write_with(dm, run, dm.bitio.BitIOWriter, prefix)
    want = prefix + ref.bytes()
    eq(out, want, "written bytes")
    for flip in (False, True):
        r = reader(dm, want, len(prefix), dm.bitio.BitIOReader)
        eq(r.bit_tell(), base, "initial reader position")
        src = BitSrc(want, base)
        for o in ops:
            if o[0] == "w":
                sg = (o[2] < 0) != flip
                got = r.read(o[1], sg) if not (flip and sg) else r.read(o[1], signed=True)
                eq(got, src.f(o[1], sg), "read(%d, signed=%s)", o[1], sg)
            else:
                got = r.read_bytes(len(B(o[1])))
                eq(bytes(got), src.b(len(B(o[1]))), "read_bytes")
            eq(r.bit_tell(), src.pos, "reader position")
        need(not isinstance(got, bool), "type")
