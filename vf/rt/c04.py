from ..refcodec import BitBuf, enc_float
from .base import Bad, eq, need, reader, write_with


def gen(g):
    for ib, fb in ((32, 32), (32, 8), (28, 4), (2, 1), (8, 8), (16, 2)):
        step = 2.0 ** -(fb - 1)
        top = float((1 << (ib - 1)) - 1)
        for v in (0.0, -0.0, 1.0, -1.0, step, -step, 1 - step, step - 1, -1 - step, top, -top, top + 0.5 if fb > 1 else top, -top + 0.5 if fb > 1 else -top,
                  1.5 if fb > 1 else 1.0, -1.5 if fb > 1 and ib > 2 else -1.0, -0.5 if fb > 1 else 0.0, 1 - 2 ** -20 if ib > 2 else 0.0):
            yield {"ib": ib, "fb": fb, "v": v, "off": 0}
    while True:
        ib, fb = g.r.choice([(32, 32), (32, 8), (28, 4), (g.r.randint(2, 40), g.r.randint(1, 40))])
        if g.chance(0.7):
            v = g.gfloat(ib, fb)
        else:
            lim = (1 << (ib - 1)) - 1
            v = g.r.choice([g.r.uniform(-lim, lim), g.r.uniform(-2, 2) if lim > 1 else g.r.uniform(-1, 1), g.r.uniform(-1, 1) * 10 ** -g.r.randint(1, 25), g.gfloat(ib, fb) * 0.3])
        yield {"ib": ib, "fb": fb, "v": v, "off": g.r.randrange(8)}


def check(dm, case):
    import math

    ib, fb, v, off = case["ib"], case["fb"], case["v"], case["off"]
    if abs(math.floor(v)) >= 1 << (ib - 1):
        return
    sc = v * 2.0 ** (fb - 1)
    grid = sc == math.floor(sc) and abs(v) < 2.0 ** 52

    def run(w):
        if off:
            w.write(off, 0)
        w.write_float(ib, fb, v)
        eq(w.bit_tell(), off + ib + fb, "bits used")
        w.write(7, 85)

    out = write_with(dm, run)
    r = reader(dm, out)
    if off:
        r.read(off)
    got = r.read_float(ib, fb)
    step = 2.0 ** -(fb - 1)
    if grid:
        eq(got, v, "grid value (%d,%d)", ib, fb)
        ref = BitBuf()
        if off:
            ref.f(off, 0)
        enc_float(ref, ib, fb, v)
        ref.f(7, 85)
        eq(out, ref.bytes(), "stored bits of %r", v)
    else:
        from fractions import Fraction

        need(abs(Fraction(got) - Fraction(v)) < Fraction(step), "off-grid %r (%d,%d) read back as %r", v, ib, fb, got)
        need(out[off // 8] >> (off % 8) & 1 == (1 if v < 0 else 0), "sign bit")
    eq(r.read(7), 85, "following field")
