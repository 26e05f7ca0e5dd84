from ..refcodec import ALPHA, BitBuf, enc_str6
from .base import Bad, eq, raises, reader, write_with


def gen(g):
    for i, c in enumerate(ALPHA):
        yield {"s": c, "off": i % 8}
        yield {"s": "a" + c + "{", "off": 0}
    bad = [chr(i) for i in range(0x180) if chr(i) not in ALPHA] + ["\uff21", "\u0130", "\u0660", "\u212a", "\U0001f600", "\u0966"]
    for c in bad:
        yield {"bad": c}
        yield {"bad": "ok_" + c}
    for n in range(64):
        yield {"s": "".join(g.r.choice(ALPHA) for _ in range(n)), "off": n % 8}
    for n in (64, 65, 66, 100, 127, 128, 129, 255, 256, 1000, 65536):
        yield {"bad": "a" * n}
        yield {"bad": "".join(g.r.choice(ALPHA) for _ in range(n))}
    for n in range(1, 64):
        # texts with structure: one character throughout, palindromes, sorted, periodic, one character standing out
        t = "".join(g.r.choice(ALPHA) for _ in range(n))
        for x in [c * n for c in ("0", "9", "A", "Z", "_", "a", "z", "{")] + [t[:(n + 1) // 2] + t[:n // 2][::-1], "".join(sorted(t)), (t[:3] * n)[:n], "a" * (n - 1) + "{", "Z" + "_" * (n - 1)]:
            yield {"s": x, "off": n % 8}
    while True:
        if g.chance(0.15):
            s = list(g.ident(62))
            s.insert(g.r.randint(0, len(s)), g.r.choice(bad))
            yield {"bad": "".join(s)}
        elif g.chance(0.5):
            yield {"s": g.ident(), "off": g.r.randrange(8)}
        else:
            yield {"s": "".join(g.r.choice(ALPHA) for _ in range(g.r.randint(0, 63))), "off": g.r.randrange(8)}


def check(dm, case):
    if "bad" in case:
        raises(ValueError, lambda: write_with(dm, lambda w: w.write_6bit_str(case["bad"])), "writing %r" % case["bad"][:70])
        return
    s, off = case["s"], case["off"]
    ref = BitBuf()
    if off:
        ref.f(off, 1)
    enc_str6(ref, s)
    end = ref.tell()
    ref.f(7, 85)

    def run(w):
        if off:
            w.write(off, 1)
        w.write_6bit_str(s)
        eq(w.bit_tell(), end, "position")
        w.write(7, 85)

    eq(write_with(dm, run), ref.bytes(), "stored bits of %r" % s)
    r = reader(dm, ref.bytes())
    if off:
        r.read(off)
    eq(r.read_6bit_str(), s, "read back")
    eq(r.bit_tell(), end, "reader position")
    eq(r.read(7), 85, "following field")
