import zlib

from ..adapt import diff, mk_level, model_sets, un_level
from ..refcodec import dec_level, enc_level
from .base import Bad, need, reader, write_with

KEYS = ("tiles", "btiles")


def gen(g):
    L, Bk = 1 << 23, 1 << 19

    def one(tiles, back=()):
        return {"sshot": "", "vars": [], "tiles": tiles, "props": [], "entities": [], "backdrop": {"tiles": list(back), "props": []}}

    edge = [-L, -L + 1, -257, -256, -255, -241, -240, -17, -16, -15, -1, 0, 1, 15, 16, 17, 240, 255, 256, 257, 511, 512, L - 1, L - 256, L - 257]
    yield one([[g.layer(), x, y, g.tile()] for x in edge for y in edge])
    be = [-Bk, -Bk + 1, -257, -17, -16, -15, -1, 0, 1, 15, 16, 17, 255, 256, Bk - 1, Bk - 16]
    yield one([], [[g.layer(), x, y, g.tile()] for x in be for y in be])
    for ly in range(21):
        yield one([[ly, -1, 0, g.tile(ly == 19)], [ly, 0, -1, g.tile(ly == 19)]], [[ly, -1, 0, g.tile(ly == 19)], [20 - ly, 16, -17, g.tile()]])
    yield one([[ly, x, y, g.tile(ly == 19)] for ly in range(21) for x in range(-2, 2) for y in range(-2, 2)])
    yield one([[19, x, y, g.tile(True)] for x in range(16) for y in range(16)], [[19, x, y, g.tile(True)] for x in range(16) for y in range(-16, 0)])
    while True:
        m = g.level(nt=g.r.choice([2, 8, 40]), np=g.r.choice([0, 0, 2]), ne=g.r.choice([0, 0, 2]))
        yield m


def check(dm, m, keys=KEYS):
    want = model_sets(m)
    lv = mk_level(dm, m)
    direct = zlib.crc32(repr(m).encode()) & 1  # by the convenience functions or by reader and writer
    out = dm.dfwriter.write_level(lv) if direct else write_with(dm, lambda w: w.write_level(lv))
    try:
        d = dec_level(out)
    except ValueError as e:
        raise Bad("written level undecodable: %s" % e)
    for k in keys:
        x = diff(want[k], d[k])
        need(x is None, "written %s: %s", k, x)
    for nm, data in (("saved", out), ("reference", enc_level(m))):
        got = un_level(dm, dm.dfreader.read_level(data) if direct else reader(dm, data).read_level())
        for k in keys:
            x = diff(want[k], got[k])
            need(x is None, "loading the %s file, %s: %s", nm, k, x)
