from ..adapt import DM, entity_types
from . import c07

KEYS = ("props", "entities", "bprops")


def gen(g):
    types = entity_types(DM())

    def one(props=(), ents=(), bp=(), tiles=()):
        return {"sshot": "", "vars": [], "tiles": list(tiles), "props": list(props), "entities": list(ents), "backdrop": {"tiles": [], "props": list(bp)}}

    yield one(props=[[i + 1, 19, 48.0 * i, -48.0 * i, dict(g.prop(), scale=i)] for i in range(56)])
    yield one(ents=[[i + 1, 48.0 * i, 24.5, dict(g.ent([], 1), etype=t)] for i, t in enumerate(types + ["entity", "z_", "z_string_list", "entity_", "zz_a", "z", "Z_a", "entity2", "", "a" * 63, "z_" + "b" * 61])])
    for a in ("entity", "z_x", "camera_node", "z_string_list"):
        for b in ("entity", "z_string_list", "foo", "z_" + "q" * 40):
            yield one(ents=[[5, 1.0, 2.0, dict(g.ent([], 2), etype=a)], [7, 3.0, -2.0, dict(g.ent([], 2), etype=b)], [6, -300.0, 2.0, dict(g.ent([], 0), etype=a)]])
    big = (1 << 27) - 1
    pts = [0.0, 1.0, -1.0, 47.0, 48.0, -47.0, -48.0, -49.0, 12287.0, 12288.0, -12288.0, -12289.0, 768.0, -768.0, float(big), float(-big)]
    yield one(props=[[i * 20 + j, 3, x, y, g.prop()] for i, x in enumerate(pts) for j, y in enumerate(pts)],
              bp=[[5000 + i * 20 + j, 3, x, y, g.prop()] for i, x in enumerate(pts[:6]) for j, y in enumerate(pts)])
    ep = [0.0, 0.5, -0.5, 1 / 128, -1 / 128, 127 / 128, -127 / 128, 47.5, -47.5, 48.0, -48.0078125, 12288.5, -12288.5, 399999999.5, -399999999.5]
    yield one(ents=[[i * 20 + j, x, y, g.ent(types, 0)] for i, x in enumerate(ep) for j, y in enumerate(ep)])
    yield one(props=[[i, 1, 0.0, 0.0, g.prop()] for i in (0, 1, 100, (1 << 31) - 1, 65536, 1 << 24)],
              ents=[[i, 0.0, 0.0, g.ent(types, 0)] for i in (0, 1, 100, (1 << 31) - 1, 65535, 1 << 24)])
    yield one(props=[[i, i % 256, float(i % 700), 3.0, g.prop()] for i in range(300)], ents=[[i, float(i % 700), 3.0, g.ent(types, 0)] for i in range(300)])
    while True:
        yield g.level(nt=g.r.choice([0, 0, 3]), np=g.r.choice([0, 2, 6]), ne=g.r.choice([0, 2, 6]), types=types, depth=g.r.choice([0, 1, 2]))


def check(dm, m):
    c07.check(dm, m, KEYS)
