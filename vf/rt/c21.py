from ..adapt import DM, entity_types, mk_level
from ..refcodec import dec_level, has_filth, seg_totals
from .base import Bad, eq, need, write_with


def _norm(m):
    for lst in (m["tiles"], m["backdrop"]["tiles"]):
        for _ly, _x, _y, t in lst:
            for e in t["edges"]:
                if e["fset"] == 0:
                    e["fspike"] = False
    return m


def gen(g):
    types = entity_types(DM())
    blank = {"sshot": "", "vars": [], "tiles": [], "props": [], "entities": [], "backdrop": {"tiles": [], "props": []}}
    yield dict(blank, entities=[[i, 800.0 * i, 0.0, dict(g.ent([], 0), etype=t, vars=[])] for i, t in enumerate(types)])
    yield dict(blank, entities=[[i, 1.0, 1.0, dict(g.ent([], 0), etype=t, vars=[])] for i, t in enumerate(types)])
    for ly in range(21):
        yield _norm(dict(blank, tiles=[[ly, x, y, g.tile(True)] for x in range(4) for y in range(4)]))
    yield _norm(dict(blank, tiles=[[19, x, y, g.tile(True)] for x in range(-20, 20) for y in range(-20, 20)], backdrop={"tiles": [[19, x, -x, g.tile(True)] for x in range(-20, 20)], "props": []}))
    for k in range(16):
        yield dict(blank, tiles=[[3, 0, 0, g.tile()]] if k & 1 else [], props=[[1, 3, 0.0, 0.0, g.prop()]] if k & 8 else [], entities=[[1, 0.0, 0.0, g.ent(types, 0)]] if k & 4 else [],
                   backdrop={"tiles": [[3, 0, 0, g.tile()]] if k & 2 else [], "props": []})
    for st in range(8):
        tl = []
        for n in range(24):
            t = g.tile()
            t.update(set=st, tile=n)
            tl.append([19, n, st, t])
        yield _norm(dict(blank, tiles=tl))
    while True:
        yield _norm(g.level(nt=g.r.choice([3, 20, 60]), np=2, ne=g.r.choice([2, 12]), types=types, depth=0))


def check(dm, m):
    lv = mk_level(dm, m)
    out = write_with(dm, lambda w: w.write_level(lv))
    try:
        d = dec_level(out)
    except (ValueError, AssertionError) as e:
        raise Bad("written level undecodable: %s" % e)
    tiles = {(a, b, c): t for a, b, c, t in m["tiles"]}
    back = {(a, b, c): t for a, b, c, t in m["backdrop"]["tiles"]}
    for key, ch in d["chunks"]:
        src = tiles if key[0] == "map" else back
        tl = []
        for k in ch["tiles"]:
            need(k in src, "chunk %r holds an unknown tile %r", key, k)
            tl.append([k[0], k[1], k[2], src[k]])
        ents = [[i, v[0], v[1], v[2]] for i, v in ch["entities"].items()]
        want = seg_totals(tl, ents)
        for nm, a, b in zip(("dust", "enemy", "surface", "dust block"), ch["totals"], want):
            eq(a, b, "chunk %r: %s total", key, nm)
        dust = any(t[0] == 19 and has_filth(t[3]) for t in tl)
        fl = (1 if tl else 0) | (2 if dust else 0) | (4 if ents else 0) | (8 if ch["props"] else 0)
        eq(ch["flags"], fl, "chunk %r: section flags", key)
    n = sum(len(c["tiles"]) for k, c in d["chunks"] if k[0] == "map")
    eq(n, len(tiles), "tiles in chunks")
    eq(sum(len(c["entities"]) for k, c in d["chunks"]), len(m["entities"]), "entities in chunks")
