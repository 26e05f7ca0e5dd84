from ..adapt import diff, mk_level, un_level, un_tile
from ..geom import SYM, ap, det, exists, mul, upscale_edge_spec, upscale_spec
from ..refcodec import blank_edge
from .base import Bad, eq, need
from .c12 import cmp_tiles, image

R = [(1, 0, 0, 1), (0, -1, 1, 0), (-1, 0, 0, -1), (0, 1, -1, 0)]
H, V = (-1, 0, 0, 1), (1, 0, 0, -1)
HITTABLE = ("enemy_tutorial_square enemy_tutorial_hexagon enemy_slime_beast enemy_slime_barrel enemy_spring_ball enemy_slime_ball enemy_trash_tire enemy_trash_beast enemy_trash_can enemy_trash_ball enemy_bear enemy_stoneboss "
            "enemy_stonebro enemy_porcupine enemy_wolf enemy_critter enemy_flag enemy_scrolls enemy_treasure enemy_chest_treasure enemy_chest_scrolls enemy_butler enemy_maid enemy_knight enemy_gargoyle_big "
            "enemy_gargoyle_small enemy_book enemy_hawk enemy_key enemy_door hittable_apple dust_man dust_girl dust_kid dust_worth dust_wraith leaf_sprite trash_king slime_boss").split()
POSITION_KEYS = {
    "AI_controller": ["nodes"], "check_point": ["trigger_area"], "level_end_prox": ["trigger_area"], "kill_box": ["width", "height"],
    "enemy_key": ["lastKnowX", "lastKnowY", "dm_scale"], "camera_node": ["zoom_h", "width"],
}


def _vec(g):
    return ["vec2", [g.r.randint(-4000, 4000) / 2, g.r.randint(-4000, 4000) / 2]]


def _ents(g):
    out = []
    for t in ("AI_controller", "check_point", "level_end_prox", "kill_box", "enemy_key", "camera_node", g.r.choice(HITTABLE[:30]), "hittable_apple", g.r.choice(HITTABLE[31:]), "some_thing", g.r.choice(("base_trigger", "entity_emitter", "fog_trigger", "level_end", "z_string_list", "level_door"))):
        if g.chance(0.5):
            continue
        vs = []
        if t == "AI_controller":
            vs = [["nodes", ["array", ["vec2", [_vec(g) for _ in range(g.small(3))]]]], ["puppet_id", ["uint", 7]]]
        elif t in ("check_point", "level_end_prox"):
            vs = [["trigger_area", ["array", ["vec2", [_vec(g) for _ in range(g.small(3))]]]]]
        elif t == "kill_box":
            vs = [["width", ["int", g.r.randint(0, 500)]], ["height", ["int", g.r.randint(0, 500)]]]
        elif t == "enemy_key":
            vs = [["lastKnowX", ["float", float(g.r.randint(-900, 900))]], ["lastKnowY", ["float", g.r.randint(-900, 900) / 4]], ["dm_scale", ["float", g.r.choice([1.0, 2.0, 0.5])]]]
        elif t == "camera_node":
            vs = [["zoom_h", ["int", g.r.randint(1, 3000)]], ["width", ["int", g.r.randint(1, 3000)]]]
        elif t in HITTABLE:
            vs = [["dm_scale", ["float", g.r.choice([1.0, 2.0, 0.5])]]]
        elif t in ("base_trigger", "fog_trigger", "entity_emitter"):
            vs = [["width", ["int", 500]], ["height", ["int", 3]]]
        else:
            vs = [["width", ["int", 9]], ["trigger_area", ["array", ["vec2", [_vec(g)]]]], ["zoom_h", ["int", 11]]]
        if g.chance(0.25):
            vs = vs[1:]
        vs.append(["other", ["int", g.int(-(1 << 31), (1 << 31) - 1)]])
        e = g.ent((), 0)
        e.update(etype=t, vars=vs)
        out.append([len(out) * 3 + 1, float(g.r.randint(-3000, 3000)) + g.r.choice([0, 0.5]), float(g.r.randint(-3000, 3000)), e])
    return out


def _tile(g):
    t = g.tile(True)
    for s in range(4):
        t["edges"][s] = g.edge(True) if exists(t["shape"], s) else blank_edge()
        for k in ("angles", "fangles"):
            t["edges"][s][k] = [max(-127, a) for a in t["edges"][s][k]]
    return t


def _tiles(g, n, lim):
    ks = {(g.layer(), g.r.choice([g.r.randint(-4, 4), g.r.randint(-lim, lim)]), g.r.choice([g.r.randint(-4, 4), g.r.randint(-lim, lim)])) for _ in range(g.small(n))}
    return [[a, b, c, _tile(g)] for a, b, c in sorted(ks)]


def _op(g):
    c = g.r.randrange(7)
    if c == 0:
        return ["h"]
    if c == 1:
        return ["v"]
    if c == 2:
        return ["r", g.r.randint(-5, 5)]
    if c == 3:
        return ["t", 48 * g.r.randint(-300, 300), 48 * g.r.randint(-30, 30)]
    if c == 4:
        return ["m", g.r.randrange(8), 48 * g.r.randint(-30, 30), 48 * g.r.randint(-30, 30), g.bool()]
    if c == 5:
        return ["u", g.r.randint(1, 3)]
    return ["um", g.r.randint(1, 3), g.r.randrange(8), 48 * g.r.randint(-9, 9), 48 * g.r.randint(-9, 9)]


def gen(g):
    i = 0
    base = [["h"], ["v"], ["r", 1], ["r", 2], ["r", 3], ["r", -1], ["t", 48, 0], ["t", -480, 96], ["u", 2], ["u", 3], ["um", 2, 1, 48, 96]] + [["m", k, 48, -96, k % 2 == 0] for k in range(8)]
    while True:
        vs = []
        for p in range(1, 5):
            for c in "xy":
                if g.chance(0.6):
                    vs.append(["p%d_%s" % (p, c), ["int", g.r.randint(-4000, 4000)]])
        vs.append(["keep", ["string", "me"]])
        m = {"sshot": "abc", "vars": vs, "tiles": _tiles(g, 8, 2000), "entities": _ents(g),
             "props": [[k, g.int(0, 255), float(g.r.randint(-4000, 4000)), g.r.randint(-4000, 4000) / 2, g.prop()] for k in range(g.small(3))],
             "backdrop": {"tiles": _tiles(g, 3, 60), "props": [[50 + k, 2, float(g.r.randint(-300, 300)), float(g.r.randint(-300, 300)), g.prop()] for k in range(g.small(2))]}}
        ops = [base[i % len(base)]] if i < 3 * len(base) else [_op(g) for _ in range(g.r.randint(1, 3))]
        i += 1
        if i == 1:
            m["tiles"] = [[19, x, y, _tile(g)] for x in (-1, 0, 1, 7) for y in (-1, 0, 5)]
        yield {"m": m, "ops": ops, "order": g.r.randrange(3)}


def linear(op):
    """-> (linear symmetry, scale, translation) of an operation; translation in result pixels"""
    if op[0] == "h":
        return H, 1, (0, 0)
    if op[0] == "v":
        return V, 1, (0, 0)
    if op[0] == "r":
        return R[op[1] % 4], 1, (0, 0)
    if op[0] == "t":
        return R[0], 1, (op[1], op[2])
    if op[0] == "m":
        return SYM[op[1]], 1, (op[2], op[3])
    if op[0] == "u":
        return R[0], op[1], (0, 0)
    return SYM[op[2]], op[1], (op[1] * op[3], op[1] * op[4])


def do(dm, lv, op):
    T = dm.transform.TxMatrix

    def mat(k, x, y):
        a = SYM[k]
        return T(((a[0], a[1], x), (a[2], a[3], y), (0, 0, 1)))

    if op[0] == "h":
        lv.flip_horizontal()
    elif op[0] == "v":
        lv.flip_vertical()
    elif op[0] == "r":
        lv.rotate(op[1]) if op[1] != 1 else lv.rotate()
    elif op[0] == "t":
        lv.translate(op[1], op[2])
    elif op[0] == "m":
        m = mat(op[1], op[2], op[3])
        if op[4]:
            m = T([[float(x) for x in r] for r in m[:2]] + [[0, 0, 1]])
        lv.transform(m)
    elif op[0] == "u":
        lv.upscale(op[1])
    else:
        lv.upscale(op[1], mat=mat(op[2], op[3], op[4]))


def tile_image(gm, n, t, x, y):
    """top-left tile of the image block (n x n tiles)"""
    c = [ap(gm, (48 * x, 48 * y)), ap(gm, (48 * x + 48, 48 * y + 48))]
    px = min(c[0][0], c[1][0]) * n + t[0]
    py = min(c[0][1], c[1][1]) * n + t[1]
    return px // 48, py // 48


def check_tiles(before, after, gm, n, t, what):
    left = dict(after)
    for (ly, x, y), tl in before.items():
        bx, by = tile_image(gm, n, t, x, y)
        im = image(gm, tl)
        blk = {}
        for dx in range(n):
            for dy in range(n):
                s = left.pop((ly, bx + dx, by + dy), None)
                if s is not None:
                    blk[(dx, dy)] = s
        if n == 1:
            need((0, 0) in blk, "%s: tile (%d, %d, %d) is not at its image (%d, %d)", what, ly, x, y, bx, by)
            d = cmp_tiles(im, blk[(0, 0)])
            need(d is None, "%s: tile (%d, %d, %d): %s", what, ly, x, y, d)
            continue
        d = upscale_spec(im["shape"], n)([(dx, dy, s["shape"]) for (dx, dy), s in blk.items()])
        need(d is None, "%s: tile (%d, %d, %d) enlarged at (%d, %d): %s", what, ly, x, y, bx, by, d)
        for (dx, dy), s in blk.items():
            eq((s["set"], s["tile"], s["pal"]), (tl["set"], tl["tile"], tl["pal"]), "%s: sprite", what)
            for side in range(4):
                if exists(s["shape"], side):
                    w = upscale_edge_spec(im["shape"], im["edges"], n, dx, dy, s["shape"], side, blank_edge)
                    need(w is not None and diff(w, s["edges"][side]) is None, "%s: edge %d of piece (%d,%d): %s", what, side, dx, dy, diff(w, s["edges"][side]))
    need(not left, "%s: stray tiles %r", what, sorted(left)[:3])


def orient(o, what, before, gm):
    """check (flip_x, flip_y, rotation) after against the rule; -> nothing"""
    fx, fy, r = o
    bx, by, b = before
    if det(gm) > 0:
        q = R.index(gm)
        eq((fx, fy, r), (bx, by, (b + 0x4000 * q) & 0xFFFF), what + " orientation")
    else:
        need((fx != bx) != (fy != by), "%s: a reflection must toggle exactly one flip flag", what)
        c = (r + b) & 0xFFFF
        axis = gm in (H, V)
        need(c % 0x8000 == (0 if axis else 0x4000), "%s: rotation %d became %d under reflection %r", what, b, r, gm)


def norm(o):
    fx, fy, r = o
    return (False, fx != fy, (r + (0x8000 if fx else 0)) & 0xFFFF) if True else o


def get(vs, k, default):
    for a, b in vs:
        if a == k:
            return b[1]
    return default


def check_entity(b, a, gm, n, t, what):
    def pt(p):
        x, y = ap(gm, p)
        return [x * n + t[0], y * n + t[1]]

    def lin(p):
        x, y = ap(gm, p)
        return [x * n, y * n]

    et = b["etype"]
    keys = list(POSITION_KEYS.get(et, []))
    hit = et in HITTABLE
    if hit and "dm_scale" not in keys:
        keys.append("dm_scale")
    rest_b = [v for v in b["vars"] if v[0] not in keys]
    rest_a = [v for v in a["vars"] if v[0] not in keys]
    d = diff(rest_b, rest_a)
    need(d is None, "%s: unrelated variables: %s", what, d)
    bv, av = b["vars"], a["vars"]
    if et in ("AI_controller", "check_point", "level_end_prox"):
        k = keys[0]
        f = pt if et == "AI_controller" else lin
        w = [f(e[1]) for e in get(bv, k, ["vec2", []])[1]]
        got = [list(e[1]) for e in get(av, k, ["vec2", []])[1]]
        eq(got, w, "%s: %s", what, k)
    if et == "kill_box":
        w = lin([get(bv, "width", 0), get(bv, "height", 0)])
        eq([get(av, "width", 0), get(av, "height", 0)], [abs(w[0]), abs(w[1])], "%s: size", what)
    if et == "enemy_key":
        eq([get(av, "lastKnowX", 0.0), get(av, "lastKnowY", 0.0)], pt([get(bv, "lastKnowX", 0.0), get(bv, "lastKnowY", 0.0)]), "%s: last known position", what)
    if et == "camera_node":
        eq([get(av, "zoom_h", 1080), get(av, "width", 520)], [get(bv, "zoom_h", 1080) * n, get(bv, "width", 520) * n], "%s: camera size", what)
    if hit:
        eq(get(av, "dm_scale", 1.0), get(bv, "dm_scale", 1.0) * n, "%s: scale", what)
    eq([a[k] for k in ("etype", "layer", "vis")], [b[k] for k in ("etype", "layer", "vis")], "%s: attributes", what)
    orient((a["fx"], a["fy"], a["rot"]), what, (b["fx"], b["fy"], b["rot"]), gm)


def check_props(b, a, gm, n, t, what):
    eq(set(a), set(b), "%s ids", what)
    for i, (ly, x, y, p) in b.items():
        ly2, x2, y2, q = a[i]
        px, py = ap(gm, (x, y))
        eq((ly2, x2, y2), (ly, px * n + t[0], py * n + t[1]), "%s %d position", what, i)
        orient((q["fx"], q["fy"], q["rot"]), "%s %d" % (what, i), (p["fx"], p["fy"], p["rot"]), gm)
        eq({k: v for k, v in q.items() if k not in ("fx", "fy", "rot")}, {k: v for k, v in p.items() if k not in ("fx", "fy", "rot")}, "%s attributes", what)


def step(before, after, op):
    gm, n, t = linear(op)
    check_tiles(before["tiles"], after["tiles"], gm, n, t, "tiles after %r" % (op,))
    check_props(before["props"], after["props"], gm, n, t, "prop")
    eq(set(after["entities"]), set(before["entities"]), "entity ids")
    for i, (x, y, e) in before["entities"].items():
        x2, y2, f = after["entities"][i]
        px, py = ap(gm, (x, y))
        eq((x2, y2), (px * n + t[0], py * n + t[1]), "entity %d position after %r", i, op)
        check_entity(e, f, gm, n, t, "entity %d (%s) after %r" % (i, e["etype"], op))
    for p in range(1, 5):
        kx, ky = "p%d_x" % p, "p%d_y" % p
        px, py = ap(gm, (get(before["vars"], kx, 0), get(before["vars"], ky, 0)))
        eq((get(after["vars"], kx, 0), get(after["vars"], ky, 0)), (px * n + t[0], py * n + t[1]), "start of player %d after %r", p, op)
    pk = ["p%d_%s" % (p, c) for p in range(1, 5) for c in "xy"]
    eq([v for v in after["vars"] if v[0] not in pk], [v for v in before["vars"] if v[0] not in pk], "other level variables")
    eq(after["sshot"], before["sshot"], "thumbnail")
    if t == (0, 0):
        check_tiles(before["btiles"], after["btiles"], gm, n, t, "backdrop tiles after %r" % (op,))
        check_props(before["bprops"], after["bprops"], gm, n, t, "backdrop prop")


def positions(d):
    return ({k: v for k, v in d["tiles"].items()}, {i: (v[:3], norm((v[3]["fx"], v[3]["fy"], v[3]["rot"]))) for i, v in d["props"].items()},
            {i: (v[:2], norm((v[2]["fx"], v[2]["fy"], v[2]["rot"]))) for i, v in d["entities"].items()})


def check(dm, case):
    m = case["m"]
    lv = mk_level(dm, m)
    cur = un_level(dm, lv)
    start = cur
    G, n, t = R[0], 1, (0, 0)
    for op in case["ops"]:
        do(dm, lv, op)
        nxt = un_level(dm, lv)
        step(cur, nxt, op)
        cur = nxt
        g1, n1, t1 = linear(op)
        tt = ap(g1, t)
        G, n, t = mul(g1, G), n * n1, (tt[0] * n1 + t1[0], tt[1] * n1 + t1[1])
    # composition: one transform by the composite matrix
    if n == 1:
        one = mk_level(dm, m)
        T = dm.transform.TxMatrix
        one.transform(T(((G[0], G[1], t[0]), (G[2], G[3], t[1]), (0, 0, 1))))
        for a, b, w in zip(positions(cur), positions(un_level(dm, one)), ("tiles", "props", "entities")):
            d = diff(b, a)
            need(d is None, "composition of %r, %s: %s", case["ops"], w, d)
        # undo
        inv = (G[0], G[2], G[1], G[3])
        back = ap(inv, t)
        one.transform(T(((inv[0], inv[1], -back[0]), (inv[2], inv[3], -back[1]), (0, 0, 1))))
        for a, b, w in zip(positions(start), positions(un_level(dm, one)), ("tiles", "props", "entities")):
            d = diff(a, b)
            need(d is None, "doing then undoing %r, %s: %s", case["ops"], w, d)
