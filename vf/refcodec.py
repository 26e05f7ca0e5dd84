"""Independent reference codec for the Dustforce formats.

These are the *specification functions* of the codec properties: they are
written from the format description, share no code with /repo, work on plain
JSON-able models and are used (a) as the oracle of the run-time contracts and
(b) to cross-check the symbolic grammars of the proof part (vf/proof).

Models
  bytes      str (latin-1) | {"n": length, "s": seed}      (see B())
  variable   [kind, payload]; kinds bool int uint float string vec2 array struct
             array payload = [element kind, [variable...]]
             struct payload = [[key, variable]...]
  tile       {"shape","flags","set","tile","pal","edges":[edge*4]}
  edge       {"solid","visible","caps","angles","fset","fspike","fcaps","fangles"}
"""
import math
import zlib

SIDES = ("top", "bottom", "left", "right")
VT = {"bool": 1, "int": 2, "uint": 3, "float": 4, "string": 5, "vec2": 10, "struct": 14, "array": 15}
VTI = {v: k for k, v in VT.items()}
ALPHA = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz{"
MAXW = 65535
assert len(ALPHA) == 64


def B(m):
    """bytes model -> bytes"""
    if isinstance(m, str):
        return m.encode("latin1")
    n, s = m["n"], m["s"]
    unit = bytes(((i * 73 + s * 151 + (i >> 8) * 7 + (i >> 16) * 3) & 0xFF) for i in range(65537 if n > 65537 else n))
    out = bytearray()
    k = 0
    while len(out) < n:
        out += bytes([(k * 59 + s) & 0xFF]) + unit
        k += 1
    return bytes(out[:n])


class BitBuf:
    """LSB-first bit buffer (append only) = the spec of the bit stream."""

    def __init__(self):
        self.out = bytearray()
        self.acc = 0
        self.nacc = 0

    def tell(self):
        return len(self.out) * 8 + self.nacc

    def f(self, width, val):
        if not -(1 << width) <= val < (1 << width):
            raise ValueError("spec: field overflow")
        val &= (1 << width) - 1
        self.acc |= val << self.nacc
        self.nacc += width
        nb = self.nacc >> 3
        if nb:
            self.out += (self.acc & ((1 << (8 * nb)) - 1)).to_bytes(nb, "little")
            self.acc >>= 8 * nb
            self.nacc &= 7

    def b(self, data):
        if data:
            self.f(8 * len(data), int.from_bytes(data, "little"))

    def align(self):
        if self.nacc:
            self.out.append(self.acc)
            self.acc = 0
            self.nacc = 0

    def bytes(self):
        r = bytes(self.out)
        if self.nacc:
            r += bytes([self.acc])
        return r


class BitSrc:
    """LSB-first bit source."""

    def __init__(self, data, pos=0):
        self.data = data
        self.pos = pos

    def f(self, width, signed=False):
        if self.pos + width > len(self.data) * 8:
            raise ValueError("spec: read past end")
        b0 = self.pos >> 3
        b1 = (self.pos + width + 7) >> 3
        v = int.from_bytes(self.data[b0:b1], "little") >> (self.pos & 7)
        v &= (1 << width) - 1
        if signed and width and v >> (width - 1):
            v -= 1 << width
        self.pos += width
        return v

    def b(self, n):
        if n == 0:
            return b""
        return self.f(8 * n).to_bytes(n, "little")

    def align(self):
        self.pos = (self.pos + 7) & ~7


# ---------------------------------------------------------------- primitives
def enc_str6(w, s):
    if len(s) > 63 or any(c not in ALPHA for c in s):
        raise ValueError("spec: bad identifier")
    w.f(6, len(s))
    for c in s:
        w.f(6, ALPHA.index(c))


def dec_str6(r):
    return "".join(ALPHA[r.f(6)] for _ in range(r.f(6)))


def enc_float(w, ib, fb, x):
    fl = math.floor(x)
    w.f(1, 1 if x < 0 else 0)
    w.f(ib - 1, abs(fl))
    w.f(fb, math.floor((x - fl) * 2 ** (fb - 1)))


def dec_float(r, ib, fb):
    s = r.f(1)
    i = r.f(ib - 1)
    f = r.f(fb)
    return (-i if s else i) + f / 2 ** (fb - 1)


# ----------------------------------------------------------------- variables
def parts(data):
    """continuation parts of a byte string"""
    return [data[i * MAXW:(i + 1) * MAXW] for i in range(1 + len(data) // MAXW)]


def enc_var(w, var):
    k, p = var
    if k == "bool":
        w.f(1, 1 if p else 0)
    elif k in ("int", "uint"):
        w.f(32, p)
    elif k == "float":
        enc_float(w, 32, 32, p)
    elif k == "string":
        d = B(p)
        if len(d) > MAXW:
            raise ValueError("spec: string too long")
        w.f(16, len(d))
        w.b(d)
    elif k == "vec2":
        enc_float(w, 32, 32, p[0])
        enc_float(w, 32, 32, p[1])
    elif k == "array":
        et, els = p
        if et == "string":
            ps = [q for e in els for q in parts(B(e[1]))]
            if len(ps) > MAXW:
                raise ValueError("spec: array too long")
            w.f(4, VT[et])
            w.f(16, len(ps))
            for q in ps:
                w.f(16, len(q))
                w.b(q)
        else:
            if len(els) > MAXW:
                raise ValueError("spec: array too long")
            w.f(4, VT[et])
            w.f(16, len(els))
            for e in els:
                enc_var(w, e)
    elif k == "struct":
        for key, v in p:
            if v[0] == "string":
                for q in parts(B(v[1])):
                    w.f(4, VT["string"])
                    enc_str6(w, key)
                    w.f(16, len(q))
                    w.b(q)
            else:
                w.f(4, VT[v[0]])
                enc_str6(w, key)
                enc_var(w, v)
        w.f(4, 0)
    else:
        raise ValueError(k)


def dec_var(r, k):
    if k == "bool":
        return [k, r.f(1) == 1]
    if k == "int":
        return [k, r.f(32, True)]
    if k == "uint":
        return [k, r.f(32)]
    if k == "float":
        return [k, dec_float(r, 32, 32)]
    if k == "string":
        return [k, r.b(r.f(16)).decode("latin1")]
    if k == "vec2":
        a = dec_float(r, 32, 32)
        return [k, [a, dec_float(r, 32, 32)]]
    if k == "array":
        et = VTI[r.f(4)]
        n = r.f(16)
        if et != "string":
            return [k, [et, [dec_var(r, et) for _ in range(n)]]]
        els = []
        cur = None
        for _ in range(n):
            d = r.b(r.f(16)).decode("latin1")
            cur = d if cur is None else cur + d
            if len(d) < MAXW:
                els.append(["string", cur])
                cur = None
        if cur is not None:
            raise ValueError("spec: unterminated continuation")
        return [k, [et, els]]
    if k == "struct":
        out = []
        cont = None
        while True:
            t = r.f(4)
            if t == 0:
                if cont is not None:
                    raise ValueError("spec: unterminated continuation")
                return [k, out]
            key = dec_str6(r)
            v = dec_var(r, VTI[t])
            if cont is not None:
                if key != cont or t != 5:
                    raise ValueError("spec: bad continuation")
                out[-1][1][1] += v[1]
            else:
                out.append([key, v])
            cont = key if t == 5 and len(v[1]) == MAXW else None
    raise ValueError(k)


def norm_var(v):
    """canonical form: byte models expanded to latin-1 strings"""
    k, p = v
    if k == "string":
        return [k, B(p).decode("latin1")]
    if k == "array":
        return [k, [p[0], [norm_var(e) for e in p[1]]]]
    if k == "struct":
        return [k, [[a, norm_var(b)] for a, b in p]]
    if k == "vec2":
        return [k, [float(p[0]), float(p[1])]]
    if k == "bool":
        return [k, bool(p)]
    if k == "float":
        return [k, float(p)]
    return [k, p]


# --------------------------------------------------------------------- tiles
def _swap(side, pair):
    return (pair[1], pair[0]) if side in (1, 2) else (pair[0], pair[1])


def enc_tile_rec(t):
    """12-byte surface record"""
    d = [0] * 12
    for s, e in enumerate(t["edges"]):
        c = _swap(s, e["caps"])
        a = _swap(s, e["angles"])
        bits = ((s, e["solid"]), (4 + s, e["visible"]), (8 + 2 * s, c[0]), (9 + 2 * s, c[1]))
        for o, v in bits:
            if v:
                d[o // 8] |= 1 << (o % 8)
        d[2 + 2 * s] = a[0] % 256
        d[3 + 2 * s] = a[1] % 256
    d[10] = t["set"] + 16 * t["pal"]
    d[11] = t["tile"]
    return bytes(d)


def _s8(x):
    return x - 256 if x > 127 else x


def dec_tile_rec(d, t):
    for s, e in enumerate(t["edges"]):
        e["solid"] = bool(d[0] >> s & 1)
        e["visible"] = bool(d[0] >> (4 + s) & 1)
        e["caps"] = list(_swap(s, (bool(d[1] >> (2 * s) & 1), bool(d[1] >> (2 * s + 1) & 1))))
        e["angles"] = list(_swap(s, (_s8(d[2 + 2 * s]), _s8(d[3 + 2 * s]))))
    t["set"] = d[10] & 15
    t["pal"] = d[10] >> 4
    t["tile"] = d[11]


def enc_dust_rec(t):
    d = [0] * 12
    for s, e in enumerate(t["edges"]):
        c = _swap(s, e["fcaps"])
        a = _swap(s, e["fangles"])
        nib = e["fset"] + (8 if e["fspike"] else 0)
        d[s // 2] |= nib << (4 * (s % 2))
        d[2 + 2 * s] = a[0] % 256
        d[3 + 2 * s] = a[1] % 256
        d[10] |= (1 if c[0] else 0) << (2 * s) | (1 if c[1] else 0) << (2 * s + 1)
    return bytes(d)


def dec_dust_rec(d, t):
    for s, e in enumerate(t["edges"]):
        nib = d[s // 2] >> (4 * (s % 2)) & 15
        e["fset"] = nib & 7
        e["fspike"] = bool(nib & 8)
        e["fcaps"] = list(_swap(s, (bool(d[10] >> (2 * s) & 1), bool(d[10] >> (2 * s + 1) & 1))))
        e["fangles"] = list(_swap(s, (_s8(d[2 + 2 * s]), _s8(d[3 + 2 * s]))))


def blank_edge():
    return {"solid": False, "visible": False, "caps": [False, False], "angles": [0, 0],
            "fset": 0, "fspike": False, "fcaps": [False, False], "fangles": [0, 0]}


def blank_tile():
    return {"shape": 0, "flags": 4, "set": 5, "tile": 1, "pal": 0, "edges": [blank_edge() for _ in range(4)]}


def has_filth(t):
    return any(e["fset"] for e in t["edges"])


DUSTBLOCK = (-1, 21, 13, 6, 9, 2, -1, -1)

# --------------------------------------------------------------- the level
FILTH_BY_TYPE = {
    "enemy_tutorial_square": 1, "enemy_tutorial_hexagon": 1, "enemy_slime_beast": 9, "enemy_slime_barrel": 3,
    "enemy_spring_ball": 5, "enemy_slime_ball": 3, "enemy_trash_tire": 3, "enemy_trash_beast": 9,
    "enemy_trash_can": 9, "enemy_trash_ball": 3, "enemy_bear": 9, "enemy_stoneboss": 12, "enemy_stonebro": 3,
    "enemy_porcupine": 1, "enemy_wolf": 5, "enemy_critter": 3, "enemy_flag": 5, "enemy_scrolls": 1,
    "enemy_treasure": 1, "enemy_chest_treasure": 9, "enemy_chest_scrolls": 9, "enemy_butler": 1, "enemy_maid": 1,
    "enemy_knight": 9, "enemy_gargoyle_big": 5, "enemy_gargoyle_small": 3, "enemy_book": 3, "enemy_hawk": 3,
    "enemy_key": 1, "enemy_door": 0,
}


def seg_totals(tiles, ents):
    """(dust, enemy, surface, dustblock) totals of a chunk"""
    dust = surface = block = 0
    for layer, _x, _y, t in tiles:
        if layer != 19:
            continue
        if DUSTBLOCK[t["set"]] == t["tile"]:
            block += 1
        for e in t["edges"]:
            if not e["fspike"]:
                dust += e["fset"] != 0
                surface += bool(e["solid"] and e["visible"])
    enemy = sum(FILTH_BY_TYPE.get(e["etype"], 0) for _i, _x, _y, e in ents)
    return dust, enemy, surface, block


def scale_step(k):
    return 50.0 ** ((k - 32.0) / 24.0)


def enc_segment(w, sx, sy, tiles, props, ents, version=8):
    """tiles [layer,x,y,tile] local coords, props [id,layer,x,y,prop], ents [id,x,y,ent]"""
    body = BitBuf()
    flags = 0
    layers = sorted({t[0] for t in tiles})
    if layers:
        flags |= 1
        body.f(8, len(layers))
        for ly in layers:
            tl = sorted((t for t in tiles if t[0] == ly), key=lambda t: (t[2], t[1]))
            body.f(8, ly)
            body.f(10, len(tl))
            for _l, x, y, t in tl:
                body.f(5, x)
                body.f(5, y)
                body.f(5, t["shape"])
                body.f(3, t["flags"])
                body.b(enc_tile_rec(t))
    dusts = sorted((t for t in tiles if t[0] == 19 and has_filth(t[3])), key=lambda t: (t[2], t[1]))
    if dusts:
        flags |= 2
        body.f(10, len(dusts))
        for _l, x, y, t in dusts:
            body.f(5, x)
            body.f(5, y)
            body.b(enc_dust_rec(t))
    if props:
        flags |= 8
        body.f(16, len(props))
        for i, ly, x, y, p in props:
            body.f(32, i)
            body.f(8, ly)
            body.f(8, p["sub"])
            k = p["scale"]  # grid index 0..55
            for c, sc in ((x, k // 7), (y, k % 7)):
                body.f(1, 1 if c < 0 else 0)
                body.f(27, int(abs(c)))
                body.f(4, sc ^ 4)
            body.f(16, p["rot"])
            body.f(1, 1 if p["fx"] else 0)
            body.f(1, 1 if p["fy"] else 0)
            body.f(8, p["set"])
            body.f(12, p["group"])
            body.f(12, p["index"])
            body.f(8, p["pal"])
    if ents:
        flags |= 4
        names = BitBuf()
        body.f(16, len(ents))
        for i, x, y, e in ents:
            body.f(32, i)
            ext = e["etype"].startswith("z_") or e["etype"] == "entity"
            enc_str6(body, "entity" if ext else e["etype"])
            if ext:
                enc_str6(names, e["etype"])
            enc_float(body, 32, 8, x)
            enc_float(body, 32, 8, y)
            body.f(16, e["rot"])
            body.f(8, e["layer"])
            body.f(1, 0 if e["fx"] else 1)
            body.f(1, 0 if e["fy"] else 1)
            body.f(1, 1 if e["vis"] else 0)
            enc_var(body, ["struct", e["vars"]])
        p0 = body.tell()
        body.b(names.bytes())
        body.align()
        body.f(32, body.tell() - p0)
    bb = body.bytes()
    dust, enemy, surface, block = seg_totals(tiles, ents)
    w.f(32, 25 + len(bb))
    w.f(16, version)
    w.f(8, sx)
    w.f(8, sy)
    w.f(8, 16)
    w.f(32, 0)
    w.f(16, dust)
    w.f(16, enemy)
    w.f(16, surface)
    w.f(16, block)
    w.f(32, flags)
    w.b(bb)


def trunc48(c):
    return int(c / 48)


def group_level(m):
    """group a level model into {region key: (segments {key: [tiles,props,ents]}, backdrop [tiles,props,[]] | None)}"""
    regs = {}

    def reg(rx, ry):
        return regs.setdefault((rx, ry), ({}, [None]))

    def seg(tx, ty):
        r = reg(tx >> 8, ty >> 8)
        return r[0].setdefault((tx >> 4 & 15, ty >> 4 & 15), [[], [], []])

    def back(tx, ty):
        r = reg(tx, ty)
        if r[1][0] is None:
            r[1][0] = [[], [], []]
        return r[1][0]

    for ly, x, y, t in m["tiles"]:
        seg(x, y)[0].append([ly, x & 15, y & 15, t])
    for i, x, y, e in m["entities"]:
        seg(trunc48(x), trunc48(y))[2].append([i, x, y, e])
    for i, ly, x, y, p in m["props"]:
        seg(trunc48(x), trunc48(y))[1].append([i, ly, x, y, p])
    bd = m.get("backdrop") or {"tiles": [], "props": []}
    for ly, x, y, t in bd["tiles"]:
        back(x >> 4, y >> 4)[0].append([ly, x & 15, y & 15, t])
    for i, ly, x, y, p in bd["props"]:
        back(trunc48(x) >> 8, trunc48(y) >> 8)[1].append([i, ly, x, y, p])
    return regs


def enc_region(rx, ry, segs, backdrop):
    w = BitBuf()
    for (sx, sy), (t, p, e) in sorted(segs.items(), key=lambda kv: kv[0]):
        enc_segment(w, sx, sy, t, p, e)
    if backdrop is not None:
        enc_segment(w, 0, 0, *backdrop)
    raw = w.bytes()
    z = zlib.compress(raw)
    o = BitBuf()
    o.f(32, 17 + len(z))
    o.f(32, len(raw))
    o.f(16, rx)
    o.f(16, ry)
    o.f(16, 14)
    o.f(16, len(segs))
    o.f(8, 0 if backdrop is None else 1)
    o.b(z)
    return o.bytes()


def enc_level_raw(sshot, variables, next_id, regions):
    """level file from already encoded region byte strings"""
    v = BitBuf()
    v.b(b"DF_LVL")
    v.f(16, 44)
    v.f(32, 0)
    v.f(32, len(regions))
    v.b(b"DF_MTD")
    v.f(16, 4)
    v.f(32, 0)
    v.f(32, next_id)
    v.f(32, 0)
    v.f(32, 0)
    v.f(32, 0)
    v.f(32, len(sshot))
    v.b(sshot)
    enc_var(v, ["struct", variables])
    off = 0
    for r in regions:
        v.f(32, off)
        off += len(r)
    v.align()
    for r in regions:
        v.b(r)
    out = bytearray(v.bytes())
    out[8:12] = len(out).to_bytes(4, "little")
    return bytes(out)


def enc_level(m):
    regs = group_level(m)
    keys = sorted(regs, key=lambda k: (k[0] & 0xFFFF, k[1] & 0xFFFF))
    return enc_level_raw(B(m["sshot"]), m["vars"], m.get("next_id", 101),
                         [enc_region(k[0], k[1], regs[k][0], regs[k][1][0]) for k in keys])


# ------------------------------------------------------------ level decoding
def dec_segment(r, tx0, ty0, dustmod=False):
    """-> dict(tiles, props, entities, totals, flags, size, seg)"""
    start = r.pos
    assert start % 8 == 0
    size = r.f(32)
    ver = r.f(16)
    sx, sy, width = r.f(8), r.f(8), r.f(8)
    uid, dust, enemy, surface, block = r.f(32), r.f(16), r.f(16), r.f(16), r.f(16)
    flags = r.f(32)
    if ver != 8 or width != 16:
        raise ValueError("spec: segment version/width")
    ox, oy = tx0 + 16 * sx, ty0 + 16 * sy
    tiles, props, ents, raw = {}, {}, {}, []
    if flags & 1:
        seen_layers = set()
        for _ in range(r.f(8)):
            ly = r.f(8)
            if ly in seen_layers:
                raise ValueError("spec: repeated layer")
            seen_layers.add(ly)
            for _ in range(r.f(10)):
                x, y = r.f(5), r.f(5)
                t = blank_tile()
                t["shape"] = r.f(5)
                t["flags"] = r.f(3)
                dec_tile_rec(r.b(12), t)
                if x > 15 or y > 15:
                    raise ValueError("spec: tile offset")
                k = (ly, ox + x, oy + y)
                if k in tiles:
                    raise ValueError("spec: duplicate tile %r" % (k,))
                tiles[k] = t
    if flags & 2:
        seen = set()
        for _ in range(r.f(10)):
            x, y = r.f(5), r.f(5)
            d = r.b(12)
            k = (19, ox + x, oy + y)
            if k in seen:
                raise ValueError("spec: duplicate dust")
            seen.add(k)
            if k not in tiles:
                raise ValueError("spec: dust without tile")
            dec_dust_rec(d, tiles[k])
    if flags & 8:
        for _ in range(r.f(16)):
            i = r.f(32, True)
            ly, sub = r.f(8), r.f(8)
            c = []
            for _ in range(2):
                s, n, sc = r.f(1), r.f(27), r.f(4)
                c.append((-n if s else n, (sc & 7) ^ 4))
            p = {"sub": sub, "scale": c[0][1] * 7 + c[1][1]}
            p["rot"] = r.f(16)
            p["fx"] = r.f(1) == 1
            p["fy"] = r.f(1) == 1
            p["set"], p["group"], p["index"], p["pal"] = r.f(8), r.f(12), r.f(12), r.f(8)
            if i in props or i < 0:
                raise ValueError("spec: prop id")
            props[i] = [ly, c[0][0], c[1][0], p]
    if flags & 4:
        ext = []
        for _ in range(r.f(16)):
            i = r.f(32, True)
            e = {"etype": dec_str6(r)}
            x = dec_float(r, 32, 8)
            y = dec_float(r, 32, 8)
            e["rot"], e["layer"] = r.f(16), r.f(8)
            e["fx"], e["fy"], e["vis"] = r.f(1) == 0, r.f(1) == 0, r.f(1) == 1
            e["vars"] = dec_var(r, "struct")[1]
            if i in ents or i < 0:
                raise ValueError("spec: entity id")
            ents[i] = [x, y, e]
            if e["etype"] == "entity":
                ext.append(i)
        if ext:
            r2 = BitSrc(r.data, start + (size - 4) * 8)
            back = r2.f(32)
            r2.pos = start + (size - 4) * 8 - back
            for i in ext:
                ents[i][2]["etype"] = dec_str6(r2)
    r.pos = start + size * 8
    if r.pos > len(r.data) * 8:
        raise ValueError("spec: segment size")
    return {"tiles": tiles, "props": props, "entities": ents, "totals": (dust, enemy, surface, block),
            "flags": flags, "seg": (sx, sy), "uid": uid}


def dec_level(data, full=True):
    """Decode a level file; raises ValueError on any structural flaw."""
    r = BitSrc(data)
    if r.b(6) != b"DF_LVL":
        raise ValueError("spec: magic")
    out = {"version": r.f(16)}
    if out["version"] != 44:
        raise ValueError("spec: version")
    size = r.f(32)
    n = r.f(32)
    if r.b(6) != b"DF_MTD":
        raise ValueError("spec: metadata magic")
    out["mver"] = r.f(16)
    r.f(32)
    out["next_id"] = r.f(32)
    out["uids"] = [r.f(32) for _ in range(3)]
    out["sshot"] = r.b(r.f(32)).decode("latin1")
    out["vars"] = dec_var(r, "struct")[1]
    offs = [r.f(32) for _ in range(n)]
    r.align()
    base = r.pos >> 3
    if size != len(data):
        raise ValueError("spec: file size %d != %d" % (size, len(data)))
    out["offsets"] = offs
    out["map_data"] = data[base:]
    tiles, props, ents, btiles, bprops, chunks, keys = {}, {}, {}, {}, {}, [], []
    if full:
        pos = base
        for k in range(n):
            if offs[k] != pos - base:
                raise ValueError("spec: region offset %d != %d" % (offs[k], pos - base))
            q = BitSrc(data, pos * 8)
            ln, un = q.f(32), q.f(32)
            rx, ry = q.f(16, True), q.f(16, True)
            q.f(16)
            ns, hb = q.f(16), q.f(8)
            raw = zlib.decompress(q.b(ln - 17))
            if len(raw) != un:
                raise ValueError("spec: uncompressed length")
            keys.append((rx, ry))
            s = BitSrc(raw)
            for _ in range(ns):
                s.align()
                d = dec_segment(s, rx * 256, ry * 256)
                chunks.append((("map", rx, ry) + d["seg"], d))
                _merge(tiles, d["tiles"], "tile")
                _merge(props, d["props"], "prop")
                _merge(ents, d["entities"], "entity")
            if hb:
                s.align()
                d = dec_segment(s, rx * 16, ry * 16)
                chunks.append((("back", rx, ry) + d["seg"], d))
                _merge(btiles, d["tiles"], "backdrop tile")
                _merge(bprops, d["props"], "backdrop prop")
                if d["entities"]:
                    raise ValueError("spec: backdrop entity")
            if s.pos != len(raw) * 8:
                raise ValueError("spec: region length")
            pos += ln
        if pos != len(data):
            raise ValueError("spec: map data length")
        uk = [(a & 0xFFFF, b & 0xFFFF) for a, b in keys]
        if uk != sorted(set(uk)):
            raise ValueError("spec: region order")
    out.update(tiles=tiles, props=props, entities=ents, btiles=btiles, bprops=bprops, chunks=chunks, keys=keys)
    return out


def _merge(dst, src, what):
    for k, v in src.items():
        if k in dst:
            raise ValueError("spec: duplicate %s %r" % (what, k))
        dst[k] = v


# ------------------------------------------------------------- variable file
def enc_varfile(header, variables):
    w = BitBuf()
    w.b(header)
    w.f(16, 1)
    w.f(32, 0)
    enc_var(w, ["struct", variables])
    out = bytearray(w.bytes())
    out[len(header) + 2:len(header) + 6] = len(out).to_bytes(4, "little")
    return bytes(out)


# ------------------------------------------------------------------- replays
# (bits, first version, encode, decode, neutral)
INTENTS = (
    (2, 1, lambda v: v + 1, lambda b: b - 1, 0),
    (2, 1, lambda v: v + 1, lambda b: b - 1, 0),
    (2, 1, int, int, 0), (2, 1, int, int, 0), (2, 1, int, int, 0),
    (4, 1, int, int, 0), (4, 1, int, int, 0), (4, 3, int, int, 0),
    (16, 4, lambda v: int(round(v * 32767)), lambda b: b / 32767.0, 0.0),
    (16, 4, lambda v: int(round(v * 32767)), lambda b: b / 32767.0, 0.0),
    (8, 4, int, int, 0),
)


def enc_runs(w, bits, vals, neutral):
    """run-length code: first byte = length of the leading neutral run (may be 0), then (value, run-1)
    pairs, 0xFF byte ends; the frame before the first is a neutral frame (so first count c means c frames)."""
    seq = list(vals)
    while seq and seq[-1] == neutral:
        seq.pop()
    runs = []
    for v in seq:
        if runs and runs[-1][0] == v:
            runs[-1][1] += 1
        else:
            runs.append([v, 1])
    lead = 0
    if runs and runs[0][0] == neutral:
        lead = runs.pop(0)[1]
    out = []
    n = min(lead, 0xFE)
    w.f(8, n)
    lead -= n
    while lead:
        n = min(lead, 0xFF)
        out.append((neutral, n))
        lead -= n
    for v, c in runs:
        while c:
            n = min(c, 0xFF)
            out.append((v, n))
            c -= n
    for v, n in out:
        w.f(bits, v)
        w.f(8, n - 1)
    w.f(bits, neutral)
    w.f(8, 0xFF)


def dec_runs(r, bits, neutral):
    vals = [neutral] * 0
    cnt = r.f(8)
    if cnt == 0xFF:
        return vals
    vals += [neutral] * cnt
    v = r.f(bits)
    while True:
        cnt = r.f(8)
        if cnt == 0xFF:
            return vals
        vals += [v] * (cnt + 1)
        v = r.f(bits)


def enc_replay(m, with_username=None):
    w = BitBuf()
    user = B(m["username"])
    if user if with_username is None else with_username:
        w.b(b"DF_RPL2")
        w.f(16, len(user))
        w.b(user)
    w.b(b"DF_RPL")
    w.f(8, 48 + m["version"])
    s = BitBuf()
    for pl in m["players"]:
        for k, (bits, ver, enc, _dec, neutral) in enumerate(INTENTS):
            if m["version"] < ver:
                break
            t = BitBuf()
            enc_runs(t, bits, [enc(v) for v in pl["intents"].get(str(k), [])], enc(neutral))
            tb = t.bytes()
            s.f(32, len(tb))
            s.b(tb)
    ib = s.bytes()
    u = BitBuf()
    u.f(32, len(ib))
    u.b(ib)
    u.f(32, len(m["entities"]))
    for k, (eid, frames) in enumerate(m["entities"]):
        u.f(32, eid)
        u.f(32, k)
        u.f(32, len(frames))
        for fr in frames:  # [frame, x10, y10, xs100, ys100] stored integers
            for q in fr:
                u.f(32, q)
    ub = u.bytes()
    w.f(16, len(m["players"]))
    w.f(32, len(ub))
    w.f(32, m["frames"])
    for pl in m["players"]:
        w.f(8, pl["character"])
    lv = B(m["level"])
    w.f(8, len(lv))
    w.b(lv)
    w.b(zlib.compress(ub))
    return w.bytes()


def dec_replay(data):
    r = BitSrc(data)
    if r.b(6) != b"DF_RPL":
        raise ValueError("spec: magic")
    v = r.f(8) - 48
    m = {"username": None}
    if v == 2:
        m["username"] = r.b(r.f(16)).decode("latin1")
        if r.b(6) != b"DF_RPL":
            raise ValueError("spec: magic")
        v = r.f(8) - 48
    m["version"] = v
    n = r.f(16)
    if v < 3:
        n = 1
    un = r.f(32)
    m["frames"] = r.f(32)
    m["players"] = [{"character": r.f(8), "intents": {}} for _ in range(n)]
    m["level"] = r.b(r.f(8)).decode("latin1")
    assert r.pos % 8 == 0
    raw = zlib.decompress(data[r.pos // 8:])
    if len(raw) != un:
        raise ValueError("spec: uncompressed size")
    s = BitSrc(raw)
    il = s.f(32)
    for pl in m["players"]:
        for k, (bits, ver, enc, dec, neutral) in enumerate(INTENTS):
            if v < ver:
                break
            ln = s.f(32)
            end = s.pos + ln * 8
            pl["intents"][str(k)] = [dec(b) for b in dec_runs(s, bits, enc(neutral))]
            if s.pos > end or end - s.pos >= 8:
                raise ValueError("spec: intent length")
            s.pos = end
    if s.pos != 32 + il * 8:
        raise ValueError("spec: inputs length")
    m["entities"] = []
    for k in range(s.f(32)):
        eid, rid = s.f(32), s.f(32)
        if rid != k:
            raise ValueError("spec: replay uid")
        m["entities"].append([eid, [[s.f(32)] + [s.f(32, True) for _ in range(4)] for _ in range(s.f(32))]])
    if s.pos != len(raw) * 8:
        raise ValueError("spec: replay length")
    return m
