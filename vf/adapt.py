"""Conversions between the neutral models of refcodec and the library's objects.

`dm` is the imported `dustmaker` package (the real /repo code)."""
import importlib

from .refcodec import B, scale_step


class DM:
    """handle on the library under test (package name `dustmaker`, imported from /repo)"""

    def __init__(self, pkg="dustmaker"):
        self.pkg = pkg
        for m in ("bitio", "dfreader", "dfwriter", "variable", "tile", "transform", "prop", "entity", "level", "replay", "exceptions"):
            setattr(self, m, importlib.import_module(pkg + "." + m))

    def cmd(self, name):
        return importlib.import_module(self.pkg + ".cmd." + name)


VCLS = {"bool": "VariableBool", "int": "VariableInt", "uint": "VariableUInt", "float": "VariableFloat",
        "string": "VariableString", "vec2": "VariableVec2", "array": "VariableArray", "struct": "VariableStruct"}
VKIND = {v: k for k, v in VCLS.items()}


def vcls(dm, kind):
    return getattr(dm.variable, VCLS[kind])


def mk_var(dm, m):
    k, p = m
    c = vcls(dm, k)
    if k == "string":
        return c(B(p))
    if k == "vec2":
        return c((float(p[0]), float(p[1])))
    if k == "array":
        return c(vcls(dm, p[0]), [mk_var(dm, e) for e in p[1]])
    if k == "struct":
        return c({a: mk_var(dm, b) for a, b in p})
    if k == "float":
        return c(float(p))
    if k == "bool":
        return c(bool(p))
    return c(p)


def mk_vars(dm, pairs):
    return {a: mk_var(dm, b) for a, b in pairs}


def un_var(dm, v):
    """library variable -> model; strict about python types"""
    k = VKIND.get(type(v).__name__)
    if k is None or type(v) is not vcls(dm, k):
        raise ValueError("not a plain variable: %r" % (v,))
    x = v.value
    if k == "string":
        if type(x) is not bytes:
            raise ValueError("string payload %r" % type(x))
        return [k, x.decode("latin1")]
    if k == "vec2":
        if type(x) is not tuple or len(x) != 2 or any(type(q) is not float for q in x):
            raise ValueError("vec2 payload")
        return [k, [x[0], x[1]]]
    if k == "array":
        if type(x) is not tuple or not isinstance(x[1], list):
            raise ValueError("array payload")
        ek = VKIND[x[0].__name__]
        if x[0] is not vcls(dm, ek):
            raise ValueError("array element type")
        els = [un_var(dm, e) for e in x[1]]
        if any(e[0] != ek for e in els):
            raise ValueError("array element of another type")
        return [k, [ek, els]]
    if k == "struct":
        return [k, un_vars(dm, x)]
    if k == "bool" and type(x) is not bool or k == "float" and type(x) is not float or k in ("int", "uint") and not isinstance(x, int):
        raise ValueError("payload type %r" % (x,))
    if k in ("int", "uint"):
        x = int(x)
    return [k, x]


def un_vars(dm, d):
    if not isinstance(d, dict):
        raise ValueError("not a mapping: %r" % type(d))
    return [[a, un_var(dm, b)] for a, b in d.items()]


def mk_edge(dm, e):
    return dm.tile.TileEdgeData(
        solid=bool(e["solid"]), visible=bool(e["visible"]), caps=tuple(map(bool, e["caps"])), angles=tuple(e["angles"]),
        filth_sprite_set=dm.tile.TileSpriteSet(e["fset"]), filth_spike=bool(e["fspike"]),
        filth_caps=tuple(map(bool, e["fcaps"])), filth_angles=tuple(e["fangles"]))


def mk_tile(dm, t):
    tl = dm.tile.Tile(dm.tile.TileShape(t["shape"]), tile_flags=t["flags"], sprite_set=dm.tile.TileSpriteSet(t["set"]),
                      sprite_tile=t["tile"], sprite_palette=t["pal"])
    tl.edge_data = [mk_edge(dm, e) for e in t["edges"]]
    return tl


def un_edge(e):
    return {"solid": bool(e.solid), "visible": bool(e.visible), "caps": [bool(e.caps[0]), bool(e.caps[1])],
            "angles": [int(e.angles[0]), int(e.angles[1])], "fset": int(e.filth_sprite_set), "fspike": bool(e.filth_spike),
            "fcaps": [bool(e.filth_caps[0]), bool(e.filth_caps[1])],
            "fangles": [int(e.filth_angles[0]), int(e.filth_angles[1])]}


def un_tile(t):
    if len(t.edge_data) != 4:
        raise ValueError("tile has %d edges" % len(t.edge_data))
    return {"shape": int(t.shape), "flags": int(t.tile_flags), "set": int(t.sprite_set), "tile": int(t.sprite_tile),
            "pal": int(t.sprite_palette), "edges": [un_edge(e) for e in t.edge_data]}


def mk_prop(dm, p):
    return dm.prop.Prop(p["sub"], p["rot"], bool(p["fx"]), bool(p["fy"]), scale_step(p["scale"]), p["set"], p["group"], p["index"], p["pal"])


def un_prop(p):
    """scale is mapped back to its grid index when it is (numerically) on the grid"""
    import math

    k = None
    if p.scale > 0:
        k = int(round(24 * math.log(p.scale) / math.log(50.0))) + 32
        if not math.isclose(scale_step(k), p.scale, rel_tol=1e-9):
            k = ["off-grid", p.scale]
    return {"sub": int(p.layer_sub), "rot": int(p.rotation), "fx": bool(p.flip_x), "fy": bool(p.flip_y), "scale": k,
            "set": int(p.prop_set), "group": int(p.prop_group), "index": int(p.prop_index), "pal": int(p.palette)}


def mk_ent(dm, e):
    cls = entity_class(dm, e["etype"])
    en = cls(mk_vars(dm, e["vars"]), e["rot"], e["layer"], bool(e["fx"]), bool(e["fy"]), bool(e["vis"]))
    en.etype = e["etype"]
    return en


def entity_class(dm, etype):
    """class registered for a type name, found by scanning the module, not the library's own table"""
    for c in vars(dm.entity).values():
        if isinstance(c, type) and issubclass(c, dm.entity.Entity) and c.__dict__.get("TYPE_IDENTIFIER") == etype:
            return c
    return dm.entity.Entity


def entity_types(dm):
    return sorted(c.__dict__["TYPE_IDENTIFIER"] for c in vars(dm.entity).values()
                  if isinstance(c, type) and issubclass(c, dm.entity.Entity) and "TYPE_IDENTIFIER" in c.__dict__)


def un_ent(dm, e):
    if type(e) is not entity_class(dm, e.etype):
        raise ValueError("entity %r has class %s" % (e.etype, type(e).__name__))
    return {"etype": e.etype, "rot": int(e.rotation), "layer": int(e.layer), "fx": bool(e.flip_x), "fy": bool(e.flip_y),
            "vis": bool(e.visible), "vars": un_vars(dm, e.variables)}


def mk_level(dm, m, direct=False):
    lv = dm.level.Level()
    lv.variables = mk_vars(dm, m["vars"])
    lv.sshot = B(m["sshot"])
    for ly, x, y, t in m["tiles"]:
        lv.tiles[(ly, x, y)] = mk_tile(dm, t)
    for i, ly, x, y, p in m["props"]:
        if direct:
            lv.props[i] = (ly, x, y, mk_prop(dm, p))
        else:
            lv.add_prop(ly, x, y, mk_prop(dm, p), i)
    for i, x, y, e in m["entities"]:
        if direct:
            lv.entities[i] = (x, y, mk_ent(dm, e))
        else:
            lv.add_entity(x, y, mk_ent(dm, e), i)
    bd = m.get("backdrop") or {"tiles": [], "props": []}
    for ly, x, y, t in bd["tiles"]:
        lv.backdrop.tiles[(ly, x, y)] = mk_tile(dm, t)
    for i, ly, x, y, p in bd["props"]:
        if direct:
            lv.backdrop.props[i] = (ly, x, y, mk_prop(dm, p))
        else:
            lv.backdrop.add_prop(ly, x, y, mk_prop(dm, p), i)
    return lv


def un_level(dm, lv):
    """-> dict of plain dicts (tiles, props, entities, btiles, bprops) + sshot, vars"""
    return {
        "sshot": lv.sshot.decode("latin1"),
        "vars": un_vars(dm, lv.variables),
        "tiles": {tuple(map(int, k)): un_tile(t) for k, t in lv.tiles.items()},
        "props": {int(i): [int(v[0]), v[1], v[2], un_prop(v[3])] for i, v in lv.props.items()},
        "entities": {int(i): [v[0], v[1], un_ent(dm, v[2])] for i, v in lv.entities.items()},
        "btiles": {tuple(map(int, k)): un_tile(t) for k, t in lv.backdrop.tiles.items()},
        "bprops": {int(i): [int(v[0]), v[1], v[2], un_prop(v[3])] for i, v in lv.backdrop.props.items()},
    }


def model_sets(m):
    """level model -> the same shape as un_level"""
    from .refcodec import norm_var

    def nt(t):
        return {"shape": t["shape"], "flags": t["flags"], "set": t["set"], "tile": t["tile"], "pal": t["pal"],
                "edges": [{"solid": bool(e["solid"]), "visible": bool(e["visible"]), "caps": list(map(bool, e["caps"])),
                           "angles": list(e["angles"]), "fset": e["fset"], "fspike": bool(e["fspike"]),
                           "fcaps": list(map(bool, e["fcaps"])), "fangles": list(e["fangles"])} for e in t["edges"]]}

    def npr(p):
        return {k: (bool(v) if k in ("fx", "fy") else v) for k, v in p.items()}

    def ne(e):
        d = {k: (bool(v) if k in ("fx", "fy", "vis") else v) for k, v in e.items()}
        d["vars"] = [[a, norm_var(b)] for a, b in e["vars"]]
        return d

    bd = m.get("backdrop") or {"tiles": [], "props": []}
    return {
        "sshot": B(m["sshot"]).decode("latin1"),
        "vars": [[a, norm_var(b)] for a, b in m["vars"]],
        "tiles": {(ly, x, y): nt(t) for ly, x, y, t in m["tiles"]},
        "props": {i: [ly, x, y, npr(p)] for i, ly, x, y, p in m["props"]},
        "entities": {i: [x, y, ne(e)] for i, x, y, e in m["entities"]},
        "btiles": {(ly, x, y): nt(t) for ly, x, y, t in bd["tiles"]},
        "bprops": {i: [ly, x, y, npr(p)] for i, ly, x, y, p in bd["props"]},
    }


def diff(a, b, path=""):
    """first difference between two plain structures, or None"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return "%s: missing %r" % (path, k)
        for k in b:
            if k not in a:
                return "%s: unexpected %r" % (path, k)
        for k in a:
            d = diff(a[k], b[k], "%s[%r]" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d, expected %d" % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if a != b or isinstance(a, bool) != isinstance(b, bool):
        ra, rb = repr(a), repr(b)
        return "%s: got %s, expected %s" % (path, rb[:120], ra[:120])
    return None


# ------------------------------------------------------------------- replays
def mk_replay(dm, m):
    rp = dm.replay
    ents = {}
    for eid, frames in m["entities"]:
        ents[eid] = rp.EntityData(frames=[rp.EntityFrame(frame=f[0], x_pos=f[1], y_pos=f[2], x_speed=f[3], y_speed=f[4]) for f in frames])
    players = []
    for pl in m["players"]:
        it = {}
        for k, vals in pl["intents"].items():
            if int(k) == 10:
                vals = [rp.MouseState(v) for v in vals]
            it[rp.IntentStream(int(k))] = list(vals)
        players.append(rp.PlayerData(character=rp.Character(pl["character"]), intents=it))
    return rp.Replay(version=m["version"], username=B(m["username"]), level=B(m["level"]), frames=m["frames"], players=players, entities=ents)
