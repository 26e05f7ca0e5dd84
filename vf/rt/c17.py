import io

from ..adapt import mk_level, mk_tile, un_level
from ..refcodec import blank_tile
from .base import Bad, eq, need, raises, reader, write_with

REFS = {"AI_controller": ("puppet_id", "uint", False), "camera_node": ("c_node_ids", "uint", True), "level_end": ("ent_list", "uint", True),
        "enemy_key": ("door", "uint", False), "custom_score_book": ("level_list_id", "int", False)}
KINDS = list(REFS) + ["plain_thing"]


def _id(g):
    return g.r.choice([None, None, None, g.r.randint(1, 12), g.r.randint(95, 130), g.r.randint(1, 3000), g.int(1, (1 << 31) - 1000)])


def _content(g, ids, n=5):
    """list of initial objects: [where, id, kind, refs]"""
    out, seen = [], set()
    for _ in range(g.small(n)):
        w = g.r.choice(["p", "e", "e", "e", "b"])
        i = g.r.choice(ids)
        if (w, i) in seen:
            continue
        seen.add((w, i))
        k = g.r.choice(KINDS) if w == "e" else ""
        out.append([w, i, k, [g.r.choice(ids + [0, 77777]) for _ in range(g.r.randint(0, 3))]])
    return out


def _ops(g, n):
    ops = []
    for _ in range(n):
        c = g.r.randrange(11)
        if c < 5:
            w = g.r.choice(["p", "e", "e", "b"])
            ops.append(["add", w, _id(g), g.r.choice(KINDS) if w == "e" else "", [g.r.randint(95, 130) for _ in range(g.r.randint(0, 3))]])
        elif c == 5:
            ops.append(["del", g.r.choice("peb"), g.r.randrange(5)])
        elif c == 6:
            ops.append(["remap", g.r.choice([100, 100, 1, 2, 500, g.r.randint(1, 5000)])])
        elif c in (7, 8):
            ids = g.r.choice([list(range(100, 110)), list(range(1, 9)), [90, 100, 101, 150, 400], [g.int(1, (1 << 30)) for _ in range(4)]])
            ops.append(["merge", _content(g, ids), g.chance(0.6), [[g.r.choice([19, 3]), g.r.randint(-2, 2), g.r.randint(-2, 2), g.r.randint(0, 20)] for _ in range(g.small(4))]])
        elif c == 9:
            ops.append(["save"])
        else:
            ops.append(["reload"])
    return ops


def gen(g):
    for w in "peb":
        for i in (1, 2, 99, 100, 101, 102, 5000):
            for x in ([["save"]], [["reload"]], [], [["remap", 100]], [["remap", 3000]], [["save"], ["save"]]):
                yield {"init": [[w, i, "enemy_key", [i]]] if w == "e" else [[w, i, "", []]], "ops": x + [["add", "p", None, "", []], ["add", "e", None, "camera_node", [i]], ["add", "b", None, "", []], ["add", "b", None, "", []]]}
    for k in KINDS:
        yield {"init": [["e", 200, "plain_thing", []], ["e", 201, "plain_thing", []], ["e", 202, k, [201, 200, 999]], ["p", 200, "", []], ["p", 7, "", []]], "ops": [["remap", 100], ["remap", 200], ["remap", 1]]}
    while True:
        ids = g.r.choice([list(range(95, 106)), list(range(1, 10)), [g.int(1, (1 << 31) - 2000) for _ in range(5)]])
        yield {"init": _content(g, ids, 7), "ops": _ops(g, g.r.randint(1, 9))}


class World:
    """reference state: sets of (id -> tag, kind, refs); tags identify objects"""

    def __init__(self, dm):
        self.dm = dm
        self.n = 0
        self.lv = dm.level.Level()
        self.s = {"p": {}, "e": {}, "b": {}}
        self.tiles = {}

    def obj(self, w, kind, refs):
        self.n += 1
        tag = self.n
        dm = self.dm
        V = dm.variable
        if w != "e":
            return tag, dm.prop.Prop(tag % 251, tag % 65521, False, False, 1.0, 1, 2, tag % 4093, 3)
        vs = {"tag": V.VariableInt(tag)}
        if kind in REFS:
            key, ty, arr = REFS[kind]
            T = V.VariableUInt if ty == "uint" else V.VariableInt
            if arr:
                vs[key] = V.VariableArray(T, [T(r) for r in refs])
            elif refs:
                vs[key] = T(refs[0])
        from ..adapt import entity_class

        e = entity_class(dm, kind)(vs)
        e.etype = kind
        return tag, e

    def add(self, w, i, kind, refs, place=None):
        tag, o = self.obj(w, kind, refs)
        d = self.s[w]
        lv = self.lv
        layer, x, y = place or ((3, 0, 19, 17, 1, 20)[tag % 6], (1.0, 0.0, -70.0, 5.0)[tag % 4], (2.0, 0.0, 3000.0)[tag % 3])
        call = {"p": lambda: lv.add_prop(layer, x, y, o, *([i] if i is not None else [])),
                "e": lambda: lv.add_entity(x, y, o, *([i] if i is not None else [])),
                "b": lambda: lv.backdrop.add_prop(layer, x, y, o, *([i] if i is not None else []))}[w]
        if i is not None and i in d:
            raises(self.dm.exceptions.LevelException, call, "re-adding %s id %d" % (w, i))
            return
        used = set(self.s["p"]) | set(self.s["e"]) | set(self.s["b"])
        r = call()
        if i is not None:
            eq(r, i, "id returned for an explicit id")
        else:
            need(r not in used, "automatic id %r of a new %s is already in use", r, w)
        held = {"p": lv.props, "e": lv.entities, "b": lv.backdrop.props}[w]
        need(r in held, "the new %s is not stored under its id", w)
        eq(tuple(held[r][:-1]), (x, y) if w == "e" else (layer, x, y), "position of a new %s", w)
        need(held[r][-1] is o, "the new %s is not the object stored", w)
        d[r] = (tag, kind, list(refs))

    def view(self):
        lv, dm = self.lv, self.dm

        def pv(p):
            return (p[3].prop_index, p[3].rotation, p[3].layer_sub)

        def ev(e):
            en = e[2]
            k = en.etype
            refs = None
            if k in REFS:
                key, ty, arr = REFS[k]
                v = en.variables.get(key)
                if arr:
                    refs = [] if v is None else [int(x) for x in v]
                else:
                    refs = [] if v is None else [int(v.value)]
            return en.variables["tag"].value, k, refs

        return {"p": {i: pv(v) for i, v in lv.props.items()}, "e": {i: ev(v) for i, v in lv.entities.items()}, "b": {i: pv(v) for i, v in lv.backdrop.props.items()}}

    def verify(self, what):
        v = self.view()
        for w in "pb":
            want = {i: (t % 4093, t % 65521, t % 251) for i, (t, _k, _r) in self.s[w].items()}
            eq(v[w], want, "%s %s", {"p": "props", "b": "backdrop props"}[w], what)
        for i, (t, k, refs) in self.s["e"].items():
            need(i in v["e"], "entity %d lost %s", i, what)
            gt, gk, gr = v["e"][i]
            eq((gt, gk), (t, k), "entity %d %s", i, what)
            if k in REFS:
                arr = REFS[k][2]
                if arr:
                    eq(gr, refs, "references of entity %d (%s) %s", i, k, what)
                else:  # an absent reference and 0 are the same thing
                    eq(gr or [0], refs[:1] or [0], "reference of entity %d (%s) %s", i, k, what)
        eq(set(v["e"]), set(self.s["e"]), "entity ids %s", what)

    def follow(self, min_id, what):
        """after a remap: match by tag, check ids, rewrite refs in the model"""
        v = self.view()
        new = {"p": {}, "e": {}, "b": {}}
        emap = {}
        bytag = {"e": {t[0]: i for i, t in v["e"].items()}}
        for i, (t, k, r) in self.s["e"].items():
            need(t in bytag["e"], "entity %d lost %s", i, what)
            emap[i] = bytag["e"][t]
        for i, (t, k, r) in self.s["e"].items():
            new["e"][emap[i]] = (t, k, [emap.get(x, 0) for x in (r if REFS.get(k, ("", "", False))[2] else r[:1])])
        for w in "pb":
            inv = {}
            for i, t in v[w].items():
                inv.setdefault(t, []).append(i)
            for i, (t, k, r) in self.s[w].items():
                key = (t % 4093, t % 65521, t % 251)
                need(inv.get(key), "%s %d lost %s", w, i, what)
                new[w][inv[key].pop()] = (t, k, r)
        allids = list(new["p"]) + list(new["e"]) + list(new["b"])
        need(len(set(allids)) == len(allids), "ids are not distinct %s: %r", what, sorted(allids)[:12])
        need(all(i >= min_id for i in allids), "id below %d %s: %r", min_id, what, sorted(allids)[:5])
        self.s = new


def check(dm, case):
    w = World(dm)
    for kind, i, k, refs in case["init"]:
        w.add(kind, i, k, refs)
    w.verify("after adding")
    for n, op in enumerate(case["ops"]):
        what = "after operation %d %r" % (n, op[:3] if op[0] != "merge" else "merge")
        if op[0] == "add":
            w.add(op[1], op[2], op[3], op[4], *op[5:6])
        elif op[0] == "del":
            d = w.s[op[1]]
            if d:
                i = sorted(d)[op[2] % len(d)]
                tgt = {"p": w.lv.props, "e": w.lv.entities, "b": w.lv.backdrop.props}[op[1]]
                del tgt[i]
                del d[i]
        elif op[0] == "remap":
            w.lv.remap_ids(op[1]) if op[1] != 100 else w.lv.remap_ids()
            w.follow(op[1], what)
        elif op[0] == "save":
            write_with(dm, lambda x: x.write_level(w.lv))
        elif op[0] == "reload":
            data = write_with(dm, lambda x: x.write_level(w.lv))
            w.lv = reader(dm, data).read_level()
        elif op[0] == "merge":
            o = World(dm)
            o.n = w.n
            taken = {k: set(w.s[k]) for k in "peb"}
            for kind, i, k, refs in op[1]:
                if op[2] or i not in taken[kind]:
                    o.add(kind, i, k, refs)
            w.n = o.n
            for ly, x, y, sh in op[3]:
                t = dict(blank_tile(), shape=sh)
                o.lv.tiles[(ly, x, y)] = mk_tile(dm, t)
                o.lv.backdrop.tiles[(ly, x, y)] = mk_tile(dm, t)
            before = un_level(dm, o.lv)
            mine = dict(w.lv.tiles)
            if op[2]:
                w.lv.merge(o.lv)
                # receiver objects: follow by tag among everything
                v = w.view()
                ours = {"p": {}, "e": {}, "b": {}}
                tmp = World(dm)
                tmp.lv, tmp.s = w.lv, w.s
                omax = max([-1] + list(o.s["p"]) + list(o.s["e"]) + list(o.s["b"]))
                full = w.view

                def only():
                    vv = full()
                    return {"p": {i: x for i, x in vv["p"].items() if i not in o.s["p"]}, "e": {i: x for i, x in vv["e"].items() if i not in o.s["e"]}, "b": {i: x for i, x in vv["b"].items() if i not in o.s["b"]}}

                w.view = only
                w.follow(0, what)
                del w.view
            else:
                w.lv.merge(o.lv, remap_ids=False)
            for k in "peb":
                for i, x in o.s[k].items():
                    need(i not in w.s[k], "merged id %d collides %s", i, what)
                    w.s[k][i] = x
            after = un_level(dm, o.lv)
            need(before == after, "merging changed the other level")
            for key, t in o.lv.tiles.items():
                need(w.lv.tiles.get(key) == t and w.lv.tiles[key] is not t, "tile %r not merged as a copy", key)
                need(w.lv.backdrop.tiles.get(key) == o.lv.backdrop.tiles[key], "backdrop tile %r not merged", key)
            for key in mine:
                need(key in w.lv.tiles, "tile %r lost in merge", key)
            for i in o.s["e"]:
                need(w.lv.entities[i][2] is not o.lv.entities[i][2] and w.lv.entities[i][2].variables is not o.lv.entities[i][2].variables, "entity %d not copied", i)
            for i in o.s["p"]:
                need(w.lv.props[i][3] is not o.lv.props[i][3], "prop %d not copied", i)
        w.verify(what)
    for kind in "peb":
        for _ in range(2):
            w.add(kind, None, "plain_thing" if kind == "e" else "", [])
    w.verify("at the end")
