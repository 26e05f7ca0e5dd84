from ..adapt import mk_var, un_var, un_vars, vcls
from ..refcodec import norm_var
from .base import Bad, eq, need, raises

# type name (or None: level) -> attribute -> (key, kind, default)   kind "array:<k>" for array accessors
COMMON_TRIGGER = {"width": ("width", "int", 500)}
HIT = {"scale": ("dm_scale", "float", 1.0)}
ACC = {
    "": {"name": ("level_name", "string", b""), "virtual_character": ("vector_character", "bool", False), "level_type": ("level_type", "int", 0),
         "dustmod_version": ("dustmod_version", "string", b"")},
    "entity_emitter": {"e_rotation": ("e_rotation", "int", 0), "draw_depth_sub": ("draw_depth_sub", "uint", 0), "r_rotation": ("r_rotation", "bool", False),
                       "r_area": ("r_area", "bool", False), "width": ("width", "int", 480), "height": ("height", "int", 480), "emitter_id": ("emitter_id", "uint", 0)},
    "check_point": {"trigger_areas": ("trigger_area", "array:vec2", None)},
    "level_end_prox": {"trigger_areas": ("trigger_area", "array:vec2", None), "finished": ("finished", "bool", False)},
    "base_trigger": dict(COMMON_TRIGGER),
    "fog_trigger": dict(COMMON_TRIGGER, speed=("fog_speed", "float", 5.0), gradient=("gradient", "array:uint", None), gradient_middle=("gradient_middle", "float", 0.0),
                        star_bottom=("star_bottom", "float", 0.0), star_middle=("star_middle", "float", 0.4), star_top=("star_top", "float", 1.0),
                        has_sub_layers=("has_sub_layers", "bool", False), colours=("fog_colour", "array:uint", None), pers=("fog_per", "array:float", None)),
    "ambience_trigger": dict(COMMON_TRIGGER, speed=("ambience_speed", "float", 5), sound_names=("sound_ambience_names", "array:string", None), sound_vols=("sound_ambience_vol", "array:float", None)),
    "music_trigger": dict(COMMON_TRIGGER, speed=("music_speed", "float", 5), sound_names=("sound_music_names", "array:string", None), sound_vols=("sound_music_vol", "array:float", None)),
    "special_trigger": dict(COMMON_TRIGGER),
    "text_trigger": {"hide": ("hide", "bool", False), "text": ("text_string", "string", b"")},
    "kill_box": {"width": ("width", "int", 0), "height": ("height", "int", 0)},
    "AI_controller": {"nodes": ("nodes", "array:vec2", None), "node_wait_times": ("nodes_wait_time", "array:int", None), "puppet": ("puppet_id", "uint", 0)},
    "camera_node": {"node_type": ("node_type", "int", 1), "test_widths": ("test_widths", "array:int", None), "nodes": ("c_node_ids", "array:uint", None),
                    "control_widths": ("control_widths", "array:vec2", None), "zoom": ("zoom_h", "int", 1080), "width": ("width", "int", 520)},
    "level_end": {"entities": ("ent_list", "array:uint", None), "finished": ("finished", "bool", False)},
    "score_book": {"book_type": ("book_type", "string", b"")},
    "level_door": dict(COMMON_TRIGGER, file_name=("file_name", "string", b""), door_set=("door_set", "int", 0)),
    "giga_gate": {"keys_needed": ("key_needed", "int", 1)},
    "enemy_bear": dict(HIT), "hittable_apple": dict(HIT), "dust_man": dict(HIT),
    "enemy_trash_tire": dict(HIT, max_fall_speed=("max_fall_speed", "float", 800.0)),
    "enemy_key": dict(HIT, door=("door", "uint", 0), lastX=("lastKnowX", "float", 0.0), lastY=("lastKnowY", "float", 0.0)),
    "custom_score_book": {"level_list": ("level_list_id", "int", 0)},
    "z_string_list": dict(COMMON_TRIGGER, data=("list", "array:string", None)),
}
START = {"x": "p%d_x", "y": "p%d_y"}
BAD = [["bool", [1, 0, "x", None, 1.0]], ["int", [1 << 31, -(1 << 31) - 1, 1.5, "1", None, b"1"]], ["uint", [-1, 1 << 32, 2.0, "1", None]],
       ["float", [1, "1.0", None, True, b""]], ["string", ["str", 5, None, [1]]], ["vec2", [[1.0, 2.0], (1, 2), (1.0,), (1.0, 2.0, 3.0), None, (1.0, 2), (1, 2.0)]],
       ["struct", [[("a", 1)], 5, "abc", {"a": 1}, {1: None}, {"a": None}]]]


def gen(g):
    for t in ACC:
        for a in ACC[t]:
            for i in range(2):
                yield {"t": t, "a": a, "pre": g.struct(1), "vals": [_pv(g, ACC[t][a][1]) for _ in range(3)], "wrong": i}
    for p in (1, 2, 3, 4):
        for a in "xy":
            yield {"start": p, "a": a, "vals": [g.int(-(1 << 31), (1 << 31) - 1) for _ in range(3)]}
    for i in range(len(BAD)):
        for j in range(len(BAD[i][1])):
            yield {"bad": [i, j]}
    yield {"badarr": 1}
    yield {"fog": 1}
    while True:
        if g.chance(0.6):
            k = g.r.choice(g.KINDS[:6] + ("struct", "array"))
            n = g.small(6)
            ops = []
            for _ in range(g.r.randint(1, 14)):
                o = g.r.choice(["get", "set", "insert", "append", "pop", "popi", "del", "iter", "len", "contains", "index", "dels", "extend", "reverse", "clear", "remove", "iadd", "rev", "count"])
                ops.append([o, g.r.randint(-8, 8), g.var(1, k), g.r.randint(-3, 9), g.r.choice([1, 1, 2, -1, -2])])
            yield {"arr": [k, [g.var(1, k) for _ in range(n)]], "ops": ops}
        else:
            t = g.r.choice(list(ACC))
            a = g.r.choice(list(ACC[t]))
            yield {"t": t, "a": a, "pre": g.struct(1), "vals": [_pv(g, ACC[t][a][1]) for _ in range(3)], "wrong": g.r.randrange(7)}


def _pv(g, kind):
    if kind.startswith("array:"):
        return [g.var(0, kind[6:]) for _ in range(g.small(4))]
    return g.var(0, kind)


def plain(m):
    """model -> plain unboxed value"""
    from ..refcodec import B

    k, p = m
    if k == "string":
        return B(p)
    if k == "vec2":
        return (float(p[0]), float(p[1]))
    return p


def holder(dm, t):
    from ..adapt import entity_class

    if t == "":
        return dm.level.Level()
    return entity_class(dm, t)()


def check(dm, case):
    V = dm.variable
    if "bad" in case:
        k, vs = BAD[case["bad"][0]]
        v = vs[case["bad"][1]]
        try:
            x = vcls(dm, k)(v)
        except Exception:  # noqa
            return
        raise Bad("%s accepted %r" % (k, v))
    if "badarr" in case:
        for et, els in ((V.VariableInt, [V.VariableUInt(1)]), (V.VariableInt, [1]), (int, []), (V.VariableBool, [V.VariableBool(True), V.VariableInt(1)]), (None, []), (V.VariableArray, [V.VariableInt(1)])):
            try:
                V.VariableArray(et, els)
            except Exception:  # noqa
                continue
            raise Bad("array of %r accepted %r" % (et, els))
        for et, el in ((V.VariableInt, "x"), (V.VariableUInt, -1), (V.VariableBool, 1), (V.VariableString, "s"), (V.VariableFloat, 1)):
            a = V.VariableArray(et)
            for fn in (lambda: a.append(el), lambda: a.insert(0, el), lambda: a.extend([el])):
                try:
                    fn()
                except Exception:  # noqa
                    pass
                else:
                    raise Bad("array of %s accepted element %r" % (et.__name__, el))
            eq(len(a), 0, "rejected element stored")
            b = V.VariableInt(5)
            b.value = "x"
            raises(ValueError, b.assert_types, "assert_types of a broken variable")
            V.VariableInt(5).assert_types()
        return
    if "fog" in case:
        F = dm.entity.FogTrigger
        for ly in range(21):
            eq(F.get_layer_index(ly), ly, "fog index of layer %d", ly)
            for sb in range(25):
                eq(F.get_layer_index(ly, sb), (sb + 1) * 21 + ly, "fog index of layer %d sublayer %d", ly, sb)
        given = case["fog"] if isinstance(case["fog"], list) else None
        for sub in (False, True) if given is None else (case["sub"],):
            for n, n2, n3 in [(n, n, n % 7) for n in (0, 5, 20, 21, 22, 30, 545, 546, 547, 600)] + [(3, 30, 3), (30, 3, 9), (0, 546, 2)] if given is None else [given]:
                f = F()
                if sub or n % 2:
                    f.has_sub_layers = sub
                for i in range(n):
                    f.colours.append(i)
                for i in range(n2):
                    f.pers.append(i / 2.0)
                for i in range(n3):
                    f.gradient.append(i)
                f.normalize()
                L = 546 if sub else 21
                eq(list(f.colours), (list(range(n)) + [0x111118] * L)[:L], "normalized colours")
                eq(list(f.pers), ([i / 2.0 for i in range(n2)] + [0.0] * L)[:L], "normalized mix values")
                eq(list(f.gradient), (list(range(n3)) + [0] * 3)[:3], "normalized gradient")
        return
    if "start" in case:
        lv = dm.level.Level()
        p, a = case["start"], case["a"]
        key = START[a] % p
        before = dict(lv.variables)
        pos = lv.start_position(p) if p != 1 else lv.start_position()
        eq(getattr(pos, a), 0, "default start")
        eq(dict(lv.variables), before, "reading a default changed the variables")
        for v in case["vals"]:
            setattr(pos, a, v)
            eq(lv.variables[key], V.VariableInt(v), "stored start")
            eq(getattr(lv.start_position(p), a), v, "read start")
            eq({k: x for k, x in lv.variables.items() if k != key}, before, "other keys")
        lv.variables[key] = V.VariableFloat(1.0)
        raises(ValueError, lambda: getattr(pos, a), "reading a start of another type")
        delattr(pos, a)
        need(key not in lv.variables, "delete")
        delattr(pos, a)
        eq(dict(lv.variables), before, "after delete")
        return
    if "arr" in case:
        return check_array(dm, case)
    key, kind, default = ACC[case["t"]][case["a"]]
    at = case["a"]
    o = holder(dm, case["t"])
    for k, v in case["pre"]:
        if k != key:
            o.variables[k] = mk_var(dm, v)
    o.variables.pop(key, None)
    before = un_vars(dm, o.variables)

    def others():
        eq([x for x in un_vars(dm, o.variables) if x[0] != key], before, "%s.%s touched other keys" % (case["t"], at))

    arr = kind.startswith("array:")
    d = getattr(o, at)
    if arr:
        need(isinstance(d, V.VariableArray) and len(d) == 0 and d.element_type is vcls(dm, kind[6:]), "default of %s.%s", case["t"], at)
        d.append(plain(case["vals"][0][0])) if case["vals"][0] else None
        eq(list(getattr(o, at)), [plain(x) for x in case["vals"][0][:1]], "array accessor does not alias the stored array")
        o.variables.pop(key, None)
    else:
        eq(d, default, "default of %s.%s", case["t"], at)
        need(key not in o.variables, "reading the default stored it")
    others()
    for v in case["vals"]:
        if arr:
            T = vcls(dm, kind[6:])
            val = V.VariableArray(T, [mk_var(dm, x) for x in v])
            setattr(o, at, val)
            eq(un_var(dm, o.variables[key]), ["array", [kind[6:], [norm_var(x) for x in v]]], "stored %s.%s", case["t"], at)
            eq(list(getattr(o, at)), [plain(x) for x in v], "read %s.%s", case["t"], at)
        else:
            setattr(o, at, plain(v))
            eq(un_var(dm, o.variables[key]), norm_var(v), "stored %s.%s", case["t"], at)
            eq(getattr(o, at), plain(v), "read %s.%s", case["t"], at)
        others()
    ks = [k for k in ("bool", "int", "uint", "float", "string", "vec2", "struct") if k != kind.split(":")[0]]
    wk = ks[case["wrong"] % len(ks)]
    o.variables[key] = {"bool": lambda: V.VariableBool(True), "int": lambda: V.VariableInt(1), "uint": lambda: V.VariableUInt(1), "float": lambda: V.VariableFloat(1.0),
                        "string": lambda: V.VariableString(b"x"), "vec2": lambda: V.VariableVec2((1.0, 2.0)), "struct": lambda: V.VariableStruct({})}[wk]()
    raises(ValueError, lambda: getattr(o, at), "reading %s.%s stored as %s" % (case["t"], at, wk))
    delattr(o, at)
    need(key not in o.variables, "delete left the variable")
    delattr(o, at)
    others()


def check_array(dm, case):
    V = dm.variable
    k, els = case["arr"]
    T = vcls(dm, k)

    def pv(m):
        v = mk_var(dm, m)
        return v.value

    boxes = [mk_var(dm, e) for e in els]
    arr = V.VariableArray(T, boxes)
    ref = [b.value for b in boxes]
    for n, (o, i, vm, j, st) in enumerate(case["ops"]):
        v = pv(vm)

        def both(fa, fr):
            ra = rr = ea = er = None
            try:
                rr = fr()
            except (IndexError, ValueError) as e:
                er = type(e)
            try:
                ra = fa()
            except (IndexError, ValueError) as e:
                ea = type(e)
            eq(ea, er, "operation %d %s(%d): error", n, o, i)
            if o not in ("iadd",):
                eq(ra, rr, "operation %d %s(%d)", n, o, i)

        def iadd(q):
            q += [v]

        try_ops = {
            "get": lambda q: q[i], "set": lambda q: q.__setitem__(i, v), "insert": lambda q: q.insert(i, v), "append": lambda q: q.append(v), "pop": lambda q: q.pop(),
            "popi": lambda q: q.pop(i), "del": lambda q: q.__delitem__(i), "iter": lambda q: [x for x in q], "len": lambda q: len(q), "contains": lambda q: v in q,
            "index": lambda q: q.index(v), "extend": lambda q: q.extend([v, v]), "reverse": lambda q: q.reverse(), "clear": lambda q: q.clear(), "remove": lambda q: q.remove(v),
            "iadd": iadd, "rev": lambda q: list(reversed(q)), "count": lambda q: q.count(v),
        }
        if o == "dels":
            sl = slice(i, j)
            both(lambda: arr.__delitem__(sl), lambda: ref.__delitem__(sl))
        else:
            both(lambda: try_ops[o](arr), lambda: try_ops[o](ref))
        eq(list(arr), ref, "contents after operation %d %s", n, o)
        need(all(type(x) is T for x in arr.value[1]), "elements not boxed in %s after %s", T.__name__, o)
        need(arr.element_type is T, "element type changed")
