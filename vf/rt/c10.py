from fractions import Fraction

from ..adapt import mk_replay
from ..refcodec import B, INTENTS, dec_replay, enc_replay
from .base import Bad, eq, need, raises, reader, write_with


def _vals(g, k):
    if k < 2:
        return g.r.randint(-1, 2)
    if k < 5:
        return g.r.randint(0, 3)
    if k < 8:
        return g.r.randint(0, 15)
    if k < 10:
        c = g.r.random()
        return g.r.randint(0, 32767) / 32767.0 if c < 0.5 else g.r.choice([0.0, 1.0, 0.5, g.r.random(), g.r.random(), 2.0, 1 / 32767, 0.4 / 32767, 0.6 / 32767])
    return g.r.randint(0, 255)


def _stream(g, k, total=None):
    out = []
    for _ in range(g.r.randint(0, 5)):
        v = g.r.choice([_vals(g, k), INTENTS[k][4]])
        n = g.r.choice([1, 1, 2, 3, 9, 253, 254, 255, 256, 257, 509, 510, 511, 765, g.r.randint(1, 700)])
        out += [v] * n
    if g.chance(0.2):
        out += [_vals(g, k) for _ in range(g.r.randint(0, 12))]
    return out


def _frame(g):
    big = (1 << 31) - 1

    def c(s):
        q = g.int(-big, big) if g.chance(0.6) else g.r.randint(-100000, 100000)
        return q / s if g.chance(0.7) else (q * 0.37) / s

    return [g.int(0, (1 << 32) - 1), c(10.0), c(10.0), c(100.0), c(100.0)]


def gen(g):
    def one(**k):
        c = {"version": 4, "username": "", "level": "downhill", "frames": 10, "players": [{"character": 0, "intents": {}}], "entities": [], "force": False, "pre": 0}
        c.update(k)
        return c

    yield one()
    for v in (1, 3, 4):
        for n in (0, 1, 2, 253, 254, 255, 256, 257, 508, 509, 510, 511, 512, 765, 1020, 70000):
            for lead in (0, 1, 254, 255, 256):
                if n > 2000 and lead:
                    continue
                for k in ((0, 2, 5) if n < 2000 else (0,)):
                    yield one(version=v, players=[{"character": 1, "intents": {str(k): [0] * lead + [1] * n + [0] * (n % 3)}}], frames=n)
    for v in (0, 2, 5, 6, 9):
        yield {"bad": one(version=v)}
        yield {"bad": one(version=v, username="u")}
    yield {"bad": one(version=1, players=[])}
    yield {"bad": one(version=1, players=[{"character": 0, "intents": {}}] * 2)}
    for n in (0, 1, 255):
        yield one(level="l" * n)
    for n in (1, 255, 256, 65535):
        yield one(username="u" * n)
    for ch in range(8):
        yield one(players=[{"character": ch, "intents": {}}, {"character": 7 - ch, "intents": {"0": [1]}}])
    yield one(players=[])
    while True:
        v = g.r.choice([1, 3, 4, 4])
        pl = []
        for _ in range(1 if v == 1 else g.r.randint(0, 3)):
            ks = g.r.sample(range(11), g.r.randint(0, 5))
            pl.append({"character": g.r.randint(0, 7), "intents": {str(k): _stream(g, k) for k in ks}})
        ents = []
        for i in set(g.r.choice([g.r.randint(0, 20), g.int(0, (1 << 32) - 1)]) for _ in range(g.small(4))):
            ents.append([i, [_frame(g) for _ in range(g.small(5))]])
        yield one(version=v, username=g.r.choice(["", g.bytes(20)]), level=g.bytes(30), frames=g.int(0, (1 << 32) - 1), players=pl, entities=ents,
                  force=g.chance(0.2), pre=g.r.choice([0, 0, 2]))


def near(v, s, q):
    """stored integer q is the nearest one to v*s"""
    return abs(Fraction(v) * s - q) <= Fraction(1, 2) + Fraction(1, 1000000)


def expect(dm, m):
    out = []
    for pl in m["players"]:
        it = {}
        for k, (bits, ver, enc, dec, neutral) in enumerate(INTENTS):
            if ver <= m["version"]:
                it[k] = list(pl["intents"].get(str(k), []))
        out.append(it)
    return out


def same(k, got, v):
    if k in (8, 9):
        q = got * 32767
        return isinstance(got, (int, float)) and abs(q - round(q)) < 1e-6 and near(v, 32767, round(q))
    return got == v


def check(dm, case):
    if "bad" in case:
        m = case["bad"]
        raises(dm.exceptions.LevelParseException, lambda: write_with(dm, lambda w: w.write_replay(mk_replay(dm, m))), "writing version %d with %d players" % (m["version"], len(m["players"])))
        if m["version"] not in (1, 2, 3, 4):
            data = enc_replay(dict(m, entities=[]))
            raises(dm.exceptions.LevelParseException, lambda: reader(dm, data).read_replay(), "reading version %d" % m["version"])
        return
    m = case
    rep = mk_replay(dm, m)
    pre = bytes(m["pre"])
    fl = {"force_username": True} if m["force"] else {}
    out = write_with(dm, lambda w: w.write_replay(rep, **fl), None, pre)[len(pre):]
    try:
        d = dec_replay(out)
    except (ValueError, AssertionError, IndexError) as e:
        raise Bad("written replay: %s" % e)
    user = B(m["username"])
    eq(d["username"], user.decode("latin1") if user or m["force"] else None, "stored user name")
    ref = enc_replay({"version": m["version"], "username": m["username"], "level": m["level"], "frames": m["frames"], "players": m["players"],
                      "entities": [[i, [[f[0], round(f[1] * 10.0), round(f[2] * 10.0), round(f[3] * 100.0), round(f[4] * 100.0)] for f in fr]] for i, fr in m["entities"]]})
    want = expect(dm, m)
    for nm, data in (("saved", out), ("reference", ref)):
        for kl in (None, len(data)):
            r = reader(dm, pre + data, len(pre))
            got = r.read_replay() if kl is None else r.read_replay(known_length=kl)
            eq(got.version, m["version"], "version (%s)", nm)
            eq(got.username, user, "user name (%s)", nm)
            eq(got.level, B(m["level"]), "level name (%s)", nm)
            eq(got.frames, m["frames"], "frame count (%s)", nm)
            eq(len(got.players), len(m["players"]), "players (%s)", nm)
            for gp, mp, it in zip(got.players, m["players"], want):
                eq(gp.character, dm.replay.Character(mp["character"]), "character (%s)", nm)
                for k, vals in it.items():
                    ik = dm.replay.IntentStream(k)
                    n = max(len(vals), len(gp.intents.get(ik, []))) + 2
                    for f in range(n):
                        v = vals[f] if f < len(vals) else INTENTS[k][4]
                        x = gp.get_intent_value(ik, f)
                        need(same(k, x, v), "%s file: intent %d at frame %d of %d is %r, expected %r", nm, k, f, len(vals), x, v)
                    if k == 10:
                        need(all(isinstance(v, dm.replay.MouseState) for v in gp.intents.get(ik, [])), "mouse states are not MouseState")
                    eq(gp.get_intent_value(ik, -1), INTENTS[k][4], "value before the first frame")
                for ik in gp.intents:
                    need(int(ik) in it, "%s file: unexpected intent stream %r for version %d", nm, ik, m["version"])
            eq([int(i) for i in got.entities], [i for i, _ in m["entities"]], "entity ids (%s)", nm)
            for i, fr in m["entities"]:
                gf = got.entities[i].frames
                eq(len(gf), len(fr), "frames of entity %d", i)
                for a, b in zip(gf, fr):
                    eq(a.frame, b[0], "entity frame number")
                    for v, w, s in ((a.x_pos, b[1], 10), (a.y_pos, b[2], 10), (a.x_speed, b[3], 100), (a.y_speed, b[4], 100)):
                        q = v * s
                        need(abs(q - round(q)) < 1e-3 and near(w, s, round(q)), "entity %d value %r read back as %r", i, w, v)
                        eq(v, round(q) / float(s), "grid value")
            if m["entities"]:
                for p in range(0, 3):
                    need(got.get_player_entity_data(p) is got.entities.get(2 * p), "get_player_entity_data(%d)", p)
                    need(got.get_camera_entity_data(p) is got.entities.get(2 * p + 1), "get_camera_entity_data(%d)", p)
