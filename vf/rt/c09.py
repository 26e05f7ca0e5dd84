import io

from ..adapt import diff, mk_level, mk_vars, model_sets, un_level, un_vars
from ..refcodec import B, dec_level, enc_level, norm_var
from .base import Bad, eq, need, reader, write_with


def gen(g):
    blank = {"sshot": "", "vars": [], "tiles": [], "props": [], "entities": [], "backdrop": {"tiles": [], "props": []}}

    def case(m, **k):
        c = {"m": m, "pre": g.r.choice([0, 0, 1, 3, 17]), "post": g.r.choice([0, 2]), "vars": g.struct(2), "sshot": g.bytes(9), "split": g.r.choice([0, 1, 2, 7]),
             "warm": 0}
        c.update(k)
        return c

    yield case(dict(blank))
    # every variable-block size modulo 8 bits, 0..4 regions
    for nreg in range(5):
        tl = [[3, 256 * (i if i % 2 else -i), 5, g.tile()] for i in range(nreg)]
        for pad in range(9):
            vs = [["b%d" % i, ["bool", True]] for i in range(pad)]
            yield case(dict(blank, tiles=tl, vars=vs), vars=[["c" * k, ["bool", False]] for k in range(1, (pad * 3) % 5 + 1)], sshot="x" * (pad % 3))
    for ks in ([0, -1, 1], [-1, -2, 5, 0, -32768 * 0 - 7], [-1, 0], [100, -100, 32767, -32768]):
        yield case(dict(blank, tiles=[[3, 256 * a, 256 * b, g.tile()] for a in ks for b in ks]))
    for ids in ([1], [99], [100], [101], [5000], [(1 << 31) - 2], [100, 102, 101]):
        for dr in (False, True):
            yield case(dict(blank, props=[[i, 3, 0.0, 0.0, g.prop()] for i in ids]), direct=dr)
            yield case(dict(blank, entities=[[i, 0.0, 0.0, g.ent()] for i in ids]), direct=dr)
            yield case(dict(blank, backdrop={"tiles": [], "props": [[i, 3, 0.0, 0.0, g.prop()] for i in ids]}), direct=dr)
    yield case(dict(blank, sshot={"n": 70000, "s": 5}))
    yield case(dict(blank, vars=[["s", ["string", {"n": 65535, "s": 4}]], ["t", ["int", -1]]]))
    while True:
        m = g.level(nt=4, np=2, ne=2, depth=2)
        yield case(m, warm=g.r.choice([0, 0, 1, 3]), direct=g.chance(0.2))


def check(dm, case):
    m = case["m"]
    want = model_sets(m)
    lv = mk_level(dm, m, case.get("direct", False))
    extra = {}
    for _ in range(0 if case.get("direct") else case["warm"]):  # ids handed out and given back
        i = lv.add_prop(3, 0.0, 0.0, dm.prop.Prop(0, 0, False, False, 1.0, 0, 0, 0, 0))
        del lv.props[i]
    pre = bytes(range(200, 200 + case["pre"]))
    post = bytes([170] * case["post"])
    end = []
    if not pre and not post:
        conv = dm.dfwriter.write_level(lv)
        eq(conv, write_with(dm, lambda w: w.write_level(lv)), "write_level() of the module")
        x = diff(un_level(dm, dm.dfreader.read_level(conv)), un_level(dm, reader(dm, conv).read_level()))
        need(x is None, "read_level() of the module: %s", x)

    def run(w):
        w.write_level(lv)
        end.append(w.bit_tell())
        w.write_bytes(post)

    out = write_with(dm, run, None, pre)
    need(out.startswith(pre) and out.endswith(post), "data around the level changed")
    body = out[len(pre):len(out) - len(post)]
    eq(end[0], 8 * (len(pre) + len(body)), "stream position after writing")
    try:
        d = dec_level(body)
    except (ValueError, AssertionError) as e:
        raise Bad("written file: %s" % e)
    eq(d["sshot"], want["sshot"], "stored thumbnail")
    need(diff(want["vars"], [[a, norm_var(b)] for a, b in d["vars"]]) is None, "stored variables: %s", diff(want["vars"], d["vars"]))
    used = list(want["props"]) + list(want["entities"]) + list(want["bprops"])
    need(all(d["next_id"] > i for i in used), "recorded next id %d not above ids in use (max %s)", d["next_id"], max(used, default=None))
    ref = enc_level(dict(m, next_id=max(used + [100]) + 3))
    for nm, data in (("saved", body), ("reference", ref)):
        dd = dec_level(data)
        r = reader(dm, pre + data + post, len(pre))
        lv2 = r.read_level()
        eq(r.bit_tell(), 8 * (len(pre) + len(data)), "stream position after reading the %s level", nm)
        if post:
            eq(r.read_bytes(len(post)), post, "data after the level")
        got = un_level(dm, lv2)
        for k in ("sshot", "vars", "tiles", "props", "entities", "btiles", "bprops"):
            x = diff(want[k], got[k])
            need(x is None, "loading the %s level, %s: %s", nm, k, x)
        eq(lv2.add_prop(3, 0.0, 0.0, dm.prop.Prop(0, 0, False, False, 1.0, 0, 0, 0, 0)), dd["next_id"], "next free id after loading the %s level", nm)
        r = reader(dm, pre + data + post, len(pre))
        meta = r.read_level(metadata_only=True)
        eq(meta.sshot, B(m["sshot"]), "thumbnail (metadata only)")
        x = diff(want["vars"], un_vars(dm, meta.variables))
        need(x is None, "variables (metadata only): %s", x)
        need(not meta.tiles and not meta.props and not meta.entities, "metadata-only read loaded map data")
        # raw copy
        r = reader(dm, pre + data + post, len(pre))
        lv3, offs = r.read_level_ex()
        need(r.aligned(), "read_level_ex leaves the reader unaligned")
        eq(list(offs), dd["offsets"] + [len(dd["map_data"])], "region offsets")
        raw = r.read_bytes(offs[-1])
        eq(raw, dd["map_data"], "raw region data")
        lv3.variables = mk_vars(dm, case["vars"])
        lv3.sshot = B(case["sshot"])
        n = case["split"]
        payload = raw if not n else [raw[i:i + n * 13] for i in range(0, len(raw), n * 13)]

        def run2(w):
            w.write_level_ex(lv3, offs, payload)
            w.write_bytes(post)

        out2 = write_with(dm, run2, None, pre)
        body2 = out2[len(pre):len(out2) - len(post)]
        try:
            d2 = dec_level(body2)
        except (ValueError, AssertionError) as e:
            raise Bad("metadata rewrite: %s" % e)
        eq(d2["map_data"], dd["map_data"], "map data after metadata rewrite")
        eq(d2["sshot"], B(case["sshot"]).decode("latin1"), "new thumbnail")
        x = diff([[a, norm_var(b)] for a, b in case["vars"]], d2["vars"])
        need(x is None, "new variables: %s", x)
        need(d2["next_id"] >= dd["next_id"], "next id lost in metadata rewrite")
        r = reader(dm, body2)
        lv4, offs4 = r.read_level_ex()
        for _ in offs4[:-1]:
            r.read_region(lv4)
        got = un_level(dm, lv4)
        for k in ("tiles", "props", "entities", "btiles", "bprops"):
            x = diff(want[k], got[k])
            need(x is None, "after metadata rewrite, %s: %s", k, x)
