import argparse
import contextlib
import io
import json
import os
import sys
import tempfile
import types
import zlib

from ..adapt import diff, mk_level, model_sets, un_level
from ..geom import SYM, mul
from ..refcodec import B, dec_level, enc_level, enc_varfile, norm_var
from .base import Bad, eq, need, reader, write_with
from . import c14
from .c14 import H, R, V, step


def gen(g):
    blank = {"sshot": "img", "vars": [], "tiles": [], "props": [], "entities": [], "backdrop": {"tiles": [], "props": []}}

    def lvl(n):
        return dict(blank, tiles=[[3, 256 * i, 5, g.tile()] for i in range(n)], vars=_json_safe(g))

    for n in range(4):
        for c in ("thumb", "extract", "vars"):
            yield {"cmd": c, "m": lvl(n), "img": g.bytes(20), "exists": g.bool(), "force": g.bool(), "indent": 4}
    # more than 64 KiB of region data, and of image
    big = dict(blank, tiles=[[3 + i // 4096, i % 64, i // 64 % 64, g.tile()] for i in range(7000)], vars=_json_safe(g))
    yield {"cmd": "thumb", "m": big, "img": "".join(chr(g.r.randrange(256)) for _ in range(70000)), "exists": True, "force": False, "indent": 4}
    yield {"cmd": "vars", "m": big, "img": "", "exists": True, "force": False, "indent": 4}
    for sc in (False, True):
        yield {"cmd": "conv", "m": lvl(2), "img": g.bytes(20), "scale": sc, "pil": True}
    yield {"cmd": "conv", "m": lvl(1), "img": g.bytes(20), "scale": False, "pil": False}
    for ex in (False, True):
        for fo in (False, True):
            yield {"cmd": "extract", "m": lvl(1), "img": "", "exists": ex, "force": fo}
    for h in ("DF_STA", "DF_CFG", "DF_FOG"):
        yield {"cmd": "varfile", "h": h, "vars": _json_safe(g), "indent": 0}
        yield {"cmd": "varfile", "h": h, "vars": [], "indent": 2}
    src = c14.gen(g)
    for up in (1, 2):
        for rot in (0, 1, 2, 3, -1, 5):
            for vf in (False, True):
                for hf in (False, True):
                    yield {"cmd": "tx", "m": _small(next(src)["m"]), "up": up, "rot": rot, "v": vf, "h": hf, "tx": 48 * g.r.randint(-3, 3), "ty": 48 * g.r.randint(-3, 3)}
    while True:
        c = g.r.choice(["thumb", "extract", "vars", "varfile", "tx", "tx", "conv"])
        if c == "tx":
            yield {"cmd": "tx", "m": _small(next(src)["m"]), "up": g.r.choice([1, 1, 2, 3]), "rot": g.r.randint(-4, 6), "v": g.bool(), "h": g.bool(), "tx": g.r.choice([0, 48 * g.r.randint(-9, 9)]), "ty": g.r.choice([0, 48 * g.r.randint(-9, 9)])}
        elif c == "varfile":
            yield {"cmd": c, "h": g.r.choice(["DF_STA", "DF_CFG", "DF_FOG"]), "vars": _json_safe(g), "indent": g.r.choice([0, 1, 4])}
        else:
            m = g.level(nt=4, np=2, ne=2, depth=1)
            m["vars"] = _json_safe(g)
            yield {"cmd": c, "m": m, "img": g.bytes(40), "exists": g.bool(), "force": g.bool(), "indent": g.r.choice([0, 4]), "scale": g.bool(), "pil": True}


def _small(m):
    """positions must survive saving exactly: whole pixels for props, scale 1 entities kept"""
    for p in m["props"]:
        p[2], p[3] = float(int(p[2])), float(int(p[3]))
    for t in m["tiles"] + m["backdrop"]["tiles"]:
        for e in t[3]["edges"]:
            if e["fset"] == 0:  # the file does not hold filth data of edges without filth
                e.update(fspike=False, fcaps=[False, False], fangles=[0, 0])
    return m


def _json_safe(g):
    from .c18 import Conflict, shape

    while True:
        v = g.struct(2)
        try:
            shape(["struct", v])
            return v
        except Conflict:
            pass


def run(dm, modname, clsname, argv):
    """the entry point depends on the command line: the shared one, the single utility, the class itself"""
    cls = getattr(dm.cmd(modname), clsname)
    via = zlib.crc32(" ".join(argv[1:] if argv[1:] and argv[1].startswith("-") else argv[2:]).encode()) % 3
    out = io.StringIO()
    old = sys.argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                if via == 0:
                    sys.argv = ["dustmaker", clsname.lower()] + argv
                    rc = dm.cmd("main").main()
                elif via == 1:
                    sys.argv = [modname] + argv
                    rc = dm.cmd("common").run_utility(cls)
                else:
                    ut = cls()
                    ps = argparse.ArgumentParser()
                    ut.setup_parser(ps)
                    rc = ut.main(ps.parse_args(argv))
            except SystemExit as e:
                rc = e.code
    finally:
        sys.argv = old
    return rc, out.getvalue()


class FakeImage:
    """stands in for PIL, which is not installed"""

    def __init__(self, data, size=None):
        self.data, self.size = data, size

    @classmethod
    def open(cls, path, *a):
        return cls(slurp(path))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def resize(self, size, *a, **k):
        return FakeImage(self.data, tuple(size))

    def save(self, fp, format=None, **k):
        fp.write(repr((format, self.size)).encode() + self.data)


@contextlib.contextmanager
def pil(have):
    old = sys.modules.get("PIL")
    m = types.ModuleType("PIL")
    m.Image = FakeImage
    sys.modules["PIL"] = m if have else None
    try:
        yield
    finally:
        if old is None:
            del sys.modules["PIL"]
        else:
            sys.modules["PIL"] = old


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


def slurp(path):
    with open(path, "rb") as f:
        return f.read()


def same_map(d0, d1, what):
    eq(d1["map_data"], d0["map_data"], "%s: map data", what)
    eq(d1["offsets"], d0["offsets"], "%s: region directory", what)
    need(d1["next_id"] >= d0["next_id"], "%s: next id", what)


def nv(vs):
    return [[a, norm_var(b)] for a, b in vs]


def dec(data, what):
    try:
        return dec_level(data)
    except (ValueError, AssertionError) as e:
        raise Bad("%s: %s" % (what, e))


def check(dm, case):
    with tempfile.TemporaryDirectory() as tmp:
        lv, im, js = (os.path.join(tmp, x) for x in ("level", "image", "vars.json"))
        c = case["cmd"]
        if c in ("thumb", "extract", "vars", "conv"):
            used = [p[0] for p in case["m"]["props"]] + [p[0] for p in case["m"]["entities"]] + [p[0] for p in case["m"]["backdrop"]["props"]]
            data = enc_level(dict(case["m"], next_id=max(used + [100]) + 1))
            put(lv, data)
            d0 = dec_level(data)
        if c == "conv":
            put(im, B(case["img"]))
            with pil(case["pil"]):
                rc, _ = run(dm, "thumbnail", "Thumbnail", [lv, im, "--auto-scale" if case["scale"] else "--auto-convert"])
            if not case["pil"]:
                need(rc not in (0, None), "conversion without PIL not refused")
                eq(slurp(lv), data, "level file after a refused conversion")
                eq(slurp(im), B(case["img"]), "image file")
                return
            eq(rc, 0, "exit code")
        if c == "thumb":
            put(im, B(case["img"]))
            rc, _ = run(dm, "thumbnail", "Thumbnail", [lv, im, "--update"])
            eq(rc, 0, "exit code")
        if c in ("thumb", "conv"):
            d1 = dec(slurp(lv), "updated level")
            same_map(d0, d1, "thumbnail update")
            want = B(case["img"]).decode("latin1")
            if c == "conv":
                want = repr(("PNG", (382, 182) if case["scale"] else None)) + want
            eq(d1["sshot"], want, "stored thumbnail")
            w = [v for v in nv(d0["vars"]) if v[0] != "icon_taken"]
            eq([v for v in nv(d1["vars"]) if v[0] != "icon_taken"], w, "variables after thumbnail update")
            eq([v for v in d1["vars"] if v[0] == "icon_taken"], [["icon_taken", ["bool", True]]], "icon_taken")
            eq(slurp(im), B(case["img"]), "image file")
        elif c == "extract":
            if case["exists"]:
                put(im, b"old")
            rc, _ = run(dm, "thumbnail", "Thumbnail", [lv, im] + (["--force"] if case["force"] else []))
            eq(slurp(lv), data, "level file changed by extraction")
            if case["exists"] and not case["force"]:
                eq(slurp(im), b"old", "existing image overwritten")
                need(rc not in (0, None), "overwrite not refused")
            else:
                eq(rc, 0, "exit code")
                eq(slurp(im).decode("latin1"), d0["sshot"], "extracted thumbnail")
        elif c == "vars":
            rc, text = run(dm, "variables", "Variables", [lv, "--indent", str(case["indent"])])
            eq(rc, 0, "exit code")
            eq(slurp(lv), data, "level file changed by printing")
            json.loads(text)
            put(js, text.encode())
            rc, _ = run(dm, "variables", "Variables", [lv, js])
            eq(rc, 0, "exit code")
            d1 = dec(slurp(lv), "level after feeding the JSON back")
            same_map(d0, d1, "feeding the JSON back")
            eq(d1["sshot"], d0["sshot"], "thumbnail")
            need(diff(nv(d0["vars"]), nv(d1["vars"])) is None, "variables: %s", diff(nv(d0["vars"]), nv(d1["vars"])))
        elif c == "varfile":
            h = case["h"].encode()
            data = enc_varfile(h, case["vars"])
            put(lv, data)
            rc, text = run(dm, "variables", "Variables", [lv, "--indent", str(case["indent"])])
            eq(rc, 0, "exit code")
            eq(slurp(lv), data, "file changed by printing")
            put(js, text.encode())
            rc, _ = run(dm, "variables", "Variables", [lv, js])
            eq(rc, 0, "exit code")
            eq(slurp(lv), data, "variable file after feeding the JSON back")
            nf = os.path.join(tmp, "new")
            rc, _ = run(dm, "variables", "Variables", [nf, js, "--header", case["h"]])
            eq(slurp(nf), data, "variable file written from scratch")
        else:
            m = case["m"]
            src = mk_level(dm, m)
            data = write_with(dm, lambda w: w.write_level(src))
            put(lv, data)
            out = os.path.join(tmp, "out")
            a = [lv, out]
            for o, x, d in (("--upscale", case["up"], 1), ("--rotate", case["rot"], 0), ("--translate-x", case["tx"], 0), ("--translate-y", case["ty"], 0)):
                if x != d:  # options at their default are left out
                    a.append("%s=%d" % (o, x))
            rc, _ = run(dm, "transform", "Transform", a + (["--vflip"] if case["v"] else []) + (["--hflip"] if case["h"] else []))
            need(rc in (0, None), "exit code %r", rc)
            eq(slurp(lv), data, "input level changed")
            before = un_level(dm, reader(dm, data).read_level())
            after = un_level(dm, reader(dm, slurp(out)).read_level())
            g = R[case["rot"] % 4]
            if case["v"]:
                g = mul(V, g)
            if case["h"]:
                g = mul(H, g)
            if case["up"] > 1:  # the tool switches normal levels to the dustmod type
                for d in (before, after):
                    d["vars"] = [v for v in d["vars"] if v[0] != "level_type"]
            for d in (before, after):
                # filth exists only where there is a filth sprite on the collision layer
                for t in d["tiles"].values():
                    pass
            op = ["um", case["up"], SYM.index(g), 0, 0]
            orig = c14.linear
            try:
                c14.linear = lambda o: (g, case["up"], (case["tx"], case["ty"]))
                step(before, after, op)
            finally:
                c14.linear = orig
