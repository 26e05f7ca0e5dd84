"""C24: the command line tools, over the contracts of reading and writing level and variable files (C07 to C09, C22),
of level transformations (C14) and of the JSON conversion (C18).

Files hold tokens.  A level file is (header, metadata, region directory, region bytes); its reader must be at the right
place for what it reads, and must not read what was already overwritten."""
import builtins
import contextlib
import importlib
import io
import json
import os
import sys
import types

import z3

from . import engine as E
from . import instr
from .cli import IO, Args, Stream, Token
from .common import ENGINE
from .engine import B, I, Rl, SInt, SReal, Sym, Unsupported, num
from .vals import AMap, SSeq, TDict

FUNCTIONS = ["cmd.thumbnail.Thumbnail.main", "cmd.variables.Variables.main", "cmd.variables.Variables.update_variables", "cmd.variables.Variables.output_variables", "cmd.transform.Transform.main",
             "transform.TxMatrix.__mul__", "transform.TxMatrix.translate", "variable.VariableStruct.__init__", "cmd.main.main", "cmd.common.run_utility", "setup_parser of the four tools"]
ASSUMPTIONS = ["reading and writing of level and variable files, level transformations and the JSON conversion are used through C07-C09, C14, C18 and C22", "json.load(json.dump(x)) gives back x; argparse treats options independently of each other",
               "the input, output and image files are different files; upscale >= 1"]
TRUSTED = ENGINE + ["contracts of open, os.path.exists, json, argparse, PIL.Image and the with statement"]
KNOWN = (b"DF_STA", b"DF_CFG", b"DF_FOG")


def mod(n):
    return importlib.import_module("vdust.cmd." + n)


class Path(Token):
    """a file name"""

    def __init__(self, what):
        Token.__init__(self, what, str)

    def __bool__(self):
        return True


class Off(Sym):
    """the region directory; its last entry is the number of region bytes"""
    pytypes = (list,)

    def __init__(self, r, path):
        self.path, self.n, self.total = path, z3.Int("regions"), z3.Int("region_bytes")
        r.assume(z3.And(self.n >= 0, self.total >= 0))

    def __getitem__(self, i):
        if type(i) is int and i == -1:
            return num(self.total)
        if isinstance(i, (int, SInt)) and E.run().entails(I(i) == self.n):
            return num(self.total)
        raise Unsupported("region directory")

    def slen(self):
        return num(self.n + 1)

    def __bool__(self):
        return True


class Store(AMap):
    """a variable mapping that the tool may add to"""

    def __init__(self, r, name):
        n = z3.Int("n_" + name)
        r.assume(n >= 0)
        AMap.__init__(self, SSeq(name, n, lambda k: (Key(k), Member(k))))
        self.sets = []

    def __setitem__(self, k, x):
        self.sets.append((k, x))

    def update(self, *a, **k):
        for d in a:
            if not isinstance(d, dict):
                raise Unsupported("update of the variables")
            k = dict(dict.items(d), **k)
        for n, x in k.items():
            self[n] = x


class Key(Sym):
    pytypes = (str,)

    def __init__(self, k):
        self.k = k


class Member(Sym):
    """a variable"""

    def __init__(self, k):
        self.k = k

    def isinst(self, ts):
        return True

    def _assert_types(self):
        pass


class Lev:
    """a level that was read: what the tool did to it"""

    def __init__(self, r, v, path, full):
        d = self.__dict__
        d.update(r=r, v=v, path=path, full=full, changed={}, ops=[], sshot=Token("thumbnail of %s" % path, bytes, path=path), variables=Store(r, "variables"), level_type=None)
        d["store"] = self.variables

    def __setattr__(self, n, x):
        self.changed[n] = x
        self.__dict__[n] = x

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("Level.%s has no contract here" % n)

    def op(self, m, k=1):
        """apply the affine map m after what was done before; k: tiles are refined by this factor"""
        self.ops.append((m, k))

    def transform(self, mat):
        self.op(affine(mat))

    def upscale(self, factor, *, mat=None):
        m = affine(mat) if mat is not None else IDENT
        self.op(tuple(tuple(x * factor for x in row) for row in m), factor)

    def translate(self, x, y):
        self.op(((1, 0, x), (0, 1, y)))

    def rotate(self, times=1):
        self.transform(self.v.transform.TxMatrix.ROTATE[times % 4])

    def flip_horizontal(self):
        self.transform(self.v.transform.TxMatrix.HFLIP)

    def flip_vertical(self):
        self.transform(self.v.transform.TxMatrix.VFLIP)


IDENT = ((1, 0, 0), (0, 1, 0))


def affine(m):
    return tuple(tuple(m[i][j] for j in range(3)) for i in range(2))


def compose(a, b):
    """a after b"""
    return tuple(tuple(sum((a[i][k] * b[k][j] for k in range(2)), a[i][2] if j == 2 else 0) for j in range(3)) for i in range(2))


class Reader(Stream):
    """reader contract: at the start, or at the region data"""
    place = "start"

    def at(self, where):
        self.need_open()
        if any(x[0] == "create" and x[1] is self.f.path for x in self.io.log):
            self.r.fail("a file is read before it is overwritten", "read after it was opened for writing")
        if where is not None and self.place != where:
            raise Unsupported("reading at another place")

    def read_bytes(self, n):
        self.at(None)
        if self.place == "start":
            if n != 6:
                raise Unsupported("reading part of the header")
            self.place = "after header"
            return self.io.header
        if self.place == "regions":
            self.r.oblige("exactly the region data is read", I(n) == z3.Int("region_bytes"))
            self.place = "end"
            return Token("region data", bytes, path=self.f.path)
        raise Unsupported("reading at another place")

    def bit_seek(self, pos, whence=0):
        self.need_open()
        if not (type(pos) is int and pos == 0 and whence == 0):
            raise Unsupported("seeking")
        self.place = "start"

    def read_level_ex(self):
        self.at("start")
        self.level_file()
        self.place = "regions"
        lv, off = Lev(self.r, self.io.v, self.f.path, False), Off(self.r, self.f.path)
        self.io.levels.append(lv)
        return lv, off

    def level_file(self):
        if self.io.header != b"DF_LVL":
            self.r.fail("only a level file is read as a level", "header %r" % self.io.header)

    def read_level(self, *, metadata_only=False):
        self.at("start")
        self.level_file()
        self.place = "unknown"
        lv = Lev(self.r, self.io.v, self.f.path, not metadata_only)
        lv.__dict__["level_type"] = self.io.level_type
        self.io.levels.append(lv)
        return lv

    def read_var_file(self, header):
        self.at("start")
        if self.io.header == b"DF_LVL" or header != self.io.header:
            self.r.fail("a variable file is read with its header", "header %r" % header)
        self.place = "end"
        s = Store(self.r, "variables")
        self.io.stores.append(s)
        return s


class Writer(Stream):
    def write_level_ex(self, level, offsets, regions):
        self.need_open()
        self.io.log.append(("level", self.f.path, level, offsets, regions))

    def write_level(self, level):
        self.need_open()
        self.io.log.append(("whole level", self.f.path, level))

    def write_var_file(self, header, x):
        self.need_open()
        self.io.log.append(("variables", self.f.path, header, x))


class World(IO):
    def __init__(self, r, v):
        IO.__init__(self, r, v, Reader, Writer)
        self.header, self.levels, self.stores, self.printed, self.level_type = b"DF_LVL", [], [], [], None
        r.stub(builtins.print, lambda *a, **k: self.printed.append(a))
        for f in (os.path.exists, os.path.isfile, os.path.lexists):
            r.stub(f, self.exists)

    def effects(self):
        return [x for x in self.log if x[0] != "create"]

    def created(self):
        return [x[1] for x in self.log if x[0] == "create"]


def token_of(r, x, what, path):
    return isinstance(x, Token) and x.what.startswith(what) and x.path is path


def raw_level(r, w, lv, path, what):
    """the level file is rewritten from the level that was read, with its region data"""
    ef = w.effects()
    r.oblige(what + ": only the level is written, once", len(ef) == 1 and ef[0][0] == "level" and ef[0][1] is path and all(p is path for p in w.created()))
    _k, _p, level, off, reg = ef[0]
    r.oblige(what + ": it is the level that was read", level is lv and lv.path is path)
    r.oblige(what + ": the map data is kept", isinstance(off, Off) and off.path is path and token_of(r, reg, "region data", path))
    r.oblige(what + ": the file is closed", w.all_closed())


BLANK = {"sshot": "img", "tiles": [], "props": [], "entities": [], "backdrop": {"tiles": [], "props": []}}


def model(n, vs=()):
    from ..gen import Gen
    import random

    g = Gen(random.Random(5))
    return dict(BLANK, vars=[list(x) for x in vs], tiles=[[3, 256 * i, 5, g.tile()] for i in range(n)])


VS = [["a", ["int", 3]], ["icon_taken", ["bool", False]], ["s", ["string", "\xff"]]]


def update_thumbnail(r, v):
    m = mod("thumbnail")
    r.data["case"] = lambda vals: {"cmd": "thumb", "m": model(2, VS), "img": "new image", "exists": True, "force": False, "indent": 4}
    w = World(r, v)
    level, image = Path("level"), Path("image")
    w.contents[id(image)] = img = Token("image", bytes)
    w.existing = lambda p: E.fork(z3.Bool("exists"))
    rc = m.Thumbnail().main(Args(level=level, image=image, force=bool(r.choose(2)), update=True, auto_convert=False, auto_scale=False))
    r.oblige("update: exit code 0", rc == 0)
    r.oblige("update: the level is read once", len(w.levels) == 1)
    lv = w.levels[0]
    raw_level(r, w, lv, level, "update")
    r.oblige("update: the thumbnail is the image", lv.sshot is img)
    r.oblige("update: nothing else of the level is replaced", set(lv.changed) == {"sshot"})
    s = lv.store.sets
    r.oblige("update: the icon is marked as taken and no other variable changes", len(s) == 1 and s[0][0] == "icon_taken" and type(s[0][1]) is v.variable.VariableBool and s[0][1].value is True)


class Image:
    """contract of PIL: an image can be resized to new images and saved to a byte stream; what is saved is a function of
    the image and the format"""

    def __init__(self, path, size):
        self.path, self.size, self.closed = path, size, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def resize(self, size, *a, **k):
        if a or k:
            raise Unsupported("another way of resizing")
        return Image(self.path, tuple(size))

    def save(self, fp, format=None, **k):
        if k or not isinstance(fp, Buffer):
            raise Unsupported("another way of saving an image")
        fp.parts.append((self.path, self.size, format))


class Buffer:
    """io.BytesIO as a place to save an image to"""

    def __init__(self, *a):
        if a:
            raise Unsupported("io.BytesIO with contents")
        self.parts, self.pos = [], 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def getvalue(self):
        return Token("converted image", bytes, parts=list(self.parts))

    def seek(self, p):
        if p != 0:
            raise Unsupported("seek")
        self.pos = 0

    def read(self):
        return self.getvalue()


def converted_thumbnail(r, v):
    m = mod("thumbnail")
    have, scale = bool(r.choose(2)), bool(r.choose(2))
    conv = bool(r.choose(2)) if scale else True
    r.data["case"] = lambda vals: {"cmd": "conv", "m": model(2, VS), "img": "new image", "scale": scale, "pil": have}
    w = World(r, v)
    level, image = Path("level"), Path("image")
    w.existing = lambda p: E.fork(z3.Bool("exists"))
    pil = types.ModuleType("PIL")
    pil.Image = types.SimpleNamespace(open=lambda p, *a: Image(p, None))
    r.stub(io.BytesIO, Buffer)
    old = sys.modules.get("PIL")
    sys.modules["PIL"] = pil if have else None
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            rc = m.Thumbnail().main(Args(level=level, image=image, force=bool(r.choose(2)), update=bool(r.choose(2)), auto_convert=conv, auto_scale=scale))
    finally:
        if old is None:
            del sys.modules["PIL"]
        else:
            sys.modules["PIL"] = old
    if not have:
        r.oblige("convert: without PIL it is refused and nothing is written", type(rc) is int and rc != 0 and not w.effects() and not w.created())
        return
    r.oblige("convert: exit code 0", rc == 0)
    r.oblige("convert: the level is read once", len(w.levels) == 1)
    lv = w.levels[0]
    raw_level(r, w, lv, level, "convert")
    ps = getattr(lv.sshot, "parts", None)
    r.oblige("convert: the thumbnail is the image as PNG, scaled to 382 x 182 if asked", ps is not None and len(ps) == 1 and ps[0][0] is image and ps[0][1] == ((382, 182) if scale else None) and str(ps[0][2]).upper() == "PNG")
    r.oblige("convert: nothing else of the level is replaced", set(lv.changed) == {"sshot"})
    s = lv.store.sets
    r.oblige("convert: the icon is marked as taken and no other variable changes", len(s) == 1 and s[0][0] == "icon_taken" and type(s[0][1]) is v.variable.VariableBool and s[0][1].value is True)


def extract_thumbnail(r, v):
    m = mod("thumbnail")
    r.inputs["exists"] = z3.Bool("exists")
    force = bool(r.choose(2))
    r.data["case"] = lambda vals: {"cmd": "extract", "m": model(1, VS), "img": "", "exists": bool(vals.get("exists", True)), "force": force}
    w = World(r, v)
    level, image = Path("level"), Path("image")

    def existing(p):
        if p is not image:
            raise Unsupported("existence of another file")
        return E.fork(z3.Bool("exists"))

    w.existing = existing
    rc = m.Thumbnail().main(Args(level=level, image=image, force=force, update=False, auto_convert=False, auto_scale=False))
    refused = z3.And(z3.Bool("exists"), z3.BoolVal(not force))
    if not w.log:
        r.oblige("extract: refused only when the image exists and overwriting is not forced", refused)
        r.oblige("extract: a refusal is reported", type(rc) is int and rc != 0)
        return
    r.oblige("extract: an existing image is not overwritten unless forced", z3.Not(refused))
    ef = w.effects()
    r.oblige("extract: exit code 0", rc == 0)
    r.oblige("extract: only the image is written", all(p is image for p in w.created()) and len(w.created()) == 1 and len(ef) == 1 and ef[0][0] == "bytes" and ef[0][1] is image)
    r.oblige("extract: exactly the stored thumbnail is written", token_of(r, ef[0][2], "thumbnail", level))
    r.oblige("extract: the image is closed", w.all_closed())


def whose(r, x, s):
    """mapping x holds exactly the variables of s"""
    if isinstance(x, AMap):
        return z3.BoolVal(x.seq is s.seq and not getattr(x, "sets", ()))
    if isinstance(x, TDict) and x.eff is None and dict.__len__(x) == 0:
        return s.seq.length == 0
    raise Unsupported("another mapping")


def vcase(h):
    def f(vals):
        if h == b"DF_LVL":
            return {"cmd": "vars", "m": model(2, VS), "img": "", "exists": False, "force": False, "indent": 4}
        return {"cmd": "varfile", "h": h.decode(), "vars": VS, "indent": 4}

    return f


def print_variables(h):
    def fn(r, v):
        m = mod("variables")
        if h in KNOWN + (b"DF_LVL",):
            r.data["case"] = vcase(h)
        w = World(r, v)
        w.header = h
        obj = Path("object")
        sch, jv = Token("schema", dict), Token("values", dict)

        def conv(var):
            r.oblige("print: the variables are converted as a struct", type(var) is v.variable.VariableStruct)
            s = w.levels[0].store if w.levels else w.stores[0]
            r.oblige("print: the file's variables are converted", whose(r, var.value, s))
            return sch, jv

        r.stub(m.variables_to_json, conv)
        out = []
        r.stub(json.dump, lambda x, f, **k: out.append((x, f)))
        rc = m.Variables().main(Args(object=obj, new_data=None, header="", indent=(0, 4)[r.choose(2)]))
        r.oblige("print: no file is touched", not w.log)
        if h not in KNOWN + (b"DF_LVL",):
            r.oblige("print: an unknown file is refused", type(rc) is int and rc != 0 and not out)
            return
        r.oblige("print: exit code 0", rc == 0)
        if len(out) != 1 or out[0][1] is not sys.stdout:
            raise Unsupported("printing in another way")
        x = out[0][0]
        r.oblige("print: schema and values are printed", isinstance(x, dict) and x.get("schema") is sch and x.get("vars") is jv)
        r.oblige("print: the level is not modified", all(not l.changed and not l.ops and not l.store.sets for l in w.levels))

    return fn


def feed_variables(h, fresh):
    def fn(r, v):
        m = mod("variables")
        if not fresh or h in KNOWN:
            r.data["case"] = vcase(h)
        w = World(r, v)
        w.header = h
        obj, nd = Path("object"), Path("data")
        sch, jv = Token("schema", dict), Token("values", dict)
        new = Store(r, "new")
        st = v.variable.VariableStruct.__new__(v.variable.VariableStruct)
        st.value = new

        def load(f):
            r.oblige("feed: the new data is read", f.path is nd and not f.closed)
            return instr.tdict({"vars": jv, "schema": sch})

        def conv(schema, values):
            r.oblige("feed: the JSON is converted", schema is sch and values is jv)
            return st

        r.stub(m.json_to_variables, conv)
        r.stub(json.load, load)
        rc = m.Variables().main(Args(object=obj, new_data=nd, header=h.decode() if fresh else "", indent=4))
        if h not in KNOWN and (fresh or h != b"DF_LVL"):
            r.oblige("feed: an unknown file is refused", type(rc) is int and rc != 0)
            r.oblige("feed: nothing is written", not w.log)
            return
        r.oblige("feed: exit code 0", rc == 0)
        if h == b"DF_LVL":
            r.oblige("feed: the level is read once", len(w.levels) == 1)
            lv = w.levels[0]
            raw_level(r, w, lv, obj, "feed")
            r.oblige("feed: the level's variables are the given ones", whose(r, lv.variables, new))
            r.oblige("feed: nothing else of the level is replaced", set(lv.changed) <= {"variables"} and not lv.ops)
            return
        ef = w.effects()
        r.oblige("feed: only the file is written, once", len(ef) == 1 and ef[0][0] == "variables" and ef[0][1] is obj and all(p is obj for p in w.created()))
        r.oblige("feed: the header is kept", ef[0][2] == h)
        r.oblige("feed: the given variables are written", whose(r, ef[0][3], new))
        r.oblige("feed: the file is closed", w.all_closed())

    return fn


def transform(r, v):
    m = mod("transform")
    L = v.level.LevelType
    w = World(r, v)
    src, dst = Path("input"), Path("output")
    kinds = [x for x in L]
    w.level_type = kinds[r.choose(len(kinds))]
    was = w.level_type
    up = r.int("up", 1)
    rot = r.int("rot")
    tx, ty = r.real("tx"), r.real("ty")
    vf, hf = bool(r.choose(2)), bool(r.choose(2))

    def case(vals):
        from ..gen import Gen
        from ..rt import c14, c24
        import random

        mm = c24._small(next(c14.gen(Gen(random.Random(7))))["m"])
        mm["vars"] = [["level_type", ["int", int(was)]]]
        return {"cmd": "tx", "m": mm, "up": min(vals.get("up", 1), 3), "rot": vals.get("rot", 0), "v": vf, "h": hf, "tx": 48 * (1 if vals.get("tx") else 0), "ty": 48 * (1 if vals.get("ty") else 0)}

    r.data["case"] = case
    m.Transform().main(Args(input_level=src, output_level=dst, upscale=up, rotate=rot, vflip=vf, hflip=hf, translate_x=tx, translate_y=ty))
    r.oblige("transform: one level is read, completely", len(w.levels) == 1 and w.levels[0].full and w.levels[0].path is src)
    lv = w.levels[0]
    ef = w.effects()
    r.oblige("transform: only the output level is written, once", len(ef) == 1 and ef[0][0] == "whole level" and ef[0][1] is dst and all(p is dst for p in w.created()))
    r.oblige("transform: it is the level that was read", ef[0][2] is lv)
    r.oblige("transform: the output is closed", w.all_closed())
    q = E.concretize(num(I(rot) % 4))
    R = (((1, 0, 0), (0, 1, 0)), ((0, -1, 0), (1, 0, 0)), ((-1, 0, 0), (0, -1, 0)), ((0, 1, 0), (-1, 0, 0)))
    want = compose(R[q], ((up, 0, 0), (0, up, 0)))
    if vf:
        want = compose(((1, 0, 0), (0, -1, 0)), want)
    if hf:
        want = compose(((-1, 0, 0), (0, 1, 0)), want)
    want = compose(((1, 0, tx), (0, 1, ty)), want)
    got, k = IDENT, 1
    for a, f in lv.ops:
        got, k = compose(a, got), k * f
    r.oblige("transform: upscale, rotate, flip, shift", z3.And(*[Rl(x) == Rl(y) for p, q in zip(got, want) for x, y in zip(p, q)]))
    r.oblige("transform: tiles are refined by the upscale factor", I(k) == I(up))
    r.oblige("transform: nothing but the level type is replaced", set(lv.changed) <= {"level_type"} and not lv.store.sets)
    if lv.changed:
        r.oblige("transform: the level type changes from normal to dustmod only, when upscaling", z3.And(I(up) > 1, z3.BoolVal(was is L.NORMAL and lv.level_type is L.DUSTMOD)))


LINES = {
    ("thumbnail", "Thumbnail"): (dict(level="a", image="b", force=False, update=False, auto_convert=False, auto_scale=False), ["a", "b"],
                                 [("--force", dict(force=True)), ("--update", dict(update=True)), ("--auto-convert", dict(auto_convert=True)), ("--auto-scale", dict(auto_scale=True))]),
    ("variables", "Variables"): (dict(object="a", new_data=None, header="", indent=4), ["a"], [("n", dict(new_data="n")), ("--header=DF_STA", dict(header="DF_STA")), ("--indent=0", dict(indent=0)), ("--indent=7", dict(indent=7))]),
    ("transform", "Transform"): (dict(input_level="a", output_level="b", upscale=1, rotate=0, vflip=False, hflip=False, translate_x=0, translate_y=0), ["a", "b"],
                                 [("--upscale=3", dict(upscale=3)), ("--rotate=-1", dict(rotate=-1)), ("--rotate=6", dict(rotate=6)), ("--vflip", dict(vflip=True)), ("--hflip", dict(hflip=True)),
                                  ("--translate-x=-7.5", dict(translate_x=-7.5)), ("--translate-y=48", dict(translate_y=48.0))]),
    ("save_convert", "SaveConvert"): (dict(stats0="a", stats1="b"), ["a", "b"], []),
}


def command_line(key, via):
    """what the tool's main gets for each option alone, for none and for all of them, by each entry point; options are
    independent of each other (argparse)"""
    def fn(r, v):
        base, pos, opts = LINES[key]
        cls = getattr(mod(key[0]), key[1])
        seen = []
        r.stub(cls.main, lambda self, args: seen.append(args) or 7)
        sets = [[]] + [[o] for o in opts] + [[o for i, o in enumerate(opts) if not any(p[1].keys() == o[1].keys() for p in opts[i + 1:])]]
        for ch in sets:
            argv = pos + [o[0] for o in ch]
            want = dict(base)
            for o in ch:
                want.update(o[1])
            del seen[:]
            if via == "main":
                argv = [key[1].lower()] + argv
            old = sys.argv
            sys.argv = ["dustmaker"] + argv
            try:
                rc = instr.vf_call(mod("main").main) if via == "main" else instr.vf_call(mod("common").run_utility, cls)
            except SystemExit as e:
                rc = e.code
            finally:
                sys.argv = old
            what = "%s %s" % (key[0], " ".join(argv))
            r.oblige("%s: the tool runs once and its exit code is returned" % what, len(seen) == 1 and rc == 7)
            for n, w in want.items():
                if not hasattr(seen[0], n):
                    raise Unsupported("option stored under another name than " + n)
                x = getattr(seen[0], n)
                if x is None and w is not None and not any(n in o[1] for o in ch):
                    raise Unsupported("option %s without a default" % n)
                r.oblige("%s: %s" % (what, n), x == w)
    return fn


def groups(tier):
    instr.load()
    for n in ("thumbnail", "variables", "transform", "save_convert", "common", "main"):
        mod(n)
    for key in LINES:
        for via in ("main", "run_utility"):
            yield {"name": "command line of %s by %s" % (key[0], via), "functions": "%s.setup_parser, cmd.main.main, cmd.common.run_utility" % key[1], "fn": command_line(key, via)}
    yield {"name": "Thumbnail.main: update", "functions": "Thumbnail.main", "fn": update_thumbnail}
    yield {"name": "Thumbnail.main: update with conversion", "functions": "Thumbnail.main", "fn": converted_thumbnail}
    yield {"name": "Thumbnail.main: extract", "functions": "Thumbnail.main", "fn": extract_thumbnail}
    for h in (b"DF_LVL",) + KNOWN + (b"DF_RPL",):
        yield {"name": "Variables: print %s" % h.decode(), "functions": "Variables.main, Variables.output_variables", "fn": print_variables(h)}
        yield {"name": "Variables: feed back %s" % h.decode(), "functions": "Variables.main, Variables.update_variables", "fn": feed_variables(h, False)}
        yield {"name": "Variables: new file %s" % h.decode(), "functions": "Variables.main, Variables.update_variables", "fn": feed_variables(h, True)}
    yield {"name": "Transform.main", "functions": "Transform.main, TxMatrix.__mul__", "fn": transform}
