"""C08: props and entities through the region map, the region, the chunk writer and the chunk reader; class of a read entity."""
import z3

from . import c07
from . import segment as S
from .common import ENGINE
from .engine import B, I, Sym, Unsupported
from .vals import AMap, SSeq

FUNCTIONS = ["dfwriter._compute_region_map", "dfwriter._RegionMap", "dfwriter._LevelRegion", "dfwriter._LevelSegment", "dfwriter.DFWriter._write_region", "dfwriter.DFWriter._write_segment", "dfreader.DFReader.read_region",
             "dfreader.DFReader.read_segment", "entity.Entity._from_raw", "entity.Entity.__init__", "dfwriter.write_level", "dfreader.read_level"]
ASSUMPTIONS = ["the bit layer, six-bit strings, fixed point numbers and variables are used through their contracts (C01 to C05)", "a chunk is smaller than 2^29 bytes and holds at most 65535 props and 65535 entities",
               "math.log(50 ** x, 50) rounds to x for the 56 storable scales (checked by enumeration in the bounded part)", "zlib.decompress(zlib.compress(x)) == x", "copy.deepcopy gives an equal copy",
               "iteration over a dict visits every key once (CPython); sorting only renumbers"]
TRUSTED = ENGINE


class NoType(Sym):
    """a type name none of the known classes has"""
    pytypes = (str,)

    def __eq__(self, o):
        if isinstance(o, str):
            return False
        return self is o

    def __ne__(self, o):
        return not self == o

    __hash__ = Sym.__hash__


class Known(Sym):
    """the table of known types, asked for a name it does not have"""
    pytypes = (dict,)

    def __init__(self, real):
        self.real = real

    def get(self, k, d=None):
        return d if isinstance(k, NoType) else self.real.get(k, d)

    def __contains__(self, k):
        return not isinstance(k, NoType) and k in self.real

    def __getitem__(self, k):
        if isinstance(k, NoType):
            raise KeyError("unknown type")
        return self.real[k]


def from_raw(r, v):
    Ent = v.entity.Entity
    known = [c for c in vars(v.entity).values() if isinstance(c, type) and issubclass(c, Ent) and "TYPE_IDENTIFIER" in vars(c)]
    i = r.choose(len(known) + 1)
    name = vars(known[i])["TYPE_IDENTIFIER"] if i < len(known) else None
    txt = name if name is not None else "foo_bar"
    r.data["case"] = lambda vals: {"sshot": "", "vars": [], "tiles": [], "props": [], "backdrop": {"tiles": [], "props": []},
                                   "entities": [[5, 1.0, 2.0, {"etype": txt, "rot": vals.get("rotation", 0), "layer": vals.get("layer", 0), "fx": vals.get("flip x", False), "fy": vals.get("flip y", False), "vis": vals.get("visible", False), "vars": [["q", ["bool", True]]]}]]}
    va = AMap(SSeq("variables", r.int("variables", 0).e, lambda k: (None, None)))
    args = (r.int("rotation", 0, 65535), r.int("layer", 0, 255), r.bool("flip x"), r.bool("flip y"), r.bool("visible"))
    real = Ent._known_types
    if name is None:
        name = NoType()
        type.__setattr__(Ent, "_known_types", Known(real))
    try:
        e = Ent._from_raw(name, va, *args)
    finally:
        type.__setattr__(Ent, "_known_types", real)
    r.oblige("an entity has the class registered for its type, or Entity", type(e) is (known[i] if i < len(known) else Ent))
    r.oblige("an entity has its type name", e.etype is name if isinstance(name, NoType) else e.etype == name)
    r.oblige("an entity has its variables", isinstance(e.variables, AMap) and e.variables.seq is va.seq)
    r.oblige("an entity has its rotation and layer", z3.And(I(e.rotation) == args[0].e, I(e.layer) == args[1].e))
    r.oblige("an entity has its flips and visibility", z3.And(B(e.flip_x) == B(args[2]), B(e.flip_y) == B(args[3]), B(e.visible) == B(args[4])))


def groups(tier):
    yield from c07.shared()
    for n, t in (("props", "p"), ("entities", "e")):
        yield {"name": "writing a chunk (%s)" % n, "functions": "DFWriter._write_segment", "fn": S.write_group("tpe", t)}
        yield {"name": "reading a chunk (%s)" % n, "functions": "DFReader.read_segment", "fn": S.read_group("tpe", t)}
    yield {"name": "class of an entity", "functions": "Entity._from_raw, Entity.__init__", "fn": from_raw}
