"""C21: totals and section flags in the header of a saved chunk, for any number of tiles, props and entities."""
import z3

from ..refcodec import DUSTBLOCK, FILTH_BY_TYPE
from . import c07
from . import segment as S
from .common import ENGINE, sym_tile, tile_model
from .engine import B, I

FUNCTIONS = ["dfwriter.DFWriter._write_segment", "tile.Tile.has_filth", "tile.Tile.is_dustblock", "entity.Enemy.FILTH and its overrides"]
ASSUMPTIONS = ["the bit layer and variables are used through their contracts (C01, C02, C05)", "a chunk is smaller than 2^29 bytes and holds at most 65535 props and 65535 entities, every total is below 2^16",
               "an edge without filth sprite is not marked spiked", "iteration visits every element once (CPython); sorting only renumbers"]
TRUSTED = ENGINE


def dustblock(r, v):
    t = sym_tile(r, v, 0)
    r.data["case"] = lambda vals: {"sshot": "", "vars": [], "tiles": [[19, 3, 4, tile_model(vals, 0)]], "props": [], "entities": [], "backdrop": {"tiles": [], "props": []}}
    got = v.tile.Tile.is_dustblock(t)
    r.oblige("dust block tiles are the ones of their sprite set", B(got) == z3.Or(*[z3.And(I(t.sprite_set) == s, I(t.sprite_tile) == n) for s, n in enumerate(DUSTBLOCK) if n >= 0]))


def values(r, v):
    Ent = v.entity.Entity
    for c in [c for c in vars(v.entity).values() if isinstance(c, type) and issubclass(c, Ent) and "TYPE_IDENTIFIER" in vars(c)]:
        t = vars(c)["TYPE_IDENTIFIER"]
        r.data["case"] = lambda vals: {"sshot": "", "vars": [], "tiles": [], "props": [], "backdrop": {"tiles": [], "props": []},
                                       "entities": [[5, 1.0, 2.0, {"etype": t, "rot": 0, "layer": 0, "fx": False, "fy": False, "vis": True, "vars": []}]]}
        e = c()
        r.oblige("filth value of " + t, int(getattr(e, "FILTH", 0)) == FILTH_BY_TYPE.get(t, 0))


def groups(tier):
    yield {"name": "totals and flags of a chunk", "functions": "DFWriter._write_segment", "fn": S.write_group("tpe", "s")}
    yield {"name": "dust blocks", "functions": "Tile.is_dustblock", "fn": dustblock}
    yield {"name": "filth test", "functions": "Tile.has_filth", "fn": c07.has_filth}
    yield {"name": "filth values", "functions": "Enemy.FILTH", "fn": values}
