"""C07: tiles through the region map, the region, the chunk writer and the chunk reader, for any number of tiles at any coordinates."""
import z3

from . import levelio as L
from . import segment as S
from .common import ENGINE, ieq, sym_tile, tile_model
from .engine import B

FUNCTIONS = ["dfwriter._compute_region_map", "dfwriter._RegionMap", "dfwriter._LevelRegion", "dfwriter._LevelSegment", "dfwriter.DFWriter._write_region", "dfwriter.DFWriter._write_segment", "dfreader.DFReader.read_region",
             "dfreader.DFReader.read_segment", "tile.Tile.has_filth", "dfwriter.write_level", "dfreader.read_level"]
ASSUMPTIONS = ["the bit layer is used through its contracts (C01, C02); tile and dust records through theirs (C06)", "a chunk is smaller than 2^29 bytes and holds at most 65535 props and 65535 entities",
               "zlib.decompress(zlib.compress(x)) == x", "no Tile object is stored under two positions", "iteration over a dict visits every key once (CPython); sorting only renumbers"]
TRUSTED = ENGINE


def has_filth(r, v):
    t = sym_tile(r, v, 0)
    r.data["case"] = lambda vals: {"sshot": "", "vars": [], "tiles": [[19, 3, 4, tile_model(vals, 0)]], "props": [], "entities": [], "backdrop": {"tiles": [], "props": []}}
    got = v.tile.Tile.has_filth(t)
    r.oblige("a tile has filth exactly when some edge has a filth sprite", B(got) == z3.Or(*[z3.Not(ieq(e.filth_sprite_set, 0)) for e in t.edge_data]))


def shared(cases=None):
    """placing of tiles, props and entities: common to C07 and C08"""
    yield {"name": "grouping into regions and chunks", "functions": "_compute_region_map, _RegionMap, _LevelRegion", "fn": L.region_map("")}
    yield {"name": "writing a region", "functions": "DFWriter._write_region", "fn": L.write_region}
    yield {"name": "saving to and loading from bytes", "functions": "dfwriter.write_level, dfreader.read_level", "fn": L.convenience}
    yield {"name": "reading a region", "functions": "DFReader.read_region", "fn": L.read_region}


def groups(tier):
    yield from shared()
    yield {"name": "writing a chunk (tiles)", "functions": "DFWriter._write_segment", "fn": S.write_group("tpe", "t")}
    yield {"name": "reading a chunk (tiles)", "functions": "DFReader.read_segment", "fn": S.read_group("tpe", "t")}
    yield {"name": "filth test", "functions": "Tile.has_filth", "fn": has_filth}
