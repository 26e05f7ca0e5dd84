"""C09: level files over the contracts of regions, variables and the bit layer, for any number of regions and any stream position."""
from . import ids as D
from . import levelio as L
from .common import ENGINE

FUNCTIONS = ["dfwriter.DFWriter.write_level", "dfwriter.DFWriter.write_level_ex", "dfwriter.DFWriter._write_metadata", "dfwriter.DFWriter._write_regions_raw", "dfwriter.DFWriter._write_regions_from_level", "dfwriter._RegionMap.get_region_keys",
             "dfreader.DFReader.read_level", "dfreader.DFReader.read_level_ex", "dfreader.DFReader._read_metadata", "level.Level.calculate_max_id", "dfwriter.write_level", "dfreader.read_level"]
ASSUMPTIONS = ["the bit layer and variables are used through their contracts (C01, C02, C05), regions through theirs (C07, C08)", "the file is smaller than 2^32 bytes",
               "the output stream is fresh: bits of the directory never written read back as zero", "a region's data is a whole number of bytes"]
TRUSTED = ENGINE


def groups(tier):
    yield {"name": "order of the regions", "functions": "_RegionMap.get_region_keys", "fn": L.region_keys}
    yield {"name": "writing a level", "functions": "DFWriter.write_level, write_level_ex, _write_metadata, _write_regions_from_level", "fn": L.write_level}
    yield {"name": "saving to and loading from bytes", "functions": "dfwriter.write_level, dfreader.read_level", "fn": L.convenience}
    yield {"name": "writing raw regions", "functions": "DFWriter.write_level_ex, _write_regions_raw", "fn": L.write_raw(False)}
    yield {"name": "writing raw regions in pieces", "functions": "DFWriter.write_level_ex, _write_regions_raw", "fn": L.write_raw(True)}
    for m, n in (("ex", "reading metadata and directory"), ("meta", "reading metadata only"), ("full", "reading a level")):
        yield {"name": n, "functions": "DFReader.read_level, read_level_ex, _read_metadata", "fn": L.read_level(m)}
    for k in ("level with backdrop", "level without backdrop", "backdrop"):
        yield {"name": "largest id: " + k, "functions": "Level.calculate_max_id", "fn": D.max_id(k, L.case, False)}
