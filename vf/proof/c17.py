"""C17: the id allocator as an invariant (above every id in use, level and backdrop), kept by every operation; remapping, references and merging for any contents."""
from . import ids as D
from .common import ENGINE

FUNCTIONS = ["level.Level.add_prop", "level.Level.add_entity", "level.Level._gen_id", "level.Level._note_id", "level.Level.calculate_max_id", "level.Level.remap_ids", "level.Level.merge", "entity.Entity.remap_ids and its five overrides"]
ASSUMPTIONS = ["the reference accessors of entities behave as plain attributes and lists (C20)", "copy.deepcopy gives an equal copy sharing nothing with the original", "dicts have distinct keys, visit every key once, update() overwrites exactly the keys of its argument (CPython)",
               "props and entities are only added through add_prop, add_entity, merge and loading", "merging with remap_ids=False keeps only objects whose ids the other level does not use"]
TRUSTED = ENGINE


def groups(tier):
    for k in ("level with backdrop", "level without backdrop", "backdrop"):
        yield {"name": "largest id: " + k, "functions": "Level.calculate_max_id", "fn": D.max_id(k, D.remap_case)}
        yield {"name": "remapping: " + k, "functions": "Level.remap_ids", "fn": D.remap(k)}
    for w in ("level", "backdrop"):
        for n in ("props", "entities"):
            for e in (True, False):
                yield {"name": "adding to %s of the %s, %s id" % (n, w, "given" if e else "automatic"), "functions": "Level.add_%s, _gen_id, _note_id" % ("prop" if n == "props" else "entity"), "fn": D.add(w, n, e)}
    for t in D.REFS:
        yield {"name": "references of " + t, "functions": "Entity.remap_ids and its override", "fn": D.references(t)}
    for k in ("both have backdrops", "own has a backdrop", "other has a backdrop", "no backdrops"):
        for m in (None, True, False):
            yield {"name": "merging, %s, %s" % (k, {None: "default", True: "remapped", False: "not remapped"}[m]), "functions": "Level.merge", "fn": D.merge(k, m)}
    yield {"name": "merging backdrops", "functions": "Level.merge", "fn": D.merge("backdrop", False)}
