"""level notes per property (run by hand before mkmanifest.py)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = "contract-based deductive verification of the real functions (symbolic execution of /repo's source against contracts, obligations discharged by z3/cvc5)"
P = {
 "C01": "write, read, write_bytes, read_bytes, bit_tell of BitIO are proved for every bit width, alignment and value; zlib/BinaryIO by contract.",
 "C02": "seek, skip, align, flush, close of reader and writer are proved against the bit-stream invariant.",
 "C03": "write_6bit_str and read_6bit_str are proved for every length and every character code, the alphabet tables by enumeration.",
 "C04": "write_float and read_float are proved for every field width with floats as exact reals; round trip is a lemma over the two contracts.",
 "C05": "write/read of variables are proved by induction on nesting (recursive calls through the contract), strings and arrays of any length.",
 "C06": "pack and unpack of both records are proved for every field value.",
 "C07": "grouping into regions and chunks, writing and reading a region, and the tile and dust sections of _write_segment/read_segment are proved for any number of tiles and any coordinates; zlib by contract.",
 "C08": "the prop and entity sections of _write_segment/read_segment, grouping, regions and the class of a read entity are proved for any number of props and entities; strings, fixed point numbers and variables through C03 to C05.",
 "C09": "write_level, write_level_ex (parsed and raw regions), read_level_ex, read_level and calculate_max_id are proved for any number of regions, any sizes and any stream position.",
 "C10": "write_replay and read_replay are proved for each version, any number of players, entities and frames, and input lists of any length and run structure: the bytes of a stream are judged by a machine for the meaning of counts and values, the run loops by invariants; get_intent_value and the entity accessors are proved; zlib by contract.",
 "C11": "all matrix operations are proved over exact reals for every entry.",
 "C12": "Tile.transform is proved for each shape and symmetry, every edge content, scale and translation; composition is a lemma.",
 "C14": "Prop.transform, Entity.transform with its six overrides, Level.transform, Level.upscale and the shorthands are proved for every symmetry, integer scale, translation and any contents; tiles through C12 and C13, accessors through C20; composition of orientation and places are lemmas.",
 "C15": "calculate_edge_visibility is proved per tile for an arbitrary tile map and arbitrary neighbours.",
 "C16": "calculate_edge_caps is proved per tile for an arbitrary tile map and arbitrary neighbourhood.",
 "C13": "Tile.upscale is proved per target cell for each of the 21 shapes, every factor n >= 1 and every edge content.",
 "C17": "the allocator invariant is proved to be kept by add_prop, add_entity, _gen_id, _note_id and calculate_max_id, and remap_ids, the five reference overrides and merge are proved for any contents; accessors through C20, deepcopy by contract.",
 "C18": "merge_schema, variables_to_json and json_to_variables are proved one level at a time for every pair of schema shapes and every variable kind, mappings and arrays of any size, recursive calls through the contract; that merged schemas decode all their elements is proved by induction lemmas; json text by contract.",
 "C19": "migrate_stats is proved for any number of scores with arbitrary names and values, any presence of the other entries (records as a filtered map, counters as sums, sorting by contract); SaveConvert.main is proved against the C22 contracts of reading and writing.",
 "C20": "every named accessor, the array accessors and array variables (index, assign, insert, append, pop, delete, iterate, length) are proved against an abstract variable map and abstract list; slices excluded.",
 "C21": "the totals and flags written by _write_segment are proved as sums over any number of tiles, edges and entities; dust block and filth tables by enumeration.",
 "C22": "write_var_file and read_var_file are proved for every header, offset and mapping; variables through the C05 contract.",
 "C23": "__eq__ and __hash__ of tiles and of every variable kind are proved for arbitrary values, nested values by induction through the contract.",
 "C24": "Thumbnail.main, Variables.main with update_variables and output_variables, and Transform.main are proved over abstract files and levels against the contracts of C07 to C09, C14, C18 and C22, for every header, option combination, upscale factor, rotation and real shift; PIL by contract; the command lines of all four tools by enumeration of their options.",
}
PART = {}
E = " Evidence lists the obligations and the assumptions; the same contracts also run on generated inputs (bounded, not counted as proved)."
doc = {k: {"technique": T, "level": "proof", "note": "Proof: " + v + E} for k, v in P.items()}
for k, v in PART.items():
    doc[k] = {"technique": T + "; bounded run-time contracts for the rest", "level": "proof", "note": v + E}
json.dump(doc, open(os.path.join(HERE, "level_notes.json"), "w"), indent=1, sort_keys=True)
