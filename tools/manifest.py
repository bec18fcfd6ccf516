#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("structured and mutation fuzzing of every loading entry point by three builds (checked, released, not optimised); oracle: returns, and its error can be displayed and walked",
         "No panic, abort or endless read on any generated input. Inputs are mutated well-formed documents, token soup and random bytes up to some KiB; not a proof for all inputs."),
 "C02": ("fuzzing with hostile counts under a counting allocator; oracle: peak live bytes <= 64 x input + 1 MiB",
         "Peak memory of the loading thread is measured exactly for each generated document. The constant is chosen with a wide margin over the correct code's."),
 "C03": ("property-based testing of generated documents against the document model (an independent description of the tree that the text is rendered from)",
         "Every joint of every generated document is compared with the model bit for bit. Trusts the harness's renderer and Rust's str::parse::<f32> as the nearest single-precision value."),
 "C04": ("property-based testing of generated motion sections against the document model",
         "Every value, frame count, motion index and the frame time are compared. Trusts Rust's number parsing as correctly rounded."),
 "C05": ("mutation fuzzing; oracle: a validity predicate over everything that loads",
         "Holds on all generated inputs that load; evidence counts them."),
 "C06": ("metamorphic testing: two layouts of one document load equal, or are rejected with the same kind of error",
         "Pairs of generated layouts of generated documents, well-formed and mutated ones."),
 "C07": ("fault injection into well-formed documents; oracle: each kind of defect tells the error kind, line and details that are due",
         "A catalogue of defects, placed at generated points of generated documents in generated layouts; each error compared in kind, line index, details and text with what that defect calls for. Defects outside the catalogue are only covered by C01 and C06."),
 "C08": ("differential testing of entry points and delivery plans (chunk sizes, interruptions, read errors) against loading from memory",
         "Readers are generated; a fault is placed at a generated point. Only std::io behaviours a BufRead may show."),
 "C09": ("round-trip testing: edit, write, load, compare, write again",
         "Generated skeletons, bit patterns (NaN, infinities, subnormals) and frame times below a million seconds."),
 "C10": ("property-based testing of written text against a reference formatter with exact decimal rounding",
         "Reference formatter is independent of the code; digit counts 0 to 70 enumerated, up to 500 generated, and shortest."),
 "C11": ("fault injection into generated sinks; oracle: received bytes are the text, or a prefix and an error",
         "Partial writes, interruptions, errors and zero-length writes at generated points, enumerated over every byte for some animations."),
 "C12": ("model-based stateful testing of cursor histories against a list with a position",
         "Generated histories of up to some dozens of operations, compared after each."),
 "C13": ("model-based stateful testing of iterator call interleavings against a double-ended queue",
         "Generated interleavings including skipping from both ends, for shared and mutable iterators."),
 "C14": ("property-based testing of frame accesses against a slice model",
         "Generated channels, references, positions and all range kinds, in and out of bounds."),
 "C15": ("property-based testing of navigation over generated trees against the tree model",
         "All joints, children, parents and looked-up names of every generated skeleton."),
 "C16": ("exhaustive enumeration near the six names plus generated texts through every conversion; oracle: the table of names",
         "Complete for texts at edit distance one and up to two bytes; generated beyond."),
 "C17": ("differential testing of generated, compiled bvh! programs against loading the same text",
         "Thousands of generated literals are compiled per run. Limited to documents the macro's grammar can express."),
 "C18": ("model-based and metamorphic testing of clone, equality, frame-time and extraction",
         "Generated pairs of animations with one known difference; equality compared with the model's."),
 "C19": ("model-based stateful testing of whole histories over three animations",
         "Generated histories of loads, edits, writes to any sink and reloads, all animations compared with the model after each step."),
 "C20": ("generated histories run on several threads at once, repeatedly; oracle: the results of the same histories on one thread",
         "Schedules are those the operating system happens to make, started together at a barrier and repeated; not all schedules are covered. The crate has no locks or atomics to instrument."),
 "C21": ("fault injection into caller-supplied iterators, AsRef, readers, sinks and formatters (panics, wrong answers, re-entrance, leaks); oracle: the animation model",
         "Generated place and kind of misbehaviour; what a panicking insertion may leave is any leading run of the new frames."),
 "C22": ("property-based testing of pairs of values that differ in few aspects; oracle: equality of what they show",
         "All joints, channels and frames of generated pairs of animations, and generated options; NaN and signed zeros are left open."),
 "C23": ("generated operations and repeated histories under a counting allocator; oracle: a bound in proportion to the data, and no growth between rounds",
         "Peak of the calling thread, measured exactly for each generated operation; a leak shows as growth in each of 40 rounds of one generated history."),
 "C24": ("metamorphic testing: the same generated recipe and operation at three sizes, processor times compared",
         "64 KiB against 1 and 4 MiB; only growth of more than 8 (16 without reading or writing) times the proportion is told from noise. Walking a cursor with peeks and inserting many frames in the middle are left out."),
 "C25": ("property-based testing of errors from generated refused inputs, failing readers, refused calls and public parts; oracle: their own fields and the call's arguments",
         "All variants that can be made from public parts, with generated lines, counts and bytes, and the errors of generated documents. The wording is left open."),
}
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
assert [p["id"] for p in props] == sorted(T)
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": p["id"],
   "quick_cmd": f"./run.sh {p['id']} quick",
   "thorough_cmd": f"./run.sh {p['id']} thorough",
   "evidence_file": f"evidence/{p['id']}.json",
   "technique": T[p["id"]][0],
   "level": "exploration",
   "level_note": T[p["id"]][1],
 } for p in props],
 "not_applicable": [],
 "notes": "Generated-input search with explicit oracles over the public API; no hooks in /repo. See DESIGN.md and known_findings.txt.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
