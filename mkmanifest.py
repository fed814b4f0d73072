#!/usr/bin/env python3
# Writes MANIFEST.json from this table (run by hand after editing it).
import json
T = {
"C01": ("structured, corrupted and coverage-guided byte fuzzing on a 2 MiB stack with crash, panic and work-limit detection", "No input explored makes the parser panic, abort, exhaust the stack or run on; assumes overflow checks on and a 2 MiB stack."),
"C02": ("amplifier generation with counted heap and counted control-flow edges against a linear bound", "Peak heap and executed edges stay under a fixed allowance plus a multiple of the input size on everything explored; the multiples are generous, so that only amplification is reported."),
"C03": ("round trip of generated class skeletons through an independent encoder, whole-tree comparison", "Generated class skeletons parse to exactly the generated tree; trusts the encoder of the harness, which is cross-checked by a second, separately written decoder."),
"C04": ("round trip of generated constant pools, looked up at every index, against a list model", "Every index of every generated pool yields the encoded constant or the error; trusts the harness encoder."),
"C05": ("exhaustive enumeration of scalars and short byte strings, random texts and corruptions, against a UTF-16 based reference decoder", "All scalar values and all byte strings of up to 3 bytes are enumerated; longer ones are sampled."),
"C06": ("exhaustive operand enumeration and random code bodies against an instruction table", "Every opcode with every 1- and 2-byte operand; bodies sampled; trusts the instruction table of the harness, written from JVMS 6.5."),
"C07": ("boundary enumeration and random generation of switches at all alignments, round trip and rejection oracles", "Explored switches decode exactly or are rejected."),
"C08": ("random code bodies, whole-tree comparison, and metamorphic cuts of the code length", "Explored bodies are framed exactly; every cut inside an instruction is rejected."),
"C09": ("enumeration of frame and verification tags, random tables, against an independent encoder", "All 256 tags at each place; tables sampled."),
"C10": ("random attribute tables and boundary counts against an independent encoder", "Sampled; every count field at its boundary values."),
"C11": ("random attributes and boundary counts against an independent encoder", "Sampled; every count field at its boundary values."),
"C12": ("random module attributes and boundary counts against an independent encoder", "Sampled; every count field at its boundary values."),
"C13": ("random annotation trees and boundary counts against an independent encoder", "Sampled up to nesting 16; all 256 element tags."),
"C14": ("random type annotations, all target tags and path kinds, against an independent encoder", "Sampled; all 256 target tags and path kinds."),
"C15": ("metamorphic edits of unknown attributes in generated files", "Sampled edits at every list of every level."),
"C16": ("mutation of attribute lengths and contents in generated files, rejection oracle", "Sampled; every altered length explored is rejected."),
"C17": ("every prefix of generated files and every magic byte, rejection oracle", "All prefixes of the sampled files."),
"C18": ("single-tag mutation of generated files, exact-error oracle", "All tag spaces sampled in many surroundings; exact error required for single faults only."),
"C19": ("stateful model-based histories of pool operations against a list model", "Sampled histories, all pairs of a universe of near-equal items."),
"C20": ("stateful model-based histories at the capacity limit against a list model", "Sampled histories across the limit from every start within a few items of it."),
"C21": ("iteration compared with lookups over generated and parsed pools", "Sampled pools, including full ones."),
"C22": ("every index of generated pools looked up in all forms against a list model", "Sampled pools, all 65536 indices of each."),
"C23": ("random pairs and triples of items against bit-pattern equality, hash and map invariants", "Sampled; all pairs of a universe of near-equal items."),
"C24": ("exhaustive short strings, grammar generation and edits against a reference grammar", "All strings to length 6 over the descriptor alphabet; longer ones sampled."),
"C25": ("exhaustive short strings, grammar generation and edits against a reference grammar", "All strings to a short length over the descriptor alphabet; longer ones sampled."),
"C26": ("print and re-parse round trip over generated descriptor values with an independent printer", "Sampled; all dimensions and base types."),
"C27": ("exhaustive enumeration of flag values at every place that stores them", "All 65536 values at all nine places."),
"C28": ("differential repetition across histories, threads, buffers and attachment points", "Sampled; thread schedules are whatever the OS gives."),
"C29": ("differential testing on compiled class files against an independent reference decoder", "JDK classes and classes compiled from generated sources; trusts the reference decoder."),
"C30": ("differential fuzzing against an independent reference decoder: field-aware mutation, tape evolution and coverage-guided bytes", "Agreement with the reference decoder on everything explored; points the format leaves open are not compared."),
}
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": [],
 "notes": "No hooks in /repo: everything is observed through the public API, a counting allocator and compiler edge instrumentation of the library built from /repo's working tree. See DESIGN.md."}
for k, (t, n) in T.items():
    m["checks"].append({"property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough",
      "evidence_file": f"evidence/{k}.json", "technique": "property-based testing / fuzzing: " + t, "level": "exploration", "level_note": n})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
