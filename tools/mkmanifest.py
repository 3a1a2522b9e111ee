#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
N = {
 "C01": "escape and unescape against recursive specs (esc/dec), their round-trip lemma, and the contracts of the printing and value-parsing functions",
 "C02": "contracts of fold_line, content_line, unfold",
 "C03": "every precondition (slice bounds, char boundaries, unwraps, arithmetic) and every termination measure of every function under contract",
 "C04": "contracts of the iterator, of parse and of the string conversion over a shared spec of documents",
 "C05": "contract of validate, and valid() in the postcondition of every function that hands out cards; single-valued guards in the contract of the property dispatcher",
 "C06": "contract of the property dispatcher: the whole card afterwards is the card before with one field changed",
 "C07": "contract of Vcard's Display: the printed text equals a spec text assembled from all fields; per-type Property impls",
 "C08": "FromStr/Display of the enumerations against tables, inverse lemmas",
 "C09": "Display of Parameters against a spec text, contracts of parse_parameters and parse_parameter_value",
 "C10": "contract of parse_parameters and of the PID/CLIENTPIDMAP rules",
 "C11": "parse_*/format_* pairs, DateAndOrTime, UTC offset printing against spec texts; list loops by induction",
 "C12": "split_escaped against a recursive spec, structured Display/FromStr contracts, round-trip lemmas",
 "C13": "contracts of parse_properties and skip_line",
 "C14": "contracts of parse, parse_one, parse_properties, assert_token, parse_property_value, parse_parameter_value",
 "C15": "contract of each builder method: the whole card afterwards; From conversions",
 "C16": "contract of parse_photo_jpeg against a recursive spec",
}
m = {"version": 1,
 "setup_cmd": "cargo build --offline --release --manifest-path extract/Cargo.toml && cargo build --offline --release --manifest-path replay/Cargo.toml && cargo build --offline --release --manifest-path replay/Cargo.toml --features full --target-dir replay/target/full",
 "checks": [], "not_applicable": [
  {"property": "C17", "reason": "the behaviour is serde derive output plus serde_json: macro-generated visitors and trait objects that are not source functions of the repository and that Verus cannot take in; no contract within reach can express it (bounded tests would be another technique)"},
  {"property": "C18", "reason": "a statement about memory after drop; deductive contracts over safe Rust cannot observe freed memory, and the Zeroize impls are macro generated"}],
 "notes": "DESIGN.md explains the machinery. One extraction and one Verus run serve every check; each check also replays its property against the real crate to turn failed obligations into failing inputs. MANIFEST.json and properties.jsonl are written by tools/mkmanifest.py and tools/mkprops.py."}
for i in range(1, 17):
    p = "C%02d" % i
    m["checks"].append({"property": p, "quick_cmd": f"python3 bin/check.py {p}", "thorough_cmd": f"python3 bin/check.py {p} --tier thorough",
      "technique": "contract-based deductive verification (Verus on mechanically extracted code), with bounded replay on the real crate for the functions listed as bounded and to concretise failures",
      "level": "proof", "level_note": N[p] + ". Assumes the extraction's rewrites, the contracts of dependencies and the axioms about the generated lexer listed in DESIGN.md and in the evidence (trusted_base); functions listed under functions_bounded in the evidence are checked by bounded replay only."})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
