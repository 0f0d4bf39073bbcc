#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("round-trip and differential generation against an independent CESR codec", "all 51 material codes times random raw values and lengths, both size regimes"),
"C02": ("differential generation: text against binary domain and an independent codec", "all material codes times random raw values"),
"C03": ("mutation-based generation with a canonicality oracle", "mutated, truncated and arbitrary text/binary; an acceptance must equal the reference encoding"),
"C04": ("panic-freedom fuzzing with structured generators", "arbitrary and mutated inputs to every primitive constructor; accepted values must re-encode"),
"C05": ("round-trip and differential generation against an independent CESR codec", "all indexed codes times boundary-biased indices"),
"C06": ("mutation-based generation with a canonicality oracle", "mutated, truncated and arbitrary text/binary"),
"C07": ("round-trip, boundary generation and canonicality oracle", "all counter codes, boundary-biased counts, mutated text/binary"),
"C08": ("matrix generation: type x code x form against a table of kinds", "the kind table is written from the documentation and the CESR code tables"),
"C09": ("round-trip and differential generation against integer arithmetic", "boundary-biased 128-bit values"),
"C10": ("round-trip generation over date-time grammar and malformed variants", "see statement"),
"C11": ("round-trip generation over Base64 text of all lengths", "see statement"),
"C12": ("differential generation against the hash crates called directly", "trusts the hash crates"),
"C13": ("metamorphic generation: sign, alter, verify; differential against the signature crates", "trusts the signature crates"),
"C14": ("differential and round-trip generation over seeds", "trusts the signature crates; uniqueness of random signers is sampled"),
"C15": ("differential generation against Argon2id called directly", "trusts the argon2 crate; tiers above low are sampled sparsely because they are slow"),
"C16": ("model-based generation of key-creation requests", "trusts the argon2 and signature crates"),
"C17": ("stateful generation of operation sequences under a watching allocator", "every heap block released is searched for the secret; stack and registers are not inspected"),
"C18": ("model-based generation against exact rational arithmetic", "weights with components in i32"),
"C19": ("grammar-based generation: conversions between representations, malformed expressions", "see DESIGN.md for forms not claimed"),
"C20": ("differential generation against an independent JSON writer and digests; single mutations", "JSON documents"),
"C21": ("round-trip and model-based generation of event documents and re-assignments", "JSON serialisation only: the library writes no other"),
"C22": ("model-based generation of event documents; field mutations", "oracle is the generated document itself"),
"C23": ("model-based generation of credential documents; corruption", "oracle is the generated document itself"),
"C24": ("round-trip generation; windows with version strings at offsets; corruption", "see DESIGN.md for what a window may hold"),
"C25": ("model-based generation of inception events; single mutations", "trusts hash crates"),
"C26": ("model-based generation: paths as part lists against a list model and a document walker", "non-empty parts without '-'"),
"C27": ("round-trip and differential generation against an independent JSON reader/writer", "one known finding: 17-digit decimals"),
"C28": ("panic-freedom fuzzing with document grammars and extremes", "every document-level constructor and accessor"),
"C29": ("stateful generation of primitive streams with incremental parsing", "cold start by the first characters, independent codec"),
"C30": ("round-trip generation: assemble, then parse with an independent reader", "private functions reached through a hook"),
"C31": ("stateful model-based generation of histories; a validator run over the library's operations and over independent ones", "the validator is the harness's own; delegation is not followed to the delegator"),
"C32": ("metamorphic generation: operation programs in several orders, threads and processes", "34 kinds of operation, randomised signatures judged by verification"),
"C33": ("generation of concurrent requests for randomness; invariants over all results", "distinctness and bit variety, not statistical quality"),
"C34": ("resource-metered generation: claimed sizes, bulk documents and long texts under a counting allocator and the thread's processor clock", "linear bounds with several times the allowance this tree needs; inputs up to some 500 kB"),
}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./run.sh setup",
 "hooks": {"guard": "keride_verif (rustc cfg)", "enable": "RUSTFLAGS='--cfg keride_verif', set by run.sh when it builds /verif/harness with its path dependency on /repo", "source_commits": ["a53f556"]},
 "checks": [{
   "property": p,
   "quick_cmd": f"./run.sh check {p}",
   "thorough_cmd": f"VERIF_TIER=thorough ./run.sh check {p}",
   "technique": "property-based testing: " + T[p][0],
   "level": "exploration",
   "level_note": "No violation on the generated cases counted in the evidence; not a proof. " + T[p][1][0].upper() + T[p][1][1:] + ".",
 } for p in props],
 "not_applicable": [],
 "notes": "Known findings and repaired defects: known_findings.txt. Design, decisions and planted changes: DESIGN.md.",
}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
