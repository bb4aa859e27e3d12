#!/usr/bin/env python3
"""Writes MANIFEST.json (one entry per property of properties.jsonl)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # id -> (technique, level, note)
 "C01": ("stateful model-based property testing (reference sequence) + coverage-guided fuzzing", "operation histories of up to ~60 steps over 13 element kinds/sizes, heap and allocator"),
 "C02": ("stateful model-based property testing (reference pointer sequence, pointees are canaries) + coverage-guided fuzzing", "operation histories on heap and allocator"),
 "C03": ("stateful model-based property testing (reference text) + coverage-guided fuzzing", "edit histories on heap and allocator, texts from empty to tens of kB"),
 "C04": ("property testing against reference text algorithms + coverage-guided fuzzing", "small-alphabet texts so that needles, overlaps and borders occur often"),
 "C05": ("property testing: reference split/join, round trips + coverage-guided fuzzing", "small-alphabet texts with runs of separators"),
 "C06": ("stateful property testing: span against the underlying storage + coverage-guided fuzzing", "spans over vectors, lists, strings, spans and raw buffers"),
 "C07": ("stateful property testing: visit log against the sequence + coverage-guided fuzzing", "interleaved slides, resets, edits and applies over all containers"),
 "C08": ("stateful model-based property testing (outside ledger) + coverage-guided fuzzing", "alloc/realloc/free histories with content and overlap checks, destroy with live blocks"),
 "C09": ("stateful property testing with allocation accounting on both sides + coverage-guided fuzzing", "operation histories over all allocating modules with per-side ledgers"),
 "C10": ("property testing with generated out-of-range requests, byte-for-byte snapshots + coverage-guided fuzzing", "every indexed call of every container after a generated history"),
 "C11": ("stateful property testing with red zones around caller-owned buffers + coverage-guided fuzzing", "every editing call on views"),
 "C12": ("property testing: round trip and differential against an independent converter + coverage-guided fuzzing", "all widths, extremes, every buffer length near the limit"),
 "C13": ("property testing: round trip, layout oracle, single-character corruption + coverage-guided fuzzing", "generated date-times and corrupted texts on guarded buffers"),
 "C14": ("property testing against an independent Gregorian calendar + coverage-guided fuzzing", "all years 0..9999, several time zones"),
 "C15": ("property testing against civil-day counting + coverage-guided fuzzing", "several time zones; one known finding listed"),
 "C16": ("property testing: generated option tables and command lines against a reference parser + coverage-guided fuzzing", "grammar-aware argument lists incl. broken ones"),
 "C17": ("stateful model-based property testing of file histories with fault injection + coverage-guided fuzzing", "real files in a scratch directory, short reads, open and store faults"),
 "C18": ("property testing against reference path definitions + coverage-guided fuzzing", "small-alphabet path texts, destination reuse and aliasing"),
 "C19": ("stateful model-based property testing (reference tree) + coverage-guided fuzzing", "real trees incl. symbolic links in a scratch directory, unprivileged confinement by stand-ins"),
 "C20": ("stateful property testing: captured destinations against expected lines + coverage-guided fuzzing", "all levels, redirects, unusable targets"),
 "C21": ("stateful property testing: captured destinations and exit status + coverage-guided fuzzing", "all macros, redirects, disable/enable, unusable targets"),
 "C22": ("property testing against exact definitions + coverage-guided fuzzing", "float arguments sampled over all exponents"),
 "C23": ("property testing over seeds and bounds: range and variation + coverage-guided fuzzing", "statistical bounds chosen so that a false alarm is below 1e-12 per case"),
 "C24": ("property testing against direct comparison + coverage-guided fuzzing", "all types, extremes weighted"),
 "C25": ("property testing: round trip and bijection + coverage-guided fuzzing", "generated shapes; small grids walked completely"),
 "C26": ("stateful property testing over loopback sockets with injected call failures and virtual waiting time", "real TCP/UDP loopback; time is virtual"),
 "C27": ("property testing against reference memory operations with red zones + coverage-guided fuzzing", "all sizes/alignments/overlaps up to a few kB"),
 "C28": ("systematic allocation-fault injection over generated operation histories", "every allocation point of every generated history is failed in turn"),
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    tech, note = T[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": tech,
                   "level": "fault_enumeration" if p == "C28" else "exploration",
                   "level_note": note + ". Sampled, not exhaustive; trusts the reference oracle in harness/ and the sanitizers; failures are shrunk and replayed before being reported."})
json.dump({"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": []}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
