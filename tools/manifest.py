#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. usage: manifest.py C01 C02 ... (the implemented checks)"""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
T = {
 "C01": ("online monitor: sticker-model oracle after every move", "every single-piece transition is observed exhaustively, compositions by long random histories; trusts the 40-line sticker model"),
 "C02": ("online monitor: sticker-model oracle on piece sets, equality relations on whole cubes", "absolute places for the public piece sets; cubes with private fields are judged through equality, against relations and non-relations that the model computes"),
 "C03": ("differential monitor across notations, sticker-model oracle", "random words through every notation type; equality of complete states"),
 "C04": ("round-trip monitor", "recorded state compared after move and inverse for all move kinds, sizes and orientations sampled"),
 "C05": ("state monitor: sticker colours of the model", "states one small cycle away from solved are constructed with the model, plus random ones"),
 "C06": ("invariant monitor on generated and moved states", "independently computed parities"),
 "C07": ("statistical monitor over generator output (chi-square)", "thresholds at p around 1e-15 so that it stays quiet; sees deviations of about a percent in quick"),
 "C08": ("trace checker on normalisation input/output", "exhaustive short algorithms and adversarial long ones; sticker model for the effect, own irredundancy predicate, CPU watchdog"),
 "C09": ("trace checker on generated scrambles", "all lengths up to a bound and many seeds and scripted random sources; exact enumerations"),
 "C10": ("differential fuzzing against an independent recogniser", "exhaustive short strings over the notation alphabet, grammar and mutation fuzzing; CPU watchdog"),
 "C11": ("round-trip monitor print/parse", "every move with depths up to large bounds; one known finding"),
 "C12": ("online monitor: sticker model of the held cube", "random histories of extended moves on all sizes"),
 "C13": ("exhaustive execution against integer rotation matrices", "all combinations executed"),
 "C14": ("round-trip monitor against an independent ranking", "all 88 million corner indices and all 2 x 42 million edge-half indices are executed in both tiers"),
 "C15": ("independent breadth-first tables compared with lookups and the real generator", "own tables of both kinds are complete; the real generation runs and all of its 130 million entries are compared in quick; lookups on sampled cubes"),
 "C16": ("fault injection on real files with a monitor of what lookups return", "truncation, sizes, missing folders, full device, file size limit, killed writers, concurrent first use by threads and processes, the real --build-mus-cache"),
 "C17": ("monitor of search results against breadth-first distances", "cubes and synthetic graphs, admissible and inadmissible heuristics, limits"),
 "C18": ("monitor of cross solutions against an independent breadth-first table", "optimal lengths known for all 190,080 cross states"),
 "C19": ("exhaustive comparison with independent breadth-first distances", "288 edge cases and cross states of all six faces"),
 "C20": ("monitor of pictures and printed text against the sticker model", "random states, all facelets"),
 "C21": ("trace checker over recorded histories", "histories with injected breaks at every place"),
 "C22": ("black-box monitor of the real binary under fuzzed input", "own parser and sticker model predict the complete output; dev and release builds of the binary"),
 "C23": ("monitor of piece sets against independent sets", "arrays with injected duplicates, lookups for every place"),
 "C24": ("Miri, AddressSanitizer, MemorySanitizer and ThreadSanitizer with an instrumented standard library", "the whole public interface with valid and invalid values, and the other checks in brief; deliberate defects must be reported in every session, else the check gives an error"),
}
ids = [p["id"] for p in props if p["id"] in set(sys.argv[1:]) or "all" in sys.argv[1:]]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
level = {"C16": "fault_enumeration"}
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "cfg barbarosa_verif", "enable": "RUSTFLAGS=\"--cfg barbarosa_verif\"", "source_commits": hook},
 "checks": [{
   "property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i} thorough",
   "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + T[i][0], "level": level.get(i, "exploration"), "level_note": T[i][1]} for i in ids],
 "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in ids],
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(ids), "checks")
