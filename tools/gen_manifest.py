#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "The reference model (harness/src/model.rs) is written from fzf's published algorithm and norm's documentation; it is trusted."
SAMPLED = "Generated cases, fixed work per run, pure function of the tree and VERIF_SEED; absence of a violation outside the explored cases is not established."
T = {
 "C01": ("property-based testing: generated queries, candidates and buffers with overflow checks and debug assertions on; crash, panic and CPU-time oracle, exhaustive lengths around buffer sizes", ""),
 "C02": ("property-based testing: exhaustive short strings plus generated queries against a reference acceptance predicate", MODEL),
 "C03": ("property-based testing: generated call sequences on one buffer, before/after and metamorphic (empty buffer) oracle", ""),
 "C04": ("property-based testing: validity invariant over the appended ranges of generated multi-term matches", ""),
 "C05": ("property-based testing: witness predicate and union of the terms' own matches on generated queries", MODEL),
 "C06": ("property-based testing: differential between distance and distance_and_ranges", ""),
 "C07": ("stateful property-based testing: generated call histories against a fresh metric at every step", ""),
 "C08": ("stateful property-based testing: generated parse histories against a fresh parser at every step", ""),
 "C09": ("property-based testing: exhaustive short strings plus generated pairs against a reference implementation of fzf v1", MODEL),
 "C10": ("property-based testing: exhaustive short strings plus generated pairs against a full-matrix reference implementation of fzf v2", MODEL),
 "C11": ("property-based testing: exhaustive short strings plus generated pairs against reference exact/prefix/suffix/equal matchers", MODEL),
 "C12": ("property-based testing: generated expressions; compositional (sum of single terms) and metamorphic (reorder, repeat) oracles", MODEL),
 "C13": ("property-based testing: generated expression trees printed in the syntax and parsed back, behaviour compared with the tree", MODEL),
 "C14": ("property-based testing: every cased character exhaustively, generated metamorphic case flips, reference equality", MODEL),
 "C15": ("property-based testing: every Unicode scalar value against fzf's table, generated strings", MODEL + " fzf's normalization table is restated in harness/src/normtable.rs."),
 "C16": ("property-based testing: metamorphic translation and extension of ASCII cases to non-ASCII ones", ""),
 "C17": ("property-based testing: every pair of ASCII characters and every character class exhaustively against the published bonus table", MODEL),
 "C18": ("property-based testing: order laws over generated sets of distances, metamorphic ranking laws", ""),
 "C19": ("property-based testing: generated call sequences under AddressSanitizer and (smaller ones) interpreted by Miri, every answer compared with that of new objects; generated client programs whose acceptance by rustc is compared with a model of the borrows", "The precompiled standard library is not instrumented by AddressSanitizer (Miri covers it); aliasing is judged by Miri's Tree Borrows. The instrumented builds use the nightly toolchain."),
 "C20": ("property-based testing: differential between ten builds (feature sets x profiles) fed the same generated cases", ""),
 "C21": ("property-based testing: generated long periodic inputs, executed instructions counted by callgrind against the documented bound and against the same shape at an eighth of the size", "The constants allowed per unit of the bound are about eight times what the code was seen to need; growth is judged between two sizes."),
 "C22": ("property-based testing: generated teams of metrics with their own settings run in turns and on several threads, every answer compared with that of new objects; smaller ones interpreted by Miri with random schedules (data races); client programs requiring Send and Sync", "Native schedules are the operating system's; data races are decided by Miri on the schedules it explored."),
 "C23": ("stateful property-based testing: generated call histories performed repeatedly while a counting allocator observes the heap; bound, no-growth and release oracles", "The constants allowed per byte and per matrix cell are at least twice what the code was seen to use."),
 "C24": ("property-based testing: generated metamorphic edits of candidate and query (append, put in front, replace within a class, permute the alphabet, lengthen a gap)", "Which characters count as matching none of the query's, and their classes, are taken from the reference model."),
 "C25": ("property-based testing: differential between the two metrics over generated cases with a single alignment", "That there is one alignment only is decided with the reference model's character comparison."),
 "C26": ("property-based testing: generated metamorphic edits of query, candidate and configuration that only weaken or only strengthen the query", "Cases whose score matrix would exceed eight million cells are not judged."),
}
checks = []
for pid, (tech, note) in T.items():
    if pid <= "C18" or pid in ("C24", "C25", "C26"):
        tech += "; the same cases searched with libFuzzer's coverage guidance"
    checks.append(dict(property=pid, quick_cmd=f"./check.sh {pid}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {pid}",
                       evidence_file=f"evidence/{pid}.json", technique=tech, level="exploration",
                       level_note=(SAMPLED + " " + note).strip()))
na = []
NA = {
}
for k, v in NA.items(): na.append(dict(property=k, reason=v))
m = dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks use the public API (the score through the existing feature __into-score). Repairs are the fix: commits listed in known_findings.txt.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
import sys
sys.path.insert(0, "/opt/veriftools/pyvenv/lib/python3.12/site-packages")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert sorted(ids) == sorted(list(T) + list(NA)), "out of step"
