#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the checks that exist in harness/src/bin."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
TECH = {
 "C01": "model-based random operation histories against a Vec model (proptest), shrinking",
 "C02": "model-based histories over a pool of live versions and threads, against Vec models",
 "C03": "metamorphic pairs of differently built vectors, compared through their elements",
 "C04": "differential testing of bulk operations against Vec",
 "C16": "generated iso expressions and values, round-trip and differential oracle",
 "C17": "generated program syntax trees, differential against a direct interpreter",
 "C18": "generated program syntax trees, differential against a direct interpreter",
 "C19": "generated program syntax trees, differential against a direct interpreter",
 "C20": "generated effectful programs with panic injection and concurrent runs, differential against an interpreter with an effect trace",
 "C21": "generated async programs with an effect trace, differential against a synchronous interpreter",
 "C22": "generated continuation programs, differential against a direct CPS interpreter",
 "C25": "generated values, serialize/deserialize round-trip",
 "C26": "generated request histories and thread groups against a map model",
 "C34": "generated histories with clone-counting elements and an allocation-counting allocator, against fixed bounds",
 "C35": "generated programs and schedules of nested, cross-thread, parallel and interleaved runs, against the direct interpreters and the run alone",
 "C36": "generated containers and collections with functions that record their calls, against the expected sequence of calls",
 "C37": "generated iterators of every kind of size hint, against the list of their elements",
 "C39": "generated operations and programs run with nine value types of different sizes, alignments and ownership, each against a model over numbers",
 "C40": "generated seeds, sizes and shrinking steps; the same seed twice, the elements the element generator made, a measure of size and greedy minimisation against a known minimum",
 "C41": "generated long sequences through every operation over sequences on a small stack, each result against its plain definition; a crash is traced to its input",
 "C38": "generated pairs and triples of nearly equal values, against comparison of their contents",
 "C33": "generated operation sequences and panic injection with drop-counting values",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{root}/harness/src/bin/{i.lower()}.rs"):
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} --quick",
            "thorough_cmd": f"./check.sh {i} --thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, "property-based testing (proptest): generated inputs and functions against a reference model and algebraic laws, shrinking"),
            "level": "exploration",
            "level_note": "fixed number of generated cases, deterministic from VERIF_SEED; searches for counterexamples, establishes no absence",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
  "notes": "All checks are one Rust crate (harness/) with one binary per property; ./check.sh ID rebuilds it against ../repo. known_findings.txt lists recorded defects."},
  open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "not yet")
