#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a binary in mc/src/bin."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = {
 "C01": "bounded exhaustive enumeration of the real constructors against plain arithmetic",
 "C02": "bounded exhaustive enumeration of squares and indices against y*width+x",
 "C03": "exhaustive exploration of the step graph of the real positions against a reference model",
 "C04": "exhaustive exploration of iterator states (all front/back interleavings) against a reference model",
 "C05": "bounded exhaustive enumeration of squares, pairs and triples against a geometric model",
 "C06": "exhaustive enumeration of all pairs of squares; walk checked by one-step induction on the real code",
 "C07": "bounded exhaustive enumeration of squares x directions x types against integer arithmetic",
 "C08": "exhaustive enumeration of all directions, characters and 8-bit offsets against a compass model",
 "C09": "bounded exhaustive enumeration of values x bounds x types, and of iterator interleavings",
 "C10": "explicit-state search over all contents of small grids, every write path x every read path, against an array model; deviation-bounded histories on large grids",
 "C11": "bounded exhaustive enumeration of sequence lengths and nested shapes against a reference model",
 "C12": "exhaustive enumeration of labelled and boolean contents, closed under all transformations, against the position map",
 "C13": "explicit-state search over all contents of small boolean grids and all operations, against a set model; deviation-bounded histories on large grids",
 "C14": "explicit-state search: all histories merging into the same content must give equal objects; all pairs of contents compared",
 "C15": "explicit-state search over operation sequences on all implementations in lockstep with a reference map/set",
 "C16": "exhaustive enumeration of movement functions on small grids against a distance model",
 "C17": "exhaustive enumeration of obstacle layouts and one-way passages, all origins and goals, against a distance model",
 "C18": "exhaustive enumeration of obstacle layouts and one-way passages, all origins and destinations, against a distance model",
 "C19": "exhaustive enumeration of cost assignments on small grids, all origins and destinations, against Bellman-Ford",
 "C20": "exhaustive enumeration of layouts, differential between all storage variants, repetition and algorithms",
 "C21": "exhaustive enumeration of came-from maps on small grids against a walk model with exact loop detection",
 "C22": "exhaustive enumeration of type parameters x entry points, each compiled by rustc (accept/reject) against the dimension rule",
 "C23": "bounded exhaustive enumeration of dimensions, widths and contents against a reference renderer",
 "C25": "bounded exhaustive enumeration of pairs of values, made in every way, against the order of their coordinates",
 "C26": "exhaustive enumeration of layouts and cost assignments; every question a search asks monitored against a distance model",
 "C27": "exhaustive enumeration of obstacle layouts and one-way passages, full exploration compared with a distance model",
 "C28": "exhaustive enumeration of constants around all bounds, each compiled by rustc (accept/reject) against the bounds, and run",
 "C29": "exhaustive enumeration of schedules: all turn-takings, clone points, nestings, panic points and preemption points of pairs of searches, compared with each run alone",
 "C30": "explicit-state exploration of all operation histories up to a depth with items that count their drops, and of a panic at every call of a function of the user",
 "C31": "exhaustive enumeration of position types (well-behaved, shifted, wrongly declared, with an index of their own) x positions x access paths on grids between fences; every address and every change watched",
 "C24": "exhaustive enumeration of cost assignments on small grids, full exploration compared with Bellman-Ford",
}
NOTE = "Every case within the bounds listed in the evidence file is executed on the real code (no sampling, no stubs, no hooks); trusted: the small reference model, rustc, and that behaviour outside the bounds resembles that inside. Not covered: sizes and values beyond the bounds, and the exclusions listed in DESIGN.md."
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "mc/src/bin", i.lower() + ".rs")):
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + T[i],
                       "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks are binaries of /verif/mc, built against /repo's working tree by check.sh. No hooks in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
