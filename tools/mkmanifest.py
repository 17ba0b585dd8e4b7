#!/usr/bin/env python3
# Regenerates MANIFEST.json from the table below.
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = "runtime monitoring: "
T = {
 "C03": (RT+"generated workloads against a reference-evaluator monitor (bag of results)", "Held on the generated paths and documents of this run; trusts the harness's reference evaluator and encoding/json."),
 "C04": (RT+"order monitor matching result lists against the allowed linearizations", "Held on the generated paths over documents with unique scalars; trusts the reference evaluator's order tree."),
 "C05": (RT+"exhaustive small-scope and boundary slices against a slice-rule monitor", "All bounds -9..9, strides -5..5, lengths 0..7 observed, beyond that sampled, on arrays of up to 200,000 elements; trusts the reference evaluator."),
 "C07": (RT+"expressions in several spellings against a monitor of the documented grouping", "All pairs and triples of binary operators observed with operands that tell groupings apart, longer ones sampled; trusts the reference evaluator."),
 "C08": (RT+"all pairs of a value pool, and near-equal nested values, against an equality monitor", "All pairs of the pool observed, structures sampled; trusts the harness's model of JavaScript equality."),
 "C09": (RT+"all operator and value-pool pairs against an arithmetic monitor", "All pairs of the pool observed under nine operators, the rest sampled; out-of-range conversions and overflow are left unspecified."),
 "C10": (RT+"selection and logic over a value pool against a reference monitor", "All pool values and pairs observed, chains sampled; four listed findings (the operand not chosen by && or || can still fail the evaluation)."),
 "C11": (RT+"functions over a value pool and generated lists against a reference monitor", "All 15 functions observed on all pool values in every position, lists and strings sampled; trusts the reference functions and Go's regexp."),
 "C06": (RT+"generated filters against a reference-evaluator monitor", "Held on the generated filters, candidates and empty inputs of this run; trusts the reference evaluator."),
 "C01": (RT+"watched processes (panic, fatal-error, deadlock, CPU and memory monitors) over hostile texts, values and documents", "No crash, hang or half-answer on the texts (to 4 MiB) and documents of this run; time and memory are judged by generous watchdogs."),
 "C02": (RT+"generated, mutated and all small texts against a recogniser monitor", "All texts of up to 4 symbols of two alphabets observed, the rest sampled; trusts the harness's recogniser; a few texts the grammar leaves open are not judged."),
 "C12": (RT+"generated patterns and subjects against a match monitor", "Held on the patterns and subjects of this run; trusts Go's regexp package."),
 "C13": (RT+"generated literals and constant tables read back through decoys", "Held on the literals of this run and up to 70,000 constants in one path; trusts encoding/json and strconv."),
 "C22": (RT+"generated syntax trees against a tree monitor on the parsed steps", "All triples of binary operators observed, other trees sampled; trusts the harness's printer and comparison."),
 "C14": (RT+"Go race detector over concurrent workloads, with a monitor comparing every result with the same call made alone", "No race and no interference in the interleavings that occurred in this run; the detector sees only executed accesses."),
 "C15": (RT+"snapshots and sentinels over sequences of evaluations and caller writes", "Held on the histories of this run; a value is compared by content, a result list also by identity of its containers."),
 "C16": (RT+"goroutine-count and document-reachability monitors after evaluations", "Held on the evaluations of this run; a goroutine counts as leaked if it remains 20 seconds after the last evaluation."),
 "C17": (RT+"recorded histories against first answers and a reference evaluator", "Held on the histories of this run; trusts the reference evaluator for answers that would be wrong consistently."),
 "C18": (RT+"failing candidates at every position against a failure monitor", "All operators, functions and wrong kinds observed, positions and paths sampled; trusts the reference evaluator."),
 "C19": (RT+"the built command over generated streams, its output checked against Eval", "Held on the streams, layouts and files of this run; trusts encoding/json for decoding input and output."),
 "C20": (RT+"the built command under injected input, evaluation and output faults", "Held on the fault positions and kinds of this run; a pipe closed by its reader is not judged."),
 "C21": (RT+"generated computed keys against a reference monitor and equivalent constants", "Held on the keys and documents of this run; three listed findings (@ in a step not after ..)."),
 "C23": (RT+"processor-time and allocation monitors over families of texts and documents at two sizes", "Growth within fixed factors of proportion on the families of this run; a cost that grows faster only on other shapes, or only beyond these sizes, is not seen."),
 "C25": (RT+"documents with json.Number in every spelling against the reference evaluator's answer for plain ones", "All operators, functions and pool values observed, paths and documents sampled; trusts the reference evaluator; numbers outside a double's range are not judged."),
 "C24": (RT+"generated and spoiled texts against a recogniser that names the first fault", "Held on the texts of this run; trusts the harness's recogniser for where a derivation first fails."),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check.sh "+i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh "+i,
                       "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "not yet claimed: its check is still being built"})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: every monitor observes the public API, the sub-packages or the built jpath command."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
