#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "property-based testing: "
checks = {
 "C01": ("generated targets x algorithm configurations (rapid + exhaustive small grid) against an independent chain predicate",
         "Explores all n<=1200 with the whole ensemble, a full small grid n<=70 x K,T<=6 x all sequence algorithms, and random targets below 2^1024 from bit-pattern families; nothing is proved beyond the cases run."),
 "C02": ("exhaustive short integer sequences and rapid-generated long ones (valid, mutated, reordered) against a quadratic reference predicate",
         "Small sequences over small value ranges are enumerated; longer ones are sampled."),
 "C03": ("grammar-derived, mutated and token-soup texts against an independent parser/evaluator of the published grammar (differential)",
         "Small programs enumerated, larger texts sampled; the CLI is exercised on a sample."),
 "C04": ("generated chain programs, decompile/build/print/load round trip and expansion of the instruction form",
         "All programs of few operations enumerated; long ones sampled."),
 "C05": ("generated instruction sequences, allocated program run on a register machine in both aliasing modes against direct evaluation",
         "All instruction sequences of few instructions enumerated; long ones sampled."),
 "C06": ("generated scripts (including dangling reads), generator output parsed and executed literally against the evaluated chain",
         "In-process generator over enumerated and sampled scripts; the CLI on a sample."),
 "C07": ("generated syntax trees and texts, print/parse round trip, idempotence and preservation of the evaluated chain",
         "All trees of few nodes enumerated; larger ones and texts sampled."),
 "C08": ("generated target lists x sequence algorithms and heuristic compositions against an independent chain predicate and superset test, caller's values compared afterwards",
         "All short lists over small values enumerated with every algorithm; longer lists up to 1024 bits sampled within the documented size ranges."),
 "C09": ("generated integers x decomposition methods x window sizes and run limits (including extreme sizes) against a transcription of the statement",
         "Full grid of small integers, K and T; larger integers sampled."),
 "C10": ("generated chains in any order against the reference chain predicate plus subsequence/end/immutability relations",
         "All small chains enumerated; long ones sampled."),
 "C11": ("generated chains of run lengths in any order against the reference chain predicate and membership of 2^l-1; oversized lengths must be refused",
         "All small chains of lengths enumerated; others sampled."),
 "C12": ("generated lists of algorithms, limits and schedules: a harness-controlled scheduler opens gates inside the algorithms only when every goroutine is blocked (all completion orders of small cases, sampled interleavings), results compared with solo execution; real ensembles in a race-detector build",
         "Completion orders enumerated for up to five algorithms; interleavings inside the algorithms sampled at gates, finer ones only as the race detector sees them."),
 "C13": ("generated and enumerated expression texts against an independent precedence-climbing evaluator",
         "All operator combinations up to five operands over small literals and all short texts enumerated; others sampled; values below 30000 bits."),
 "C14": ("generated target expressions, cost settings and concurrency settings; output of the search command checked against an independent parser/evaluator/counter, an in-process ensemble run, and repeated runs (metamorphic)",
         "All small targets enumerated; larger ones to 256 bits (521 thorough) sampled."),
 "C15": ("fuzzing: enumerated, grammar-derived, mutated and raw texts into every library entry point and generated command lines under CPU and memory limits; oracle: terminates with a result or diagnostic",
         "All short texts over a reduced alphabet enumerated; others sampled up to 16 KiB."),
 "C16": ("generated chain programs, names of the built script checked against an independent evaluation",
         "All small programs enumerated; long ones sampled."),
 "C17": ("generated instruction sequences, declared temporaries against independently computed peak liveness and pairwise reuse",
         "All small instruction sequences enumerated; long ones sampled."),
 "C18": ("stateful generation of builder calls against a model program, analyses against their definitions",
         "Short call sequences enumerated; long ones sampled."),
 "C19": ("generated arguments against arithmetic definitions computed another way, arguments compared afterwards",
         "All small integers, bit ranges, lists and literals enumerated; larger ones to 600+ bits sampled."),
 "C20": ("generated metadata files and histories of operations: round trip, gofmt fixpoint, stateful comparison with an ordered-map model",
         "Every byte and every short combination of critical pieces enumerated as values; files and histories sampled."),
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "check.sh ID quick|thorough|replay FILE. Each check compiles /repo's working tree through a replace directive of /verif/harness/go.mod; no hooks in /repo. Known findings: known_findings.txt."}
for p in props:
    i = p["id"]
    if i in checks:
        tech, note = checks[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": T + tech, "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
