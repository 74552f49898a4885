#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist in checks.py."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
src = open(os.path.join(V, "tools", "checks.py")).read()
have = set(x.upper() for x in re.findall(r"^def (p\d\d)\(ctx", src, re.M))
T = {
 "P01": ("AddressSanitizer runs of generated messages; round-trip and reference-value oracle", "exploration", "Random and boundary values of 61 message types in several traits; trusts the independent reference codec in src/ref.hpp."),
 "P02": ("runs judged by an independent schema-driven codec", "exploration", "Writer bytes and reader values compared with a codec written from the wire specification; trusts that codec and protoc's descriptors."),
 "P03": ("AddressSanitizer + UBSan on hostile inputs with a verdict oracle", "exploration", "Exact-size heap inputs, truncation at every byte; encodings whose treatment the specification leaves open are not judged."),
 "P04": ("differential runs over buffer segmentations under AddressSanitizer", "exploration", "All single cuts and random multi-cuts of generated inputs, every segment its own heap block."),
 "P05": ("monitored output sinks and guarded buffers under AddressSanitizer", "fault_enumeration", "Sinks with recorded chunk sequences, exhaustion injected; a sink in contiguous mode is assumed to provide the room announced."),
 "P06": ("differential runs across storage traits under AddressSanitizer", "exploration", "Same input under up to seven traits, compared with each other and with the reference codec."),
 "P07": ("runs with monitored unknown fields and extension histories", "exploration", "Unknown fields compared byte for byte; extension histories compared with a model and a peer reader."),
 "P08": ("merge histories compared with parsing the concatenation", "exploration", "Copy and move merges of random pairs compared with the reference codec's value of the concatenated encodings."),
 "P09": ("depth-directed runs with a nesting-depth oracle under AddressSanitizer", "exploration", "Depths around each limit for every nesting construct; limits 1, 3, 40, 100, 300."),
 "P10": ("runs with an instrumented UTF-8 validator and a reference decoder", "exploration", "The validator the library calls is supplied by the harness and counted; one string position is poisoned at a time."),
 "P11": ("enum-value runs judged by a reference decoder", "exploration", "Values in and out of the enum in every position."),
 "P12": ("runs over type URLs and payloads with a type-name oracle under AddressSanitizer", "exploration", "Random messages, prefixes and malformed URLs."),
 "P13": ("factory runs over generated and mutated descriptor sets, compared with protoc's resolved schema", "exploration", "Feature resolution compared with python protobuf's; mutated descriptors under AddressSanitizer and UBSan."),
 "P14": ("random operation histories against a value model, under sanitizers", "exploration", "Histories over every accessor kind, checked after every step."),
 "P15": ("differential runs of dynamic and reference codecs under sanitizers", "exploration", "Same bytes through dynamic messages and the reference codec, in both directions."),
 "P16": ("monitoring memory resource, operator new hook, allocation failure injection", "fault_enumeration", "Allocation ledger with sizes and alignments; failure injected at every allocation index of sampled inputs."),
 "P17": ("random operation histories against std::map, throwing elements, under sanitizers", "exploration", "Observable state compared after each operation."),
 "P18": ("random operation histories with object and allocation ledgers, under sanitizers", "fault_enumeration", "Every construction failure index of sampled histories."),
 "P19": ("presence and default monitors against the schema", "exploration", "Assignment and reset histories of every field; defaults compared with protoc's reading of the schema."),
 "P20": ("generator runs over random schemas; compilers and sanitizers as oracles", "exploration", "Random and hostile schemas generated, compiled by two compilers and exercised; plugin under sanitizers on mutated requests."),
 "P21": ("embedded descriptors compared with protoc's at run time", "exploration", "Random schemas with hostile literals."),
 "P22": ("byte buffers over random slicings under AddressSanitizer", "exploration", "Slices in exact-size blocks; compared with contiguous parse."),
 "P23": ("recorded client/server event logs of real calls, with injected delays, cancels and sanitizers", "exploration", "Loopback gRPC with randomised schedules; offline log checker for exactly-once, order and single finish."),
 "P24": ("codec runs against independent reference codecs under sanitizers", "exploration", "Boundary and random values, mutated strings; glaze's number formatter replaced by a shim for durations."),
 "P25": ("ThreadSanitizer stress runs with per-thread result checks", "exploration", "Many threads over shared factory, descriptors and messages."),
 "P26": ("constant-evaluated results compared with run-time results", "exploration", "Generated constants evaluated by the compilers and compared at run time."),
}
NA = {"P27": "The JSON layer is a binding to the glaze library, which is not present in this sandbox (no network, not vendored), so the code cannot be compiled and executed, which runtime monitoring needs."}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in have:
        t, lv, note = T[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i + " --thorough", "technique": t, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "python3 -m py_compile run.py tools/lib.py tools/checks.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: every monitor observes through public interfaces, sanitizers, memory resources, sinks and logs."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
