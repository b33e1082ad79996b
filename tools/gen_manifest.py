#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (keep in step with mc/src/checks/mod.rs)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
REG = "registration programs"
NOTE = {
 "C01": ("exhaustive registration sequences x derived requests on the real router and server against a segment-tree reference model", "complete up to the stated depth over the stated alphabets, plus size ladders; texts outside them are not explored"),
 "C02": ("exhaustive permutations of registration sets on the real router, compared with each other", "complete for every k-subset of the alphabets and every order; no model involved"),
 "C03": ("exhaustive pattern x value x type enumeration on the real router and server against the reference model", "complete over patterns up to the length bound, the value alphabet and 15 target types"),
 "C04": ("exhaustive slash decorations of registrations and requests, each compared with its undecorated form on the real code", "complete over the decoration alphabet (0-3 leading/trailing, 1-3 between) for the pattern set"),
 "C05": ("exhaustive registration sequences, acceptance compared with an accept/reject reference model", "complete up to the stated depth over the alphabets"),
 "C06": ("exhaustive middleware placements x requests on the real code, entry/exit traces against the reference model", "complete up to the stated depth over the alphabets, plus size ladders"),
 "C07": ("exhaustive behaviour assignments to middleware chains on the real executor and server against a chain interpreter", "complete for all assignments up to the chain length bound"),
 "C08": ("exhaustive mount nestings compared with their flattened programs on the real code", "complete over the sub-router alphabet, prefixes and nesting bound"),
 "C09": ("exhaustive method tables x request methods on the real server against a table", "complete over all ordered subsets of the five methods and about 90 request methods and spellings on the pattern set"),
 "C10": ("exhaustive builder-call programs on the real server against a record model", "complete over the builder alphabet up to the length bound"),
 "C11": ("exhaustive handler/middleware outcomes x positions on the real server against an outcome table", "complete over the outcome alphabet and chain positions"),
 "C12": ("exhaustive chunkings, delivery delays and truncations of bodies on the real accessors and server against whole-body decoding", "complete for every chunking of the body set up to the length bound, plus size ladders to 1 MB"),
 "C13": ("exhaustive pair sequences x target shapes on the real decoder against an independent reference decoder", "complete up to the sequence length over the token alphabet"),
 "C14": ("exhaustive small maps x target shapes on the real decoder against a reference decoder", "complete over the map alphabet and shapes"),
 "C15": ("exhaustive accessor programs on the real context against a one-shot body model", "complete up to the program length bound over all accessors"),
 "C16": ("exhaustive hostile request paths x static registration forms on the real server against a containment oracle", "complete over tuples of the segment alphabet and all climbs in the stated grid"),
 "C17": ("exhaustive file tree, file histories and request sequences on the real server, byte comparison", "complete over the scratch tree and all histories up to the depth"),
 "C18": ("exhaustive state-mutation histories on the real server against a copy-per-request model", "complete up to the history length over the mutation alphabet"),
 "C19": ("exhaustive interleavings of gated requests on the real server, each compared with its solo run", "complete for all interleavings of the stated request sets; calls into user code held on several real threads are enumerated too, and one pre-emption at every basic block of the library's own code; weak memory orderings are not"),
 "C20": ("exhaustive outcomes x logger placements on the real server, compared with the logger-free run", "complete over the outcome alphabet and placements"),
 "C21": ("exhaustive connection event sequences incl. failures on the real server, compared with a fresh server", "complete up to the sequence length over the event alphabet, plus long keep-alive ladders"),
 "C22": ("exhaustive typed-slot programs over middleware chains on the real code against a typed-map model", "complete up to the program length bound"),
 "C23": ("exhaustive abandonment points x interleavings on the real server, compared with the run without the abandoned request", "complete for all cancel points of the gated request set"),
}
import re
ids = re.search(r"IDS: &\[&str\] = &\[(.*?)\]", open(os.path.join(V, "mc/src/checks/mod.rs")).read(), re.S).group(1)
ids = re.findall(r'"(C\d+)"', ids)
checks = [{
  "property": i,
  "quick_cmd": f"./check.sh {i}",
  "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
  "evidence_file": f"evidence/{i}.json",
  "technique": "stateless model checking of the implementation: " + NOTE[i][0],
  "level": "model_checking",
  "level_note": NOTE[i][1] + ". Trusted: the harness crate mc, rustc, tokio/hyper as shipped. Bounds and counts are in the evidence file.",
} for i in ids]
na = [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in ids]
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks link /repo's crate by path and use its public API and App::listen only."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
