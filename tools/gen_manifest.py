#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property of properties.jsonl that the harness registers."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
src = "".join(open(os.path.join(root, "harness/props", f)).read() for f in sorted(os.listdir(os.path.join(root, "harness/props"))))
have = set(re.findall(r'\badd\("(C\d\d)"', src))
T = {
 "C01": "property-based fuzzing: generated and enumerated bytes of all lengths through every reader, every method of every value called",
 "C02": "stateful property-based testing: generated histories replayed in other orders, fresh processes and threads, under the race detector",
 "C03": "property-based testing against a dispatch model, all first bytes enumerated",
 "C04": "property-based testing against bit-layout tables, all field values enumerated",
 "C05": "property-based testing against a reference altitude model, all codes enumerated, encode/decode round trip",
 "C06": "property-based testing against a reference model, all codes enumerated, encode/decode round trip",
 "C07": "property-based testing against an independent CRC (polynomial division) and allow-list model",
 "C08": "fault injection: enumerated and generated error patterns on generated frames",
 "C09": "property-based testing against a dispatch model, all first bytes and versions enumerated",
 "C10": "property-based testing against bit-layout tables, all field values enumerated",
 "C11": "property-based testing against bit-layout and movement tables, all codes enumerated",
 "C12": "property-based testing against the standards' tables, the whole table enumerated",
 "C13": "property-based testing against bit-layout tables, all field values enumerated",
 "C14": "property-based testing against a character table, encode/decode round trip",
 "C15": "property-based testing against bit-layout tables, all field values enumerated",
 "C16": "property-based testing against bit-layout tables, all field values and layouts enumerated",
 "C17": "property-based testing against bit-layout tables, all field values enumerated",
 "C18": "differential property-based testing of the inference against the individual readers and a plausibility model",
 "C19": "property-based testing against a plausibility model, boundary values and single bits enumerated",
 "C20": "property-based testing against bit-layout tables through the three carriers",
 "C21": "round-trip property-based testing against an independent CPR encoder, and a differential integer model",
 "C22": "round-trip property-based testing against an independent CPR encoder",
 "C23": "round-trip property-based testing against an independent CPR encoder, and a differential integer model",
 "C24": "differential property-based testing against a vector formula, and metamorphic metric laws",
 "C25": "property-based testing of the reports against label and caption tables, and metamorphic differences",
 "C28": "property-based testing of an invariant over long generated histories: live heap and goroutines after collection, and allocations of one message",
 "C31": "property-based testing, guided by coverage, of the time of generated messages, alone and after generated histories",
 "C30": "differential property testing: the same generated messages and positions in programs built for other machines (GOARCH=386, GOAMD64=v3)",
 "C32": "metamorphic property testing: the same generated messages at other moments and in other surroundings (the packages syscall, time and os answer as told to the library)",
 "C33": "property-based testing against arithmetic and reflected-code models, all words of 16 bits and codes of pulses enumerated",
 "C29": "property-based testing of an invariant of the process (outputs, files, settings) around generated histories",
 "C27": "stateful, model-based property testing: generated traffic of a fleet through the whole receiving chain against a model of each aircraft",
 "C26": "model-based property testing of the command on generated files and arguments",
}
note = ("Holds on every case generated or enumerated by the run, none of which is a proof for the others; the oracle is written "
        "independently of the code and trusts our reading of the Mode S, ADS-B and Comm-B standards (see DESIGN.md).")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif", "enable": "no hook is needed: the checks use the exported API of /repo as it is", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in have:
        m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is still being built"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), [x["property"] for x in m["not_applicable"]])
