"""regenerates MANIFEST.json (run by hand when properties are added)"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = "runtime monitoring: differential oracle (independent implementation of the specification) over seeded hostile workloads"
MODEL = "runtime monitoring: model run beside the real objects over random histories"
FAULT = "runtime monitoring under fault injection: "
TECH = {
    "C01": "runtime monitoring: round trip and byte level oracle with independent decoder",
    "C02": "runtime monitoring: round trip, refusal and byte level oracle with independent decoder",
    "C04": FAULT + "damaged payloads, outcome judged by an independent parse",
    "C09": FAULT + "every bit, bursts and every cut of records",
    "C11": "runtime monitoring: conservation and order checker over recorded inputs and yields",
    "C12": "runtime monitoring: online checker of every merge decision",
    "C14": MODEL,
    "C17": FAULT + "cuts, bit flips and hostile fields, with a termination monitor",
    "C23": "runtime monitoring: file level model of the rewrite, all records and files compared",
    "C24": FAULT + "process death at every bytecode instruction and file operation, failing operations, full disk",
    "C31": MODEL,
    "C33": "runtime monitoring: memory tracing, weak references, counted steps and open files, each at two sizes",
    "C34": FAULT + "reads that raise, absent, damaged and full files, at every place",
    "C35": "runtime monitoring: transcripts of the same seeded operations, in an ordinary process and in others, compared line by line",
    "C36": "runtime monitoring: all that can be seen of a copy compared with a twin of the original, in this and another process",
    "C37": "runtime monitoring: processes stepped in controlled order, linearizability of what readers saw checked over the recorded history",
    "C38": FAULT + "exceptions raised at lines of the library and refused values, then the operation done again beside a twin",
    "C32": "runtime monitoring: size of every payload compared with an independent packer's",
    "C28": "runtime monitoring: conservation oracle over chains of operations, every sample followed from first encoding to last decoding",
    "C29": "runtime monitoring: parser of the printed text compared with independently known content",
    "C25": "runtime monitoring: output of the commands compared with independently known content",
    "C26": "runtime monitoring: output of the commands compared with independently known content",
    "C27": "mutation sanitizer (snapshots around calls) and interference monitor over interleaved readers and stressed threads",
}
checks, na = [], []
for line in open(os.path.join(VERIF, "properties.jsonl")):
    i = json.loads(line)["id"]
    src = open(os.path.join(VERIF, "rv", "checks", i + ".py")).read()
    level = "fault_enumeration" if "fault_enumeration" in src else "exploration"
    checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./check {i}",
                       thorough_cmd=f"VERIF_TIER=thorough ./check {i}", level=level,
                       technique=TECH.get(i, DIFF),
                       level_note=f"decided on the executions observed; case counts, events and lines reached are in evidence/{i}.json"))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, crc32c, jsonpointer"',
               checks=checks, not_applicable=na), open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
