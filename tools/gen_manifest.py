#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed if it has a harness."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
T = {
    "C01": "monitoring of readers under schedule perturbation, model of the dataset order (ASan/UBSan)",
    "C02": "random call histories checked against a sequential model, under perturbation (ASan/UBSan)",
    "C03": "mutation workloads under AddressSanitizer and UndefinedBehaviorSanitizer",
    "C04": "ThreadSanitizer under perturbed concurrent workloads",
    "C05": "progress watchdog over hostile call histories, gated stores and schedules",
    "C06": "fault injection at every store operation, prefix/completeness oracle",
    "C07": "online comparison with an independent reference CSV parser",
    "C08": "differential monitoring over delivery modes, read and chunk sizes",
    "C09": "online comparison with a model of range, sharding and sampling",
    "C10": "permutation, window and seed monitors over recorded orders",
    "C11": "online monitor of batch size, padding and warnings",
    "C12": "online comparison with a model of bad-instance handling",
    "C13": "online comparison with a model of CSV schemas",
    "C14": "comparison with an exact-arithmetic reference of number parsing",
    "C15": "online comparison of decoded tensors with independently encoded values",
    "C16": "round trip and single-fault corruption monitors",
    "C17": "round trip through independent encoders, invalid-sequence monitor",
    "C18": "round trip through zlib, truncation and corruption monitors",
    "C19": "online comparison with an independent line splitter",
    "C20": "pixel comparison with an independent OpenCV reference",
    "C21": "resource accounting (/proc, LeakSanitizer), content digests over lifetimes",
    "C22": "comparison with an independent directory walk and natural ordering",
    "C23": "random operation sequences checked against plain byte arrays (ASan/UBSan)",
    "C24": "random operation sequences checked against a stream model (ASan/UBSan)",
    "C25": "FIFO writers with random chunking and stalls, delivery and timeout monitors",
    "C26": "comparison with statistics computed directly from the data",
    "C27": "model-based monitoring through the Python bindings under AddressSanitizer",
    "C28": "online monitor of read-ahead and decode concurrency",
    "C29": "online monitor of the byte counter against delivered payloads",
    "C30": "random constructor and comparison workloads against a model of the types",
    "C32": "service double behind a stand-in SDK, random listings, streams and readers with failing requests, model comparison (ASan/UBSan)",
    "C33": "random operation sequences with failing streams against a file model, on a stand-in for Apache Arrow (ASan/UBSan)",
    "C34": "handlers that record every message: a sequential model of levels and handlers, registration intervals of concurrent replacements, and a model of the warnings of the readers (ASan/UBSan)",
    "C31": "round trip and truncation monitors",
}
NOTE = {
    "C33": "Apache Arrow is not installed: the real integration sources run on a stand-in for its interfaces (harness/fakearrow); the glue that fills a pyarrow NativeFile (module.cc) is not run.",
    "C32": "The AWS SDK is not installed: the real S3 sources run on a stand-in for the SDK (harness/fakeaws), so the SDK itself is trusted to behave like it.",
    "C04": "No data race report from ThreadSanitizer on the executed schedules; oneTBB is not instrumented, its hand-over of tasks is annotated.",
}
LEVEL = {"C06": "fault_enumeration"}
REASON = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{VERIF}/harness/{i}.cc") or os.path.exists(f"{VERIF}/harness/{i}.py"):
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
                       "technique": T[i], "level": LEVEL.get(i, "exploration"),
                       "level_note": NOTE.get(i, "No violation on the executed, seeded workload; trusts the reference model in harness/" + i + ", the generators and the sanitizer runtimes.")})
    else:
        na.append({"property": i, "reason": REASON.get(i, "No check has been built yet.")})
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "MLIO_VERIF", "enable": "tools/build.py compiles /repo's sources with -DMLIO_VERIF (buffer sizes and schedule points, src/mlio/detail/verif_hooks.h)",
               "source_commits": ["5add167"]},
     "checks": checks, "not_applicable": na}
with open(VERIF + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
