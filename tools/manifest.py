#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per harness binary which exists."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
TECH = {
    "C01": "runtime monitor: exact-arithmetic reference model over primitive, modular and counted coefficients, on generated workloads",
    "C02": "runtime monitor: exact reference model and counted multiplications",
    "C03": "runtime monitor: exact division model, fields Z/p, fuel-limited coefficient type for termination",
    "C04": "runtime monitor: exact evaluation model, rounding-error bound for floats",
    "C05": "runtime monitor: observers and equality against an abstract map of degree to coefficient",
    "C06": "runtime monitor: mutation histories against a model, with allocation faults injected",
    "C07": "runtime monitor: texts generated with a known value, parsed by every type",
    "C08": "runtime monitor: texts with one known fault, hostile texts under an allocation limit",
    "C09": "runtime monitor: independent formatter and parse-back",
    "C10": "runtime monitor: exact derivative model, representability limits of each coefficient type",
    "C11": "runtime monitor: exact integral model, representability limits of each coefficient type",
    "C12": "runtime monitor: exact shift model over all amounts",
    "C13": "runtime monitor: exact value comparison over all conversion pairs",
    "C14": "runtime monitor: polynomials built from known roots, exact for integers, rounding bound for floats",
    "C15": "runtime monitor: backward-error residuals, polynomials built from known roots",
    "C16": "runtime monitor: accumulation histories against a model, failing sinks",
    "C17": "AddressSanitizer, Miri, result digests across threads and histories, allocation balance",
    "C18": "runtime monitor: counting allocator and counted coefficient operations",
    "C19": "runtime monitor: array polynomial and trim histories against a model (nightly features)",
}
checks = []
for p in props:
    i = p["id"]
    if not os.path.exists(f"{root}/harness/src/bin/{i.lower()}.rs"):
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH[i],
        "level": "exploration",
        "level_note": "Every execution of the workload is judged by an independent oracle; inputs outside of the workload are not covered. Trusts rustc, num-bigint and the harness.",
    })
claimed = {c["property"] for c in checks}
m = {
    "version": 1,
    "setup_cmd": "cargo --version && cargo +nightly --version && cargo +nightly miri --version",
    "hooks": {
        "guard": "cargo feature array_polynomials",
        "enable": "check.sh C19 (and C17) build the harness with --features optional, which turns on rustnomial/array_polynomials; the feature is off by default",
        "source_commits": ["e3fc45a"],
    },
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in claimed],
    "notes": "Every check builds its own binary from /repo's working tree into /verif/target. Findings: KNOWN_FINDINGS.txt.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
