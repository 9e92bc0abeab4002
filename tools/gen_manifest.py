#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl (every property is claimed)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "world": "stateful model-based property testing of whole deployments (proptest, cw-multi-test) against an exact big-integer reference model",
    "factory": "stateful model-based property testing of the factory on a simulated chain (proptest) against a registry model",
    "token": "stateful model-based property testing of the token contract (proptest) against a plain ledger model",
    "twin": "metamorphic, stateful property-based testing of whole deployments (proptest, cw-multi-test): two related histories must have the same outcomes",
    "reference": "differential property-based testing (proptest) of the token contract against the reference CW20 contract on twin chains",
    "lib": "property-based testing (proptest) against an independent reference implementation",
}
KIND = {"C14": "factory", "C15": "factory", "C16": "factory", "C17": "factory", "C18": "factory",
        "C23": "token", "C24": "token", "C25": "lib", "C26": "lib", "C27": "lib", "C32": "lib",
        "C35": "reference", "C36": "twin", "C37": "twin"}
NOTE = {
    "world": "Searched, not proved: generated deployments, amounts up to 125 bits and bounded histories, each step judged by exact integer arithmetic; bounds and undecided bands are in DESIGN.md.",
    "factory": "Searched, not proved: generated registries and bounded histories, each step judged by a model of the registry.",
    "token": "Searched, not proved: generated inputs and bounded histories judged by a plain ledger model.",
    "twin": "Searched, not proved: generated deployments and bounded histories; every call's acceptance, every quote and every balance of the two histories is compared.",
    "reference": "Searched, not proved: generated creations and bounded histories; both contracts get every message and every query, and all outcomes are compared.",
    "lib": "Searched, not proved: millions of generated operands with boundary bias, judged by an independent big-integer implementation.",
}
checks = []
for line in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(line)["id"]
    k = KIND.get(i, "world")
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH[k],
        "level": "exploration",
        "level_note": NOTE[k],
    })
m = {
    "version": 1,
    "setup_cmd": "cd harness && CARGO_TARGET_DIR=/verif/harness/target cargo build --release --offline",
    "checks": checks,
    "not_applicable": [],
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
