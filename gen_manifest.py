#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]
NOTE = {
    "default": "TLC validates every recorded public call of the real managers against the TLA+ specification "
               "(expected results are computed by TLC from the set-theoretic/pointwise definitions), and checks the "
               "exhaustive small-constant models listed in DESIGN.md. Histories are seeded samples plus enumerated "
               "small spaces; the specification and the harness' read-back through public accessors are trusted.",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "TLA+ specification checked with TLC (exhaustive models incl. lemma models); trace validation of recorded implementation histories and replay of TLC-generated histories against it",
        "level": "model_checking",
        "level_note": NOTE.get(i, NOTE["default"]),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "hooks": {"guard": "none", "enable": "no hooks are needed: every observation goes through the public API", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "Specification language: TLA+ (TLC). See DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
