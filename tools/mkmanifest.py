"""Writes MANIFEST.json from the registry"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sim"))
import registry

NA = {
    "P01": "Pure functions of their input: no schedule, clock, I/O, fault or history for a simulator to control.",
    "P05": "Constants; nothing runs. (D01 covers that every game gets its own stat table.)",
    "P07": "A statement about declarations for all inputs; pure. (Cross-mode equality of everything that runs is covered by R02, G01 and C01.)",
    "P08": "Pure formatting of values. (The text shown for the encounters of a search is part of G01.)",
}
LEVELS = "Seeded search over schedules, faults and histories by deterministic simulation of the real code; evidence, not proof. "
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    prop = json.loads(line)["id"]
    if prop not in registry.SPECS:
        if prop not in NA:
            NA[prop] = "Check not built yet."
        continue
    spec = registry.SPECS[prop]
    checks.append({
        "property": prop,
        "quick_cmd": "python3 sim/run.py check %s" % prop,
        "thorough_cmd": "python3 sim/run.py check %s --tier thorough" % prop,
        "evidence_file": "evidence/%s.json" % prop,
        "technique": spec.get("technique", "deterministic simulation with fault injection"),
        "level": "exploration",
        "level_note": LEVELS + spec.get("note", ""),
    })
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": NA[k]} for k in sorted(NA) if k not in registry.SPECS],
    "notes": "No hooks in /repo: every seam is a Python-level one (files, processes, threads, bytecode instructions) that the node processes take over themselves.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as handle:
    json.dump(manifest, handle, indent=1)
    handle.write("\n")
