#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json: tools/checks.py"""
import json, os, subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    "wasm32 code generated by rustc from the working tree stands for the native code (sampled paths are replayed natively and compared)",
    "thread-local randomness (hash seeds) is fixed; hash iteration order is therefore one fixed order",
    "inputs outside the stated bounds are not covered",
]

exec(open(f"{V}/tools/entries.py").read())


def main():
    props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
    out = {"assumptions": ASSUMPTIONS, "properties": {}}
    for p in props:
        if p["id"] in PROPS:
            q = PROPS[p["id"]]
            out["properties"][p["id"]] = {"level": "model_checking", "assumptions": q.get("assumptions", []),
                                          "entries": q["entries"]}
    with open(f"{V}/checks.json", "w") as h:
        json.dump(out, h, indent=1)
        h.write("\n")
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
    hooks = [l.split()[0] for l in log.split("\n") if l and l.split(" ", 1)[1].startswith("hook:")]
    m = {
        "version": 1,
        "setup_cmd": "bin/build.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"bin/check {p['id']} quick",
            "thorough_cmd": f"bin/check {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "symbolic execution of the compiled code with SMT (Z3)",
            "level": "model_checking",
            "level_note": PROPS[p["id"]]["note"] + " Trust base: rustc's wasm back end, the engine in /verif/engine "
            "(validated against native runs on sampled paths), Z3, and the oracle in /verif/harness.",
        } for p in props if p["id"] in PROPS],
        "hooks": {"guard": "none", "enable": "no hooks are needed", "source_commits": hooks},
        "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "No check has been built for this property yet.")}
                           for p in props if p["id"] not in PROPS],
        "notes": "bin/build.sh builds the engine, the wasm harness and the native replay binary from /repo's working "
                 "tree; every check does so itself. Known findings: known_findings.json. Design: DESIGN.md.",
    }
    with open(f"{V}/MANIFEST.json", "w") as h:
        json.dump(m, h, indent=1)
        h.write("\n")


main()
