"""Regenerates MANIFEST.json (run by hand)."""
import json

T = {
 "C01": "runtime monitoring: strict tokenizer decodes generated documents and compares them with a shadow of what was supplied",
 "C02": "runtime monitoring: token-by-token matcher of output against the tree, round-trip oracle",
 "C03": "runtime monitoring: shadow attribute map, decoder of the written attributes",
 "C04": "runtime monitoring: HTML() algebra run in lockstep with a segment model",
 "C05": "runtime monitoring: whitespace oracle over rendered trees",
 "C06": "runtime monitoring: reference layout compared byte for byte",
 "C07": "runtime monitoring: metamorphic comparison of trees with and without metadata",
 "C08": "runtime monitoring: object-graph snapshots around every operation",
 "C09": "runtime monitoring: tagify call monitor and expansion oracle",
 "C10": "runtime monitoring: reference resolver over collection histories",
 "C11": "runtime monitoring: document structure matcher against a model of the expected tree",
 "C12": "runtime monitoring: audit-hook file-system trace and tree snapshots around save/copy",
 "C13": "runtime monitoring: serialise/extract round-trip monitor",
 "C14": "runtime monitoring: list histories in lockstep with a shadow list",
 "C15": "runtime monitoring: attribute histories in lockstep with a shadow map",
 "C16": "runtime monitoring: class/style histories in lockstep with a token-list model",
 "C17": "runtime monitoring: shadow hook stack over generated programs with injected exceptions",
 "C18": "runtime monitoring: outputs of differing interpreter processes and histories compared",
 "C19": "runtime monitoring: exhaustive calls of the generated functions against a frozen table and the constructor",
 "C20": "runtime monitoring: purity snapshots, JavaScript matcher and evaluation by node with recording stubs",
}
NOTE = ("Oracle verdict on every execution generated (seeded, 8 processes); not exhaustive beyond the small-scope streams. "
        "Trusts the monitor's model of the property, CPython and packaging. Assumptions are listed in the evidence file.")
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: monitors observe through public API, sys.displayhook, sys.addaudithook and sys.monitoring. "
              "Defects found and repaired are listed in KNOWN_FINDINGS.txt."}
for p, t in T.items():
    m["checks"].append({"property": p, "quick_cmd": "./run.sh %s --tier quick" % p, "thorough_cmd": "./run.sh %s --tier thorough" % p,
                        "technique": t, "level": "exploration", "level_note": NOTE})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
