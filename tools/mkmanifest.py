"""Writes /verif/MANIFEST.json from conf.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from conf import CONF, NOT_APPLICABLE

ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = CONF["properties"].get(i)
    if not c:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check has been built for it yet.")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": c.get("technique", "bounded model checking of the compiled code with Kani/CBMC (SAT)"),
        "level": c.get("level", "model_checking"),
        "level_note": "Solver verdict over all values within: " + c["bounds"] + (" Outside: " + c["outside"] if c.get("outside") else "")
                      + " Trusted: " + " ".join(c.get("assumptions", CONF["assumptions"])),
    })
m = {
    "version": 1,
    "setup_cmd": "cargo kani --version && python3 -c 'import conf'",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the harness crates use the public API only (features alloc, danger, serde).",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
