"""Writes MANIFEST.json from the list of property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())

checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NOTES and os.path.exists(os.path.join(HERE, "mc", f"{i.lower()}.py")):
        technique, note = NOTES[i]
        checks.append(
            {
                "property": i,
                "quick_cmd": f"bash run.sh {i} quick",
                "thorough_cmd": f"bash run.sh {i} thorough",
                "technique": technique,
                "level": "model_checking",
                "level_note": note,
            }
        )
    else:
        missing.append({"property": i, "reason": "check is not built yet"})
manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: every check drives the public interface of the code imported from /repo/src.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
