"""Regenerate /verif/MANIFEST.json from properties.jsonl and the checks that exist."""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
NOTES = json.loads((ROOT / "harness" / "levels.json").read_text())


def main() -> None:
    checks, missing = [], []
    for line in (ROOT / "properties.jsonl").read_text().splitlines():
        pid = json.loads(line)["id"]
        if (ROOT / "harness" / f"prop_{pid.lower()}.py").exists():
            note = NOTES[pid]
            checks.append({
                "property": pid,
                "quick_cmd": f"./check {pid}",
                "thorough_cmd": f"./check {pid} thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": note["technique"],
                "level": "model_checking",
                "level_note": note["note"],
            })
        else:
            missing.append({"property": pid, "reason": "no check built yet"})
    doc = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": missing}
    (ROOT / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")


main()
