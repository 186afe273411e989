"""Write MANIFEST.json from properties.jsonl, levels.json and notes.json."""
import json

props = [json.loads(x) for x in open("properties.jsonl")]
levels = json.load(open("levels.json"))
notes = json.load(open("notes.json"))
NA = notes["not_applicable"]
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    lv = levels.get(i, "exploration")
    checks.append(
        {
            "property": i,
            "quick_cmd": f"python3-vt check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3-vt check.py {i}",
            "technique": notes["technique"].get(i, notes["technique"]["proof" if lv == "proof" else "bounded"]),
            "level": lv,
            "level_note": notes["note"].get(i, notes["note"]["default"]),
        }
    )
json.dump(
    {
        "version": 1,
        "setup_cmd": "python3-vt selftest.py",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
        "notes": notes["notes"],
    },
    open("MANIFEST.json", "w"),
    indent=1,
)
