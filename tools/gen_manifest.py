"""Writes MANIFEST.json: python3 tools/gen_manifest.py"""
import json, os, subprocess, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = json.load(open(os.path.join(root, "tools/techniques.json")))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=cfg verif_hooks"], capture_output=True, text=True).stdout.split()
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "verif_hooks",
        "enable": "RUSTFLAGS='--cfg verif_hooks' (set by lib.sh for the harness build; output in /verif/target, apart from /repo/target)",
        "source_commits": hook,
    },
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']}",
            "thorough_cmd": f"./check.sh {p['id']} --thorough",
            "technique": T[p["id"]]["technique"],
            "level": "exploration",
            "level_note": T[p["id"]]["note"],
        }
        for p in props if p["id"] in T
    ],
    "not_applicable": [
        {"property": p["id"], "reason": "The check is still being built."} for p in props if p["id"] not in T
    ],
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]))
