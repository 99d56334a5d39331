"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, families, special
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
NOTES = special.NOTES
claimed, rest = [], []
for p in props:
    i = p["id"]
    if i not in families.FAMILIES and i not in special.CHECKS:
        rest.append({"property": i, "reason": special.PENDING.get(i, "no check yet")})
        continue
    models = sorted({c for _, c, when, how in check.DESIGNS.get(i, []) if when == "always"})
    claimed.append({
        "property": i,
        "quick_cmd": "bin/check " + i,
        "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
        "technique": special.TECHNIQUE.get(i, "TLA+ specification; traces recorded from the real code validated against it with TLC"
                                           + ("; behaviours of TLC-checked design models replayed on the real code" if models else "")),
        "level": "model_checking",
        "level_note": NOTES.get(i, special.NOTE) + (special.DESIGN_NOTE % ", ".join(models) if models else ""),
    })
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": claimed, "not_applicable": rest,
           "notes": "No hooks in /repo are needed: everything is observed through the public API and a scripted serial port."},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
