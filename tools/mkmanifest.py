import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS, NA, NOTE
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for p in props:
    if p not in PROPS: continue
    c = PROPS[p]
    checks.append({"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
      "evidence_file": "evidence/%s.json" % p, "technique": "contract-based deductive verification of the real code (Verus on functions extracted mechanically from /repo on every run)",
      "level": c.get("level", "proof"), "level_note": NOTE[p], "theorems": c.get("theorems", [])})
m = {"version": 1, "setup_cmd": "python3 tools/check.py setup",
 "hooks": {"guard": "--cfg rqrr_verif", "enable": "RUSTFLAGS=\"--cfg=rqrr_verif --cfg=hook_<piece> ...\" RQRR_VERIF_HOOKS=/verif/.work/hooks cargo build (tools/check.py, native/)", "source_commits": ["5972f14"]},
 "checks": checks, "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p not in PROPS], "notes": "see DESIGN.md; the repairs are listed in known-findings.txt"}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks,", len(m["not_applicable"]), "not applicable")
