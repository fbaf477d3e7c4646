#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: `python3 tools/meta.py` rewrites both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from proptext import PROPS, NOT_APPLICABLE
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}, ensure_ascii=False) + "\n")
    na = dict(NOT_APPLICABLE)
    m = {"version": 1, "setup_cmd": "bash bin/dump.sh .cache/setup",
         "checks": [{"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
                     "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": "other", "level_note": p["note"]} for p in PROPS if p["id"] not in na],
         "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE],
         "notes": "All checks are static: bin/dump.sh type-checks /repo with a rustc driver that writes the MIR of brec and of a harness crate expanded by brec's macros; engine/ decides rules over it by abstract interpretation. Nothing from /repo is executed except its procedural macro and build-script code generator during compilation."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
if __name__ == "__main__": main()
