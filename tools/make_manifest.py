# Writes MANIFEST.json from the table of checks.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
from notes import NOTES, NOT_APPLICABLE
checks = []
for cid in sorted(CHECKS):
    checks.append(dict(property=cid, quick_cmd="python3 run_check.py %s --tier quick" % cid,
                       thorough_cmd="python3 run_check.py %s --tier thorough" % cid,
                       evidence_file="evidence/%s.json" % cid,
                       technique=NOTES[cid][0], level="exploration", level_note=NOTES[cid][1]))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = dict(NOT_APPLICABLE)
for i in ids:
    if i not in CHECKS and i not in na: na[i] = "not claimed yet: its check is still being built"
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items()) if k not in CHECKS],
         notes="No hooks in /repo are needed: everything the oracles judge is observable through the public API; the monitors interpose std::random_device from the harness. Each check compiles its harness from /repo's working tree.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
