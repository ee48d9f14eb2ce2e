# usage: fixed.py PROPERTY "what failed"  -- records /repo's HEAD as the repair
import json, subprocess, sys
h = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h"], text=True).strip()
p = "/verif/known_findings.json"; k = json.load(open(p)); k["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2])); json.dump(k, open(p, "w"), indent=1)
