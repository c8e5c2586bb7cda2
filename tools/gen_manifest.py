#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (levels and notes) and properties.jsonl."""
import json,os,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
checks=json.load(open(root+'/tools/checks.json'))
m={"version":1,
 "setup_cmd":"./check.sh --build-only",
 "hooks":{"guard":"none","enable":"no hooks are needed: the checks use the crates' public API","source_commits":[]},
 "checks":[],"not_applicable":[],
 "notes":"All checks run ./check.sh, which builds the Rust model checker in mc/ against /repo's working tree and runs one property."}
for p in props:
    c=checks.get(p['id'])
    if not c:
        m["not_applicable"].append({"property":p['id'],"reason":"its check is still under construction"})
        continue
    m["checks"].append({"property":p['id'],"quick_cmd":"./check.sh %s quick"%p['id'],"thorough_cmd":"./check.sh %s thorough"%p['id'],
      "technique":c["technique"],"level":c["level"],"level_note":c["note"]})
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write("\n")
