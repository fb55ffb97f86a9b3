#!/usr/bin/env python3
# Regenerates MANIFEST.json from checks.json (property, technique, note) – run by hand.
import json
c=json.load(open('/verif/checks.json'))
m={"version":1,
"setup_cmd":"bash /verif/setup.sh",
"checks":[],"not_applicable":c["not_applicable"],"notes":c["notes"]}
for x in c["checks"]:
    m["checks"].append({"property":x["id"],"quick_cmd":"bash check.sh "+x["id"],"thorough_cmd":"VERIF_TIER=thorough bash check.sh "+x["id"],
      "technique":x["technique"],"level":"proof","level_note":x["note"]})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
