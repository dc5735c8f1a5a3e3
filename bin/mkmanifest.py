#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
TODO = {}
NOTES = json.load(open(V + '/bin/notes.json'))
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "hooks": {"guard": "none: /repo carries no hooks; the checks rewrite a copy of its sources at build time", "enable": "bin/build.sh instruments /repo's working tree into a scratch directory (rewrite/)", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in TODO:
        m["not_applicable"].append({"property": i, "reason": TODO[i]})
        continue
    m["checks"].append({"property": i, "quick_cmd": "bash bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bash bin/check " + i,
                        "evidence_file": "evidence/%s.json" % i, "technique": NOTES[i]["technique"], "level": "exploration", "level_note": NOTES[i]["note"]})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
