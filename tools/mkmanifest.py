"""Writes MANIFEST.json: one check per claimed property, reasons for the rest."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from t3fsa import info, props

ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
have = [i for i in props.properties() if i in ids]
checks = []
for i in ids:
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": info.technique(i),
            "level": "other",
            "level_note": info.note(i),
        })
na = [{"property": i, "reason": info.NOT_APPLICABLE.get(i, "Static check not built yet; not claimed.")}
      for i in ids if i not in have]
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.dont_write_bytecode = True; import t3fsa.props\"",
     "checks": checks, "not_applicable": na,
     "notes": "Static analysis of the syntax tree of /repo/t3f only; plain python3 standard library. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable:', ' '.join(x['property'] for x in na))
