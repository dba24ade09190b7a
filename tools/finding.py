"""tools/finding.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json"""
import json, sys
k = json.load(open('/verif/known_findings.json'))
n = max(int(x['id'][1:]) for x in k) + 1
k.append({"id": "F%02d" % n, "property": sys.argv[1], "status": "fixed", "keys": [], "commit": sys.argv[2], "what": "fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], sys.argv[3])})
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1); print(k[-1]['id'])
