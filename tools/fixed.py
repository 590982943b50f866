"fixed.py ID PROP COMMIT what: record a repaired defect"
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
i, pr, c, w = sys.argv[1:5]
d['findings'].append(dict(id=i, status='fixed', property=pr, line='fixed: property=%s %s %s' % (pr, c, w)))
json.dump(d, open(p, 'w'), indent=1)
