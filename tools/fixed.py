"""fixed.py PROPERTY COMMIT WHAT: records a repaired defect in known_findings.json"""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
d = json.load(open(f))
p, c, what = sys.argv[1:]
d.append(dict(property=p, status='fixed', commit=c, what='fixed: property=%s %s %s' % (p, c, what)))
open(f, 'w').write(json.dumps(d, indent=1, ensure_ascii=False) + '\n')
