#!/usr/bin/env python3
# usage: fixed.py PROPERTY COMMIT WHAT -- records a repaired defect
import json, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
k["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(k, open(p, 'w'), indent=1, ensure_ascii=False)
open(p, 'a').write('\n')
