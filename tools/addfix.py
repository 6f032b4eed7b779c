#!/usr/bin/env python3
"""addfix.py PROP COMMIT TEXT: records a repaired defect"""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 'known-findings.json')
d = json.load(open(p))
prop, commit, text = sys.argv[1:4]
d.append({'property': prop, 'status': 'fixed', 'commit': commit,
          'what': text,
          'line': 'fixed: property=%s %s %s' % (prop, commit, text)})
json.dump(d, open(p, 'w'), indent=1)
