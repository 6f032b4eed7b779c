#!/usr/bin/env python3
"""claim.py IDS...: takes properties from the not-applicable list"""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                 'not_applicable.json')
d = json.load(open(p))
for k in sys.argv[1:]:
    d.pop(k, None)
json.dump(d, open(p, 'w'), indent=0)
