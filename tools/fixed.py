#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT TEXT: record a repaired defect"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
d = json.load(open(p))
d['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}')
json.dump(d, open(p, 'w'), indent=1)
