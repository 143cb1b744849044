#!/usr/bin/env python3
"""Markdown table of the planted changes, for DESIGN.md section 6."""
import json, glob, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| change | what it breaks | needs | caught by |\n|---|---|---|---|')
for f in sorted(glob.glob(D + '/seeded/*/meta.json')):
    m = json.load(open(f))
    print('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs'], m['property']))
