#!/usr/bin/env python3
"""Set the technique and level note of a check: tech.py ID TECHNIQUE NOTE."""
import json, sys
p = '/verif/tools/techniques.json'
d = json.load(open(p))
d[sys.argv[1]] = sys.argv[2:4]
json.dump(d, open(p, 'w'), indent=1, ensure_ascii=False, sort_keys=True)
