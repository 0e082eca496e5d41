#!/usr/bin/env python3
# merge.py A B: adds the evidence of a second run of the same property (B) to A.
import json, sys
a, b = (json.load(open(f)) for f in sys.argv[1:3])
ca, cb = a['coverage'], b['coverage']
for k in ('evaluations', 'discarded', 'distinct_nontrivial'):
    ca[k] += cb[k]
ca['rule'] += '; ' + cb['rule']
for k in ('samples', 'sub_checks', 'violations_found'):
    ca[k] += cb[k]
a['wall_s'] = round(a['wall_s'] + b['wall_s'], 2)
a['violations'] += b['violations']
json.dump(a, open(sys.argv[1], 'w'))
