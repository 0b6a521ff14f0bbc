#!/bin/bash
# summary of evidence
for c in "$@"; do python3 - $c <<'P'
import json,sys
d=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))
for p in d['coverage']['parts']:
    if p['engine'].startswith('E1'):
        print(' ',p['executions'],'execs', p['seconds'],'s', {k:(v,p['completed_cost_bound'][k]) for k,v in p['distinct_outcomes'].items()})
    else: print(' ',p['name'],p['cases'],p['complete'],p['distinct_outcomes'],p['seconds'])
P
done
