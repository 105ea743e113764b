#!/bin/bash
python3 - $1 <<'P'
import json,sys
d=json.load(open('/verif/build/out/%s/kani.json'%sys.argv[1]))
for r in sorted(d['verification_results']['results'],key=lambda r:r['duration_ms']): print(r['harness_id'].split('::')[-1],r['status'],r['duration_ms'])
P
