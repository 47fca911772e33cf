#!/usr/bin/env python3
# claim.py ID TECHNIQUE NOTE: records that a property has a check
import json,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'claimed.json')
d=json.load(open(p)); d[sys.argv[1]]=[sys.argv[2],sys.argv[3]]
json.dump(d,open(p,'w'),indent=1,sort_keys=True); open(p,'a').write("\n")
