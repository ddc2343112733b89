import json,glob,sys
from collections import Counter
c=Counter(); ex={}
for f in sorted(glob.glob(f'/verif/evidence/replay/{sys.argv[1]}_*.json')):
    d=json.load(open(f)); dd=d['detail']
    k=d['what'][:150]
    if not isinstance(dd,dict): k=(k,str(dd)[-250:])
    c[k]+=1; ex.setdefault(k,dd)
for k,n in list(c.items())[:12]:
    print(n,k)
n=int(sys.argv[2]) if len(sys.argv)>2 else 0
for k,dd in list(ex.items())[:n]:
    print("----",k); print(json.dumps(dd)[:int(sys.argv[3]) if len(sys.argv)>3 else 1200])
