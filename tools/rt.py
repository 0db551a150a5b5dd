import sys; sys.path.insert(0,'/verif')
from harness import base
p=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else 'quick'
import time; t=time.time()
r=base.run_property(p, 1, tier, 300)
print(r['evaluations'], r['parts'], len(r['failures']), '%.1fs'%(time.time()-t))
seen=set()
for f in r['failures']:
    m=f['message']
    key=(f['part'],m.strip().splitlines()[-1][:70])
    if key in seen: continue
    seen.add(key)
    print('--',f['part'],f['index']); print(m[-700:])
    if len(seen)>int(sys.argv[3] if len(sys.argv)>3 else 6): break
