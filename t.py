import sys; sys.path.insert(0,'.')
from dv import loader
C=loader.load()
from dv import verify
import json
for n in sys.argv[1:] or list(C):
    c=C[n]
    for case in c.cases():
        r=verify.verify(c,case,budget=c.deadline or 60)
        print(n,r['case'],r['obligations'],r['discharged'],'paths',r['paths'],'wit',r['witnesses'],'samples',r['samples'],'met',r['samples_met'],'%.1fs'%r['wall'], 'maxq %.1f'%r['time_max'])
        for u in r['undischarged'][:6]: print('   UND',json.dumps(u)[:700])
        for f in r['failures']: print('   FAIL',f)
        if r['error']: print(r['error'])
