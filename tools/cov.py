#!/usr/bin/env python3
# cov.py OUTDIR PROG[:count[:args]]...: line coverage of /repo's sources under the harness programs (development aid).
import sys,os,subprocess,json,glob,collections
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
import targets
R=os.environ.get('VERIF_REPO','/repo');V='/verif'
out=sys.argv[1];os.makedirs(out,exist_ok=True)
P=targets.programs(R,V);cov=collections.defaultdict(dict)
from concurrent.futures import ThreadPoolExecutor
for spec in sys.argv[2:]:
    a=spec.split(':');n=a[0];d=os.path.join(out,n);os.makedirs(d,exist_ok=True);p=P[n];objs=[]
    def comp(i):
        src,cmd=p['objs'][i];o=os.path.join(d,'%d.o'%i);c=list(cmd)
        if src.startswith(R): c=[x for x in c if x!='-O2']+['-O0','--coverage']
        if not os.path.exists(o): subprocess.check_call(c+['-c',src,'-o',o],cwd=d)
        return o
    with ThreadPoolExecutor(8) as ex: objs=list(ex.map(comp,range(len(p['objs']))))
    exe=os.path.join(d,'prog');subprocess.check_call([p['link'][0]]+objs+p['link'][1:]+['--coverage','-o',exe],cwd=d)
    r=subprocess.run([exe,'--count',a[1] if len(a)>1 else '5000','--seed','5','--secs','120']+(a[2].split() if len(a)>2 else []),cwd=d,stdout=subprocess.PIPE,text=True)
    print(spec,r.stdout[:120].strip())
    for i,(src,cmd) in enumerate(p['objs']):
        if not src.startswith(R): continue
        j=subprocess.run(['gcov','--json-format','--stdout','%d.gcda'%i],cwd=d,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True).stdout
        for l in j.splitlines():
            for f in json.loads(l)['files']:
                if f['file'].startswith(R):
                    for x in f['lines']: k=x['line_number'];cov[f['file']][k]=cov[f['file']].get(k,0)+x['count']
with open(os.path.join(out,'cov.json'),'w') as f: json.dump(cov,f)
for fn in sorted(cov):
    m=cov[fn];u=sorted(k for k in m if not m[k]);print('%s %d/%d'%(fn[len(R)+1:],len(m)-len(u),len(m)))
    src=open(fn,errors='replace').read().split('\n')
    with open(os.path.join(out,fn[len(R)+1:].replace('/','_')+'.unc'),'w') as f:
        for k in u: f.write('%d: %s\n'%(k,src[k-1].strip()))
