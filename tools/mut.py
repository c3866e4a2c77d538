#!/usr/bin/env python3
# mut.py GROUP N SEED [SLOTS]: plants N random one-token changes in scratch copies of /repo and runs the harness programs on each
# (development aid). Survivors are tried on the stable tests and listed in /tmp/mut/GROUP.survivors.
import sys,os,re,random,subprocess,shutil,json,glob,threading,time,signal
sys.path.insert(0,'/verif');import targets
GROUP,N,SEED=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]);SLOTS=int(sys.argv[4]) if len(sys.argv)>4 else 4
W='/tmp/mut';os.makedirs(W,exist_ok=True)
ENGP=['generic','C01','C03','C04','C07','C08','C09','C10','C11','C12','C13','C14','C17','C02','C05','C06']
wj=lambda c:[('wj',c,'--profile '+p) for p in ENGP]
G={'pwart':(['pwart/*.c'],wj(5000)+[('blt',15000,''),('load',6000,''),('ns',8000,''),('life',5000,''),('rec',1500,''),('tail',1500,'')]),
 'sljit':(['sljit/sljit_src/sljitLir.c','sljit/sljit_src/sljitNativeX86_common.c','sljit/sljit_src/sljitNativeX86_64.c','sljit/sljit_src/sljitUtils.c','sljit/sljit_src/sljitSerialize.c','sljit/sljit_src/allocator_src/sljitExecAllocatorCore.c','sljit/sljit_src/allocator_src/sljitExecAllocatorPosix.c'],
   [('lir',60000,''),('ser',40000,''),('exe',6000,''),('stk',10000,''),('lir',40000,'CPU63'),('lir_rel',30000,''),('ser_rel',20000,'')]),
 'regex':(['sljit/regex_src/regexJIT.c'],[('rgx',150000,''),('rgx_rel',60000,'')]),
 'syslib':(['pwart_syslib/libffi.c','pwart_syslib/libuv.c','pwart_syslib/libwasi.c','pwart_syslib/pwart_syslib.c','pwart_syslib/wasiexec.c'],[('ffi',60000,''),('ffi_off',2000,''),('uv',8000,''),('wasi',40000,'')])}
files,jobs=G[GROUP]
cov={}
for f in glob.glob('/tmp/cov/cov.json')+glob.glob('/tmp/cov*/cov.json'):
    for k,v in json.load(open(f)).items():
        c=cov.setdefault(k,{})
        for l,n in v.items(): c[int(l)]=c.get(int(l),0)+n
def ops(line):
    out=[]
    def sub(pat,f,w=1):
        for m in re.finditer(pat,line):
            r=f(m)
            if r is not None and r!=m.group(0): out.extend([(m.start(),m.end(),r)]*w)
    sub(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])',lambda m:str(int(m.group(0),0)+1))
    sub(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])',lambda m:str(max(0,int(m.group(0),0)-1)))
    sub(r'==',lambda m:'!=');sub(r'!=',lambda m:'==');sub(r'&&',lambda m:'||');sub(r'\|\|',lambda m:'&&')
    sub(r'(?<![<\-=])<(?![<=])',lambda m:'<=');sub(r'<=',lambda m:'<');sub(r'(?<![>\-=])>(?![>=])',lambda m:'>=');sub(r'>=',lambda m:'>')
    sub(r' \+ ',lambda m:' - ');sub(r' - ',lambda m:' + ');sub(r' \+= ',lambda m:' -= ');sub(r'(?<=\w)\+(?=\w)',lambda m:'-')
    sub(r'\bif ?\(',lambda m:'if(!');sub(r'!(?=[\w(])(?!=)',lambda m:'')
    sub(r'\bSLJIT_MOV\b',lambda m:'SLJIT_MOV32');sub(r'\bSLJIT_MOV32\b',lambda m:'SLJIT_MOV');sub(r'\bSLJIT_MOV_S(8|16|32)\b',lambda m:m.group(0).replace('_S','_U'));sub(r'\bSLJIT_MOV_U(8|16|32)\b',lambda m:m.group(0).replace('_U','_S'))
    sub(r'\bSLJIT_R(\d)\b',lambda m:'SLJIT_R%d'%((int(m.group(1))+1)%3));sub(r'\bSLJIT_SIG_',lambda m:'SLJIT_');sub(r'\bSLJIT_(LESS|GREATER)\b',lambda m:'SLJIT_SIG_'+m.group(1))
    sub(r'\bI32\b',lambda m:'I64');sub(r'\bI64\b',lambda m:'I32');sub(r'\bF32\b',lambda m:'F64');sub(r'\bF64\b',lambda m:'F32')
    sub(r'\bcompiler->|\bm->',lambda m:None)
    if re.match(r'^\s*[\w>.\-\[\]\(\)*&]+.*;\s*$',line) and not re.match(r'^\s*(return|static|const|extern|typedef|case|default|else|int|char|void|sljit_\w+ |struct|unsigned|break|goto|}|uint|size_t)',line):
        i=len(line)-len(line.lstrip());out.extend([(i,len(line),';')]*2)
    if re.match(r'^\s*break;\s*$',line): i=len(line)-len(line.lstrip());out.append((i,len(line),';'))
    return out
cand=[]
for pat in files:
    for f in sorted(glob.glob('/repo/'+pat)):
        c=cov.get(f)
        src=open(f,encoding='latin1').read().split('\n');com=False;dep=False
        for n,l in enumerate(src):
            s=l.strip()
            if com:
                if '*/' in s: com=False
                continue
            if s.startswith('/*'):
                if '*/' not in s: com=True
                continue
            if s.startswith('//') or s.startswith('#') or '"' in s and 'err' in s.lower() or 'DEBUG_BUILD' in s or 'CHECK' in s or 'SLJIT_ASSERT' in s: continue
            if c is not None and n+1 in c and not c[n+1]: continue # never executed
            if c is not None and n+1 not in c: continue # no code
            l2=re.sub(r'//.*$','',l)
            for o in ops(l2): cand.append((f,n,o,l))
random.seed(SEED);random.shuffle(cand)
print(len(cand),'candidates');lock=threading.Lock();it=iter(cand[:N]);stat={'build':0,'killed':0,'suite':0,'survived':0}
def setup(k):
    d=W+'/r%d'%k
    if not os.path.isdir(d): subprocess.check_call(['git','clone','-q','/repo',d]);shutil.copy('/repo/.git/info/exclude',d+'/.git/info/exclude')
    subprocess.check_call(['git','-C',d,'checkout','-q','--','.']);subprocess.call(['git','-C',d,'pull','-q'])
    for a,b in (('build','R=%s B=%s/_build'),('test','R=%s B=%s/_build T=%s/_build/results')):
        t=open('/opt/vp/%s.sh'%a).read()
        t=t.replace('R=/repo B=/repo/_build T=/repo/_build/results','R=%s B=%s/_build T=%s/_build/results'%(d,d,d)).replace('R=/repo B=/repo/_build','R=%s B=%s/_build'%(d,d)).replace('/opt/vp/build.sh',d+'/.git/build.sh')
        open(d+'/.git/%s.sh'%a,'w').write(t)
    # harness objects
    P=targets.programs(d,'/verif');o={}
    for pn in sorted({j[0] for j in jobs}):
        for i,(src,cmd) in enumerate(P[pn]['objs']):
            if not src.startswith(d):
                f=W+'/h%d.%s.%d.o'%(k,pn,i)
                subprocess.check_call(cmd+['-c',src,'-o',f]);o[pn,i]=f
    return d,P,o
def run(cmd,timeout,**kw):
    p=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True,**kw)
    try: out,_=p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid,signal.SIGKILL)
        except OSError: pass
        p.communicate();return 124,b''
    return p.returncode,out
def work(k):
    d,P,ho=setup(k)
    while True:
        with lock: m=next(it,None)
        if m is None: return
        f,n,(a,b,r),l=m;g=d+f[5:];s=open(g,encoding='latin1').read();ls=s.split('\n');ls[n]=ls[n][:a]+r+ls[n][b:]
        if ls[n]==l: continue
        open(g,'w',encoding='latin1').write('\n'.join(ls));desc='%s:%d: %s  =>  %s'%(f[6:],n+1,l.strip(),ls[n].strip());res='survived';by=''
        lo={};t0=time.time()
        try:
            exes={}
            for pn,cnt,args in jobs:
                if pn not in exes:
                    objs=[]
                    ok=True
                    for i,(src,cmd) in enumerate(P[pn]['objs']):
                        if (pn,i) in ho: objs.append(ho[pn,i]);continue
                        key=src+' '.join(cmd)
                        if key not in lo:
                            o=W+'/l%d.%d.o'%(k,len(lo));c,_=run([x if x!='-O2' else '-O1' for x in cmd]+['-c',src,'-o',o],120);lo[key]=o if c==0 else None
                        if lo[key] is None: ok=False;break
                        objs.append(lo[key])
                    if not ok: res='build';break
                    e=W+'/x%d.%s'%(k,pn);c,out=run([P[pn]['link'][0]]+objs+P[pn]['link'][1:]+['-o',e],120)
                    if c: res='build';break
                    exes[pn]=e
                env=dict(os.environ)
                if args.startswith('CPU'): env['HX_CPU']=args[3:];args=''
                c,out=run([exes[pn],'--count',str(cnt),'--seed',str(SEED+7),'--secs','60','--workers','2','--no-shrink' if pn=='wj' else '-v']+args.split(),150,env=env)
                if c: res='killed';by=pn+' '+args;break
            if res=='survived':
                c,out=run(['bash',d+'/.git/test.sh',W+'/t%d.json'%k],400)
                base=json.load(open('/opt/vp/BASELINE.json'))['stable']
                try: p=set(json.load(open(W+'/t%d.json'%k))['passed'])
                except Exception: p=set()
                if any(x not in p for x in base): res='suite'
        finally: open(g,'w',encoding='latin1').write(s)
        with lock:
            stat[res]+=1;print('%4d %-8s %s %s'%(sum(stat.values()),res,desc,by),flush=True)
            if res in ('survived','suite'):
                with open('%s/%s.survivors'%(W,GROUP),'a') as q: q.write(res+' '+desc+'\n')
T=[threading.Thread(target=work,args=(k,)) for k in range(SLOTS)]
for t in T: t.start()
for t in T: t.join()
print(stat)
