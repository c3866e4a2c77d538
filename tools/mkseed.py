# mkseed.py: helper used while planting bugs: writes seeded/ID from a python description
import sys,os,json,subprocess
DEMO='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%(wat)sgcc -w -O1 -I$R/include -I$R/sljit/sljit_src %(cf)s $D/prog.c %(libs)s -o $T/prog -lm -lpthread -ldl %(ld)s || exit 3
cd $T && timeout %(tmo)d ./prog
'''
def seed(id,prop,edits,needs,breaks,prog,wat=None,cf='',libs='$R/_build/cmake/libpwart.a',ld='',tmo=60,demo=None):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    r=os.environ.get('SEED_REPO','/repo')
    assert not subprocess.check_output(['git','-C',r,'status','--porcelain'])
    try:
        for f,a,b in edits:
            p=r+'/'+f; s=open(p,errors='surrogateescape').read()
            assert s.count(a)==1,(f,a,s.count(a))
            open(p,'w',errors='surrogateescape').write(s.replace(a,b))
        diff=subprocess.check_output(['git','-C',r,'diff'])
        subprocess.call(['python3','/verif/tools/seedblame.py'])
    finally:
        subprocess.check_call(['git','-C',r,'checkout','-q','--','.'])
    open(d+'/patch.diff','wb').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/prog.c','w').write(prog)
    w=''
    if wat:
        wl=wat if isinstance(wat,dict) else {'mod':wat}
        for k,v in wl.items():
            open(d+'/%s.wat'%k,'w').write(v)
            w+='wat2wasm --enable-all $D/%s.wat -o $T/%s.wasm || exit 3\n'%(k,k)
    open(d+'/demo.sh','w').write(demo or DEMO%dict(wat=w,cf=cf,libs=libs,ld=ld,tmo=tmo))
H='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <pwart.h>
static char *rd(const char *f,int *n){FILE *h=fopen(f,"rb");char *b=malloc(1<<20);*n=fread(b,1,1<<20,h);fclose(h);return b;}
static void *load(const char *f){int n;char *b=rd(f,&n);char *e=NULL;void *s=pwart_load_module(b,n,&e);if(!s){printf("load %s: %s\\n",f,e);exit(4);}return s;}
static char stk[65536] __attribute__((aligned(16)));
'''
