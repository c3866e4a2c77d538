# report whether the uncommitted change in /repo touches lines of the base commit
import subprocess,re
d=subprocess.check_output(['git','-C',__import__('os').environ.get('SEED_REPO','/repo'),'diff','-U0'],text=True)
f=None;tot=0;base=0
for l in d.split('\n'):
    if l.startswith('--- a/'): f=l[6:]
    m=re.match(r'@@ -(\d+)(?:,(\d+))? \+',l)
    if m:
        n=int(m.group(2) or 1)
        for i in range(n):
            o=subprocess.check_output(['git','-C',__import__('os').environ.get('SEED_REPO','/repo'),'blame','-s','-L%d,%d'%(int(m.group(1))+i,)*1 if False else '-L%d,%d'%(int(m.group(1))+i,int(m.group(1))+i),'HEAD','--',f],text=True)
            tot+=1; base+=o.startswith('^')
print('changed old lines',tot,'of base',base)
