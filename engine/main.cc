#include "run.h"
#include "../harness/hxcpu.h"
extern "C" int sljit_has_cpu_feature(int);enum{HAS_CLZ=3};
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <algorithm>
#include <atomic>
#include <fcntl.h>
using std::string;
static u64 strh(const string&s){u64 h=1469598103934665603ull;for(char c:s)h=(h^(u8)c)*1099511628211ull;return h;}
static double now(){timespec t;clock_gettime(CLOCK_MONOTONIC,&t);return t.tv_sec+t.tv_nsec*1e-9;}
struct Viol{u64 idx;int kind;char msg[500];};
struct Shared{std::atomic<u64> next;std::atomic<int> nv;Viol v[64];std::atomic<u64> distinct,nontrivial;std::atomic<int> stop;RunStats st[64];u64 cur[64];char curmsg[64][64];std::atomic<u64> seen[1<<21];};
static Shared*S;
static void addViol(u64 idx,int kind,const string&m){int k=S->nv++;if(k<64){S->v[k].idx=idx;S->v[k].kind=kind;snprintf(S->v[k].msg,sizeof S->v[k].msg,"%s",m.c_str());}}
static bool firstSeen(u64 h){if(!h)h=1;u64 i=h%(1<<21);for(int k=0;k<16;k++,i=(i+1)%(1<<21)){u64 e=0;if(S->seen[i].compare_exchange_strong(e,h))return true;if(e==h)return false;}return false;}
static void makeCase(const string&prof,u64 seed,u64 idx,Case&c){
  Rng r(seed*1000003ull+strh(prof)+idx*0x9E3779B97F4A7C15ull);c.seed=r.next();c.profile=prof;
  bool done=false;genSpecial(prof,r,idx,c,done);
  if(!done){Prof p=profileFor(prof,r);genCase(r,p,c);}
}
static void limits(int cpu){struct rlimit l;l.rlim_cur=cpu;l.rlim_max=cpu+5;setrlimit(RLIMIT_CPU,&l);l.rlim_cur=l.rlim_max=0;setrlimit(RLIMIT_CORE,&l);}
static void perCaseTimer(int s){itimerval t;memset(&t,0,sizeof t);t.it_value.tv_sec=s;setitimer(ITIMER_PROF,&t,nullptr);}
static void worker(int w,const string&prof,u64 seed,u64 count,double deadline){
  limits(3600);
  for(;;){
    if(S->stop||now()>deadline)break;
    u64 base=S->next.fetch_add(8);if(base>=count)break;
    for(u64 i=base;i<base+8&&i<count;i++){
      S->cur[w]=i+1;Case c;makeCase(prof,seed,i,c);
      u64 a0=S->st[w].actions,s0=S->st[w].steps;
      perCaseTimer(20);
      string v=runCase(c,S->st[w]);
      perCaseTimer(0);
      if(v.empty()&&S->st[w].actions>a0&&S->st[w].steps-s0>=3){S->nontrivial++;if(firstSeen(g_lastHash))S->distinct++;}
      if(!v.empty()){addViol(i,0,v);}
    }
    S->cur[w]=0;
  }
  _exit(0);
}
// run a single case in a child; returns "" / message
static string isolated(Case&c,int cpu=10){
  int fd[2];if(pipe(fd))return "";
  pid_t p=fork();
  if(!p){close(fd[0]);limits(cpu);dup2(open("/dev/null",1),2);RunStats*st=new RunStats();memset(st,0,sizeof *st);string v=runCase(c,*st);if(write(fd[1],v.data(),v.size())<0){}_exit(v.empty()?0:1);}
  close(fd[1]);string m;char b[600];ssize_t n;while((n=read(fd[0],b,sizeof b))>0)m.append(b,n);close(fd[0]);
  int s;waitpid(p,&s,0);
  if(WIFSIGNALED(s))return string("process died: ")+strsignal(WTERMSIG(s));
  if(WEXITSTATUS(s)==0)return "";
  if(m.empty())return "process exited with status "+std::to_string(WEXITSTATUS(s));
  return m;
}
static int isoKind(const string&m){ if(m.empty())return 0;if(m.compare(0,6,"proces")==0)return 2;if(m.find("failed to load")!=string::npos)return 3;return 1;}
static bool validCase(Case&c){for(auto&m:c.mods){int mx;if(!validate(m,&mx).empty()||mx>28)return false;}return true;}
static void shrink(Case&c,double secs){
  double end=now()+secs;string base=isolated(c);int kind=isoKind(base);if(!kind)return;
  auto fails=[&](Case&t){if(!validCase(t))return false;return isoKind(isolated(t,4))==kind;};
  bool prog=true;
  while(prog&&now()<end){
    prog=false;
    for(size_t i=0;i<c.acts.size()&&c.acts.size()>1&&now()<end;){Case t=c;t.acts.erase(t.acts.begin()+i);if(fails(t)){c=t;prog=true;}else i++;}
    for(size_t k=0;k<c.mods.size();k++){
      for(size_t f=0;f<c.mods[k].funcs.size()&&now()<end;f++){
        { // trivial body
          Case t=c;auto&fn=t.mods[k].funcs[f];if(fn.body.size()>fn.locals.size()+8||fn.body.size()>6){fn.body.clear();for(VT v:t.mods[k].types[fn.type].r)fn.body.push_back(isref(v)?I(OP_REFNULL,v):I(v==I32?OP_I32C:v==I64?OP_I64C:v==F32?OP_F32C:OP_F64C));if(fn.body.size()<c.mods[k].funcs[f].body.size()&&fails(t)){c=t;prog=true;continue;}}}
        for(size_t len=std::max<size_t>(1,c.mods[k].funcs[f].body.size()/2);len>=1&&now()<end;len=len>8?len/2:len-1){
          for(size_t i=0;i+len<=c.mods[k].funcs[f].body.size()&&now()<end;){
            Case t=c;auto&b=t.mods[k].funcs[f].body;b.erase(b.begin()+i,b.begin()+i+len);
            if(validCase(t)&&fails(t)){c=t;prog=true;continue;}
            // replace the range by a constant of each type
            bool done=false;
            if(len>1)for(VT v:{I32,I64,F32,F64}){Case q=c;auto&bb=q.mods[k].funcs[f].body;bb.erase(bb.begin()+i,bb.begin()+i+len);bb.insert(bb.begin()+i,I(v==I32?OP_I32C:v==I64?OP_I64C:v==F32?OP_F32C:OP_F64C,0,0,v==I32?1:0));if(validCase(q)&&fails(q)){c=q;prog=true;done=true;break;}}
            // unwrap a block: remove instruction i and its end
            if(len==1&&!done){auto&ob=c.mods[k].funcs[f].body;u16 o=ob[i].op;if(o==OP_BLOCK||o==OP_LOOP){int d=0;size_t j=i;for(;j<ob.size();j++){u16 x=ob[j].op;if(x==OP_BLOCK||x==OP_LOOP||x==OP_IF)d++;if(x==OP_END&&--d==0)break;}
              Case q=c;auto&bb=q.mods[k].funcs[f].body;bb.erase(bb.begin()+j);bb.erase(bb.begin()+i);if(validCase(q)&&fails(q)){c=q;prog=true;done=true;}}}
            if(!done)i++;
          }
        }
        // drop trailing locals
        while(c.mods[k].funcs[f].locals.size()&&now()<end){Case t=c;t.mods[k].funcs[f].locals.pop_back();if(fails(t)){c=t;}else break;}
      }
      auto tryv=[&](std::function<size_t(Case&)> n,std::function<void(Case&,size_t)> del){for(size_t i=n(c);i-->0&&now()<end;){Case t=c;del(t,i);if(fails(t)){c=t;prog=true;}}};
      tryv([&](Case&x){return x.mods[k].datas.size();},[&](Case&x,size_t i){x.mods[k].datas.erase(x.mods[k].datas.begin()+i);x.mods[k].datacount=false;});
      tryv([&](Case&x){return x.mods[k].elems.size();},[&](Case&x,size_t i){x.mods[k].elems.erase(x.mods[k].elems.begin()+i);});
      tryv([&](Case&x){return x.mods[k].customs.size();},[&](Case&x,size_t i){x.mods[k].customs.erase(x.mods[k].customs.begin()+i);});
    }
    if(c.pad){Case t=c;t.pad=0;if(fails(t)){c=t;}}
    if(c.stack_flags){Case t=c;t.stack_flags=0;if(fails(t)){c=t;}}
    if(c.loadmode!=0){Case t=c;t.loadmode=0;if(fails(t)){c=t;}}
  }
}
static string dumpCase(const Case&c){string o;char b[200];for(size_t k=0;k<c.mods.size();k++){o+="module "+c.names[k]+"\n"+dumpModule(c.mods[k]);}
  snprintf(b,200,"stack_flags=%d misc_flags=%d pad=%d loadmode=%d\n",c.stack_flags,c.misc_flags,c.pad,c.loadmode);o+=b;
  for(auto&a:c.acts){snprintf(b,200,"action kind %d inst %d func %u obj %u addr %llu args:",a.kind,a.inst,a.func,a.obj,(unsigned long long)a.addr);o+=b;for(u64 x:a.args){snprintf(b,200," 0x%llx",(unsigned long long)x);o+=b;}o+="\n";}return o;}
static string jesc(const string&s){string o;for(unsigned char ch:s){if(ch=='"'||ch=='\\'){o+='\\';o+=ch;}else if(ch=='\n')o+="\\n";else if(ch<32||ch>126){char b[8];snprintf(b,8,"\\u%04x",ch);o+=b;}else o+=ch;}return o;}
int main(int argc,char**argv){
  string prof="generic",outjson,repdir="/tmp";u64 seed=1,count=10000;int workers=8;double secs=60;bool doShrink=true;long replay=-1;int maxreport=3;bool dumpwasm=false;string tag="wj";
  for(int i=1;i<argc;i++){string a=argv[i];auto nx=[&]{return string(argv[++i]);};
    if(a=="--profile")prof=nx();else if(a=="--seed")seed=strtoull(nx().c_str(),0,0);else if(a=="--count")count=strtoull(nx().c_str(),0,0);else if(a=="--workers")workers=atoi(nx().c_str());else if(a=="--secs")secs=atof(nx().c_str());
    else if(a=="--json")outjson=nx();else if(a=="--replays")repdir=nx();else if(a=="--replay")replay=atol(nx().c_str());else if(a=="--no-shrink")doShrink=false;else if(a=="--max")maxreport=atoi(nx().c_str());else if(a=="--dump-wasm")dumpwasm=true;else if(a=="--tag")tag=nx();}
  bool masked=hxcpu::run([]{sljit_has_cpu_feature(HAS_CLZ);});
  S=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  if(replay>=0){Case c;makeCase(prof,seed,replay,c);
    if(dumpwasm){Rng er(c.seed^0xabcdef);for(size_t k=0;k<c.mods.size();k++){auto b=encode(c.mods[k],c.pad,&er);string fn=repdir+"/case-"+std::to_string(replay)+"-"+std::to_string(k)+".wasm";FILE*f=fopen(fn.c_str(),"wb");fwrite(b.data(),1,b.size(),f);fclose(f);}return 0;}
    if(doShrink)shrink(c,30);printf("%s",dumpCase(c).c_str());fflush(stdout);string v=isolated(c);printf("RESULT: %s\n",v.empty()?"ok":v.c_str());
    if(getenv("INPROC")){RunStats st;memset(&st,0,sizeof st);string q=runCase(c,st,true);printf("inproc: %s\n",q.c_str());}
    return v.empty()?0:1;}
  double t0=now(),deadline=t0+secs;
  vector<pid_t> pids(workers);vector<int> crashes;
  auto spawn=[&](int w){fflush(stdout);pid_t p=fork();if(!p){setpgid(0,0);worker(w,prof,seed,count,deadline);}pids[w]=p;};
  for(int w=0;w<workers;w++)spawn(w);
  int alive=workers,ncrash=0;
  while(alive){int s;pid_t p=waitpid(-1,&s,0);if(p<=0)break;int w=-1;for(int i=0;i<workers;i++)if(pids[i]==p)w=i;if(w<0)continue;
    if(WIFEXITED(s)&&WEXITSTATUS(s)==0){alive--;continue;}
    u64 cur=S->cur[w];string m=WIFSIGNALED(s)?string("process died: ")+strsignal(WTERMSIG(s)):"process exited with status "+std::to_string(WEXITSTATUS(s));
    if(cur)addViol(cur-1,2,m);ncrash++;
    // the remainder of this worker's batch is lost (at most 7 cases)
    if(now()<deadline&&ncrash<40)spawn(w);else alive--;
    if(S->nv>=60)S->stop=1;}
  RunStats T;memset(&T,0,sizeof T);for(int w=0;w<64;w++){u64*a=(u64*)&T,*b=(u64*)&S->st[w];for(size_t i=0;i<sizeof(RunStats)/8;i++)a[i]+=b[i];}
  int nops=0;for(int i=0;i<0x200;i++)if(T.opc[i])nops++;
  int nv=std::min<int>(S->nv,64),reported=0;std::sort(S->v,S->v+nv,[](const Viol&a,const Viol&b){return a.idx<b.idx;});
  vector<string> vj;
  for(int i=0;i<nv&&reported<maxreport;i++){Case c;makeCase(prof,seed,S->v[i].idx,c);string v=isolated(c,20);
    if(v.empty()){ // only in sequence with earlier cases: keep as is
      v=string(S->v[i].msg)+" (only in sequence)";}
    Case sc=c;if(doShrink)shrink(sc,12);
    string fn=repdir+"/"+tag+"."+prof+"-"+std::to_string(seed)+"-"+std::to_string(S->v[i].idx)+".txt";FILE*f=fopen(fn.c_str(),"w");if(f){fprintf(f,"replay: --profile %s --seed %llu --replay %llu\n%s\nshrunk case:\n%s",prof.c_str(),(unsigned long long)seed,(unsigned long long)S->v[i].idx,v.c_str(),dumpCase(sc).c_str());fprintf(f,"shrunk result: %s\n",isolated(sc).c_str());fclose(f);}
    printf("FOUND idx=%llu %s replay=%s\n",(unsigned long long)S->v[i].idx,v.c_str(),fn.c_str());reported++;
    vj.push_back("{\"key\":\""+prof+":"+std::to_string(seed)+":"+std::to_string(S->v[i].idx)+"\",\"msg\":\""+jesc(v)+"\",\"replay\":\""+jesc(fn)+"\"}");}
  double wall=now()-t0;
  string j="{";char b[400];
  snprintf(b,400,"\"profile\":\"%s\",\"seed\":%llu,\"cases\":%llu,\"distinct_nontrivial\":%llu,\"nontrivial\":%llu,\"actions_compared\":%llu,\"actions_skipped\":%llu,\"modules_loaded\":%llu,\"instructions_in_model\":%llu,",prof.c_str(),(unsigned long long)seed,(unsigned long long)T.cases,(unsigned long long)S->distinct.load(),(unsigned long long)S->nontrivial.load(),(unsigned long long)T.actions,(unsigned long long)T.skipped,(unsigned long long)T.loads_ok,(unsigned long long)T.steps);j+=b;
  snprintf(b,400,"\"host_calls_matched\":%llu,\"results_matched\":%llu,\"memory_bytes_compared\":%llu,\"table_entries_compared\":%llu,\"globals_compared\":%llu,\"branches\":%llu,\"calls\":%llu,\"tail_calls\":%llu,\"grows\":%llu,\"loads\":%llu,\"stores\":%llu,\"bulk_ops\":%llu,\"table_ops\":%llu,",(unsigned long long)T.hostcalls,(unsigned long long)T.resvals,(unsigned long long)T.membytes,(unsigned long long)T.tabents,(unsigned long long)T.globs,(unsigned long long)T.branches,(unsigned long long)T.calls,(unsigned long long)T.tailcalls,(unsigned long long)T.grows,(unsigned long long)T.loads,(unsigned long long)T.stores,(unsigned long long)T.bulk,(unsigned long long)T.tableops);j+=b;
  snprintf(b,400,"\"distinct_opcodes_executed\":%d,\"canary_bytes_checked\":%llu,\"discarded\":%llu,\"crashed_workers\":%d,\"wall_s\":%.2f,\"processor_features_hidden\":%d,\"violations\":%d,",nops,(unsigned long long)T.canary,(unsigned long long)T.discarded,ncrash,wall,(int)masked,nv);j+=b;
  j+="\"violations_list\":[";for(size_t i=0;i<vj.size();i++)j+=(i?",":"")+vj[i];j+="],\"samples\":[";
  {for(u64 k=0;k<2;k++){Case c;makeCase(prof,seed,k*7,c);string d=dumpCase(c);if(d.size()>1500)d=d.substr(0,1500)+"...";j+=(k?",":"")+string("\"")+jesc(d)+"\"";}}
  j+="]}";
  if(!outjson.empty()){FILE*f=fopen(outjson.c_str(),"w");fprintf(f,"%s\n",j.c_str());fclose(f);}else printf("%s\n",j.substr(0,j.find("\"samples\"")).c_str());
  return nv?1:0;
}
