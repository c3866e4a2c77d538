// Workload runner shared by the API harnesses: forked workers, counters in shared memory, sanitizer logs, replays, JSON.
// A harness defines: const char*HX_NAME; string runOne(u64 seed,u64 idx); void hxInit(); and includes this header once.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <atomic>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <ftw.h>
#ifndef HX_TYPES
typedef uint8_t u8;typedef uint16_t u16;typedef uint32_t u32;typedef uint64_t u64;typedef int32_t s32;typedef int64_t s64;
struct Rng{u64 s;explicit Rng(u64 x=1){s=x*0x9E3779B97F4A7C15ull+0x1234567;next();next();}
  u64 next(){u64 z=(s+=0x9E3779B97F4A7C15ull);z=(z^(z>>30))*0xBF58476D1CE4E5B9ull;z=(z^(z>>27))*0x94D049BB133111EBull;return z^(z>>31);}
  u32 below(u32 n){return n?(u32)((next()>>11)%n):0;}
  bool chance(int pct){return (int)below(100)<pct;}
  int range(int a,int b){return a+(int)below(b-a+1);}
  template<class T>const T&pick(const std::vector<T>&v){return v[below((u32)v.size())];}};
#endif
using std::string;using std::vector;
static inline string sfmt(const char*f,...){char b[2048];va_list a;va_start(a,f);vsnprintf(b,sizeof b,f,a);va_end(a);return b;}
extern string runOne(u64 seed,u64 idx);
extern void hxInit();
namespace hx{
struct Counter;
static inline vector<Counter*>&all(){static vector<Counter*> v;return v;}
struct Shared{std::atomic<u64> next;std::atomic<int> nv,stop;std::atomic<u64> distinct,nontrivial,evals;u64 cur[16];
  struct{u64 idx;char key[80];char msg[3000];}v[64];
  std::atomic<u64> cnt[16][96];std::atomic<u64> seen[1<<20];char note[16][32768];u32 noteLen[16];double started[16];};
static Shared*S;static int W=0;static bool verbose=false;
struct Counter{const char*name;int id;explicit Counter(const char*n):name(n){id=(int)all().size();all().push_back(this);if(id>=96)abort();}
  void add(u64 n=1){if(S)S->cnt[W][id].fetch_add(n,std::memory_order_relaxed);}
  void operator++(int){add(1);}
  void operator+=(u64 n){add(n);}};
static inline u64 mix(u64 a,u64 b){if(a>1&&a<1000000)a=(a*0x9E3779B97F4A7C15ull)>>3; // seeds must not give the same cases shifted
  a^=b+0x9E3779B97F4A7C15ull+(a<<6)+(a>>2);a^=a>>33;a*=0xff51afd7ed558ccdull;a^=a>>29;return a;}
static inline u64 hashBytes(const void*p,size_t n,u64 h=1469598103934665603ull){for(size_t i=0;i<n;i++)h=(h^((const u8*)p)[i])*1099511628211ull;return h;}
static inline bool firstSeen(u64 h){if(!h)h=1;u64 i=h%(1<<20);for(int k=0;k<32;k++,i=(i+1)%(1<<20)){u64 e=0;if(S->seen[i].compare_exchange_strong(e,h))return true;if(e==h)return false;}return false;}
// the case in progress did something worth counting; h identifies its content
static inline void nontrivial(u64 h){S->nontrivial++;if(firstSeen(h))S->distinct++;}
static inline void evaluated(u64 n=1){S->evals+=n;}
// a line of the description of the running case (kept in shared memory, so it survives a crash)
static inline void note(const char*f,...){va_list a;va_start(a,f);u32&n=S->noteLen[W];if(n<sizeof S->note[W]-600){int k=vsnprintf(S->note[W]+n,500,f,a);if(k>499)k=499;n+=k;S->note[W][n++]='\n';S->note[W][n]=0;}va_end(a);}
static string vkey; // key of the violation (for known-findings.txt); default HX_NAME:seed:idx
static double now(){timespec t;clock_gettime(CLOCK_MONOTONIC,&t);return t.tv_sec+t.tv_nsec*1e-9;}
static void noteReset(){S->noteLen[W]=0;S->note[W][0]=0;}
static int caseCpu=20,caseWall=60,batch=8;static bool forkEach=false;
static string logPath(int w,const string&tag){return "/tmp/hx-"+tag+"-"+std::to_string(getppid())+"-"+std::to_string(w);}
static string tag="hx";static string logf_[17];
static string readTail(const string&p){string o;FILE*f=fopen(p.c_str(),"rb");if(!f)return o;fseek(f,0,SEEK_END);long n=ftell(f);long st=n>200000?n-200000:0;fseek(f,st,SEEK_SET);o.resize(n-st);size_t g=fread(&o[0],1,o.size(),f);o.resize(g);fclose(f);return o;}
static string summarize(const string&log){
  const char*keys[]={"SUMMARY:","runtime error:","ERROR: AddressSanitizer","WARNING: ThreadSanitizer","assert fail","Assertion"};
  string o;for(const char*k:keys){size_t p=log.find(k);if(p!=string::npos){size_t b=log.rfind('\n',p);b=b==string::npos?0:b+1;size_t e=log.find('\n',p);o+=log.substr(b,(e==string::npos?log.size():e)-b)+"; ";}}
  // first frames
  size_t p=log.find("    #0 ");if(p!=string::npos){size_t e=p;for(int i=0;i<4&&e!=string::npos;i++)e=log.find('\n',e+1);o+=log.substr(p,(e==string::npos?log.size():e)-p);}
  if(o.size()>1500)o.resize(1500);return o;}
static string statusStr(int s){return WIFSIGNALED(s)?sfmt("process died: %s",strsignal(WTERMSIG(s))):sfmt("process exited with status %d",WEXITSTATUS(s));}
static void limits(int cpu){struct rlimit l;l.rlim_cur=cpu;l.rlim_max=cpu+5;setrlimit(RLIMIT_CPU,&l);l.rlim_cur=l.rlim_max=0;setrlimit(RLIMIT_CORE,&l);}
static void timer(int cpu,int wall){itimerval t;memset(&t,0,sizeof t);t.it_value.tv_sec=cpu;setitimer(ITIMER_PROF,&t,nullptr);t.it_value.tv_sec=wall;setitimer(ITIMER_REAL,&t,nullptr);}
static void redir(const string&p){int fd=open(p.c_str(),O_CREAT|O_TRUNC|O_WRONLY|O_APPEND,0600);if(fd>=0){dup2(fd,2);dup2(fd,1);close(fd);}int z=open("/dev/null",0);dup2(z,0);close(z);}
static void addViol(u64 idx,const string&m,const string&key){int k=S->nv++;if(k<64){S->v[k].idx=idx;snprintf(S->v[k].msg,sizeof S->v[k].msg,"%s",m.c_str());snprintf(S->v[k].key,sizeof S->v[k].key,"%s",key.c_str());}}
// one case in a child of its own
static string isolated(u64 seed,u64 idx,string*desc,string*key){
  int w=15;int fd[2];if(pipe(fd))return "";fflush(stdout);
  string lf=logf_[16];S->noteLen[w]=0;S->note[w][0]=0;
  pid_t p=fork();
  if(!p){setpgid(0,0);W=w;close(fd[0]);limits(600);redir(lf);timer(caseCpu*3,caseWall*3);hxInit();string v=runOne(seed,idx);string o=vkey+"\x01"+v;if(write(fd[1],o.data(),o.size())<0){}if(v.empty())exit(0);_exit(1);}
  close(fd[1]);string m;char b[4000];ssize_t n;while((n=read(fd[0],b,sizeof b))>0)m.append(b,n);close(fd[0]);int s;waitpid(p,&s,0);kill(-p,SIGKILL);
  if(desc)*desc=S->note[w];
  string log=readTail(lf);
  size_t q=m.find('\x01');if(q!=string::npos){if(key)*key=m.substr(0,q);m=m.substr(q+1);}
  if(WIFEXITED(s)&&WEXITSTATUS(s)==0)return m;
  if(m.empty()||!(WIFEXITED(s)&&WEXITSTATUS(s)==1)){m=statusStr(s)+" "+summarize(log);}
  if(desc)*desc+="\n--- log ---\n"+log;
  return m;}
static void worker(int w,u64 seed,u64 count,double deadline){
  W=w;redir(logf_[w]);limits(7200);hxInit();
  for(;;){if(S->stop||now()>deadline)break;u64 base=S->next.fetch_add(batch);if(base>=count)break;
    for(u64 i=base;i<base+batch&&i<count;i++){S->cur[w]=i+1;noteReset();vkey.clear();timer(caseCpu,caseWall);
      string v=runOne(seed,i);timer(0,0);S->evals++;
      if(!v.empty()){addViol(i,v,vkey);if(S->nv>=20)S->stop=1;}}
    S->cur[w]=0;}
  S->cur[w]=0;exit(0);} // exit runs sanitizer end-of-process hooks
static string jesc(const string&s){string o;for(unsigned char ch:s){if(ch=='"'||ch=='\\'){o+='\\';o+=ch;}else if(ch=='\n')o+="\\n";else if(ch<32||ch>126){char b[8];snprintf(b,8,"\\u%04x",ch);o+=b;}else o+=ch;}return o;}
// a directory for the files of the cases, removed when the run ends
static string scratch;
static int rmOne(const char*p,const struct stat*,int,struct FTW*){remove(p);return 0;}
static void mkScratch(){char t[]="/tmp/hx-scratch-XXXXXX";if(!mkdtemp(t))abort();scratch=t;}
static void rmScratch(){if(scratch.compare(0,16,"/tmp/hx-scratch-")==0)nftw(scratch.c_str(),rmOne,16,FTW_DEPTH|FTW_PHYS);}
static int run(const char*name,int argc,char**argv,int defWorkers=8){
  string outjson,repdir="/tmp";u64 seed=1,count=1000;int workers=defWorkers;double secs=60;long replay=-1;tag=name;
  for(int i=1;i<argc;i++){string a=argv[i];auto nx=[&]{return string(argv[++i]);};
    if(a=="--seed")seed=strtoull(nx().c_str(),0,0);else if(a=="--count")count=strtoull(nx().c_str(),0,0);else if(a=="--workers")workers=atoi(nx().c_str());else if(a=="--secs")secs=atof(nx().c_str());
    else if(a=="--json")outjson=nx();else if(a=="--replays")repdir=nx();else if(a=="--replay")replay=atol(nx().c_str());else if(a=="--tag")tag=nx();else if(a=="-v")verbose=true;}
  if(workers>14)workers=14;
  S=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  mkScratch();
  for(int i=0;i<17;i++)logf_[i]=sfmt("/tmp/hx-%s-%d-%d.log",tag.c_str(),(int)getpid(),i);
  if(replay>=0){string d,k;
    if(getenv("INPROC")){W=0;hxInit();string v=runOne(seed,replay);printf("%sRESULT: %s\n",S->note[0],v.empty()?"ok":v.c_str());rmScratch();return v.empty()?0:1;}
    string v=isolated(seed,replay,&d,&k);printf("%s\nRESULT: %s %s\n",d.c_str(),v.empty()?"ok":v.c_str(),k.c_str());unlink(logf_[16].c_str());rmScratch();return v.empty()?0:1;}
  double t0=now(),deadline=t0+secs;vector<pid_t> pids(workers);
  auto spawn=[&](int w){fflush(stdout);pid_t p=fork();if(!p){setpgid(0,0);worker(w,seed,count,deadline);}pids[w]=p;};
  for(int w=0;w<workers;w++)spawn(w);
  int alive=workers,ncrash=0;
  while(alive){int s;pid_t p=waitpid(-1,&s,0);if(p<=0)break;int w=-1;for(int i=0;i<workers;i++)if(pids[i]==p)w=i;if(w<0)continue;
    kill(-p,SIGKILL);
    if(WIFEXITED(s)&&WEXITSTATUS(s)==0){alive--;continue;}
    u64 cur=S->cur[w];string log=readTail(logf_[w]);string m=statusStr(s)+" "+summarize(log);
    addViol(cur?cur-1:0,m,"");ncrash++;S->cur[w]=0;
    if(now()<deadline&&ncrash<8)spawn(w);else alive--;
    if(S->nv>=20)S->stop=1;}
  int nv=std::min<int>(S->nv,64);vector<string> vj;int reported=0;
  for(int i=0;i<nv&&reported<3;i++){string d,k;string v=isolated(seed,S->v[i].idx,&d,&k);
    if(v.empty()){v=string(S->v[i].msg)+" (not on its own: only after earlier cases or under another schedule)";k=S->v[i].key;}
    if(k.empty())k=sfmt("%s:%llu:%llu",name,(unsigned long long)seed,(unsigned long long)S->v[i].idx);
    string fn=repdir+"/"+tag+"."+name+"-"+std::to_string(seed)+"-"+std::to_string(S->v[i].idx)+".txt";FILE*f=fopen(fn.c_str(),"w");
    if(f){fprintf(f,"replay: --seed %llu --replay %llu\n%s\n\ncase:\n%s\n",(unsigned long long)seed,(unsigned long long)S->v[i].idx,v.c_str(),d.c_str());fclose(f);}
    printf("FOUND idx=%llu %s replay=%s\n",(unsigned long long)S->v[i].idx,v.c_str(),fn.c_str());reported++;
    vj.push_back("{\"key\":\""+jesc(k)+"\",\"msg\":\""+jesc(v)+"\",\"replay\":\""+jesc(fn)+"\"}");}
  string samples;{int ns=0;for(u64 i:{(u64)0,(u64)(count>11?11:count-1)}){if(nv)break;string d;isolated(seed,i,&d,nullptr);if(d.size()>1500)d=d.substr(0,1500)+"...";if(!d.empty())samples+=(ns++?",":"")+string("\"")+jesc(d)+"\"";}}
  string j="{";j+=sfmt("\"program\":\"%s\",\"seed\":%llu,\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"nontrivial\":%llu,\"crashed_workers\":%d,\"wall_s\":%.2f,\"violations\":%d,",name,(unsigned long long)seed,(unsigned long long)S->evals.load(),(unsigned long long)S->distinct.load(),(unsigned long long)S->nontrivial.load(),ncrash,now()-t0,nv);
  for(auto*c:all()){u64 t=0;for(int w=0;w<15;w++)t+=S->cnt[w][c->id];j+=sfmt("\"%s\":%llu,",c->name,(unsigned long long)t);}
  j+="\"violations_list\":[";for(size_t i=0;i<vj.size();i++)j+=(i?",":"")+vj[i];j+="],\"samples\":["+samples+"]}";
  for(int i=0;i<17;i++)unlink(logf_[i].c_str());
  rmScratch();
  if(!outjson.empty()){FILE*f=fopen(outjson.c_str(),"w");fprintf(f,"%s\n",j.c_str());fclose(f);}else printf("%s\n",j.substr(0,j.find("\"samples\"")).c_str());
  return nv?1:0;}
}
#define HX_MAIN(name) int main(int c,char**v){return hx::run(name,c,v);}
