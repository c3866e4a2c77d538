// C22: wasm threads, mutexes and conditions through the libuv module. Monitors: an event log written inside and around critical sections,
// the arguments and results of the libuv functions themselves, stacks of deep threads, heap and thread accounting.
#include "sys.h"
#include <uv.h>
#include <dlfcn.h>
#include <dirent.h>
#include <sched.h>
#include <malloc.h>
#include <atomic>
#include <mutex>
#include <thread>
extern "C"{
#include <pwart_syslib.h>
}
#if defined(__SANITIZE_THREAD__)
#define UV_TSAN 1
#else
#define UV_TSAN 0
#endif
static hx::Counter cCall("wrapper_calls_checked"),cForced("forced_results"),cThreads("wasm_threads_run"),cSec("critical_sections"),cCont("contended_locks"),cBusy("trylock_refusals"),cWait("condition_waits"),cPut("queue_items"),cTurn("turns"),cDeep("deep_stacks"),cInter("distinct_event_orders"),cDl("library_operations"),cFail("thread_creations_refused"),cSeq("threads_created_in_sequence"),cMax("threads_alive_seen");
enum{F_VERSION,F_DLOPEN,F_DLSYM,F_DLCLOSE,F_TCREATE,F_MINIT,F_MDESTROY,F_MLOCK,F_MUNLOCK,F_MTRY,F_CINIT,F_CDESTROY,F_CSIGNAL,F_CWAIT};
// what the running wrapper call of this thread has to do
struct Expect{bool on=false;int fn=0,calls=0,na=0;void*a[2]={};bool force=false;int ret=0;void*out=nullptr;string bad;};
static thread_local Expect EX;static thread_local int tlWaits;
static std::mutex liveMx;static std::set<void*> liveM,liveC;static std::atomic<int> badCount;static char badMsg[300];
static void bad(const char*f,...){if(badCount.fetch_add(1)==0){va_list a;va_start(a,f);vsnprintf(badMsg,sizeof badMsg,f,a);va_end(a);}}
// true: the real function must not be called, *ret is the result
static bool seen(int fn,void*a,void*b,int*ret){
  if(!EX.on)return false;EX.calls++;if(EX.fn!=fn&&EX.bad.empty())EX.bad=sfmt("another libuv function is called (%d instead of %d)",fn,EX.fn);
  if(EX.na>0&&EX.a[0]!=a&&EX.bad.empty())EX.bad=sfmt("first argument of libuv function %d is %p, the wasm caller gave %p",fn,a,EX.a[0]);
  if(EX.na>1&&EX.a[1]!=b&&EX.bad.empty())EX.bad=sfmt("second argument of libuv function %d is %p, the wasm caller gave %p",fn,b,EX.a[1]);
  if(EX.force){*ret=EX.ret;return true;}return false;}
static void member(std::set<void*>&s,void*p,bool in,const char*what){if(UV_TSAN)return;std::lock_guard<std::mutex> g(liveMx);if((s.count(p)>0)!=in)bad("%s (%p)",what,p);}
static void put(std::set<void*>&s,void*p,bool in){if(UV_TSAN)return;std::lock_guard<std::mutex> g(liveMx);if(in)s.insert(p);else s.erase(p);}
extern "C"{
unsigned __real_uv_version();int __real_uv_dlopen(const char*,uv_lib_t*);int __real_uv_dlsym(uv_lib_t*,const char*,void**);void __real_uv_dlclose(uv_lib_t*);int __real_uv_thread_create(uv_thread_t*,uv_thread_cb,void*);
int __real_uv_mutex_init(uv_mutex_t*);void __real_uv_mutex_destroy(uv_mutex_t*);void __real_uv_mutex_lock(uv_mutex_t*);void __real_uv_mutex_unlock(uv_mutex_t*);int __real_uv_mutex_trylock(uv_mutex_t*);
int __real_uv_cond_init(uv_cond_t*);void __real_uv_cond_destroy(uv_cond_t*);void __real_uv_cond_signal(uv_cond_t*);void __real_uv_cond_wait(uv_cond_t*,uv_mutex_t*);
unsigned __wrap_uv_version(){int r;if(seen(F_VERSION,0,0,&r))return r;return __real_uv_version();}
int __wrap_uv_dlopen(const char*n,uv_lib_t*l){int r;if(seen(F_DLOPEN,(void*)n,0,&r)){EX.out=l;l->handle=nullptr;l->errmsg=nullptr;return r;}if(EX.on)EX.out=l;return __real_uv_dlopen(n,l);}
int __wrap_uv_dlsym(uv_lib_t*l,const char*n,void**p){int r;if(seen(F_DLSYM,l,(void*)n,&r)){*p=EX.out;return r;}r=__real_uv_dlsym(l,n,p);if(EX.on)EX.out=*p;return r;}
void __wrap_uv_dlclose(uv_lib_t*l){int r;if(seen(F_DLCLOSE,l,0,&r))return;__real_uv_dlclose(l);}
int __wrap_uv_thread_create(uv_thread_t*t,uv_thread_cb cb,void*a){int r;if(seen(F_TCREATE,0,0,&r))return r;return __real_uv_thread_create(t,cb,a);}
int __wrap_uv_mutex_init(uv_mutex_t*m){int r;if(seen(F_MINIT,0,0,&r))return r;if(EX.on)EX.out=m;member(liveM,m,false,"a mutex is initialised twice");put(liveM,m,true);return __real_uv_mutex_init(m);}
void __wrap_uv_mutex_destroy(uv_mutex_t*m){int r;if(seen(F_MDESTROY,m,0,&r))return;member(liveM,m,true,"what is destroyed is no mutex");put(liveM,m,false);__real_uv_mutex_destroy(m);}
void __wrap_uv_mutex_lock(uv_mutex_t*m){int r;if(seen(F_MLOCK,m,0,&r))return;member(liveM,m,true,"what is locked is no mutex");__real_uv_mutex_lock(m);}
void __wrap_uv_mutex_unlock(uv_mutex_t*m){int r;if(seen(F_MUNLOCK,m,0,&r))return;member(liveM,m,true,"what is unlocked is no mutex");__real_uv_mutex_unlock(m);}
int __wrap_uv_mutex_trylock(uv_mutex_t*m){int r;if(seen(F_MTRY,m,0,&r))return r;member(liveM,m,true,"what is tried is no mutex");return __real_uv_mutex_trylock(m);}
int __wrap_uv_cond_init(uv_cond_t*c){int r;if(seen(F_CINIT,0,0,&r))return r;if(EX.on)EX.out=c;member(liveC,c,false,"a condition is initialised twice");put(liveC,c,true);return __real_uv_cond_init(c);}
void __wrap_uv_cond_destroy(uv_cond_t*c){int r;if(seen(F_CDESTROY,c,0,&r))return;member(liveC,c,true,"what is destroyed is no condition");put(liveC,c,false);__real_uv_cond_destroy(c);}
void __wrap_uv_cond_signal(uv_cond_t*c){int r;if(seen(F_CSIGNAL,c,0,&r))return;member(liveC,c,true,"what is signalled is no condition");__real_uv_cond_signal(c);}
void __wrap_uv_cond_wait(uv_cond_t*c,uv_mutex_t*m){int r;tlWaits++;if(seen(F_CWAIT,c,m,&r))return;member(liveC,c,true,"what is waited for is no condition");member(liveM,m,true,"what is released while waiting is no mutex");__real_uv_cond_wait(c,m);}
}
static const VT R=EXTERNREF;
static vector<HF> uvFns(){VT E=EXTERNREF;return {{"uv_version",{{},{I32}}},{"uv_dlopen",{{E},{E,I32}}},{"uv_dlsym",{{E,E},{E,I32}}},{"uv_dlclose",{{E},{}}},{"uv_thread_create",{{FUNCREF,I64},{E}}},
  {"uv_mutex_init",{{},{E}}},{"uv_mutex_destroy",{{E},{}}},{"uv_mutex_lock",{{E},{}}},{"uv_mutex_unlock",{{E},{}}},{"uv_mutex_trylock",{{E},{I32}}},
  {"uv_cond_init",{{},{E}}},{"uv_cond_destroy",{{E},{}}},{"uv_cond_signal",{{E},{}}},{"uv_cond_wait",{{E,E},{}}}};}
// ---- threads
enum{K_START,K_TRY,K_ENTER,K_MID,K_LEAVE,K_WAIT,K_WOKE,K_PUT,K_GET,K_TURN,K_DEEP,K_BUSY,K_END};
struct Cfg{u64 arg;int kind;int lock;void*m,*c1,*c2;pwart_wasm_function e;u32 n,role;u64 child;int starts,ends;u64 delays;};
static Cfg CF[64];static int nCF;
struct LockMon{std::atomic<int> owner;int plain;/* only touched by the holder */};
static LockMon LM[8];
static vector<u32> putLog,getLog,turnLog;  // touched by lock holders only
static std::atomic<int> ended,alive,maxAlive;static std::atomic<u32> ticket;static u8 order[1<<16];static bool delays;
static Cfg*find(u64 a){int i=(int)(a&63);if(i>=nCF||CF[i].arg!=a){bad("a thread runs with the argument %llx, which no thread was given",(unsigned long long)a);return nullptr;}return &CF[i];}
static thread_local u64 tlRng;
static void jitter(){if(!delays)return;tlRng=tlRng*6364136223846793005ull+1442695040888963407ull;u32 k=(u32)(tlRng>>40)%100;if(k<25)sched_yield();else if(k<29)usleep((u32)(tlRng>>50)%60);}
static std::atomic<u64> nCont,nBusy,nWait,nSec;
static void hostEv(void*fp){
  void*sp=fp;u32 kind=pwart_rstack_get_i32(&sp);u64 arg=pwart_rstack_get_i64(&sp);u32 v=pwart_rstack_get_i32(&sp);Cfg*c=find(arg);if(!c)return;int id=(int)(arg&63);LockMon&L=LM[c->lock];
  u32 t=ticket.fetch_add(1,std::memory_order_relaxed);if(t<sizeof order)order[t]=(u8)((id&15)*16+kind);
  switch(kind){
    case K_START:{tlRng=arg|1;c->starts++;int a=alive.fetch_add(1,std::memory_order_relaxed)+1,m=maxAlive.load(std::memory_order_relaxed);while(a>m&&!maxAlive.compare_exchange_weak(m,a,std::memory_order_relaxed));break;}
    case K_TRY:if(L.owner.load(std::memory_order_relaxed))nCont.fetch_add(1,std::memory_order_relaxed);break;
    case K_ENTER:case K_WOKE:{int o=L.owner.exchange(id+1,std::memory_order_relaxed);if(o)bad("thread %d %s while thread %d is inside the critical section",id,kind==K_ENTER?"entered":"woke up",o-1);L.plain++;nSec.fetch_add(1,std::memory_order_relaxed);
      if(kind==K_WOKE&&tlWaits!=1)bad("one wait of the wasm program made %d waits",tlWaits);break;}
    case K_LEAVE:case K_WAIT:{tlWaits=0;L.plain--;int o=L.owner.exchange(0,std::memory_order_relaxed);if(o!=id+1)bad("thread %d leaves, but thread %d was inside",id,o-1);if(kind==K_WAIT)nWait.fetch_add(1,std::memory_order_relaxed);return;}
    case K_PUT:putLog.push_back(v);break;case K_GET:getLog.push_back(v);break;case K_TURN:turnLog.push_back(v);break;
    case K_BUSY:nBusy.fetch_add(1,std::memory_order_relaxed);if((int)v!=UV_EBUSY)bad("trylock of a held mutex gave %d",(int)v);sched_yield();break;
    case K_END:if(v)bad("%u values on the stack of a deep thread changed",v);c->ends++;alive.fetch_sub(1,std::memory_order_relaxed);ended.fetch_add(1,std::memory_order_release);return;}
  if(kind!=K_ENTER||(id&1))jitter();
  if(kind==K_DEEP)sched_yield();}
static void hostCfg(void*fp){void*sp=fp;u64 arg=pwart_rstack_get_i64(&sp);Cfg*c=find(arg);Cfg z;memset(&z,0,sizeof z);if(!c)c=&z;sp=fp;
  pwart_rstack_put_ref(&sp,c->m);pwart_rstack_put_ref(&sp,c->c1);pwart_rstack_put_ref(&sp,c->c2);pwart_rstack_put_ref(&sp,(void*)c->e);pwart_rstack_put_i64(&sp,c->child);pwart_rstack_put_i32(&sp,c->n);pwart_rstack_put_i32(&sp,c->role);}
// a thread that runs a host function
static void hostThread(void*fp){void*sp=fp;u64 arg=pwart_rstack_get_i64(&sp);Cfg*c=find(arg);if(!c)return;c->starts++;memset(fp,0x5a,40000);jitter();for(int i=0;i<40000;i+=97)if(((u8*)fp)[i]!=0x5a){bad("the stack of a host thread changed");break;}c->ends++;ended.fetch_add(1,std::memory_order_release);}
static char*HN[]={(char*)"ev",(char*)"cfg"};static pwart_host_function_c HFn[]={hostEv,hostCfg};
enum{A_CNT=0,A_QN=8,A_HEAD=12,A_TAIL=16,A_CAP=20,A_TURN=24,A_NN=28,A_BUF=1024};
static Module uvModule(Thunks&th,Rng&r,int place){
  Module m;th.imports(m,"libuv",uvFns());u32 tev=m.addType({{I32,I64,I32},{}}),tcfg=m.addType({{I64},{EXTERNREF,EXTERNREF,EXTERNREF,FUNCREF,I64,I32,I32}}),tw=m.addType({{I64},{}}),trec=m.addType({{I32,I64,I64},{I32}});
  Import i;i.mod="h";i.kind=0;i.field="ev";i.type=tev;u32 ev=(u32)m.imports.size();m.imports.push_back(i);i.field="cfg";i.type=tcfg;u32 cfg=ev+1;m.imports.push_back(i);
  MemT t;t.min=1;t.hasmax=r.chance(50);t.max=1;m.mems.push_back(t);m.exports.push_back({"mem",2,0});
  auto imp=[&](const char*n){return I(OP_CALL,th.imp[n]);};
  auto EV=[&](Code&c,int k,u32 vl=~0u){c.push_back(I(OP_I32C,0,0,k));c.push_back(I(OP_LGET,0));c.push_back(vl==~0u?I(OP_I32C,0,0,0):I(OP_LGET,vl));c.push_back(I(OP_CALL,ev));};
  auto ld=[&](Code&c,u32 a){c.push_back(I(OP_I32C,0,0,0));c.push_back(I(0x28,2,0,a));};
  auto cat=[](Code&c,std::initializer_list<Ins> l){c.insert(c.end(),l.begin(),l.end());};
  enum{ARG,M,C1,C2,E_,CHILD,N,ROLE,X};vector<VT> locs={EXTERNREF,EXTERNREF,EXTERNREF,FUNCREF,I64,I32,I32,I32};
  auto prologue=[&](Code&c){cat(c,{I(OP_LGET,ARG),I(OP_CALL,cfg),I(OP_LSET,ROLE),I(OP_LSET,N),I(OP_LSET,CHILD),I(OP_LSET,E_),I(OP_LSET,C2),I(OP_LSET,C1),I(OP_LSET,M)});EV(c,K_START);
    cat(c,{I(OP_LGET,CHILD),I(0x50),I(0x45),I(OP_IF,VOID),I(OP_LGET,E_),I(OP_LGET,CHILD),imp("uv_thread_create"),I(OP_DROP),I(OP_END)});};
  auto worker=[&](const char*n,const Code&body,const vector<VT>&l){Func f;f.type=tw;f.locals=l;f.body=body;m.funcs.push_back(f);m.exports.push_back({n,0,(u32)(m.imports.size()+m.funcs.size()-1)});};
  auto next=[&](Code&c){cat(c,{I(OP_LGET,N),I(OP_I32C,0,0,1),I(0x6b),I(OP_LTEE,N),I(OP_BRIF,0),I(OP_END)});};
  // counter
  auto bump=[&](Code&c){EV(c,K_ENTER);ld(c,A_CNT);c.push_back(I(OP_LSET,X));EV(c,K_MID);cat(c,{I(OP_I32C,0,0,0),I(OP_LGET,X),I(OP_I32C,0,0,1),I(0x6a),I(0x36,2,0,A_CNT)});EV(c,K_LEAVE);};
  {Code c;prologue(c);c.push_back(I(OP_LOOP,VOID));EV(c,K_TRY);cat(c,{I(OP_LGET,M),imp("uv_mutex_lock")});bump(c);cat(c,{I(OP_LGET,M),imp("uv_mutex_unlock")});next(c);EV(c,K_END);worker("counter",c,locs);}
  {Code c;prologue(c);cat(c,{I(OP_LOOP,VOID),I(OP_BLOCK,VOID),I(OP_LOOP,VOID),I(OP_LGET,M),imp("uv_mutex_trylock"),I(OP_LTEE,X),I(0x45),I(OP_BRIF,1)});EV(c,K_BUSY,X);cat(c,{I(OP_BR,0),I(OP_END),I(OP_END)});bump(c);cat(c,{I(OP_LGET,M),imp("uv_mutex_unlock")});next(c);EV(c,K_END);worker("trier",c,locs);}
  // bounded queue
  auto waitWhile=[&](Code&c,const Code&cond,u32 cl){cat(c,{I(OP_BLOCK,VOID),I(OP_LOOP,VOID)});c.insert(c.end(),cond.begin(),cond.end());cat(c,{I(0x45),I(OP_BRIF,1)});EV(c,K_WAIT);cat(c,{I(OP_LGET,cl),I(OP_LGET,M),imp("uv_cond_wait")});EV(c,K_WOKE);cat(c,{I(OP_BR,0),I(OP_END),I(OP_END)});};
  auto queue=[&](bool prod){Code c;prologue(c);c.push_back(I(OP_LOOP,VOID));EV(c,K_TRY);cat(c,{I(OP_LGET,M),imp("uv_mutex_lock")});EV(c,K_ENTER);
    Code cond;ld(cond,A_QN);if(prod){ld(cond,A_CAP);cond.push_back(I(0x46));}else cond.push_back(I(0x45));waitWhile(c,cond,prod?C1:C2);
    u32 at=prod?A_TAIL:A_HEAD;
    auto slot=[&](){ld(c,at);cat(c,{I(OP_I32C,0,0,2),I(0x74)});};
    if(prod){slot();cat(c,{I(OP_LGET,ROLE),I(OP_I32C,0,0,16),I(0x74),I(OP_LGET,N),I(0x72),I(OP_LTEE,X),I(0x36,2,0,A_BUF)});}
    else{slot();cat(c,{I(0x28,2,0,A_BUF),I(OP_LSET,X)});}
    c.push_back(I(OP_I32C,0,0,0));ld(c,at);cat(c,{I(OP_I32C,0,0,1),I(0x6a)});ld(c,A_CAP);cat(c,{I(0x70),I(0x36,2,0,at)});
    c.push_back(I(OP_I32C,0,0,0));ld(c,A_QN);cat(c,{I(OP_I32C,0,0,prod?1:(u32)-1),I(0x6a),I(0x36,2,0,A_QN)});
    EV(c,prod?K_PUT:K_GET,X);cat(c,{I(OP_LGET,prod?C2:C1),imp("uv_cond_signal")});EV(c,K_LEAVE);cat(c,{I(OP_LGET,M),imp("uv_mutex_unlock")});next(c);EV(c,K_END);worker(prod?"producer":"consumer",c,locs);};
  queue(true);queue(false);
  // turns
  {Code c;prologue(c);c.push_back(I(OP_LOOP,VOID));EV(c,K_TRY);cat(c,{I(OP_LGET,M),imp("uv_mutex_lock")});EV(c,K_ENTER);Code cond;ld(cond,A_TURN);cond.push_back(I(OP_LGET,ROLE));cond.push_back(I(0x47));waitWhile(c,cond,C1);
    EV(c,K_TURN,ROLE);cat(c,{I(OP_I32C,0,0,0),I(OP_LGET,ROLE),I(OP_I32C,0,0,1),I(0x6a)});ld(c,A_NN);cat(c,{I(0x70),I(0x36,2,0,A_TURN),I(OP_LGET,C2),imp("uv_cond_signal")});EV(c,K_LEAVE);cat(c,{I(OP_LGET,M),imp("uv_mutex_unlock")});next(c);EV(c,K_END);worker("turns",c,locs);}
  // deep: rec(depth, v, arg)
  {u32 self=(u32)(m.imports.size()+m.funcs.size());Func f;f.type=trec;int nl=10;for(int k=0;k<nl;k++)f.locals.push_back(I64);f.locals.push_back(I32);u32 acc=3+nl;Code&c=f.body;
    auto val=[&](int k){cat(c,{I(OP_LGET,1),I(OP_I64C,0,0,2*k+1+(u64)place*64),I(0x7e),I(OP_I64C,0,0,k*0x0101010101ull),I(0x85)});};
    for(int k=0;k<nl;k++){val(k);c.push_back(I(OP_LSET,3+k));}
    cat(c,{I(OP_LGET,0),I(OP_IF,VOID),I(OP_LGET,0),I(OP_I32C,0,0,1),I(0x6b),I(OP_LGET,1),I(OP_I64C,0,0,0x9E3779B97F4A7C15ull),I(0x7c),I(OP_LGET,2),I(OP_CALL,self),I(OP_LSET,acc),I(OP_ELSE),
      I(OP_I32C,0,0,K_DEEP),I(OP_LGET,2),I(OP_I32C,0,0,0),I(OP_CALL,ev),I(OP_END)});
    for(int k=0;k<nl;k++){val(k);cat(c,{I(OP_LGET,3+k),I(0x52),I(OP_LGET,acc),I(0x6a),I(OP_LSET,acc)});}
    c.push_back(I(OP_LGET,acc));m.funcs.push_back(f);
    Code d;prologue(d);cat(d,{I(OP_LGET,N),I(OP_LGET,ARG),I(OP_LGET,ARG),I(OP_CALL,self),I(OP_LSET,X)});EV(d,K_END,X);worker("deep",d,locs);}
  th.thunks(m,r);return m;}
// the kernel's own count: listing /proc/self/task can skip entries while threads end
static int tasks(){char b[1024];FILE*f=fopen("/proc/self/stat","r");if(!f)return -1;size_t n=fread(b,1,sizeof b-1,f);fclose(f);b[n]=0;char*p=strrchr(b,')');if(!p)return -1;p++;for(int i=0;i<17&&p;i++){p=strchr(p+1,' ');}return p?atoi(p):-1;}
static pwart_wasm_function hostThreadFn;
#define U(p) ((u64)(size_t)(p))
// a wrapper call whose libuv function, arguments and result are monitored
static string mon(Sys&s,Rng&r,const char*name,int fn,const vector<u64>&a,vector<u64>&res,int na,bool force,int ret,void*out=nullptr){
  EX=Expect();EX.on=true;EX.fn=fn;EX.na=na;for(int i=0;i<na;i++)EX.a[i]=(void*)a[i];EX.force=force;EX.ret=ret;EX.out=out;if(force)cForced++;
  string e=s.call(name,a,res,r);EX.on=false;cCall++;if(!e.empty())return e;if(!EX.bad.empty())return string(name)+": "+EX.bad;if(EX.calls!=1)return sfmt("%s called libuv %d times",name,EX.calls);return "";}
static char*mkstr(const string&s){char*p=(char*)malloc(s.size()+1);memcpy(p,s.c_str(),s.size()+1);return p;}
static string history(Sys&s,Rng&r,u64*sig){
  struct Mx{void*p;bool held;};vector<Mx> ms;vector<void*> cs;struct Lib{void*p;string name;bool ok;};vector<Lib> ls;vector<u64> q;string e;int n=r.range(5,60);
  static const char*LIB[]={"libm.so.6","libffi.so.8","libuv.so.1","libno_such_library.so","","/","libdl.so.2","libc.so.6"};static const char*SYM[]={"cos","ffi_call","uv_version","no_such_symbol","strlen","","malloc","uv_mutex_init"};
  for(int i=0;i<n&&e.empty();i++){int k=r.below(16);*sig=hx::mix(*sig,k);hx::note("op %d",k);
    if(k==0){int f=(int)r.next();bool fo=r.chance(70);e=mon(s,r,"uv_version",F_VERSION,{},q,0,fo,f);if(e.empty()&&(u32)q[0]!=(fo?(u32)f:uv_version()))e="uv_version returns another number";}
    else if(k<=2){if(ms.size()>8)continue;long b=hxStats().blocks;e=mon(s,r,"uv_mutex_init",F_MINIT,{},q,0,false,0);if(!e.empty())break;if(q[0]!=U(EX.out))e="uv_mutex_init returns another reference than what it initialised";else if(hxBlockSize((void*)q[0])<sizeof(uv_mutex_t))e="a mutex lies in a block that is too small";ms.push_back({(void*)q[0],false});(void)b;}
    else if(k==3&&ms.size()){u32 j=r.below(ms.size());if(ms[j].held)continue;e=mon(s,r,"uv_mutex_destroy",F_MDESTROY,{U(ms[j].p)},q,1,false,0);ms.erase(ms.begin()+j);}
    else if(k<=5&&ms.size()){u32 j=r.below(ms.size());if(ms[j].held)continue;e=mon(s,r,"uv_mutex_lock",F_MLOCK,{U(ms[j].p)},q,1,false,0);ms[j].held=true;}
    else if(k<=7&&ms.size()){u32 j=r.below(ms.size());if(!ms[j].held)continue;e=mon(s,r,"uv_mutex_unlock",F_MUNLOCK,{U(ms[j].p)},q,1,false,0);ms[j].held=false;}
    else if(k<=9&&ms.size()){u32 j=r.below(ms.size());bool fo=r.chance(40);int f=(int)r.next();e=mon(s,r,"uv_mutex_trylock",F_MTRY,{U(ms[j].p)},q,1,fo,f);if(!e.empty())break;int w=fo?f:ms[j].held?UV_EBUSY:0;if((int)(u32)q[0]!=w)e=sfmt("uv_mutex_trylock of a %s mutex returns %d, libuv gave %d",ms[j].held?"held":"free",(int)q[0],w);if(!fo)ms[j].held=true;}
    else if(k==10){if(cs.size()>8)continue;e=mon(s,r,"uv_cond_init",F_CINIT,{},q,0,false,0);if(!e.empty())break;if(q[0]!=U(EX.out))e="uv_cond_init returns another reference than what it initialised";else if(hxBlockSize((void*)q[0])<sizeof(uv_cond_t))e="a condition lies in a block that is too small";cs.push_back((void*)q[0]);}
    else if(k==11&&cs.size()){u32 j=r.below(cs.size());if(r.chance(50)){e=mon(s,r,"uv_cond_signal",F_CSIGNAL,{U(cs[j])},q,1,false,0);}
      else if(r.chance(50)&&ms.size()){u64 a=U(cs[j]),b=U(r.pick(ms).p);e=mon(s,r,"uv_cond_wait",F_CWAIT,{a,b},q,2,true,0);}
      else{e=mon(s,r,"uv_cond_destroy",F_CDESTROY,{U(cs[j])},q,1,false,0);cs.erase(cs.begin()+j);}}
    else if(k<=13){cDl++;string nm=r.chance(10)?string(r.range(1,300),'x'):LIB[r.below(8)];char*p=mkstr(nm);bool fo=r.chance(30);int f=(int)r.next();e=mon(s,r,"uv_dlopen",F_DLOPEN,{U(p)},q,1,fo,f);free(p);if(!e.empty())break;if(q[0]!=U(EX.out)){e="uv_dlopen returns another library reference";break;}
      if(hxBlockSize((void*)q[0])<sizeof(uv_lib_t)){e="a library lies in a block that is too small";break;}
      if(fo){if((u32)q[1]!=(u32)f)e=sfmt("uv_dlopen returns %d, libuv gave %d",(int)q[1],f);}
      else{void*h=dlopen(nm.c_str(),RTLD_LAZY);if(((int)(u32)q[1]==0)!=(h!=nullptr))e=sfmt("uv_dlopen of '%s' returns %d, the system loader %s",nm.c_str(),(int)q[1],h?"opens it":"cannot open it");if(h)dlclose(h);}
      ls.push_back({(void*)q[0],nm,!fo&&(u32)q[1]==0});}
    else if(k==14&&ls.size()){cDl++;auto&l=r.pick(ls);string nm=SYM[r.below(8)];char*p=mkstr(nm);bool fo=!l.ok||r.chance(30);int f=(int)r.next();void*o=(void*)(size_t)r.next();e=mon(s,r,"uv_dlsym",F_DLSYM,{U(l.p),U(p)},q,2,fo,f,o);free(p);if(!e.empty())break;
      if(fo){if((u32)q[1]!=(u32)f||q[0]!=U(o))e=sfmt("uv_dlsym returns %llx %d, libuv gave %p %d",(unsigned long long)q[0],(int)q[1],o,f);}
      else{void*h=dlopen(l.name.c_str(),RTLD_LAZY);void*w=dlsym(h,nm.c_str());dlclose(h);if(q[0]!=U(w)||((u32)q[1]==0)!=(w!=nullptr))e=sfmt("uv_dlsym of '%s' returns %llx %d, the system loader %p",nm.c_str(),(unsigned long long)q[0],(int)q[1],w);}}
    else if(k==15){if(ls.size()&&r.chance(70)){u32 j=r.below(ls.size());e=mon(s,r,"uv_dlclose",F_DLCLOSE,{U(ls[j].p)},q,1,false,0);ls.erase(ls.begin()+j);}
      else{cFail++;long b=hxStats().blocks;e=mon(s,r,"uv_thread_create",F_TCREATE,{U(hostThreadFn),r.next()},q,0,true,UV_EAGAIN);if(e.empty()&&q[0])e="uv_thread_create returns a thread although none could be made";if(e.empty()&&hxStats().blocks!=b)e="a refused thread creation leaves memory behind";}}
    if(e.empty()&&badCount)e=badMsg;}
  for(auto&m:ms){if(m.held&&e.empty())e=mon(s,r,"uv_mutex_unlock",F_MUNLOCK,{U(m.p)},q,1,false,0);if(e.empty())e=mon(s,r,"uv_mutex_destroy",F_MDESTROY,{U(m.p)},q,1,false,0);}
  for(auto&c:cs)if(e.empty())e=mon(s,r,"uv_cond_destroy",F_CDESTROY,{U(c)},q,1,false,0);
  for(auto&l:ls)if(e.empty())e=mon(s,r,"uv_dlclose",F_DLCLOSE,{U(l.p)},q,1,false,0);
  return e;}
static size_t vmPages(){FILE*f=fopen("/proc/self/statm","r");size_t n=0;if(f){if(fscanf(f,"%zu",&n)!=1)n=0;fclose(f);}return n;}
static string waitThreads(int want,int base,const char*what){double t0=hx::now();while(ended.load(std::memory_order_acquire)<want){if(badCount)break;if(hx::now()-t0>25)return sfmt("%s: %d of %d threads finished",what,ended.load(),want);usleep(40);}
  while(tasks()>base){if(hx::now()-t0>28)return sfmt("%s: threads do not go away",what);usleep(40);}return "";}
static string threads(Sys&s,Rng&r,u64*sig,int base){
  nCF=0;ended=0;alive=0;maxAlive=0;ticket=0;putLog.clear();getLog.clear();turnLog.clear();delays=r.chance(75);nCont=nBusy=nWait=nSec=0;for(auto&l:LM){l.owner=0;l.plain=0;}
  vector<u64> q;string e;auto*mem=pwart_get_export_memory(s.ms,"mem");memset(mem->bytes,0,4096);auto W=[&](u32 a,u32 v){memcpy(mem->bytes+a,&v,4);};
  vector<void*> MS,CS;auto mk=[&](bool c){vector<u64> z;string x=s.call(c?"uv_cond_init":"uv_mutex_init",{},z,r);if(e.empty())e=x;void*p=x.empty()?(void*)z[0]:nullptr;(c?CS:MS).push_back(p);return p;};
  auto add=[&](int kind,int lock,const char*fn,void*m,void*c1,void*c2,u32 n,u32 role){if(nCF>=60)return;Cfg&c=CF[nCF];memset(&c,0,sizeof c);c.arg=(r.next()&~63ull)|nCF;if(!c.arg)c.arg=1ull<<63;c.kind=kind;c.lock=lock;c.m=m;c.c1=c1;c.c2=c2;c.n=n;c.role=role;c.delays=U(fn);nCF++;};
  int k=r.below(6);u32 incs=0,nn=0,rounds=0,items=0;hx::note("threads: scenario %d",k);*sig=hx::mix(*sig,k+100);
  int it=r.range(1,UV_TSAN?15:40);
  bool cnt=k==0||k==5,que=k==1||k==5,trn=k==2||k==5;
  // the counter, with lock and trylock mixed
  if(cnt){void*m=mk(false);int nt=r.range(2,6);for(int i=0;i<nt;i++){bool tr=r.chance(35);u32 n=r.range(1,it);incs+=n;add(0,0,tr?"trier":"counter",m,0,0,n,i);}}
  if(que){void*m=mk(false),*nf=mk(true),*ne=mk(true);int np=r.range(1,3),nc=r.range(1,3);u32 tot=np*nc*r.range(1,it/2+1);items=tot;W(A_CAP,r.range(1,6));
    for(int i=0;i<np;i++)add(1,1,"producer",m,nf,ne,tot/np,i);for(int i=0;i<nc;i++)add(1,1,"consumer",m,nf,ne,tot/nc,i);}
  if(trn){void*m=mk(false);nn=r.range(2,5);rounds=r.range(1,it);W(A_NN,nn);W(A_TURN,0);vector<void*> c;for(u32 i=0;i<nn;i++)c.push_back(mk(true));for(u32 i=0;i<nn;i++)add(2,2,"turns",m,c[i],c[(i+1)%nn],rounds,i);}
  if(k>=3){int nt=r.range(1,4);for(int i=0;i<nt;i++){int d=r.range(1,r.chance(30)?170:60);add(3,3,"deep",0,0,0,d,0);}if(r.chance(40))add(4,3,"",0,0,0,0,0);}
  if(!e.empty())return e;
  auto entry=[&](Cfg&c){const char*n=(const char*)c.delays;return *n?pwart_get_export_function(s.ms,n):hostThreadFn;};
  // some threads are started by others: child of an earlier one
  vector<int> roots;vector<bool> hasChild(nCF);for(int i=0;i<nCF;i++){int p=-1;if(i&&r.chance(40)){p=r.below(i);if(hasChild[p]||CF[p].kind==4)p=-1;}if(p>=0){hasChild[p]=true;CF[p].child=CF[i].arg;CF[p].e=entry(CF[i]);}else roots.push_back(i);}
  for(int i:roots){tlWaits=0;e=s.call("uv_thread_create",{U(entry(CF[i])),CF[i].arg},q,r);if(!e.empty())break;if(!q[0]){e="uv_thread_create returned no thread";break;}if(delays&&r.chance(30))usleep(r.below(100));}
  int started=nCF;if(e.empty())e=waitThreads(started,base,"thread scenario");
  if(e.empty()&&badCount)e=badMsg;if(!e.empty())return e;
  for(int i=0;i<nCF;i++)if(CF[i].starts!=1||CF[i].ends!=1){return sfmt("the entry of thread %d ran %d times and finished %d times",i,CF[i].starts,CF[i].ends);}
  u32 v;auto Rd=[&](u32 a){memcpy(&v,mem->bytes+a,4);return v;};
  if(cnt&&Rd(A_CNT)!=incs)return sfmt("the counter is %u after %u increments under its mutex",v,incs);
  if(que){if(putLog.size()!=items||getLog.size()!=items)return sfmt("%zu items put, %zu got, %u expected",putLog.size(),getLog.size(),items);if(putLog!=getLog)return "the queue's items came out in another order";if(Rd(A_QN))return "the queue is not empty at the end";std::set<u32> u(putLog.begin(),putLog.end());if(u.size()!=items)return "an item was put twice";}
  if(trn){if(turnLog.size()!=nn*rounds)return sfmt("%zu turnLog, %u expected",turnLog.size(),nn*rounds);for(size_t i=0;i<turnLog.size();i++)if(turnLog[i]!=i%nn)return sfmt("turn %zu was taken by thread %u",i,turnLog[i]);}
  for(auto&l:LM)if(l.owner||l.plain)return "a critical section was not left";
  for(void*p:MS)if(e.empty())e=s.call("uv_mutex_destroy",{U(p)},q,r);for(void*p:CS)if(e.empty())e=s.call("uv_cond_destroy",{U(p)},q,r);
  cThreads+=nCF;cSec+=nSec;cCont+=nCont;cBusy+=nBusy;cWait+=nWait;cPut+=items;cTurn+=turnLog.size();if(k>=3)cDeep++;cMax+=maxAlive;
  u32 nt=std::min<u32>(ticket,sizeof order);u64 h=hx::hashBytes(order,nt);*sig=hx::mix(*sig,h);if(hx::firstSeen(h^0x77))cInter++;
  if(e.empty()&&badCount)e=badMsg;return e;}
static string sequence(Sys&s,Rng&r,u64*sig,int base){
  // threads that ended must not keep anything
  struct rlimit l;getrlimit(RLIMIT_STACK,&l);size_t stk=l.rlim_cur==RLIM_INFINITY?(2u<<20):l.rlim_cur;int n=96;size_t p0=0;vector<u64> q;string e;
  for(int i=0;i<n&&e.empty();i++){nCF=1;ended=0;delays=false;memset(&CF[0],0,sizeof CF[0]);CF[0].arg=(r.next()&~63ull)|(1ull<<63);CF[0].kind=4;e=s.call("uv_thread_create",{U(hostThreadFn),CF[0].arg},q,r);if(e.empty())e=waitThreads(1,base,"thread sequence");if(i==31)p0=vmPages();cSeq++;}
  if(!e.empty())return e;size_t grow=vmPages()>p0?(vmPages()-p0)*sysconf(_SC_PAGESIZE):0;
  if(grow>stk*40)return sfmt("%d threads that ran one after another and ended keep %zu MiB",n-32,grow>>20);*sig=hx::mix(*sig,r.next());return "";}
void hxInit(){
  hx::caseWall=45;hx::caseCpu=40;hx::batch=4;mallopt(M_ARENA_MAX,2);struct rlimit l;getrlimit(RLIMIT_STACK,&l);if(l.rlim_cur==RLIM_INFINITY||l.rlim_cur>(8u<<20)){l.rlim_cur=8u<<20;setrlimit(RLIMIT_STACK,&l);}
  {std::thread t([]{});t.join();} // ThreadSanitizer starts a thread of its own with the first one
  hostThreadFn=pwart_wrap_host_function_c(hostThread);}
string runOne(u64 seed,u64 idx){
  Rng r(hx::mix(seed,idx));u64 sig=0;string e;badCount=0;EX=Expect();liveM.clear();liveC.clear();sysFlags(r.chance(50));hxTakeBad();int base=tasks();HxAllocStats a0=hxStats();
  {Sys s;s.ns=pwart_namespace_new();auto*uvm=pwart_libuv_module_new();auto*hm=pwart_namespace_new_host_module((const char**)HN,HFn,2);
   pwart_namespace_define_host_module(s.ns,"libuv",uvm);pwart_namespace_define_host_module(s.ns,"h",hm);Module m=uvModule(s.th,r,(int)r.below(100));e=s.load(m,"m",r);
   int k=r.below(1000);bool seq=k<2;
#if UV_TSAN||defined(HX_ASAN)
   seq=false;
#endif
   hx::note("stack_flags %d %s",(int)sysAlign,seq?"sequence":k<350?"history":"threads");
   if(e.empty())e=seq?sequence(s,r,&sig,base):k<350?history(s,r,&sig):threads(s,r,&sig,base);
   if(!e.empty()&&tasks()>base)return e; // threads are left: nothing can be freed
   pwart_namespace_delete(s.ns);pwart_libuv_module_delete(uvm);pwart_namespace_delete_host_module(hm);}
  if(e.empty()){HxAllocStats a1=hxStats();for(int i=0;i<2000&&a1.blocks>a0.blocks;i++){usleep(1000);a1=hxStats();}if(a1.blocks!=a0.blocks)e=sfmt("%ld blocks are left behind: %s",a1.blocks-a0.blocks,hxLive().c_str());string b=hxTakeBad();if(!b.empty())e=b;if(!liveM.empty()||!liveC.empty())e="a mutex or condition was never destroyed";}
  if(e.empty())hx::nontrivial(sig);
  return e;}
HX_MAIN("uv")
