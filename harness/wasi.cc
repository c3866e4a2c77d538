// C23: WASI calls of a guest through the real wrappers, with recording stand-ins behind them that return random error codes and write random results.
#include "sys.h"
#include <uv.h>
#include <uvwasi.h>
#include <sys/mman.h>
#include <sys/wait.h>
extern "C"{
#include <pwart_syslib.h>
extern char**environ;
int wasiexec_main(int,char**);
}
static hx::Counter cCall("wasi_calls"),cFn("distinct_functions_per_case"),cArg("arguments_compared"),cIov("io_vectors_compared"),cOut("results_written"),cErr("error_codes_returned"),cGrow("memory_growths"),cMoved("memory_moves_seen"),cMem("memory_bytes_compared"),cArgs("argument_lists_compared"),cEnv("environments_compared"),cInit("initialisations"),cInitBad("initialisations_refused"),cLoad("library_loads"),cUnload("library_unloads"),cExec("wasiexec_runs"),cExecBad("wasiexec_refusals"),cEnd("pointers_to_the_end_of_memory");
// what WASI snapshot preview1 says. i,w,c: 32, 16, 8 bit values, l: 64 bit, P<n>: address the host writes n bytes to (B: buffer whose length follows, O: event buffer), S: address of a string or buffer the host reads, V: io vectors (count follows)
struct Spec{const char*name,*kinds;};
static const Spec SP[]={{"args_get","PP"},{"args_sizes_get","44"},{"clock_res_get","i8"},{"clock_time_get","il8"},{"environ_get","PP"},{"environ_sizes_get","44"},{"fd_advise","illc"},{"fd_allocate","ill"},{"fd_close","i"},{"fd_datasync","i"},{"fd_fdstat_get","iD"},{"fd_fdstat_set_flags","iw"},
  {"fd_fdstat_set_rights","ill"},{"fd_filestat_get","iF"},{"fd_filestat_set_size","il"},{"fd_filestat_set_times","illw"},{"fd_pread","iVil4"},{"fd_prestat_get","i8"},{"fd_prestat_dir_name","iBi"},{"fd_pwrite","iVil4"},{"fd_read","iVi4"},{"fd_readdir","iBil4"},{"fd_renumber","ii"},{"fd_seek","ilc8"},{"fd_sync","i"},{"fd_tell","i8"},
  {"fd_write","iVi4"},{"path_create_directory","iSi"},{"path_filestat_get","iiSiF"},{"path_filestat_set_times","iiSillw"},{"path_link","iiSiiSi"},{"path_open","iiSiwllw4"},{"path_readlink","iSiBi4"},{"path_remove_directory","iSi"},{"path_rename","iSiiSi"},{"path_symlink","SiiSi"},{"path_unlink_file","iSi"},{"poll_oneoff","SOi4"},{"proc_exit","i"},{"proc_raise","c"},
  {"random_get","Bi"},{"sched_yield",""},{"sock_accept","iw4"},{"sock_recv","iViw42"},{"sock_send","iViw4"},{"sock_shutdown","ic"}};
static const int NSP=sizeof SP/sizeof*SP;
static bool isPtr(char k){return strchr("PBSOV248DF",k)!=nullptr;}
static int outSize(char k){switch(k){case '2':return 2;case '4':return 4;case '8':return 8;case 'D':return 24;case 'F':return 64;default:return 0;}}
static FuncType ftypeOf(const Spec&s){FuncType t;for(const char*k=s.kinds;*k;k++)t.p.push_back(*k=='l'?I64:I32);if(strcmp(s.name,"proc_exit"))t.r={I32};return t;}
// ---- the call in progress
struct Now{bool on=false;string name;vector<u64> args;u16 err=0;int calls=0;string bad;u8*base=nullptr;vector<u8>*shadow=nullptr;uvwasi_t*ctx=nullptr;u64 seed=0;};
static Now N;static int inits,destroys,liveCtx,envGot,envFreed;static uvwasi_t*CTX;
static uvwasi_options_t OPT;static string optBad;static u16 initErr;static bool child;
struct ChildLog{int n;struct{char name[32];u64 a[6];} c[32];u32 outLen;char out[4096];int exitCalled;u32 exitCode;};static ChildLog*CL;
template<class T>static u64 toU(T v){if constexpr(std::is_pointer<T>::value)return (u64)(size_t)v;else if constexpr(std::is_enum<T>::value)return (u64)(u32)v;else return (u64)(typename std::make_unsigned<T>::type)v;}
static void outBytes(size_t off,size_t n,u64 s){u8*p=N.base+off;for(size_t i=0;i<n;i++){s=s*6364136223846793005ull+1442695040888963407ull;p[i]=(u8)(s>>33);(*N.shadow)[off+i]=p[i];}cOut++;}
static uvwasi_errno_t rec(const char*name,uvwasi_t*ctx,const vector<u64>&a){
  if(child){int i=CL->n++;if(i<32){snprintf(CL->c[i].name,32,"%s",name);for(size_t k=0;k<a.size()&&k<6;k++)CL->c[i].a[k]=a[k];}
    if(!strcmp(name,"args_sizes_get")){*(u32*)a[0]=CTX->argc;*(u32*)a[1]=CTX->argv_buf_size;}
    if(!strcmp(name,"fd_write")){auto*v=(const uvwasi_ciovec_t*)a[1];u32 t=0;for(u32 k=0;k<a[2];k++){u32 m=std::min<u32>(v[k].buf_len,sizeof CL->out-CL->outLen);memcpy(CL->out+CL->outLen,v[k].buf,m);CL->outLen+=m;t+=m;}*(u32*)a[3]=t;}
    if(!strcmp(name,"proc_exit")){CL->exitCalled=1;CL->exitCode=(u32)a[0];_exit(a[0]);}
    return 0;}
  auto bad=[&](const string&s){if(N.bad.empty())N.bad=s;};N.calls++;
  if(!N.on){bad(string(name)+" is called although the guest called nothing");return 0;}
  if(N.name!=name){bad(string("the host's ")+name+" is called");return 0;}
  if(ctx!=CTX)bad("the host implementation is given another context");
  const Spec*s=nullptr;for(auto&x:SP)if(N.name==x.name)s=&x;
  if(strlen(s->kinds)!=a.size()){bad("wrong number of arguments");return 0;}
  for(size_t i=0;i<a.size();i++){char k=s->kinds[i];u64 w=N.args[i],g=a[i];cArg++;
    if(k=='V'){auto*v=(const uvwasi_iovec_t*)g;u32 n=(u32)N.args[i+1];for(u32 j=0;j<n;j++){u32 p,l;memcpy(&p,N.shadow->data()+w+8*j,4);memcpy(&l,N.shadow->data()+w+8*j+4,4);cIov++;if(v[j].buf!=N.base+p||v[j].buf_len!=l){bad(sfmt("io vector %u of %u is (memory+%lld, %u), the guest's is (%u, %u)",j,n,(long long)((u8*)v[j].buf-N.base),v[j].buf_len,p,l));return 0;}}}
    else if(isPtr(k)){if(g!=(u64)(size_t)(N.base+w)){bad(sfmt("argument %zu is %llx, the guest's address %llx is %llx",i,(unsigned long long)g,(unsigned long long)w,(unsigned long long)(size_t)(N.base+w)));return 0;}}
    else{u64 mk=k=='i'?0xffffffffu:k=='w'?0xffffu:k=='c'?0xffu:~0ull;if((g&mk)!=(w&mk)){bad(sfmt("argument %zu is %llx, the guest passed %llx",i,(unsigned long long)(g&mk),(unsigned long long)(w&mk)));return 0;}}}
  if(memcmp(N.base,N.shadow->data(),N.shadow->size())){bad("guest memory changed before the host implementation ran");return 0;}
  u64 sd=N.seed;for(size_t i=0;i<a.size();i++){char k=s->kinds[i];sd=sd*31+7;
    if(outSize(k))outBytes(N.args[i],outSize(k),sd);else if(k=='B')outBytes(N.args[i],N.args[i+1],sd);else if(k=='O')outBytes(N.args[i],32*N.args[i+1],sd);
    else if(k=='V'&&(N.name=="fd_read"||N.name=="fd_pread"||N.name=="sock_recv")){auto*v=(const uvwasi_iovec_t*)a[i];for(u32 j=0;j<N.args[i+1];j++)outBytes((u8*)v[j].buf-N.base,v[j].buf_len,sd+j);}}
  return N.err;}
extern "C"{
#define D0(n) uvwasi_errno_t uvwasi_##n(uvwasi_t*u){return rec(#n,u,{});}
#define D1(n,A) uvwasi_errno_t uvwasi_##n(uvwasi_t*u,A a){return rec(#n,u,{toU(a)});}
#define D2(n,A,B) uvwasi_errno_t uvwasi_##n(uvwasi_t*u,A a,B b){return rec(#n,u,{toU(a),toU(b)});}
#define D3(n,A,B,C) uvwasi_errno_t uvwasi_##n(uvwasi_t*u,A a,B b,C c){return rec(#n,u,{toU(a),toU(b),toU(c)});}
#define D4(n,A,B,C,D) uvwasi_errno_t uvwasi_##n(uvwasi_t*u,A a,B b,C c,D d){return rec(#n,u,{toU(a),toU(b),toU(c),toU(d)});}
#define D5(n,A,B,C,D,E) uvwasi_errno_t uvwasi_##n(uvwasi_t*u,A a,B b,C c,D d,E e){return rec(#n,u,{toU(a),toU(b),toU(c),toU(d),toU(e)});}
#define D6(n,A,B,C,D,E,F) uvwasi_errno_t uvwasi_##n(uvwasi_t*u,A a,B b,C c,D d,E e,F f){return rec(#n,u,{toU(a),toU(b),toU(c),toU(d),toU(e),toU(f)});}
#define D7(n,A,B,C,D,E,F,G) uvwasi_errno_t uvwasi_##n(uvwasi_t*u,A a,B b,C c,D d,E e,F f,G g){return rec(#n,u,{toU(a),toU(b),toU(c),toU(d),toU(e),toU(f),toU(g)});}
#define D9(n,A,B,C,D,E,F,G,H,J) uvwasi_errno_t uvwasi_##n(uvwasi_t*u,A a,B b,C c,D d,E e,F f,G g,H h,J j){return rec(#n,u,{toU(a),toU(b),toU(c),toU(d),toU(e),toU(f),toU(g),toU(h),toU(j)});}
#define CNT(a,b,c,d,e,f,g,h,i,N,...) N
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define DEF(n,...) CAT(D,CNT(__VA_ARGS__,9,8,7,6,5,4,3,2,1))(n,__VA_ARGS__)
UVWASI_FUNCS(DEF)
D0(sched_yield)
void uvwasi_options_init(uvwasi_options_t*o){memset(o,0,sizeof*o);o->in=0;o->out=1;o->err=2;o->fd_table_size=3;}
uvwasi_errno_t uvwasi_init(uvwasi_t*u,const uvwasi_options_t*o){
  inits++;OPT=*o;optBad.clear();if(o->preopenc!=1||!o->preopens||!o->preopens->mapped_path||!o->preopens->real_path)optBad="the preopened directory is missing";else if(strcmp(o->preopens->mapped_path,"/")||strcmp(o->preopens->real_path,"."))optBad="the preopened directory is not the current one as /";
  if(initErr)return initErr;if(liveCtx)optBad="the context is initialised again without being destroyed";
  memset(u,0,sizeof*u);CTX=u;liveCtx++;u->argc=o->argc;size_t n=0;for(u32 i=0;i<o->argc;i++)n+=strlen(o->argv[i])+1;u->argv_buf_size=n;u->argv_buf=(char*)malloc(n+!n);u->argv=(char**)malloc(sizeof(char*)*o->argc+!o->argc);char*p=u->argv_buf;for(u32 i=0;i<o->argc;i++){u->argv[i]=p;strcpy(p,o->argv[i]);p+=strlen(p)+1;}return 0;}
void uvwasi_destroy(uvwasi_t*u){destroys++;if(u!=CTX||!liveCtx){optBad="something that is not initialised is destroyed";return;}liveCtx--;free(u->argv);free(u->argv_buf);u->argv=nullptr;u->argv_buf=nullptr;}
int __real_uv_os_environ(uv_env_item_t**,int*);void __real_uv_os_free_environ(uv_env_item_t*,int);
int __wrap_uv_os_environ(uv_env_item_t**e,int*n){int r=__real_uv_os_environ(e,n);if(!r)envGot++;return r;}
void __wrap_uv_os_free_environ(uv_env_item_t*e,int n){envFreed++;__real_uv_os_free_environ(e,n);}
}
#define U(p) ((u64)(size_t)(p))
static vector<HF> wasiFns(){vector<HF> v;for(auto&s:SP)v.push_back({s.name,ftypeOf(s)});return v;}
static Module wasiModule(Thunks&th,Rng&r,bool fixed,u32 pages,u32 max){
  Module m;th.imports(m,"wasi_snapshot_preview1",wasiFns());u32 t1=m.addType({{I32},{I32}});u32 base=m.nimp(0);
  MemT t;t.min=pages;t.hasmax=fixed;t.max=max;m.mems.push_back(t);m.exports.push_back({"memory",2,0});
  {Func f;f.type=t1;f.body={I(OP_LGET,0),I(OP_MGROW)};m.funcs.push_back(f);m.exports.push_back({"grow",0,base});}
  th.thunks(m,r);return m;}
static vector<string> ARGV;static vector<char*> argvp;
static void mkArgs(Rng&r){ARGV.clear();argvp.clear();int n=r.chance(10)?0:r.below(6);for(int i=0;i<n;i++){string s;int l=r.chance(15)?0:r.below(r.chance(10)?200:20);for(int k=0;k<l;k++)s+=(char)r.range(1,255);ARGV.push_back(s);}for(auto&s:ARGV)argvp.push_back((char*)s.c_str());argvp.push_back(nullptr);}
struct Guest{Sys s;struct pwart_wasm_memory*mem=nullptr;vector<u8> shadow;Rng*r;u8*lastBase=nullptr;
  string sync(const char*after){if((size_t)mem->pages*65536!=shadow.size())return sfmt("memory has %u pages after %s",mem->pages,after);cMem+=shadow.size();if(memcmp(mem->bytes,shadow.data(),shadow.size())){size_t i=0;while(mem->bytes[i]==shadow[i])i++;return sfmt("byte %zu of guest memory changed by %s",i,after);}return "";}
  void put32(u32 a,u32 v){memcpy(mem->bytes+a,&v,4);memcpy(shadow.data()+a,&v,4);}
  u32 addr(size_t need){size_t sz=shadow.size();if(need>sz)need=sz;size_t a;if(r->chance(12)){a=sz-need;cEnd++;}else if(r->chance(10))a=0;else a=(size_t)(r->next()%(sz-need+1));return (u32)a;}
  string one(int f,u64*sig){
    const Spec&s=SP[f];vector<u64> a;size_t nk=strlen(s.kinds);a.assign(nk,0);string nm=s.name;vector<u64> q;*sig=hx::mix(*sig,f);
    if(nm=="args_get"||nm=="environ_get"){ // pointers array and buffer, written by the wrapper itself
      vector<string> l;if(nm=="args_get")l=ARGV;else for(char**e=environ;*e;e++){if(strchr(*e,'='))l.push_back(*e);}
      size_t bytes=0;for(auto&x:l)bytes+=x.size()+1;if(bytes+4*l.size()+64>shadow.size())return "";
      u32 pa=addr(4*l.size()),pb;int tries=0;do{pb=addr(bytes);}while(++tries<50&&!(pb+bytes<=pa||pa+4*l.size()<=pb));if(tries>=50)return "";
      a={pa,pb};string e=s_call(nm,a,q);if(!e.empty())return e;u32 p=pb;for(size_t i=0;i<l.size();i++){memcpy(shadow.data()+pa+4*i,&p,4);memcpy(shadow.data()+p,l[i].c_str(),l[i].size()+1);p+=(u32)l[i].size()+1;}
      (nm=="args_get"?cArgs:cEnv)++;if((u32)q[0])return nm+" fails";return sync(nm.c_str());}
    if(nm=="environ_sizes_get"){u32 p1=addr(4),p2;do p2=addr(4);while(p2+4>p1&&p1+4>p2);a={p1,p2};string e=s_call(nm,a,q);if(!e.empty())return e;u32 n=0,b=0;for(char**x=environ;*x;x++)if(strchr(*x,'=')){n++;b+=(u32)strlen(*x)+1;}memcpy(shadow.data()+p1,&n,4);memcpy(shadow.data()+p2,&b,4);cEnv++;if((u32)q[0])return nm+" fails";return sync(nm.c_str());}
    for(size_t i=0;i<nk;i++){char k=s.kinds[i];
      if(k=='i')a[i]=(u32)r->next();else if(k=='w')a[i]=r->next()&0xffff;else if(k=='c')a[i]=r->next()&0xff;else if(k=='l')a[i]=r->chance(30)?(u64)-(s64)r->below(100000):r->next();
      else if(outSize(k))a[i]=addr(outSize(k));}
    for(size_t i=0;i<nk;i++){char k=s.kinds[i];
      if(k=='B'){u32 n=r->chance(10)?0:r->below(300);a[i]=addr(n);a[i+1]=n;}
      else if(k=='S'){u32 n=r->below(300);a[i]=addr(n);if(s.kinds[i+1]=='i')a[i+1]=n;}
      else if(k=='O'){u32 n=r->below(8);a[i]=addr(32*n);a[i+1]=n;a[i-1]=addr(48*n);}
      else if(k=='V'){u32 n=r->chance(10)?0:r->chance(80)?r->below(6):r->below(200);a[i]=addr(8*n);a[i+1]=n;for(u32 j=0;j<n;j++){u32 l=r->below(64);u32 p=addr(l);put32((u32)a[i]+8*j,p);put32((u32)a[i]+8*j+4,l);}}}
    N.err=r->chance(40)?0:r->below(77);string e=s_call(nm,a,q);if(!e.empty())return e;
    if(N.calls!=1)return sfmt("%s called the host implementation %d times",nm.c_str(),N.calls);
    if(nm!="proc_exit"){if((u32)q[0]!=N.err)return sfmt("%s returns %u, the host implementation returned %u",nm.c_str(),(u32)q[0],N.err);if(N.err)cErr++;}
    return sync(nm.c_str());}
  string s_call(const string&nm,const vector<u64>&a,vector<u64>&q){
    if(lastBase&&lastBase!=mem->bytes)cMoved++;lastBase=mem->bytes;u16 er=N.err;N=Now();N.err=er;N.on=true;N.name=nm;N.args=a;N.base=mem->bytes;N.shadow=&shadow;N.seed=r->next();cCall++;string e=s.call(nm,a,q,*r);N.on=false;if(!e.empty())return e;if(!N.bad.empty())return nm+": "+N.bad;return "";}
};
static const char*checkInit(){if(!optBad.empty())return optBad.c_str();if(OPT.argc!=ARGV.size())return "the argument count is wrong";for(size_t i=0;i<ARGV.size();i++)if(strcmp(OPT.argv[i],ARGV[i].c_str()))return "an argument is wrong";
  if(OPT.in!=0||OPT.out!=1||OPT.err!=2)return "the standard streams are wrong";return nullptr;}
static string history(Rng&r,u64*sig){
  string e;auto init=[&](bool bad)->string{mkArgs(r);pwart_wasi_module_set_wasiargs((u32)ARGV.size(),argvp.data());initErr=bad?1+r.below(70):0;int was=liveCtx;int d=destroys;char*m=pwart_wasi_module_init();cInit++;if(was&&destroys!=d+1)return "a second initialisation does not destroy the first";if(!was&&destroys!=d)return "something that is not initialised is destroyed";
    if(bad){cInitBad++;if(!m)return "a failed initialisation reports nothing";return "";}if(m)return string("initialisation failed: ")+m;const char*c=checkInit();return c?c:"";};
  int vars=r.below(4);for(int i=0;i<vars;i++){string n=sfmt("V%d_%s",i,r.chance(50)?"x":"");string v;int l=r.below(30);for(int k=0;k<l;k++)v+=(char)r.range(33,126);setenv(n.c_str(),v.c_str(),1);}
  bool bad=r.chance(15);e=init(bad);if(!e.empty())return e;
  pwart_namespace ns=pwart_namespace_new();char*m=pwart_syslib_load(ns);cLoad++;if(m)return string("pwart_syslib_load: ")+m;
  for(const char*n:{"libuv","libffi"}){auto*x=pwart_namespace_find_module(ns,n);if(!x||x->type!=PWART_MODULE_TYPE_HOST_MODULE)return string(n)+" is not loaded";}
  auto*x=pwart_namespace_find_module(ns,"wasi_snapshot_preview1");if(((x!=nullptr)&&x->type==PWART_MODULE_TYPE_HOST_MODULE)==bad)return bad?"WASI is loaded although it could not be initialised":"WASI is not loaded";
  if(!bad){Guest g;g.r=&r;g.s.ns=ns;bool fixed=r.chance(40);u32 pg=1+r.below(3);Module mo=wasiModule(g.s.th,r,fixed,pg,8);e=g.s.load(mo,"guest",r);if(!e.empty())return e;
    g.mem=pwart_get_export_memory(g.s.ms,"memory");pwart_wasi_module_set_wasimemory(g.mem);g.shadow.assign((size_t)pg*65536,0);{u64 z=r.next();for(size_t i=0;i+8<=g.shadow.size();i+=8){z=z*6364136223846793005ull+1442695040888963407ull;memcpy(&g.shadow[i],&z,8);}memcpy(g.mem->bytes,g.shadow.data(),g.shadow.size());}
    int n=r.range(3,40);std::set<int> fs;hx::note("stack_flags %d fixed %d pages %u args %zu",(int)sysAlign,fixed,pg,ARGV.size());
    for(int i=0;i<n&&e.empty();i++){int k=r.below(100);
      if(k<6){u32 d=r.below(4);vector<u64> q;e=callW(pwart_get_export_function(g.s.ms,"grow"),{{I32},{I32}},{d},q);if(e.empty()&&(u32)q[0]!=~0u){size_t o=g.shadow.size();g.shadow.resize((size_t)g.mem->pages*65536,0);if(g.shadow.size()!=o+(size_t)d*65536)e="memory.grow";cGrow++;}}
      else if(k<9){if(r.chance(30)){e=init(true);if(e.empty()&&r.chance(50)){pwart_namespace n2=pwart_namespace_new();char*z=pwart_syslib_load(n2);auto*y=pwart_namespace_find_module(n2,"wasi_snapshot_preview1");if(z)e=string("pwart_syslib_load: ")+z;else if(y&&y->type==PWART_MODULE_TYPE_HOST_MODULE)e="WASI is loaded although its last initialisation failed";z=pwart_syslib_unload(n2);if(e.empty()&&z)e=string("pwart_syslib_unload: ")+z;pwart_namespace_delete(n2);}}if(e.empty())e=init(false);}
      else{int f=r.below(NSP);fs.insert(f);hx::note("%s",SP[f].name);e=g.one(f,sig);}}
    cFn+=fs.size();if(!e.empty())return e;}
  initErr=0;
  if(r.chance(50)){m=pwart_syslib_unload(ns);cUnload++;if(m)return string("pwart_syslib_unload: ")+m;for(const char*n:{"libuv","libffi","wasi_snapshot_preview1"}){auto*x=pwart_namespace_find_module(ns,n);if(x&&x->type==PWART_MODULE_TYPE_HOST_MODULE)return string(n)+" is still in the namespace after unloading";}
    if(r.chance(20))pwart_syslib_unload(ns);if(liveCtx)return "unloading leaves WASI initialised";pwart_namespace_delete(ns);}
  else{pwart_host_module*a=pwart_namespace_find_module(ns,"libuv")->val.host,*b=pwart_namespace_find_module(ns,"libffi")->val.host,*c=bad?nullptr:pwart_namespace_find_module(ns,"wasi_snapshot_preview1")->val.host;pwart_namespace_delete(ns);pwart_libuv_module_delete(a);pwart_libffi_module_delete(b);if(c)pwart_wasi_module_delete(c);if(liveCtx)return "deleting the WASI module leaves it initialised";}
  for(int i=0;i<4;i++){unsetenv(sfmt("V%d_x",i).c_str());unsetenv(sfmt("V%d_",i).c_str());}
  if(envGot!=envFreed)return sfmt("the environment was read %d times and freed %d times",envGot,envFreed);
  if(!optBad.empty())return optBad;return "";}
// ---- wasiexec
static string execRun(Rng&r,u64*sig){
  static ChildLog*map=nullptr;if(!map)map=(ChildLog*)mmap(nullptr,sizeof(ChildLog),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);memset(map,0,sizeof*map);CL=map;
  Module m;vector<HF> f;for(auto&s:SP)if(!strcmp(s.name,"args_get")||!strcmp(s.name,"args_sizes_get")||!strcmp(s.name,"fd_write")||!strcmp(s.name,"fd_close")||!strcmp(s.name,"proc_exit")||!strcmp(s.name,"random_get"))f.push_back({s.name,ftypeOf(s)});
  Thunks th;th.imports(m,"wasi_snapshot_preview1",f);u32 t0=m.addType({{},{}});u32 nb=m.nimp(0);auto call=[&](const char*n){return I(OP_CALL,th.imp[n]);};
  bool start=r.chance(60),main=r.chance(85),mem=r.chance(90),ex=mem&&r.chance(30),viaSyslib=false;u32 code=r.below(200);(void)viaSyslib;
  if(mem){MemT t;t.min=1+r.below(3);t.hasmax=r.chance(50);t.max=8;m.mems.push_back(t);m.exports.push_back({"memory",2,0});}
  {Func g;g.type=t0;g.body={I(OP_I32C,0,0,1001),call("fd_close"),I(OP_DROP)};m.funcs.push_back(g);if(start)m.start=nb;}
  {Func g;g.type=t0;Code&c=g.body;c={I(OP_I32C,0,0,1002),call("fd_close"),I(OP_DROP)};
   if(mem){vector<Ins> w={I(OP_I32C,0,0,0),I(OP_I32C,0,0,4),call("args_sizes_get"),I(OP_DROP),I(OP_I32C,0,0,64),I(OP_I32C,0,0,8192),call("args_get"),I(OP_DROP),I(OP_I32C,0,0,16),I(OP_I32C,0,0,8192),I(0x36,2,0,0),I(OP_I32C,0,0,20),I(OP_I32C,0,0,4),I(0x28,2,0,0),I(0x36,2,0,0),I(OP_I32C,0,0,1),I(OP_I32C,0,0,16),I(OP_I32C,0,0,1),I(OP_I32C,0,0,24),call("fd_write"),I(OP_DROP)};c.insert(c.end(),w.begin(),w.end());}
   if(ex){c.push_back(I(OP_I32C,0,0,code));c.push_back(call("proc_exit"));}
   c.push_back(I(OP_I32C,0,0,1003));c.push_back(call("fd_close"));c.push_back(I(OP_DROP));m.funcs.push_back(g);if(main)m.exports.push_back({"_start",0,nb+1});}
  auto b=encode(m,0,&r);int bad=r.chance(25)?r.range(1,4):0; // 1 cut 2 no file 3 no argument 4 empty file
  if(bad==1){if(r.chance(30))b.resize(1+r.below(7));else if(r.chance(50))b[r.below(8)]^=(u8)(1u<<r.below(8));else b.resize(9);}if(bad==4)b.clear();
  string p=sfmt("%s/guest%d.wasm",hx::scratch.c_str(),(int)getpid());if(bad!=2){FILE*o=fopen(p.c_str(),"wb");if(!o)return "no scratch file";fwrite(b.data(),1,b.size(),o);fclose(o);}else unlink(p.c_str());
  vector<string> av={"pwart_wasiexec"};if(bad!=3){av.push_back(p);int n=r.below(5);for(int i=0;i<n;i++){string s;int l=r.below(30);for(int k=0;k<l;k++)s+=(char)r.range(1,255);av.push_back(s);}}
  vector<char*> ap;for(auto&s:av)ap.push_back((char*)s.c_str());ap.push_back(nullptr);bool initBad=!bad&&r.chance(10);
  hx::note("wasiexec start %d _start %d memory %d exit %d damaged %d initBad %d",start,main,mem,ex,bad,initBad);*sig=hx::mix(*sig,start*64+main*32+mem*16+ex*8+bad+initBad*128+av.size()*1000);
  initErr=initBad?5:0;fflush(stdout);pid_t c=fork();if(c<0)return "";
  if(!c){child=true;int z=open("/dev/null",O_WRONLY);dup2(z,1);int rc=wasiexec_main((int)av.size(),ap.data());fflush(stdout);_exit(rc);}
  int st=0;waitpid(c,&st,0);initErr=0;unlink(p.c_str());if(WIFSIGNALED(st))return sfmt("wasiexec died: %s (%s)",strsignal(WTERMSIG(st)),bad==1?"damaged module":bad==2?"no such file":bad==3?"no argument":bad==4?"empty file":initBad?"WASI not initialised":"good module");
  int rc=WEXITSTATUS(st);if(bad||initBad){cExecBad++;if(rc!=1)return sfmt("wasiexec of a %s exits with %d",bad==1?"damaged module":bad==2?"missing file":bad==3?"nothing":bad==4?"empty file":"module that needs the missing WASI",rc);if(CL->n)return "wasiexec runs a module it cannot load";return "";}
  cExec++;vector<string> want;if(start)want.push_back("1001");if(main){want.push_back("1002");if(mem){want.push_back("args_sizes_get");want.push_back("fd_write");}if(ex)want.push_back("proc_exit");else want.push_back("1003");}
  vector<string> got;for(int i=0;i<CL->n&&i<32;i++)got.push_back(!strcmp(CL->c[i].name,"fd_close")?sfmt("%u",(u32)CL->c[i].a[0]):string(CL->c[i].name));
  if(got!=want){string a,b2;for(auto&x:got)a+=x+" ";for(auto&x:want)b2+=x+" ";return "wasiexec ran: "+a+"instead of: "+b2;}
  if(rc!=(main&&ex?(int)code:0))return sfmt("wasiexec exits with %d instead of %d",rc,main&&ex?(int)code:0);
  if(main&&mem){string w;for(size_t i=1;i<av.size();i++){w+=av[i];w+='\0';}if(string(CL->out,CL->outLen)!=w)return "the program run by wasiexec sees other arguments";cArgs++;}
  return "";}
void hxInit(){hx::caseCpu=20;}
string runOne(u64 seed,u64 idx){
  Rng r(hx::mix(seed,idx));u64 sig=0;string e;sysFlags(r.chance(50));hxTakeBad();HxAllocStats a0=hxStats();inits=destroys=envGot=envFreed=0;optBad.clear();
  bool ex=r.chance(12);e=ex?execRun(r,&sig):history(r,&sig);if(!e.empty())return e;
  HxAllocStats a1=hxStats();if(a1.blocks!=a0.blocks)e=sfmt("%ld blocks are left behind: %s",a1.blocks-a0.blocks,hxLive().c_str());string b=hxTakeBad();if(!b.empty())e=b;
  if(e.empty())hx::nontrivial(sig);return e;}
HX_MAIN("wasi")
