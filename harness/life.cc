// C16: random histories of creating, compiling, using and freeing every kind of object of the API, under heap and executable
// memory accounting (and AddressSanitizer in the second build).
#include "tiny.h"
#include "../engine/run.h"
#define HX_TYPES
#include "hx.h"
#include "hxalloc.h"
extern "C" void sljit_free_unused_memory_exec(void);
static hx::Counter cHist("histories"),cOps("api_operations"),cCalls("function_calls_checked"),cLoads("modules_loaded"),cFails("failed_loads"),cFrees("objects_freed"),cEng("generated_programs"),cBlk("heap_blocks_accounted"),cExec("exec_bytes_seen"),cLeakChk("leak_checks");
static RunStats rst;
struct St{pwart_module_state s=nullptr;u32 k=0;int fat=0;bool mem=false,table=false,fixed=false,start=false;u32 g=0;u32 pages=0;St*imp=nullptr;bool impHost=false;u32 hostK=0;bool live=true;int ns=-1;string name;std::map<u32,u32> pokes;bool shared=false;void*ud=nullptr;struct pwart_symbol_resolver*res=nullptr;};
struct Host{pwart_host_module*h=nullptr;int kind=0;vector<const char*>*names=nullptr;vector<pwart_host_function_c>*fns=nullptr;int attached=0;bool live=true;int att=0,det=0;};
struct Ns{pwart_namespace n=nullptr;bool live=true;std::map<string,std::pair<int,int>> mods;/*type,index*/};
struct Comp{pwart_module_compiler c=nullptr;bool live=true;};
static void hostF7(void*fp){u32*p=(u32*)fp;p[0]=p[0]*7+1;}
static void hostF9(void*fp){u32*p=(u32*)fp;p[0]=p[0]*9+1;}
struct CustomHost{pwart_host_module base;int att,det;};
static void chResolve(pwart_host_module*,pwart_symbol_resolve_request*q){q->result=(q->kind==PWART_KIND_FUNCTION&&!strcmp(q->import_field,"f"))?(void*)&hostF9:nullptr;}
static void chAtt(pwart_host_module*h){((CustomHost*)h)->att++;}static void chDet(pwart_host_module*h){((CustomHost*)h)->det++;}
struct Hist{
  Rng r;vector<St*> st;vector<Host*> hs;vector<Ns*> ns;vector<Comp> cs;vector<std::pair<void*,int>> stacks;vector<pwart_wasm_function> wraps;string err;int nops=0;
  struct pwart_symbol_resolver res;
  explicit Hist(u64 s):r(s){res.resolve=[](struct pwart_symbol_resolver*,struct pwart_symbol_resolve_request*q){q->result=(!strcmp(q->import_module,"hx")&&!strcmp(q->import_field,"f")&&q->kind==0)?(void*)&hostF7:nullptr;};}
  ~Hist(){for(auto p:st)delete p;for(auto p:hs)delete p;for(auto p:ns)delete p;}
  void fail(const string&s){if(err.empty())err=s;}
  vector<u8> build(St*s,const string&imod){Module m=tinyModule(s->k,s->fat,imod,s->fixed,s->mem,s->table,s->start?"x":"");return encode(m,0,nullptr);}
  St*mkSt(){St*s=new St;s->k=r.range(1,60000);s->fat=r.chance(15)?r.range(100,3000):r.chance(30)?r.range(1,60):0;s->mem=r.chance(60);s->table=r.chance(50);s->fixed=r.chance(50);s->start=r.chance(25);s->g=s->k;s->pages=s->mem?1+s->k%2:0;st.push_back(s);return s;}
  char*exact(const vector<u8>&b,size_t n){char*p=(char*)malloc(n?n:1);memcpy(p,b.data(),n);return p;}
  void check(St*s){ if(!s->live)return;cCalls++;
    u32 x=(u32)r.next();auto f=pwart_get_export_function(s->s,"f");if(!f){fail("export f is missing");return;}
    if(call1(f,x)!=x*s->k+7){fail("f(x) returns a wrong value");return;}
    if(r.chance(50)){auto i=pwart_get_export_function(s->s,"inc");s->g+=s->k;u32 v=call1(i,0);if(v!=s->g)fail(sfmt("inc() is %u expected %u",v,s->g));u32*gp=(u32*)pwart_get_export_global(s->s,"g");if(!gp||*gp!=s->g)fail("global g does not hold its value");}
    if(s->mem&&r.chance(60)){auto pk=pwart_get_export_function(s->s,"peek"),po=pwart_get_export_function(s->s,"poke");
      u32 d=s->k%1000;if(!s->pokes.count(0x10000)){u32 w=0;for(int i=0;i<4;i++)w|=(u32)(u8)(s->k+i)<<(8*i);if(call1(pk,d)!=w)fail("data segment bytes changed");}
      u32 a=2000+r.below(15000)*4,v=(u32)r.next();call1(po,a,v);s->pokes[a]=v;for(auto&q:s->pokes)if(call1(pk,q.first)!=q.second){fail("memory does not hold a stored value");break;}
      if(r.chance(15)){auto gr=pwart_get_export_function(s->s,"grow");u32 o=call1(gr,1);bool can=!s->fixed||s->pages<3;if(o!=(can?s->pages:~0u))fail(sfmt("memory.grow gives %u with %u pages",o,s->pages));else if(can)s->pages++;}}
    if(s->table&&r.chance(50)){auto ci=pwart_get_export_function(s->s,"ci");if(call1(ci,x)!=x*s->k+7)fail("call_indirect went wrong");auto*t=pwart_get_export_table(s->s,"tab");if(!t||t->entries[1]!=pwart_get_export_function(s->s,"inc"))fail("table entry changed");}
    if(s->fat&&r.chance(60)){auto m=pwart_get_export_function(s->s,"many");if(call1(m,x)!=fatValue(x,s->fat))fail("code of a large function changed");}
    auto via=pwart_get_export_function(s->s,"via");
    if(s->impHost){if(!via||call1(via,x)!=x*s->hostK+2)fail("imported host function gives a wrong value");}
    else if(s->imp&&s->imp->live){if(!via||call1(via,x)!=x*s->imp->k+8)fail("function imported from another module gives a wrong value");}
    if(r.chance(10)){if(pwart_module_state_get_user_data(s->s)!=s->ud)fail("user data changed");s->ud=(void*)(size_t)r.next();pwart_module_state_set_user_data(s->s,s->ud);}
    if(r.chance(10)){pwart_inspect_result1 q;memset(&q,0x5a,sizeof q);if(pwart_inspect_module_state(s->s,&q))fail("inspect failed");
      if(s->mem){auto*m=pwart_get_export_memory(s->s,"mem");if((u32)q.memory_size!=s->pages*65536||q.memory!=m->bytes||m->pages!=s->pages)fail("inspect: memory");}
      else if(q.memory_size||q.memory)fail("inspect: memory of a module without one");
      if(s->table){auto*t=pwart_get_export_table(s->s,"tab");if(q.table_entries_count!=(int)(2+s->k%3)||q.table_entries!=t->entries)fail("inspect: table");}
      u8*g=(u8*)pwart_get_export_global(s->s,"g");if(g<(u8*)q.globals_buffer||g+4>(u8*)q.globals_buffer+q.globals_buffer_size)fail("inspect: globals buffer");
      if(q.symbol_resolver!=s->res)fail("inspect: symbol resolver");}
    if(pwart_get_start_function(s->s)==nullptr&&s->start)fail("start function missing");
    if(s->start&&r.chance(10)){u64 z[64];pwart_call_wasm_function(pwart_get_start_function(s->s),z);s->g=s->k*3;}
  }
  string freshName(){static const char*n[]={"a","b","mod","mod2","env","x.y","a rather long module name that does not fit a small buffer"};return n[r.below(7)];}
  void defineWasm(int ni){
    Ns*N=ns[ni];St*s=mkSt();string name=freshName(),im;
    if(r.chance(50)&&N->mods.size()){auto it=N->mods.begin();std::advance(it,r.below(N->mods.size()));
      if(it->first!=name&&!(it->second.first==2&&!st[it->second.second]->live)){ if(it->second.first==2){im=it->first;s->imp=st[it->second.second];}else{im=it->first;s->impHost=true;s->hostK=hs[it->second.second]->kind==2?9:7;}}}
    vector<u8> b=build(s,im);bool bad=r.chance(15);size_t n=b.size();
    if(bad){if(r.chance(40)&&n>9)n=r.range(0,(int)n-1);else{b=build(s,"no such module");n=b.size();}}
    char*buf=exact(b,n);char*nm=strdup(name.c_str());char*e=nullptr;
    hx::note("ns%d define wasm '%s' k=%u mem=%d tab=%d fat=%d imports '%s'%s",ni,name.c_str(),s->k,s->mem,s->table,s->fat,im.c_str(),bad?" (damaged)":"");
    s->s=(pwart_module_state)pwart_namespace_define_wasm_module(N->n,nm,buf,(int)n,r.chance(10)?nullptr:&e);memset(buf,0xEE,n);free(buf);memset(nm,'Z',strlen(nm));free(nm);
    if(bad){s->live=false;if(s->s)  { // a prefix may still be a complete module (trailing data section cut at a section boundary)
        if(n==b.size()){fail("a module with an unresolvable import was loaded");}
        undefine(N,name);N->mods[name]={2,(int)st.size()-1};s->shared=true;s->ns=ni;s->name=name;s->live=false;cLoads++;
      }else cFails++;return;}
    if(!s->s){s->live=false;fail(string("a valid module failed to load: ")+(e?e:"?"));return;}
    cLoads++;undefine(N,name);N->mods[name]={2,(int)st.size()-1};s->ns=ni;s->name=name;s->res=pwart_namespace_resolver(N->n);check(s);}
  void undefine(Ns*N,const string&name){auto it=N->mods.find(name);if(it==N->mods.end())return;if(it->second.first==2)st[it->second.second]->live=false;else{hs[it->second.second]->attached--;hs[it->second.second]->det++;}N->mods.erase(it);}
  void defineHost(int ni){
    Ns*N=ns[ni];string name=freshName();int hi;
    if(hs.size()&&r.chance(30)){hi=r.below(hs.size());if(!hs[hi]->live)return;}
    else{Host*h=new Host;h->kind=r.below(3);
      if(h->kind==2){CustomHost*c=(CustomHost*)calloc(1,sizeof(CustomHost));c->base.resolve=chResolve;c->base.on_attached=chAtt;c->base.on_detached=chDet;h->h=&c->base;}
      else{h->names=new vector<const char*>{"zz","f","g"};h->fns=new vector<pwart_host_function_c>{nullptr,hostF7,hostF9};h->h=h->kind==0?pwart_namespace_new_host_module(h->names->data(),h->fns->data(),3):pwart_namespace_new_host_module2(h->names->data(),(void**)h->fns->data(),3);}
      hs.push_back(h);hi=hs.size()-1;}
    hx::note("ns%d define host %d '%s'",ni,hi,name.c_str());
    char*nm=strdup(name.c_str());pwart_namespace_define_host_module(N->n,nm,hs[hi]->h);memset(nm,'Q',strlen(nm));free(nm);
    undefine(N,name);N->mods[name]={1,hi};hs[hi]->attached++;hs[hi]->att++;}
  void op(){
    nops++;cOps++;
    switch(r.below(16)){
      case 0:{pwart_namespace n=pwart_namespace_new();Ns*N=new Ns;N->n=n;ns.push_back(N);hx::note("ns%zu new",ns.size()-1);break;}
      case 1:case 2:case 3:{if(ns.empty())break;int i=r.below(ns.size());if(ns[i]->live)defineWasm(i);break;}
      case 4:{if(ns.empty())break;int i=r.below(ns.size());if(ns[i]->live)defineHost(i);break;}
      case 5:{if(ns.empty())break;int i=r.below(ns.size());if(!ns[i]->live)break;string nm=freshName();hx::note("ns%d remove '%s'",i,nm.c_str());bool was=ns[i]->mods.count(nm);char*e=pwart_namespace_remove_module(ns[i]->n,nm.c_str());(void)e;(void)was;undefine(ns[i],nm);cFrees++;break;}
      case 6:{if(ns.empty()||!r.chance(40))break;int i=r.below(ns.size());if(ns[i]->live)freeNs(i);break;}
      case 7:{ // load_module convenience
        St*s=mkSt();vector<u8> b=build(s,"");bool bad=r.chance(20);size_t n=bad?r.below(b.size()):b.size();char*buf=exact(b,n);char*e=nullptr;s->s=(pwart_module_state)pwart_load_module(buf,(int)n,&e);free(buf);
        hx::note("load module k=%u n=%zu/%zu",s->k,n,b.size());
        if(!s->s){s->live=false;cFails++;if(!bad)fail(string("a valid module failed to load: ")+(e?e:""));}else{cLoads++;if(bad){s->shared=false;s->live=false;s->name="partial";}else check(s);}
        break;}
      case 8:case 9:{ // own compiler, possibly reused
        if(cs.empty()||r.chance(40)){Comp c;c.c=pwart_new_module_compiler();cs.push_back(c);hx::note("compiler %zu new",cs.size()-1);if(r.chance(20))break;}
        int ci=r.below(cs.size());if(!cs[ci].live)break;St*s=mkSt();string im;if(r.chance(50)){im="hx";s->impHost=true;s->hostK=7;}
        pwart_set_symbol_resolver(cs[ci].c,&res);s->res=&res;
        vector<u8> b=build(s,im);bool bad=r.chance(25);size_t n=b.size();if(bad){if(r.chance(70))n=r.below(b.size());else{b=build(s,"missing");n=b.size();}}
        char*buf=exact(b,n);hx::note("compiler %d compile k=%u%s",ci,s->k,bad?" damaged":"");char*e=pwart_compile(cs[ci].c,buf,(int)n);
        if(e){s->live=false;cFails++;if(!bad)fail(string("a valid module failed to compile: ")+e);}
        else{s->s=pwart_get_module_state(cs[ci].c);cLoads++;if(!s->s)fail("no module state");if(bad){s->live=false;s->name="partial";if(n==b.size())fail("unresolvable import accepted");}}
        memset(buf,0xEE,n);free(buf);
        if(r.chance(50)){pwart_free_module_compiler(cs[ci].c);cs[ci].live=false;hx::note("compiler %d free",ci);}
        if(s->live&&s->s)check(s);break;}
      case 10:{if(cs.empty())break;int ci=r.below(cs.size());if(!cs[ci].live)break;pwart_free_module_compiler(cs[ci].c);cs[ci].live=false;hx::note("compiler %d free",ci);cFrees++;break;}
      case 11:{int i=pickOwned();if(i<0)break;hx::note("free state %d",i);freeSt(i);break;}
      case 12:{ // move an own state into a namespace
        int i=pickOwned();if(i<0||ns.empty())break;int q=r.below(ns.size());if(!ns[q]->live||!st[i]->live)break;string nm=freshName();struct pwart_named_module m;memset(&m,0,sizeof m);char*n2=strdup(nm.c_str());m.name=n2;m.type=PWART_MODULE_TYPE_WASM_MODULE;m.val.wasm=st[i]->s;
        hx::note("ns%d define state %d as '%s'",q,i,nm.c_str());pwart_namespace_define_module(ns[q]->n,&m);free(n2);undefine(ns[q],nm);ns[q]->mods[nm]={2,i};st[i]->ns=q;st[i]->res=pwart_namespace_resolver(ns[q]->n);break;}
      case 13:{int sz=r.chance(30)?r.range(16,64):r.range(64,200000);u8*p=(u8*)pwart_allocate_stack(sz);if((size_t)p&15)fail("stack is not 16-aligned");memset(p,0x66,sz);stacks.push_back({p,sz});if(r.chance(50)&&stacks.size()>1){int i=r.below(stacks.size());pwart_free_stack(stacks[i].first);stacks.erase(stacks.begin()+i);cFrees++;}break;}
      case 14:{if(r.chance(50)||wraps.empty()){auto w=pwart_wrap_host_function_c(hostF7);if(call1(w,3)!=22)fail("wrapped function");wraps.push_back(w);}else{pwart_free_wrapped_function(wraps.back());wraps.pop_back();}break;}
      default:{for(int t=0;t<3&&st.size();t++)check(st[r.below(st.size())]);}
    }
    string b=hxTakeBad();if(!b.empty())fail(b);
    // every module found by name is the one defined
    if(ns.size()&&r.chance(30)){Ns*N=ns[r.below(ns.size())];if(N->live)for(auto&x:N->mods){auto*m=pwart_namespace_find_module(N->n,x.first.c_str());if(!m||m->type!=x.second.first){fail("namespace lookup");break;}if(x.second.first==2?m->val.wasm!=st[x.second.second]->s:m->val.host!=hs[x.second.second]->h)fail("namespace lookup gives another module");}}
  }
  int pickOwned(){vector<int> c;for(size_t i=0;i<st.size();i++)if(st[i]->s&&st[i]->ns<0&&(st[i]->live||st[i]->name=="partial"))c.push_back(i);return c.empty()?-1:c[r.below(c.size())];}
  void freeSt(int i){pwart_free_module_state(st[i]->s);st[i]->s=nullptr;st[i]->live=false;st[i]->name="";cFrees++;}
  void freeNs(int i){hx::note("ns%d delete",i);pwart_namespace_delete(ns[i]->n);ns[i]->live=false;while(ns[i]->mods.size()){string n=ns[i]->mods.begin()->first;undefine(ns[i],n);}cFrees++;}
  void finish(){
    vector<int> jobs;for(size_t i=0;i<ns.size();i++)jobs.push_back(i);for(size_t i=0;i<cs.size();i++)jobs.push_back(1000+i);for(size_t i=0;i<stacks.size();i++)jobs.push_back(2000+i);
    for(size_t i=jobs.size();i>1;i--)std::swap(jobs[i-1],jobs[r.below(i)]);
    for(int j:jobs){if(j>=2000)pwart_free_stack(stacks[j-2000].first);else if(j>=1000){if(cs[j-1000].live)pwart_free_module_compiler(cs[j-1000].c);}else if(ns[j]->live)freeNs(j);
      if(r.chance(50)){int i=pickOwned();if(i>=0)freeSt(i);}
      for(auto s:st)if(s->live&&r.chance(20))check(s);}
    for(int i;(i=pickOwned())>=0;)freeSt(i);
    for(auto w:wraps)pwart_free_wrapped_function(w);
    for(auto h:hs){if(h->kind==2){auto*c=(CustomHost*)h->h;if(c->att!=h->att||c->det!=h->det)fail(sfmt("host module callbacks ran %d/%d times, expected %d/%d",c->att,c->det,h->att,h->det));free(c);}else{pwart_namespace_delete_host_module(h->h);delete h->names;delete h->fns;}}
    string b=hxTakeBad();if(!b.empty())fail(b);
  }
};
static string leakCheck(const HxAllocStats&a,const char*what){
  sljit_free_unused_memory_exec();auto b=hxStats();cLeakChk++;cBlk+=b.allocs-a.allocs;
  if(b.blocks!=a.blocks)return sfmt("%s left %ld heap block(s), %ld bytes:",what,b.blocks-a.blocks,b.bytes-a.bytes)+hxLive();
  if(b.maps!=a.maps||b.execBytes!=a.execBytes)return sfmt("%s left %ld mapping(s), %ld bytes (%ld executable)",what,b.maps-a.maps,b.mapBytes-a.mapBytes,b.execBytes-a.execBytes);
  return "";}
void hxInit(){ // lazily initialised parts of libc and of the engine
  Rng r(5);Case c;Prof p=profileFor("generic",r);genCase(r,p,c);c.seed=1;runCase(c,rst);sljit_free_unused_memory_exec();hxTakeBad();}
string runOne(u64 seed,u64 idx){
  Rng r(seed*1000003+idx*7919);
  HxAllocStats a=hxStats();
  if(idx%4==0){ // generated programs through every load path
    static const char*P[]={"generic","C05","C11","C12","C14","C02","C04","C13"};string prof=P[r.below(8)];
    Case c;c.seed=r.next();c.profile=prof;Prof p=profileFor(prof,r);p.hugemem_pct=p.native_pct=0;genCase(r,p,c);hx::note("generated program, profile %s",prof.c_str());cEng++;
    string v=runCase(c,rst);if(!v.empty()&&v.compare(0,7,"HARNESS"))return v;
    string b=hxTakeBad();if(!b.empty())return b;
    string l=leakCheck(a,"loading, running and freeing a program");if(!l.empty())return l;
    hx::nontrivial(g_lastHash);return "";}
  string err;
  {struct pwart_global_compile_config g;g.stack_flags=r.chance(40)?1:0;g.misc_flags=r.below(4);if(r.chance(50))g.misc_flags=3;pwart_set_global_compile_config(&g);
   Hist h(r.next());int n=r.range(5,60);for(int i=0;i<n&&h.err.empty();i++){h.op();}
   cExec+=hxStats().execBytes;
   if(h.err.empty())h.finish();err=h.err;cHist++;
   if(err.empty())hx::nontrivial(hx::hashBytes(hx::S->note[hx::W],hx::S->noteLen[hx::W]));}
  if(!err.empty())return err;
  return leakCheck(a,"the history");
}
HX_MAIN("life")
