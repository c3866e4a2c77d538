// C18: a namespace against a map model, over histories of define / remove / find / import with awkward names and reused buffers.
#include "tiny.h"
#define HX_TYPES
#include "hx.h"
#include "hxalloc.h"
extern "C" void sljit_free_unused_memory_exec(void);
static hx::Counter cHist("histories"),cDef("definitions"),cRem("removals"),cFind("lookups_checked"),cImp("imports_checked"),cImpAbs("absent_imports_refused"),cAtt("attach_callbacks"),cDet("detach_callbacks"),cThis("namespace_meta_checked"),cImpBad("failed_redefinitions");
struct CH{pwart_host_module base;int att,det,live;u32 k;u32 id;pwart_namespace lastNs;string*findName;string*err;bool cb;};
static u32 hostK[16];
#define HFN(i) static void hk##i(void*fp){u32*p=(u32*)fp;p[0]=p[0]*hostK[i]+3;}
HFN(0)HFN(1)HFN(2)HFN(3)HFN(4)HFN(5)HFN(6)HFN(7)
static pwart_host_function_c HK[8]={hk0,hk1,hk2,hk3,hk4,hk5,hk6,hk7};
static u32 hostG[8];
static void chRes(pwart_host_module*h,pwart_symbol_resolve_request*q){CH*c=(CH*)h;q->result=nullptr;if(!strcmp(q->import_field,"f")&&q->kind==PWART_KIND_FUNCTION)q->result=(void*)HK[c->id];if(!strcmp(q->import_field,"g")&&q->kind==PWART_KIND_GLOBAL)q->result=&hostG[c->id];}
static void chAtt(pwart_host_module*h){CH*c=(CH*)h;c->att++;c->live++;c->lastNs=h->namespace2;cAtt++;if(c->findName&&h->namespace2){auto*m=pwart_namespace_find_module(h->namespace2,c->findName->c_str());if(!m||m->type!=PWART_MODULE_TYPE_HOST_MODULE||m->val.host!=h)if(c->err->empty())*c->err="on_attached runs before the module can be found";}}
static void chDet(pwart_host_module*h){CH*c=(CH*)h;c->det++;c->live--;cDet++;if(c->live<0&&c->err->empty())*c->err="on_detached without attachment";}
struct Ent{int type=0;CH*h=nullptr;pwart_module_state s=nullptr;u32 k=0;};
struct NS{pwart_namespace n;std::map<string,Ent> m;bool live=true;std::set<string> used;};
static string rname(Rng&r,const vector<string>&pool){
  switch(r.below(10)){case 0:{string s;int n=r.range(1,12);for(int i=0;i<n;i++)s+=(char)r.range(1,255);return s;}
    case 1:return string(r.range(100,460),'a'+r.below(2))+(char)('a'+r.below(3));
    case 2:{string s=r.pick(pool);s+=(char)r.range(1,255);return s;}
    case 3:{string s=r.pick(pool);if(s.size())s.pop_back();return s;}
    case 4:{string s=r.pick(pool);for(auto&c:s)if(r.chance(30))c=isupper(c)?tolower(c):toupper(c);return s;}
    default:return r.pick(pool);}}
void hxInit(){ }
static pwart_module_state loadImporter(NS&N,const string&iname,const string&myname,char**e,bool global){
  Module m;u32 ti=m.addType({{I32},{I32}});Import i;i.mod=iname;i.field=global?"g":"f";i.kind=global?3:0;i.type=ti;i.gt=I32;i.mut=true;m.imports.push_back(i);Func f;f.type=ti;if(global)f.body={I(OP_GGET,0),I(OP_LGET,0),I(0x6a)};else f.body={I(OP_LGET,0),I(OP_CALL,0)};m.funcs.push_back(f);m.exports.push_back({"via",0,global?0u:1u});
  auto b=encode(m,0,nullptr);char*p=(char*)malloc(b.size());memcpy(p,b.data(),b.size());char*nm=strdup(myname.c_str());
  auto s=(pwart_module_state)pwart_namespace_define_wasm_module(N.n,nm,p,b.size(),e);memset(p,0xEE,b.size());free(p);memset(nm,'#',strlen(nm));free(nm);return s;}
string runOne(u64 seed,u64 idx){
  Rng r(seed*1000003+idx*7919);HxAllocStats a0=hxStats();string err;cHist++;u64 H=seed;
  {vector<string> pool={"a","b","ab","env","Env","mod.sub","","x y"};for(int i=0;i<3;i++)pool.push_back(rname(r,pool));
   vector<CH*> hs;for(int i=0;i<8;i++){hostK[i]=2*i+5+r.below(1000);hostG[i]=(u32)r.next();}
   vector<NS> ns;int nn=r.range(1,3);for(int i=0;i<nn;i++){NS n;n.n=pwart_namespace_new();ns.push_back(n);ns.back().used.insert("pwart_namespace_meta");}
   auto drop=[&](NS&N,const string&nm){auto it=N.m.find(nm);if(it!=N.m.end())N.m.erase(it);};
   auto fail=[&](const string&s){if(err.empty())err=s;};
   auto expectCb=[&]{for(auto h:hs)if(h->cb){int live=0;for(auto&N:ns)for(auto&x:N.m)if(x.second.h==h)live++;if(h->live!=live){fail(sfmt("host module has %d attachments by its callbacks, %d by the history (attached %d times, detached %d times)",h->live,live,h->att,h->det));}}};
   auto lookup=[&](NS&N,const string&nm){cFind++;char*q=strdup(nm.c_str());auto*m=pwart_namespace_find_module(N.n,q);auto it=N.m.find(nm);
     if(it==N.m.end()){if(m&&m->type!=0)fail("lookup finds a module under a name that has none");}
     else if(!m)fail("lookup does not find a defined module");
     else if(m->type!=it->second.type)fail("lookup gives a module of another type");
     else if(it->second.type==1?m->val.host!=&it->second.h->base:m->val.wasm!=it->second.s)fail("lookup gives another module than the one last defined under the name");
     else if(strcmp(m->name,nm.c_str()))fail("the module found has another name");
     memset(q,'?',strlen(q));free(q);};
   int n=r.range(4,50);
   for(int o=0;o<n&&err.empty();o++){
     NS&N=ns[r.below(ns.size())];string nm=rname(r,pool);if(!N.live||nm=="pwart_namespace_meta")continue;
     if(pool.size()<24&&r.chance(30))pool.push_back(nm);
     int k=r.below(12);H=hx::mix(H,hx::hashBytes(nm.data(),nm.size(),k));
     if(k<3){ // host module
       CH*h;if(hs.size()&&(hs.size()>=8||r.chance(40)))h=hs[r.below(hs.size())];else{h=(CH*)calloc(1,sizeof(CH));h->id=hs.size();h->err=&err;h->cb=r.chance(80);h->base.resolve=chRes;if(h->cb){h->base.on_attached=chAtt;h->base.on_detached=chDet;}hs.push_back(h);}
       hx::note("ns%d define host %u as '%s'",(int)(&N-&ns[0]),h->id,nm.c_str());
       char*q=strdup(nm.c_str());h->findName=&nm;
       // the same host module under the same name again detaches and attaches it
       if(r.chance(50)){struct pwart_named_module m;memset(&m,0x3c,sizeof m);m.name=q;m.type=PWART_MODULE_TYPE_HOST_MODULE;m.val.host=&h->base;char*e=pwart_namespace_define_module(N.n,&m);if(e)fail("define reports an error");memset(&m,0xCC,sizeof m);}
       else pwart_namespace_define_host_module(N.n,q,&h->base);
       h->findName=nullptr;memset(q,'!',strlen(q));free(q);drop(N,nm);Ent e;e.type=1;e.h=h;N.m[nm]=e;N.used.insert(nm);cDef++;if(h->base.namespace2!=N.n)fail("namespace2 of the host module is not its namespace");}
     else if(k<6){u32 mk=r.range(1,50000);Module m=tinyModule(mk,0,"",false,false,false);auto b=encode(m,0,nullptr);bool bad=r.chance(10);
       if(bad){b.resize(b.size()-r.range(1,4));}
       hx::note("ns%d define wasm k=%u as '%s'%s",(int)(&N-&ns[0]),mk,nm.c_str(),bad?" (damaged: must change nothing)":"");
       char*p=(char*)malloc(b.size());memcpy(p,b.data(),b.size());char*q=strdup(nm.c_str());pwart_module_state s=nullptr;char*e=nullptr;
       if(r.chance(50)||bad)s=(pwart_module_state)pwart_namespace_define_wasm_module(N.n,q,p,b.size(),&e);
       else{s=(pwart_module_state)pwart_load_module(p,b.size(),&e);struct pwart_named_module w;memset(&w,0,sizeof w);w.name=q;w.type=PWART_MODULE_TYPE_WASM_MODULE;w.val.wasm=s;pwart_namespace_define_module(N.n,&w);}
       memset(p,0xEE,b.size());free(p);memset(q,'!',strlen(q));free(q);
       if(bad){cImpBad++;if(s)fail("a damaged module was defined");N.used.insert(nm);}
       else if(!s)fail(string("define failed: ")+(e?e:"?"));
       else{drop(N,nm);Ent x;x.type=2;x.s=s;x.k=mk;N.m[nm]=x;N.used.insert(nm);cDef++;}}
     else if(k<8){hx::note("ns%d remove '%s'",(int)(&N-&ns[0]),nm.c_str());char*q=strdup(nm.c_str());pwart_namespace_remove_module(N.n,q);memset(q,'!',strlen(q));free(q);drop(N,nm);cRem++;}
     else if(k<10){ // import by name
       if(N.m.size()&&r.chance(60)){auto it=N.m.begin();std::advance(it,r.below(N.m.size()));nm=it->first;}
       if(nm.size()>490)continue;bool g=r.chance(30);char*e=nullptr;auto it=N.m.find(nm);bool want=it!=N.m.end();
       string my="importer name that no pool contains";hx::note("ns%d import '%s'",(int)(&N-&ns[0]),nm.c_str());
       auto s=loadImporter(N,nm,my,&e,g);
       if(!want){if(s)fail("an import from an absent module was resolved");cImpAbs++;}
       else if(!s)fail(string("import from a defined module failed: ")+(e?e:"?"));
       else{u32 x=(u32)r.next();u32 v=call1(pwart_get_export_function(s,"via"),x);u32 w=g?(it->second.type==1?hostG[it->second.h->id]+x:it->second.k+x):(it->second.type==1?x*hostK[it->second.h->id]+3:x*it->second.k+7);if(v!=w)fail("the import is bound to another module");cImp++;}
       if(s)pwart_namespace_remove_module(N.n,my.c_str());}
     else if(k==10&&r.chance(20)){hx::note("ns%d delete",(int)(&N-&ns[0]));pwart_namespace_delete(N.n);N.live=false;N.m.clear();}
     else if(k==11){ // the namespace itself
       Module m;u32 t=m.addType({{},{EXTERNREF}});Import i;i.mod="pwart_namespace_meta";i.field="this";i.kind=3;i.gt=EXTERNREF;m.imports.push_back(i);Func f;f.type=t;f.body={I(OP_GGET,0)};m.funcs.push_back(f);m.exports.push_back({"t",0,0});
       auto b=encode(m,0,nullptr);char*e=nullptr;auto s=(pwart_module_state)pwart_namespace_define_wasm_module(N.n,"\x01meta user",(char*)b.data(),b.size(),&e);
       if(!s)fail(string("pwart_namespace_meta.this cannot be imported: ")+(e?e:""));else{u64 st[64]={0};pwart_call_wasm_function(pwart_get_export_function(s,"t"),st);if((pwart_namespace)st[0]!=N.n)fail("pwart_namespace_meta.this is not the namespace");cThis++;pwart_namespace_remove_module(N.n,"\x01meta user");}}
     expectCb();
     for(auto&Q:ns)if(Q.live){for(auto&x:Q.m)if(err.empty())lookup(Q,x.first);for(int i=0;i<4&&err.empty();i++)lookup(Q,rname(r,pool)=="pwart_namespace_meta"?"a":r.pick(pool));
       // live wasm modules still run
       if(err.empty()&&r.chance(20))for(auto&x:Q.m)if(x.second.type==2){u32 v=(u32)r.next();if(call1(pwart_get_export_function(x.second.s,"f"),v)!=v*x.second.k+7)fail("a module in the namespace no longer works");}}
     string b=hxTakeBad();if(!b.empty())fail(b);}
   for(auto&N:ns)if(N.live){pwart_namespace_delete(N.n);N.live=false;N.m.clear();if(err.empty())expectCb();}
   for(auto h:hs)if(h->cb&&h->att!=h->det&&err.empty())err=sfmt("a host module was attached %d times and detached %d times",h->att,h->det);
   for(auto h:hs)free(h);}
  if(!err.empty())return err;
  string b=hxTakeBad();if(!b.empty())return b;
  sljit_free_unused_memory_exec();auto a1=hxStats();if(a1.blocks!=a0.blocks||a1.execBytes!=a0.execBytes)return sfmt("%ld heap blocks and %ld bytes of executable memory left:",a1.blocks-a0.blocks,a1.execBytes-a0.execBytes)+hxLive();
  hx::nontrivial(H);return "";}
HX_MAIN("ns")
