// C20: several threads run generated programs (load, compile, call, free) and call functions of shared modules at the same time.
// Oracle 1: every result equals the one of the reference interpreter, or of the same call made alone. Oracle 2: ThreadSanitizer on the library.
#include "tiny.h"
#include "../engine/run.h"
#define HX_TYPES
#include "hx.h"
#include <thread>
#include <sched.h>
extern "C" void sljit_free_unused_memory_exec(void);
static hx::Counter cProg("programs_run_concurrently"),cCall("shared_function_calls"),cRegion("shared_memory_region_calls"),cThreads("threads_started"),cOver("operations_started_while_another_ran"),cInter("distinct_interleavings"),cVals("values_compared"),cFree("executable_memory_releases"),cNs("private_namespaces"),cWrap("wrapped_host_functions"),cStack("runtime_stacks");
static const char*PROFS[]={"generic","C01","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13"};
// a host function of the shared module: mixes its arguments
static void hostMix(void*fp){void*sp=fp;u32 a=pwart_rstack_get_i32(&sp);u64 b=pwart_rstack_get_i64(&sp);sp=fp;sched_yield();pwart_rstack_put_i64(&sp,(b^a)*0x9E3779B97F4A7C15ull+(a>>3));}
static u64 mixv(u32 a,u64 b){return (b^a)*0x9E3779B97F4A7C15ull+(a>>3);}
struct Shared{pwart_module_state ms;pwart_namespace ns;Module m;vector<u32> fns;};
static pwart_host_module HM;static pwart_wasm_function MIX;
static void hmRes(pwart_host_module*,pwart_symbol_resolve_request*q){q->result=!strcmp(q->import_field,"mix")&&q->kind==PWART_KIND_FUNCTION?MIX:nullptr;}
// module whose functions work on the 4 KiB region named by their first argument
static Module regionModule(u32 k,bool fixed){
  Module m;u32 tm=m.addType({{I32,I64},{I64}}),t0=m.addType({{I32,I32},{I64}}),tb=m.addType({{I32,I32},{I32}}),tl=m.addType({{EXTERNREF},{I32}}),tri=m.addType({{I32,I64},{EXTERNREF}});
  Import i;i.mod="env";i.field="mix";i.kind=0;i.type=tm;m.imports.push_back(i);i.mod="pwart_builtin";i.field="ref_string_length";i.type=tl;m.imports.push_back(i);i.field="ref_from_index";i.type=tri;m.imports.push_back(i);
  MemT t;t.min=2;t.hasmax=fixed;t.max=2;m.mems.push_back(t);m.exports.push_back({"mem",2,0});
  TableT tt;tt.et=FUNCREF;tt.min=16;tt.hasmax=true;tt.max=16;m.tables.push_back(tt);
  GlobalT g;g.t=I32;g.init={I(OP_I32C,0,0,k)};m.globals.push_back(g);
  auto add=[&](const char*n,u32 ty,const Code&b,vector<VT> loc={}){Func f;f.type=ty;f.body=b;f.locals=loc;m.funcs.push_back(f);u32 x=3+(u32)m.funcs.size()-1;m.exports.push_back({n,0,x});return x;};
  // fib(x): plain recursion, self reached through the table as well
  u32 self=3;
  u32 fib=add("fib",t0,{I(OP_LGET,1),I(OP_I32C,0,0,2),I(0x48),I(OP_IF,I64),I(OP_LGET,1),I(0xac),I(OP_ELSE),I(OP_LGET,0),I(OP_LGET,1),I(OP_I32C,0,0,1),I(0x6b),I(OP_CALL,self),I(OP_LGET,0),I(OP_LGET,1),I(OP_I32C,0,0,2),I(0x6b),I(OP_I32C,0,0,3),I(OP_CALLI,t0,0),I(0x7c),I(OP_END)});
  // work(base,n): fill, copy, store and sum in the region; division, float conversions, rotates
  u32 work=add("work",t0,{
    I(OP_LGET,0),I(OP_LGET,1),I(OP_I32C,0,0,512),I(OP_MFILL),
    I(OP_LGET,0),I(OP_I32C,0,0,600),I(0x6a),I(OP_LGET,0),I(OP_I32C,0,0,300),I(0x6a),I(OP_I32C,0,0,400),I(OP_MCOPY),
    I(OP_LOOP,VOID),
      I(OP_LGET,0),I(OP_LGET,2),I(OP_I32C,0,0,3),I(0x74),I(0x6a),I(OP_LGET,3),I(OP_LGET,0),I(OP_LGET,2),I(0x6a),I(0x31,0,0,0),I(0x7c),I(OP_I64C,0,0,0x9E3779B97F4A7C15ull),I(0x7e),I(OP_LTEE,3),I(0x37,0,0,1024),
      I(OP_LGET,2),I(OP_I32C,0,0,1),I(0x6a),I(OP_LTEE,2),I(OP_LGET,1),I(OP_I32C,0,0,63),I(0x71),I(0x49),I(OP_BRIF,0),
    I(OP_END),
    I(OP_LGET,3),I(OP_LGET,1),I(0xad),I(0x89),I(OP_LGET,3),I(OP_I64C,0,0,255),I(0x83),I(0xb9),I(0x9f),I(OP_F64C,0,0,0x40c3880000000000ull),I(0xa2),I(0xb0),I(0x7c),
    I(OP_LGET,3),I(OP_LGET,1),I(0xad),I(OP_I64C,0,0,7),I(0x7c),I(0x80),I(0x7c)},{I32,I64});
  // host(base,n)
  u32 host=add("host",t0,{I(OP_LGET,0),I(OP_LGET,1),I(0xad),I(OP_I64C,0,0,3),I(0x7e),I(OP_CALL,0),I(OP_LGET,1),I(OP_LGET,0),I(0xad),I(OP_CALL,0),I(0x7c),I(OP_GGET,0),I(0xad),I(0x7c)});
  // strlen(base,n): writes n letters and a zero, asks the builtin
  u32 sl=add("strlen",t0,{I(OP_LGET,0),I(OP_I32C,0,0,65),I(OP_LGET,1),I(OP_MFILL),I(OP_LGET,0),I(OP_LGET,1),I(0x6a),I(OP_I32C,0,0,0),I(0x3a),I(OP_I32C,0,0,0),I(OP_LGET,0),I(0xad),I(OP_CALL,2),I(OP_CALL,1),I(0xad)});
  // slot(base,n): a table slot of its own
  add("size",t0,{I(OP_MSIZE),I(0xad),I(OP_TSIZE,0),I(0xad),I(0x7c),I(OP_I32C,0,0,4),I(OP_TGET,0),I(OP_REFISNULL),I(0xad),I(0x7c)});
  Elem e;e.off={I(OP_I32C,0,0,3)};e.funcs={fib,work,host,sl};m.elems.push_back(e);
  return m;}
static u64 call2(pwart_wasm_function f,u8*stk,u32 a,u32 b){u32*p=(u32*)(stk+64);p[0]=a;p[1]=b;pwart_call_wasm_function(f,p);u64 r;memcpy(&r,p,8);return r;}
static void callN(pwart_wasm_function f,u8*stk,const FuncType&t,const vector<u64>&args,vector<u64>&res){
  u8*p=stk+64;size_t o=0;for(size_t i=0;i<t.p.size();i++){if(vsize(t.p[i])==4){u32 v=args[i];memcpy(p+o,&v,4);o+=4;}else{memcpy(p+o,&args[i],8);o+=8;}}
  pwart_call_wasm_function(f,p);o=0;res.clear();for(VT r:t.r){u64 v=0;memcpy(&v,p+o,vsize(r));o+=vsize(r);
    if(r==F32&&isnan32(v))v=0x7fc00000;if(r==F64&&isnan64(v))v=0x7ff8000000000000ull;res.push_back(v);}}
struct Op{int kind;u64 seed;pwart_wasm_function fn;const FuncType*ft;vector<u64> args,want;u32 a,b;u64 w;};
static std::atomic<int> inflight,go;static std::atomic<u32> ticket;static u8 order[4096];
static void threadBody(int id,vector<Op>*ops,string*err,u64 seed,RunStats*st,u64*over,Shared*shared){
  Rng r(seed);u8*stk=(u8*)pwart_allocate_stack(1<<16);u8*base=stk;
  go.fetch_sub(1);while(go.load(std::memory_order_relaxed)>0)sched_yield();
  for(auto&o:*ops){
    if(inflight.fetch_add(1,std::memory_order_relaxed)>0)(*over)++;
    u32 t=ticket.fetch_add(1,std::memory_order_relaxed);if(t<sizeof order)order[t]=(u8)(id*16+o.kind);
    if(r.chance(20))sched_yield();if(r.chance(5))usleep(r.below(200));
    switch(o.kind){
      case 0:{Rng q(o.seed);Case c;const char*pn=PROFS[q.below(sizeof PROFS/sizeof*PROFS)];Prof p=profileFor(pn,q);p.hugemem_pct=p.native_pct=0;genCase(q,p,c);c.seed=q.next();c.stack_flags=0;c.misc_flags=3;string v=runCase(c,*st);if(v.size()&&err->empty())*err=sfmt("thread %d, generated program (%s): ",id,pn)+v;break;}
      case 1:{vector<u64> res;callN(o.fn,stk,*o.ft,o.args,res);if(res!=o.want&&err->empty())*err=sfmt("thread %d: a call of a shared function gives %zu results with other values than alone",id,res.size());break;}
      case 2:{u64 v=call2(o.fn,stk,o.a,o.b);if(v!=o.w&&err->empty())*err=sfmt("thread %d: shared memory-region function(%u,%u) gives %llx, alone it gives %llx",id,o.a,o.b,(unsigned long long)v,(unsigned long long)o.w);break;}
      case 3:sljit_free_unused_memory_exec();break;
      case 4:{pwart_namespace ns=pwart_namespace_new();u32 k=o.seed%10000+1;Module t2=tinyModule(k,(int)(o.seed%300),"",o.seed&1,true,true,"");vector<u8> b=encode(t2,0,nullptr);char*e=nullptr;auto s=(pwart_module_state)pwart_namespace_define_wasm_module(ns,"t",(char*)b.data(),b.size(),&e);
        if(!s){if(err->empty())*err="a good module failed to load in a thread";}
        else{u32 x=(u32)(o.seed>>7);if(call1(pwart_get_export_function(s,"ci"),x)!=x*k+7&&err->empty())*err="a module loaded in a thread computes a wrong value";
          if(o.seed&2){// a damaged module in between
            vector<u8> d=b;d.resize(d.size()-3-(o.seed>>9)%5);char*e2=nullptr;pwart_namespace_define_wasm_module(ns,"bad",(char*)d.data(),d.size(),&e2);if(!e2&&err->empty())*err="a damaged module loaded in a thread reports no error";}}
        pwart_namespace_delete(ns);break;}
      case 5:{pwart_wasm_function w=pwart_wrap_host_function_c(hostMix);u8*p=stk+64;u32 a=o.a;u64 b=o.seed;memcpy(p,&a,4);memcpy(p+4,&b,8);pwart_call_wasm_function(w,p);u64 v;memcpy(&v,p,8);if(v!=mixv(a,b)&&err->empty())*err="a host function wrapped in a thread gives a wrong result";pwart_free_wrapped_function(w);break;}
      case 6:{void*s2=pwart_allocate_stack(4096);memset(s2,(int)o.seed,4096);for(int i=0;i<4096;i+=64)if(((u8*)s2)[i]!=(u8)o.seed)*err="a runtime stack is not private";pwart_free_stack(s2);break;}
      case 7:{if(pwart_get_export_function(shared->ms,"nothing such")&&err->empty())*err="lookup finds what is not there";auto*f=pwart_get_export_function(shared->ms,sfmt("f%u",o.a).c_str());if(f!=o.fn&&err->empty())*err="a concurrent export lookup finds another function";break;}
    }
    inflight.fetch_sub(1,std::memory_order_relaxed);
  }
  pwart_free_stack(base);
}
static string scenario(Rng&r){
  Shared sh;vector<pwart_wasm_function> rf;
  pwart_namespace ns=pwart_namespace_new();pwart_namespace_define_host_module(ns,"env",&HM);
  // shared pure module: no mutable globals, memories or table writes
  {Prof p=profileFor("generic",r);p.nmem_max=0;p.nglob_max=0;p.nhost_max=0;p.tab_import_pct=0;p.types_ref_pct=0;p.s_tset=p.s_tfill=p.s_tcopy=0;p.nf_max=8;p.e_calli=6;Case c;genCase(r,p,c);sh.m=c.mods[0];}
  vector<u8> b=encode(sh.m,0,nullptr);char*e=nullptr;sh.ms=(pwart_module_state)pwart_namespace_define_wasm_module(ns,"pure",(char*)b.data(),b.size(),&e);if(!sh.ms)return string("the shared module failed to load: ")+(e?e:"?");
  Module rm=regionModule(r.range(1,1000),r.chance(50));vector<u8> b2=encode(rm,0,nullptr);auto rms=(pwart_module_state)pwart_namespace_define_wasm_module(ns,"region",(char*)b2.data(),b2.size(),&e);if(!rms)return string("the shared region module failed to load: ")+(e?e:"?");
  static const char*RF[]={"fib","work","host","strlen","size"};for(auto n:RF)rf.push_back(pwart_get_export_function(rms,n));
  int T=r.range(2,6);vector<vector<Op>> ops(T);u8*stk=(u8*)pwart_allocate_stack(1<<16);
  // which calls of the pure module terminate in the model
  Store st;Instance*in=st.instantiate(&sh.m,{},{},{},{});st.maxsteps=3000;
  int mode=r.below(4);u64 nCalls=0,nProg=0,nReg=0,nFree=0,nNs=0,nWr=0,nSt=0;
  for(int t=0;t<T;t++){int n=r.range(4,14);for(int i=0;i<n;i++){Op o;o.seed=r.next();o.a=r.next();int k=r.below(100);
      o.kind=mode==1?(k<70?0:k<80?3:k<90?4:5):mode==2?(k<60?1:k<90?2:7):k<20?0:k<45?1:k<65?2:k<70?3:k<82?4:k<90?5:k<95?6:7;
      if(o.kind==1){bool ok=false;for(int q=0;q<6&&!ok;q++){u32 fi=r.below(sh.m.funcs.size());FuncObj*f=in->funcs[fi];vector<V> a,rs;o.args.clear();for(VT v:f->ft.p){u64 x=constOf(r,v,0);if(v==I32&&r.chance(50))x=r.below(6);o.args.push_back(x);V y;y.v=x;a.push_back(y);}
          st.steps=0;st.depth=0;st.frameUnits=0;try{st.call(f,a,rs);ok=true;}catch(Trap&){}
          if(ok){bool tn=false;for(auto&y:rs)if(y.t)tn=true;o.fn=pwart_get_export_function(sh.ms,sfmt("f%u",fi).c_str());o.ft=&f->ft;callN(o.fn,stk,f->ft,o.args,o.want);(void)tn;}}
        if(!ok)o.kind=2;}
      if(o.kind==2){u32 q=r.below(RF?5:0);o.fn=rf[q];o.a=(t*8+r.below(8))*2048+0;o.a=t*8192+r.below(2)*4096;o.b=q==0?r.below(13):q==3?r.below(4000):(u32)r.below(1000);o.w=call2(o.fn,stk,o.a,o.b);nReg++;}
      if(o.kind==7){o.a=r.below(sh.m.funcs.size());o.fn=pwart_get_export_function(sh.ms,sfmt("f%u",o.a).c_str());}
      if(o.kind==0)nProg++;if(o.kind==1){nCalls++;cVals+=o.want.size();}if(o.kind==3)nFree++;if(o.kind==4)nNs++;if(o.kind==5)nWr++;if(o.kind==6)nSt++;
      // a call repeated many times gives other threads time to interfere
      int rep=o.kind==1||o.kind==2?r.range(1,20):1;for(int z=0;z<rep;z++)ops[t].push_back(o);}}
  pwart_free_stack(stk);
  // the region functions leave state behind: the expectation of each call must not depend on it (work fills before it reads)
  vector<string> err(T);vector<RunStats> rs(T);vector<u64> over(T,0);vector<std::thread> th;memset(rs.data(),0,sizeof(RunStats)*T);
  go=T;inflight=0;ticket=0;
  for(int t=0;t<T;t++)th.emplace_back(threadBody,t,&ops[t],&err[t],r.next(),&rs[t],&over[t],&sh);
  for(auto&t:th)t.join();
  pwart_namespace_delete(ns);
  u32 n=ticket;if(n>sizeof order)n=sizeof order;u64 h=hx::hashBytes(order,n);
  u64 ov=0;for(u64 x:over)ov+=x;cOver+=ov;cThreads+=T;cProg+=nProg;cCall+=nCalls;cRegion+=nReg;cFree+=nFree;cNs+=nNs;cWrap+=nWr;cStack+=nSt;
  for(auto&q:rs)cVals+=q.resvals+q.hostcalls;
  hx::note("%d threads, %u operations, %llu started while another ran, mode %d",T,n,(unsigned long long)ov,mode);
  if(ov){cInter++;hx::nontrivial(h);}
  for(auto&s:err)if(s.size())return s;
  return "";}
void hxInit(){
  hx::batch=2;g_keepConfig=true;struct pwart_global_compile_config cfg;cfg.stack_flags=0;cfg.misc_flags=3;pwart_set_global_compile_config(&cfg);
  memset(&HM,0,sizeof HM);HM.resolve=hmRes;MIX=pwart_wrap_host_function_c(hostMix);
  Rng r(5);RunStats st;memset(&st,0,sizeof st);for(int i=0;i<3;i++){Case c;Prof p=profileFor("generic",r);genCase(r,p,c);c.stack_flags=0;c.misc_flags=3;c.seed=1;runCase(c,st);}
  pwart_namespace ns=pwart_namespace_new();pwart_namespace_delete(ns);}
string runOne(u64 seed,u64 idx){Rng r(seed*1000003+idx*7919);return scenario(r);}
int main(int c,char**v){return hx::run("thr",c,v,4);}
