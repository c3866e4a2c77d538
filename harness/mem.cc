// C08 (default), C10 (-DBULK), C11 (-DTAB): sweeps over single memory and table instructions. One module holds a dozen functions, each one
// instruction in one combination of operand forms; they are called in random order, many times, against byte arrays kept beside.
#include "tiny.h"
#define HX_TYPES
#include "hx.h"
#include "hxalloc.h"
#include <sys/mman.h>
extern "C" void sljit_free_unused_memory_exec(void);
#ifdef BULK
#ifdef WIDEB
#define NAME "wideb"
#else
#define NAME "bulk"
#endif
static hx::Counter cOp("bulk_instructions_executed"),cOver("overlapping_copies"),cZero("zero_lengths"),cEnd("ranges_up_to_the_end"),cCross("copies_between_memories"),cGrow("memory_grows"),cSize("memory_sizes"),cWide("copies_and_fills_of_2_gb_and_more"),cBytes("bytes_moved_or_filled"),cCmp("memory_bytes_compared"),cLeak("leak_checks");
#elif defined(GROW)
#define NAME "grow"
static hx::Counter cGrow("grows_that_succeeded"),cFailed("grows_refused"),cInj("grows_with_allocation_refused"),cBig("grows_to_more_than_a_gigabyte"),cZero("grows_by_nothing"),cIn("accesses_after_a_grow_in_the_same_call"),cSize("sizes_compared"),cNew("new_pages_compared_with_zero"),cCmp("memory_bytes_compared"),cLeak("leak_checks");
#include <atomic>
static std::atomic<int>*bigLock=(std::atomic<int>*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
#elif defined(SIG)
#define NAME "sig"
static hx::Counter cCall("calls_compared"),cVal("results_compared"),cHost("host_calls_compared"),cWideP("calls_with_more_than_30_parameters"),cTail("tail_calls"),cPend("calls_with_operands_pending"),cLeak("leak_checks");
#elif defined(TAB)
#define NAME "tab"
static hx::Counter cOp("table_instructions_executed"),cOver("overlapping_copies"),cZero("zero_lengths"),cEnd("ranges_up_to_the_end"),cCross("copies_between_tables"),cCall("indirect_calls"),cNull("null_tests"),cBig("cases_with_tables_above_65530_entries"),cSize("table_sizes"),cEnt("entries_compared"),cLeak("leak_checks");
#else
#define NAME "mem"
static hx::Counter cLd("loads_compared"),cSt("stores_compared"),cHuge("accesses_to_memories_of_4_gb"),c64("accesses_with_64_bit_indices"),cFar("effective_addresses_above_2_gb"),cVast("effective_addresses_above_4_gb"),cEnd("accesses_to_the_last_bytes"),cUnal("unaligned_accesses"),cGrow("memory_grows"),cCmp("memory_bytes_compared"),cLeak("leak_checks");
#endif
static const u64 HUGESZ=65536ull*65536*5;
static u8*reserve(){u8*p=(u8*)mmap(0,HUGESZ+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);if(p==MAP_FAILED)_exit(96);mprotect(p,4096,PROT_NONE);mprotect(p+4096+HUGESZ,4096,PROT_NONE);return p+4096;}
static u8*hugeR,*hugeM;static pwart_wasm_memory hostMem[2];
struct Mm{bool is64,huge,fixed,own;u32 pages,max;pwart_wasm_memory*m=nullptr;vector<u8> v;u8*shadow(){return huge?hugeM:v.data();}u64 size(){return (u64)pages*65536;}};
static u16 kop(VT t){return t==I32?OP_I32C:t==I64?OP_I64C:t==F32?OP_F32C:OP_F64C;}
static const VT TS[4]={I32,I64,F32,F64};
static inline int ti(VT t){return t==I32?0:t==I64?1:t==F32?2:3;}
struct World{
  Rng r;Module m;vector<Mm> mm;pwart_namespace ns=nullptr;pwart_module_state md=nullptr;pwart_host_module*hm=nullptr;string err;u8*sp;
  explicit World(u64 s):r(s){}
  u32 fnBase(){return m.nimp(0);}
  u32 add(const FuncType&ft,const Code&c,const vector<VT>&loc,const string&n){Func f;f.type=m.addType(ft);f.locals=loc;f.body=c;m.funcs.push_back(f);m.exports.push_back({n,0,(u32)m.funcs.size()-1+fnBase()});return (u32)m.funcs.size()-1+fnBase();}
  void memories(int n,bool allowHuge){int huges=0;
    vector<Mm> imp,own;for(int i=0;i<n;i++){Mm x;x.huge=allowHuge&&!huges&&r.chance(25);if(x.huge)huges++;x.is64=r.chance(25);x.own=!x.huge;x.fixed=x.huge||r.chance(50);x.pages=x.huge?65536*(x.is64?r.pick(vector<int>{1,1,2,5}):1):r.chance(15)?r.range(2,9):r.range(1,2);x.max=x.huge?x.pages:x.fixed?x.pages+r.below(4):x.pages+6;(x.own?own:imp).push_back(x);}
    for(auto&x:imp){Import i;i.mod="h";i.field="m";i.kind=2;i.min=1;i.hasmax=true;i.max=x.pages;i.is64=x.is64;m.imports.push_back(i);mm.push_back(x);}
    for(auto&x:own){MemT t;t.min=x.pages;t.hasmax=x.fixed;t.max=x.max;t.is64=x.is64;m.mems.push_back(t);m.exports.push_back({sfmt("m%zu",mm.size()),2,(u32)mm.size()});mm.push_back(x);}}
  bool load(){
    struct pwart_global_compile_config cfg;cfg.stack_flags=r.below(2);cfg.misc_flags=3;pwart_set_global_compile_config(&cfg);
    vector<u8> b=encode(m,r.chance(20)?r.range(1,60):0,&r);char*e=nullptr;ns=pwart_namespace_new();
    bool anyHuge=false;for(auto&x:mm)if(x.huge)anyHuge=true;
    if(anyHuge){if(!hugeR){hugeR=reserve();hugeM=reserve();}else{madvise(hugeR,HUGESZ,MADV_DONTNEED);madvise(hugeM,HUGESZ,MADV_DONTNEED);}memset(&hostMem[0],0,sizeof hostMem[0]);{u32 hp=65536;for(auto&x:mm)if(x.huge)hp=x.pages;hostMem[0].initial=hostMem[0].maximum=hostMem[0].pages=hp;}hostMem[0].bytes=hugeR;hostMem[0].fixed=1;
      static const char*N[]={"m"};static void*S[1];S[0]=&hostMem[0];hm=pwart_namespace_new_host_module2(N,S,1);pwart_namespace_define_host_module(ns,"h",hm);}
    md=(pwart_module_state)pwart_namespace_define_wasm_module(ns,"t",(char*)b.data(),b.size(),&e);if(!md){err=string("a good module failed to load: ")+(e?e:"?");return false;}
    for(size_t i=0;i<mm.size();i++){auto&x=mm[i];x.m=x.huge?&hostMem[0]:pwart_get_export_memory(md,sfmt("m%zu",i).c_str());if(!x.m){err="memory not found";return false;}if(x.m->pages!=x.pages){err=sfmt("memory %zu has %u pages, expected %u",i,x.m->pages,x.pages);return false;}
      if(!x.huge){x.v.assign(x.size(),0);u64 z=r.next();for(size_t k=0;k+8<=x.v.size();k+=8){z=z*6364136223846793005ull+1442695040888963407ull;memcpy(&x.v[k],&z,8);}memcpy(x.m->bytes,x.v.data(),x.v.size());}}
    static u8*stk=nullptr;if(!stk)stk=(u8*)pwart_allocate_stack(1<<16);sp=stk+64;return true;}
  void done(){if(ns)pwart_namespace_delete(ns);if(hm)pwart_namespace_delete_host_module(hm);}
  pwart_wasm_function fn(const string&n){auto f=pwart_get_export_function(md,n.c_str());if(!f&&err.empty())err="export "+n+" not found";return f;}
  void put(void**p,VT t,u64 v){switch(t){case I32:pwart_rstack_put_i32(p,(u32)v);break;case F32:{float f;u32 x=(u32)v;memcpy(&f,&x,4);pwart_rstack_put_f32(p,f);break;}case F64:{double f;memcpy(&f,&v,8);pwart_rstack_put_f64(p,f);break;}default:pwart_rstack_put_i64(p,v);}}
  u64 call(pwart_wasm_function f,const FuncType&t,const vector<u64>&a){memset(sp-16,0xC3,112);void*p=sp;for(size_t i=0;i<a.size();i++)put(&p,t.p[i],a[i]);pwart_call_wasm_function(f,sp);u64 g;memcpy(&g,sp,8);return g;}
  string compare(const char*what){for(size_t i=0;i<mm.size();i++){auto&x=mm[i];if(x.huge)continue;if(x.m->pages!=x.pages)return sfmt("memory %zu has %u pages after %s, expected %u",i,x.m->pages,what,x.pages);cmp(x.v.size());if(memcmp(x.m->bytes,x.v.data(),x.v.size())){size_t k=0;while(x.m->bytes[k]==x.v[k])k++;return sfmt("byte %zu of memory %zu is %02x after %s, expected %02x",k,i,x.m->bytes[k],what,x.v[k]);}}return "";}
#if defined(TAB)||defined(SIG)
  void cmp(u64){}
#else
  void cmp(u64 n){cCmp+=n;}
#endif
  // pushes the value of parameter l of type t in some form; k>=0: as this constant
  void operand(Code&c,u32 l,VT t,bool konst,u64 k,vector<VT>&loc,u32 np,int scratchMem){
    auto E=[&](u16 a,u32 x=0,u32 y=0,u64 kk=0){c.push_back(I(a,x,y,kk));};
    if(konst){E(kop(t),0,0,k);return;}
    switch(r.below(isfloat(t)?6:9)){
      case 0:case 1:E(OP_LGET,l);break;
      case 2:{int pad=r.below(12);for(int i=0;i<pad;i++)loc.push_back(TS[r.below(4)]);loc.push_back(t);u32 x=np+(u32)loc.size()-1;E(OP_LGET,l);if(r.chance(50)){E(OP_LSET,x);E(OP_LGET,x);}else E(OP_LTEE,x);break;}
      case 3:E(OP_LGET,l);E(OP_GSET,ti(t));E(OP_GGET,ti(t));break;
      case 4:E(OP_BLOCK,t);E(OP_LGET,l);E(OP_END);break;
      case 5:E(OP_LGET,l);E(OP_CALL,fnBase()+ti(t));break;
      case 6:E(OP_LGET,l);E(kop(t),0,0,0);E(t==I32?0x6a:0x7c);break;
      case 7:E(OP_LGET,l);if(t==I32){E(OP_LGET,l);E(0x72);}else{E(OP_LGET,l);E(0x84);}break;
      default:E(OP_LGET,l);if(t==I32){E(0xad);E(0xa7);}else{E(OP_I64C,0,0,~0ull);E(0x83);}break;}}
  void common(){for(int i=0;i<4;i++){GlobalT g;g.t=TS[i];g.mut=true;g.init={I(kop(TS[i]),0,0,0)};m.globals.push_back(g);}
    for(int i=0;i<4;i++){Func f;f.type=m.addType({{TS[i]},{TS[i]}});f.body={I(OP_LGET,0)};m.funcs.push_back(f);}}
};
#if !defined(BULK)&&!defined(TAB)&&!defined(GROW)&&!defined(SIG)
static string sweep(u64 seed,u64 idx){
  World w(seed);Rng&r=w.r;Module&m=w.m;w.memories(r.range(1,4),true);w.common();
  struct F{u16 op;VT t;int wd;bool st;u32 mi;u64 off;bool kaddr;u64 ka;bool kval;u64 kv;int touch;FuncType ft;pwart_wasm_function f;};vector<F> fs;
  for(int i=0;i<14;i++){
    F f{};f.op=0x28+(idx*14+i)%23;memsig(f.op,f.t,f.wd,f.st);f.mi=r.below(w.mm.size());Mm&x=w.mm[f.mi];VT at=x.is64?I64:I32;u64 sz=x.size();
    u64 room=sz-f.wd;switch(r.below(9)){case 0:case 1:f.off=0;break;case 2:f.off=r.below(40);break;case 3:f.off=(1ull<<r.below(33))+(u64)(s64)r.range(-8,8);break;case 4:f.off=room-r.below(40);break;case 5:f.off=room;break;case 6:f.off=0x80000000ull+(u64)(s64)r.range(-20,20);break;default:f.off=r.next()&0xffffffff;}
    if(x.is64&&x.pages>65536&&r.chance(40))f.off=r.chance(50)?r.next()%(room+1):0x100000000ull*r.range(1,4)+(u64)(s64)r.range(-9,9);else if(f.off>0xffffffffull)f.off=0xffffffffull;if(f.off>room)f.off=r.next()%(room+1);if(!x.is64&&f.off>0xffffffffull)f.off=0xffffffffull;
    f.kaddr=r.chance(20);f.ka=0;f.kval=f.st&&r.chance(25);f.kv=r.next();if(vsize(f.t)==4)f.kv=(u32)f.kv;
    if(f.kaddr){u64 rm=room-f.off;f.ka=r.chance(30)?rm:r.chance(30)?std::min<u64>(rm,r.below(100)):r.next()%(rm+1);if(!x.is64&&f.ka>0xffffffff)f.ka=0xffffffff;}
    f.touch=r.chance(40)?(int)r.below(w.mm.size()):-1;int al=0;while((1<<al)<f.wd)al++;
    Code c;vector<VT> loc;f.ft.p={at};if(f.st)f.ft.p.push_back(f.t);u32 np=f.ft.p.size();
    if(f.touch>=0){c.push_back(I(w.mm[f.touch].is64?OP_I64C:OP_I32C,0,0,0));c.push_back(I(0x2d,0,(u32)f.touch));c.push_back(I(OP_DROP));}
    if(r.chance(25)){c.push_back(I(OP_I32C,0,0,0));c.push_back(I(OP_CALL,w.fnBase()));c.push_back(I(OP_DROP));}
    int pend=r.chance(50)?0:r.range(1,9);vector<VT> pt;for(int k=0;k<pend;k++){VT t=TS[r.below(4)];pt.push_back(t);c.push_back(I(kop(t),0,0,0));if(r.chance(50)){c.push_back(I(OP_CALL,w.fnBase()+ti(t)));}}
    w.operand(c,0,at,f.kaddr,f.ka,loc,np,0);if(f.st)w.operand(c,1,f.t,f.kval,f.kv,loc,np,0);
    c.push_back(I(f.op,r.below(al+1),f.mi,f.off));
    if(!f.st){if(pend||r.chance(40)){loc.push_back(f.t);c.push_back(I(OP_LSET,np+(u32)loc.size()-1));for(int k=0;k<pend;k++)c.push_back(I(OP_DROP));c.push_back(I(OP_LGET,np+(u32)loc.size()-1));}f.ft.r={f.t};}
    else{for(int k=0;k<pend;k++)c.push_back(I(OP_DROP));f.ft.r={I32};c.push_back(I(OP_I32C,0,0,777));}
    w.add(f.ft,c,loc,sfmt("f%d",i));hx::note("op %02x memory %u%s%s offset %llx%s%s",f.op,f.mi,x.is64?" 64":"",x.huge?" huge":"",(unsigned long long)f.off,f.kaddr?" const address":"",f.kval?" const value":"");fs.push_back(f);}
  vector<u32> grow;for(size_t i=0;i<w.mm.size();i++){VT t=w.mm[i].is64?I64:I32;w.add({{t},{t}},{I(OP_LGET,0),I(OP_MGROW,0,i)},{},sfmt("g%zu",i));}
  {Code c;int mx;string v=validate(m,&mx);if(!v.empty()){fprintf(stderr,"MEM GENERATOR BUG %s\n%s",v.c_str(),dumpModule(m).c_str());abort();}}
  if(w.load())for(size_t i=0;i<fs.size();i++)fs[i].f=w.fn(sfmt("f%zu",i));
  for(int n=0;n<500&&w.err.empty();n++){
    if(r.chance(1)){u32 g=r.below(w.mm.size());Mm&x=w.mm[g];if(x.huge||x.pages>=x.max)continue;u32 d=r.below(x.max-x.pages+1);VT t=x.is64?I64:I32;u64 got=w.call(w.fn(sfmt("g%u",g)),{{t},{t}},{d});if(!x.is64)got=(u32)got;cGrow++;if(got!=x.pages){w.err=sfmt("memory.grow of %u pages by %u gives %llx",x.pages,d,(unsigned long long)got);break;}x.pages+=d;x.v.resize(x.size(),0);w.err=w.compare("memory.grow");continue;}
    F&f=fs[r.below(fs.size())];Mm&x=w.mm[f.mi];u64 rm=x.size()-f.wd-f.off;u64 a;
    if(f.kaddr)a=f.ka;else switch(r.below(6)){case 0:a=rm;break;case 1:a=rm-std::min<u64>(rm,r.below(20));break;case 2:a=std::min<u64>(rm,r.below(40));break;case 3:a=std::min<u64>(rm,0x7ffffff0ull+r.below(32));break;case 4:a=std::min<u64>(rm,(1ull<<r.below(35))+(u64)(s64)r.range(-8,0));break;default:a=r.next()%(rm+1);}
    if(!x.is64&&a>0xffffffff)a=0xffffffff;
    u64 ea=a+f.off;if(x.huge)cHuge++;if(x.is64)c64++;if(ea>0x80000000ull)cFar++;if(ea>0xffffffffull)cVast++;if(ea+f.wd==x.size())cEnd++;if(ea%f.wd)cUnal++;u8*sh=x.shadow();u8*re=x.m->bytes;
    if(f.st){u64 v=f.kval?f.kv:r.next();if(vsize(f.t)==4)v=(u32)v;memcpy(sh+ea,&v,f.wd);u64 got=w.call(f.f,f.ft,{a,v});cSt++;
      if((u32)got!=777)w.err="a value pushed after the store is wrong";
      u64 lo=ea<64?0:ea-64,hi=std::min<u64>(x.size(),ea+72);if(w.err.empty()&&memcmp(sh+lo,re+lo,hi-lo)){u64 k=lo;while(sh[k]==re[k])k++;w.err=sfmt("store %02x of %llx to %llx+%llx: byte %llx is %02x, expected %02x",f.op,(unsigned long long)v,(unsigned long long)a,(unsigned long long)f.off,(unsigned long long)k,re[k],sh[k]);}
      if(w.err.empty()&&n%25==0)w.err=w.compare("a store");}
    else{if(x.huge&&r.chance(80)){u64 v=r.next();memcpy(sh+ea,&v,f.wd);memcpy(re+ea,&v,f.wd);}
      u64 v=0;memcpy(&v,sh+ea,f.wd);
      static const bool SX[]={0,0,0,0,1,0,1,0,1,0,1,0,1,0};if(SX[f.op-0x28])v=f.wd==1?(u64)(s64)(int8_t)v:f.wd==2?(u64)(s64)(int16_t)v:(u64)(s64)(s32)v;
      u64 got=w.call(f.f,f.ft,{a});cLd++;if(vsize(f.t)==4){v=(u32)v;got=(u32)got;}
      if(got!=v)w.err=sfmt("load %02x from %llx+%llx gives %llx, expected %llx",f.op,(unsigned long long)a,(unsigned long long)f.off,(unsigned long long)got,(unsigned long long)v);}}
  if(w.err.empty())w.err=w.compare("all accesses");
  w.done();return w.err;}
#elif defined(BULK)
#ifndef HX_ASAN
#include <sys/syscall.h>
#include <fcntl.h>
// copies and fills of 2 to 4 GB: the memories are 4 GB of the same 16 MB again and again, only the surroundings of both ends are pages of their own
static const u64 G4=65536ull*65536,MID=16<<20,ENDS=1<<17;
static void*rawmap(void*a,size_t n,int prot,int fl,int fd,off_t o){return (void*)syscall(SYS_mmap,a,n,prot,fl,fd,o);}
struct Wide{u8*p=nullptr;int fd=-1;u8*mid=nullptr;
  void init(){if(p)return;u8*q=(u8*)rawmap(0,G4+4*ENDS,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);p=q+2*ENDS;fd=memfd_create("wide",0);if(fd<0||ftruncate(fd,MID))_exit(96);mid=(u8*)rawmap(0,MID,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);}
  void lay(u64 a,u64 e,u8 fill){init();memset(mid,fill,MID);for(u64 o=0;o<G4;o+=MID)rawmap(p+o,MID,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,fd,0);
    for(u64 x:{a,e}){u64 lo=x<ENDS?0:((x-ENDS)&~4095ull),hi=std::min<u64>(G4,(x+ENDS)&~4095ull);if(hi>lo){rawmap(p+lo,hi-lo,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED,-1,0);memset(p+lo,fill,hi-lo);}}}};
static Wide wd[2];static pwart_wasm_memory wm[2];
static string wide(u64 seed){
  Rng r(seed);Module m;bool q[2]={r.chance(40),r.chance(40)};for(int i=0;i<2;i++){Import x;x.mod="h";x.field=i?"n":"m";x.kind=2;x.min=65536;x.hasmax=true;x.max=65536;x.is64=q[i];m.imports.push_back(x);}
  bool copy=r.chance(50);u64 n=r.pick(vector<u64>{0x7fffffff,0x80000000,0x80000001,0xffffffff,0xfffff000,0});if(!n||r.chance(40))n=0x80000000ull+r.next()%0x7fffff00;
  u64 d=r.next()%(G4-n+1),s=r.next()%(G4-n+1);if(r.chance(30))d=G4-n;if(r.chance(30))s=G4-n;if(r.chance(20))d=0;u8 v=(u8)(r.below(255)+1);int dm=r.below(2),sm=1-dm;
  u16 kd=q[dm]?OP_I64C:OP_I32C,ks=q[sm]?OP_I64C:OP_I32C;bool n64=copy?q[0]&&q[1]:q[dm];VT nt=n64?I64:I32;Func f;f.type=m.addType({{nt},{I32}});
  if(r.chance(30)){f.body.push_back(I(ks,0,0,0));f.body.push_back(I(0x2d,0,sm));f.body.push_back(I(OP_DROP));}
  f.body.push_back(I(kd,0,0,d));if(copy)f.body.push_back(I(ks,0,0,s));else f.body.push_back(I(OP_I32C,0,0,v));if(r.chance(50))f.body.push_back(I(n64?OP_I64C:OP_I32C,0,0,n));else f.body.push_back(I(OP_LGET,0));
  f.body.push_back(copy?I(OP_MCOPY,dm,sm):I(OP_MFILL,0,dm));f.body.push_back(I(OP_I32C,0,0,777));m.funcs.push_back(f);m.exports.push_back({"f",0,0});
  int mx;string ve=validate(m,&mx);if(!ve.empty()){fprintf(stderr,"WIDE GENERATOR BUG %s",ve.c_str());abort();}
  wd[dm].lay(d,d+n,0xEE);wd[sm].lay(s,s+n,0x5C);auto pat=[&](Wide&x,u64 a,u64 z){for(u64 i=a;i+8<=z;i+=8){u64 y=r.next();memcpy(x.p+i,&y,8);}};
  auto lo=[](u64 a){return a<65536?0:a-65536;};auto hi=[](u64 a){return std::min<u64>(G4,a+65536);};
  pat(wd[dm],lo(d),hi(d));pat(wd[dm],lo(d+n),hi(d+n));pat(wd[sm],lo(s),hi(s));pat(wd[sm],lo(s+n),hi(s+n));
  vector<u8> h0(wd[dm].p+lo(d),wd[dm].p+d),t0(wd[dm].p+d+n,wd[dm].p+hi(d+n));
  for(int i=0;i<2;i++){memset(&wm[i],0,sizeof wm[i]);wm[i].initial=wm[i].maximum=wm[i].pages=65536;wm[i].bytes=wd[i].p;wm[i].fixed=r.chance(70);}
  struct pwart_global_compile_config cfg;cfg.stack_flags=r.below(2);cfg.misc_flags=3;pwart_set_global_compile_config(&cfg);
  vector<u8> b=encode(m,0,&r);char*e=nullptr;auto ns=pwart_namespace_new();static const char*N[]={"m","n"};static void*S[2]={&wm[0],&wm[1]};auto*hm=pwart_namespace_new_host_module2(N,S,2);pwart_namespace_define_host_module(ns,"h",hm);string err;
  auto md=(pwart_module_state)pwart_namespace_define_wasm_module(ns,"t",(char*)b.data(),b.size(),&e);if(!md)err=string("a good module failed to load: ")+(e?e:"?");
  alignas(16) static u8 stk[1<<14];
  if(err.empty()){void*p=stk+64;if(n64)pwart_rstack_put_i64(&p,n);else pwart_rstack_put_i32(&p,(u32)n);pwart_call_wasm_function(pwart_get_export_function(md,"f"),stk+64);u32 g;memcpy(&g,stk+64,4);if(g!=777)err="wrong value after the instruction";cOp++;cWide++;cBytes+=n;}
  string what=sfmt("memory.%s of %llx bytes to %llx: ",copy?"copy":"fill",(unsigned long long)n,(unsigned long long)d);
  if(err.empty()){u8*D=wd[dm].p,*Q=wd[sm].p;if(memcmp(D+lo(d),h0.data(),h0.size()))err=what+"bytes before changed";else if(memcmp(D+d+n,t0.data(),t0.size()))err=what+"bytes behind changed";
    else if(copy){if(memcmp(D+d,Q+s,65536)||memcmp(D+d+n-65536,Q+s+n-65536,65536))err=what+"an end is not the source";else for(u64 i=0;i<MID;i+=4093)if(wd[dm].mid[i]!=0x5C){err=what+"the middle is not the source";break;}}
    else{for(u64 i=0;i<65536&&err.empty();i++)if(D[d+i]!=v||D[d+n-1-i]!=v)err=what+"an end is not filled";for(u64 i=0;i<MID&&err.empty();i+=4093)if(wd[dm].mid[i]!=v)err=what+"the middle is not filled";}}
  pwart_namespace_delete(ns);pwart_namespace_delete_host_module(hm);return err;}
#ifdef WIDEB
static hx::Counter cWC("ref_copy_bytes_2gb"),cWL("ref_string_length_2gb"),cWF("fwrite_2gb");
// builtins with byte counts of 2 GB and more, on the same memories
static string wideb(u64 seed){
  Rng r(seed);int kind=r.below(3);Module m;u64 n=r.pick(vector<u64>{0x7fffffff,0x80000000,0x80000001,0xfffffffe,0xfffff000,0});if(!n||r.chance(40))n=0x80000000ull+r.next()%0x7ffffff0;
  FuncType bt=kind==0?FuncType{{EXTERNREF,EXTERNREF,I32},{}}:kind==1?FuncType{{EXTERNREF},{I32}}:FuncType{{EXTERNREF,I32,I32,EXTERNREF},{I32,I32}};
  static const char*BN[]={"ref_copy_bytes","ref_string_length","fwrite"};Import x;x.mod="pwart_builtin";x.field=BN[kind];x.kind=0;x.type=m.addType(bt);m.imports.push_back(x);
  u64 size=1,count=n;if(kind==2){if(r.chance(50))std::swap(size,count);else if(r.chance(50)){size=r.range(2,100000);count=n/size;}}
  Func f;f.type=m.addType({bt.p,{I32}});int pend=r.below(8);for(int i=0;i<pend;i++){if(r.chance(50))f.body.push_back(I(OP_LGET,0));else f.body.push_back(I(OP_I64C,0,0,i));}
  for(u32 i=0;i<bt.p.size();i++)f.body.push_back(bt.p[i]==I32&&r.chance(40)?I(OP_I32C,0,0,kind==0?n:i==1?size:count):I(OP_LGET,i));
  f.body.push_back(I(OP_CALL,0));if(kind==2)f.body.push_back(I(OP_DROP));if(kind==0)f.body.push_back(I(OP_I32C,0,0,777));
  if(pend){f.locals.push_back(I32);f.body.push_back(I(OP_LSET,(u32)bt.p.size()));for(int i=0;i<pend;i++)f.body.push_back(I(OP_DROP));f.body.push_back(I(OP_LGET,(u32)bt.p.size()));}
  m.funcs.push_back(f);m.exports.push_back({"f",0,1});int mx;string ve=validate(m,&mx);if(!ve.empty()){fprintf(stderr,"WIDE GENERATOR BUG %s",ve.c_str());abort();}
  u64 d=r.next()%(G4-n),s=r.next()%(G4-n);if(r.chance(30))s=G4-n-1;
  auto lo=[](u64 a){return a<65536?0:a-65536;};auto hi=[](u64 a){return std::min<u64>(G4,a+65536);};
  auto pat=[&](Wide&x,u64 a,u64 z){for(u64 i=a;i+8<=z;i+=8){u64 y=r.next();memcpy(x.p+i,&y,8);}};
  if(kind<2)wd[1].lay(s,s+n,0x5C);
  if(kind==0){wd[0].lay(d,d+n,0xEE);pat(wd[0],lo(d),hi(d));pat(wd[0],lo(d+n),hi(d+n));pat(wd[1],lo(s),hi(s));pat(wd[1],lo(s+n),hi(s+n));}
  if(kind==1){memset(wd[1].p+s,'a',std::min<u64>(ENDS,n));u64 e=s+n-ENDS-4096;memset(wd[1].p+e,'b',s+n-e);wd[1].p[s+n]=0;}
  vector<u8> h0,t0;if(kind==0){h0.assign(wd[0].p+lo(d),wd[0].p+d);t0.assign(wd[0].p+d+n,wd[0].p+hi(d+n));}
  if(kind==2)wd[1].init();
  FILE*nul=kind==2?fopen("/dev/null","w"):nullptr;if(nul&&!wd[1].fd)abort();
  void*src=wd[1].p+s;if(kind==2){wd[1].lay(0,0,1);}
  struct pwart_global_compile_config cfg;cfg.stack_flags=r.below(2);cfg.misc_flags=3;pwart_set_global_compile_config(&cfg);
  vector<u8> b=encode(m,0,&r);char*e=nullptr;auto ns=pwart_namespace_new();string err;
  auto md=(pwart_module_state)pwart_namespace_define_wasm_module(ns,"t",(char*)b.data(),b.size(),&e);if(!md)err=string("a good module failed to load: ")+(e?e:"?");
  alignas(16) static u8 stk[1<<14];u32 g=0;
  if(err.empty()){void*p=stk+64;
    if(kind==0){pwart_rstack_put_ref(&p,wd[0].p+d);pwart_rstack_put_ref(&p,src);pwart_rstack_put_i32(&p,(u32)n);}else if(kind==1)pwart_rstack_put_ref(&p,src);else{pwart_rstack_put_ref(&p,src);pwart_rstack_put_i32(&p,(u32)size);pwart_rstack_put_i32(&p,(u32)count);pwart_rstack_put_ref(&p,nul);}
    pwart_call_wasm_function(pwart_get_export_function(md,"f"),stk+64);memcpy(&g,stk+64,4);cOp++;cBytes+=n;}
  string what=sfmt("%s of %llx bytes: ",BN[kind],(unsigned long long)(kind==2?size*count:n));
  if(err.empty()){if(kind==1){cWL++;if(g!=(u32)n)err=what+sfmt("gives %x",g);}
    else if(kind==2){cWF++;if(g!=(u32)count)err=what+sfmt("gives %x, expected %x",g,(u32)count);}
    else{cWC++;u8*D=wd[0].p,*Q=wd[1].p;if(g!=777)err="wrong value after the call";else if(memcmp(D+lo(d),h0.data(),h0.size()))err=what+"bytes before changed";else if(memcmp(D+d+n,t0.data(),t0.size()))err=what+"bytes behind changed";
      else if(memcmp(D+d,Q+s,65536)||memcmp(D+d+n-65536,Q+s+n-65536,65536))err=what+"an end is not the source";else for(u64 i=0;i<MID;i+=4093)if(wd[0].mid[i]!=0x5C){err=what+"the middle is not the source";break;}}}
  if(nul)fclose(nul);hx::note("%s",what.c_str());hx::nontrivial(hx::hashBytes(what.data(),what.size()));
  pwart_namespace_delete(ns);return err;}
#endif
#endif
static string sweep(u64 seed,u64 idx){
  World w(seed);Rng&r=w.r;Module&m=w.m;w.memories(r.range(1,4),false);w.common();
  struct F{int kind;/*0 copy 1 fill 2 size 3 grow*/u32 a,b;bool k[3];u64 kv[3];FuncType ft;pwart_wasm_function f;};vector<F> fs;
  auto len=[&](u64 room){u64 n;switch(r.below(9)){case 0:n=0;break;case 1:n=room;break;case 2:n=room-std::min<u64>(room,r.below(20));break;case 3:n=r.below(20);break;case 4:n=(1u<<r.below(17))+(u64)(s64)r.range(-1,1);break;case 5:n=r.below(300);break;default:n=r.next()%(room+1);}return std::min(n,room);};
  auto pos=[&](u64 sz){u64 a;switch(r.below(5)){case 0:a=0;break;case 1:a=sz;break;case 2:a=sz-r.below(300);break;case 3:a=r.below(300);break;default:a=r.next()%(sz+1);}return a;};
  // operands within the current memory sizes; the constants of f are taken as they are (false when they do not fit)
  auto pick=[&](F&f,u64*o)->bool{u64 sa=w.mm[f.a].size();
    if(f.kind==1){for(int t=0;t<20;t++){o[0]=f.k[0]?f.kv[0]:pos(sa);o[1]=f.k[1]?f.kv[1]:r.chance(50)?r.below(256):(u32)r.next();if(o[0]>sa)continue;o[2]=f.k[2]?f.kv[2]:len(sa-o[0]);if(o[0]+o[2]<=sa)return true;}return false;}
    u64 sb=w.mm[f.b].size();for(int t=0;t<20;t++){o[0]=f.k[0]?f.kv[0]:pos(sa);o[1]=f.k[1]?f.kv[1]:f.a==f.b&&r.chance(50)?o[0]+(u64)(s64)r.range(-70,70):pos(sb);if(o[0]>sa||o[1]>sb)continue;u64 room=std::min(sa-o[0],sb-o[1]);o[2]=f.k[2]?f.kv[2]:len(room);if(o[2]<=room)return true;}return false;};
  for(int i=0;i<12;i++){F f{};f.kind=r.chance(45)?0:r.chance(60)?1:r.chance(50)?2:3;f.a=r.below(w.mm.size());f.b=r.below(w.mm.size());for(int k=0;k<3;k++)f.k[k]=false;u64 o[3]={0,0,0};if(f.kind<2){pick(f,o);for(int k=0;k<3;k++)if(r.chance(25)){f.k[k]=true;f.kv[k]=o[k];}}
    VT ta=w.mm[f.a].is64?I64:I32,tb=w.mm[f.b].is64?I64:I32;Code c;vector<VT> loc;
    if(r.chance(40)){u32 t=r.below(w.mm.size());c.push_back(I(w.mm[t].is64?OP_I64C:OP_I32C,0,0,0));c.push_back(I(0x2d,0,t));c.push_back(I(OP_DROP));}
    int pend=r.chance(50)?0:r.range(1,9);vector<VT> pt;for(int k=0;k<pend;k++){VT t=TS[r.below(4)];c.push_back(I(kop(t),0,0,0));if(r.chance(50))c.push_back(I(OP_CALL,w.fnBase()+ti(t)));}
    switch(f.kind){case 0:f.ft={{ta,tb,ta==I64&&tb==I64?I64:I32},{I32}};break;case 1:f.ft={{ta,I32,ta},{I32}};break;case 2:f.ft={{},{ta}};break;default:f.ft={{ta},{ta}};}
    u32 np=f.ft.p.size();for(u32 k=0;k<np;k++)w.operand(c,k,f.ft.p[k],f.k[k],f.kv[k],loc,np,0);
    c.push_back(f.kind==0?I(OP_MCOPY,f.a,f.b):f.kind==1?I(OP_MFILL,0,f.a):f.kind==2?I(OP_MSIZE,0,f.a):I(OP_MGROW,0,f.a));
    if(f.kind>=2){loc.push_back(ta);c.push_back(I(OP_LSET,np+(u32)loc.size()-1));}for(int k=0;k<pend;k++)c.push_back(I(OP_DROP));if(f.kind>=2)c.push_back(I(OP_LGET,np+(u32)loc.size()-1));else c.push_back(I(OP_I32C,0,0,777));
    w.add(f.ft,c,loc,sfmt("f%d",i));hx::note("%s %u %u%s%s%s",f.kind==0?"copy":f.kind==1?"fill":f.kind==2?"size":"grow",f.a,f.b,f.k[0]?" k0":"",f.k[1]?" k1":"",f.k[2]?" k2":"");fs.push_back(f);}
  {int mx;string v=validate(m,&mx);if(!v.empty()){fprintf(stderr,"BULK GENERATOR BUG %s\n%s",v.c_str(),dumpModule(m).c_str());abort();}}
  if(w.load())for(size_t i=0;i<fs.size();i++)fs[i].f=w.fn(sfmt("f%zu",i));
  for(int n=0;n<60&&w.err.empty();n++){F&f=fs[r.below(fs.size())];Mm&x=w.mm[f.a];u64 o[3];
    if(f.kind<2){if(!pick(f,o))continue;u64 got;Mm&y=w.mm[f.b];
      if(f.kind==0){if(f.a==f.b&&o[2]&&o[0]!=o[1]&&o[0]<o[1]+o[2]&&o[1]<o[0]+o[2])cOver++;if(f.a!=f.b)cCross++;memmove(x.v.data()+o[0],y.v.data()+o[1],o[2]);if(o[1]+o[2]==y.size())cEnd++;}
      else memset(x.v.data()+o[0],(u8)o[1],o[2]);
      if(o[0]+o[2]==x.size())cEnd++;if(!o[2])cZero++;cBytes+=o[2];cOp++;got=w.call(f.f,f.ft,{o[0],o[1],o[2]});if((u32)got!=777)w.err="a value pushed after the instruction is wrong";
      if(w.err.empty())w.err=w.compare(sfmt("memory.%s of %llu bytes to %llu (%llu)",f.kind?"fill":"copy",(unsigned long long)o[2],(unsigned long long)o[0],(unsigned long long)o[1]).c_str());}
    else if(f.kind==2){u64 got=w.call(f.f,f.ft,{});if(!x.is64)got=(u32)got;cSize++;if(got!=x.pages)w.err=sfmt("memory.size gives %llx, expected %x",(unsigned long long)got,x.pages);}
    else{u32 d=r.below(3);if(x.pages+d>x.max)continue;u64 got=w.call(f.f,f.ft,{d});if(!x.is64)got=(u32)got;cGrow++;if(got!=x.pages){w.err=sfmt("memory.grow of %u pages by %u gives %llx",x.pages,d,(unsigned long long)got);break;}x.pages+=d;x.v.resize(x.size(),0);w.err=w.compare("memory.grow");}}
  w.done();return w.err;}
#elif defined(GROW)
// Memories are compared where they were written (every page has a mark in its first, a middle and its last word) and every word of the others pages sampled.
static string sweep(u64 seed,u64 idx){
  World w(seed);Rng&r=w.r;Module&m=w.m;w.common();
  struct G{bool is64,fixed,huge;u32 min,max,cur;std::map<u64,u64> v;pwart_wasm_memory*mm;};vector<G> gs;int n=r.range(1,3);
  bool big=false;
#ifndef HX_ASAN
  if(idx>100&&r.chance(1)&&r.chance(30)){int z=0;big=bigLock->compare_exchange_strong(z,1);}
#endif
  for(int i=0;i<n;i++){G g;g.is64=r.chance(30);g.fixed=r.chance(50);g.huge=false;g.min=r.chance(10)?0:r.range(1,4);g.max=g.fixed?g.min+(r.chance(20)?0:r.below(30)):32768;
#ifndef HX_ASAN
    if(g.fixed&&r.chance(6)){g.max=r.chance(40)?65536:r.pick(vector<int>{32767,32768,32769,65535,40000});g.huge=true;}
#endif
    g.cur=g.min;gs.push_back(g);MemT t;t.min=g.min;t.hasmax=g.fixed;t.max=g.max;t.is64=g.is64;m.mems.push_back(t);m.exports.push_back({sfmt("m%d",i),2,(u32)i});}
  // functions: g grow, s size, l load64, p store64; in one call: store, grow (or a call that grows), load and store again, size
  auto T=[&](int i){return gs[i].is64?I64:I32;};vector<u32> gi(n);
  for(int i=0;i<n;i++){gi[i]=w.add({{T(i)},{T(i)}},{I(OP_LGET,0),I(OP_MGROW,0,i)},{},sfmt("g%d",i));w.add({{},{T(i)}},{I(OP_MSIZE,0,i)},{},sfmt("s%d",i));
    w.add({{T(i)},{I64}},{I(OP_LGET,0),I(0x29,r.below(4),i)},{},sfmt("l%d",i));w.add({{T(i),I64},{}},{I(OP_LGET,0),I(OP_LGET,1),I(0x37,r.below(4),i)},{},sfmt("p%d",i));}
  u32 sig[2]={m.addType({{I32},{I32}}),m.addType({{I64},{I64}})};
  {TableT t;t.min=n;m.tables.push_back(t);Elem e;e.off={I(OP_I32C,0,0,0)};for(int i=0;i<n;i++)e.funcs.push_back(gi[i]);m.elems.push_back(e);}
  struct C{int i;int how;bool konst;u64 kd;int first,other;};vector<C> cs;
  for(int k=0;k<6;k++){C c;c.i=r.below(n);VT t=T(c.i);c.how=r.below(3);c.konst=r.chance(30);c.kd=r.below(4);c.first=r.chance(70)?(int)r.below(n):-1;c.other=r.below(n);
    // (delta, address, value) -> i64: the value read back at the address after the grow, xor previous size in the upper half, xor size now in bits 24..
    Code o;vector<VT> loc={t,I64};auto E=[&](u16 a,u32 x=0,u32 y=0,u64 kk=0){o.push_back(I(a,x,y,kk));};
    if(c.first>=0){G&f=gs[c.first];if(f.min){E(f.is64?OP_I64C:OP_I32C,0,0,0);E(0x29,0,c.first);E(OP_DROP);}else c.first=-1;}
    int pend=r.chance(50)?0:r.range(1,9);for(int q=0;q<pend;q++){VT pt=TS[r.below(4)];E(kop(pt),0,0,q);if(r.chance(50))E(OP_CALL,w.fnBase()+ti(pt));}
    w.operand(o,0,t,c.konst,c.kd,loc,3,0);
    if(c.how==0)E(OP_MGROW,0,c.i);else if(c.how==1)E(OP_CALL,gi[c.i]);else{E(OP_I32C,0,0,c.i);E(OP_CALLI,sig[t==I64],0);}
    E(OP_LSET,3);
    E(OP_LGET,1);E(OP_LGET,2);E(0x37,0,c.i);
    w.operand(o,1,t,false,0,loc,3,0);E(0x29,0,c.i);E(OP_LSET,4);
    for(int q=0;q<pend;q++)E(OP_DROP);
    E(OP_LGET,4);E(OP_LGET,3);if(t==I32)E(0xad);E(OP_I64C,0,0,32);E(0x86);E(0x85);
    E(OP_MSIZE,0,c.i);if(t==I32)E(0xad);E(0x85);
    w.add({{t,t,I64},{I64}},o,loc,sfmt("c%d",k));cs.push_back(c);hx::note("call %d memory %d how %d%s",k,c.i,c.how,c.konst?" const":"");}
  {int mx;string v=validate(m,&mx);if(!v.empty()){fprintf(stderr,"GROW GENERATOR BUG %s\n%s",v.c_str(),dumpModule(m).c_str());abort();}}
  auto rd=[&](G&g,u64 a){u64 x;memcpy(&x,g.mm->bytes+a,8);return x;};
  auto chk=[&](G&g,const char*what)->string{if(g.mm->pages!=g.cur)return sfmt("memory has %u pages after %s, expected %u",g.mm->pages,what,g.cur);
    for(auto&e:g.v){cCmp+=8;if(rd(g,e.first)!=e.second)return sfmt("word at %llx is %llx after %s, expected %llx",(unsigned long long)e.first,(unsigned long long)rd(g,e.first),what,(unsigned long long)e.second);}return "";};
  auto zeroPage=[&](G&g,u64 p)->string{const u64*q=(const u64*)(g.mm->bytes+p*65536);cNew++;cCmp+=65536;for(int i=0;i<8192;i++)if(q[i]&&!g.v.count(p*65536+i*8))return sfmt("new page %llu has %llx at %x",(unsigned long long)p,(unsigned long long)q[i],i*8);return "";};
  auto mark=[&](G&g,u64 p){for(u64 o:{(u64)0,(u64)8*r.range(1,8190),(u64)65528}){u64 x=r.next();g.v[p*65536+o]=x;memcpy(g.mm->bytes+p*65536+o,&x,8);}};
  auto newPages=[&](G&g,u32 from)->string{for(u32 p=from;p<g.cur;p++){u32 d=g.cur-from;if(d<40||p<from+3||p+3>=g.cur||r.chance(1)&&r.chance(20)||p==32767||p==32768||p==16384){string e=zeroPage(g,p);if(!e.empty())return e;mark(g,p);}}return "";};
  if(w.err.empty()&&w.load()){for(int i=0;i<n;i++){gs[i].mm=pwart_get_export_memory(w.md,sfmt("m%d",i).c_str());if(!gs[i].mm){w.err="memory not found";break;}w.err=newPages(gs[i],0);if(!w.err.empty())break;}}
  bool grewBig=false;clock_t t0=clock();
  for(int k=0;k<40&&w.err.empty()&&clock()-t0<3*CLOCKS_PER_SEC;k++){ // growing a memory of 2 GB moves it each time
    int kind=r.below(10);
    if(kind<6){G&g=gs[r.below(n)];int i=&g-&gs[0];u64 room=g.max-g.cur,d;
      switch(r.below(8)){case 0:d=0;break;case 1:case 2:case 3:d=r.below(4);break;case 4:d=g.fixed?room:r.below(6);break;case 5:d=room+1+r.below(3);break;case 6:d=r.pick(vector<u64>{65536,65537,0x7fffffff,0x80000000,0xffffffff,0xfffffffe,32769,0x10000ull});break;default:d=g.is64?(r.chance(50)?(1ull<<32)+r.below(3):r.next()|1ull<<40):r.below(3);}
      if(big&&!grewBig&&!g.fixed&&k>5){d=r.chance(60)?room:room-r.below(room/3);}
      if(!g.fixed&&d<=room&&d>8){if(big&&!grewBig){grewBig=true;cBig++;}else d=r.below(4);}
      if(g.huge&&d<=room&&g.cur+d>20000)cBig++;
      bool inj=d&&d<=room&&r.chance(8);if(inj)hxFailAfter(0);
      u64 got=w.call(w.fn(sfmt("g%d",i)),{{T(i)},{T(i)}},{d});if(inj)hxFailAfter(-1);if(!g.is64)got=(u32)got;u64 minus=g.is64?~0ull:0xffffffffull;
      bool ok=d<=room&&!(inj&&!g.fixed);if(inj)cInj++;
      if(ok){cGrow++;if(!d)cZero++;if(got!=g.cur){w.err=sfmt("memory.grow of %u pages by %llu gives %llx",g.cur,(unsigned long long)d,(unsigned long long)got);break;}u32 o=g.cur;g.cur+=d;w.err=chk(g,"memory.grow");if(w.err.empty())w.err=newPages(g,o);}
      else{cFailed++;if(got!=minus){w.err=sfmt("memory.grow of %u of at most %u pages by %llu gives %llx%s",g.cur,g.max,(unsigned long long)d,(unsigned long long)got,inj?" (allocation refused)":"");break;}w.err=chk(g,"a refused memory.grow");}
      for(auto&x:gs)if(w.err.empty())w.err=chk(x,"memory.grow of another memory");}
    else if(kind<7){int i=r.below(n);G&g=gs[i];u64 got=w.call(w.fn(sfmt("s%d",i)),{{},{T(i)}},{});if(!g.is64)got=(u32)got;cSize++;if(got!=g.cur)w.err=sfmt("memory.size gives %llx, expected %x",(unsigned long long)got,g.cur);}
    else{int q=r.below(cs.size());C&c=cs[q];G&g=gs[c.i];u64 d=c.konst?c.kd:r.below(4);u64 room=g.max-g.cur;bool ok=d<=room;u32 before=g.cur,after=ok?g.cur+d:g.cur;if(!after)continue;
      u64 top=(u64)after*65536-8,a=r.chance(60)?top-(r.chance(50)?0:8*r.below(9000)):8*(r.next()%(top/8+1));if((s64)a<0||a>top)a=top;if(!g.is64&&a>0xffffffff)a=0;u64 v=r.next();if(r.chance(20))a=0;
      u64 got=w.call(w.fn(sfmt("c%d",q)),{{T(c.i),T(c.i),I64},{I64}},{d,a,v});u64 prev=ok?before:g.is64?~0ull:0xffffffffull;u64 want=v^(prev<<32)^after;cIn++;
      if(got!=want){w.err=sfmt("store and load at %llx after memory.grow of %u pages by %llu in the same function: %llx, expected %llx",(unsigned long long)a,before,(unsigned long long)d,(unsigned long long)got,(unsigned long long)want);break;}
      g.cur=after;g.v[a]=v;w.err=chk(g,"memory.grow in a function");if(w.err.empty())w.err=newPages(g,before);if(w.err.empty()&&g.v.count(a)&&false)w.err="";}
  }
  w.done();if(big)bigLock->store(0);return w.err;}
#elif defined(SIG)
static const VT T5[5]={I32,I64,F32,F64,EXTERNREF};
static FuncType hTy[3];static u64 hSeed;static bool hAlign;static vector<vector<u64>> hLog;static string hErr;
static u64 mixK(u64 a,u64 b){u64 z=a*0x9E3779B97F4A7C15ull+b*0xD1B54A32D192ED03ull+7;z^=z>>31;z*=0x94D049BB133111EBull;return (z^(z>>29))|1;}
static u64 cut(VT t,u64 v){return vsize(t)==4?(u32)v:v;}
static u64 term(VT t,u64 v){return t==EXTERNREF?(v==0):v;}
static vector<u64> rd(const u8*fp,const vector<VT>&ts){vector<u64> v;size_t o=0;for(VT t:ts){if(hAlign&&vsize(t)==8)o=(o+7)&~7ull;u64 x=0;memcpy(&x,fp+o,vsize(t));o+=vsize(t);v.push_back(x);}return v;}
static size_t wr(u8*fp,const vector<VT>&ts,const vector<u64>&v){size_t o=0;for(size_t i=0;i<ts.size();i++){if(hAlign&&vsize(ts[i])==8)o=(o+7)&~7ull;memcpy(fp+o,&v[i],vsize(ts[i]));o+=vsize(ts[i]);}return o;}
static void rdHelp(void*fp,const vector<VT>&ts,vector<u64>&v){void*p=fp;for(VT t:ts)switch(t){case I32:v.push_back((u32)pwart_rstack_get_i32(&p));break;case I64:v.push_back(pwart_rstack_get_i64(&p));break;case F32:{float f=pwart_rstack_get_f32(&p);u32 x;memcpy(&x,&f,4);v.push_back(x);break;}case F64:{double f=pwart_rstack_get_f64(&p);u64 x;memcpy(&x,&f,8);v.push_back(x);break;}default:v.push_back((u64)pwart_rstack_get_ref(&p));}}
static void wrHelp(void*fp,const vector<VT>&ts,const vector<u64>&v){void*p=fp;for(size_t i=0;i<ts.size();i++)switch(ts[i]){case I32:pwart_rstack_put_i32(&p,(u32)v[i]);break;case I64:pwart_rstack_put_i64(&p,v[i]);break;case F32:{float f;memcpy(&f,&v[i],4);pwart_rstack_put_f32(&p,f);break;}case F64:{double f;memcpy(&f,&v[i],8);pwart_rstack_put_f64(&p,f);break;}default:pwart_rstack_put_ref(&p,(void*)v[i]);}}
static vector<u64> hostModel(int n,const vector<u64>&a){const FuncType&t=hTy[n];u64 acc=hSeed+n;for(size_t i=0;i<a.size();i++)acc+=a[i]*mixK(i,n);vector<u64> o;for(size_t j=0;j<t.r.size();j++)o.push_back(cut(t.r[j],acc*mixK(j,99)));return o;}
static void hostFn(int n,void*fp){cHost++;if((size_t)fp&(hAlign?7:3)){if(hAlign)hErr="a host function got an unaligned frame";}
  vector<u64> a=rd((u8*)fp,hTy[n].p),b;rdHelp(fp,hTy[n].p,b);if(a!=b)hErr="the stack helpers read other arguments than the layout says";hLog.push_back(a);vector<u64> o=hostModel(n,a);if(hSeed&1)wr((u8*)fp,hTy[n].r,o);else wrHelp(fp,hTy[n].r,o);}
static void host0(void*f){hostFn(0,f);} static void host1(void*f){hostFn(1,f);} static void host2(void*f){hostFn(2,f);}
static void to64(Code&c,VT t){switch(t){case I32:c.push_back(I(0xad));break;case F32:c.push_back(I(0xbc));c.push_back(I(0xad));break;case F64:c.push_back(I(0xbd));break;case EXTERNREF:c.push_back(I(OP_REFISNULL));c.push_back(I(0xad));break;default:;}}
static void from64(Code&c,VT t){switch(t){case I32:c.push_back(I(0xa7));break;case F32:c.push_back(I(0xa7));c.push_back(I(0xbe));break;case F64:c.push_back(I(0xbf));break;default:;}}
static string sweep(u64 seed,u64 idx){
  World w(seed);Rng&r=w.r;Module&m=w.m;hSeed=r.next();hLog.clear();hErr.clear();
  int style=r.below(6); // one type only, two, or all
  VT t1=T5[r.below(5)],t2=T5[r.below(5)];auto rt=[&](){return style==0?t1:style==1?(r.chance(50)?t1:t2):style==2?(r.chance(90)?t1:t2):T5[r.below(r.chance(20)?5:4)];};
  auto ty=[&](int np,int nr){FuncType t;for(int i=0;i<np;i++)t.p.push_back(rt());for(int i=0;i<nr;i++)t.r.push_back(rt());return t;};
  for(int n=0;n<3;n++){hTy[n]=ty(r.chance(30)?r.range(14,20):r.below(14),r.chance(30)?r.range(8,20):r.below(8));Import i;i.mod="h";i.field=sfmt("h%d",n);i.kind=0;i.type=m.addType(hTy[n]);m.imports.push_back(i);}
  struct F{FuncType t;vector<std::pair<int,int>> moves;vector<vector<int>> sub;vector<int> ext;vector<VT> loc;pwart_wasm_function fn;};
  const int NFN=4;vector<F> fs(NFN);
  for(int n=0;n<NFN;n++){F&f=fs[n];int np=n<2?(r.chance(25)?r.pick(vector<int>{25,31,32,33,63,64,65,127,128,129,200,254,255}):r.range(21,255)):r.below(21);f.t=ty(np,r.chance(30)?r.range(8,20):r.below(8));
    for(int q=r.below(6);q>0&&np>1;q--){int a=r.below(np),b=r.below(np);if(f.t.p[a]==f.t.p[b])f.moves.push_back({a,b});}
    int nl=r.chance(30)?r.range(10,120):r.below(10);for(int i=0;i<nl;i++)f.loc.push_back(rt());
    Code c;auto E=[&](u16 o,u32 a=0,u32 b=0,u64 k=0){c.push_back(I(o,a,b,k));};
    for(auto&mv:f.moves){E(OP_LGET,mv.first);E(OP_LSET,mv.second);}
    f.sub.resize(f.t.r.size());f.ext.assign(f.t.r.size(),-1);
    for(size_t j=0;j<f.t.r.size();j++){VT t=f.t.r[j];
      if(t==EXTERNREF){vector<int> e;for(int i=0;i<np;i++)if(f.t.p[i]==EXTERNREF)e.push_back(i);if(e.size()&&r.chance(80)){f.ext[j]=r.pick(e);E(OP_LGET,f.ext[j]);}else E(OP_REFNULL,EXTERNREF);continue;}
      if(j==0||r.chance(20))for(int i=0;i<np;i++)f.sub[j].push_back(i);else for(int q=r.below(8);q>0&&np;q--)f.sub[j].push_back(r.chance(20)?np-1:r.below(np));
      E(OP_I64C,0,0,mixK(j,n));for(int i:f.sub[j]){E(OP_LGET,i);to64(c,f.t.p[i]);E(OP_I64C,0,0,mixK(i,j));E(0x7e);E(0x7c);}
      for(int q=0;q<3&&nl;q++){u32 x=q?r.below(nl):nl-1;E(OP_LGET,np+x);to64(c,f.loc[x]);if(f.loc[x]==EXTERNREF){E(OP_I64C,0,0,1);E(0x7d);}E(0x7c);}
      from64(c,t);}
    w.add(f.t,c,f.loc,sfmt("f%d",n));}
  auto model=[&](int n,vector<u64> a){F&f=fs[n];for(auto&mv:f.moves)a[mv.second]=a[mv.first];vector<u64> o;for(size_t j=0;j<f.t.r.size();j++){VT t=f.t.r[j];if(t==EXTERNREF){o.push_back(f.ext[j]<0?0:a[f.ext[j]]);continue;}u64 s=mixK(j,n);for(int i:f.sub[j])s+=term(f.t.p[i],a[i])*mixK(i,j);o.push_back(cut(t,s));}return o;};
  // callers
  {TableT t;t.min=NFN+3;m.tables.push_back(t);Elem e;e.flags=0;e.off={I(OP_I32C)};for(int i=0;i<NFN+3;i++)e.funcs.push_back(i);m.elems.push_back(e);}
  struct G{FuncType t;int callee;bool host,tail;vector<int> arg;/*param or -1*/vector<u64> kon;vector<std::pair<VT,u64>> pend;vector<int> out;pwart_wasm_function fn;};vector<G> gs;
  for(int n=0;n<6;n++){G g;g.host=r.chance(50);g.callee=g.host?r.below(3):2+r.below(2);g.tail=!g.host&&r.chance(30);const FuncType ct=g.host?hTy[g.callee]:fs[g.callee].t;
    for(int k=r.below(r.chance(20)?60:14);k>0;k--)g.t.p.push_back(rt());u32 np=g.t.p.size();vector<VT> loc;
    int pad=r.chance(20)?r.range(20,200):r.below(12);for(int i=0;i<pad;i++)loc.push_back(rt());
    Code c;auto E=[&](u16 o,u32 a=0,u32 b=0,u64 k=0){c.push_back(I(o,a,b,k));};
    int mp=24-(int)std::max(ct.p.size(),ct.r.size());int pn=mp>0&&r.chance(60)?r.below(mp)+1:0;if(pn>24-(int)ct.p.size()-4)pn=std::max(0,24-(int)ct.p.size()-4);
    for(int k=0;k<pn;k++){VT t=T5[r.below(4)];u64 v=cut(t,r.next());g.pend.push_back({t,v});E(kop(t),0,0,v);if(r.chance(40)){loc.push_back(t);E(OP_LSET,np+loc.size()-1);E(OP_LGET,np+loc.size()-1);}}
    for(VT t:ct.p){vector<int> q;for(u32 i=0;i<np;i++)if(g.t.p[i]==t)q.push_back(i);int a=q.size()&&r.chance(75)?r.pick(q):-1;u64 k=t==EXTERNREF?0:cut(t,r.chance(30)?r.below(100):r.next());g.arg.push_back(a);g.kon.push_back(k);
      if(a<0){if(t==EXTERNREF)E(OP_REFNULL,EXTERNREF);else E(kop(t),0,0,k);}else E(OP_LGET,a);
      switch(r.below(6)){case 0:loc.push_back(t);E(OP_LTEE,np+loc.size()-1);break;case 1:loc.push_back(t);E(OP_LSET,np+loc.size()-1);E(OP_LGET,np+loc.size()-1);break;
        case 2:if(t==I32||t==I64){E(kop(t),0,0,5);E(t==I32?0x6a:0x7c);E(kop(t),0,0,5);E(t==I32?0x6b:0x7d);}break;case 3:if(t!=EXTERNREF){to64(c,t);from64(c,t);}break;default:;}}
    u32 cf=g.host?g.callee:3+g.callee;bool ind=r.chance(35);
    if(ind)E(OP_I32C,0,0,cf);
    if(g.tail){g.t.r=ct.r;ind?E(OP_RCALLI,m.addType(ct),0):E(OP_RCALL,cf);}
    else{ind?E(OP_CALLI,m.addType(ct),0):E(OP_CALL,cf);
      u32 base=np+loc.size();for(VT t:ct.r)loc.push_back(t);loc.push_back(I64);u32 acc=np+loc.size()-1;
      for(int j=(int)ct.r.size()-1;j>=0;j--)E(OP_LSET,base+j);
      for(int k=pn-1;k>=0;k--){to64(c,g.pend[k].first);E(OP_I64C,0,0,mixK(k,5));E(0x7e);E(OP_LGET,acc);E(0x7c);E(OP_LSET,acc);}
      for(size_t j=0;j<ct.r.size();j++)if(r.chance(80))g.out.push_back(j);for(size_t j=0;j+1<g.out.size();j++)if(r.chance(30))std::swap(g.out[j],g.out[r.below(g.out.size())]);
      bool front=r.chance(50);if(front){g.t.r.push_back(I64);E(OP_LGET,acc);}
      for(int j:g.out){g.t.r.push_back(ct.r[j]);E(OP_LGET,base+j);}if(!front){g.t.r.push_back(I64);E(OP_LGET,acc);}g.callee|=front?64:0;}
    w.add(g.t,c,loc,sfmt("g%d",n));gs.push_back(g);}
  {int mx;string v=validate(m,&mx);if(!v.empty()){fprintf(stderr,"SIG GENERATOR BUG %s\n%s",v.c_str(),dumpModule(m).c_str());abort();}}
  struct pwart_global_compile_config cfg;cfg.stack_flags=r.below(2);cfg.misc_flags=3;pwart_set_global_compile_config(&cfg);hAlign=cfg.stack_flags&1;
  static const char*N[]={"h0","h1","h2"};static void*S[]={(void*)host0,(void*)host1,(void*)host2};char*e=nullptr;w.ns=pwart_namespace_new();
  w.hm=pwart_namespace_new_host_module2(N,S,3);pwart_namespace_define_host_module(w.ns,"h",w.hm);
  {vector<u8> b=encode(m,r.chance(20)?r.range(1,60):0,&r);w.md=(pwart_module_state)pwart_namespace_define_wasm_module(w.ns,"t",(char*)b.data(),b.size(),&e);}
  static u8*stk=nullptr;if(!stk)stk=(u8*)pwart_allocate_stack(1<<17);
  if(!w.md)w.err=string("a good module failed to load: ")+(e?e:"?");
  if(w.err.empty()){for(int n=0;n<NFN;n++)fs[n].fn=w.fn(sfmt("f%d",n));for(size_t n=0;n<gs.size();n++)gs[n].fn=w.fn(sfmt("g%zu",n));}
  auto run=[&](pwart_wasm_function fn,const FuncType&t,const vector<u64>&a,const vector<u64>&want,const string&what){
    u32 off=64+8*r.below(20);u8*sp=stk+off;memset(stk,0xA7,off);memset(sp,0x5C,4096);
    if(r.chance(50))wr(sp,t.p,a);else wrHelp(sp,t.p,a);pwart_call_wasm_function(fn,sp);vector<u64> got;if(r.chance(50))got=rd(sp,t.r);else rdHelp(sp,t.r,got);
    cCall++;cVal+=got.size();if(t.p.size()>30)cWideP++;
    for(size_t j=0;j<want.size();j++)if(got[j]!=want[j])return sfmt("%s: result %zu of %zu is %llx, expected %llx (%zu parameters)",what.c_str(),j,want.size(),(unsigned long long)got[j],(unsigned long long)want[j],a.size());
    for(u32 k=0;k<off;k++)if(stk[k]!=0xA7)return what+" wrote below its frame";
    return string();};
  auto value=[&](VT t)->u64{if(t==EXTERNREF)return r.chance(30)?0:r.next()|1;return cut(t,r.chance(20)?(u64)(s64)r.range(-3,3):r.next());};
  for(int q=0;q<24&&w.err.empty();q++){
    if(r.chance(40)){int n=r.below(NFN);F&f=fs[n];vector<u64> a;for(VT t:f.t.p)a.push_back(value(t));w.err=run(f.fn,f.t,a,model(n,a),sfmt("function of %zu parameters",f.t.p.size()));}
    else{G&g=gs[r.below(gs.size())];int cal=g.callee&63;const FuncType ct=g.host?hTy[cal]:fs[cal].t;vector<u64> a;for(VT t:g.t.p)a.push_back(value(t));vector<u64> ca;for(size_t k=0;k<g.arg.size();k++)ca.push_back(g.arg[k]<0?g.kon[k]:a[g.arg[k]]);
      vector<u64> o=g.host?hostModel(cal,ca):model(cal,ca),want;
      if(g.tail)want=o;else{u64 acc=0;for(size_t k=0;k<g.pend.size();k++)acc+=g.pend[k].second*mixK(k,5);if(g.callee&64)want.push_back(acc);for(int j:g.out)want.push_back(o[j]);if(!(g.callee&64))want.push_back(acc);}
      if(g.tail)cTail++;if(g.pend.size())cPend++;
      hLog.clear();w.err=run(g.fn,g.t,a,want,sfmt("caller of a %sfunction of %zu parameters",g.host?"host ":"",ct.p.size()));
      if(w.err.empty()&&g.host){if(hLog.size()!=1)w.err=sfmt("the host function was called %zu times",hLog.size());else if(hLog[0]!=ca){size_t k=0;while(hLog[0][k]==ca[k])k++;w.err=sfmt("argument %zu of %zu of a host function is %llx, expected %llx",k,ca.size(),(unsigned long long)hLog[0][k],(unsigned long long)ca[k]);}}}
    if(w.err.empty())w.err=hErr;hx::note("%s%d %zu",w.err.c_str(),q,m.types.size());}
  w.done();return w.err;}
#else
static string sweep(u64 seed,u64 idx){
  World w(seed);Rng&r=w.r;Module&m=w.m;w.common();
  const int NT=r.range(1,4),NF=r.range(1,6);vector<vector<int>> model(NT); // -1 null, otherwise the function's number
  u32 tv=m.addType({{},{I32}}),tb1=m.addType({{I32},{I32}});u32 f0=m.funcs.size();for(int i=0;i<NF;i++){Func f;f.type=tv;f.body={I(OP_I32C,0,0,4000+i)};m.funcs.push_back(f);}(void)tb1;
  bool bigTab=idx%100==51;if(bigTab)cBig++;
  for(int t=0;t<NT;t++){TableT x;x.min=bigTab&&r.chance(70)?(r.chance(40)?65530+r.below(12):r.range(65536,140000)):r.chance(20)?r.range(1,3):r.chance(20)?r.range(100,3000):r.range(4,40);x.hasmax=r.chance(30);x.max=x.min+r.below(3);m.tables.push_back(x);m.exports.push_back({sfmt("t%d",t),1,(u32)t});model[t].assign(x.min,-1);
    if(r.chance(50)){Elem e;e.flags=2;e.table=t;u32 off=r.below(x.min);e.off={I(OP_I32C,0,0,off)};u32 n=r.below(x.min-off+1);for(u32 k=0;k<n;k++){int q=r.below(NF);e.funcs.push_back(f0+q);model[t][off+k]=q;}m.elems.push_back(e);}}
  // functions and null in a global each, to fill from
  for(int i=0;i<=NF;i++){GlobalT g;g.t=FUNCREF;g.mut=r.chance(50);g.init=i?Code{I(OP_REFFUNC,f0+i-1)}:Code{I(OP_REFNULL,FUNCREF)};m.globals.push_back(g);}
  struct F{int kind;/*0 set 1 get(null?) 2 call 3 copy 4 fill 5 size 6 get+set*/u32 a,b;int fn;bool k[3];u64 kv[3];FuncType ft;pwart_wasm_function f;};vector<F> fs;
  auto pos=[&](u32 sz){switch(r.below(5)){case 0:return 0u;case 1:return sz;case 2:return sz-r.below(std::min<u32>(sz,4)+1);default:return (u32)r.below(sz+1);}};
  auto pick=[&](F&f,u64*o)->bool{u32 sa=model[f.a].size(),sb=model[f.b].size();
    if(f.kind<=2){o[0]=f.k[0]?f.kv[0]:r.chance(25)?sa-1:r.below(sa);if(f.kind==2&&model[f.a][o[0]]<0)return false;return true;}
    if(f.kind==6){o[0]=f.k[0]?f.kv[0]:r.below(sa);o[1]=f.k[1]?f.kv[1]:r.below(sb);return true;}
    if(f.kind==4){for(int t=0;t<20;t++){o[0]=f.k[0]?f.kv[0]:pos(sa);o[1]=f.k[1]?f.kv[1]:r.chance(30)?sa-o[0]:r.below(sa-o[0]+1);if(o[0]+o[1]<=sa)return true;}return false;}
    for(int t=0;t<20;t++){o[0]=f.k[0]?f.kv[0]:pos(sa);o[1]=f.k[1]?f.kv[1]:pos(sb);if(o[0]>sa||o[1]>sb)continue;u64 room=std::min<u64>(sa-o[0],sb-o[1]);o[2]=f.k[2]?f.kv[2]:r.chance(30)?room:r.below(room+1);if(o[2]<=room)return true;}return false;};
  for(int i=0;i<16;i++){F f{};f.kind=r.below(7);f.a=r.below(NT);f.b=r.below(NT);f.fn=(int)r.below(NF+1)-1;for(int k=0;k<3;k++)f.k[k]=false;u64 o[3]={0,0,0};if(f.kind!=2){pick(f,o);for(int k=0;k<3;k++)if(r.chance(25)){f.k[k]=true;f.kv[k]=o[k];}}
    Code c;vector<VT> loc;int pend=r.chance(50)?0:r.range(1,9);for(int k=0;k<pend;k++){VT t=TS[r.below(4)];c.push_back(I(kop(t),0,0,0));if(r.chance(50))c.push_back(I(OP_CALL,w.fnBase()+ti(t)));}
    static const int NP[]={1,1,1,3,2,0,2};f.ft.p.assign(NP[f.kind],I32);f.ft.r={I32};u32 np=f.ft.p.size();
    auto ref=[&](){switch(r.below(3)){case 0:c.push_back(I(OP_GGET,4+f.fn+1));break;case 1:if(f.fn>=0)c.push_back(I(OP_REFFUNC,f0+f.fn));else c.push_back(I(OP_REFNULL,FUNCREF));break;default:{loc.push_back(FUNCREF);u32 x=np+loc.size()-1;c.push_back(I(OP_GGET,4+f.fn+1));c.push_back(I(OP_LSET,x));c.push_back(I(OP_LGET,x));}}};
    auto A=[&](u32 k){w.operand(c,k,I32,f.k[k],f.kv[k],loc,np,0);};
    switch(f.kind){
      case 0:A(0);ref();c.push_back(I(OP_TSET,f.a));break;
      case 1:A(0);c.push_back(I(OP_TGET,f.a));c.push_back(I(OP_REFISNULL));break;
      case 2:A(0);c.push_back(I(OP_CALLI,tv,f.a));break;
      case 3:A(0);A(1);A(2);c.push_back(I(OP_TCOPY,f.a,f.b));break;
      case 4:A(0);ref();A(1);c.push_back(I(OP_TFILL,f.a));break;
      case 5:c.push_back(I(OP_TSIZE,f.a));break;
      default:A(0);A(1);c.push_back(I(OP_TGET,f.b));if(r.chance(50)){loc.push_back(FUNCREF);u32 x=np+loc.size()-1;c.push_back(I(OP_LTEE,x));}c.push_back(I(OP_TSET,f.a));}
    bool val=f.kind==1||f.kind==2||f.kind==5;
    if(val){loc.push_back(I32);c.push_back(I(OP_LSET,np+(u32)loc.size()-1));}for(int k=0;k<pend;k++)c.push_back(I(OP_DROP));if(val)c.push_back(I(OP_LGET,np+(u32)loc.size()-1));else c.push_back(I(OP_I32C,0,0,777));
    w.add(f.ft,c,loc,sfmt("f%d",i));static const char*KN[]={"set","get","call","copy","fill","size","get and set"};hx::note("%s %u %u%s%s%s",KN[f.kind],f.a,f.b,f.k[0]?" k0":"",f.k[1]?" k1":"",f.k[2]?" k2":"");fs.push_back(f);}
  {int mx;string v=validate(m,&mx);if(!v.empty()){fprintf(stderr,"TAB GENERATOR BUG %s\n%s",v.c_str(),dumpModule(m).c_str());abort();}}
  vector<pwart_wasm_table*> tabs;vector<void*> addr;
  if(w.load()){for(size_t i=0;i<fs.size();i++)fs[i].f=w.fn(sfmt("f%zu",i));for(int t=0;t<NT;t++){tabs.push_back(pwart_get_export_table(w.md,sfmt("t%d",t).c_str()));if(!tabs[t]||tabs[t]->size!=model[t].size())w.err="a table has another size";}}
  addr.assign(NF,nullptr);
  auto compare=[&](const char*what){for(int t=0;t<NT;t++){if(tabs[t]->size!=model[t].size())return sfmt("table %d has another size after %s",t,what);for(size_t k=0;k<model[t].size();k++){void*e=tabs[t]->entries[k];int x=model[t][k];cEnt++;if(x<0?e!=nullptr:(!e||(addr[x]&&addr[x]!=e)))return sfmt("entry %zu of table %d is wrong after %s",k,t,what);if(x>=0)addr[x]=e;}}for(int i=0;i<NF;i++)for(int j=0;j<i;j++)if(addr[i]&&addr[i]==addr[j])return string("two functions have the same reference");return string();};
  if(w.err.empty())w.err=compare("loading");
  for(int n=0;n<(bigTab?40:150)&&w.err.empty();n++){F&f=fs[r.below(fs.size())];u64 o[3]={0,0,0};if(f.kind!=5&&!pick(f,o))continue;vector<u64> a(o,o+f.ft.p.size());u32 got=(u32)w.call(f.f,f.ft,a);cOp++;u32 want=777;auto&A=model[f.a];auto&B=model[f.b];
    switch(f.kind){case 0:A[o[0]]=f.fn;break;case 1:want=A[o[0]]<0;cNull++;break;case 2:want=4000+A[o[0]];cCall++;break;
      case 3:{if(f.a==f.b&&o[2]&&o[0]!=o[1]&&o[0]<o[1]+o[2]&&o[1]<o[0]+o[2])cOver++;if(f.a!=f.b)cCross++;vector<int> t(B.begin()+o[1],B.begin()+o[1]+o[2]);std::copy(t.begin(),t.end(),A.begin()+o[0]);if(!o[2])cZero++;if(o[0]+o[2]==A.size())cEnd++;break;}
      case 4:std::fill(A.begin()+o[0],A.begin()+o[0]+o[1],f.fn);if(!o[1])cZero++;if(o[0]+o[1]==A.size())cEnd++;break;
      case 5:want=A.size();cSize++;break;default:A[o[0]]=B[o[1]];}
    if(got!=want)w.err=sfmt("instruction kind %d gives %u, expected %u",f.kind,got,want);
    if(w.err.empty()&&(f.kind==0||f.kind==3||f.kind==4||f.kind==6))w.err=compare(sfmt("instruction kind %d (%llu, %llu, %llu)",f.kind,(unsigned long long)o[0],(unsigned long long)o[1],(unsigned long long)o[2]).c_str());}
  w.done();return w.err;}
#endif
void hxInit(){for(int i=0;i<20;i++)sweep(i+1,i);sljit_free_unused_memory_exec();hxTakeBad();}
string runOne(u64 seed,u64 idx){
  HxAllocStats a=hxStats();
#if defined(WIDEB)
  string err=wideb(seed*79+idx);
#elif defined(BULK)&&!defined(HX_ASAN)
  string err=idx%1500==7?wide(seed*77+idx):sweep(seed*1000003+idx*7919+1,idx);
#else
  string err=sweep(seed*1000003+idx*7919+1,idx);
#endif
  {string hb=hxTakeBad();if(err.empty()&&hb.size())err=hb;}
  if(!err.empty())return err;
  if(idx%16==0)sljit_free_unused_memory_exec();
  HxAllocStats z=hxStats();cLeak++;
  if(z.blocks!=a.blocks)return sfmt("left %ld block(s), %ld bytes: ",z.blocks-a.blocks,z.bytes-a.bytes)+hxLive();
  hx::nontrivial(hx::hashBytes(hx::S->note[hx::W],hx::S->noteLen[hx::W])^idx);return "";}
HX_MAIN(NAME)
