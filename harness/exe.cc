// C25: histories of executable-memory allocation, code generation and release, by one or several threads.
#include "hx.h"
#include "hxalloc.h"
#include <thread>
extern "C"{
#include <sljitLir.h>
}
static hx::Counter cOps("operations"),cAlloc("blocks_allocated"),cFree("blocks_freed"),cBytes("block_bytes_checked"),cFun("functions_generated"),cCalls("generated_functions_called"),cCode("code_bytes_checked"),cRel("release_points_checked"),cThr("threads"),cFail("mapping_failures_injected"),cMax("live_blocks_at_check"),cInt("intervals_checked_disjoint");
#if defined(SLJIT_WX_EXECUTABLE_ALLOCATOR)&&SLJIT_WX_EXECUTABLE_ALLOCATOR
enum{RAW=0,TWIN=0};
#elif defined(SLJIT_PROT_EXECUTABLE_ALLOCATOR)&&SLJIT_PROT_EXECUTABLE_ALLOCATOR
enum{RAW=0,TWIN=1};
#else
enum{RAW=1,TWIN=0};
#endif
struct Blk{u8*p;size_t n;u64 pat;bool code;vector<u8> snap;vector<std::pair<u8,u64>> ops;};
static void fillB(Blk&b){u64 x=b.pat;for(size_t i=0;i<b.n;i++){x=x*6364136223846793005ull+1442695040888963407ull;b.p[i]=(u8)(x>>40);}}
static bool okB(const Blk&b){u64 x=b.pat;for(size_t i=0;i<b.n;i++){x=x*6364136223846793005ull+1442695040888963407ull;if(b.p[i]!=(u8)(x>>40))return false;}return true;}
// f(x) = a chain of operations on x; the length decides the code size
static u64 model(const Blk&b,u64 x){for(auto&o:b.ops)switch(o.first){case 0:x+=o.second;break;case 1:x^=o.second;break;case 2:x*=o.second;break;default:x=(x<<(o.second&63))|(x>>1);}return x;}
static bool gen(Blk&b,Rng&r,int n){
  struct sljit_compiler*C=sljit_create_compiler(NULL);if(!C)return false;
  sljit_emit_enter(C,0,SLJIT_ARGS1(W,W),3,1,0);sljit_emit_op1(C,SLJIT_MOV,SLJIT_R0,0,SLJIT_S0,0);
  for(int i=0;i<n;i++){u8 k=r.below(4);u64 v=r.chance(40)?r.below(100):r.next();b.ops.push_back({k,v});
    if(k<3)sljit_emit_op2(C,k==0?SLJIT_ADD:k==1?SLJIT_XOR:SLJIT_MUL,SLJIT_R0,0,SLJIT_R0,0,SLJIT_IMM,(sljit_sw)v);
    else{sljit_emit_op2(C,SLJIT_LSHR,SLJIT_R1,0,SLJIT_R0,0,SLJIT_IMM,1);sljit_emit_op2(C,SLJIT_SHL,SLJIT_R0,0,SLJIT_R0,0,SLJIT_IMM,v&63);sljit_emit_op2(C,SLJIT_OR,SLJIT_R0,0,SLJIT_R0,0,SLJIT_R1,0);}}
  sljit_emit_return(C,SLJIT_MOV,SLJIT_R0,0);
  void*p=sljit_generate_code(C,0,NULL);size_t sz=sljit_get_generated_code_size(C);sljit_free_compiler(C);if(!p)return false;
  b.p=(u8*)p;b.n=sz;b.code=true;b.snap.assign(b.p,b.p+sz);return true;}
static string checkOne(Blk&b,Rng&r){
  if(!b.code){cBytes+=b.n;return okB(b)?"":sfmt("a live block of %zu bytes at %p lost its content",b.n,(void*)b.p);}
  cCode+=b.n;if(memcmp(b.p,b.snap.data(),b.n))return "the code of a live function changed";
  for(int i=0;i<2;i++){u64 x=r.next();cCalls++;u64 v=((sljit_sw(SLJIT_FUNC*)(sljit_sw))b.p)(x);if(v!=model(b,x))return sfmt("a live function gives %llx, expected %llx",(unsigned long long)v,(unsigned long long)model(b,x));}
  return "";}
static void release(Blk&b){if(b.code)sljit_free_code(b.p,NULL);else sljit_free_exec(b.p);cFree++;}
static size_t pickSize(Rng&r){switch(r.below(8)){case 0:return r.below(64);case 1:case 2:return r.range(1,600);case 3:return r.range(500,9000);case 4:return 65536-r.below(200);case 5:return r.range(20000,70000);case 6:return 65536*r.range(1,3)-r.below(120);default:return r.range(1,200);}}
static string disjoint(vector<Blk>&L){vector<std::pair<u8*,u8*>> v;for(auto&b:L)v.push_back({b.p,b.p+b.n});std::sort(v.begin(),v.end());for(size_t i=1;i<v.size();i++)if(v[i].first<v[i-1].second)return sfmt("live blocks overlap: %p+%zu and %p",(void*)v[i-1].first,(size_t)(v[i-1].second-v[i-1].first),(void*)v[i].first);cInt+=v.size();return "";}
static string history(Rng&r,vector<Blk>&L,int nops,bool single,u64*sig){
  int style=r.below(4);
  for(int q=0;q<nops;q++){cOps++;int k=r.below(100);int growth=style==0?60:style==1?45:style==2?(q*2<nops?80:20):52;
    if(k<growth){Blk b;b.code=!RAW||r.chance(style==3?80:35);
      bool inject=single&&r.chance(3);if(inject){hxMmapFailAfter(0);cFail++;}
      if(b.code){int n=r.chance(60)?r.below(30):r.chance(80)?r.below(400):r.range(1000,6000);if(!gen(b,r,n)){if(single)hxMmapFailAfter(-1);if(inject)continue;return "code generation failed";}cFun++;}
      else{b.n=pickSize(r);b.pat=r.next();b.p=(u8*)sljit_malloc_exec(b.n);if(!b.p){if(single)hxMmapFailAfter(-1);if(inject)continue;return sfmt("allocating %zu executable bytes failed",b.n);}if((size_t)b.p&7)return "executable block is not aligned";fillB(b);cAlloc++;}
      if(single)hxMmapFailAfter(-1);*sig=hx::mix(*sig,b.n);
      L.push_back(b);}
    else if(k<96||!L.size()){if(!L.size())continue;size_t i=r.chance(20)?L.size()-1:r.chance(20)?0:r.below(L.size());string s=checkOne(L[i],r);if(s.size())return s;release(L[i]);*sig=hx::mix(*sig,i);
      L[i]=L.back();L.pop_back();}
    else if(k<98){size_t i=r.below(L.size());string s=checkOne(L[i],r);if(s.size())return s;}
    else{sljit_free_unused_memory_exec();
      if(single){cRel++; // every mapping left holds a live block
        char*a[512];size_t n[512];int m=hxMaps(a,n,512);int holding=0;
        for(int i=0;i<m;i++){bool h=false;if(a[i]==(char*)hx::S)continue;for(auto&b:L)if((char*)b.p>=a[i]&&(char*)b.p+b.n<=a[i]+n[i])h=true;if(h)holding++;else if(!TWIN)return sfmt("executable memory (%zu bytes) without a live block is kept after unused memory was released",n[i]);}
        if(TWIN&&m-1!=2*holding)return sfmt("%d mappings are kept for %d chunks in use",m-1,holding);
        for(auto&b:L){bool h=false;for(int i=0;i<m;i++)if((char*)b.p>=a[i]&&(char*)b.p+b.n<=a[i]+n[i])h=true;if(!h)return "a live block lies in memory that was released";}}}
    if(r.chance(5)){string s=disjoint(L);if(s.size())return s;}
  }
  cMax+=L.size();
  for(auto&b:L){string s=checkOne(b,r);if(s.size())return s;}
  return disjoint(L);}
static string scenario(Rng&r,bool threads){
  HxAllocStats a=hxStats();u64 sig=1;string err;
  if(!threads){vector<Blk> L;err=history(r,L,r.range(5,150),true,&sig);if(err.size())return err;
    for(size_t i=L.size();i>1;i--)std::swap(L[i-1],L[r.below(i)]);
    while(L.size()){release(L.back());L.pop_back();if(L.size()&&r.chance(10)){string s=checkOne(L[r.below(L.size())],r);if(s.size())return s;}}}
  else{int T=r.range(2,5);cThr+=T;vector<vector<Blk>> L(T);vector<string> e(T);vector<u64> sg(T,1);vector<std::thread> th;vector<u64> seeds;for(int t=0;t<T;t++)seeds.push_back(r.next());
    for(int t=0;t<T;t++)th.emplace_back([&,t]{Rng q(seeds[t]);e[t]=history(q,L[t],q.range(5,60),false,&sg[t]);});
    for(auto&t:th)t.join();vector<Blk> A;for(int t=0;t<T;t++){if(err.empty())err=e[t];sig=hx::mix(sig,sg[t]);for(auto&b:L[t])A.push_back(b);}
    if(err.empty())err=disjoint(A);if(err.size())return err;
    // blocks may be freed by another thread than the one that allocated them
    th.clear();for(int t=0;t<T;t++)th.emplace_back([&,t]{Rng q(seeds[t]+1);for(size_t i=t;i<A.size();i+=T){string s=checkOne(A[i],q);if(s.size())e[t]=s;release(A[i]);}});for(auto&t:th)t.join();for(auto&s:e)if(s.size())return s;}
  sljit_free_unused_memory_exec();HxAllocStats b=hxStats();
  string hb=hxTakeBad();if(hb.size())return hb;
  if(b.mapBytes!=a.mapBytes)return sfmt("%ld bytes of executable memory are still mapped after everything was freed",b.mapBytes-a.mapBytes);
  if(!threads&&b.blocks!=a.blocks)return sfmt("left %ld heap block(s): ",b.blocks-a.blocks)+hxLive();
  hx::note("%s history, signature %llx, %ld mappings left",threads?"multi-threaded":"single-threaded",(unsigned long long)sig,b.maps);
  hx::nontrivial(sig);return "";}
static bool THR;
void hxInit(){Rng r(1);Blk b;b.code=false;gen(b,r,5);release(b);sljit_free_unused_memory_exec();hxTakeBad();hx::batch=4;}
string runOne(u64 seed,u64 idx){Rng r(seed*1000003+idx*7919);
#ifdef EXE_THREADS
  return scenario(r,true);
#else
  return scenario(r,false);
#endif
}
HX_MAIN("exe")
