// C28: histories of sljit stack and runtime stack operations against a model of their contents and limits.
#include "hx.h"
#include "hxalloc.h"
extern "C"{
#include <sljitLir.h>
#include <pwart.h>
}
static hx::Counter cOps("operations"),cStacks("sljit_stacks"),cGrow("grows"),cShrink("shrinks"),cRef("requests_refused"),cBytes("bytes_compared"),cWritten("bytes_written"),cRt("runtime_stacks"),cFail("allocation_failures_injected"),cFull("stacks_used_to_their_limit"),cPut("helper_values_round_tripped");
static size_t PG;
struct St{struct sljit_stack*s;size_t max;u8*min,*end;vector<u8> c;/* contents of [end-c.size(),end), by distance from the end */};
static string chk(St&t){
  if(t.s->end!=t.end||t.s->min_start!=t.min)return "a stack's limits moved";
  if(t.s->start!=t.end-t.c.size())return sfmt("start is %zd bytes from the end, expected %zu",(ssize_t)(t.end-t.s->start),t.c.size());
  return "";}
static string body(St&t){cBytes+=t.c.size();if(t.c.size()&&memcmp(t.end-t.c.size(),t.c.data(),t.c.size())){size_t i=0;while(t.end[(ssize_t)i-(ssize_t)t.c.size()]==t.c[i])i++;return sfmt("stack byte %zu below the end changed (stack of %zu, %zu in use)",t.c.size()-i,t.max,t.c.size());}return "";}
// c[0] is the lowest byte in use
static void fillRange(St&t,size_t lo,size_t n,Rng&r){u64 x=r.next()|1;for(size_t i=0;i<n;i++){x=x*6364136223846793005ull+1442695040888963407ull;u8 v=(u8)(x>>40);t.c[lo+i]=v;t.end[(ssize_t)(lo+i)-(ssize_t)t.c.size()]=v;}cWritten+=n;}
static string history(Rng&r,u64*sig){
  vector<St> L;vector<std::pair<u8*,int>> RT;vector<vector<u8>> RC;int nops=r.range(5,60);string err;
  for(int q=0;q<nops&&err.empty();q++){cOps++;int k=r.below(100);*sig=hx::mix(*sig,k);
    if(k<15||(L.empty()&&k<70)){size_t mx;switch(r.below(5)){case 0:mx=r.range(1,100);break;case 1:mx=PG*r.range(1,16);break;case 2:mx=PG*r.range(1,64)+r.range(-20,20);break;case 3:mx=r.range(1,300000);break;default:mx=PG;}
      size_t st=r.chance(20)?mx:r.chance(20)?1:1+r.below(mx);int mode=r.below(12);
      if(mode==0){size_t b=r.chance(50)?0:mx+1+r.below(10000);cRef++;HxAllocStats a=hxStats();if(sljit_allocate_stack(b,mx,NULL))err=sfmt("a stack with start size %zu and maximum %zu was made",b,mx);HxAllocStats c=hxStats();if(a.blocks!=c.blocks||a.mapBytes!=c.mapBytes)err="a refused stack leaves memory behind";continue;}
      if(mode==1){cFail++;HxAllocStats a=hxStats();if(r.chance(50))hxFailAfter(0);else hxMmapFailAfter(0);auto*s=sljit_allocate_stack(st,mx,NULL);hxFailAfter(-1);hxMmapFailAfter(-1);HxAllocStats c=hxStats();
        if(s){err="a stack was made although its memory could not be had";continue;}if(a.blocks!=c.blocks||a.mapBytes!=c.mapBytes)err="a failed stack allocation leaves memory behind";continue;}
      auto*s=sljit_allocate_stack(st,mx,NULL);if(!s){err=sfmt("no stack with start size %zu, maximum %zu",st,mx);continue;}cStacks++;
      St t;t.s=s;t.max=mx;t.min=s->min_start;t.end=s->end;t.c.assign(st,0);
      if(s->top!=s->end)err="top of a new stack is not its end";if((size_t)(t.end-t.min)<mx)err="a stack offers less than its maximum";if((size_t)(t.end-t.min)>=mx+PG)err="a stack offers more than its maximum, rounded up to a page";
      if(((size_t)t.end&(PG-1))||((size_t)t.min&(PG-1)))err="stack limits are not page aligned";if(s->start!=s->end-st)err="a new stack has another start size";
      fillRange(t,0,st,r);L.push_back(t);*sig=hx::mix(*sig,mx*131+st);}
    else if(k<70){ // resize
      St&t=L[r.below(L.size())];size_t cap=t.end-t.min;size_t n;switch(r.below(7)){case 0:n=1;break;case 1:n=cap;break;case 2:n=(t.c.size()/PG)*PG;break;case 3:n=(t.c.size()/PG+1)*PG+r.range(-9,9);break;case 4:n=t.c.size()+r.range(-100,100);break;default:n=1+r.below(cap);}
      int bad=r.below(8);*sig=hx::mix(*sig,n);
      if(bad==0||n<1||n>cap){u8*p=r.chance(50)?t.min-1-r.below(r.chance(50)?3:20000):t.end+(r.chance(50)?0:r.below(20000));cRef++;struct sljit_stack o=*t.s;if(sljit_stack_resize(t.s,p))err=sfmt("a request for a start %zd bytes from the end was granted (limit %zu)",(ssize_t)(t.end-p),cap);else if(memcmp(&o,t.s,sizeof o))err="a refused request changed the stack";if(err.empty())err=body(t);continue;}
      u8*p=t.end-n;u8*got=sljit_stack_resize(t.s,p);if(got!=p){err=sfmt("a resize to %zu of %zu bytes was refused",n,cap);continue;}
      size_t old=t.c.size();if(n>old){cGrow++;vector<u8> c2(n-old,0);c2.insert(c2.end(),t.c.begin(),t.c.end());t.c=c2;fillRange(t,0,n-old,r);if(n==cap)cFull++;}else{cShrink++;t.c.erase(t.c.begin(),t.c.begin()+(old-n));}
      err=chk(t);if(err.empty())err=body(t);}
    else if(k<78){if(L.empty())continue;St&t=L[r.below(L.size())];if(t.c.size()){size_t o=r.below(t.c.size()),n=1+r.below(t.c.size()-o);fillRange(t,o,n,r);u8*tp=t.end-r.below(t.c.size()+1);t.s->top=tp;}}
    else if(k<84){if(L.empty())continue;size_t i=r.below(L.size());err=chk(L[i]);if(err.empty())err=body(L[i]);sljit_free_stack(L[i].s,NULL);L[i]=L.back();L.pop_back();}
    else if(k<94){ // runtime stack
      int n=r.chance(20)?r.below(40):r.chance(50)?r.range(1,70000):(1<<r.range(0,18));u8*p=(u8*)pwart_allocate_stack(n);cRt++;if(!p){err="no runtime stack";continue;}
      if((size_t)p&15){err=sfmt("runtime stack at %p is not 16-byte aligned",(void*)p);continue;}
      vector<u8> c(n);for(auto&x:c)x=r.next();if(n)memcpy(p,c.data(),n);cWritten+=n;RT.push_back({p,n});RC.push_back(c);*sig=hx::mix(*sig,n);
      if(n>=256){ // the helpers put and get every type at its place
        for(int al=0;al<2;al++){struct pwart_global_compile_config g;g.stack_flags=al;g.misc_flags=3;pwart_set_global_compile_config(&g);void*sp=p;u64 vals[12];int ty[12];size_t off=0;
          for(int i=0;i<12;i++){ty[i]=r.below(5);vals[i]=r.next();int sz=ty[i]==0||ty[i]==2?4:8;if(al&&sz==8)off=(off+7)&~7ul;
            switch(ty[i]){case 0:pwart_rstack_put_i32(&sp,(u32)vals[i]);break;case 1:pwart_rstack_put_i64(&sp,vals[i]);break;case 2:{float f;u32 b=(u32)vals[i]&0xff7fffff;vals[i]=b;memcpy(&f,&b,4);pwart_rstack_put_f32(&sp,f);break;}case 3:{double d;u64 b=vals[i]&0xffeffffffffffffful;vals[i]=b;memcpy(&d,&b,8);pwart_rstack_put_f64(&sp,d);break;}default:pwart_rstack_put_ref(&sp,(void*)vals[i]);}
            if(memcmp(p+off,&vals[i],sz))err=sfmt("a value of %d bytes was not put at offset %zu (alignment %d)",sz,off,al);off+=sz;if((u8*)sp!=p+off)err=sfmt("the stack pointer is at %zd after putting, expected %zu",(ssize_t)((u8*)sp-p),off);}
          sp=p;for(int i=0;i<12;i++){u64 v=0;switch(ty[i]){case 0:v=(u32)pwart_rstack_get_i32(&sp);break;case 1:v=pwart_rstack_get_i64(&sp);break;case 2:{float f=pwart_rstack_get_f32(&sp);u32 b;memcpy(&b,&f,4);v=b;break;}case 3:{double d=pwart_rstack_get_f64(&sp);memcpy(&v,&d,8);break;}default:v=(u64)pwart_rstack_get_ref(&sp);}
            cPut++;u64 w=ty[i]==0||ty[i]==2?(u32)vals[i]:vals[i];if(v!=w)err=sfmt("the helper gets %llx back for %llx",(unsigned long long)v,(unsigned long long)w);}
          if((u8*)sp!=p+off)err="getting ends at another place than putting";}
        memcpy(p,c.data(),n);}}
    else if(RT.size()){size_t i=r.below(RT.size());cBytes+=RT[i].second;if(RT[i].second&&memcmp(RT[i].first,RC[i].data(),RT[i].second))err="a runtime stack lost its contents";pwart_free_stack(RT[i].first);RT[i]=RT.back();RT.pop_back();RC[i]=RC.back();RC.pop_back();}
    if(err.empty()&&r.chance(10))for(auto&t:L){err=body(t);if(err.size())break;}
  }
  for(auto&t:L){if(err.empty())err=chk(t);if(err.empty())err=body(t);sljit_free_stack(t.s,NULL);}
  for(size_t i=0;i<RT.size();i++){if(err.empty()&&RT[i].second&&memcmp(RT[i].first,RC[i].data(),RT[i].second))err="a runtime stack lost its contents";pwart_free_stack(RT[i].first);}
  hx::note("%d operations, signature %llx",nops,(unsigned long long)*sig);
  return err;}
void hxInit(){PG=sysconf(_SC_PAGESIZE);}
string runOne(u64 seed,u64 idx){Rng r(seed*1000003+idx*7919);HxAllocStats a=hxStats();u64 sig=1;string err=history(r,&sig);
  string hb=hxTakeBad();if(err.empty()&&hb.size())err=hb;
  HxAllocStats b=hxStats();if(err.empty()&&(a.blocks!=b.blocks||a.mapBytes!=b.mapBytes))err=sfmt("after freeing every stack %ld block(s) and %ld mapped bytes are left",b.blocks-a.blocks,b.mapBytes-a.mapBytes);
  if(err.empty())hx::nontrivial(sig);return err;}
HX_MAIN("stk")
