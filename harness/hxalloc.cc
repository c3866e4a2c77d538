// Accounting of every heap block and mapping made by the code under test (linked with -Wl,--wrap=...).
#include "hxalloc.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <atomic>
extern "C"{
void*__real_malloc(size_t);void*__real_calloc(size_t,size_t);void*__real_realloc(void*,size_t);void __real_free(void*);
void*__real_mmap(void*,size_t,int,int,int,off_t);int __real_munmap(void*,size_t);int __real_mprotect(void*,size_t,int);char*__real_strdup(const char*);
}
struct Blk{void*p;size_t n;void*site;};
static const int CAP=1<<17;static Blk T[CAP];static std::atomic_flag lk=ATOMIC_FLAG_INIT;
struct Map{char*p;size_t n;int prot;};
static Map M[8192];static int nm;
static HxAllocStats st;static long failAt=-1,mfailAt=-1;
HxAllocStats hxStats(){return st;}
void hxFailAfter(long n){failAt=n;}void hxMmapFailAfter(long n){mfailAt=n;}
static void lock(){while(lk.test_and_set(std::memory_order_acquire));}
static void unlock(){lk.clear(std::memory_order_release);}
static unsigned hsh(void*p){unsigned long x=(unsigned long)p>>4;x*=0x9E3779B97F4A7C15ull;return (x>>40)&(CAP-1);}
static void ins(void*p,size_t n,void*site){lock();unsigned i=hsh(p);int k=0;while(T[i].p&&T[i].p!=(void*)1&&k<CAP)i=(i+1)&(CAP-1),k++;T[i]={p,n,site};st.blocks++;st.bytes+=n;st.allocs++;unlock();}
static bool del(void*p,size_t*n){lock();unsigned i=hsh(p);int k=0;while(T[i].p&&T[i].p!=p&&k<CAP)i=(i+1)&(CAP-1),k++;if(T[i].p!=p){unlock();return false;}*n=T[i].n;T[i].p=(void*)1;unsigned j=(i+1)&(CAP-1);if(!T[j].p){while(T[i].p==(void*)1){T[i].p=0;i=(i-1)&(CAP-1);}}st.blocks--;st.bytes-=*n;st.frees++;unlock();return true;}
static bool failNow(long&f){if(f<0)return false;return f--==0;}
#ifdef HX_ASAN
static void junk(void*,size_t,int){}
#else
static void junk(void*p,size_t n,int c){if(n>4096)n=4096;memset(p,c,n);}
#endif
extern "C"{
void*__wrap_malloc(size_t n){if(failNow(failAt))return 0;void*p=__real_malloc(n);if(p){junk(p,n,0xA7);ins(p,n,__builtin_return_address(0));}return p;}
void*__wrap_calloc(size_t a,size_t b){if(failNow(failAt))return 0;void*p=__real_calloc(a,b);if(p)ins(p,a*b,__builtin_return_address(0));return p;}
void*__wrap_realloc(void*p,size_t n){
  if(failNow(failAt))return 0;
  size_t o=0;if(p){if(!del(p,&o)){hxBad("realloc of a block that is not live",p);return __real_realloc(p,n);}}
#ifdef HX_ASAN
  void*q=__real_realloc(p,n);
#else
  // always move: stale pointers into the old block are seen at once
  void*q=__real_malloc(n);if(q){junk(q,n,0xA7);if(p){memcpy(q,p,o<n?o:n);memset(p,0xDF,o<65536?o:65536);__real_free(p);}}
#endif
  if(q)ins(q,n,__builtin_return_address(0));return q;}
void __wrap_free(void*p){if(!p)return;size_t n;if(!del(p,&n)){hxBad("free of a block that is not live",p);return;}junk(p,n,0xDF);__real_free(p);}
char*__wrap_strdup(const char*s){char*p=__real_strdup(s);if(p)ins(p,strlen(p)+1,__builtin_return_address(0));return p;}
void*__wrap_mmap(void*a,size_t n,int prot,int fl,int fd,off_t o){
  if(failNow(mfailAt))return MAP_FAILED;
  void*p=__real_mmap(a,n,prot,fl,fd,o);if(p!=MAP_FAILED){lock();if(nm<8192)M[nm++]={(char*)p,n,prot};st.maps++;st.mapBytes+=n;if(prot&PROT_EXEC)st.execBytes+=n;unlock();}return p;}
int __wrap_munmap(void*a,size_t n){
  lock();bool ok=false;for(int i=0;i<nm;i++)if(M[i].p==a){ok=true;size_t pn=(M[i].n+4095)&~4095ul;if(((n+4095)&~4095ul)!=pn){unlock();hxBad("munmap of a different size than was mapped",a);lock();}
    st.maps--;st.mapBytes-=M[i].n;if(M[i].prot&PROT_EXEC)st.execBytes-=M[i].n;M[i]=M[--nm];break;}
  unlock();if(!ok){hxBad("munmap of memory that is not mapped by the library",a);return -1;}
  return __real_munmap(a,n);}
}
static char bad[300];static int nbad;
void hxBad(const char*what,void*p){lock();if(!nbad++)snprintf(bad,sizeof bad,"%s (%p)",what,p);unlock();}
std::string hxTakeBad(){if(!nbad)return "";std::string s=bad;nbad=0;bad[0]=0;return s;}
size_t hxBlockSize(void*p){lock();unsigned i=hsh(p);int k=0;while(T[i].p&&T[i].p!=p&&k<CAP)i=(i+1)&(CAP-1),k++;size_t n=T[i].p==p?T[i].n:(size_t)-1;unlock();return n;}
std::string hxLive(int max){std::string o;char b[120];int k=0;for(int i=0;i<CAP&&k<max;i++)if(T[i].p&&T[i].p!=(void*)1){snprintf(b,sizeof b," [%zu bytes allocated at %p]",T[i].n,T[i].site);o+=b;k++;}return o;}

int hxMaps(char**a,size_t*n,int max){lock();int k=0;for(int i=0;i<nm&&k<max;i++){a[k]=M[i].p;n[k++]=M[i].n;}unlock();return k;}
