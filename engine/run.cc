#include "run.h"
#include <sys/mman.h>
#include <unistd.h>
#include <stdarg.h>
thread_local u64 g_lastHash;bool g_keepConfig=false;
extern "C" void call_checked(void*fn,void*sp,u64*out);
__asm__(R"(
.text
.globl call_checked
.type call_checked,@function
call_checked:
  pushq %rbx
  pushq %rbp
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $24,%rsp
  movq %rdx,(%rsp)
  movabsq $0x1122334455667788,%rbx
  movabsq $0x2233445566778899,%rbp
  movabsq $0x33445566778899aa,%r12
  movabsq $0x445566778899aabb,%r13
  movabsq $0x5566778899aabbcc,%r14
  movabsq $0x66778899aabbccdd,%r15
  call pwart_call_wasm_function@PLT
  movq (%rsp),%rdx
  movq %rbx,(%rdx)
  movq %rbp,8(%rdx)
  movq %r12,16(%rdx)
  movq %r13,24(%rdx)
  movq %r14,32(%rdx)
  movq %r15,40(%rdx)
  stmxcsr 48(%rdx)
  fnstcw 52(%rdx)
  pushfq
  popq 56(%rdx)
  addq $24,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbp
  popq %rbx
  ret
.size call_checked,.-call_checked
)");
static const u64 REGS[6]={0x1122334455667788ull,0x2233445566778899ull,0x33445566778899aaull,0x445566778899aabbull,0x5566778899aabbccull,0x66778899aabbccddull};
static string fmt(const char*f,...){char b[1024];va_list a;va_start(a,f);vsnprintf(b,sizeof b,f,a);va_end(a);return b;}
struct Lay{u64 off=0;bool al;explicit Lay(bool a):al(a){}u64 next(VT t){int s=vsize(t);if(al)off=(off+s-1)&~(u64)(s-1);u64 o=off;off+=s;return o;}};
struct Ctx{
  Case*c=nullptr;Store*st=nullptr;bool al=false,help=false;
  vector<HostLog> rlog;vector<void*> realFn; // by FuncObj id
  std::map<u64,FuncObj*> byReal;int cbdepth=0,mcbdepth=0;string err;u64 hc=0,mhc=0;
  FuncObj*cbModel=nullptr;void*cbReal=nullptr;
  vector<pwart_wasm_function> wraps;vector<pwart_wasm_memory> hm;vector<pwart_wasm_table> ht;vector<u64*> hg;
  vector<MemObj*> mm;vector<GlobObj*> mg; // the model's host memories and globals
  std::function<void*(const char*,const char*,u32)> others;
};
static thread_local Ctx*C;
// 4 GB regions for huge memories, and the region native_memory cases address absolutely
static const u64 HUGESZ=65536ull*65536;
static thread_local u8*hugeR,*hugeM;
static u8*reserve(){u8*p=(u8*)mmap(0,HUGESZ+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);if(p==MAP_FAILED)_exit(96);mprotect(p,4096,PROT_NONE);mprotect(p+4096+HUGESZ,4096,PROT_NONE);return p+4096;}
static const u64 NATIVE_BASE=0x200000000000ull;
static u8*nativeReal(){static u8*p=nullptr;if(!p){p=(u8*)mmap((void*)NATIVE_BASE,131072,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0);if(p!=(u8*)NATIVE_BASE)_exit(96);}return p;}
// compares every page either side has touched; returns the first differing byte or ~0
static u64 cmpHuge(u8*real,u8*model,u64 size,u64&touched){
  static thread_local vector<u8> v,w;const u64 CH=1024;v.resize(HUGESZ/4096);w.resize(HUGESZ/4096);
  if(mincore(real,HUGESZ,v.data())||mincore(model,HUGESZ,w.data()))_exit(96);
  for(u64 i=0;i<v.size();i+=8){u64 a,b;memcpy(&a,&v[i],8);memcpy(&b,&w[i],8);if(!((a|b)&0x0101010101010101ull))continue;
    for(u64 k=i;k<i+8;k++)if((v[k]|w[k])&1){touched+=4096;if(memcmp(real+k*4096,model+k*4096,4096)){u64 x=k*4096;while(real[x]==model[x])x++;return x;}}}
  (void)size;(void)CH;return ~0ull;}
static u64 h64(u64 a){a^=a>>33;a*=0xff51afd7ed558ccdull;a^=a>>33;a*=0xc4ceb9fe1a85ec53ull;a^=a>>33;return a;}
static u64 canon(VT t,u64 v){if(t==F32){v=(u32)v;return isnan32(v)?0x7fc00000:v;}if(t==F64)return isnan64(v)?0x7ff8000000000000ull:v;if(t==I32)return (u32)v;return v;}
// funcrefs are represented in logs by model FuncObj pointers
static u64 hashArgs(int slot,const FuncType&ft,const vector<V>&a,u64 hc){u64 h=h64(slot*77+hc*131+5);for(size_t i=0;i<a.size();i++){u64 v=ft.p[i]==FUNCREF?(a[i].v?((FuncObj*)a[i].v)->id+1:0):canon(ft.p[i],a[i].v);h=h64(h^v);}return h;}
static void resultsFor(const FuncType&ft,u64 h,const vector<V>&args,vector<V>&res){res.clear();for(size_t i=0;i<ft.r.size();i++){V v;Rng r(h+i*7);VT t=ft.r[i];
    if(t==FUNCREF){ // return one of the arguments or null
      v.v=0;for(size_t k=0;k<ft.p.size();k++)if(ft.p[k]==FUNCREF)v.v=args[k].v;}
    else if(t==EXTERNREF)v.v=r.below(9999);
    else v.v=constOf(r,t,0);res.push_back(v);}}
static vector<u64> cbArgs(const FuncType&ft,u64 h){vector<u64> o;for(size_t i=0;i<ft.p.size();i++){Rng r(h*3+i);VT t=ft.p[i];o.push_back(t==FUNCREF?0:t==EXTERNREF?r.below(999):(t==I32&&i==0)?r.below(3):constOf(r,t,0));}return o;}
static u64 foldRes(const FuncType&ft,const vector<V>&rs){u64 h=0;for(size_t i=0;i<rs.size();i++)h=h64(h^(ft.r[i]==FUNCREF?(rs[i].v?((FuncObj*)rs[i].v)->id+1:0):canon(ft.r[i],rs[i].v)));return h;}
// effects of a host function of kind 2, applied to whatever the two sides pass in
template<class M,class G>static void hostWrites(u64 h,size_t nm,size_t ng,M mem,G glob){
  if(nm)mem((h>>8)%nm,h64(h+1));
  if(ng)glob((h>>20)%ng,h64(h+2));}
static void modelHost(Store&s,int slot,const vector<V>&a,vector<V>&res){
  HostFn&hf=C->c->hf[slot];u64 h=hashArgs(slot,hf.ft,a,C->mhc++);
  if(hf.kind==1&&C->cbModel&&C->mcbdepth==0){C->mcbdepth++;vector<u64> ca=cbArgs(C->cbModel->ft,h);vector<V> va,rs;for(u64 x:ca){V v;v.v=x;va.push_back(v);}
    try{s.call(C->cbModel,va,rs);}catch(...){C->mcbdepth--;throw;}
    C->mcbdepth--;for(auto&v:rs)if(v.t){}h=h64(h^foldRes(C->cbModel->ft,rs));}
  if(hf.kind==2)hostWrites(h,C->mm.size(),C->mg.size(),[&](size_t i,u64 x){MemObj*m=C->mm[i];if(!m->size())return;m->ptr()[x%m->size()]=(u8)(x>>56);},
    [&](size_t i,u64 x){GlobObj*g=C->mg[i];if(!g->mut||g->t==FUNCREF)return;Rng r(x);g->v.v=g->t==EXTERNREF?r.below(999):constOf(r,g->t,0);g->v.t=false;});
  resultsFor(hf.ft,h,a,res);
}
static u64 toReal(VT t,u64 v){if(t==FUNCREF)return v?(u64)C->realFn[((FuncObj*)v)->id]:0;return v;}
static bool fromReal(VT t,u64 raw,u64&v){if(t!=FUNCREF){v=raw;return true;}if(!raw){v=0;return true;}auto it=C->byReal.find(raw);if(it==C->byReal.end())return false;v=(u64)it->second;return true;}
static u64 rd(const u8*p,VT t){if(vsize(t)==4){u32 x;memcpy(&x,p,4);return x;}u64 x;memcpy(&x,p,8);return x;}
static void wr(u8*p,VT t,u64 v){if(vsize(t)==4){u32 x=(u32)v;memcpy(p,&x,4);}else memcpy(p,&v,8);}
// arguments and results go through the public helpers in half of the cases
struct RS{void*sp;Lay l;u8*fp;bool h;RS(u8*f,bool al,bool help):sp(f),l(al),fp(f),h(help){}
  void put(VT t,u64 v){if(!h){wr(fp+l.next(t),t,v);return;}
    switch(t){case I32:pwart_rstack_put_i32(&sp,(int)v);break;case I64:pwart_rstack_put_i64(&sp,(long long)v);break;case F32:{float f;u32 x=(u32)v;memcpy(&f,&x,4);pwart_rstack_put_f32(&sp,f);break;}case F64:{double d;memcpy(&d,&v,8);pwart_rstack_put_f64(&sp,d);break;}default:pwart_rstack_put_ref(&sp,(void*)v);}}
  u64 get(VT t){if(!h)return rd(fp+l.next(t),t);u64 v=0;
    switch(t){case I32:return (u32)pwart_rstack_get_i32(&sp);case I64:return pwart_rstack_get_i64(&sp);case F32:{float f=pwart_rstack_get_f32(&sp);memcpy(&v,&f,4);return v;}case F64:{double d=pwart_rstack_get_f64(&sp);memcpy(&v,&d,8);return v;}default:return (u64)pwart_rstack_get_ref(&sp);}}};
static void __attribute__((noinline)) clobber(){
  __asm__ volatile("movq $-1,%%rax\n\tmovq %%rax,%%xmm0\n\tmovapd %%xmm0,%%xmm1\n\tmovapd %%xmm0,%%xmm2\n\tmovapd %%xmm0,%%xmm3\n\tmovapd %%xmm0,%%xmm4\n\tmovapd %%xmm0,%%xmm5\n\tmovapd %%xmm0,%%xmm6\n\tmovapd %%xmm0,%%xmm7\n\tmovapd %%xmm0,%%xmm8\n\tmovapd %%xmm0,%%xmm9\n\tmovapd %%xmm0,%%xmm10\n\tmovapd %%xmm0,%%xmm11\n\tmovapd %%xmm0,%%xmm12\n\tmovapd %%xmm0,%%xmm13\n\tmovapd %%xmm0,%%xmm14\n\tmovapd %%xmm0,%%xmm15\n\t"
   "movq %%rax,%%rcx\n\tmovq %%rax,%%rdx\n\tmovq %%rax,%%rsi\n\tmovq %%rax,%%rdi\n\tmovq %%rax,%%r8\n\tmovq %%rax,%%r9\n\tmovq %%rax,%%r10\n\tmovq %%rax,%%r11\n\t":::"rax","rcx","rdx","rsi","rdi","r8","r9","r10","r11","xmm0","xmm1","xmm2","xmm3","xmm4","xmm5","xmm6","xmm7","xmm8","xmm9","xmm10","xmm11","xmm12","xmm13","xmm14","xmm15","cc","memory");}
static void realHost(int slot,void*fpv){
  u8*fp=(u8*)fpv;
  if(((u64)__builtin_frame_address(0))&15){if(C->err.empty())C->err="native stack misaligned at host call";}
  if(C->al&&((u64)fp&7)&&C->err.empty())C->err="host function frame base not 8-aligned under AUTO_ALIGN";
  HostFn&hf=C->c->hf[slot];HostLog L;L.slot=slot;
  RS in(fp,C->al,C->help);for(VT t:hf.ft.p){V v;u64 raw=in.get(t);if(!fromReal(t,raw,v.v)){if(C->err.empty())C->err=fmt("host function %d received an unknown function reference %llx",slot,(unsigned long long)raw);v.v=0;}L.args.push_back(v);}
  C->rlog.push_back(L);if(C->rlog.size()>200000)_exit(97);
  u64 h=hashArgs(slot,hf.ft,L.args,C->hc++);
  if(hf.kind==1&&C->cbReal&&C->cbdepth==0){C->cbdepth++;auto&ft=C->cbModel->ft;vector<u64> ca=cbArgs(ft,h);
    u8*sp=(u8*)(((u64)fp+512+15)&~15ull);RS a(sp,C->al,C->help);for(size_t i=0;i<ca.size();i++)a.put(ft.p[i],ca[i]);
    pwart_call_wasm_function(C->cbReal,sp);
    RS q(sp,C->al,C->help);vector<V> rs;for(VT t:ft.r){V v;if(!fromReal(t,q.get(t),v.v)&&C->err.empty())C->err="callback returned unknown funcref";rs.push_back(v);}
    C->cbdepth--;h=h64(h^foldRes(ft,rs));}
  if(hf.kind==2)hostWrites(h,C->hm.size(),C->hg.size(),[&](size_t i,u64 x){auto&m=C->hm[i];u8*b=C->c->hm[i].native?nativeReal():m.bytes;u64 sz=(u64)m.pages*65536;if(!sz)return;b[x%sz]=(u8)(x>>56);},
    [&](size_t i,u64 x){auto&g=C->c->hg[i];if(!g.mut||g.t==FUNCREF)return;Rng r(x);wr((u8*)C->hg[i],g.t,g.t==EXTERNREF?r.below(999):constOf(r,g.t,0));});
  memset(fp,0xA5,256); // the frame above the arguments belongs to the callee
  vector<V> res;resultsFor(hf.ft,h,L.args,res);RS q(fp,C->al,C->help);for(size_t i=0;i<res.size();i++){VT t=hf.ft.r[i];q.put(t,toReal(t,res[i].v));}
  clobber();
}
#define HF(n) static void hostfn##n(void*fp){realHost(n,fp);}
HF(0)HF(1)HF(2)HF(3)HF(4)HF(5)HF(6)HF(7)HF(8)HF(9)HF(10)HF(11)HF(12)HF(13)HF(14)HF(15)
static pwart_host_function_c HFS[16]={hostfn0,hostfn1,hostfn2,hostfn3,hostfn4,hostfn5,hostfn6,hostfn7,hostfn8,hostfn9,hostfn10,hostfn11,hostfn12,hostfn13,hostfn14,hostfn15};
static void*resolveEnv(const char*f,u32 kind){
  if(!f[0])return nullptr;int ix=atoi(f+1);
  switch(f[0]){case 'h':if(kind==PWART_KIND_FUNCTION)return C->wraps.at(ix);break;case 'm':if(kind==PWART_KIND_MEMORY)return &C->hm.at(ix);break;case 't':if(kind==PWART_KIND_TABLE)return &C->ht.at(ix);break;case 'g':if(kind==PWART_KIND_GLOBAL)return C->hg.at(ix);break;}
  return nullptr;}
static void hmResolve(struct pwart_host_module*,struct pwart_symbol_resolve_request*q){q->result=resolveEnv(q->import_field,q->kind);}
static void rsResolve(struct pwart_symbol_resolver*,struct pwart_symbol_resolve_request*q){q->result=strcmp(q->import_module,"env")?C->others(q->import_module,q->import_field,q->kind):resolveEnv(q->import_field,q->kind);}
static void decoyResolve(struct pwart_host_module*,struct pwart_symbol_resolve_request*q){if(C->err.empty())C->err="import "+string(q->import_module)+"."+q->import_field+" was asked of another module";q->result=nullptr;}
static bool same(VT t,u64 a,u64 b,bool taint){
  if(t==I32)return (u32)a==(u32)b;
  if(t==F32){if(taint)return isnan32((u32)b);return (u32)a==(u32)b;}
  if(t==F64){if(taint)return isnan64(b);return a==b;}
  return a==b;}
static thread_local u8*STK;static const size_t STKSZ=2<<20;
static void fillPoison(u8*p,size_t n,u64 seed){u64 x=seed|1;for(size_t i=0;i+8<=n;i+=8){x=x*6364136223846793005ull+1442695040888963407ull;u64 v=(x>>32)|(x<<32);memcpy(p+i,&v,8);}}
string runCase(Case&c,RunStats&rs,bool verbose){
  if(!STK){u8*m=(u8*)mmap(0,STKSZ+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);mprotect(m,4096,PROT_NONE);mprotect(m+4096+STKSZ,4096,PROT_NONE);STK=m+4096;}
  rs.cases++;
  Ctx ctx;C=&ctx;ctx.c=&c;Store st;ctx.st=&st;ctx.al=c.stack_flags&1;ctx.help=(c.poison>>9)&1;st.host=modelHost;
  // ---- model: host objects and instances
  vector<FuncObj*> hf;vector<MemObj*> hm;vector<TabObj*> ht;vector<GlobObj*> hg;bool hasExt=false;
  for(size_t i=0;i<c.hf.size();i++){FuncObj*f=st.newFunc();f->host=i;f->ft=c.hf[i].ft;hf.push_back(f);}
  for(auto&h:c.hm){MemObj*m=st.newMem();m->pages=h.pages;m->max=h.max;m->fixed=h.fixed;m->is64=h.is64;hm.push_back(m);
    if(h.huge){if(!hugeR){hugeR=reserve();hugeM=reserve();}else{madvise(hugeR,HUGESZ,MADV_DONTNEED);madvise(hugeM,HUGESZ,MADV_DONTNEED);}m->ext=hugeM;m->extsize=(u64)h.pages*65536;hasExt=true;continue;}
    if(h.native){m->native=m->is64=true;m->lo=NATIVE_BASE;memset(nativeReal(),0,131072);}
    m->b.assign((size_t)h.pages*65536,0);memcpy(m->b.data(),h.init.data(),h.init.size());}
  for(auto&h:c.ht){TabObj*t=st.newTab();t->et=h.et;t->e.assign(h.size,0);for(u32 i=0;i<h.size&&i<h.init.size();i++)t->e[i]=h.et==FUNCREF?(h.init[i]>=0&&h.init[i]<(int)hf.size()?(u64)hf[h.init[i]]:0):(u64)h.init[i];ht.push_back(t);}
  for(auto&h:c.hg){GlobObj*g=st.newGlob();g->t=h.t;g->mut=h.mut;g->v.v=h.v;hg.push_back(g);}
  ctx.mm=hm;ctx.mg=hg;
  vector<Instance*> inst;vector<vector<u8>> bytes;
  Rng er(c.seed^0xabcdef);
  for(size_t k=0;k<c.mods.size();k++){Module&m=c.mods[k];vector<FuncObj*> f;vector<MemObj*> me;vector<TabObj*> t;vector<GlobObj*> g;
    for(auto&i:m.imports){
      if(i.mod=="env"){int ix=atoi(i.field.c_str()+1);switch(i.kind){case 0:f.push_back(hf.at(ix));break;case 1:t.push_back(ht.at(ix));break;case 2:me.push_back(hm.at(ix));break;case 3:g.push_back(hg.at(ix));break;}continue;}
      if(i.mod=="pwart_builtin"){for(size_t q=0;q<c.hm.size();q++)if(c.hm[q].native){me.push_back(hm[q]);break;}continue;}
      bool ok=false;for(size_t j=0;j<k;j++)if(c.names[j]==i.mod)for(auto&x:c.mods[j].exports)if(x.name==i.field&&x.kind==i.kind){ok=true;Instance*q=inst[j];switch(i.kind){case 0:f.push_back(q->funcs.at(x.idx));break;case 1:t.push_back(q->tabs.at(x.idx));break;case 2:me.push_back(q->mems.at(x.idx));break;case 3:g.push_back(q->globs.at(x.idx));break;}break;}
      if(!ok)return "HARNESS: unresolved import "+i.mod+"."+i.field;}
    try{inst.push_back(st.instantiate(&m,f,me,t,g));}catch(Trap&tr){rs.discarded++;return "";}
    bytes.push_back(encode(m,c.pad,&er));}
  u64 hh=1469598103934665603ull;for(auto&b:bytes)for(u8 x:b)hh=(hh^x)*1099511628211ull;g_lastHash=hh^c.stack_flags^(c.misc_flags<<8);
  // ---- real: host objects, load
  pwart_global_compile_config cfg;cfg.stack_flags=c.stack_flags;cfg.misc_flags=c.misc_flags;if(!g_keepConfig)pwart_set_global_compile_config(&cfg);
  for(size_t i=0;i<c.hf.size();i++)ctx.wraps.push_back(pwart_wrap_host_function_c(HFS[i]));
  ctx.realFn.assign(st.funcs.size()+8,nullptr);
  for(size_t i=0;i<c.hf.size();i++){ctx.realFn[hf[i]->id]=ctx.wraps[i];ctx.byReal[(u64)ctx.wraps[i]]=hf[i];}
  ctx.hm.resize(c.hm.size());ctx.ht.resize(c.ht.size());
  for(size_t i=0;i<c.hm.size();i++){auto&h=c.hm[i];auto&m=ctx.hm[i];memset(&m,0,sizeof m);m.initial=(c.seed>>9)%3?h.pages:(u32)((c.seed>>11)%(h.pages+1));m.maximum=h.max;m.pages=h.pages;m.fixed=h.fixed;if(h.huge){m.bytes=hugeR;continue;}if(h.native)continue;size_t cap=(size_t)(h.fixed?h.max:h.pages)*65536;m.bytes=(u8*)calloc(cap?cap:1,1);memcpy(m.bytes,h.init.data(),h.init.size());}
  for(size_t i=0;i<c.ht.size();i++){auto&h=c.ht[i];auto&t=ctx.ht[i];memset(&t,0,sizeof t);t.elem_type=h.et;t.size=h.size;t.initial=(c.seed>>9)%3?h.size:(u32)((c.seed>>11)%(h.size+1));t.maximum=h.size+((c.seed>>13)%4?0:(u32)((c.seed>>17)%70));t.entries=(void**)calloc(h.size+1,8);for(u32 k=0;k<h.size;k++)t.entries[k]=(void*)toReal(h.et,ht[i]->e[k]);}
  for(size_t i=0;i<c.hg.size();i++){u64*g=(u64*)malloc(8);*g=0;wr((u8*)g,c.hg[i].t,toReal(c.hg[i].t,c.hg[i].v));ctx.hg.push_back(g);}
  string viol;vector<pwart_module_state> ms;pwart_namespace ns=nullptr;pwart_host_module hmod;memset(&hmod,0,sizeof hmod);hmod.resolve=hmResolve;
  struct pwart_symbol_resolver res;res.resolve=rsResolve;
  bool useNs=c.loadmode!=1;struct pwart_host_module dmod;memset(&dmod,0,sizeof dmod);dmod.resolve=decoyResolve;struct pwart_host_module*lmod=nullptr;vector<string> lnames;vector<const char*> lptr;vector<void*> lsym;
  if(useNs){ns=pwart_namespace_new();struct pwart_named_module nm;memset(&nm,0,sizeof nm);if(c.loadmode==2){nm.name="env";nm.type=PWART_MODULE_TYPE_HOST_MODULE;nm.val.host=&hmod;pwart_namespace_define_module(ns,&nm);}else if(c.loadmode==3){
    for(size_t i=0;i<c.hf.size();i++){lnames.push_back("h"+std::to_string(i));lsym.push_back(ctx.wraps[i]);}for(size_t i=0;i<c.hm.size();i++){lnames.push_back("m"+std::to_string(i));lsym.push_back(&ctx.hm[i]);}
    for(size_t i=0;i<c.ht.size();i++){lnames.push_back("t"+std::to_string(i));lsym.push_back(&ctx.ht[i]);}for(size_t i=0;i<c.hg.size();i++){lnames.push_back("g"+std::to_string(i));lsym.push_back(ctx.hg[i]);}
    for(auto&x:lnames)lptr.push_back(x.c_str());lmod=pwart_namespace_new_host_module2(lptr.data(),lsym.data(),(int)lptr.size());pwart_namespace_define_host_module(ns,"env",lmod);}
    else pwart_namespace_define_host_module(ns,"env",&hmod);
    for(size_t i=0;i<c.decoys.size();i+=2)pwart_namespace_define_host_module(ns,c.decoys[i].c_str(),&dmod);}
  ctx.others=[&](const char*mn,const char*fn,u32 kind)->void*{for(size_t j=0;j<ms.size();j++)if(c.names[j]==mn)switch(kind){case 0:return (void*)pwart_get_export_function(ms[j],fn);case 1:return pwart_get_export_table(ms[j],fn);case 2:return pwart_get_export_memory(ms[j],fn);case 3:return pwart_get_export_global(ms[j],fn);}return nullptr;};
  for(size_t k=0;k<c.mods.size();k++){
    char*err=nullptr;pwart_module_state s=nullptr;
    // exact-size heap copy so that reads past the end are visible to AddressSanitizer
    char*buf=(char*)malloc(bytes[k].size());memcpy(buf,bytes[k].data(),bytes[k].size());
    if(useNs)s=(pwart_module_state)pwart_namespace_define_wasm_module(ns,c.names[k].c_str(),buf,bytes[k].size(),&err);
    else{pwart_module_compiler mc=pwart_new_module_compiler();pwart_set_symbol_resolver(mc,&res);err=pwart_compile(mc,buf,bytes[k].size());if(!err)s=pwart_get_module_state(mc);pwart_free_module_compiler(mc);}
    free(buf);
    if(!s){viol=fmt("valid module %zu failed to load: %s",k,err?err:"(no message)");break;}
    rs.loads_ok++;ms.push_back(s);
    for(auto&x:c.mods[k].exports)if(x.kind==0){FuncObj*f=inst[k]->funcs[x.idx];void*p=pwart_get_export_function(s,x.name.c_str());if(!p){viol="exported function "+x.name+" not found";break;}
      if(ctx.realFn[f->id]&&ctx.realFn[f->id]!=p){viol="function export "+x.name+" is not the shared function object";break;}
      ctx.realFn[f->id]=p;ctx.byReal[(u64)p]=f;}
    if(!viol.empty())break;
  }
  if(viol.empty()&&useNs)for(size_t i=1;i<c.decoys.size();i+=2)pwart_namespace_define_host_module(ns,c.decoys[i].c_str(),&dmod);
  if(viol.empty()&&!ctx.err.empty())viol=ctx.err;
  if(viol.empty())for(size_t k=0;k<ms.size()&&viol.empty();k++)for(auto&q:c.absent){bool has[4]={};for(auto&x:c.mods[k].exports)if(x.name==q)has[x.kind]=true;
    void*g[4]={(void*)pwart_get_export_function(ms[k],q.c_str()),pwart_get_export_table(ms[k],q.c_str()),pwart_get_export_memory(ms[k],q.c_str()),pwart_get_export_global(ms[k],q.c_str())};
    for(int z=0;z<4;z++)if((g[z]!=nullptr)!=has[z]){viol=fmt("lookup of export kind %d '%s' in module %zu %s",z,q.substr(0,60).c_str(),k,has[z]?"found nothing":"found something");break;}if(!viol.empty())break;}
  if(viol.empty()&&useNs)for(size_t k=0;k<ms.size();k++){auto*nm=pwart_namespace_find_module(ns,c.names[k].c_str());if(!nm||nm->type!=PWART_MODULE_TYPE_WASM_MODULE||nm->val.wasm!=ms[k]){viol=fmt("module %zu is not found under its name",k);break;}}
  if(viol.empty()){FuncObj*f=inst[0]->funcs.empty()?nullptr:inst[0]->funcs.back();if(f&&f->host<0){ctx.cbModel=f;ctx.cbReal=ctx.realFn[f->id];}}
  auto compareState=[&]()->string{
    for(size_t k=0;k<c.mods.size();k++)for(auto&x:c.mods[k].exports){
      if(x.kind==2){MemObj*m=inst[k]->mems[x.idx];auto*r=pwart_get_export_memory(ms[k],x.name.c_str());if(!r)return "exported memory "+x.name+" not found";
        if(!m->native&&r->pages!=m->pages)return fmt("memory %s has %u pages, expected %u",x.name.c_str(),r->pages,m->pages);
        if(m->native||m->ext)continue; // compared as host memories
        rs.membytes+=m->size();
        if(m->size()&&memcmp(r->bytes,m->ptr(),m->size())){u64 i=0;while(r->bytes[i]==m->ptr()[i])i++;return fmt("memory %s differs at byte %llu: is %02x expected %02x",x.name.c_str(),(unsigned long long)i,r->bytes[i],m->ptr()[i]);}}
      else if(x.kind==1){TabObj*t=inst[k]->tabs[x.idx];auto*r=pwart_get_export_table(ms[k],x.name.c_str());if(!r)return "exported table "+x.name+" not found";
        if(r->size!=t->e.size())return fmt("table %s has size %u expected %zu",x.name.c_str(),r->size,t->e.size());
        for(u32 i=0;i<t->e.size();i++){rs.tabents++;u64 want=toReal(t->et,t->e[i]);if((u64)r->entries[i]!=want)return fmt("table %s entry %u is %p expected %llx",x.name.c_str(),i,r->entries[i],(unsigned long long)want);}}
      else if(x.kind==3){GlobObj*g=inst[k]->globs[x.idx];void*r=pwart_get_export_global(ms[k],x.name.c_str());if(!r)return "exported global "+x.name+" not found";rs.globs++;
        u64 v=rd((u8*)r,g->t);if(!same(g->t,toReal(g->t,g->v.v),v,g->v.t))return fmt("global %s (%s) is %llx expected %llx",x.name.c_str(),vname(g->t),(unsigned long long)v,(unsigned long long)toReal(g->t,g->v.v));}
    }
    for(size_t i=0;i<c.hm.size();i++){u8*b=c.hm[i].native?nativeReal():ctx.hm[i].bytes;
      if(c.hm[i].huge){u64 d=cmpHuge(b,hugeM,hm[i]->size(),rs.membytes);if(ctx.hm[i].pages!=hm[i]->pages)return fmt("host memory %zu has %u pages, expected %u",i,ctx.hm[i].pages,hm[i]->pages);if(d!=~0ull)return fmt("huge memory differs at byte %llx: is %02x expected %02x",(unsigned long long)d,b[d],hugeM[d]);continue;}
      if(hm[i]->size()&&memcmp(b,hm[i]->ptr(),hm[i]->size()))return fmt("host memory %zu differs",i);}
    for(size_t i=0;i<c.hg.size();i++){u64 v=rd((u8*)ctx.hg[i],c.hg[i].t);if(!same(c.hg[i].t,toReal(c.hg[i].t,hg[i]->v.v),v,hg[i]->v.t))return fmt("host global %zu is %llx expected %llx",i,(unsigned long long)v,(unsigned long long)hg[i]->v.v);}
    return "";};
  if(viol.empty())viol=compareState().empty()?"":"after load: "+compareState();
  // start functions
  vector<Action> acts;
  for(size_t k=0;k<ms.size()&&viol.empty();k++){pwart_wasm_function sf=pwart_get_start_function(ms[k]);if((c.mods[k].start>=0)!=(sf!=nullptr)){viol="start function presence is wrong";}
    if(c.mods[k].start>=0){Action a;a.kind=0;a.inst=k;a.func=c.mods[k].start;acts.push_back(a);if(sf!=ctx.realFn[inst[k]->funcs[a.func]->id])viol="start function is not the declared one";}}
  acts.insert(acts.end(),c.acts.begin(),c.acts.end());
  Rng pr(c.poison);
  for(size_t ai=0;ai<acts.size()&&viol.empty();ai++){
    Action&a=acts[ai];if(a.inst>=(int)inst.size())continue;Instance*in=inst[a.inst];
    if(a.kind==1){if(a.obj>=in->mems.size())continue;MemObj*m=in->mems[a.obj];if(a.addr+8>m->size())continue;memcpy(m->ptr()+a.addr,&a.val,8);if(m->native){memcpy(nativeReal()+a.addr,&a.val,8);continue;}
      for(auto&x:c.mods[a.inst].exports)if(x.kind==2&&x.idx==a.obj){auto*r=pwart_get_export_memory(ms[a.inst],x.name.c_str());memcpy(r->bytes+a.addr,&a.val,8);break;}continue;}
    if(a.kind==2){if(a.obj>=in->globs.size())continue;GlobObj*g=in->globs[a.obj];if(!g->mut||isref(g->t))continue;g->v.v=vsize(g->t)==4?(u32)a.val:a.val;g->v.t=false;
      for(auto&x:c.mods[a.inst].exports)if(x.kind==3&&x.idx==a.obj){wr((u8*)pwart_get_export_global(ms[a.inst],x.name.c_str()),g->t,a.val);break;}continue;}
    if(a.kind==3){if(a.obj>=in->tabs.size())continue;TabObj*t=in->tabs[a.obj];if(t->e.empty()||t->et!=FUNCREF||in->funcs.empty())continue;FuncObj*f=in->funcs[a.val%in->funcs.size()];u64 i=a.addr%t->e.size();t->e[i]=(u64)f;
      for(auto&x:c.mods[a.inst].exports)if(x.kind==1&&x.idx==a.obj){pwart_get_export_table(ms[a.inst],x.name.c_str())->entries[i]=ctx.realFn[f->id];break;}continue;}
    if(a.func>=in->funcs.size())continue;FuncObj*f=in->funcs[a.func];
    vector<V> args;for(size_t i=0;i<f->ft.p.size();i++){V v;v.v=i<a.args.size()?a.args[i]:0;if(f->ft.p[i]==FUNCREF)v.v=v.v&&in->funcs.size()?(u64)in->funcs[v.v%in->funcs.size()]:0;if(vsize(f->ft.p[i])==4)v.v=(u32)v.v;args.push_back(v);}
    Store::Snap sn=st.snap();size_t l0=st.log.size();vector<V> want;u64 mhc0=ctx.mhc;
    st.steps=0;
    try{st.call(f,args,want);}catch(Trap&t){st.restore(sn);ctx.mhc=mhc0;ctx.mcbdepth=0;rs.skipped++;if(hasExt)break; // the model's huge memory is not restored
      if(verbose)fprintf(stderr,"action %zu skipped: %s\n",ai,t.why);continue;}
    rs.actions++;rs.steps+=st.steps;
    // real call
    u8*sp=STK+8192+c.spoff;fillPoison(STK,8192+c.spoff+24576,c.poison^ai);
    vector<u8> below(STK,sp);
    RS l(sp,ctx.al,ctx.help);for(size_t i=0;i<args.size();i++)l.put(f->ft.p[i],toReal(f->ft.p[i],args[i].v));
    u64 out[8];unsigned csr;__asm__ volatile("stmxcsr %0":"=m"(csr));unsigned short cw;__asm__ volatile("fnstcw %0":"=m"(cw));
    size_t r0=ctx.rlog.size();
    call_checked(ctx.realFn[f->id],sp,out);
    rs.canary+=below.size()+48;
    for(int i=0;i<6;i++)if(out[i]!=REGS[i]){viol=fmt("action %zu: callee-saved register %d clobbered",ai,i);}
    if(((u32)out[6]&0xffc0)!=(csr&0xffc0))viol=fmt("action %zu: MXCSR control bits changed",ai);
    if((u16)(out[6]>>32)!=cw)viol=fmt("action %zu: x87 control word changed",ai);
    if(out[7]&0x400)viol=fmt("action %zu: direction flag left set",ai);
    if(memcmp(STK,below.data(),below.size())){size_t i=0;while(STK[i]==below[i])i++;viol=fmt("action %zu: stack memory below the frame was written (%zd bytes below fp)",ai,(ssize_t)(sp-STK-i));}
    if(!ctx.err.empty()&&viol.empty())viol=fmt("action %zu: ",ai)+ctx.err;
    if(!viol.empty())break;
    // host calls
    size_t nm=st.log.size()-l0,nr=ctx.rlog.size()-r0;
    for(size_t i=0;i<nm&&i<nr&&viol.empty();i++){auto&A=st.log[l0+i];auto&B=ctx.rlog[r0+i];rs.hostcalls++;if(A.slot!=B.slot){viol=fmt("action %zu: host call %zu went to function %d, expected %d",ai,i,B.slot,A.slot);break;}
      for(size_t k=0;k<A.args.size();k++)if(!same(c.hf[A.slot].ft.p[k],A.args[k].v,B.args[k].v,A.args[k].t)){viol=fmt("action %zu: host call %zu (function %d) argument %zu (%s) is %llx expected %llx",ai,i,A.slot,k,vname(c.hf[A.slot].ft.p[k]),(unsigned long long)B.args[k].v,(unsigned long long)A.args[k].v);break;}}
    if(viol.empty()&&nm!=nr)viol=fmt("action %zu: %zu host calls, expected %zu",ai,nr,nm);
    if(!viol.empty())break;
    RS q(sp,ctx.al,ctx.help);for(size_t i=0;i<want.size();i++){VT t=f->ft.r[i];u64 v=q.get(t);rs.resvals++;u64 w=toReal(t,want[i].v);if(!same(t,w,v,want[i].t)){viol=fmt("action %zu: function %u result %zu (%s) is 0x%llx expected 0x%llx%s",ai,a.func,i,vname(t),(unsigned long long)v,(unsigned long long)w,want[i].t?" (any NaN)":"");break;}}
    if(viol.empty()){string s=compareState();if(!s.empty())viol=fmt("action %zu: ",ai)+s;}
  }
  rs.branches+=st.branches;rs.calls+=st.calls;rs.tailcalls+=st.tailcalls;rs.grows+=st.grows;rs.loads+=st.loads;rs.stores+=st.stores;rs.bulk+=st.bulk;rs.tableops+=st.tableops;
  for(int i=0;i<0x200;i++)rs.opc[i]+=st.opcount[i];
  // ---- release
  if(useNs)pwart_namespace_delete(ns);else for(auto s:ms)pwart_free_module_state(s);
  for(auto w:ctx.wraps)pwart_free_wrapped_function(w);
  if(lmod)pwart_namespace_delete_host_module(lmod);
  for(size_t i=0;i<ctx.hm.size();i++)if(!c.hm[i].huge)free(ctx.hm[i].bytes);for(auto&t:ctx.ht)free(t.entries);for(auto g:ctx.hg)free(g);
  C=nullptr;
  return viol;
}
