// C24 / C26: random programs given to the code generator; the generated code must do what the instruction
// set's description says (checked against the model in lirgen.h), also when the compiler's state is written
// out and read back half way (LIR_SER).
#include "lirgen.h"
#include "hxalloc.h"
#include "hxcpu.h"
#include <sys/mman.h>
static hx::Counter cProg("programs"),cOps("operations_emitted"),cExec("operations_executed"),cCode("code_bytes"),cCall("callbacks_checked"),cConst("constants_patched"),cRew("jumps_retargeted"),cRo("read_only_buffers_filled"),cMem("memory_bytes_compared"),cKinds("kinds_of_operation"),cKindSum("operation_kinds_used"),cFull("programs_with_all_registers"),cMasked("processes_with_hidden_cpu_features");static bool noSimd;
#ifdef LIR_SER
static hx::Counter cSer("serializations"),cSerB("serialized_bytes"),cSerL("labels_restored"),cSerJ("jumps_restored"),cSerC("constants_restored"),cTrunc("truncated_buffers_rejected");
#endif
namespace lir{u8*HB,*LB;}
using namespace lir;
extern "C"{
struct LirRun{u64 ia[4];u64 fa[4];u64 fn;u64 rax,xmm0;u64 rbx,rbp,r12,r13,r14,r15,rsp,rflags;u32 mx0,mx1;u64 rspEnd,can;};
LirRun*lir_cur;u64 lir_cbI[4],lir_cbF[4],lir_cbRsp,lir_cbFn,lir_cbRax,lir_cbX0;
void lir_tramp(LirRun*);extern char lir_ra_label[];void lir_log();
__attribute__((aligned(32))) u8 lir_junk[32];
}
asm(R"(
.text
.globl lir_tramp
lir_tramp:
 push %rbx
 push %rbp
 push %r12
 push %r13
 push %r14
 push %r15
 sub $72,%rsp
 mov %rdi,lir_cur(%rip)
 mov %rdi,%r10
 movabs $0xc0ffee1122334455,%rax
 mov %rax,0(%rsp)
 mov %rax,8(%rsp)
 mov %rax,16(%rsp)
 mov %rax,24(%rsp)
 mov %rax,32(%rsp)
 mov %rax,40(%rsp)
 mov %rax,48(%rsp)
 mov %rax,56(%rsp)
 mov %rsp,136(%r10)
 stmxcsr 152(%r10)
 mov 0(%r10),%rdi
 mov 8(%r10),%rsi
 mov 16(%r10),%rdx
 mov 24(%r10),%rcx
 movq 32(%r10),%xmm0
 movq 40(%r10),%xmm1
 movq 48(%r10),%xmm2
 movq 56(%r10),%xmm3
 movabs $0x1111111111111101,%rbx
 movabs $0x1111111111111102,%rbp
 movabs $0x1111111111111103,%r12
 movabs $0x1111111111111104,%r13
 movabs $0x1111111111111105,%r14
 movabs $0x1111111111111106,%r15
 call *64(%r10)
.globl lir_ra_label
lir_ra_label:
 mov lir_cur(%rip),%r10
 mov %rax,72(%r10)
 movq %xmm0,80(%r10)
 mov %rbx,88(%r10)
 mov %rbp,96(%r10)
 mov %r12,104(%r10)
 mov %r13,112(%r10)
 mov %r14,120(%r10)
 mov %r15,128(%r10)
 mov %rsp,160(%r10)
 mov 136(%r10),%rsp
 pushf
 pop %rax
 mov %rax,144(%r10)
 stmxcsr 156(%r10)
 cld
 movabs $0xc0ffee1122334455,%rax
 xor %ecx,%ecx
1: cmp %rax,(%rsp,%rcx,8)
 jne 2f
 inc %ecx
 cmp $8,%ecx
 jne 1b
 xor %eax,%eax
 jmp 3f
2: mov $1,%eax
3: mov %rax,168(%r10)
 add $72,%rsp
 pop %r15
 pop %r14
 pop %r13
 pop %r12
 pop %rbp
 pop %rbx
 ret
.globl lir_cb0
lir_cb0:
 movq $0,lir_cbFn(%rip)
 jmp lir_cbx
.globl lir_cb1
lir_cb1:
 movq $1,lir_cbFn(%rip)
lir_cbx:
 mov %rdi,lir_cbI(%rip)
 mov %rsi,8+lir_cbI(%rip)
 mov %rdx,16+lir_cbI(%rip)
 mov %rcx,24+lir_cbI(%rip)
 movq %xmm0,lir_cbF(%rip)
 movq %xmm1,8+lir_cbF(%rip)
 movq %xmm2,16+lir_cbF(%rip)
 movq %xmm3,24+lir_cbF(%rip)
 mov %rsp,lir_cbRsp(%rip)
 push %rbp
 mov %rsp,%rbp
 and $-16,%rsp
 call lir_log
 mov %rbp,%rsp
 pop %rbp
 movabs $0xdeadbeefdeadbeef,%rcx
 mov %rcx,%rdx
 mov %rcx,%rsi
 mov %rcx,%rdi
 mov %rcx,%r8
 mov %rcx,%r9
 mov %rcx,%r10
 mov %rcx,%r11
 movdqu lir_junk(%rip),%xmm0
 movdqa %xmm0,%xmm1
 movdqa %xmm0,%xmm2
 movdqa %xmm0,%xmm3
 movdqa %xmm0,%xmm4
 movdqa %xmm0,%xmm5
 movdqa %xmm0,%xmm6
 movdqa %xmm0,%xmm7
 movdqa %xmm0,%xmm8
 movdqa %xmm0,%xmm9
 movdqa %xmm0,%xmm10
 movdqa %xmm0,%xmm11
 movdqa %xmm0,%xmm12
 movdqa %xmm0,%xmm13
 movdqa %xmm0,%xmm14
 movdqa %xmm0,%xmm15
 movlpd lir_cbX0(%rip),%xmm0
 mov lir_cbRax(%rip),%rax
 cmp $-1,%rcx
 ret
)");
static Prog*PP;static vector<Rec> LOG;static string cbErr;static int nLog;
extern "C" void lir_log(){
  Rec q;memset(&q,0,sizeof q);memcpy(q.i,lir_cbI,32);memcpy(q.f,lir_cbF,32);q.fn=lir_cbFn;if(LOG.size()<5000)LOG.push_back(q);
  // the ABI promises alignment at the call (a tail call leaves the caller's)
  if((lir_cbRsp&15)!=8&&cbErr.empty())cbErr=sfmt("the stack pointer is %llx at the entry of a called function",(unsigned long long)lir_cbRsp);
  lir_cbRax=PP->cbRetI[nLog%8];lir_cbX0=PP->cbRetF[nLog%8];nLog++;}
u64 Gen::lir_ra(){return(u64)lir_ra_label;}
static Opt optFor(Rng&r){Opt o;o.n=r.chance(30)?r.range(3,15):r.chance(80)?r.range(15,60):r.range(60,150);int k=r.below(10);if(k==0){o.fp=o.simd=false;}else if(k==1)o.simd=false;else if(k==2)o.calls=false;else if(k==3){o.ctl=false;}return o;}
static bool exSlot(int i){return(i>=BUF-64&&i<BUF-56)||(i>=BUF-128&&i<BUF-120)||(i>=BUF-192&&i<BUF-184);}
static std::set<string> allKinds;
static string txtAround(Prog&P,size_t n=80){string s;for(size_t i=0;i<P.ops.size()&&i<n*20;i++)s+=sfmt("  %zu %s\n",i,P.ops[i].txt.c_str());return s;}
#ifdef LIR_SER
static string reserialize(Ctx&c,Rng&r){
  sljit_uw size=0;sljit_uw*buf=sljit_serialize_compiler(c.c,0,&size);if(!buf)return "sljit_serialize_compiler failed";
  if(size%sizeof(sljit_uw))return sfmt("the serialized size is %zu",(size_t)size);
  sljit_uw size2=0;sljit_uw*buf2=sljit_serialize_compiler(c.c,0,&size2);if(!buf2)return "the second sljit_serialize_compiler failed";
  if(size!=size2||memcmp(buf,buf2,size)){}
  free(buf2);cSer++;cSerB+=size;
  // labels are identified by their index, jumps and constants by their order of creation
  std::map<void*,sljit_uw> li;vector<sljit_uw> idx(c.lab.size(),~0ull);for(size_t i=0;i<c.lab.size();i++)if(c.lab[i])idx[i]=sljit_get_label_index(c.lab[i]);
  std::map<sljit_jump*,int> jo;std::map<sljit_const*,int> co;int nj=0,nc=0,nl=0;for(sljit_label*l=sljit_get_first_label(c.c);l;l=sljit_get_next_label(l))nl++;
  for(sljit_jump*j=sljit_get_first_jump(c.c);j;j=sljit_get_next_jump(j))jo[j]=nj++;for(sljit_const*k=sljit_get_first_const(c.c);k;k=sljit_get_next_const(k))co[k]=nc++;
  vector<int> js(c.jmp.size(),-1),cs(c.con.size(),-1);
  for(size_t i=0;i<c.jmp.size();i++)if(c.jmp[i]){auto f=jo.find(c.jmp[i]);if(f==jo.end())return "a jump is not found by enumeration";js[i]=f->second;}
  for(size_t i=0;i<c.con.size();i++)if(c.con[i]){auto f=co.find(c.con[i]);if(f==co.end())return "a constant is not found by enumeration";cs[i]=f->second;}
  vector<std::pair<int,long>> tg; // what each jump refers to
  {int i=0;for(sljit_jump*j=sljit_get_first_jump(c.c);j;j=sljit_get_next_jump(j),i++)tg.push_back(sljit_jump_has_target(j)?std::make_pair(1+4*(sljit_jump_is_mov_addr(j)!=0),(long)sljit_jump_get_target(j)):sljit_jump_has_label(j)?std::make_pair(2+4*(sljit_jump_is_mov_addr(j)!=0),(long)sljit_get_label_index(sljit_jump_get_label(j))):std::make_pair(4*(sljit_jump_is_mov_addr(j)!=0),0l));}
  sljit_free_compiler(c.c);c.c=nullptr;
  // shortened buffers are refused (the copy is exact, so that reading past it is seen)
  if(r.chance(25)){size_t cut=r.chance(40)?size-8*(1+r.below(size/8<4?1:4)):8*r.below(size/8);vector<char> v;char*x=(char*)malloc(cut?cut:8);memcpy(x,buf,cut);sljit_compiler*d=sljit_deserialize_compiler((sljit_uw*)x,cut,0,nullptr);free(x);if(d){sljit_free_compiler(d);free(buf);return sfmt("a serialized compiler cut to %zu of %zu bytes was accepted",cut,(size_t)size);}cTrunc++;}
  if(r.chance(10)){u8*b=(u8*)malloc(size);memcpy(b,buf,size);int q=r.below(6);b[q]^=1+r.below(255);sljit_compiler*d=sljit_deserialize_compiler((sljit_uw*)b,size,0,nullptr);free(b);if(d){sljit_free_compiler(d);free(buf);return sfmt("a serialized compiler with another signature or version was accepted (byte %d)",q);}}
  c.c=sljit_deserialize_compiler(buf,size,0,nullptr);memset(buf,0xdd,size);free(buf);if(!c.c)return "sljit_deserialize_compiler failed";
  vector<sljit_label*> L;vector<sljit_jump*> J;vector<sljit_const*> K;
  for(sljit_label*l=sljit_get_first_label(c.c);l;l=sljit_get_next_label(l)){if(sljit_get_label_index(l)!=L.size())return sfmt("label %zu has index %zu after reading back",L.size(),(size_t)sljit_get_label_index(l));L.push_back(l);}
  for(sljit_jump*j=sljit_get_first_jump(c.c);j;j=sljit_get_next_jump(j))J.push_back(j);for(sljit_const*k=sljit_get_first_const(c.c);k;k=sljit_get_next_const(k))K.push_back(k);
  if((int)L.size()!=nl||(int)J.size()!=nj||(int)K.size()!=nc)return sfmt("%d labels, %d jumps and %d constants became %zu, %zu and %zu",nl,nj,nc,L.size(),J.size(),K.size());
  for(int i=0;i<nj;i++){sljit_jump*j=J[i];auto t=sljit_jump_has_target(j)?std::make_pair(1+4*(sljit_jump_is_mov_addr(j)!=0),(long)sljit_jump_get_target(j)):sljit_jump_has_label(j)?std::make_pair(2+4*(sljit_jump_is_mov_addr(j)!=0),(long)sljit_get_label_index(sljit_jump_get_label(j))):std::make_pair(4*(sljit_jump_is_mov_addr(j)!=0),0l);
    if(t!=tg[i])return sfmt("jump %d refers to (%d,%lx) after reading back, was (%d,%lx)",i,t.first,t.second,tg[i].first,tg[i].second);}
  for(size_t i=0;i<c.lab.size();i++)if(c.lab[i]){if(idx[i]>=L.size())return "a label has an index past the list";c.lab[i]=L[idx[i]];}
  for(size_t i=0;i<c.jmp.size();i++)if(js[i]>=0)c.jmp[i]=J[js[i]];for(size_t i=0;i<c.con.size();i++)if(cs[i]>=0)c.con[i]=K[cs[i]];
  cSerL+=nl;cSerJ+=nj;cSerC+=nc;return "";}
#endif
static u64 progHash(Prog&P){u64 h=1;for(auto&o:P.ops)h=hx::mix(h,hx::hashBytes(o.txt.data(),o.txt.size()));return h;}
static string body(u64 seed,u64 idx){
  Rng r(hx::mix(seed,idx));Opt o=optFor(r);if(noSimd)o.simd=false;
  if(getenv("LIR_N"))o.n=atoi(getenv("LIR_N"));
  Gen G(r.next(),o);G.program();
  if(G.st.fault.size())return "HARNESS "+G.st.fault+"\n"+txtAround(G.P);
  Prog&P=G.P;
  // the model once more from the beginning
  St S;S.hi=P.hi0;S.lo=P.lo0;G.st=S;G.st.steps=0;G.run(P.entryPc,-1);if(G.st.fault.size())return "HARNESS final run: "+G.st.fault+"\n"+txtAround(P);
  St&M=G.st;
  for(auto&op:P.ops)hx::note("%s",op.txt.c_str());
  // generate
  Ctx c;c.c=sljit_create_compiler(nullptr);if(!c.c)return "sljit_create_compiler failed";
  struct Rel{Ctx&c;~Rel(){if(c.c)sljit_free_compiler(c.c);}} rel{c};
#ifdef LIR_SER
  std::set<size_t> at;int ns=r.range(1,3);for(int i=0;i<ns;i++)at.insert(r.below(P.ops.size()+1));bool early=r.below(2);
#endif
  for(size_t i=0;i<P.ops.size();i++){
#ifdef LIR_SER
    if(at.count(i)){if(early)Gen::linkAll(c);string e=reserialize(c,r);if(e.size())return e+sfmt(" (before operation %zu)",i);}
#endif
    if(getenv("LIR_TRACE"))fprintf(stderr,"%s\n",P.ops[i].txt.c_str());c.txt=P.ops[i].txt.c_str();P.ops[i].emit(c);if(c.err.size())return sfmt("operation %zu refused: ",i)+c.err;}
  cOps+=P.ops.size();
  Gen::linkAll(c);
#ifdef LIR_SER
  if(at.count(P.ops.size())){string e=reserialize(c,r);if(e.size())return e+" (at the end)";}
#endif
  void*code=sljit_generate_code(c.c,0,nullptr);if(!code)return sfmt("sljit_generate_code failed with error %d",sljit_get_compiler_error(c.c));
  sljit_sw eo=sljit_get_executable_offset(c.c);size_t size=sljit_get_generated_code_size(c.c);cCode+=size;
  struct Rc{void*p;~Rc(){sljit_free_code(p,nullptr);}} rc{code};
  if(getenv("LIR_DUMP")){FILE*f=fopen(getenv("LIR_DUMP"),"w");fwrite(code,1,size,f);fclose(f);}
  auto inside=[&](u64 a){return a>=(u64)code&&a<=(u64)code+size;};auto insideW=[&](u64 a){return inside(a+eo);}; // jumps and constants are given by their writable address
  for(size_t i=0;i<c.lab.size();i++)if(c.lab[i]&&!inside(sljit_get_label_abs_addr(c.lab[i])))return sfmt("label %zu is at %llx, the code at %p..%p",i,(unsigned long long)sljit_get_label_abs_addr(c.lab[i]),code,(char*)code+size);
  for(auto&k:P.consts)if(k.patch){u64 a=sljit_get_const_addr(c.con[k.id]);if(!insideW(a))return "a constant lies outside of the code";sljit_set_const(a,k.op,k.v2,eo);cConst++;}
  for(auto&w:P.rew){u64 a=sljit_get_jump_addr(c.jmp[w.jmp]);if(!insideW(a))return "a jump lies outside of the code";sljit_set_jump_addr(a,sljit_get_label_addr(c.lab[w.lab]),eo);cRew++;}
  for(auto&b:P.ro){u64 a=sljit_get_label_abs_addr(c.lab[b.lab]);if(!inside(a)||!inside(a+b.data.size()))return "a read-only buffer lies outside of the code";void*p=sljit_read_only_buffer_start_writing(a,b.data.size(),eo);if(!p)return "sljit_read_only_buffer_start_writing failed";memcpy(p,b.data.data(),b.data.size());sljit_read_only_buffer_end_writing(a,b.data.size(),eo);cRo++;}
  u64 entry=sljit_get_label_addr(c.lab[P.entryLab]);
  sljit_free_compiler(c.c);c.c=nullptr;
  // run
  memcpy(HB,P.hi0.data(),BUF);memcpy(LB,P.lo0.data(),BUF);
  static_assert(sizeof(LirRun)==176,"");LirRun F;memset(&F,0,sizeof F);
  for(size_t i=0;i<4;i++){F.ia[i]=i<P.intArgs.size()?P.intArgs[i]:0x7777777777777777ull+i;F.fa[i]=i<P.fArgs.size()?P.fArgs[i]:0x7777777777777777ull;}
  F.fn=entry;PP=&P;LOG.clear();cbErr.clear();nLog=0;
  lir_tramp(&F);
  cProg++;cExec+=M.steps;
  static const u64 sv[]={0x1111111111111101ull,0x1111111111111102ull,0x1111111111111103ull,0x1111111111111104ull,0x1111111111111105ull,0x1111111111111106ull};static const char*sn[]={"rbx","rbp","r12","r13","r14","r15"};
  u64 got[]={F.rbx,F.rbp,F.r12,F.r13,F.r14,F.r15};for(int i=0;i<6;i++)if(got[i]!=sv[i])return sfmt("the callee-saved register %s holds %llx after the function returned",sn[i],(unsigned long long)got[i]);
  if(F.rspEnd!=F.rsp)return sfmt("the stack pointer is off by %lld after the function returned",(long long)(F.rspEnd-F.rsp));
  if(F.can)return "the caller's stack frame was changed";
  if(F.rflags&0x400)return "the direction flag is set after the function returned";
  if((F.mx0^F.mx1)&~0x3fu)return sfmt("the floating point control word went from %x to %x",F.mx0,F.mx1);
  if(cbErr.size())return cbErr;
  // calls made
  for(size_t i=0;i<std::max(LOG.size(),M.log.size());i++){
    if(i>=LOG.size())return sfmt("%zu calls were made, expected %zu",LOG.size(),M.log.size());if(i>=M.log.size())return sfmt("%zu calls were made, expected %zu",LOG.size(),M.log.size());
    Rec&a=LOG[i],&b=M.log[i];cCall++;if(a.fn!=b.fn)return sfmt("call %zu went to function %d, expected %d",i,a.fn,b.fn);
    for(int k=0;k<b.ni;k++){u64 m=b.w[k]==4?0xffffffffull:~0ull;if((a.i[k]^b.i[k])&m)return sfmt("call %zu, integer argument %d: %llx, expected %llx",i,k,(unsigned long long)(a.i[k]&m),(unsigned long long)(b.i[k]&m));}
    for(int k=0;k<b.nf;k++){u64 m=b.fw[k]==4?0xffffffffull:~0ull;if((a.f[k]^b.f[k])&m)return sfmt("call %zu, float argument %d: %llx, expected %llx",i,k,(unsigned long long)(a.f[k]&m),(unsigned long long)(b.f[k]&m));}}
  if(P.retType>=1&&P.retType<=3){u64 m=P.retType==SLJIT_ARG_TYPE_32?0xffffffffull:~0ull;if((F.rax^M.retI)&m)return sfmt("the function returned %llx, expected %llx",(unsigned long long)(F.rax&m),(unsigned long long)(M.retI&m));}
  if(P.retType>=4){u64 e;memcpy(&e,M.retF,8);u64 m=P.retType==SLJIT_ARG_TYPE_F32?0xffffffffull:~0ull;if((F.xmm0^e)&m)return sfmt("the function returned the float %llx, expected %llx",(unsigned long long)(F.xmm0&m),(unsigned long long)(e&m));}
  for(int w=0;w<2;w++){u8*a=w?LB:HB;vector<u8>&b=w?M.lo:M.hi;
    for(int i=0;i<BUF;i++)if(a[i]!=b[i]&&!exSlot(i)){int k=i&~7;string what;if(!w&&i>=WORK&&i<WORK+256)what=sfmt(" (register %d of the dump)",(i-WORK)/8);else if(!w&&i>=WORK+256&&i<WORK+256+32*NFREG)what=sfmt(" (float or vector register %d)",(i-WORK-256)/32);u64 x,y;memcpy(&x,a+k,8);memcpy(&y,&b[k],8);return sfmt("%s buffer at %d%s: %016llx, expected %016llx",w?"low":"high",k,what.c_str(),(unsigned long long)x,(unsigned long long)y);}
    cMem+=BUF;}
  cKindSum+=G.used.size();for(auto&k:G.used)if(allKinds.insert(k).second)cKinds++;
  if(G.used.size()>=6)hx::nontrivial(progHash(P));
  return "";}
static string leakCheck(u64 seed,u64 idx){HxAllocStats a=hxStats();(void)hxTakeBad();string e=body(seed,idx);sljit_free_unused_memory_exec();if(e.size())return e;string b=hxTakeBad();if(b.size())return b;return "";(void)a;}
void hxInit(){
  if(hxcpu::run([]{sljit_has_cpu_feature(SLJIT_HAS_CLZ);}))cMasked++;
  auto mk=[](int fl){u8*p=(u8*)mmap(fl?(void*)0x20000000:(void*)0x6e0000000000ull,BUF+2*65536,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE|MAP_NORESERVE,-1,0);if(p==MAP_FAILED)p=(u8*)mmap(0,BUF+2*65536,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|fl,-1,0);mprotect(p+65536,BUF,PROT_READ|PROT_WRITE);return p+65536;};
  HB=mk(0);LB=mk(MAP_32BIT);memset(lir_junk,0x5a,32);for(int i=0;i<32;i++)lir_junk[i]=(u8)(0x3b+i*7);
  noSimd=!sljit_has_cpu_feature(SLJIT_HAS_SIMD);hx::batch=16;}
string runOne(u64 seed,u64 idx){return leakCheck(seed,idx);}
HX_MAIN("lir")
