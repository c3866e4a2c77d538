// C21: native calls and callbacks through the libffi module. Natives and native callers work on raw argument registers and stack slots
// (System V x86-64), so that every signature and count is covered by the same code, independent of libffi.
#include "sys.h"
#include <ffi.h>
#include <thread>
#include <list>
#include <atomic>
extern "C"{
#include <pwart_syslib.h>
}
static hx::Counter cCall("native_calls"),cFixed("fixed_calls"),cClo("closure_calls"),cCb("callback_calls"),cArgs("arguments_compared"),cCif("call_interfaces"),cBad("interfaces_refused"),cNest("nested_calls"),cThr("calls_from_other_threads"),cRound("wasm_to_native_to_wasm"),cMem("callbacks_reading_native_memory"),cStk("calls_with_stack_arguments"),cRep("repeated_closure_calls"),cVar("variadic_interfaces"),cPrep("closures_prepared_again"),cMany("calls_with_more_than_16_arguments");
enum T{U32,S32,U64,S64,FL,DB,PT,VD};
static int tsize(T t){return t==U32||t==S32||t==FL?4:t==VD?0:8;}
static bool tflt(T t){return t==FL||t==DB;}
static const char TC[]={'i','i','l','l','f','d','p','v'};
#ifndef FFI_OFF
static ffi_type*ftype(T t){switch(t){case U32:return &ffi_type_uint32;case S32:return &ffi_type_sint32;case U64:return &ffi_type_uint64;case S64:return &ffi_type_sint64;case FL:return &ffi_type_float;case DB:return &ffi_type_double;case PT:return &ffi_type_pointer;default:return &ffi_type_void;}}
#endif
struct Sg{vector<T> a;T r=VD;};
static u64 maskT(u64 v,T t){return tsize(t)==4?(u32)v:tsize(t)==0?0:v;}
// ---- raw native functions
extern "C"{
struct Raw{u64 xmm[8][2];u64 ints[6];u64 rax;u64 which;u64 ret;u64 fret;};
void nativeC(Raw*r,u64*stack);
#define NAT(n) extern void nat##n();
NAT(0)NAT(1)NAT(2)NAT(3)NAT(4)NAT(5)NAT(6)NAT(7)
u64 rawCall(void*fn,u64*ints,u64*xmm,u64*stack,u64 nstack,u64*fret,u64 al);
}
#define NATA(n) "nat" #n ": mov $" #n ",%r11d\n jmp nat_common\n"
asm(".text\n.globl nat0,nat1,nat2,nat3,nat4,nat5,nat6,nat7\n" NATA(0)NATA(1)NATA(2)NATA(3)NATA(4)NATA(5)NATA(6)NATA(7)
"nat_common: push %rbp\n mov %rsp,%rbp\n sub $224,%rsp\n"
" movups %xmm0,(%rsp)\n movups %xmm1,16(%rsp)\n movups %xmm2,32(%rsp)\n movups %xmm3,48(%rsp)\n movups %xmm4,64(%rsp)\n movups %xmm5,80(%rsp)\n movups %xmm6,96(%rsp)\n movups %xmm7,112(%rsp)\n"
" mov %rdi,128(%rsp)\n mov %rsi,136(%rsp)\n mov %rdx,144(%rsp)\n mov %rcx,152(%rsp)\n mov %r8,160(%rsp)\n mov %r9,168(%rsp)\n mov %rax,176(%rsp)\n mov %r11,184(%rsp)\n"
" mov %rsp,%rdi\n lea 16(%rbp),%rsi\n call nativeC\n mov 192(%rsp),%rax\n movq 200(%rsp),%xmm0\n leave\n ret\n"
// rawCall(rdi fn, rsi ints, rdx xmm, rcx stack, r8 nstack, r9 fret, [rsp+8] al)
".globl rawCall\nrawCall: push %rbp\n mov %rsp,%rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n push %r9\n"
" mov 16(%rbp),%rax\n mov %rdi,%r11\n mov %rsi,%r10\n mov %r8,%rbx\n inc %rbx\n and $-2,%rbx\n shl $3,%rbx\n sub %rbx,%rsp\n"
" xor %ebx,%ebx\n1: cmp %r8,%rbx\n jae 2f\n mov (%rcx,%rbx,8),%r12\n mov %r12,(%rsp,%rbx,8)\n inc %rbx\n jmp 1b\n2:\n"
" movq (%rdx),%xmm0\n movq 8(%rdx),%xmm1\n movq 16(%rdx),%xmm2\n movq 24(%rdx),%xmm3\n movq 32(%rdx),%xmm4\n movq 40(%rdx),%xmm5\n movq 48(%rdx),%xmm6\n movq 56(%rdx),%xmm7\n"
" mov (%r10),%rdi\n mov 8(%r10),%rsi\n mov 16(%r10),%rdx\n mov 24(%r10),%rcx\n mov 32(%r10),%r8\n mov 40(%r10),%r9\n"
" mov $0x1111222233334444,%rbx\n mov %rbx,%r12\n not %r12\n lea 1(%rbx),%r13\n lea 2(%rbx),%r14\n lea 3(%rbx),%r15\n call *%r11\n"
" mov $0x1111222233334444,%rcx\n xor %edx,%edx\n cmp %rcx,%rbx\n setne %dl\n not %rcx\n cmp %rcx,%r12\n jne 3f\n not %rcx\n inc %rcx\n cmp %rcx,%r13\n jne 3f\n inc %rcx\n cmp %rcx,%r14\n jne 3f\n inc %rcx\n cmp %rcx,%r15\n je 4f\n3: mov $1,%edx\n4:"
" lea -48(%rbp),%rsp\n pop %r9\n movq %xmm0,(%r9)\n mov %rdx,8(%r9)\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static void*NATS[]={(void*)nat0,(void*)nat1,(void*)nat2,(void*)nat3,(void*)nat4,(void*)nat5,(void*)nat6,(void*)nat7};
// ---- what the innermost native or callback has to see
struct Clo;
struct Ctx{const Sg*s;vector<u64> args;u64 ret;int which;/* native entered, -1: callback */Clo*clo;int runs=0;string bad;std::function<string()> inner;Ctx*up;bool var=false;};
static thread_local Ctx*TOP;
static string argsRaw(Ctx*c,Raw*r,u64*stack){
  int ni=0,nf=0,ns=0;const Sg&s=*c->s;
  for(size_t i=0;i<s.a.size();i++){T t=s.a[i];u64 v=tflt(t)?(nf<8?r->xmm[nf++][0]:stack[ns++]):(ni<6?r->ints[ni++]:stack[ns++]);
    if(maskT(v,t)!=maskT(c->args[i],t))return sfmt("native argument %zu of %zu ('%c') is %llx, the wasm program passed %llx",i,s.a.size(),TC[t],(unsigned long long)maskT(v,t),(unsigned long long)maskT(c->args[i],t));}
  if(ns)cStk++;cArgs+=s.a.size();if(((size_t)stack&15)!=0)return "the native function is entered with a misaligned stack";
  if(c->var&&(r->rax&255)<(u64)nf)return "a variadic native function is not told its vector registers";return "";}
void nativeC(Raw*r,u64*stack){
  Ctx*c=TOP;r->ret=0xdeaddeaddeaddeadull;r->fret=0xdeaddeaddeaddeadull;if(!c)return;c->runs++;
  if(c->which!=(int)r->which){if(c->bad.empty())c->bad=sfmt("native function %d is called instead of %d",(int)r->which,c->which);return;}
  string e=argsRaw(c,r,stack);if(!e.empty()&&c->bad.empty())c->bad=e;
  if(c->inner){TOP=nullptr;e=c->inner();TOP=c;if(!e.empty()&&c->bad.empty())c->bad=e;}
  if(c->s->r==VD)return;if(tflt(c->s->r)){r->fret=c->s->r==FL?(0xcccccccc00000000ull|(u32)c->ret):c->ret;}else r->ret=tsize(c->s->r)==4?(0xbbbbbbbb00000000ull|(u32)c->ret):c->ret;}
#ifndef FFI_OFF
struct Cif{ffi_cif*p;Sg s;int kind;/*0 prep 1 var 2 ffix*/ffi_type**at;int users=0;bool nativeOk=true;};
struct Clo{void*closure,*code;Cif*cif;void*ud;int kind;/*0 closure 1 ffix callback*/int cb;/*0,1 forward 2 memory 3 host*/bool ready;int calls=0;};
static string fillRet(Ctx*c,void*ret){if(c->s->r==VD)return "";u64 v=c->s->r==S32?(u64)(s64)(s32)c->ret:maskT(c->ret,c->s->r);memcpy(ret,&v,8);return "";}
static void cbCommon(void*fp){
  void*sp=fp;void*cif=pwart_rstack_get_ref(&sp),*ret=pwart_rstack_get_ref(&sp),*args=pwart_rstack_get_ref(&sp),*ud=pwart_rstack_get_ref(&sp);
  Ctx*c=TOP;if(!c)return;c->runs++;auto bad=[&](string s){if(c->bad.empty())c->bad=s;};
  if(c->which!=-1){bad("a callback runs instead of a native function");return;}
  if(cif!=c->clo->cif->p){bad("a callback is given another call interface");return;}
  if(ud!=c->clo->ud){bad(sfmt("a callback is given the user data %p instead of %p",ud,c->clo->ud));return;}
  for(size_t i=0;i<c->s->a.size();i++){T t=c->s->a[i];u64 v=0;memcpy(&v,c->clo->kind?(u8*)args+8*i:((u8**)args)[i],tsize(t));if(v!=maskT(c->args[i],t)){bad(sfmt("callback argument %zu of %zu ('%c') is %llx, the native caller passed %llx",i,c->s->a.size(),TC[t],(unsigned long long)v,(unsigned long long)maskT(c->args[i],t)));return;}}
  cArgs+=c->s->a.size();
  if(c->inner){TOP=nullptr;string e=c->inner();TOP=c;if(!e.empty())bad(e);}
  fillRet(c,ret);}
// after a callback that pends operands: they must be unchanged
static u32 PK2;static u64 PK1;static thread_local bool pendBad;
static void hostPend(void*fp){void*sp=fp;u32 a=pwart_rstack_get_i32(&sp);u64 b=pwart_rstack_get_i64(&sp);void*ud=pwart_rstack_get_ref(&sp);Ctx*c=TOP;if(!c)return;if((a!=PK2||b!=PK1||ud!=c->clo->ud)&&c->bad.empty())c->bad="an operand pending or a local in a callback changed";}
static void hostMem(void*fp){void*sp=fp;void*ud=pwart_rstack_get_ref(&sp);Ctx*c=TOP;if(!c)return;c->runs++;if(ud!=c->clo->ud&&c->bad.empty())c->bad="a callback is given other user data";cMem++;}
static char*HN[]={(char*)"cb",(char*)"pend",(char*)"mem"};static pwart_host_function_c HF_[]={cbCommon,hostPend,hostMem};
static vector<HF> ffiFns(){VT E=EXTERNREF,F=FUNCREF;vector<VT> e8(8,E);return {{"ffi_is_enabled",{{},{I32}}},{"ffi_prep_cif",{{E,I32,I32,E,E},{I32}}},{"ffi_prep_cif_var",{{E,I32,I32,I32,E,E},{I32}}},{"ffi_call",{{E,E,E,E},{}}},{"ffi_default_abi",{{},{I32}}},{"ffi_built_in_types",{{},e8}},
  {"ffix_new_cif",{{E},{E,I32}}},{"ffix_del_cif",{{E},{}}},{"ffix_call",{{E,E,E,E},{}}},{"ffi_closure_alloc",{{},{E,E}}},{"ffi_closure_free",{{E},{}}},{"ffi_prep_closure_loc",{{E,E,F,E,E},{I32}}},{"ffix_new_c_callback",{{E,F,E},{E,E,I32}}},{"ffix_del_c_callback",{{E},{}}}};}
static Module ffiModule(Thunks&th,Rng&r){
  Module m;VT E=EXTERNREF;th.imports(m,"libffi",ffiFns());u32 tcb=m.addType({{E,E,E,E},{}}),tp=m.addType({{I32,I64,E},{}}),te=m.addType({{E},{}}),tri=m.addType({{E},{I64}});
  Import i;i.mod="h";i.kind=0;i.field="cb";i.type=tcb;u32 cb=(u32)m.imports.size();m.imports.push_back(i);i.field="pend";i.type=tp;m.imports.push_back(i);i.field="mem";i.type=te;m.imports.push_back(i);
  i.mod="pwart_builtin";i.field="i64_from_ref";i.type=tri;u32 i64r=(u32)m.imports.size();m.imports.push_back(i);
  Import nm;nm.mod="pwart_builtin";nm.field="native_memory";nm.kind=2;nm.min=1;nm.max=10000;nm.hasmax=false;nm.is64=true;m.imports.push_back(nm);u32 base=(u32)m.imports.size()-1;
  auto add=[&](const char*n,const Code&b,const vector<VT>&l){Func f;f.type=tcb;f.body=b;f.locals=l;m.funcs.push_back(f);m.exports.push_back({n,0,base+(u32)m.funcs.size()-1});};
  add("cb0",{I(OP_LGET,0),I(OP_LGET,1),I(OP_LGET,2),I(OP_LGET,3),I(OP_CALL,cb)},{});
  PK2=(u32)r.next();PK1=r.next();
  add("cb1",{I(OP_LGET,3),I(OP_LSET,4),I(OP_I32C,0,0,PK2),I(OP_I64C,0,0,PK1),I(OP_LGET,0),I(OP_LGET,1),I(OP_LGET,2),I(OP_LGET,3),I(OP_CALL,cb),I(OP_LGET,4),I(OP_CALL,cb+1)},{E});
  // (l..l)->l : *ret = sum of slots weighted; user data points to {i64 n}; through native memory
  add("cb2",{I(OP_LGET,3),I(OP_CALL,cb+2),I(OP_LGET,3),I(OP_CALL,i64r),I(0x29,3,0,0),I(OP_LSET,4),I(OP_LGET,2),I(OP_CALL,i64r),I(OP_LSET,5),
    I(OP_BLOCK,VOID),I(OP_LOOP,VOID),I(OP_LGET,4),I(0x50),I(OP_BRIF,1),I(OP_LGET,6),I(OP_I64C,0,0,31),I(0x7e),I(OP_LGET,5),I(0x29,3,0,0),I(0x7c),I(OP_LSET,6),I(OP_LGET,5),I(OP_I64C,0,0,8),I(0x7c),I(OP_LSET,5),I(OP_LGET,4),I(OP_I64C,0,0,1),I(0x7d),I(OP_LSET,4),I(OP_BR,0),I(OP_END),I(OP_END),
    I(OP_LGET,1),I(OP_CALL,i64r),I(OP_LGET,6),I(0x37,3,0,0)},{I64,I64,I64});
  th.thunks(m,r);return m;}
#define UU(p) ((u64)(size_t)(p))
static pwart_wasm_function hostCb;
static u64 rndVal(Rng&r){switch(r.below(5)){case 0:return r.next();case 1:return 0;case 2:return ~0ull;case 3:return 1ull<<r.below(64);default:return 0x7ff0000080000000ull>>r.below(40);}}
struct World{Sys s;Rng*r;std::list<Cif> cifs;std::list<Clo> clos;
  Sg sig(bool ffix,int maxn){Sg g;int n=r->chance(70)?r->below(7):r->chance(70)?r->below(20):r->below(maxn+1);bool mono=r->chance(15);T mt=(T)r->below(7);for(int i=0;i<n;i++){T t=mono?mt:(T)r->below(7);if(ffix&&t==S32)t=U32;if(ffix&&t==S64)t=U64;g.a.push_back(t);}g.r=(T)r->below(8);if(ffix&&g.r==S32)g.r=U32;if(ffix&&g.r==S64)g.r=U64;return g;}
  string newCif(){
    vector<u64> q;Cif c;int k=r->below(10);string e;c.at=nullptr;c.p=nullptr;
    if(k<5){c.kind=2;if(r->chance(6)){cBad++;char b[300];memset(b,"ilfdp"[r->below(5)],300);b[299]=0;char*p=strdup(b);e=s.call("ffix_new_cif",{UU(p)},q,*r);free(p);if(!e.empty())return e;if(q[0]||(u32)q[1]!=1)return "ffix_new_cif of an endless description does not fail as documented";return "";}
      c.s=sig(true,r->chance(10)?200:100);string d;for(T t:c.s.a)d+=TC[t];if(c.s.r!=VD||r->chance(50)){d+='>';d+=TC[c.s.r];}char*p=(char*)malloc(d.size()+1);memcpy(p,d.c_str(),d.size()+1);hx::note("ffix_new_cif %s",d.c_str());e=s.call("ffix_new_cif",{UU(p)},q,*r);memset(p,'?',d.size());free(p);if(!e.empty())return e;if(!q[0]||(u32)q[1])return sfmt("ffix_new_cif of '%s' fails with %d",d.c_str(),(int)q[1]);c.p=(ffi_cif*)q[0];}
    else{c.kind=k<8?0:1;c.s=sig(false,100);u32 n=(u32)c.s.a.size();c.p=(ffi_cif*)malloc(sizeof(ffi_cif));c.at=(ffi_type**)malloc(sizeof(void*)*n+!n);for(u32 i=0;i<n;i++)c.at[i]=ftype(c.s.a[i]);u32 abi=r->chance(85)?FFI_DEFAULT_ABI:r->below(20);u32 nf=n?1+r->below(n):0;
      ffi_cif ref;memset(&ref,0,sizeof ref);memset(c.p,0,sizeof *c.p);ffi_status w=c.kind?ffi_prep_cif_var(&ref,(ffi_abi)abi,nf,n,ftype(c.s.r),c.at):ffi_prep_cif(&ref,(ffi_abi)abi,n,ftype(c.s.r),c.at);
      if(c.kind){e=s.call("ffi_prep_cif_var",{UU(c.p),abi,nf,n,UU(ftype(c.s.r)),UU(c.at)},q,*r);cVar++;}else e=s.call("ffi_prep_cif",{UU(c.p),abi,n,UU(ftype(c.s.r)),UU(c.at)},q,*r);
      hx::note("%s abi %u fixed %u args %u",c.kind?"ffi_prep_cif_var":"ffi_prep_cif",abi,nf,n);
      if(e.empty()&&(u32)q[0]!=(u32)w)e=sfmt("%s returns %u, libffi %u",c.kind?"ffi_prep_cif_var":"ffi_prep_cif",(u32)q[0],(u32)w);if(e.empty()&&memcmp(&ref,c.p,sizeof ref))e="a prepared call interface differs from libffi's";
      if(!e.empty()||w!=FFI_OK||abi!=FFI_DEFAULT_ABI){free(c.p);free(c.at);cBad++;return e;}}
    cCif++;cifs.push_back(c);return "";}
  string delCif(std::list<Cif>::iterator i){string e;vector<u64> q;if(i->kind==2)e=s.call("ffix_del_cif",{UU(i->p)},q,*r);else{free(i->p);free(i->at);}cifs.erase(i);return e;}
  Cif*cif(bool fc=false){if(cifs.empty())return nullptr;int n=r->below((u32)cifs.size());auto i=cifs.begin();while(n--)++i;return &*i;}
  Clo*clo(){vector<Clo*> v;for(auto&c:clos)if(c.ready)v.push_back(&c);return v.empty()?nullptr:r->pick(v);}
  pwart_wasm_function cbFn(int k){return k==3?hostCb:pwart_get_export_function(s.ms,k==0?"cb0":k==1?"cb1":"cb2");}
  int cbKind(const Sg&g,bool ffix){bool mem=ffix&&g.r==U64;for(T t:g.a)if(t!=U64&&t!=PT)mem=false;return mem&&r->chance(70)?2:r->below(3)==0?3:r->below(2);}
  void*newUd(Cif*c,int cb){if(cb==2){u64*p=(u64*)malloc(8);*p=c->s.a.size();return p;}return (void*)(size_t)r->next();}
  string newClo(){
    Cif*c=cif();if(!c||clos.size()>12)return "";if(c->s.a.size()>120)return "";vector<u64> q;Clo k;k.kind=r->below(2);k.cif=c;k.cb=cbKind(c->s,k.kind);k.ud=newUd(c,k.cb);k.ready=true;string e;hx::note("closure kind %d callback %d",k.kind,k.cb);
    if(k.kind){int save=c->p->abi;bool brk=r->chance(5);if(brk)c->p->abi=(ffi_abi)99;e=s.call("ffix_new_c_callback",{UU(c->p),UU(cbFn(k.cb)),UU(k.ud)},q,*r);c->p->abi=(ffi_abi)save;if(!e.empty())return e;k.closure=(void*)q[0];k.code=(void*)q[1];
      if(brk){cBad++;k.ready=false;if((u32)q[2]!=FFI_BAD_ABI)return sfmt("ffix_new_c_callback with a bad interface returns %u",(u32)q[2]);}else if((u32)q[2])return sfmt("ffix_new_c_callback returns %u",(u32)q[2]);}
    else{e=s.call("ffi_closure_alloc",{},q,*r);if(!e.empty())return e;k.closure=(void*)q[0];k.code=(void*)q[1];if(!q[0]||!q[1])return "ffi_closure_alloc returns null";
      if(r->chance(20))k.ready=false;else{e=prep(k);if(!e.empty())return e;}}
    c->users++;clos.push_back(k);return "";}
  string prep(Clo&k){vector<u64> q;string e=s.call("ffi_prep_closure_loc",{UU(k.closure),UU(k.cif->p),UU(cbFn(k.cb)),UU(k.ud),UU(k.code)},q,*r);if(e.empty()&&(u32)q[0])e=sfmt("ffi_prep_closure_loc returns %u",(u32)q[0]);k.ready=true;return e;}
  string again(){Clo*k=nullptr;for(auto&c:clos)if(!c.kind&&r->chance(50)){k=&c;break;}Cif*c=cif();if(!k||!c||c->s.a.size()>120)return "";cPrep++;if(k->cb==2)free(k->ud);k->cif->users--;c->users++;k->cif=c;k->cb=cbKind(c->s,false);k->ud=newUd(c,k->cb);return prep(*k);}
  string delClo(std::list<Clo>::iterator i){vector<u64> q;string e=s.call(i->kind?"ffix_del_c_callback":"ffi_closure_free",{UU(i->closure)},q,*r);i->cif->users--;if(i->cb==2)free(i->ud);clos.erase(i);return e;}
  // what happens inside the innermost function
  std::function<string()> inner(int depth){if(depth>=3||!r->chance(25))return nullptr;int k=r->below(4);cNest++;
    if(k==0)return [this]{return newCif();};if(k==1)return [this]{return newClo();};return [this,depth]{return act(depth+1);};}
  void values(Ctx&c,const Sg&g){c.s=&g;for(size_t i=0;i<g.a.size();i++)c.args.push_back(rndVal(*r));c.ret=rndVal(*r);}
  // native code calls a closure
  static string fromNative(Clo*k,Ctx&c,u64 mem){
    const Sg&g=k->cif->s;u64 ints[6],xmm[8],fr[2];vector<u64> st;int ni=0,nf=0;u64 junk=0xA5A5A5A500000000ull;for(auto&x:ints)x=junk;for(auto&x:xmm)x=junk;
    for(size_t i=0;i<g.a.size();i++){T t=g.a[i];u64 v=tsize(t)==4?(c.args[i]&0xffffffff)|junk:c.args[i];if(tflt(t)){if(nf<8)xmm[nf++]=v;else st.push_back(v);}else if(ni<6)ints[ni++]=v;else st.push_back(v);}
    c.which=-1;c.clo=k;c.up=TOP;TOP=&c;u64 z=0;u64 ra=rawCall(k->code,ints,xmm,st.empty()?&z:st.data(),st.size(),fr,nf);TOP=c.up;
    if(!c.bad.empty())return c.bad;if(fr[1])return "a callback changed the native caller's saved registers";if(c.runs!=1)return sfmt("one call of a closure ran its function %d times",c.runs);
    u64 want=k->cb==2?mem:c.ret,got=tflt(g.r)?fr[0]:ra;if(maskT(got,g.r)!=maskT(want,g.r))return sfmt("the native caller got %llx from a closure returning '%c', the wasm function gave %llx",(unsigned long long)maskT(got,g.r),TC[g.r],(unsigned long long)maskT(want,g.r));
    if(!st.empty())cStk++;if(g.a.size()>16)cMany++;(k->kind?cCb:cClo)++;if(k->calls++)cRep++;return "";}
  static u64 memSum(const Ctx&c){u64 a=0;for(u64 v:c.args)a=a*31+v;return a;}
  string callClo(int depth){Clo*k=clo();if(!k)return "";Ctx c;values(c,k->cif->s);if(k->cb!=2)c.inner=inner(depth);Sg g=k->cif->s;
    if(!c.inner&&r->chance(30)&&k->cif->kind!=1){ // through ffi_call: wasm -> native code of the closure -> wasm
      cRound++;c.which=-1;c.clo=k;return wasmCall(k->cif,k->code,c,k->cb==2?memSum(c):c.ret);}
    k->cif->users++;string e=fromNative(k,c,memSum(c));k->cif->users--;return e;}
  // wasm calls native code
  string wasmCall(Cif*f,void*fn,Ctx&c,u64 want){
    bool fx=r->chance(50);u32 n=(u32)f->s.a.size();vector<u64> q;string e;u8*rv=f->s.r==VD&&r->chance(50)?nullptr:(u8*)malloc(16);if(rv)memset(rv,0x99,16);c.up=TOP;TOP=&c;vector<void*> bufs;
    if(fx){u64*a=(u64*)malloc(8*n+!n);for(u32 i=0;i<n;i++)a[i]=tsize(f->s.a[i])==4?(c.args[i]&0xffffffff)|0x5c5c5c5c00000000ull:c.args[i];u64*cp=(u64*)malloc(8*n+!n);memcpy(cp,a,8*n);e=s.call("ffix_call",{UU(f->p),UU(fn),UU(rv),UU(a)},q,*r);if(e.empty()&&memcmp(a,cp,8*n))e="ffix_call changed its argument slots";free(a);free(cp);}
    else{void**a=(void**)malloc(8*n+!n);for(u32 i=0;i<n;i++){a[i]=malloc(tsize(f->s.a[i]));memcpy(a[i],&c.args[i],tsize(f->s.a[i]));bufs.push_back(a[i]);}e=s.call("ffi_call",{UU(f->p),UU(fn),UU(rv),UU(a)},q,*r);free(a);}
    TOP=c.up;for(void*p:bufs)free(p);
    if(e.empty())e=c.bad;if(e.empty()&&c.runs!=1)e=sfmt("one native call ran the function %d times",c.runs);
    if(e.empty()&&rv){u64 g=0;memcpy(&g,rv,tsize(f->s.r));if(f->s.r!=VD&&g!=maskT(want,f->s.r))e=sfmt("the result of a native call ('%c', %u arguments) is %llx, the function returned %llx",TC[f->s.r],n,(unsigned long long)g,(unsigned long long)maskT(want,f->s.r));for(int i=f->s.r==VD?0:8;i<16&&e.empty();i++)if(rv[i]!=0x99)e="a native call wrote behind its result";}
    free(rv);(fx?cFixed:cCall)++;if(n>16)cMany++;return e;}
  string callNat(int depth){Cif*f=cif();if(!f)return "";Ctx c;values(c,f->s);c.which=r->below(8);c.clo=nullptr;c.var=f->kind==1;c.inner=inner(depth);f->users++;string e=wasmCall(f,NATS[c.which],c,c.ret);f->users--;return e;}
  string threads(){
    vector<Clo*> v;for(auto&c:clos)if(c.ready)v.push_back(&c);if(v.empty())return "";int nt=r->range(2,4);vector<string> err(nt);vector<std::thread> t;u64 seed=r->next();std::atomic<int> go{nt};int per=r->range(2,20);
    for(int i=0;i<nt;i++)t.emplace_back([&,i]{Rng q(seed+i);go--;while(go.load()>0)std::this_thread::yield();for(int k=0;k<per&&err[i].empty();k++){Clo*o=v[q.below((u32)v.size())];Clo mine=*o;Ctx c;c.s=&o->cif->s;for(size_t j=0;j<c.s->a.size();j++)c.args.push_back(rndVal(q));c.ret=rndVal(q);if(q.chance(20))c.inner=[]{std::this_thread::yield();return string();};err[i]=fromNative(&mine,c,memSum(c));}});
    for(auto&x:t)x.join();cThr+=nt*per;for(auto&e:err)if(!e.empty())return e;return "";}
  string act(int depth){int k=r->below(100);if(k<45)return callNat(depth);return callClo(depth);}
  string basics(){vector<u64> q;string e=s.call("ffi_is_enabled",{},q,*r);if(!e.empty())return e;if((u32)q[0]!=1||pwart_libffi_module_ffi_is_enabled()!=1)return "ffi_is_enabled is not 1";
    e=s.call("ffi_default_abi",{},q,*r);if(!e.empty())return e;if((u32)q[0]!=FFI_DEFAULT_ABI)return "ffi_default_abi differs from libffi's";
    e=s.call("ffi_built_in_types",{},q,*r);if(!e.empty())return e;void*w[]={&ffi_type_void,&ffi_type_uint32,&ffi_type_sint32,&ffi_type_uint64,&ffi_type_sint64,&ffi_type_float,&ffi_type_double,&ffi_type_pointer};for(int i=0;i<8;i++)if(q[i]!=UU(w[i]))return sfmt("built-in type %d is wrong",i);return "";}
  string run(u64*sg){
    string e;int n=r->range(5,50);
    for(int i=0;i<n&&e.empty();i++){int k=r->below(100);*sg=hx::mix(*sg,k*1000+cifs.size()*20+clos.size());hx::note("op %d",k);
      if(k<3)e=basics();else if(k<18||cifs.empty())e=newCif();else if(k<23){for(auto c=cifs.begin();c!=cifs.end();++c)if(!c->users){e=delCif(c);break;}}
      else if(k<36)e=newClo();else if(k<40)e=again();else if(k<46&&clos.size()){int j=r->below((u32)clos.size());auto c=clos.begin();while(j--)++c;e=delClo(c);}
      else if(k<49)e=threads();else{for(int j=r->range(1,4);j>0&&e.empty();j--)e=act(0);}
      for(auto&c:cifs)for(T t:c.s.a)*sg=hx::mix(*sg,t);}
    while(clos.size()&&e.empty())e=delClo(clos.begin());while(cifs.size()&&e.empty())e=delCif(cifs.begin());return e;}
};
#endif
void hxInit(){
  hx::caseCpu=20;hx::batch=8;
#ifndef FFI_OFF
  hostCb=pwart_wrap_host_function_c(cbCommon);{std::thread t([]{});t.join();}
#endif
}
#ifndef FFI_OFF
static std::atomic<long> closuresLive;
extern "C"{void*__real_ffi_closure_alloc(size_t,void**);void __real_ffi_closure_free(void*);
void*__wrap_ffi_closure_alloc(size_t n,void**c){void*p=__real_ffi_closure_alloc(n,c);if(p)closuresLive++;return p;}
void __wrap_ffi_closure_free(void*p){if(p)closuresLive--;__real_ffi_closure_free(p);}}
#endif
string runOne(u64 seed,u64 idx){
#ifndef FFI_OFF
  long cl0=closuresLive;
#endif

  Rng r(hx::mix(seed,idx));u64 sig=0;string e;sysFlags(r.chance(50));hxTakeBad();HxAllocStats a0=hxStats();
#ifndef FFI_OFF
  {World w;w.r=&r;Sys&s=w.s;s.ns=pwart_namespace_new();auto*fm=pwart_libffi_module_new();auto*hm=pwart_namespace_new_host_module((const char**)HN,HF_,3);
   pwart_namespace_define_host_module(s.ns,"libffi",fm);pwart_namespace_define_host_module(s.ns,"h",hm);Module m=ffiModule(s.th,r);e=s.load(m,"m",r);hx::note("stack_flags %d",(int)sysAlign);
   if(e.empty())e=w.run(&sig);TOP=nullptr;if(!e.empty())return e;
   pwart_namespace_delete(s.ns);pwart_libffi_module_delete(fm);pwart_namespace_delete_host_module(hm);}
#else
  // without libffi only ffi_is_enabled does anything
  {Sys s;s.ns=pwart_namespace_new();auto*fm=pwart_libffi_module_new();pwart_namespace_define_host_module(s.ns,"libffi",fm);Module m;VT E=EXTERNREF;vector<VT> none;
   static const char*NM[]={"ffi_is_enabled","ffi_prep_cif","ffi_prep_cif_var","ffi_call","ffi_default_abi","ffi_built_in_types","ffix_new_cif","ffix_del_cif","ffix_call","ffi_closure_alloc","ffi_closure_free","ffi_prep_closure_loc","ffix_new_c_callback","ffix_del_c_callback"};
   vector<HF> fs;for(auto n:NM)fs.push_back({n,!strcmp(n,"ffi_is_enabled")?FuncType{{},{I32}}:FuncType{{E,E,E,E,E},{E,E,E,E,E}}});s.th.imports(m,"libffi",fs);s.th.thunks(m,r);e=s.load(m,"m",r);
   for(int i=0;i<20&&e.empty();i++){int k=r.below(14);vector<u64> q,a;sig=hx::mix(sig,k);HxAllocStats b0=hxStats();if(k)for(int j=0;j<5;j++)a.push_back(r.next());e=s.call(NM[k],a,q,r);cCall++;if(!e.empty())break;
     if(!k){if((u32)q[0]||pwart_libffi_module_ffi_is_enabled())e="ffi_is_enabled is not 0 without libffi";}else if(q!=a)e=string(NM[k])+" does something without libffi";if(hxStats().blocks!=b0.blocks)e="memory is left";}
   if(!e.empty())return e;pwart_namespace_delete(s.ns);pwart_libffi_module_delete(fm);}
#endif
#ifndef FFI_OFF
  if(closuresLive!=cl0)return sfmt("%ld closures of libffi are left behind",closuresLive-cl0);
#endif
  HxAllocStats a1=hxStats();if(a1.blocks!=a0.blocks)e=sfmt("%ld blocks are left behind: %s",a1.blocks-a0.blocks,hxLive().c_str());string b=hxTakeBad();if(!b.empty())e=b;
  if(e.empty())hx::nontrivial(sig);
  return e;}
HX_MAIN("ffi")
