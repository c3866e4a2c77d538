// C01 (values): one numeric instruction per module, compiled in several operand forms, evaluated on hundreds of operand pairs chosen
// around its rounding, overflow and encoding borders and compared with the reference evaluation of the instruction.
#include "tiny.h"
#define HX_TYPES
#include "hx.h"
#include "hxalloc.h"
#include <cmath>
#include "../engine/interp.h"
extern "C" void sljit_free_unused_memory_exec(void);
static hx::Counter cEval("instruction_evaluations"),cSkip("trapping_operands_left_out"),cConst("evaluations_with_a_constant"),cBr("evaluations_deciding_a_branch"),cSel("evaluations_deciding_a_select"),cLoop("evaluations_in_wasm_loops"),cNan("nan_results"),cUna("unary_instruction_modules"),cBin("binary_instruction_modules"),cLeak("leak_checks");
static vector<u16> OPS;
static u64 bits(double d){u64 x;memcpy(&x,&d,8);return x;}
static u32 bits(float d){u32 x;memcpy(&x,&d,4);return x;}
static u64 pat(Rng&r,int w){u64 m=w==64?~0ull:(1ull<<w)-1;switch(r.below(9)){
  case 0:return r.next()&m;case 1:return (r.next()&m)>>r.below(w);case 2:return (1ull<<r.below(w))&m;
  case 3:return ((1ull<<r.below(w))+(u64)(s64)r.range(-2,2))&m;case 4:return ((1ull<<r.below(w))|(1ull<<r.below(w))|(r.chance(30)?1ull<<r.below(w):0))&m;
  case 5:return ((1ull<<r.below(w))-(1ull<<r.below(w)))&m;case 6:return (u64)(s64)r.range(-130,130)&m;
  case 7:return (u64)((s64)r.next()>>r.below(63))&m;default:{static const u64 P[]={0,~0ull,0x8000000000000000ull,0x7fffffffffffffffull,0x5555555555555555ull,0xaaaaaaaaaaaaaaaaull,0x80000000ull,0x7fffffffull,0xffffffffull,0x100000000ull,0xffffffff00000000ull,0xff,0x80,0x7f,0x8000,0x7fff,0xffff,0x0123456789abcdefull};return P[r.below(sizeof P/8)]&m;}}}
// floats: sign, an exponent and a mantissa of few bits, or near an integer border
template<class F,class U>static U flt(Rng&r,int MB,int EB){
  int w=MB+EB+1;U sign=(U)r.below(2)<<(w-1);int bias=(1<<(EB-1))-1;
  switch(r.below(8)){
    case 0:return (U)pat(r,w);
    case 1:{static const int sp[]={-1,0,1};(void)sp;U x=((U)((1<<EB)-1))<<MB;return sign|(r.chance(50)?x:x|(U)(r.chance(30)?1ull<<(MB-1):pat(r,MB)));} // infinities and NaN
    case 2:return sign|(U)pat(r,MB); // denormal
    case 3:{F f=(F)(s64)r.range(-70000,70000);int s=r.below(8);f/=(F)(1<<s);U x;memcpy(&x,&f,sizeof x);return x;}
    case 4:{ // near 2^k and the borders of the integer types
      int k=r.pick(vector<int>{0,7,8,15,16,22,23,24,30,31,32,33,51,52,53,54,62,63,64,65});F f=(F)ldexp(1.0,k);if(r.chance(20))f-=1;if(r.chance(20))f+=(F)0.5;U x;memcpy(&x,&f,sizeof x);x=(U)(x+(U)(s64)r.range(-3,3));return sign|(x&~((U)1<<(w-1)));}
    case 5:{ // any magnitude with a fraction around one half
      int k=r.below(MB+2);u64 i=r.next()>>(64-k-1);F f=(F)i+(F)0.5;U x;memcpy(&x,&f,sizeof x);x=(U)(x+(U)(s64)r.range(-1,1));return sign|(x&~((U)1<<(w-1)));}
    case 6:return sign|((U)(bias+r.range(-40,70))<<MB)|(U)pat(r,MB);
    default:return sign|((U)r.below((1<<EB)-1)<<MB)|(U)pat(r,MB);}}
static u64 val(Rng&r,u16 op,VT t,VT res,int which){
  if(t==I32){bool sh=op>=0x74&&op<=0x78;if(sh&&which&&r.chance(50))return (u32)r.range(-70,70);
    if(isfloat(res)&&r.chance(50)){int s=r.below(8);u64 m=(r.next()&0xffffff)|0x800000;return (u32)(((m<<s)+(s?1ull<<(s-1):0)+(u64)(s64)r.range(-1,1)));}
    return pat(r,32);}
  if(t==I64){bool sh=op>=0x86&&op<=0x8a;if(sh&&which&&r.chance(50))return (u64)(s64)r.range(-140,140);
    if(isfloat(res)&&r.chance(60)){int mb=res==F32?24:53;if(r.chance(30))mb=24;int s=r.below(64-mb+1);u64 m=(r.next()>>(64-mb))|1ull<<(mb-1);u64 x=(m<<s)+(s?1ull<<(s-1):0)+(u64)(s64)r.range(-1,1)+(s>30&&r.chance(30)?1ull<<r.below(s-1):0);return r.chance(25)?(u64)-(s64)x:x;}
    return pat(r,64);}
  if(t==F32)return flt<float,u32>(r,23,8);
  if(res==F32&&r.chance(60)){ // demote: halfway between two floats, and around the ends of the range
    u32 f=flt<float,u32>(r,23,8);float g;memcpy(&g,&f,4);u32 h=f+1;float g2;memcpy(&g2,&h,4);double d=((double)g+(double)g2)/2;u64 x=bits(d);return x+(u64)(s64)r.range(-1,1);}
  if(r.chance(10)){u32 f=flt<float,u32>(r,23,8);float g;memcpy(&g,&f,4);return bits((double)g);}
  return flt<double,u64>(r,52,11);}
static void pairOf(Rng&r,u16 op,const Sig&s,u64&a,u64&b){
  a=val(r,op,s.a,s.r,0);b=0;if(s.b==VOID)return;b=val(r,op,s.b,s.r,1);
  if(r.chance(12))b=a;else if(r.chance(6)){b=a+(u64)(s64)r.range(-1,1);}else if(r.chance(6)){b=isfloat(s.b)?a^(s.b==F32?0x80000000ull:1ull<<63):(u64)-(s64)a;}
  else if(isfloat(s.b)&&r.chance(15)){int mb=s.b==F32?23:52,eb=s.b==F32?8:11;u64 em=((1ull<<eb)-1)<<mb;s64 e=(s64)((a&em)>>mb)+r.range(-2,2);if(e>=0&&e<(1<<eb)-1)b=(b&~em)|((u64)e<<mb);} // of about the same size
  if(vsize(s.b)==4)b=(u32)b;if(vsize(s.a)==4)a=(u32)a;}
static u16 kop(VT t){return t==I32?OP_I32C:t==I64?OP_I64C:t==F32?OP_F32C:OP_F64C;}
static u16 ld(VT t){return t==I32?0x28:t==I64?0x29:t==F32?0x2a:0x2b;}
static u16 st(VT t){return t==I32?0x36:t==I64?0x37:t==F32?0x38:0x39;}
static string num(u64 seed,u16 op){
  Rng r(seed);Sig s;numsig(op,s);bool bin=s.b!=VOID;(bin?cBin:cUna)++;
  struct pwart_global_compile_config cfg;cfg.stack_flags=r.below(2);cfg.misc_flags=3;pwart_set_global_compile_config(&cfg);
  Module m;MemT me;me.min=1;me.max=1;me.hasmax=true;m.mems.push_back(me);m.exports.push_back({"mem",2,0});
  vector<u32> fns;auto add=[&](const FuncType&ft,const Code&c,vector<VT> loc,const string&n){Func f;f.type=m.addType(ft);f.locals=loc;f.body=c;m.funcs.push_back(f);m.exports.push_back({n,0,(u32)m.funcs.size()-1});};
  FuncType ft{{s.a},{s.r}};if(bin)ft.p.push_back(s.b);
  hx::note("instruction %x, config %d",op,cfg.stack_flags);
  {Code c{I(OP_LGET,0)};if(bin)c.push_back(I(OP_LGET,1));c.push_back(I(op));add(ft,c,{},"p");}
  // operands computed, so that they are in registers
  {Code c;auto reg=[&](u32 l,VT t){c.push_back(I(OP_LGET,l));if(isfloat(t)){c.push_back(I(t==F32?0x8c:0x9a));c.push_back(I(t==F32?0x8c:0x9a));}else{c.push_back(I(kop(t),0,0,0));c.push_back(I(t==I32?0x73:0x85));}};reg(0,s.a);if(bin)reg(1,s.b);c.push_back(I(op));add(ft,c,{},"q");}
  const int N=256,A=0,Bo=N*8,O=2*N*8;
  { // a loop over arrays
    Code c{I(OP_LOOP,VOID),I(OP_LGET,1),I(OP_LGET,1),I(ld(s.a),0,0,A)};if(bin){c.push_back(I(OP_LGET,1));c.push_back(I(ld(s.b),0,0,Bo));}c.push_back(I(op));c.push_back(I(st(s.r),0,0,O));
    for(auto&x:Code{I(OP_LGET,1),I(OP_I32C,0,0,8),I(0x6a),I(OP_LTEE,1),I(OP_LGET,0),I(0x49),I(OP_BRIF,0),I(OP_END)})c.push_back(x);
    add({{I32},{}},c,{I32},"l");}
  vector<std::pair<u64,bool>> ks;int nk=bin?6:0;vector<vector<u64>> kvals;
  for(int i=0;i<nk;i++){u64 a,b;pairOf(r,op,s,a,b);bool right=i%3!=2;u64 k=right?b:a;ks.push_back({k,right});Code c;if(right)c={I(OP_LGET,0),I(kop(s.b),0,0,k),I(op)};else c={I(kop(s.a),0,0,k),I(OP_LGET,0),I(op)};FuncType kt{{right?s.a:s.b},{s.r}};add(kt,c,{},sfmt("k%d",i));}
  if(s.r==I32){ // the result decides
    {Code c{I(OP_BLOCK,VOID),I(OP_LGET,0)};if(bin)c.push_back(I(OP_LGET,1));c.push_back(I(op));for(auto&x:Code{I(OP_BRIF,0),I(OP_I32C,0,0,77),I(OP_RETURN),I(OP_END),I(OP_I32C,0,0,88)})c.push_back(x);add(ft,c,{},"b");}
    {Code c{I(OP_LGET,0)};if(bin)c.push_back(I(OP_LGET,1));c.push_back(I(op));for(auto&x:Code{I(OP_IF,I32),I(OP_I32C,0,0,88),I(OP_ELSE),I(OP_I32C,0,0,77),I(OP_END)})c.push_back(x);add(ft,c,{},"i");}
    {Code c{I(OP_I64C,0,0,88),I(OP_I64C,0,0,77),I(OP_LGET,0)};if(bin)c.push_back(I(OP_LGET,1));c.push_back(I(op));c.push_back(I(OP_SELECT));c.push_back(I(0xa7));add(ft,c,{},"s");}}
  vector<u8> bytes=encode(m,0,&r);char*e=nullptr;
  pwart_namespace ns=pwart_namespace_new();pwart_module_state md=(pwart_module_state)pwart_namespace_define_wasm_module(ns,"t",(char*)bytes.data(),bytes.size(),&e);string err;
  if(!md)err=string("a good module failed to load: ")+(e?e:"?");
  static u8*stk=nullptr;if(!stk)stk=(u8*)pwart_allocate_stack(1<<16);u8*sp=stk+64;
  auto put=[&](void**p,VT t,u64 v){switch(t){case I32:pwart_rstack_put_i32(p,(u32)v);break;case I64:pwart_rstack_put_i64(p,v);break;case F32:{float f;u32 x=(u32)v;memcpy(&f,&x,4);pwart_rstack_put_f32(p,f);break;}default:{double f;memcpy(&f,&v,8);pwart_rstack_put_f64(p,f);}}};
  auto fn=[&](const string&n){auto f=pwart_get_export_function(md,n.c_str());if(!f&&err.empty())err="export "+n+" not found";return f;};
  auto check=[&](const char*form,u64 a,u64 b,const V&want,u64 got){
    cEval++;u64 w=want.v;if(vsize(s.r)==4){w=(u32)w;got=(u32)got;}
    if(want.t){cNan++;if(s.r==F32?isnan32((u32)got):isnan64(got))return;}else if(got==w)return;
    if(err.empty())err=sfmt("instruction %x in form %s of %llx and %llx gives %llx, expected %s%llx",op,form,(unsigned long long)a,(unsigned long long)b,(unsigned long long)got,want.t?"a NaN like ":"",(unsigned long long)w);};
  auto call=[&](pwart_wasm_function f,const FuncType&t,u64 a,u64 b){memset(sp-16,0xC3,80);void*p=sp;put(&p,t.p[0],a);if(t.p.size()>1)put(&p,t.p[1],b);pwart_call_wasm_function(f,sp);u64 g;memcpy(&g,sp,8);return g;};
  if(err.empty()){
    auto fp=fn("p"),fq=fn("q"),fl=fn("l");pwart_wasm_function fb=nullptr,fi=nullptr,fs=nullptr;if(s.r==I32){fb=fn("b");fi=fn("i");fs=fn("s");}
    u8*mem=err.empty()?(u8*)pwart_get_export_memory(md,"mem")->bytes:nullptr;
    vector<u64> va,vb;vector<V> vr;
    for(int i=0;i<N&&err.empty();i++){u64 a,b;pairOf(r,op,s,a,b);V A0,B0,R;A0.v=a;B0.v=b;if(!numeval(op,A0,B0,R)){cSkip++;continue;}
      va.push_back(a);vb.push_back(b);vr.push_back(R);
      check("parameters",a,b,R,call(fp,ft,a,b));check("registers",a,b,R,call(fq,ft,a,b));
      if(fb&&i%2==0){u64 w=(u32)R.v?88:77;V W;W.v=w;cBr++;cBr++;cSel++;check("br_if",a,b,W,call(fb,ft,a,b));check("if",a,b,W,call(fi,ft,a,b));check("select",a,b,W,call(fs,ft,a,b));}}
    if(err.empty()&&va.size()){
      for(size_t i=0;i<va.size();i++){memcpy(mem+A+i*8,&va[i],8);memcpy(mem+Bo+i*8,&vb[i],8);}memset(mem+O,0xC3,N*8);
      memset(sp,0xC3,64);void*p=sp;pwart_rstack_put_i32(&p,(int)va.size()*8);pwart_call_wasm_function(fl,sp);
      for(size_t i=0;i<va.size()&&err.empty();i++){u64 g;memcpy(&g,mem+O+i*8,8);cLoop++;check("loop over memory",va[i],vb[i],vr[i],g);}}
    for(int i=0;i<nk&&err.empty();i++){auto f=fn(sfmt("k%d",i));if(!f)break;bool right=ks[i].second;FuncType kt{{right?s.a:s.b},{s.r}};
      for(int q=0;q<24&&err.empty();q++){u64 a,b;pairOf(r,op,s,a,b);(right?b:a)=ks[i].first;if(q==0)(right?a:b)=ks[i].first;V A0,B0,R;A0.v=a;B0.v=b;if(!numeval(op,A0,B0,R)){cSkip++;continue;}cConst++;check(right?"constant second":"constant first",a,b,R,call(f,kt,right?a:b,0));}}}
  pwart_namespace_delete(ns);
  {string hb=hxTakeBad();if(err.empty()&&hb.size())err=hb;}
  return err;}
void hxInit(){for(u16 op=0x45;op<=0xc4;op++){Sig s;if(numsig(op,s))OPS.push_back(op);}for(u16 op=0xfc00;op<0xfc08;op++)OPS.push_back(op);num(1,0x6a);num(2,0x8b);sljit_free_unused_memory_exec();hxTakeBad();}
string runOne(u64 seed,u64 idx){
  HxAllocStats a=hxStats();u16 op=OPS[idx%OPS.size()];
  string err=num(seed*1000003+idx*7919+1,op);if(!err.empty())return err;
  if(idx%16==0){sljit_free_unused_memory_exec();}
  HxAllocStats z=hxStats();cLeak++;
  if(z.blocks!=a.blocks)return sfmt("left %ld block(s), %ld bytes: ",z.blocks-a.blocks,z.bytes-a.bytes)+hxLive();
  hx::nontrivial(hx::hashBytes((const char*)&op,2)^(idx*0x9E3779B97F4A7C15ull)^seed);return "";}
HX_MAIN("num")
