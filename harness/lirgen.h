// Random well-formed programs for the code generator (sljit LIR) together with a model of their execution.
// A program is a flat list of operations; each knows how to emit itself and how to run in the model.
#pragma once
#include "hx.h"
extern "C"{
#include "sljitLir.h"
}
#include <math.h>
#include <memory>
namespace lir{
typedef unsigned __int128 u128;typedef __int128 s128;
static const int NREG=SLJIT_NUMBER_OF_REGISTERS,NFREG=SLJIT_NUMBER_OF_FLOAT_REGISTERS;
static const u64 LOCFAKE=0x5a5a000000000000ull; // the model's address of the locals area
static const int BUF=8192,WORK=6144;            // bytes per buffer; the part operations use (the rest receives the dump)
extern u8*HB,*LB;                               // real buffers: anywhere, and below 2 GB
struct Frame{u64 r[20];vector<u8> loc;int ret;int nsav,keep;int S;};
struct Rec{u64 i[4];u64 f[4];int ni,nf;u8 w[4],fw[4];int fn;};
struct St{
  u64 r[20];u8 v[20][32];bool z=false,fv=false;vector<u8> hi,lo,loc;vector<Frame> fr;vector<int> fast;vector<Rec> log;int nret=0;int steps=0;string fault;
  u64 retI=0;u8 retF[8];
  St():hi(BUF),lo(BUF){memset(r,0,sizeof r);memset(v,0,sizeof v);memset(retF,0,8);}
  u8*tr(u64 a,int n){
    if(a>=(u64)HB&&a+n<=(u64)HB+BUF)return&hi[a-(u64)HB];
    if(a>=(u64)LB&&a+n<=(u64)LB+BUF)return&lo[a-(u64)LB];
    if(a>=LOCFAKE&&a+n<=LOCFAKE+loc.size())return&loc[a-LOCFAKE];
    if(fault.empty())fault=sfmt("model: access to %llx",(unsigned long long)a);
    static u8 junk[64];return junk;}};
struct Opnd{int a;s64 w;};
static inline bool isMem(const Opnd&o){return o.a&SLJIT_MEM;}
static inline bool isReg(const Opnd&o){return o.a>0&&o.a<SLJIT_IMM;}
static inline u64 addrOf(St&s,const Opnd&o){
  if(o.a==SLJIT_MEM)return o.w;int b=o.a&0x7f,x=(o.a>>8)&0x7f;
  if(b==SLJIT_SP)return LOCFAKE+o.w;
  if(x)return s.r[b]+(s.r[x]<<o.w);return s.r[b]+o.w;}
static inline u64 ldm(St&s,u64 a,int n){u64 v=0;memcpy(&v,s.tr(a,n),n);return v;}
static inline void stm(St&s,u64 a,int n,u64 v){memcpy(s.tr(a,n),&v,n);}
static inline u64 rd(St&s,const Opnd&o,int n){ // n bytes, zero extended
  u64 v;if(o.a==SLJIT_IMM)v=o.w;else if(isMem(o))return ldm(s,addrOf(s,o),n);else v=s.r[o.a];
  return n==8?v:v&((1ull<<(n*8))-1);}
static inline s64 sx(u64 v,int n){return n==8?(s64)v:(s64)(v<<(64-8*n))>>(64-8*n);}
static inline void wr(St&s,const Opnd&o,int n,u64 v){ // an integer result of n bytes
  if(isMem(o))stm(s,addrOf(s,o),n,v);else s.r[o.a]=n==8?v:(v&0xffffffffull);}
struct Ctx{sljit_compiler*c;vector<sljit_label*> lab;vector<sljit_jump*> jmp;vector<sljit_const*> con;vector<std::pair<int,int>> link; // jump -> label
  string err;const char*txt="";
  void ck(int e){if(e&&err.empty())err=sfmt("error %d returned for %s",e,txt);}
  void ck(const void*p){if(!p&&err.empty())err=sfmt("NULL (error %d) returned for %s",sljit_get_compiler_error(c),txt);}};
struct Op{std::function<void(Ctx&)> emit;std::function<int(St&)> exec;string txt;};
struct Const{int id;int op;s64 v2;bool patch;};
struct Rewrite{int jmp;int lab;};
struct ROBuf{int lab;vector<u8> data;};
struct Prog{
  vector<Op> ops;int nlab=0,njmp=0,ncon=0;std::map<int,int> labPc;int entryLab=-1,entryPc=0;
  vector<Const> consts;vector<Rewrite> rew;vector<ROBuf> ro;
  int argTypes=0;vector<u64> intArgs;vector<u64> fArgs;vector<u8> fArgIs32;vector<u64> cbRetI;vector<u64> cbRetF;
  vector<std::pair<int,int>> lateLinks; // set_label done after all code is emitted
  int retType=0;bool tail=false;vector<u8> hi0,lo0;};
enum{U=0,W=1,H=2,BASE=3,LP=4,CNT=5};
struct G{ // what is statically known
  u8 rs[20];u8 fs[20];bool z=false;int vt=0;bool f32=false; // flags: zero valid, variable type (even condition), 32-bit
  int nscr,nsav,nf,nv,loc;int base;
  G(){memset(rs,0,20);memset(fs,0,20);}
  void noFlags(){z=false;vt=0;}};
struct Opt{bool fp=true,simd=true,calls=true,ctl=true,atomic=true,consts=true,big=true,ser=false,avx=true;int n=40;};
extern "C" void lir_cb0();extern "C" void lir_cb1(); // callbacks (see lir.cc)
struct Gen{
  Rng R;Prog P;G g;St st;bool live=true,safe=false;int depth=0;Opt O;int rsv=0;
  std::set<string> used;
  Gen(u64 seed,Opt o):R(seed),O(o){}
  // ---- running
  void run(int pc,int stop){ // pc == stop ends, when no fast call or frame opened since then is active
    size_t d=st.fast.size(),f=st.fr.size();
    while(pc>=0&&pc<(int)P.ops.size()){
      if(pc==stop&&st.fast.size()==d&&st.fr.size()==f)return;
      if(++st.steps>200000){st.fault="model: too many steps";return;}
      int t=P.ops[pc].exec(st);if(!st.fault.empty()){st.fault+=" at "+P.ops[pc].txt;return;}
      if(t==-2)return;
      pc=t==-1?pc+1:t>=1000000?t-1000000:P.labPc.at(t);}}
  int curPc(){return(int)P.ops.size();}
  void add(const string&t,std::function<void(Ctx&)> e,std::function<int(St&)> x){
    P.ops.push_back({e,x,t});if(live){int k=curPc()-1;run(k,k+1);}}
  void addv(const string&t,std::function<void(Ctx&)> e,std::function<void(St&)> x){add(t,e,[x](St&s){x(s);return -1;});}
  // ---- choices
  s64 val(){
    static const s64 e[]={0,1,-1,2,-2,127,128,-128,-129,255,256,0x7fff,0x8000,-0x8000,-0x8001,0xffff,0x10000,0x7fffffff,-0x7fffffffll-1,0x80000000ll,0xffffffffll,0x100000000ll,-0x80000001ll,
      0x7fffffffffffffffll,(s64)0x8000000000000000ull,(s64)0x8000000000000001ull,63,64,31,32,33,7,8,3,4,5,0x55555555,(s64)0xaaaaaaaaaaaaaaaaull,0x5555555555555555ll,0x123456789abcdefll,-3,10,100,-100,0x80,0x8080808080808080ull};
    switch(R.below(6)){case 0:case 1:case 2:return e[R.below(sizeof e/8)];case 3:return(s64)R.next();case 4:return(s64)(s32)R.next();default:return(s64)(1ull<<R.below(64))-(s64)R.below(2);}}
  u64 fbits(bool f32){
    static const double e[]={0.0,-0.0,1,-1,0.5,-0.5,1.5,2,3,-3,100.25,-100.25,1e10,-1e10,123456.789,2147483647.0,-2147483648.0,4294967295.0,1e-10,7e18,-7e18,0.1,1e300,1e-300,65536,255,-255};
    double d;switch(R.below(8)){case 0:if(!safe||true){u64 v=R.next();if(f32){u32 x=(u32)v;if((x&0x7f800000)==0x7f800000&&!R.chance(20))x&=~0x40000000u;return x;}if((v&0x7ff0000000000000ull)==0x7ff0000000000000ull)v&=~0x4000000000000000ull;return v;}
      case 1:d=(double)(s32)R.next();break;case 2:d=(double)(s64)R.next();break;case 3:d=R.below(2)?INFINITY:-INFINITY;break;case 4:if(R.chance(40)){return f32?0x7fc00000u|(R.below(2)<<31):0x7ff8000000000000ull|((u64)R.below(2)<<63);}
      default:d=e[R.below(sizeof e/8)];}
    if(f32){float f=(float)d;u32 b;memcpy(&b,&f,4);return b;}u64 b;memcpy(&b,&d,8);return b;}
  bool valid(int r){return(r>=1&&r<=g.nscr)||(r>NREG-g.nsav&&r<=NREG);}
  vector<int> regs(){vector<int> v;for(int r=1;r<=NREG;r++)if(valid(r))v.push_back(r);return v;}
  string rn(int r){if(r==SLJIT_SP)return"sp";if(r<=g.nscr)return sfmt("r%d",r-1);return sfmt("s%d",NREG-r);}
  string on(const Opnd&o){if(o.a==SLJIT_IMM)return sfmt("#%lld",(long long)o.w);if(o.a==SLJIT_MEM)return sfmt("[%llx]",(unsigned long long)o.w);
    if(isMem(o)){int b=o.a&0x7f,x=o.a>>8;if(x)return"["+rn(b)+"+"+rn(x)+sfmt("<<%d]",(int)o.w);return"["+rn(b)+sfmt("%+lld]",(long long)o.w);}return rn(o.a);}
  bool canWrite(int r){return valid(r)&&g.rs[r]!=BASE&&g.rs[r]!=CNT;}
  int wreg(){vector<int> v;for(int r:regs())if(canWrite(r))v.push_back(r);return R.pick(v);}
  int wregNot(std::initializer_list<int> no){vector<int> v;for(int r:regs()){if(!canWrite(r))continue;bool b=false;for(int x:no)b|=x==r;if(!b)v.push_back(r);}return v.empty()?0:R.pick(v);}
  // load an immediate (flags kept)
  void movi(int r,s64 v,int state=W){
    Opnd d{r,0};
    if(state==H){s32 x=(s32)v;addv(sfmt("mov32 %s, #%d",rn(r).c_str(),x),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,SLJIT_MOV32,r,0,SLJIT_IMM,x));},[=](St&s){s.r[r]=(u32)x;});}
    else addv(sfmt("mov %s, #%lld",rn(r).c_str(),(long long)v),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,SLJIT_MOV,r,0,SLJIT_IMM,v));},[=](St&s){s.r[r]=v;});
    g.rs[r]=state;}
  // a register holding a word (or a 32-bit value); made if there is none
  int rreg(int state,std::initializer_list<int> no={}){
    vector<int> v;for(int r:regs()){bool b=false;for(int x:no)b|=x==r;if(!b&&(g.rs[r]==state||(state==W&&g.rs[r]==BASE)))v.push_back(r);}
    if(!v.empty()&&!R.chance(6))return R.pick(v);
    int r=wregNot(no);if(!r)return v.empty()?0:R.pick(v);movi(r,val(),state);return r;}
  // memory operand of n bytes (of the working area), registers named in no must not be changed by its set-up
  Opnd mem(int n,std::initializer_list<int> no={},bool allowSp=true,int align=0){
    int al=align?align:(R.chance(80)?n:1);bool lowb=R.chance(30);u64 base=(u64)(lowb?LB:HB);
    s64 off=(R.below(4)==0?R.below(WORK-64):R.below(200))/al*al;
    // tiny offsets that fit the short form and ones that do not
    u64 A=base+off;
    for(int tr=0;tr<4;tr++){
      int k=R.below(10);
      if(k<3&&g.base){s64 o=R.below(3)==0?(s64)(R.below(WORK-64)/al*al):(s64)(R.below(128)/al*al);return{SLJIT_MEM1(g.base),o};}
      if(k==3&&(lowb||R.chance(40)))return{SLJIT_MEM0(),(s64)A};
      if((k==4||k==5)&&allowSp&&g.loc>=64){int w=g.loc<128?g.loc&~7:64;if(w<n)continue;s64 o=R.below((w-n)/al+1)*al;if(g.loc>=128&&R.chance(50))o=(g.loc&~7)-64+o;if(o+n<=g.loc)return{SLJIT_MEM1(SLJIT_SP),o};continue;}
      if(k==6){ // any register as the base, with small, negative, large and huge displacements
        int r=wregNot(no);if(!r)continue;s64 d;switch(R.below(6)){case 0:d=0;break;case 1:d=-(s64)R.below(300);break;case 2:d=R.below(300);break;case 3:d=(s64)(s32)R.next();break;case 4:d=(s64)R.next();break;default:d=(R.below(2)?0x7fffffffll:-0x80000000ll)+R.range(-2,2);}
        movi(r,(s64)(A-(u64)d),W);g.rs[r]=LP;return{SLJIT_MEM1(r),d};}
      if(k==7&&g.base){int x=wregNot(no);if(!x)continue;int sh=R.below(4);s64 i=(s64)(R.below(WORK-64)/al*al)>>sh;i=(i<<sh)/al*al>>sh;if(((i<<sh)%al))i=0;movi(x,i,W);return{SLJIT_MEM2(g.base,x),sh};}
      if(k==8){ // two fresh registers, index may be negative
        int b=wregNot(no);if(!b)continue;int sh=R.below(4);s64 i=(s64)(s32)R.next()>>R.below(28);movi(b,(s64)(A-((u64)i<<sh)),W);g.rs[b]=CNT;
        int x=wregNot(no);g.rs[b]=LP;if(!x||x==b)continue;movi(x,i,W);return{SLJIT_MEM2(b,x),sh};}
      if(k==9&&allowSp&&g.loc>=64&&n<=8){ // address of the locals area
        int r=wregNot(no);if(!r)continue;s64 d=R.below(3)?(s64)R.below(200)-100:(s64)(s32)R.next()>>R.below(20);s64 o=R.below((64-n)/al+1)*al;s64 lo=o-d;
        addv(sfmt("local_base %s, %lld",rn(r).c_str(),(long long)lo),[=](Ctx&c){c.ck(sljit_get_local_base(c.c,r,0,lo));},[=](St&s){s.r[r]=LOCFAKE+lo;});
        g.rs[r]=U;g.noFlags();return{SLJIT_MEM1(r),d};}}
    if(g.base)return{SLJIT_MEM1(g.base),off};
    return{SLJIT_MEM0(),(s64)A};}
  // note: mem() may drop the flags (local_base) - callers that need flags use memKeep
  Opnd memKeep(int n,std::initializer_list<int> no={}){for(;;){bool z=g.z;int vt=g.vt;Opnd o=[&]{int sv=g.loc;Opnd q=mem(n,no,false);g.loc=sv;return q;}();if(g.z==z&&g.vt==vt)return o;}}
  // an integer source of n bytes (8 or 4)
  Opnd src(int n,bool imm=true,std::initializer_list<int> no={}){
    int k=R.below(10);
    if(k<3&&imm){s64 v=val();if(n==4)v=(s32)v;return{SLJIT_IMM,v};}
    if(k<6)return mem(n,no);
    int r=rreg(n==4?H:W,no);if(!r)return mem(n,no);return{r,0};}
  Opnd dst(int n,std::initializer_list<int> no={}){if(R.chance(25))return mem(n,no);int r=wregNot(no);if(!r)return mem(n,no);return{r,0};}
  void setDst(const Opnd&d,int n){if(isReg(d))g.rs[d.a]=n==4?H:W;}
  // registers an operand uses
  static int b1(const Opnd&o){return isReg(o)?o.a:isMem(o)?(o.a&0x7f)==SLJIT_SP?0:o.a&0x7f:0;}
  static int b2(const Opnd&o){return isMem(o)?o.a>>8:0;}
  void use(const char*k){used.insert(k);}
  // ---- integer operations
  void op0(){
    if(g.nscr<2||!canWrite(1)||!canWrite(2)){return;}
    static const int ops[]={SLJIT_LMUL_UW,SLJIT_LMUL_SW,SLJIT_DIVMOD_UW,SLJIT_DIVMOD_SW,SLJIT_DIV_UW,SLJIT_DIV_SW,SLJIT_DIVMOD_U32,SLJIT_DIVMOD_S32,SLJIT_DIV_U32,SLJIT_DIV_S32,SLJIT_NOP,SLJIT_ENDBR,SLJIT_MEMORY_BARRIER};
    int op=ops[R.below(13)];bool is32=op&SLJIT_32;int o=op&~SLJIT_32;const char*nm[]={"lmul.u","lmul.s","divmod.u","divmod.s","div.u","div.s"};
    if(o==SLJIT_NOP||o==SLJIT_ENDBR||o==SLJIT_MEMORY_BARRIER){addv(sfmt("op0 %d",o),[=](Ctx&c){c.ck(sljit_emit_op0(c.c,op));},[](St&){});return;}
    int stt=is32?H:W;
    for(int r:{1,2})if(g.rs[r]!=stt||R.chance(20))movi(r,val(),stt);
    if(o>=SLJIT_DIVMOD_UW){ // keep the divisor off the undefined cases
      bool bad=safe||!live;if(!bad){u64 a=st.r[1],b=st.r[2];if(is32){a=(u32)a;b=(u32)b;}bool sg=o==SLJIT_DIVMOD_SW||o==SLJIT_DIV_SW;bad=!b||(sg&&(is32?(u32)b==0xffffffffu&&a==0x80000000u:b==~0ull&&a==1ull<<63));}
      if(bad){s64 d;do d=val();while((is32?(u32)d==0||(u32)d==0xffffffffu:d==0||d==-1));movi(2,d,stt);}}
    use(nm[o-SLJIT_LMUL_UW]);
    addv(sfmt("%s%s",nm[o-SLJIT_LMUL_UW],is32?"32":""),[=](Ctx&c){c.ck(sljit_emit_op0(c.c,op));},[=](St&s){
      u64 a=s.r[1],b=s.r[2];
      if(o==SLJIT_LMUL_UW){u128 p=(u128)a*b;s.r[1]=(u64)p;s.r[2]=(u64)(p>>64);return;}
      if(o==SLJIT_LMUL_SW){s128 p=(s128)(s64)a*(s64)b;s.r[1]=(u64)p;s.r[2]=(u64)(p>>64);return;}
      u64 q,m;bool sg=o==SLJIT_DIVMOD_SW||o==SLJIT_DIV_SW;
      if(is32){if(!(u32)b||(sg&&(u32)b==0xffffffffu&&(u32)a==0x80000000u)){s.fault="model: bad division";return;}if(sg){q=(u32)((s32)a/(s32)b);m=(u32)((s32)a%(s32)b);}else{q=(u32)a/(u32)b;m=(u32)a%(u32)b;}}
      else{if(!b||(sg&&b==~0ull&&a==1ull<<63)){s.fault="model: bad division";return;}if(sg){q=(s64)a/(s64)b;m=(s64)a%(s64)b;}else{q=a/b;m=a%b;}}
      s.r[1]=q;if(o==SLJIT_DIVMOD_UW||o==SLJIT_DIVMOD_SW)s.r[2]=m;});
    g.rs[1]=stt;g.rs[2]=stt;g.noFlags();}
  void op1(){
    struct D{int op;const char*n;int sz;bool sg;int src;int dst;int cls;}; // src: register state needed (0 any)
    static const D t[]={{SLJIT_MOV,"mov",8,0,W,W,0},{SLJIT_MOV_P,"mov.p",8,0,W,W,0},{SLJIT_MOV_U8,"mov.u8",1,0,W,W,0},{SLJIT_MOV_S8,"mov.s8",1,1,W,W,0},{SLJIT_MOV_U16,"mov.u16",2,0,W,W,0},{SLJIT_MOV_S16,"mov.s16",2,1,W,W,0},
      {SLJIT_MOV_U32,"mov.u32",4,0,0,W,0},{SLJIT_MOV_S32,"mov.s32",4,1,0,W,0},{SLJIT_MOV32,"mov32",4,0,0,H,0},{SLJIT_MOV32_U8,"mov32.u8",1,0,H,H,0},{SLJIT_MOV32_S8,"mov32.s8",1,1,H,H,0},{SLJIT_MOV32_U16,"mov32.u16",2,0,H,H,0},{SLJIT_MOV32_S16,"mov32.s16",2,1,H,H,0},
      {SLJIT_CLZ,"clz",8,0,W,W,1},{SLJIT_CTZ,"ctz",8,0,W,W,2},{SLJIT_CLZ32,"clz32",4,0,H,H,1},{SLJIT_CTZ32,"ctz32",4,0,H,H,2},{SLJIT_REV,"rev",8,0,W,W,3},{SLJIT_REV32,"rev32",4,0,H,H,3},
      {SLJIT_REV_U16,"rev.u16",2,0,W,W,3},{SLJIT_REV_S16,"rev.s16",2,1,W,W,3},{SLJIT_REV32_U16,"rev32.u16",2,0,H,H,3},{SLJIT_REV32_S16,"rev32.s16",2,1,H,H,3},{SLJIT_REV_U32,"rev.u32",4,0,0,W,3},{SLJIT_REV_S32,"rev.s32",4,1,0,W,3}};
    D d=t[R.chance(45)?13+R.below(12):R.below(13)];
    Opnd s,o;int k=R.below(10);
    if(k<2&&!d.cls){s64 v=val();s={SLJIT_IMM,d.dst==H||d.sz==4?(s64)(s32)v:v};}
    else if(k<5){s=d.cls?mem(d.sz):memKeep(d.sz);}
    else{int stt=d.src?d.src:(R.below(2)?W:H);int r=rreg(stt);if(!r)return;s={r,0};}
    if(d.op==SLJIT_MOV32&&isReg(s)&&canWrite(s.a)&&R.chance(30))o=s; // conversion in place
    else if(R.chance(30))o=d.cls?mem(d.cls==1||d.cls==2?(d.dst==H?4:8):d.sz,{b1(s),b2(s)}):memKeep(d.sz,{b1(s),b2(s)});
    else{int r=wreg();o={r,0};}
    use(d.n);
    addv(sfmt("%s %s, %s",d.n,on(o).c_str(),on(s).c_str()),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,d.op,o.a,o.w,s.a,s.w));},[=](St&S){
      u64 v=rd(S,s,d.sz);int ds=d.sz;
      if(d.cls==1){v=v?(d.sz==8?__builtin_clzll(v):__builtin_clz((u32)v)):d.sz*8;}
      else if(d.cls==2){v=v?__builtin_ctzll(v):d.sz*8;}
      else{if(d.cls==3)v=d.sz==8?__builtin_bswap64(v):d.sz==4?__builtin_bswap32((u32)v):__builtin_bswap16((u16)v);
        if(d.sg)v=sx(v,d.sz);}
      if(isMem(o))stm(S,addrOf(S,o),ds,v);
      else if(d.op==SLJIT_MOV32&&isReg(s)&&s.a==o.a)S.r[o.a]=(S.r[o.a]&~0xffffffffull)|(u32)v; // upper half not defined
      else S.r[o.a]=d.dst==H?(u32)v:v;});
    if(isReg(o))g.rs[o.a]=d.dst;
    if(d.cls)g.noFlags();}
  static bool cond(int t,u64 a,u64 b,int n){
    bool r;switch(t&~1){case SLJIT_EQUAL:r=a==b;break;case SLJIT_LESS:r=a<b;break;case SLJIT_GREATER:r=a>b;break;case SLJIT_SIG_LESS:r=sx(a,n)<sx(b,n);break;default:r=sx(a,n)>sx(b,n);}
    return r^(t&1);}
  struct O2{int op;const char*n;};
  const O2&pick2(bool flagsOnly){
    static const O2 t[]={{SLJIT_ADD,"add"},{SLJIT_SUB,"sub"},{SLJIT_AND,"and"},{SLJIT_OR,"or"},{SLJIT_XOR,"xor"},{SLJIT_SHL,"shl"},{SLJIT_MSHL,"mshl"},{SLJIT_LSHR,"lshr"},{SLJIT_MLSHR,"mlshr"},{SLJIT_ASHR,"ashr"},{SLJIT_MASHR,"mashr"},{SLJIT_MUL,"mul"},{SLJIT_ROTL,"rotl"},{SLJIT_ROTR,"rotr"}};
    if(R.chance(30))return t[R.below(2)];return t[R.below(flagsOnly?12:14)];}
  // result and flags of a two-operand operation
  static u64 calc(int op,u64 a,u64 b,int n,bool c,int vt,bool&z,bool&fv,string&fault){
    int bits=n*8;u64 M=n==8?~0ull:0xffffffffull;a&=M;b&=M;u64 r=0;
    switch(op){
    case SLJIT_ADD:r=(a+b)&M;fv=vt==SLJIT_CARRY?r<a:((~(a^b)&(a^r))>>(bits-1))&1;break;
    case SLJIT_ADDC:{u128 q=(u128)a+b+c;r=(u64)q&M;fv=(q>>bits)&1;break;}
    case SLJIT_SUB:r=(a-b)&M;if(vt==SLJIT_CARRY)fv=a<b;else if(vt==SLJIT_OVERFLOW)fv=(((a^b)&(a^r))>>(bits-1))&1;else fv=cond(vt,a,b,n);break;
    case SLJIT_SUBC:{u128 q=(u128)b+c;r=(u64)(a-(u64)q)&M;fv=q>a;break;}
    case SLJIT_MUL:{r=(a*b)&M;s128 q=(s128)sx(a,n)*sx(b,n);fv=q!=(s128)sx(r,n);break;}
    case SLJIT_AND:r=a&b;break;case SLJIT_OR:r=a|b;break;case SLJIT_XOR:r=a^b;break;
    case SLJIT_SHL:case SLJIT_LSHR:case SLJIT_ASHR:if(b>=(u64)bits){fault="model: shift out of range";}/* fall through */
    case SLJIT_MSHL:case SLJIT_MLSHR:case SLJIT_MASHR:{u64 k=b&(bits-1);if(op==SLJIT_SHL||op==SLJIT_MSHL)r=(a<<k)&M;else if(op==SLJIT_LSHR||op==SLJIT_MLSHR)r=a>>k;else r=(u64)(sx(a,n)>>k)&M;break;}
    case SLJIT_ROTL:{u64 k=b&(bits-1);r=k?((a<<k)|(a>>(bits-k)))&M:a;break;}
    case SLJIT_ROTR:{u64 k=b&(bits-1);r=k?((a>>k)|(a<<(bits-k)))&M:a;break;}}
    z=r==0;return r;}
  // flags to request
  int flagsFor(int op,int&vt,bool&z,bool must){
    vt=0;z=false;
    switch(op){
    case SLJIT_ROTL:case SLJIT_ROTR:return 0;
    case SLJIT_MUL:if(must||R.chance(50))vt=SLJIT_OVERFLOW;break;
    case SLJIT_ADD:if(R.chance(50)||must)vt=R.below(2)?SLJIT_CARRY:SLJIT_OVERFLOW;z=R.chance(35);break;
    case SLJIT_SUB:{static const int t[]={SLJIT_LESS,SLJIT_GREATER,SLJIT_SIG_LESS,SLJIT_SIG_GREATER,SLJIT_OVERFLOW,SLJIT_CARRY};if(R.chance(60))vt=t[R.below(6)];z=R.chance(45)||(must&&!vt);break;}
    default:z=must||R.chance(50);}
    return(z?SLJIT_SET_Z:0)|(vt?SLJIT_SET(vt):0);}
  bool shiftOk(int op){return op!=SLJIT_SHL&&op!=SLJIT_LSHR&&op!=SLJIT_ASHR;}
  Opnd shiftSrc(int n){ // in-range amount for the unmasked forms
    int bits=n*8;if(R.chance(40)){s64 k=R.chance(15)?(s64)(s32)val():R.below(bits);return{SLJIT_IMM,k};}
    s64 k=R.chance(25)?(R.below(2)?0:bits-1):R.below(bits);
    if(R.chance(60)||safe||!live){int r=wreg();if(R.chance(25)&&g.nscr>=4&&canWrite(4))r=4;movi(r,k,n==4?H:W);return{r,0};}
    Opnd m=memKeep(n,{});addv(sfmt("mov%s %s, #%lld",n==4?"32":"",on(m).c_str(),(long long)k),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,n==4?SLJIT_MOV32:SLJIT_MOV,m.a,m.w,SLJIT_IMM,k));},[=](St&s){stm(s,addrOf(s,m),n,k);});return m;}
  void op2(bool discard=false,bool must=false,int forced=-1){
    bool is32=R.chance(45);O2 o=pick2(discard||must);
    if(forced>=0)o={forced,"forced"};
    int n=is32?4:8;int vt;bool z;int fl;
    Opnd a=src(n),b;
    if(o.op>=SLJIT_SHL&&o.op<=SLJIT_MASHR&&!shiftOk(o.op)){
      b=shiftSrc(n);
      // the set-up of the amount may have replaced a register used by a
      if((b1(a)&&b1(a)==b1(b))||(b2(a)&&b2(a)==b1(b))||(b1(a)&&b1(a)==b2(b))||(b2(a)&&b2(a)==b2(b)))a=isReg(b)&&R.chance(50)?b:Opnd{SLJIT_IMM,is32?(s64)(s32)val():val()};
    }else if(o.op>=SLJIT_SHL&&R.chance(50))b={SLJIT_IMM,(s64)R.below(n*8)};
    else b=src(n,true,{b1(a),b2(a)});
    if(isReg(a)&&R.chance(12)&&shiftOk(o.op))b=a;
    if(R.chance(4)&&(o.op==SLJIT_SUB))a={SLJIT_IMM,0};
    if(R.chance(6)&&(o.op==SLJIT_XOR))(R.below(2)?a:b)={SLJIT_IMM,-1};
    if((o.op==SLJIT_ADD||o.op==SLJIT_SUB)&&R.chance(15))b={SLJIT_IMM,R.below(2)?1:-1};
    fl=flagsFor(o.op,vt,z,discard||must);
    if(isReg(a)&&!okReg(a.a,n))a={SLJIT_IMM,is32?(s64)(s32)val():val()};
    int op=o.op|(is32?SLJIT_32:0)|fl;use(o.n);
    if(discard){
      addv(sfmt("%s%s%s.%d.u %s, %s",o.n,is32?"32":"",z?".z":"",vt,on(a).c_str(),on(b).c_str()),[=](Ctx&c){c.ck(sljit_emit_op2u(c.c,op,a.a,a.w,b.a,b.w));},[=](St&s){bool zz,fv=s.fv;calc2(s,o.op,a,b,n,vt,zz,fv);s.z=zz;s.fv=fv;});
    }else{
      Opnd d;int k=R.below(10);if(k<3&&isReg(a)&&canWrite(a.a))d=a;else if(k<5&&isReg(b)&&canWrite(b.a))d=b;else if(k<6&&isMem(a))d=a;else if(k<7&&isMem(b))d=b;else d=dst(n,{b1(a),b2(a),b1(b),b2(b)});
      if(k>=7&&isReg(d)&&R.chance(30)){ // destination is the base or index of a source
        int q=isMem(a)?b1(a):isMem(b)?b1(b):0;if(q&&canWrite(q))d={q,0};}
      addv(sfmt("%s%s%s.%d %s, %s, %s",o.n,is32?"32":"",z?".z":"",vt,on(d).c_str(),on(a).c_str(),on(b).c_str()),[=](Ctx&c){c.ck(sljit_emit_op2(c.c,op,d.a,d.w,a.a,a.w,b.a,b.w));},[=](St&s){bool zz,fv=s.fv;u64 r=calc2(s,o.op,a,b,n,vt,zz,fv);u64 da=isMem(d)?addrOf(s,d):0;if(isMem(d))stm(s,da,n,r);else s.r[d.a]=r;s.z=zz;s.fv=fv;});
      setDst(d,n);}
    g.z=z;g.vt=vt;g.f32=is32;}
  static u64 calc2(St&s,int op,const Opnd&a,const Opnd&b,int n,int vt,bool&z,bool&fv){
    u64 x=rd(s,a,n),y=rd(s,b,n);
    if(b.a==SLJIT_IMM&&op>=SLJIT_SHL&&op<=SLJIT_ROTR)y&=n*8-1;
    return calc(op,x,y,n,fv,vt,z,fv,s.fault);}
  bool okReg(int r,int n){return n==4?g.rs[r]==H:(g.rs[r]==W||g.rs[r]==BASE);}
  void carryChain(){
    bool is32=R.chance(45);int n=is32?4:8;int len=R.range(1,3);
    bool sub=R.below(2);
    if(!(g.vt==SLJIT_CARRY&&g.f32==is32)){
      Opnd a=src(n),b=src(n,true,{b1(a),b2(a)});if(isReg(a)&&!okReg(a.a,n))a={SLJIT_IMM,(s64)(s32)val()};
      Opnd d=dst(n,{b1(a),b2(a),b1(b),b2(b)});
      bool z=R.chance(20);int op0=sub?SLJIT_SUB:SLJIT_ADD;int op=op0|SLJIT_SET_CARRY|(is32?SLJIT_32:0)|(z?SLJIT_SET_Z:0);
      addv(sfmt("%s%s.c %s, %s, %s",sub?"sub":"add",is32?"32":"",on(d).c_str(),on(a).c_str(),on(b).c_str()),[=](Ctx&c){c.ck(sljit_emit_op2(c.c,op,d.a,d.w,a.a,a.w,b.a,b.w));},[=](St&s){bool zz,fv=s.fv;u64 r=calc2(s,op0,a,b,n,SLJIT_CARRY,zz,fv);wrk(s,d,n,r);s.z=zz;s.fv=fv;});
      setDst(d,n);g.z=z;g.vt=SLJIT_CARRY;g.f32=is32;}
    for(int i=0;i<len;i++){
      // moves between keep the flags
      if(R.chance(30)){Opnd s{SLJIT_IMM,val()};Opnd m=memKeep(8);addv(sfmt("mov %s, %s",on(m).c_str(),on(s).c_str()),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,SLJIT_MOV,m.a,m.w,s.a,s.w));},[=](St&S){stm(S,addrOf(S,m),8,s.w);});}
      bool keep=i+1<len||R.chance(50);bool sb=R.chance(80)?sub:!sub;
      Opnd a=srcKeep(n),b=srcKeep(n,{b1(a),b2(a)});if(isReg(a)&&!okReg(a.a,n))a={SLJIT_IMM,(s64)(s32)val()};
      Opnd d;if(R.chance(30)&&isReg(a)&&canWrite(a.a))d=a;else if(R.chance(25)&&isReg(b)&&canWrite(b.a))d=b;else if(R.chance(20)&&isMem(a))d=a;else if(R.chance(30))d=memKeep(n,{b1(a),b2(a),b1(b),b2(b)});else d={wreg(),0};
      int op0=sb?SLJIT_SUBC:SLJIT_ADDC;int op=op0|(is32?SLJIT_32:0)|(keep?SLJIT_SET_CARRY:0);
      use(sb?"subc":"addc");
      addv(sfmt("%s%s%s %s, %s, %s",sb?"subc":"addc",is32?"32":"",keep?".c":"",on(d).c_str(),on(a).c_str(),on(b).c_str()),[=](Ctx&c){c.ck(sljit_emit_op2(c.c,op,d.a,d.w,a.a,a.w,b.a,b.w));},[=](St&s){bool zz,fv=s.fv;u64 r=calc2(s,op0,a,b,n,SLJIT_CARRY,zz,fv);wrk(s,d,n,r);s.z=zz;s.fv=fv;});
      setDst(d,n);g.z=false;g.vt=keep?SLJIT_CARRY:0;if(!keep)break;}}
  static void wrk(St&s,const Opnd&d,int n,u64 r){u64 da=isMem(d)?addrOf(s,d):0;if(isMem(d))stm(s,da,n,r);else s.r[d.a]=n==4?(u32)r:r;}
  Opnd srcKeep(int n,std::initializer_list<int> no={}){int k=R.below(10);if(k<3){s64 v=val();if(n==4)v=(s32)v;return{SLJIT_IMM,v};}if(k<6)return memKeep(n,no);int r=rreg(n==4?H:W,no);if(!r)return memKeep(n,no);return{r,0};}
  void muladd(){
    bool is32=R.chance(45);int n=is32?4:8;Opnd a=src(n),b=src(n,true,{b1(a),b2(a)});if(isReg(a)&&!okReg(a.a,n))a={SLJIT_IMM,(s64)(s32)val()};
    int d=0;for(int t=0;t<6;t++){int r=wreg();if(okReg(r,n)){d=r;break;}}if(!d){d=wregNot({b1(a),b2(a),b1(b),b2(b)});if(!d)return;movi(d,val(),is32?H:W);}
    use("muladd");int op=SLJIT_MULADD|(is32?SLJIT_32:0);
    addv(sfmt("muladd%s %s, %s, %s",is32?"32":"",rn(d).c_str(),on(a).c_str(),on(b).c_str()),[=](Ctx&c){c.ck(sljit_emit_op2r(c.c,op,d,a.a,a.w,b.a,b.w));},[=](St&s){u64 r=s.r[d]+rd(s,a,n)*rd(s,b,n);s.r[d]=n==4?(u32)r:r;});
    g.noFlags();g.rs[d]=is32?H:W;}
  void shiftInto(){
    bool is32=R.chance(45);int n=is32?4:8,bits=n*8,stt=is32?H:W;
    static const int t[]={SLJIT_SHL,SLJIT_MSHL,SLJIT_LSHR,SLJIT_MLSHR};int o=t[R.below(4)];
    Opnd k;bool masked=o==SLJIT_MSHL||o==SLJIT_MLSHR;int nz=0;
    if(masked){k=R.chance(40)?Opnd{SLJIT_IMM,(s64)R.below(bits)}:src(n,false);if(isMem(k)&&false)k={SLJIT_IMM,3};}
    else{s64 v=R.chance(20)?0:R.below(bits);if(v&&R.chance(50))nz=SLJIT_SHIFT_INTO_NON_ZERO;
      if(R.chance(40))k={SLJIT_IMM,v};
      else if(R.chance(70)){int r=g.nscr>=4&&canWrite(4)&&R.chance(40)?4:wreg();movi(r,v,stt);k={r,0};}
      else{Opnd m=memKeep(n);addv(sfmt("mov%s %s, #%lld",n==4?"32":"",on(m).c_str(),(long long)v),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,n==4?SLJIT_MOV32:SLJIT_MOV,m.a,m.w,SLJIT_IMM,v));},[=](St&s){stm(s,addrOf(s,m),n,v);});k=m;}}
    int a=rreg(stt,{b1(k),b2(k)});if(!a)return;if(isReg(k)&&R.chance(10))a=k.a;
    int b=R.chance(20)?a:rreg(stt,{b1(k),b2(k),a});if(!b||!okReg(a,n)||!okReg(b,n))return;if(isReg(k)&&R.chance(10))b=k.a;
    int d=R.chance(35)?a:isReg(k)&&R.chance(25)?k.a:isMem(k)&&R.chance(20)?b1(k):wreg();
    if(d==b||!canWrite(d)){d=wregNot({b});if(!d)return;}
    if(d==b||(isReg(k)&&!okReg(k.a,n)))return;
    int op=o|(is32?SLJIT_32:0)|nz;use("shift_into");
    addv(sfmt("shift_into%s.%d%s %s, %s, %s, %s",is32?"32":"",o-SLJIT_SHL,nz?".nz":"",rn(d).c_str(),rn(a).c_str(),rn(b).c_str(),on(k).c_str()),[=](Ctx&c){c.ck(sljit_emit_shift_into(c.c,op,d,a,b,k.a,k.w));},[=](St&s){
      u64 M=n==8?~0ull:0xffffffffull,x=s.r[a]&M,y=s.r[b]&M,q=rd(s,k,n);if(masked)q&=bits-1;else if(q>=(u64)bits){s.fault="model: shift_into out of range";return;}
      u64 r;if(o==SLJIT_SHL||o==SLJIT_MSHL)r=((x<<q)|((y>>1)>>(q^(bits-1))))&M;else r=((x>>q)|(((y<<1)&M)<<(q^(bits-1))))&M;s.r[d]=r;});
    g.rs[d]=stt;g.noFlags();}
  // ---- conditions
  int pickCond(){ // a condition the current flags define, or -1
    vector<int> v;if(g.z){v.push_back(SLJIT_EQUAL);v.push_back(SLJIT_NOT_EQUAL);}
    if(g.vt){v.push_back(g.vt);v.push_back(g.vt+1);v.push_back(g.vt);v.push_back(g.vt+1);}
    if(v.empty())return -1;return R.pick(v);}
  static bool ev(St&s,int t){return t<2?s.z^(t&1):s.fv^(t&1);}
  int needCond(){int c=pickCond();if(c>=0&&R.chance(80))return c;
    if(O.fp&&R.chance(30))fcmpFlags();else op2(R.chance(40),true);return pickCond();}
  void opFlags(){
    int cd=needCond();if(cd<0)return;
    static const int t[]={SLJIT_MOV,SLJIT_MOV32,SLJIT_AND,SLJIT_OR,SLJIT_XOR,SLJIT_AND32,SLJIT_OR32,SLJIT_XOR32};int op=t[R.below(8)];int base=op&~SLJIT_32;bool is32=op==SLJIT_MOV32||(op&SLJIT_32);int n=is32?4:8;
    bool mv=base==SLJIT_MOV||op==SLJIT_MOV32;Opnd d;
    if(R.chance(30))d=memKeep(n);else if(mv)d={wreg(),0};else{int r=0;for(int k=0;k<8;k++){int q=wreg();if(okReg(q,n)){r=q;break;}}if(!r){r=wreg();movi(r,val(),is32?H:W);}d={r,0};}
    bool z=!mv&&R.chance(40);int full=op|(z?SLJIT_SET_Z:0);use("op_flags");
    addv(sfmt("flags.%d%s %s, cond %d",base,is32?"32":"",on(d).c_str(),cd),[=](Ctx&c){c.ck(sljit_emit_op_flags(c.c,full,d.a,d.w,cd));},[=](St&s){
      u64 b=ev(s,cd);u64 r;if(mv)r=b;else{u64 a=isMem(d)?ldm(s,addrOf(s,d),n):(n==4?(u32)s.r[d.a]:s.r[d.a]);r=base==SLJIT_AND?a&b:base==SLJIT_OR?a|b:a^b;}
      wrk(s,d,n,r);if(!mv)s.z=(n==4?(u32)r:r)==0;});
    setDst(d,n);if(!mv){g.noFlags();g.z=z;}}
  void select(){
    int cd=needCond();if(cd<0)return;bool is32=R.chance(45);int n=is32?4:8;
    Opnd a=srcKeep(n);int b=rreg(is32?H:W,{b1(a),b2(a)});if(!b)return;if(isReg(a)&&!okReg(a.a,n))a={SLJIT_IMM,(s64)(s32)val()};
    int d=R.chance(30)&&canWrite(b)?b:R.chance(30)&&isReg(a)&&canWrite(a.a)?a.a:R.chance(20)&&isMem(a)&&b1(a)&&canWrite(b1(a))?b1(a):wreg();
    use("select");
    addv(sfmt("select%s.%d %s, %s, %s",is32?"32":"",cd,rn(d).c_str(),on(a).c_str(),rn(b).c_str()),[=](Ctx&c){c.ck(sljit_emit_select(c.c,cd|(is32?SLJIT_32:0),d,a.a,a.w,b));},[=](St&s){
      u64 x=rd(s,a,n),y=n==4?(u32)s.r[b]:s.r[b];s.r[d]=ev(s,cd)?x:y;});
    if((cd&~1)==SLJIT_CARRY)g.noFlags();
    g.rs[d]=is32?H:W;}
  // ---- memory with alignment, register pairs
  void memop(){
    if(R.chance(35)){ // pair
      bool stt=R.chance(45);static const int fl[]={0,SLJIT_MEM_UNALIGNED,SLJIT_MEM_ALIGNED_16,SLJIT_MEM_ALIGNED_32};int f=fl[R.below(4)];int al=f==0?8:f==SLJIT_MEM_UNALIGNED?1:f==SLJIT_MEM_ALIGNED_16?2:4;
      int a,b;Opnd m;
      if(stt){a=rreg(W);b=rreg(W,{a});if(!a||!b||a==b)return;m=memKeepN(16,al,{a,b});if(R.chance(10)&&b2(m)==0&&b1(m)&&g.rs[b1(m)]==BASE)a=b1(m);if(a==b)return;}
      else{m=memKeepN(16,al,{});a=wreg();b=wregNot({a});if(!b)return;if(R.chance(20)&&b1(m)&&canWrite(b1(m)))(R.below(2)?a:b)=b1(m);if(R.chance(15)&&b2(m)&&canWrite(b2(m)))(R.below(2)?a:b)=b2(m);if(a==b)return;}
      if((m.a&0x7f)==SLJIT_SP&&m.w+16>g.loc)return;
      int ty=SLJIT_MOV|f|(stt?SLJIT_MEM_STORE:0);use("mem pair");
      addv(sfmt("%s.pair.%x {%s,%s}, %s",stt?"store":"load",f,rn(a).c_str(),rn(b).c_str(),on(m).c_str()),[=](Ctx&c){c.ck(sljit_emit_mem(c.c,ty,SLJIT_REG_PAIR(a,b),m.a,m.w));},[=](St&s){
        u64 A=addrOf(s,m);if(stt){u64 x=s.r[a],y=s.r[b];stm(s,A,8,x);stm(s,A+8,8,y);}else{u64 x=ldm(s,A,8),y=ldm(s,A+8,8);s.r[a]=x;s.r[b]=y;}});
      if(!stt)g.rs[a]=g.rs[b]=W;return;}
    struct D{int op;int sz;bool sg;int st;int maxal;};static const D t[]={{SLJIT_MOV,8,0,W,4},{SLJIT_MOV_P,8,0,W,4},{SLJIT_MOV_U16,2,0,W,1},{SLJIT_MOV_S16,2,1,W,1},{SLJIT_MOV_U32,4,0,W,2},{SLJIT_MOV_S32,4,1,W,2},{SLJIT_MOV32,4,0,H,2},{SLJIT_MOV32_U16,2,0,H,1},{SLJIT_MOV32_S16,2,1,H,1},{SLJIT_MOV_U8,1,0,W,1},{SLJIT_MOV_S8,1,1,W,1}};
    D d=t[R.below(11)];int al=1;int f=SLJIT_MEM_UNALIGNED;if(d.maxal>=2&&R.chance(40)){al=2;f=SLJIT_MEM_ALIGNED_16;if(d.maxal>=4&&R.chance(50)){al=4;f=SLJIT_MEM_ALIGNED_32;}}
    bool stt=R.chance(50);int r;Opnd m;
    if(stt){r=rreg(d.st);if(!r)return;m=memKeepN(d.sz,al,{r});}else{m=memKeepN(d.sz,al,{});r=R.chance(20)&&b1(m)&&canWrite(b1(m))?b1(m):wreg();}
    int ty=d.op|f|(stt?SLJIT_MEM_STORE:0);use("mem unaligned");
    addv(sfmt("%s.%x.%x %s, %s",stt?"store":"load",d.op,f,rn(r).c_str(),on(m).c_str()),[=](Ctx&c){c.ck(sljit_emit_mem(c.c,ty,r,m.a,m.w));},[=](St&s){
      u64 A=addrOf(s,m);if(stt)stm(s,A,d.sz,s.r[r]);else{u64 v=ldm(s,A,d.sz);if(d.sg)v=sx(v,d.sz);s.r[r]=d.st==H?(u32)v:v;}});
    if(!stt)g.rs[r]=d.st;}
  Opnd memKeepN(int n,int al,std::initializer_list<int> no){return mem(n,no,false,al);}
  // ---- floats
  bool hasF(){return O.fp&&g.nf>0;}
  int freg(){return 1+R.below(g.nf);}
  void fset(int f,bool is32,u64 bits){
    if(is32){float x;u32 b=(u32)bits;memcpy(&x,&b,4);addv(sfmt("fset32 f%d, %x",f-1,b),[=](Ctx&c){c.ck(sljit_emit_fset32(c.c,f,x));},[=](St&s){memcpy(s.v[f],&b,4);});}
    else{double x;memcpy(&x,&bits,8);addv(sfmt("fset64 f%d, %llx",f-1,(unsigned long long)bits),[=](Ctx&c){c.ck(sljit_emit_fset64(c.c,f,x));},[=](St&s){memcpy(s.v[f],&bits,8);});}
    g.fs[f]=is32?4:8;}
  u64 fbitsQ(bool f32){for(;;){u64 b=fbits(f32);bool nan=f32?(b&0x7fffffff)>0x7f800000:(b&~(1ull<<63))>0x7ff0000000000000ull;if(!nan)return b;}}
  int frd(bool is32,std::initializer_list<int> no={}){vector<int> v;for(int f=1;f<=g.nf;f++){bool b=false;for(int x:no)b|=x==f;if(!b&&g.fs[f]==(is32?4:8))v.push_back(f);}if(!v.empty()&&!R.chance(8))return R.pick(v);int f=0;for(int k=0;k<20&&!f;k++){int q=freg();bool b=false;for(int x:no)b|=x==q;if(!b)f=q;}if(!f)return v.empty()?0:R.pick(v);fset(f,is32,fbits(is32));return f;}
  Opnd fsrc(bool is32,bool keep,std::initializer_list<int> no={}){if(R.chance(35)){
      // a fresh float value in memory, so that the operand is a number more often than not
      Opnd m=keep?memKeep(is32?4:8,no):mem(is32?4:8,no);if(R.chance(75)&&!(isMem(m)&&false)){u64 b=fbits(is32);s64 v=is32?(s64)(s32)b:(s64)b;int op=is32?SLJIT_MOV32:SLJIT_MOV;addv(sfmt("mov%s %s, #%lld",is32?"32":"",on(m).c_str(),(long long)v),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,op,m.a,m.w,SLJIT_IMM,v));},[=](St&s){stm(s,addrOf(s,m),is32?4:8,v);});}return m;}
    int f=frd(is32,{});if(!f)return mem(is32?4:8,no);return{f+100,0};} // +100 marks a float register
  static int fa(const Opnd&o){return o.a>100&&o.a<120?o.a-100:o.a;}
  static bool isF(const Opnd&o){return o.a>100&&o.a<120;}
  static u64 frdv(St&s,const Opnd&o,bool is32){u64 v=0;if(isF(o))memcpy(&v,s.v[o.a-100],is32?4:8);else v=ldm(s,addrOf(s,o),is32?4:8);return v;}
  static void fwrv(St&s,const Opnd&o,bool is32,u64 v){if(isF(o))memcpy(s.v[o.a-100],&v,is32?4:8);else stm(s,addrOf(s,o),is32?4:8,v);}
  string fn(const Opnd&o){return isF(o)?sfmt("f%d",o.a-101):on(o);}
  Opnd fdst(bool is32,bool keep,std::initializer_list<int> no={}){if(R.chance(25))return keep?memKeep(is32?4:8,no):mem(is32?4:8,no);return{freg()+100,0};}
  static bool isNan(u64 v,bool is32){return is32?((u32)v&0x7fffffff)>0x7f800000:(v&~(1ull<<63))>0x7ff0000000000000ull;}
  // a NaN produced by arithmetic has an unspecified payload: it is replaced by a constant straight away
  // (in code that may run more than once or not at all, always)
  void quiet(const Opnd&d,bool is32){
    bool kill=!live||safe;if(!kill){u64 v=frdv(st,d,is32);kill=isNan(v,is32);}
    if(!kill)return;
    u64 b=fbitsQ(is32);if(isF(d))fset(d.a-100,is32,b);else{s64 v=is32?(s64)(s32)b:(s64)b;int op=is32?SLJIT_MOV32:SLJIT_MOV;addv(sfmt("mov%s %s, #%lld",is32?"32":"",on(d).c_str(),(long long)v),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,op,d.a,d.w,SLJIT_IMM,v));},[=](St&s){stm(s,addrOf(s,d),is32?4:8,v);});}}
  // in such code a NaN is instead kept out of comparisons by selecting through an ordered test: simply do not let it in
  void fop(){
    if(!hasF())return;bool is32=R.chance(45);int n=is32?4:8;
    int k=R.below(16);
    if(k<3){ // mov neg abs
      int o=k==0?SLJIT_MOV_F64:R.below(2)?SLJIT_NEG_F64:SLJIT_ABS_F64;bool keep=o==SLJIT_MOV_F64;Opnd a=fsrc(is32,keep),d=fdst(is32,keep,{b1m(a),b2m(a)});if(isF(a)&&R.chance(25))d=a;
      int op=o|(is32?SLJIT_32:0);use(o==SLJIT_MOV_F64?"fmov":o==SLJIT_NEG_F64?"fneg":"fabs");
      addv(sfmt("fop1.%d%s %s, %s",o-SLJIT_FOP1_BASE,is32?"32":"",fn(d).c_str(),fn(a).c_str()),[=](Ctx&c){c.ck(sljit_emit_fop1(c.c,op,fa(d),d.w,fa(a),a.w));},[=](St&s){u64 v=frdv(s,a,is32),sg=1ull<<(n*8-1);if(o==SLJIT_NEG_F64)v^=sg;else if(o==SLJIT_ABS_F64)v&=~sg;fwrv(s,d,is32,v);});
      if(isF(d))g.fs[d.a-100]=n;if(!keep)g.noFlags();return;}
    if(k<8){ // arithmetic
      int o=SLJIT_ADD_F64+R.below(4);Opnd a=fsrc(is32,false),b=isMem(a)?fsrc(is32,false,{b1(a),b2(a)}):fsrc(is32,false);
      if(isMem(a)&&isMem(b)&&clash(a,b))return;if(isF(a)&&R.chance(12))b=a;
      if(isMem(a)&&!memStill(a))return;
      Opnd d;int q=R.below(8);if(q<2&&isF(a))d=a;else if(q<4&&isF(b))d=b;else d=fdst(is32,false,{b1m(a),b2m(a),b1m(b),b2m(b)});
      if(isF(a)&&g.fs[a.a-100]!=n)return;
      int op=o|(is32?SLJIT_32:0);static const char*nm[]={"fadd","fsub","fmul","fdiv"};use(nm[o-SLJIT_ADD_F64]);
      addv(sfmt("%s%s %s, %s, %s",nm[o-SLJIT_ADD_F64],is32?"32":"",fn(d).c_str(),fn(a).c_str(),fn(b).c_str()),[=](Ctx&c){c.ck(sljit_emit_fop2(c.c,op,fa(d),d.w,fa(a),a.w,fa(b),b.w));},[=](St&s){
        u64 x=frdv(s,a,is32),y=frdv(s,b,is32),r=0;
        if(is32){float p,q,z;memcpy(&p,&x,4);memcpy(&q,&y,4);z=o==SLJIT_ADD_F64?p+q:o==SLJIT_SUB_F64?p-q:o==SLJIT_MUL_F64?p*q:p/q;memcpy(&r,&z,4);}
        else{double p,q,z;memcpy(&p,&x,8);memcpy(&q,&y,8);z=o==SLJIT_ADD_F64?p+q:o==SLJIT_SUB_F64?p-q:o==SLJIT_MUL_F64?p*q:p/q;memcpy(&r,&z,8);}
        fwrv(s,d,is32,r);});
      if(isF(d))g.fs[d.a-100]=n;g.noFlags();quiet(d,is32);return;}
    if(k==8){ // copysign
      Opnd a=fsrc(is32,false),b=isMem(a)?fsrc(is32,false,{b1(a),b2(a)}):fsrc(is32,false);if(isMem(a)&&(!memStill(a)||(isMem(b)&&clash(a,b))))return;if(isF(a)&&g.fs[a.a-100]!=n)return;
      int d=R.chance(25)&&isF(a)?a.a-100:R.chance(25)&&isF(b)?b.a-100:freg();int op=SLJIT_COPYSIGN_F64|(is32?SLJIT_32:0);use("copysign");
      addv(sfmt("copysign%s f%d, %s, %s",is32?"32":"",d-1,fn(a).c_str(),fn(b).c_str()),[=](Ctx&c){c.ck(sljit_emit_fop2r(c.c,op,d,fa(a),a.w,fa(b),b.w));},[=](St&s){u64 x=frdv(s,a,is32),y=frdv(s,b,is32),sg=1ull<<(n*8-1);x=(x&~sg)|(y&sg);memcpy(s.v[d],&x,n);});
      g.fs[d]=n;g.noFlags();return;}
    if(k==9){fset(freg(),is32,fbits(is32));use("fset");return;}
    if(k==10){ // fcopy
      if(R.below(2)){int r=rreg(is32?H:W);if(!r)return;int f=freg();int op=is32?SLJIT_COPY32_TO_F32:SLJIT_COPY_TO_F64;use("fcopy to");
        addv(sfmt("fcopy%s f%d <- %s",is32?"32":"",f-1,rn(r).c_str()),[=](Ctx&c){c.ck(sljit_emit_fcopy(c.c,op,f,r));},[=](St&s){memcpy(s.v[f],&s.r[r],n);});g.fs[f]=n;}
      else{int f=frd(is32);if(!f)return;int r=wreg();int op=is32?SLJIT_COPY32_FROM_F32:SLJIT_COPY_FROM_F64;use("fcopy from");
        addv(sfmt("fcopy%s %s <- f%d",is32?"32":"",rn(r).c_str(),f-1),[=](Ctx&c){c.ck(sljit_emit_fcopy(c.c,op,f,r));},[=](St&s){u64 v=0;memcpy(&v,s.v[f],n);s.r[r]=v;});g.rs[r]=is32?H:W;}
      return;}
    if(k==11){ // f32 <-> f64
      bool to64=R.below(2);bool s32=to64;Opnd a=fsrc(s32,false),d=fdst(!to64,false,{b1m(a),b2m(a)});if(isF(a)&&R.chance(25))d=a;int op=to64?SLJIT_CONV_F64_FROM_F32:SLJIT_CONV_F32_FROM_F64;use(to64?"f64<-f32":"f32<-f64");
      addv(sfmt("%s %s, %s",to64?"f64<-f32":"f32<-f64",fn(d).c_str(),fn(a).c_str()),[=](Ctx&c){c.ck(sljit_emit_fop1(c.c,op,fa(d),d.w,fa(a),a.w));},[=](St&s){u64 x=frdv(s,a,s32),r=0;if(to64){float p;memcpy(&p,&x,4);double q=p;memcpy(&r,&q,8);}else{double p;memcpy(&p,&x,8);float q=(float)p;memcpy(&r,&q,4);}fwrv(s,d,!to64,r);});
      if(isF(d))g.fs[d.a-100]=to64?8:4;g.noFlags();quiet(d,!to64);return;}
    if(k<14){ // integer -> float
      int w=R.below(4);static const int ops[]={SLJIT_CONV_F64_FROM_SW,SLJIT_CONV_F64_FROM_S32,SLJIT_CONV_F64_FROM_UW,SLJIT_CONV_F64_FROM_U32};static const char*nm[]={"f<-sw","f<-s32","f<-uw","f<-u32"};
      int sn=w&1?4:8;Opnd a=src(sn);Opnd d=fdst(is32,false,{b1m(a),b2m(a),b1(a)});int op=ops[w]|(is32?SLJIT_32:0);use(nm[w]);
      if(isMem(d)&&isReg(a)&&!okReg(a.a,sn))return;
      addv(sfmt("%s%s %s, %s",nm[w],is32?"32":"",fn(d).c_str(),on(a).c_str()),[=](Ctx&c){c.ck(sljit_emit_fop1(c.c,op,fa(d),d.w,a.a,a.w));},[=](St&s){u64 x=rd(s,a,sn),r=0;
        if(is32){float f=w==0?(float)(s64)x:w==1?(float)(s32)x:w==2?(float)x:(float)(u32)x;memcpy(&r,&f,4);}else{double f=w==0?(double)(s64)x:w==1?(double)(s32)x:w==2?(double)x:(double)(u32)x;memcpy(&r,&f,8);}fwrv(s,d,is32,r);});
      if(isF(d))g.fs[d.a-100]=n;g.noFlags();return;}
    { // float -> integer, in range only
      bool w32=R.below(2);Opnd a=fsrc(is32,false);auto ok=[&](u64 v){if(isNan(v,is32))return false;double x;if(is32){float f;memcpy(&f,&v,4);x=f;}else memcpy(&x,&v,8);return w32?x>-2147483649.0&&x<2147483648.0:x>=-9223372036854775808.0&&x<9223372036854775808.0;};
      if(!live||safe||!ok(frdv(st,a,is32))){u64 b;int tr=0;do{b=fbitsQ(is32);if(tr++>50)b=0;}while(!ok(b));int f=freg();fset(f,is32,b);a={f+100,0};}
      int sn=w32?4:8;Opnd d=dst(sn,{b1m(a),b2m(a)});int op=(w32?SLJIT_CONV_S32_FROM_F64:SLJIT_CONV_SW_FROM_F64)|(is32?SLJIT_32:0);use(w32?"s32<-f":"sw<-f");
      addv(sfmt("%s%s %s, %s",w32?"s32<-f":"sw<-f",is32?"32":"",on(d).c_str(),fn(a).c_str()),[=](Ctx&c){c.ck(sljit_emit_fop1(c.c,op,d.a,d.w,fa(a),a.w));},[=](St&s){u64 v=frdv(s,a,is32);double x;if(is32){float f;memcpy(&f,&v,4);x=f;}else memcpy(&x,&v,8);u64 r=w32?(u64)(u32)(s32)x:(u64)(s64)x;wrk(s,d,sn,r);});
      setDst(d,sn);g.noFlags();}}
  static int b1m(const Opnd&o){return isMem(o)?b1(o):0;}static int b2m(const Opnd&o){return isMem(o)?b2(o):0;}
  // the set-up of b may have overwritten a register a uses
  bool clash(const Opnd&a,const Opnd&b){return touched(a);}
  bool touched(const Opnd&a){return!memStill(a);}
  bool memStill(const Opnd&a){ // still points into the buffers (only checked while values are known)
    if(!live)return memRegsOk(a);u64 A=addrOf(st,a);if(A>~0ull-64)return false;return(A>=(u64)HB&&A+16<=(u64)HB+WORK)||(A>=(u64)LB&&A+16<=(u64)LB+WORK)||(A>=LOCFAKE&&A+8<=LOCFAKE+(g.loc<64?0:g.loc<128?g.loc&~7:64))||(A>=LOCFAKE+g.loc-64&&g.loc>=128&&A-LOCFAKE>=(u64)((g.loc&~7)-64)&&A+8<=LOCFAKE+(g.loc&~7));}
  bool memRegsOk(const Opnd&a){int b=a.a&0x7f;return a.a==SLJIT_MEM||b==SLJIT_SP||(b==g.base&&!(a.a>>8));}
  static int fcb(int t){return t&~1;}
  static bool fcond(int t,double x,double y){
    bool u=isnan(x)||isnan(y);bool r;
    switch(t&~1){
    case SLJIT_F_EQUAL:case SLJIT_ORDERED_EQUAL:r=!u&&x==y;break;case SLJIT_F_LESS:case SLJIT_ORDERED_LESS:r=!u&&x<y;break;case SLJIT_F_GREATER:case SLJIT_ORDERED_GREATER:r=!u&&x>y;break;
    case SLJIT_UNORDERED:r=u;break;case SLJIT_UNORDERED_OR_EQUAL:r=u||x==y;break;case SLJIT_UNORDERED_OR_LESS:r=u||x<y;break;default:r=u||x>y;}
    return r^(t&1);}
  static double todbl(u64 v,bool is32){if(is32){float f;memcpy(&f,&v,4);return f;}double d;memcpy(&d,&v,8);return d;}
  bool fpair(bool is32,Opnd&a,Opnd&b,bool&basicOk){
    a=fsrc(is32,false);b=isMem(a)?fsrc(is32,false,{b1(a),b2(a)}):fsrc(is32,false);if(isMem(a)&&!memStill(a))return false;if(isF(a)&&R.chance(10))b=a;if(isF(a)&&g.fs[a.a-100]!=(is32?4:8))return false;
    basicOk=live&&!safe&&!isNan(frdv(st,a,is32),is32)&&!isNan(frdv(st,b,is32),is32);return true;}
  void fcmpFlags(){
    if(!hasF())return;bool is32=R.chance(45);Opnd a,b;bool ok;if(!fpair(is32,a,b,ok))return;
    static const int basic[]={SLJIT_F_EQUAL,SLJIT_F_LESS,SLJIT_F_GREATER},ord[]={SLJIT_UNORDERED,SLJIT_ORDERED_EQUAL,SLJIT_ORDERED_LESS,SLJIT_ORDERED_GREATER,SLJIT_UNORDERED_OR_EQUAL,SLJIT_UNORDERED_OR_LESS,SLJIT_UNORDERED_OR_GREATER};
    int t=ok&&R.chance(40)?basic[R.below(3)]:ord[R.below(7)];int op=SLJIT_CMP_F64|(is32?SLJIT_32:0)|SLJIT_SET(t);use("fcmp flags");
    addv(sfmt("fcmp%s.%d %s, %s",is32?"32":"",t,fn(a).c_str(),fn(b).c_str()),[=](Ctx&c){c.ck(sljit_emit_fop1(c.c,op,fa(a),a.w,fa(b),b.w));},[=](St&s){s.fv=fcond(t,todbl(frdv(s,a,is32),is32),todbl(frdv(s,b,is32),is32));});
    g.noFlags();g.vt=t;}
  void fselect(){
    if(!hasF())return;int cd=needCond();if(cd<0)return;bool is32=R.chance(45);int n=is32?4:8;
    int b=frd(is32);if(!b)return;Opnd a=fsrc(is32,true);if(g.fs[b]!=n)return;
    int d=R.chance(30)?b:isF(a)&&R.chance(30)?a.a-100:freg();use("fselect");
    addv(sfmt("fselect%s.%d f%d, %s, f%d",is32?"32":"",cd,d-1,fn(a).c_str(),b-1),[=](Ctx&c){c.ck(sljit_emit_fselect(c.c,cd|(is32?SLJIT_32:0),d,fa(a),a.w,b));},[=](St&s){u64 x=frdv(s,a,is32),y=frdv(s,Opnd{b+100,0},is32);u64 r=ev(s,cd)?x:y;memcpy(s.v[d],&r,n);});
    if((cd&~1)==SLJIT_CARRY)g.noFlags();
    g.fs[d]=n;}
  void fmem(){
    if(!hasF())return;bool is32=R.chance(45);int n=is32?4:8;int al=1,f=SLJIT_MEM_UNALIGNED;if(R.chance(50)){al=2;f=SLJIT_MEM_ALIGNED_16;if(!is32&&R.chance(50)){al=4;f=SLJIT_MEM_ALIGNED_32;}}
    bool stt=R.below(2);int r=stt?frd(is32):freg();if(!r)return;Opnd m=mem(n,{},false,al);int ty=(is32?SLJIT_MOV_F32:SLJIT_MOV_F64)|f|(stt?SLJIT_MEM_STORE:0);use("fmem");
    addv(sfmt("f%s%s.%x f%d, %s",stt?"store":"load",is32?"32":"",f,r-1,on(m).c_str()),[=](Ctx&c){c.ck(sljit_emit_fmem(c.c,ty,r,m.a,m.w));},[=](St&s){if(stt)fwrv(s,m,is32,frdv(s,Opnd{r+100,0},is32));else{u64 v=frdv(s,m,is32);memcpy(s.v[r],&v,n);}});
    if(!stt)g.fs[r]=n;}
  // ---- control
  int newLab(){return P.nlab++;}
  int newJmp(){return P.njmp++;}
  void label(int l,bool aligned=false){
    P.labPc[l]=curPc();int al=R.below(5);
    add(sfmt("L%d:",l),[=](Ctx&c){if((int)c.lab.size()<=l)c.lab.resize(l+1,nullptr);sljit_label*p=aligned?sljit_emit_aligned_label(c.c,al,nullptr):sljit_emit_label(c.c);c.ck(p);c.lab[l]=p;},[](St&){return -1;});
    g.noFlags();}
  static void linkAll(Ctx&c){for(auto&k:c.link){if(k.first<(int)c.jmp.size()&&c.jmp[k.first]&&k.second<(int)c.lab.size()&&c.lab[k.second])sljit_set_label(c.jmp[k.first],c.lab[k.second]);}}
  static void setJ(Ctx&c,int j,sljit_jump*p,int l){c.ck(p);if((int)c.jmp.size()<=j)c.jmp.resize(j+1,nullptr);c.jmp[j]=p;c.link.push_back({j,l});}
  // emits a conditional jump of a random kind to l; returns true if taken (when live)
  bool condJump(int l){
    int k=R.below(10);bool rw=R.chance(12);int j=newJmp();int rwf=rw?SLJIT_REWRITABLE_JUMP:0;
    auto done=[&]{if(!live)return false;return st.steps>=0&&lastTaken;};
    if(k<3){int cd=needCond();if(cd>=0){use("jump cond");
      addJ(sfmt("jump.%d L%d",cd,l),[=](Ctx&c){setJ(c,j,sljit_emit_jump(c.c,cd|rwf),l);},[=](St&s){return ev(s,cd)?l:-1;});if((cd&~1)==SLJIT_CARRY)g.noFlags();return done();}}
    if(k<6){bool is32=R.chance(45);int n=is32?4:8;Opnd a=src(n),b=src(n,true,{b1(a),b2(a)});if(isReg(a)&&!okReg(a.a,n))a={SLJIT_IMM,(s64)(s32)val()};if(isMem(a)&&!memStill(a))a={SLJIT_IMM,(s64)(s32)val()};
      int t=R.below(10);if(R.chance(20))b={SLJIT_IMM,0};use("cmp");
      addJ(sfmt("cmp%s.%d %s, %s -> L%d",is32?"32":"",t,on(a).c_str(),on(b).c_str(),l),[=](Ctx&c){setJ(c,j,sljit_emit_cmp(c.c,t|(is32?SLJIT_32:0)|rwf,a.a,a.w,b.a,b.w),l);},[=](St&s){return cond(t,rd(s,a,n),rd(s,b,n),n)?l:-1;});
      g.noFlags();return done();}
    if(k<8&&hasF()){bool is32=R.chance(45);Opnd a,b;bool ok;if(fpair(is32,a,b,ok)){
      int t=ok&&R.chance(40)?SLJIT_F_EQUAL+R.below(6):SLJIT_UNORDERED+R.below(14);use("fcmp");
      addJ(sfmt("fcmp%s.%d %s, %s -> L%d",is32?"32":"",t,fn(a).c_str(),fn(b).c_str(),l),[=](Ctx&c){setJ(c,j,sljit_emit_fcmp(c.c,t|(is32?SLJIT_32:0)|rwf,fa(a),a.w,fa(b),b.w),l);},[=](St&s){return fcond(t,todbl(frdv(s,a,is32),is32),todbl(frdv(s,b,is32),is32))?l:-1;});
      g.noFlags();return done();}}
    { // operation compared with zero
      bool is32=R.chance(45);int n=is32?4:8;static const int t[]={SLJIT_ADD,SLJIT_SUB,SLJIT_AND,SLJIT_OR,SLJIT_XOR,SLJIT_MSHL,SLJIT_MLSHR,SLJIT_MASHR};int o=t[R.below(8)];
      Opnd a=src(n),b=R.chance(20)?a:src(n,true,{b1(a),b2(a)});if(isReg(a)&&!okReg(a.a,n))a={SLJIT_IMM,(s64)(s32)val()};if(isMem(a)&&!memStill(a))a={SLJIT_IMM,(s64)(s32)val()};if(isMem(b)&&!memStill(b))b={SLJIT_IMM,0};
      if(o>=SLJIT_SHL&&b.a==SLJIT_IMM)b.w&=n*8-1;
      Opnd d;if(R.chance(40)&&isReg(a)&&canWrite(a.a))d=a;else d=dst(n,{b1(a),b2(a),b1(b),b2(b)});if(isMem(d)&&!memStill(d))return condJump(l);
      bool jz=R.below(2);int vt=0;bool z;if(R.chance(30))flagsFor(o,vt,z,false);int op=o|(is32?SLJIT_32:0)|(jz?SLJIT_JUMP_IF_ZERO:0)|rwf|(vt?SLJIT_SET(vt):0);use("op2cmpz");
      addJ(sfmt("op2cmpz.%d%s %s, %s, %s %s L%d",o-SLJIT_OP2_BASE,is32?"32":"",on(d).c_str(),on(a).c_str(),on(b).c_str(),jz?"zero":"nonzero",l),[=](Ctx&c){setJ(c,j,sljit_emit_op2cmpz(c.c,op,d.a,d.w,a.a,a.w,b.a,b.w),l);},[=](St&s){bool zz,fv=s.fv;u64 r=calc2(s,o,a,b,n,vt,zz,fv);wrk(s,d,n,r);s.fv=fv;return zz==jz?l:-1;});
      setDst(d,n);g.noFlags();g.vt=vt;if(vt==SLJIT_CARRY)g.vt=0;return done();}}
  bool lastTaken=false;
  // a jump: executed here only for its effect and outcome
  void addJ(const string&t,std::function<void(Ctx&)> e,std::function<int(St&)> x){P.ops.push_back({e,x,t});lastTaken=false;if(live){st.steps++;int r=x(st);lastTaken=r>=0;}}
  void block(int n){depth++;for(int i=0;i<n;i++)step();depth--;}
  // code that is not reached with the values known here
  void detached(std::function<void()> f){bool l=live,s=safe;St keep;if(l)keep=st;live=false;safe=true;f();live=l;safe=s;if(l)st=keep;}
  void mergeStates(const G&o){ // at a join: what holds on both paths
    for(int r=1;r<20;r++){if(g.rs[r]!=o.rs[r])g.rs[r]=(g.rs[r]==BASE||o.rs[r]==BASE)?BASE:U;if(g.fs[r]!=o.fs[r])g.fs[r]=U;}g.noFlags();}
  void ifElse(){
    int le=newLab(),lend=newLab();bool els=R.chance(35);use("if");
    bool taken=condJump(els?le:lend);bool wasLive=live;G g0=g;int n=R.range(1,4);
    if(live&&taken)detached([&]{block(n);});else block(n);
    G g1=g;
    if(els){int j=newJmp();
      std::function<int(St&)> x=[=](St&){return lend;};P.ops.push_back({[=](Ctx&c){setJ(c,j,sljit_emit_jump(c.c,SLJIT_JUMP),lend);},x,sfmt("jump L%d",lend)});
      g=g0;label(le);
      if(wasLive&&!taken)detached([&]{block(n);});else block(n);
      mergeStates(g1);
      label(lend);}
    else{label(lend);mergeStates(g0);}
    g.noFlags();}
  // make the state at the end of a loop or before a subroutine call what its beginning assumed
  void fix(const G&pre){
    for(int r=1;r<=NREG;r++){if(!valid(r)||pre.rs[r]==BASE||pre.rs[r]==CNT)continue;if(pre.rs[r]==W&&g.rs[r]!=W)movi(r,val(),W);else if(pre.rs[r]==H&&g.rs[r]!=H)movi(r,val(),H);}
    for(int f=1;f<=NFREG;f++){if(pre.fs[f]==4&&g.fs[f]!=4)fset(f,true,fbits(true));else if(pre.fs[f]==8&&g.fs[f]!=8)fset(f,false,fbits(false));}
    for(int f=1;f<=NFREG;f++)if(pre.fs[f]>8)g.fs[f]=g.fs[f];}
  void dropV(G&x){for(int f=1;f<=NFREG;f++)if(x.fs[f]>8)x.fs[f]=U;}
  void dropLP(G&x){for(int r=1;r<=NREG;r++)if(x.rs[r]==LP||x.rs[r]==U)x.rs[r]=U;}
  void loop(){
    int c=wreg();if(g.rs[c]==BASE)return;int cnt=R.range(1,4);bool c32=R.below(2);use("loop");
    int kind=R.below(3);movi(c,cnt,c32?H:W);g.rs[c]=CNT;
    int l=newLab();bool wasLive=live;int startPc=curPc();
    label(l);dropV(g);dropLP(g);G pre=g;
    detached([&]{block(R.range(1,4));fix(pre);
      int op=SLJIT_SUB|(c32?SLJIT_32:0);int n=c32?4:8;int j=newJmp();
      if(kind==0){addv(sfmt("sub.z %s, %s, 1",rn(c).c_str(),rn(c).c_str()),[=](Ctx&x){x.ck(sljit_emit_op2(x.c,op|SLJIT_SET_Z,c,0,c,0,SLJIT_IMM,1));},[=](St&s){s.r[c]=n==4?(u32)(s.r[c]-1):s.r[c]-1;s.z=s.r[c]==0;});
        P.ops.push_back({[=](Ctx&x){setJ(x,j,sljit_emit_jump(x.c,SLJIT_NOT_ZERO),l);},[=](St&s){return!s.z?l:-1;},sfmt("jump.nz L%d",l)});}
      else if(kind==1)P.ops.push_back({[=](Ctx&x){setJ(x,j,sljit_emit_op2cmpz(x.c,op,c,0,c,0,SLJIT_IMM,1),l);},[=](St&s){s.r[c]=n==4?(u32)(s.r[c]-1):s.r[c]-1;return s.r[c]?l:-1;},sfmt("op2cmpz sub %s, 1 L%d",rn(c).c_str(),l)});
      else{addv(sfmt("sub %s, %s, 1",rn(c).c_str(),rn(c).c_str()),[=](Ctx&x){x.ck(sljit_emit_op2(x.c,op,c,0,c,0,SLJIT_IMM,1));},[=](St&s){s.r[c]=n==4?(u32)(s.r[c]-1):s.r[c]-1;});
        P.ops.push_back({[=](Ctx&x){setJ(x,j,sljit_emit_cmp(x.c,SLJIT_NOT_EQUAL|(c32?SLJIT_32:0),c,0,SLJIT_IMM,0),l);},[=](St&s){return s.r[c]?l:-1;},sfmt("cmp %s != 0 L%d",rn(c).c_str(),l)});}});
    g.rs[c]=c32?H:W;g.noFlags();
    if(wasLive)run(startPc,curPc());}
  // local subroutines (fast calls)
  struct Sub{int lab;G pre,post;};vector<Sub> subs;
  void makeSub(){
    int over=newLab(),j=newJmp();use("sub");
    {std::function<int(St&)> x=[=](St&){return over;};P.ops.push_back({[=](Ctx&c){setJ(c,j,sljit_emit_jump(c.c,SLJIT_JUMP),over);},x,sfmt("jump L%d",over)});}
    Sub s;s.lab=newLab();G out=g;
    detached([&]{
      label(s.lab);dropV(g);dropLP(g);
      bool inReg=R.chance(60);int rr=0;Opnd slot{SLJIT_MEM0(),(s64)(LB+BUF-64)};
      if(inReg){rr=wreg();if(g.rs[rr]==BASE)inReg=false;else{g.rs[rr]=U;}}
      if(!inReg&&g.base&&R.below(2))slot={SLJIT_MEM1(g.base),BUF-64};
      s.pre=g;if(inReg)g.rs[rr]=CNT;
      int ra=inReg?rr:slot.a;s64 rw=inReg?0:slot.w;
      addv("fast_enter",[=](Ctx&c){c.ck(sljit_emit_op_dst(c.c,SLJIT_FAST_ENTER,ra,rw));},[](St&){});
      block(R.range(1,4));
      P.ops.push_back({[=](Ctx&c){c.ck(sljit_emit_op_src(c.c,SLJIT_FAST_RETURN,ra,rw));},[](St&s){if(s.fast.empty()){s.fault="model: fast return";return -1;}int p=s.fast.back();s.fast.pop_back();return 1000000+p;},"fast_return"});
      if(inReg)g.rs[rr]=U;s.post=g;});
    g=out;label(over);subs.push_back(s);}
  void callSub(){
    if(subs.empty())return;Sub s=R.pick(subs);
    for(int r=1;r<=NREG;r++)if(g.rs[r]==CNT)return; // not inside a counted loop or another subroutine
    fix(s.pre);int j=newJmp();int back=curPc()+1;bool ind=R.chance(40);int l=s.lab;use("fast call");
    if(!ind){add(sfmt("fast_call L%d",l),[=](Ctx&c){setJ(c,j,sljit_emit_jump(c.c,SLJIT_FAST_CALL),l);},[=](St&t){t.fast.push_back(back);return l;});}
    else{ // through an address
      int r=0;for(int k=0;k<30;k++){int q=wreg();if(s.pre.rs[q]==U){r=q;break;}}
      Opnd m{SLJIT_MEM0(),(s64)(LB+BUF-128)};int da=r?r:m.a;s64 dw=r?0:m.w;
      addv(sfmt("mov_addr L%d",l),[=](Ctx&c){setJ(c,j,sljit_emit_op_addr(c.c,SLJIT_MOV_ADDR,da,dw),l);},[](St&){});
      int bk=curPc()+1;
      add(sfmt("ifast_call L%d",l),[=](Ctx&c){c.ck(sljit_emit_ijump(c.c,SLJIT_FAST_CALL,da,dw));},[=](St&t){t.fast.push_back(bk);return l;});}
    g=mergePost(s.post);g.noFlags();}
  G mergePost(const G&p){G x=p;for(int r=1;r<=NREG;r++)if(g.rs[r]==BASE)x.rs[r]=BASE;return x;}
  void ijump(){ // jump through an address of a label further on
    int l=newLab(),j=newJmp();int r=R.chance(60)?wreg():0;Opnd m{SLJIT_MEM0(),(s64)(LB+BUF-128)};if(!r&&g.base&&R.below(2))m={SLJIT_MEM1(g.base),BUF-128};int da=r?r:m.a;s64 dw=r?0:m.w;int mode=R.below(2);
    use("ijump");
    addv(sfmt("mov_addr -> L%d",l),[=](Ctx&c){setJ(c,j,sljit_emit_op_addr(c.c,mode?SLJIT_MOV_ABS_ADDR:SLJIT_MOV_ADDR,da,dw),l);},[](St&){});
    if(r)g.rs[r]=U;
    {std::function<int(St&)> x=[=](St&){return l;};P.ops.push_back({[=](Ctx&c){c.ck(sljit_emit_ijump(c.c,SLJIT_JUMP,da,dw));},x,sfmt("ijump L%d",l)});}
    G k=g;detached([&]{block(R.range(1,2));});g=k;label(l);}
  void rewrite(){ // a jump whose target is replaced after generation
    int l1=newLab(),l2=newLab(),j=newJmp();use("rewritable jump");
    bool rw=!O.ser||true;
    P.rew.push_back({j,l2});
    {std::function<int(St&)> x=[=](St&){return l2;};P.ops.push_back({[=](Ctx&c){setJ(c,j,sljit_emit_jump(c.c,SLJIT_JUMP|SLJIT_REWRITABLE_JUMP),l1);},x,sfmt("rewritable jump L%d, later L%d",l1,l2)});}
    (void)rw;G k=g;detached([&]{block(1);label(l1);block(R.range(1,2));});g=k;label(l2);}
  void constant(){
    static const int t[]={SLJIT_MOV,SLJIT_MOV32,SLJIT_MOV_S32,SLJIT_MOV_U8,SLJIT_MOV32_U8};int op=t[R.below(5)];
    // with a memory destination only the forms whose width is plain are used
    bool m=R.chance(30)&&op!=SLJIT_MOV_S32;Opnd d=m?memKeep(op==SLJIT_MOV?8:op==SLJIT_MOV32?4:1):Opnd{wreg(),0};
    s64 v1=val(),v2=val();auto norm=[&](s64 v)->s64{switch(op){case SLJIT_MOV:return v;case SLJIT_MOV32:case SLJIT_MOV_S32:return(s32)v;default:return(s64)(v&0x1ff)<<55>>55;}};
    v1=norm(v1);v2=norm(v2);if(R.chance(15))v1=0;bool patch=R.chance(60);int id=P.ncon++;P.consts.push_back({id,op,v2,patch});s64 v=patch?v2:v1;use("const");
    bool is32=op==SLJIT_MOV32||op==SLJIT_MOV32_U8;
    if(((op|SLJIT_32)==SLJIT_MOV32_U8)&&v1<0&&m){}
    addv(sfmt("const.%d%s %s, #%lld then #%lld",op&0xff,is32?"32":"",on(d).c_str(),(long long)v1,(long long)v),[=](Ctx&c){if((int)c.con.size()<=id)c.con.resize(id+1,nullptr);sljit_const*k=sljit_emit_const(c.c,op,d.a,d.w,v1);c.ck(k);c.con[id]=k;},[=](St&s){
      if(isMem(d))stm(s,addrOf(s,d),op==SLJIT_MOV?8:op==SLJIT_MOV32?4:1,v);else s.r[d.a]=is32?(u32)v:v;});
    if(isReg(d))g.rs[d.a]=is32?H:W;}
  void readOnly(){ // data placed in the code and read back through its address
    if(!g.nscr)return;int n=R.range(1,3);vector<int> sz;vector<int> labs;int tot=0;for(int i=0;i<n;i++){int z=R.range(1,40);sz.push_back(z);labs.push_back(newLab());tot+=z;}
    int over=newLab(),j=newJmp(),al=R.below(5);use("read-only data");
    {std::function<int(St&)> x=[=](St&){return over;};P.ops.push_back({[=](Ctx&c){setJ(c,j,sljit_emit_jump(c.c,SLJIT_JUMP),over);},x,sfmt("jump L%d",over)});}
    vector<std::shared_ptr<sljit_read_only_buffer>> bufs;for(int i=0;i<n;i++)bufs.push_back(std::make_shared<sljit_read_only_buffer>());
    P.labPc[labs[0]]=curPc();
    P.ops.push_back({[=](Ctx&c){for(int i=0;i<n;i++){bufs[i]->next=i+1<n?bufs[i+1].get():nullptr;bufs[i]->size=sz[i];bufs[i]->u.label=nullptr;}
      sljit_label*p=sljit_emit_aligned_label(c.c,al,bufs[0].get());c.ck(p);for(int i=0;i<n;i++){int l=labs[i];if((int)c.lab.size()<=l)c.lab.resize(l+1,nullptr);c.lab[l]=bufs[i]->u.label;}},[](St&){return -1;},sfmt("read-only buffers x%d",n)});
    for(int i=0;i<n;i++){ROBuf b;b.lab=labs[i];for(int k=0;k<sz[i];k++)b.data.push_back((u8)R.next());P.ro.push_back(b);P.labPc[labs[i]]=curPc();}
    label(over);
    for(int i=0;i<n;i++){int r=wreg();vector<u8> D=P.ro[P.ro.size()-n+i].data;int off=R.below(sz[i]);int lb=labs[i];int jj=newJmp();int addm=R.below(2);
      if(addm){s64 k=(s64)R.below(1000)-500;movi(r,k,W);addv(sfmt("add_abs_addr %s, L%d",rn(r).c_str(),lb),[=](Ctx&c){setJ(c,jj,sljit_emit_op_addr(c.c,SLJIT_ADD_ABS_ADDR,r,0),lb);},[](St&){});g.noFlags();
        int q=wreg();addv(sfmt("mov.u8 %s, [%s%+lld]",rn(q).c_str(),rn(r).c_str(),(long long)(off-k)),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,SLJIT_MOV_U8,q,0,SLJIT_MEM1(r),off-k));},[=](St&s){s.r[q]=D[off];});g.rs[r]=U;g.rs[q]=W;}
      else{addv(sfmt("mov_abs_addr %s, L%d",rn(r).c_str(),lb),[=](Ctx&c){setJ(c,jj,sljit_emit_op_addr(c.c,SLJIT_MOV_ABS_ADDR,r,0),lb);},[](St&){});
        int q=wreg();addv(sfmt("mov.u8 %s, [%s+%d]",rn(q).c_str(),rn(r).c_str(),off),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,SLJIT_MOV_U8,q,0,SLJIT_MEM1(r),off));},[=](St&s){s.r[q]=D[off];});g.rs[r]=U;g.rs[q]=W;}}}
  // ---- calls of C functions
  int mkArgs(vector<int>&ty,int maxI,int maxF){int t=0,ni=0,nf=0;int n=R.below(5);for(int i=0;i<n;i++){int k=R.below(5)+1;if(k>=4){if(nf>=maxF)k=1;}if(k<4){if(ni>=maxI)continue;ni++;}else nf++;ty.push_back(k);t|=SLJIT_ARG_VALUE(k,(int)ty.size());}return t;}
  void prepArgs(const vector<int>&ty,bool baseFirst=false){
    int ri=1,fi=1;for(int k:ty){
      if(k>=4){bool is32=k==SLJIT_ARG_TYPE_F32;if(g.fs[fi]!=(is32?4:8))fset(fi,is32,fbits(is32));fi++;}
      else{bool h=k==SLJIT_ARG_TYPE_32;if(g.rs[ri]==BASE){} else if(h?g.rs[ri]!=H:g.rs[ri]!=W)movi(ri,val(),h?H:W);else if(R.chance(10))movi(ri,val(),h?H:W);ri++;}}}
  int intScr(){int n=0;for(int r=1;r<=g.nscr&&r<=4;r++)n++;return n;}
  void clobberScratch(){for(int r=1;r<=g.nscr;r++)if(g.rs[r]!=BASE)g.rs[r]=U;else g.rs[r]=U;for(int f=1;f<=NFREG;f++)g.fs[f]=U;g.noFlags();}
  static Rec mkRec(St&s,const vector<int>&ty,int fn){Rec q;memset(&q,0,sizeof q);q.fn=fn;int ri=1,fi=1;for(int k:ty){if(k>=4){u64 v=0;bool is32=k==SLJIT_ARG_TYPE_F32;memcpy(&v,s.v[fi],is32?4:8);q.f[q.nf]=v;q.fw[q.nf++]=is32?4:8;fi++;}else{bool h=k==SLJIT_ARG_TYPE_32;q.i[q.ni]=h?(u32)s.r[ri]:s.r[ri];q.w[q.ni++]=h?4:8;ri++;}}return q;}
  void icall(bool tail=false){
    if(!O.calls)return;
    if(g.base&&g.base<=g.nscr)return; // the base must survive: only with a saved register
    for(int r=1;r<=g.nscr;r++)if(g.rs[r]==CNT)return;
    vector<int> ty;int at=mkArgs(ty,intScr(),std::min(g.nf,4));
    for(size_t i=0,ri=1;i<ty.size();i++)if(ty[i]<4){if(g.rs[ri]==BASE||g.rs[ri]==CNT)return;ri++;}
    int rt;if(tail)rt=P.retType;else{rt=R.below(6);if((rt==4||rt==5)&&!g.nf)rt=0;if(rt>=1&&rt<=3&&!g.nscr)rt=0;}
    prepArgs(ty);int fnI=R.below(2);u64 fnA=(u64)(fnI?(void*)lir_cb1:(void*)lir_cb0);
    // where the address comes from
    int kind=R.below(6);int sr=0;Opnd m;
    int nint=0;for(int k:ty)nint+=k<4;
    if(kind==1||kind==2){vector<int> c;for(int r:regs())if(canWrite(r)&&!(r<=nint))c.push_back(r);if(tail){vector<int> c2;for(int r:c)if(r<=g.nscr)c2.push_back(r);c=c2;}if(c.empty())kind=0;else{sr=R.pick(c);movi(sr,(s64)fnA,W);}}
    if(kind==3){m=g.base&&R.below(2)&&!tail?Opnd{SLJIT_MEM1(g.base),BUF-192}:Opnd{SLJIT_MEM0(),(s64)(LB+BUF-192)};s64 fa_=(s64)fnA;Opnd mm=m;addv(sfmt("mov %s, fn",on(m).c_str()),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,SLJIT_MOV,mm.a,mm.w,SLJIT_IMM,fa_));},[=](St&s){});}
    bool dup=false;if(kind==1&&nint>0&&R.chance(10)){ // the function's address is itself an argument
      sr=R.range(1,nint);if(canWrite(sr)){int q=0,ri=0;for(int k:ty)if(k<4){ri++;if(ri==sr)q=k;}if(q==SLJIT_ARG_TYPE_W||q==SLJIT_ARG_TYPE_P){movi(sr,(s64)fnA,W);dup=true;}}if(!dup)kind=0;}
    int j=newJmp();int ct=SLJIT_CALL|(tail?SLJIT_CALL_RETURN:0);int rwf=R.chance(30)?SLJIT_REWRITABLE_JUMP:0;auto*Pp=&P;(void)Pp;
    vector<u64> ri=P.cbRetI,rf=P.cbRetF;use(tail?"tail call":"call");
    string t=sfmt("%s ret %d args %x fn%d kind %d",tail?"tail_call":"call",rt,at,fnI,kind);
    auto ex=[=](St&s){s.log.push_back(mkRec(s,ty,fnI));int k=s.nret++;u64 I=ri[k%ri.size()],F=rf[k%rf.size()];
      if(tail){if(rt>=1&&rt<=3)s.retI=I;if(rt>=4)memcpy(s.retF,&F,8);return -2;}
      if(rt>=1&&rt<=3)s.r[1]=rt==SLJIT_ARG_TYPE_32?(u32)I:I;if(rt>=4)memcpy(s.v[1],&F,8);return -1;};
    std::function<void(Ctx&)> em;
    if(kind==1||kind==2)em=[=](Ctx&c){c.ck(sljit_emit_icall(c.c,ct,at|rt,sr,0));};
    else if(kind==3)em=[=](Ctx&c){c.ck(sljit_emit_icall(c.c,ct,at|rt,m.a,m.w));};
    else if(kind==4)em=[=](Ctx&c){sljit_jump*p=sljit_emit_call(c.c,ct|rwf,at|rt);c.ck(p);if((int)c.jmp.size()<=j)c.jmp.resize(j+1,nullptr);c.jmp[j]=p;if(p)sljit_set_target(p,fnA);};
    else em=[=](Ctx&c){c.ck(sljit_emit_icall(c.c,ct,at|rt,SLJIT_IMM,(s64)fnA));};
    if(tail){P.ops.push_back({em,ex,t});return;}
    add(t,em,ex);
    clobberScratch();
    if(rt>=1&&rt<=3)g.rs[1]=rt==SLJIT_ARG_TYPE_32?H:W;
    if(rt>=4)g.fs[1]=rt==SLJIT_ARG_TYPE_F32?4:8;}
  // ---- functions of the program called by it
  struct Fn{int lab;vector<int> ty;int at;int rt;bool regarg;int keep;};vector<Fn> fns;
  void enterOp(int opts,int at,int nscr,int nsav,int nf,int nv,int loc,const vector<int>&ty,bool callee,bool vex){
    int keep=(opts&SLJIT_ENTER_REG_ARG)?opts&3:0;int sc=nscr|SLJIT_ENTER_FLOAT(nf)|SLJIT_ENTER_VECTOR(nv);
    int full=opts|(vex?SLJIT_ENTER_USE_VEX:0);
    string t=sfmt("enter opts %x args %x scratches %d saveds %d floats %d vectors %d local %d%s",opts,at,nscr,nsav,nf,nv,loc,vex?" vex":"");
    P.ops.push_back({[=](Ctx&c){c.ck(sljit_emit_enter(c.c,full,at,sc,nsav,loc));},[=](St&s){
      if(callee){if(s.fr.empty()){s.fault="model: entered without a call";return -1;}
        // integer arguments go from R registers to where the types say
        u64 a[4];int ni=0;for(int k:ty)if((k&7)<4){a[ni]=s.r[ni+1];ni++;}
        int sv=0,ii=0;if(!(opts&SLJIT_ENTER_REG_ARG))for(int k:ty)if((k&7)<4){if(k&8)s.r[1+ii]=a[ii];else s.r[NREG-sv++]=a[ii];ii++;}}
      s.loc.assign(loc,0);return -1;},t});
    g=G();g.nscr=nscr;g.nsav=nsav;g.nf=nf;g.nv=nv;g.loc=loc;g.base=0;(void)keep;
    int sv=0,ri=1,fi=1;for(int k:ty){if((k&7)>=4){g.fs[fi++]=(k&7)==SLJIT_ARG_TYPE_F32?4:8;}else{int stt=(k&7)==SLJIT_ARG_TYPE_32?H:W;if((opts&SLJIT_ENTER_REG_ARG)||(k&8))g.rs[ri]=stt;else g.rs[NREG-sv++]=stt;ri++;}}}
  void initLocals(){
    if(g.loc<64)return;vector<int> offs;int w=g.loc<128?g.loc&~7:64;for(int o=0;o+8<=w;o+=8)offs.push_back(o);if(g.loc>=128)for(int o=0;o<64;o+=8)offs.push_back((g.loc&~7)-64+o);
    for(int o:offs){s64 v=R.chance(50)?(s64)(s32)R.next():(s64)R.next();addv(sfmt("mov [sp+%d], #%lld",o,(long long)v),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,SLJIT_MOV,SLJIT_MEM1(SLJIT_SP),o,SLJIT_IMM,v));},[=](St&s){memcpy(&s.loc[o],&v,8);});}
    if(g.loc<128&&(g.loc&7)){} }
  void layout(int&nscr,int&nsav,int&nf,int&nv,int&loc,int minScr,int minSav){
    nsav=R.range(std::max(minSav,0),std::min(6,SLJIT_NUMBER_OF_SAVED_REGISTERS));nscr=R.range(std::max(2,minScr),NREG-nsav);if(R.chance(30))nscr=NREG-nsav;
    nf=O.fp?(R.chance(40)?R.range(1,4):R.range(1,NFREG)):0;if(nf&&nf<4&&R.chance(50))nf=4;nv=O.simd?(R.chance(50)?0:R.range(1,NFREG)):0;
    switch(R.below(6)){case 0:loc=0;break;case 1:loc=R.range(1,63);break;case 2:case 3:loc=R.range(8,16)*8;break;case 4:loc=R.range(64,3000);break;default:loc=O.big?R.range(0,SLJIT_MAX_LOCAL_SIZE/64)*64:256;if(R.chance(60))loc=R.range(4000,12000);}}
  void makeFn(){
    if(!O.calls)return;Fn f;f.lab=newLab();f.regarg=R.chance(40);f.keep=f.regarg?R.below(4):0;
    int nscr,nsav,nf,nv,loc;layout(nscr,nsav,nf,nv,loc,4,std::max(2,f.keep));if(nscr+nsav>NREG)nscr=NREG-nsav;if(nscr<4){nsav=NREG-4-3;nscr=4;}
    if(f.keep>nsav)f.keep=nsav;
    vector<int> ty;int at=0;int n=R.below(5),ni=0,nfl=0;for(int i=0;i<n;i++){int k=R.below(5)+1;if(k>=4){if(nfl>=nf||nfl>=4)k=1;else nfl++;}if(k<4){if(ni>=4)continue;ni++;}
      int kk=k;if(k<4&&(f.regarg||R.chance(40)))kk|=8;ty.push_back(kk);at|=SLJIT_ARG_VALUE(kk,(int)ty.size());}
    int svn=0;for(int k:ty)if((k&7)<4&&!(k&8))svn++;if(svn>nsav)return;
    f.rt=R.below(6);if(f.rt>=4&&!nf)f.rt=0;f.at=0;{int i=1;for(int k:ty)f.at|=SLJIT_ARG_VALUE(k&7,i++);}f.ty=ty;for(auto&k:f.ty)k&=7;use(f.regarg?"fn regarg":"fn");
    G out=g;vector<Sub> ks=subs;subs.clear();
    detached([&]{
      label(f.lab);
      int opts=f.regarg?SLJIT_ENTER_REG_ARG|f.keep:0;
      enterOp(opts,at|f.rt,nscr,nsav,nf,nv,loc,ty,true,false);
      for(int k=0;k<f.keep;k++)g.rs[NREG-k]=BASE; // shared with the caller: left alone except by plan
      initLocals();
      if(R.chance(60)){vector<int> c;for(int r:regs())if(r>NREG-g.nsav&&g.rs[r]==U)c.push_back(r);if(!c.empty()){int b=R.pick(c);movi(b,(s64)(R.below(2)?HB:LB),W);g.rs[b]=BASE;g.base=b;}}
      block(R.range(1,5));
      ret(f.rt,true,f.keep,nsav);});
    g=out;subs=ks;fns.push_back(f);}
  // return of a function of the program (callee) or of the program itself
  void ret(int rt,bool callee,int keep,int nsav){
    if(rt==0){P.ops.push_back({[=](Ctx&c){c.ck(sljit_emit_return_void(c.c));},[=](St&s){return leave(s,callee,keep);},"return"});return;}
    if(rt>=4){bool is32=rt==SLJIT_ARG_TYPE_F32;Opnd a=fsrc(is32,false);int op=is32?SLJIT_MOV_F32:SLJIT_MOV_F64;
      P.ops.push_back({[=](Ctx&c){c.ck(sljit_emit_return(c.c,op,fa(a),a.w));},[=](St&s){u64 v=frdv(s,a,is32);memcpy(s.retF,&v,8);int p=leave(s,callee,keep);if(callee)memcpy(s.v[1],&v,8);return p;},"freturn "+fn(a)});return;}
    static const int w[]={SLJIT_MOV,SLJIT_MOV_U8,SLJIT_MOV_S8,SLJIT_MOV_U16,SLJIT_MOV_S16,SLJIT_MOV_U32,SLJIT_MOV_S32},h[]={SLJIT_MOV32,SLJIT_MOV32_U8,SLJIT_MOV32_S8,SLJIT_MOV32_U16,SLJIT_MOV32_S16};
    int op=rt==SLJIT_ARG_TYPE_P?SLJIT_MOV_P:rt==SLJIT_ARG_TYPE_32?h[R.below(5)]:w[R.chance(50)?0:R.below(7)];
    int sz=8;bool sg=false;switch(op&~SLJIT_32){case SLJIT_MOV_U8:sz=1;break;case SLJIT_MOV_S8:sz=1;sg=true;break;case SLJIT_MOV_U16:sz=2;break;case SLJIT_MOV_S16:sz=2;sg=true;break;case SLJIT_MOV_U32:sz=4;break;case SLJIT_MOV_S32:sz=4;sg=true;break;}
    if(op==SLJIT_MOV32){sz=4;sg=false;}
    Opnd a;int k=R.below(10);if(k<2){s64 v=val();a={SLJIT_IMM,rt==SLJIT_ARG_TYPE_32||sz==4?(s64)(s32)v:v};}else if(k<5)a=mem(sz);else{int r=rreg(rt==SLJIT_ARG_TYPE_32?H:W);if(!r)a={SLJIT_IMM,5};else a={r,0};}
    bool r32=rt==SLJIT_ARG_TYPE_32;use("return");
    P.ops.push_back({[=](Ctx&c){c.ck(sljit_emit_return(c.c,op,a.a,a.w));},[=](St&s){u64 v=rd(s,a,sz);if(sg)v=sx(v,sz);if(r32)v=(u32)v;s.retI=v;int p=leave(s,callee,keep);if(callee)s.r[1]=v;return p;},sfmt("return.%d%s %s",op&0xff,op&SLJIT_32?"32":"",on(a).c_str())});}
  static int leave(St&s,bool callee,int keep){
    if(!callee)return -2;if(s.fr.empty()){s.fault="model: return without a call";return -1;}
    Frame f=s.fr.back();s.fr.pop_back();for(int r=NREG-f.nsav+1;r<=NREG;r++)if(NREG-r>=f.keep)s.r[r]=f.r[r];s.loc=f.loc;return 1000000+f.ret;}
  void callFn(){
    if(fns.empty()||!O.calls)return;Fn f=R.pick(fns);
    if(g.base&&g.base<=g.nscr)return;for(int r=1;r<=g.nscr;r++)if(g.rs[r]==CNT)return;
    if(f.keep>g.nsav)return;
    int ni=0,nf=0;for(int k:f.ty){if(k>=4)nf++;else ni++;}if(ni>g.nscr||nf>g.nf)return;if(f.rt>=4&&!g.nf)return;
    // registers shared with the callee hold whole words
    for(int k=0;k<f.keep;k++){int r=NREG-k;if(g.rs[r]==CNT)return;if(g.rs[r]!=W&&g.rs[r]!=BASE){if(!canWrite(r))return;movi(r,val(),W);}}
    prepArgs(f.ty);int j=newJmp();int back=curPc()+1;int l=f.lab;int rt=f.rt;int mysav=g.nsav;int keep=f.keep;int cty=f.regarg?SLJIT_CALL_REG_ARG:SLJIT_CALL;int at=f.at|rt;
    auto ex=[=](St&s){Frame fr;memcpy(fr.r,s.r,sizeof fr.r);fr.loc=s.loc;fr.ret=back;fr.nsav=mysav;fr.keep=keep;s.fr.push_back(fr);return l;};
    int kind=R.below(3);use(f.regarg?"call fn regarg":"call fn");
    if(kind<2)add(sfmt("call L%d%s",l,f.regarg?" (regarg)":""),[=](Ctx&c){setJ(c,j,sljit_emit_call(c.c,cty,at),l);},ex);
    else{ // through an address
      vector<int> cand;for(int r:regs())if(canWrite(r)&&r>ni&&r<=NREG-keep)cand.push_back(r);if(cand.empty())return;int r=R.pick(cand);
      addv(sfmt("mov_addr %s, L%d",rn(r).c_str(),l),[=](Ctx&c){setJ(c,j,sljit_emit_op_addr(c.c,SLJIT_MOV_ADDR,r,0),l);},[](St&){});
      int bk=curPc()+1;auto ex2=[=](St&s){int q=ex(s);s.fr.back().ret=bk;return q;};
      add(sfmt("icall %s (L%d)%s",rn(r).c_str(),l,f.regarg?" (regarg)":""),[=](Ctx&c){c.ck(sljit_emit_icall(c.c,cty,at,r,0));},ex2);
      g.rs[r]=U;}
    clobberScratch();
    if(rt>=1&&rt<=3)g.rs[1]=rt==SLJIT_ARG_TYPE_32?H:W;if(rt>=4)g.fs[1]=rt==SLJIT_ARG_TYPE_F32?4:8;}
  // ---- atomics
  void atomic(){
    if(!O.atomic)return;
    struct D{int op;int sz;int st;};static const D t[]={{SLJIT_MOV,8,W},{SLJIT_MOV_P,8,W},{SLJIT_MOV_U8,1,W},{SLJIT_MOV_U16,2,W},{SLJIT_MOV_U32,4,W},{SLJIT_MOV32,4,H},{SLJIT_MOV32_U8,1,H},{SLJIT_MOV32_U16,2,H}};D d=t[R.below(8)];
    int cas=R.chance(40)?SLJIT_ATOMIC_USE_CAS:0;
    int ld=wreg();int mr=wregNot({ld});if(!mr)return;u64 A=(u64)(R.below(2)?HB:LB)+R.below(200)*8;movi(mr,(s64)A,W);g.rs[mr]=CNT;use("atomic");
    int tmp=wregNot({ld,mr}),sr=wregNot({ld,mr,tmp});if(!tmp||!sr){g.rs[mr]=U;return;}
    bool tmpIsLd=R.chance(40);if(tmpIsLd)tmp=ld;
    addv(sfmt("atomic_load.%x %s, [%s]",d.op,rn(ld).c_str(),rn(mr).c_str()),[=](Ctx&c){c.ck(sljit_emit_atomic_load(c.c,d.op|cas,ld,mr));},[=](St&s){s.r[ld]=ldm(s,s.r[mr],d.sz);});
    g.rs[ld]=d.st;g.noFlags();
    if(!tmpIsLd){int o=d.st==H?SLJIT_MOV32:SLJIT_MOV;addv(sfmt("mov %s, %s",rn(tmp).c_str(),rn(ld).c_str()),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,o,tmp,0,ld,0));},[=](St&s){s.r[tmp]=s.r[ld];});g.rs[tmp]=d.st;}
    if(tmpIsLd||R.chance(50)||g.rs[sr]!=d.st){movi(sr,val(),d.st);}
    if(!tmpIsLd&&R.chance(30))sr=ld;
    if(!tmpIsLd&&R.chance(20)){ // another writer got in between: changed memory, the store must fail (only through registers the pair does not use)
    }
    bool fl=R.chance(70);int op=d.op|cas|(fl?SLJIT_SET_ATOMIC_STORED:0);
    // compare-and-swap with an expectation that does not match
    bool miss=cas&&R.chance(35);if(miss){movi(tmp,(s64)R.next(),d.st);}
    bool m2=R.chance(15)&&sr!=mr&&false;(void)m2;
    addv(sfmt("atomic_store.%x%s %s, [%s], %s",d.op,cas?".cas":"",rn(sr).c_str(),rn(mr).c_str(),rn(tmp).c_str()),[=](Ctx&c){c.ck(sljit_emit_atomic_store(c.c,op,sr,mr,tmp));},[=](St&s){u64 M=d.sz==8?~0ull:(1ull<<(8*d.sz))-1;u64 cur=ldm(s,s.r[mr],d.sz);bool ok=(s.r[tmp]&M)==cur;if(ok)stm(s,s.r[mr],d.sz,s.r[sr]);s.fv=ok;});
    g.noFlags();if(fl)g.vt=SLJIT_ATOMIC_STORED;g.rs[mr]=W;if(miss)g.rs[tmp]=U;
    if(!live||safe)if(miss||true)g.rs[tmp]=miss?U:g.rs[tmp];}
  // ---- vectors
  static int vsz(int t){return 1<<((t>>12)&0x3f);}
  bool hasV(){return O.simd&&g.nv>0;}
  int vrd(int n,std::initializer_list<int> no={}){vector<int> v;for(int f=1;f<=g.nv;f++){bool b=false;for(int x:no)b|=x==f;if(!b&&g.fs[f]>=16&&g.fs[f]>=n)v.push_back(f);}if(!v.empty()&&!R.chance(8))return R.pick(v);return vload(n);}
  int vload(int n){int f=1+R.below(g.nv);Opnd m=mem(n,{},false,1);int ty=(n==32?SLJIT_SIMD_REG_256:SLJIT_SIMD_REG_128)|SLJIT_SIMD_ELEM_8;
    addv(sfmt("vload%d v%d, %s",n*8,f-1,on(m).c_str()),[=](Ctx&c){c.ck(sljit_emit_simd_mov(c.c,ty,f,m.a,m.w));},[=](St&s){memcpy(s.v[f],s.tr(addrOf(s,m),n),n);});g.fs[f]=n;return f;}
  // is this form offered? (asked of the library itself with a compiler that has the same context)
  sljit_compiler*tc=nullptr;bool vex=false;
  ~Gen(){if(tc)sljit_free_compiler(tc);}
  sljit_compiler*T(){if(!tc){tc=sljit_create_compiler(nullptr);sljit_emit_enter(tc,vex?SLJIT_ENTER_USE_VEX:0,0,NREG-6|SLJIT_ENTER_FLOAT(NFREG)|SLJIT_ENTER_VECTOR(NFREG),6,0);}return tc;}
  void simd(){
    if(!hasV())return;int n=O.avx&&R.chance(40)&&sljit_has_cpu_feature(SLJIT_HAS_AVX2)?32:16;int rt=n==32?SLJIT_SIMD_REG_256:SLJIT_SIMD_REG_128;
    int es=R.below(4);bool fl=es>=2&&R.chance(40);int ty=rt|(es<<18)|(fl?SLJIT_SIMD_FLOAT:0);int E=1<<es;int k=R.below(9);
    auto S=[&](int e){return e==SLJIT_SUCCESS;};
    if(k==0){int f=1+R.below(g.nv);bool stt=R.below(2);if(stt){f=vrd(n);if(!f)return;}
      int al=R.below(3);int alf=al==0?SLJIT_SIMD_MEM_UNALIGNED:al==1?SLJIT_SIMD_MEM_ALIGNED_128:SLJIT_SIMD_MEM_ALIGNED_64;if(al==1&&n==32)alf=SLJIT_SIMD_MEM_ALIGNED_256;
      Opnd m=mem(n,{},false,al==1?n:al==2?8:1);if(al==1)m=alignedMem(n);ty|=alf|(stt?SLJIT_SIMD_STORE:0);if(!S(sljit_emit_simd_mov(T(),ty|SLJIT_SIMD_TEST,1,SLJIT_MEM0(),0)))return;use("simd mov mem");
      addv(sfmt("v%s.%x v%d, %s",stt?"store":"load",ty,f-1,on(m).c_str()),[=](Ctx&c){c.ck(sljit_emit_simd_mov(c.c,ty,f,m.a,m.w));},[=](St&s){if(stt)memcpy(s.tr(addrOf(s,m),n),s.v[f],n);else memcpy(s.v[f],s.tr(addrOf(s,m),n),n);});if(!stt)g.fs[f]=n;}
    else if(k==1){int a=vrd(n);int d=1+R.below(g.nv);bool stt=R.below(2);ty|=stt?SLJIT_SIMD_STORE:0;if(!S(sljit_emit_simd_mov(T(),ty|SLJIT_SIMD_TEST,1,2,0)))return;use("simd mov");
      addv(sfmt("vmov.%x v%d, v%d",ty,d-1,a-1),[=](Ctx&c){c.ck(stt?sljit_emit_simd_mov(c.c,ty,a,d,0):sljit_emit_simd_mov(c.c,ty,d,a,0));},[=](St&s){memmove(s.v[d],s.v[a],n);});g.fs[d]=n;}
    else if(k==2){int d=1+R.below(g.nv);use("simd replicate");
      if(fl){ // from a float register, memory or zero
        int q=R.below(3);Opnd a;bool is32=es==2;if(q==0)a={SLJIT_IMM,0};else if(q==1){if(!g.nf)return;int f=frd(is32);if(!f)return;a={f+100,0};if(d>g.nf&&false)return;}else a=mem(E,{},false);
        if(!S(sljit_emit_simd_replicate(T(),ty|SLJIT_SIMD_TEST,1,q==0?SLJIT_IMM:q==1?1:SLJIT_MEM0(),0)))return;
        addv(sfmt("vrep.%x v%d, %s",ty,d-1,fn(a).c_str()),[=](Ctx&c){c.ck(sljit_emit_simd_replicate(c.c,ty,d,fa(a),a.w));},[=](St&s){u64 v=a.a==SLJIT_IMM?0:frdv(s,a,is32);for(int i=0;i<n;i+=E)memcpy(s.v[d]+i,&v,E);});}
      else{Opnd a;int q=R.below(3);if(q==0)a={SLJIT_IMM,R.chance(30)?(R.below(2)?0:-1):es==3?val():(s64)(s32)val()};else if(q==1){int r=rreg(es==3?W:R.below(2)?W:H);if(!r)return;a={r,0};}else a=mem(E,{},false);
        if(!S(sljit_emit_simd_replicate(T(),ty|SLJIT_SIMD_TEST,1,q==0?SLJIT_IMM:q==1?1:SLJIT_MEM0(),a.a==SLJIT_IMM?a.w:0)))return;
        addv(sfmt("vrep.%x v%d, %s",ty,d-1,on(a).c_str()),[=](Ctx&c){c.ck(sljit_emit_simd_replicate(c.c,ty,d,a.a,a.w));},[=](St&s){u64 v=rd(s,a,E);for(int i=0;i<n;i+=E)memcpy(s.v[d]+i,&v,E);});}
      g.fs[d]=n;}
    else if(k==3||k==4){ // lane moves
      int ln=n/E;int li=R.below(ln);bool stt=R.below(2);bool zero=!stt&&R.chance(35);bool sg=stt&&!fl&&R.chance(40);bool r32=!fl&&es<=2&&R.chance(40);use(stt?"simd lane store":"simd lane load");
      ty|=(stt?SLJIT_SIMD_STORE:0)|(zero?SLJIT_SIMD_LANE_ZERO:0)|(sg?SLJIT_SIMD_LANE_SIGNED:0)|(r32?SLJIT_32:0);
      int v;if(stt){v=vrd(n);if(!v)return;}else v=zero&&R.chance(40)?1+R.below(g.nv):vrd(n);if(!v)return;
      Opnd o;bool is32=es==2;
      if(fl){if(R.below(2)||!g.nf)o=mem(E,{},false);else if(stt){int f=1+R.below(g.nf);o={f+100,0};}else{int f=frd(is32,{v});if(!f||(!zero&&g.fs[v]<n))return;o={f+100,0};}}
      else if(R.below(3)==0)o=mem(E,{},false);else if(stt)o={wreg(),0};else if(R.chance(25))o={SLJIT_IMM,es==3?val():(s64)(s32)val()};else{int r=rreg(r32?H:W);if(!r)return;o={r,0};}
      if(!zero&&g.fs[v]<n)return;
      if(!S(sljit_emit_simd_lane_mov(T(),ty|SLJIT_SIMD_TEST,1,li,isMem(o)?SLJIT_MEM0():o.a==SLJIT_IMM?SLJIT_IMM:2,0)))return;
      if(fl&&isF(o)&&stt&&o.a-100==v&&false)return;
      addv(sfmt("vlane%s.%x v%d[%d], %s",stt?"store":"load",ty,v-1,li,fl?fn(o).c_str():on(o).c_str()),[=](Ctx&c){c.ck(sljit_emit_simd_lane_mov(c.c,ty,v,li,fl?fa(o):o.a,o.w));},[=](St&s){
        if(stt){u64 x=0;memcpy(&x,s.v[v]+li*E,E);if(fl)fwrv(s,o,is32,x);else if(isMem(o))stm(s,addrOf(s,o),E,x);else{if(sg)x=sx(x,E);s.r[o.a]=r32?(u32)x:x;}}
        else{u64 x=fl?frdv(s,o,is32):rd(s,o,E);if(zero)memset(s.v[v],0,n);memcpy(s.v[v]+li*E,&x,E);}});
      if(stt){if(fl&&isF(o))g.fs[o.a-100]=E;else if(isReg(o)&&!fl)g.rs[o.a]=r32?H:W;}else g.fs[v]=n;}
    else if(k==5){int a=vrd(n);if(!a)return;int d=1+R.below(g.nv);int ln=n/E,li=R.below(ln);if(!S(sljit_emit_simd_lane_replicate(T(),ty|SLJIT_SIMD_TEST,1,2,li)))return;use("simd lane replicate");
      addv(sfmt("vlanerep.%x v%d, v%d[%d]",ty,d-1,a-1,li),[=](Ctx&c){c.ck(sljit_emit_simd_lane_replicate(c.c,ty,d,a,li));},[=](St&s){u8 x[8];memcpy(x,s.v[a]+li*E,E);for(int i=0;i<n;i+=E)memcpy(s.v[d]+i,x,E);});g.fs[d]=n;}
    else if(k==6){ // extend
      int e2=es+1+R.below(3-es>0?3-es:1);if(e2>3)return;bool sg=!fl&&R.below(2);int t=rt|(es<<18)|(e2<<24)|(fl?SLJIT_SIMD_FLOAT:0)|(sg?SLJIT_SIMD_EXTEND_SIGNED:0);int E2=1<<e2,cnt=n/E2,sb=cnt*E;
      if(fl){float z;for(int q=0;q<1;q++)(void)z;if(es!=2)return;}
      bool mm=R.below(2);Opnd o;int a=0;if(mm)o=mem(sb,{},false,R.chance(70)?sb:1);else{a=vrd(16);if(!a)return;}
      if(!S(sljit_emit_simd_extend(T(),t|SLJIT_SIMD_TEST,1,mm?SLJIT_MEM0():2,0)))return;use("simd extend");int d=1+R.below(g.nv);
      if(fl){ // values must not be NaN (payload): write known numbers first
        if(!mm)return;u64 A=(u64)HB+R.below(100)*16;o={SLJIT_MEM0(),(s64)A};for(int i=0;i<cnt;i++){u32 b=(u32)fbitsQ(true);addv("mov32 float",[=](Ctx&c){c.ck(sljit_emit_op1(c.c,SLJIT_MOV32,SLJIT_MEM0(),(s64)(A+i*4),SLJIT_IMM,(s32)b));},[=](St&s){stm(s,A+i*4,4,b);});}}
      Opnd oo=o;addv(sfmt("vext.%x v%d, %s",t,d-1,mm?on(o).c_str():sfmt("v%d",a-1).c_str()),[=](Ctx&c){c.ck(sljit_emit_simd_extend(c.c,t,d,mm?oo.a:a,mm?oo.w:0));},[=](St&s){u8 x[32],r[32];if(mm)memcpy(x,s.tr(addrOf(s,oo),sb),sb);else memcpy(x,s.v[a],sb);
        for(int i=0;i<cnt;i++){if(fl){float p;memcpy(&p,x+4*i,4);double q=p;memcpy(r+8*i,&q,8);}else{u64 v=0;memcpy(&v,x+i*E,E);if(sg)v=sx(v,E);memcpy(r+i*E2,&v,E2);}}memcpy(s.v[d],r,n);});g.fs[d]=n;}
    else if(k==7){ // sign bits
      int a=vrd(n);if(!a)return;bool r32=R.below(2);ty|=SLJIT_SIMD_STORE|(r32?SLJIT_32:0);if(!S(sljit_emit_simd_sign(T(),ty|SLJIT_SIMD_TEST,1,2,0)))return;use("simd sign");int dn=r32?4:8;
      // a word destination in memory receives a word
      Opnd d=R.chance(30)?mem(dn,{},false):Opnd{wreg(),0};
      addv(sfmt("vsign.%x %s, v%d",ty,on(d).c_str(),a-1),[=](Ctx&c){c.ck(sljit_emit_simd_sign(c.c,ty,a,d.a,d.w));},[=](St&s){u64 r=0;for(int i=0;i<n/E;i++)r|=(u64)(s.v[a][i*E+E-1]>>7)<<i;wrk(s,d,dn,r);});
      if(isReg(d))g.rs[d.a]=r32?H:W;}
    else{int o=R.below(4)+1;int t=rt|o;if(o!=SLJIT_SIMD_OP2_SHUFFLE)t|=(es<<18)|(fl?SLJIT_SIMD_FLOAT:0);if(o==SLJIT_SIMD_OP2_SHUFFLE&&n==32)return;
      int a=vrd(n);if(!a)return;bool mm=R.chance(40);Opnd m;int b=0;if(mm)m=mem(n,{},false,1);else{b=vrd(n);if(!b||g.fs[a]<n)return;}
      if(o==SLJIT_SIMD_OP2_SHUFFLE){ // indices in range
        if(!live||safe)return;u64 A=(u64)HB+R.below(100)*16;for(int i=0;i<2;i++){s64 v=(s64)(R.next()&0x0f0f0f0f0f0f0f0full);addv("mov indices",[=](Ctx&c){c.ck(sljit_emit_op1(c.c,SLJIT_MOV,SLJIT_MEM0(),(s64)(A+8*i),SLJIT_IMM,v));},[=](St&s){stm(s,A+8*i,8,v);});}
        mm=true;m={SLJIT_MEM0(),(s64)A};
        if(R.below(2)){int f=1+R.below(g.nv);if(f==a)return;Opnd q=m;addv(sfmt("vload v%d",f-1),[=](Ctx&c){c.ck(sljit_emit_simd_mov(c.c,SLJIT_SIMD_REG_128,f,q.a,q.w));},[=](St&s){memcpy(s.v[f],s.tr(addrOf(s,q),16),16);});g.fs[f]=16;b=f;mm=false;}}
      if(!S(sljit_emit_simd_op2(T(),t|SLJIT_SIMD_TEST,1,2,mm?SLJIT_MEM0():3,0)))return;
      int d=R.chance(30)?a:b&&R.chance(30)?b:1+R.below(g.nv);use("simd op2");Opnd q=m;
      addv(sfmt("vop2.%x v%d, v%d, %s",t,d-1,a-1,mm?on(m).c_str():sfmt("v%d",b-1).c_str()),[=](Ctx&c){c.ck(sljit_emit_simd_op2(c.c,t,d,a,mm?q.a:b,mm?q.w:0));},[=](St&s){u8 x[32],y[32],r[32];memcpy(x,s.v[a],n);if(mm)memcpy(y,s.tr(addrOf(s,q),n),n);else memcpy(y,s.v[b],n);for(int i=0;i<n;i++)r[i]=o==1?x[i]&y[i]:o==2?x[i]|y[i]:o==3?x[i]^y[i]:x[y[i]&15];memcpy(s.v[d],r,n);});g.fs[d]=n;}}
  Opnd alignedMem(int n){u64 A=(u64)(R.below(2)?HB:LB)+R.below(100)*n;return{SLJIT_MEM0(),(s64)A};}
  void prefetch(){static const int t[]={SLJIT_PREFETCH_L1,SLJIT_PREFETCH_L2,SLJIT_PREFETCH_L3,SLJIT_PREFETCH_ONCE};int op=t[R.below(4)];Opnd m=memKeep(8);addv(sfmt("prefetch %s",on(m).c_str()),[=](Ctx&c){c.ck(sljit_emit_op_src(c.c,op,m.a,m.w));},[](St&){});}
  // ---- one random step
  void step(){
    if(curPc()>700)return;
    int k=R.below(100);
    if(k<16)op1();else if(k<34)op2();else if(k<38)op2(true);else if(k<42)carryChain();else if(k<45)muladd();else if(k<49)shiftInto();else if(k<53)op0();
    else if(k<57)opFlags();else if(k<61)select();else if(k<64)memop();else if(k<74)fop();else if(k<76)fselect();else if(k<77)fmem();else if(k<78)prefetch();
    else if(k<82)simd();else if(k<84)atomic();else if(k<86&&O.consts)constant();
    else if(k<88&&O.ctl&&O.consts&&depth<1)readOnly();
    else if(k<92&&O.ctl&&depth<3)ifElse();else if(k<94&&O.ctl&&depth<2)loop();else if(k<95&&O.ctl&&depth<2)ijump();else if(k<96&&O.ctl&&O.consts&&depth<2)rewrite();
    else if(k<97)callSub();else if(k<98)callFn();else icall();}
  void program(){
    for(int i=0;i<8;i++){P.cbRetI.push_back((u64)val());P.cbRetF.push_back(fbits(false));}
    for(auto&x:P.cbRetF){ // as f32 the low half, as f64 the whole: keep both numbers
      (void)x;}
    for(int i=0;i<BUF;i+=8){u64 a=R.next(),b=R.next();if(R.chance(40))a=(u64)val();if(R.chance(40))b=(u64)val();memcpy(&st.hi[i],&a,8);memcpy(&st.lo[i],&b,8);}
    P.hi0=st.hi;P.lo0=st.lo;
    vex=R.chance(40)&&sljit_has_cpu_feature(SLJIT_HAS_AVX);
    g.nscr=4;g.nsav=0;g.nf=g.nv=0;g.loc=0;g.base=0;
    // functions it calls come before or after it
    int nfn=O.calls&&O.ctl?(R.chance(35)?R.range(1,2):0):0;
    for(int i=0;i<nfn;i++)makeFn();
    int nscr,nsav,nf,nv,loc;layout(nscr,nsav,nf,nv,loc,4,1);
    vector<int> ty;int at=0;int n=R.below(5),ni=0,nfl=0,sv=0;for(int i=0;i<n;i++){int k=R.below(5)+1;if(k>=4){if(nfl>=nf||nfl>=4)k=1;else nfl++;}if(k<4){ni++;if(R.chance(40))k|=8;else{sv++;if(sv>nsav){sv--;k|=8;}}}ty.push_back(k);at|=SLJIT_ARG_VALUE(k,(int)ty.size());}
    if(ni>nscr)nscr=std::min(ni,NREG-nsav);
    P.retType=R.below(6);if(P.retType>=4&&!nf)P.retType=1;
    P.argTypes=at|P.retType;
    {int sv2=0,ii=0,ff=0;for(int k:ty){if((k&7)>=4){u64 v=fbits((k&7)==SLJIT_ARG_TYPE_F32);P.fArgs.push_back(v);}else{u64 v=(u64)val();P.intArgs.push_back(v);}(void)sv2;(void)ii;(void)ff;}}
    P.entryLab=newLab();label(P.entryLab);P.entryPc=P.labPc[P.entryLab];
    bool l0=live;live=false;enterOp(0,P.argTypes,nscr,nsav,nf,nv,loc,ty,false,vex);live=l0;
    // arguments in the model (also redone by the final run)
    {auto ia=P.intArgs,fa2=P.fArgs;auto tt=ty;auto&op=P.ops.back();auto ox=op.exec;op.exec=[=](St&s){ox(s);int sv2=0,ii=0,ff=0;for(int k:tt){if((k&7)>=4){u64 v=fa2[ff];memset(s.v[ff+1],0,32);memcpy(s.v[ff+1],&v,8);ff++;}else{u64 v=ia[ii];if(k&8)s.r[1+ii]=v;else s.r[NREG-sv2++]=v;ii++;}}return -1;};
      int k=curPc()-1;run(k,k+1);}
    initLocals();
    // base register: any register that carries no argument
    {vector<int> c;for(int r:regs())if(g.rs[r]==U)c.push_back(r);bool preferS=R.chance(70);if(preferS){vector<int> c2;for(int r:c)if(r>NREG-nsav)c2.push_back(r);if(!c2.empty())c=c2;}if(!c.empty()){int b=R.pick(c);movi(b,(s64)HB,W);g.rs[b]=BASE;g.base=b;}}
    // start with something in most registers
    for(int r:regs())if(g.rs[r]==U&&R.chance(70))movi(r,val(),R.below(2)?W:H);
    for(int f=1;f<=g.nf;f++)if(g.fs[f]==U&&R.chance(60))fset(f,R.below(2),0),(void)0;
    for(int f=1;f<=g.nf;f++)if(g.fs[f]&&R.chance(70)){bool i=g.fs[f]==4;fset(f,i,fbits(i));}
    if(O.ctl&&R.chance(25))makeSub();
    if(R.chance(15)){int d=wreg();addv(sfmt("get_return_address %s",rn(d).c_str()),[=](Ctx&c){c.ck(sljit_emit_op_dst(c.c,SLJIT_GET_RETURN_ADDRESS,d,0));},[=](St&s){s.r[d]=lir_ra();});g.rs[d]=W;}
    for(int i=0;i<O.n&&st.fault.empty();i++)step();
    dump();
    if(O.calls&&R.chance(15)){bool ok=true;for(int r=1;r<=4&&r<=g.nscr;r++)if(g.rs[r]==BASE)g.rs[r]=W;g.base=0;if(ok){size_t k=P.ops.size();icall(true);if(P.ops.size()>k&&P.ops.back().txt.compare(0,9,"tail_call")==0){P.tail=true;return;}}}
    ret(P.retType,false,0,0);}
  static u64 lir_ra();
  void dump(){ // everything defined goes to the end of the buffer
    int o=WORK;for(int r=1;r<=NREG;r++){if(!valid(r))continue;s64 A=(s64)HB+o;o+=8;bool h=g.rs[r]==H;if(!h&&g.rs[r]!=W&&g.rs[r]!=BASE)continue;
      bool viaB=g.base&&R.chance(60);int ma=viaB?SLJIT_MEM1(g.base):SLJIT_MEM0();s64 mw=viaB?A-(s64)HB:A;
      addv(sfmt("dump %s",rn(r).c_str()),[=](Ctx&c){c.ck(sljit_emit_op1(c.c,h?SLJIT_MOV32:SLJIT_MOV,ma,mw,r,0));},[=](St&s){stm(s,A,h?4:8,s.r[r]);});}
    o=WORK+256;for(int f=1;f<=NFREG;f++){s64 A=(s64)HB+o;o+=32;int n=g.fs[f];if(!n)continue;
      if(n<=8){if(f>g.nf)continue;addv(sfmt("dump f%d",f-1),[=](Ctx&c){c.ck(sljit_emit_fop1(c.c,n==4?SLJIT_MOV_F32:SLJIT_MOV_F64,SLJIT_MEM0(),A,f,0));},[=](St&s){memcpy(s.tr(A,n),s.v[f],n);});}
      else{if(f>g.nv)continue;int ty=(n==32?SLJIT_SIMD_REG_256:SLJIT_SIMD_REG_128)|SLJIT_SIMD_STORE;addv(sfmt("dump v%d",f-1),[=](Ctx&c){c.ck(sljit_emit_simd_mov(c.c,ty,f,SLJIT_MEM0(),A));},[=](St&s){memcpy(s.tr(A,n),s.v[f],n);});}}}
};
}
