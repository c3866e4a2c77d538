// C02 (large modules): index spaces, nestings, tables of branch targets, bodies and segments of up to tens of thousands of entries.
// Every read designated by an index immediate is compared with what that entry holds.
#include "tiny.h"
#define HX_TYPES
#include "hx.h"
#include "hxalloc.h"
extern "C" void sljit_free_unused_memory_exec(void);
static hx::Counter cMod("modules_loaded"),cRead("designated_entries_compared"),cBig("cases_over_128_entries"),cHuge("cases_over_16384_entries"),cMax("cases_over_32768_entries"),cBytes("module_bytes"),cLeak("leak_checks");
enum{L_IMEM,L_OMEM,L_ITAB,L_OTAB,L_IGLOB,L_OGLOB,L_IFUN,L_OFUN,L_TYPE,L_LOCAL,L_BR,L_BRT,L_ELEM,L_DATA,L_DSEG,L_ESEG,L_EXPORT,L_BODY,L_MANYARGS,L_N};
static const char*LN[]={"imported memories","memories","imported tables","tables","imported globals","globals","imported functions","functions","types","locals","nested blocks","branch table entries","element segment entries","data segment bytes","data segments","element segments","exports","instructions","parameters"};
static hx::Counter*cL[L_N];
static const int K=7; // entries of each kind in the provider
static Module provider(){
  Module m;u32 tv=m.addType({{},{I32}});
  for(int k=0;k<K;k++){
    MemT t;t.min=1;t.hasmax=k%2;t.max=1;m.mems.push_back(t);m.exports.push_back({sfmt("m%d",k),2,(u32)k});
    Data d;d.flags=2;d.mem=k;d.off={I(OP_I32C,0,0,0)};u32 v=1000+k;d.bytes.assign((u8*)&v,(u8*)&v+4);m.datas.push_back(d);
    TableT tb;tb.min=3+k;m.tables.push_back(tb);m.exports.push_back({sfmt("t%d",k),1,(u32)k});
    GlobalT g;g.t=I32;g.mut=k%2;g.init={I(OP_I32C,0,0,500+k)};m.globals.push_back(g);m.exports.push_back({sfmt("g%d",k),3,(u32)k});
    Func f;f.type=tv;f.body={I(OP_I32C,0,0,900+k)};m.funcs.push_back(f);m.exports.push_back({sfmt("f%d",k),0,(u32)k});}
  return m;}
// the number of entries: all magnitudes, the borders of the LEB lengths and of 16 bit numbers more often
static u32 many(Rng&r,u32 max){u32 n;switch(r.below(6)){case 0:n=r.range(1,200);break;case 1:n=r.pick(vector<int>{63,64,65,127,128,129,255,256,257,8191,8192,8193,16383,16384,16385,32767,32768,32769,65535,65536});break;case 2:n=1u<<r.range(0,16);n+=r.below(n);break;case 3:n=r.range(1,3000);break;case 4:n=r.range(1,20000);break;default:n=r.range(1,300);}
  return n>max?r.range(1,max):n;}
static u32 pickIdx(Rng&r,u32 n){if(r.chance(25))return n-1;if(r.chance(15))return 0;if(r.chance(30)){u32 e=r.pick(vector<int>{63,64,127,128,8191,8192,16383,16384,32767,32768,65535});if(e<n)return e;}return r.below(n);}
struct B{
  Rng r;Module m;Code c;u32 exp=0;vector<VT> locals;vector<u32> cb;bool noop=false;u32 noopIdx=0;
  explicit B(u64 s):r(s){}
  void start(){c.push_back(I(OP_I32C,0,0,0));}
  void fold(u32 v){exp=exp*31+v;cRead++;} // the value on top is v
  void mul(){c.push_back(I(OP_I32C,0,0,31));c.push_back(I(0x6c));}
  void add(){c.push_back(I(0x6a));}
};
static string lim(Rng&r0,u64 seed,int what){
  B b(seed);Rng&r=b.r;Module&m=b.m;Code&c=b.c;(void)r0;
  struct pwart_global_compile_config cfg;cfg.stack_flags=r.below(2);cfg.misc_flags=r.chance(80)?3:2;pwart_set_global_compile_config(&cfg);
  u32 tv=m.addType({{},{I32}}),t0=m.addType({{},{}}),ti=m.addType({{I32},{I32}});
  u32 n=1;auto imports=[&](int kind,const char*p){for(u32 i=0;i<n;i++){Import x;x.mod="prov";x.kind=kind;x.field=sfmt("%s%d",p,i%K);if(kind==0)x.type=tv;if(kind==1){x.et=FUNCREF;x.min=3;}if(kind==2)x.min=1;if(kind==3){x.gt=I32;x.mut=(i%K)%2;}m.imports.push_back(x);}};
  vector<std::pair<u32,u32>> lookups; // export number, expected value
  auto padFuncs=[&](u32 k){for(u32 i=0;i<k;i++){Func f;f.type=tv;f.body={I(OP_I32C,0,0,i)};m.funcs.push_back(f);}};
  FuncType ft{{},{I32}};vector<u32> args;
  u32 tIdx=0; // position of the function under test among own functions
  vector<Func> behind; // own functions behind it
  auto noop=[&](u32 idx){if(r.chance(50))c.push_back(I(OP_CALL,idx));};
  u32 reads=r.range(1,6);
  c.push_back(I(OP_I32C,0,0,0));
  auto step=[&](u32 v,std::function<void()> emit){b.mul();emit();b.add();b.fold(v);};
  switch(what){
  case L_IMEM:{n=many(r,65000);if(r.chance(10))n=r.range(65000,80000);imports(2,"m");Func f;f.type=t0;behind.push_back(f);u32 stored[K];bool has[K]={};
    for(u32 q=0;q<reads;q++){u32 i=pickIdx(r,n);int k=i%K;
      if(r.chance(40)){u32 v=r.next();c.push_back(I(OP_I32C,0,0,16));c.push_back(I(OP_I32C,0,0,v));c.push_back(I(0x36,2,i));stored[k]=v;has[k]=true;noop(1);}
      if(has[k]&&r.chance(60)){u32 j=k+K*r.below((n-1-k)/K+1);step(stored[k],[&]{c.push_back(I(OP_I32C,0,0,12));c.push_back(I(0x28,2,j,4));});}
      else switch(r.below(3)){case 0:step(1,[&]{c.push_back(I(OP_MSIZE,0,i));});break;
        default:step(1000+k,[&]{c.push_back(I(OP_I32C,0,0,0));c.push_back(I(0x28,2,i));});}
      noop(1);}
    break;}
  case L_OMEM:{n=many(r,65000);for(u32 i=0;i<n;i++){MemT t;t.min=0;t.hasmax=r.chance(20);t.max=0;m.mems.push_back(t);}vector<u32> idx;for(u32 q=0;q<reads;q++){u32 i=pickIdx(r,n);m.mems[i].min=1;m.mems[i].max=1;idx.push_back(i);}Func f;f.type=t0;behind.push_back(f);
    std::map<u32,u32> val;for(u32 i:idx){if(val.count(i))continue;u32 v=r.next();val[i]=v;if(r.chance(50)){Data d;d.flags=2;d.mem=i;d.off={I(OP_I32C,0,0,0)};d.bytes.assign((u8*)&v,(u8*)&v+4);m.datas.push_back(d);}else{c.push_back(I(OP_I32C,0,0,0));c.push_back(I(OP_I32C,0,0,v));c.push_back(I(0x36,2,i));noop(1);}}
    for(u32 i:idx){if(r.chance(20))step(1,[&]{c.push_back(I(OP_MSIZE,0,i));});step(val[i],[&]{c.push_back(I(OP_I32C,0,0,0));c.push_back(I(0x28,2,i));});noop(1);
      if(r.chance(30)){u32 v=r.below(256);c.push_back(I(OP_I32C,0,0,0));c.push_back(I(OP_I32C,0,0,v));c.push_back(I(OP_I32C,0,0,4));c.push_back(I(OP_MFILL,0,i));val[i]=v*0x01010101u;noop(1);}
      if(r.chance(30)){u32 j=r.pick(idx);c.push_back(I(OP_I32C,0,0,0));c.push_back(I(OP_I32C,0,0,0));c.push_back(I(OP_I32C,0,0,4));c.push_back(I(OP_MCOPY,i,j));val[i]=val[j];}
      if(r.chance(20)&&!m.mems[i].hasmax){step(1,[&]{c.push_back(I(OP_I32C,0,0,1));c.push_back(I(OP_MGROW,0,i));});m.mems[i].hasmax=false;c.push_back(I(OP_I32C,0,0,0));c.push_back(I(0x28,2,i));c.push_back(I(OP_DROP));break;}}
    break;}
  case L_ITAB:{n=many(r,65000);if(r.chance(10))n=r.range(65000,80000);imports(1,"t");Func f;f.type=t0;behind.push_back(f);u32 own=r.below(3);for(u32 i=0;i<own;i++){TableT t;t.min=100+i;m.tables.push_back(t);}
    for(u32 q=0;q<reads;q++){u32 i=pickIdx(r,n+own);u32 sz=i<n?3+i%K:100+(i-n);if(r.chance(40))step(1,[&]{c.push_back(I(OP_I32C,0,0,r.below(sz)));c.push_back(I(OP_TGET,i));c.push_back(I(OP_REFISNULL));});step(sz,[&]{c.push_back(I(OP_TSIZE,i));});noop(1);}
    break;}
  case L_OTAB:{n=many(r,65000);for(u32 i=0;i<n;i++){TableT t;t.min=1+i%5;m.tables.push_back(t);}Func f;f.type=t0;behind.push_back(f);Func f1;f1.type=ti;f1.body={I(OP_LGET,0),I(OP_I32C,0,0,77),I(0x6a)};behind.push_back(f1);
    for(u32 q=0;q<reads;q++){u32 i=pickIdx(r,n);switch(r.below(4)){
      case 0:step(1+i%5,[&]{c.push_back(I(OP_TSIZE,i));});break;
      case 1:c.push_back(I(OP_I32C,0,0,i%5));c.push_back(I(OP_REFFUNC,2));c.push_back(I(OP_TSET,i));noop(1);step(q+77,[&]{c.push_back(I(OP_I32C,0,0,q));c.push_back(I(OP_I32C,0,0,i%5));c.push_back(I(OP_CALLI,ti,i));});break;
      case 2:{u32 j=pickIdx(r,n);c.push_back(I(OP_I32C,0,0,0));c.push_back(I(OP_REFFUNC,2));c.push_back(I(OP_I32C,0,0,1));c.push_back(I(OP_TFILL,j));c.push_back(I(OP_I32C,0,0,0));c.push_back(I(OP_I32C,0,0,0));c.push_back(I(OP_I32C,0,0,1));c.push_back(I(OP_TCOPY,i,j));noop(1);step(q+77,[&]{c.push_back(I(OP_I32C,0,0,q));c.push_back(I(OP_I32C,0,0,0));c.push_back(I(OP_CALLI,ti,i));});break;}
      default:{Elem e;e.flags=2;e.table=i;e.off={I(OP_I32C,0,0,0)};e.funcs={2};m.elems.push_back(e);noop(1);step(q+77,[&]{c.push_back(I(OP_I32C,0,0,q));c.push_back(I(OP_I32C,0,0,0));c.push_back(I(OP_CALLI,ti,i));});}}}
    break;}
  case L_IGLOB:{n=many(r,65536);imports(3,"g");u32 own=r.below(3);for(u32 i=0;i<own;i++){GlobalT g;g.t=I32;g.mut=true;g.init={I(OP_I32C,0,0,70+i)};m.globals.push_back(g);}
    u32 cv[K];for(int k=0;k<K;k++)cv[k]=500+k;
    for(u32 q=0;q<reads;q++){u32 i=pickIdx(r,n+own);if(i<n&&(i%K)%2&&r.chance(50)){u32 v=r.next();c.push_back(I(OP_I32C,0,0,v));c.push_back(I(OP_GSET,i));cv[i%K]=v;i=i%K+K*r.below((n-1-i%K)/K+1);}
      step(i<n?cv[i%K]:70+i-n,[&]{c.push_back(I(OP_GGET,i));});}
    break;}
  case L_OGLOB:{n=many(r,65536);vector<u64> v(n);static const VT T[]={I32,I64,F32,F64};for(u32 i=0;i<n;i++){GlobalT g;g.t=T[(i*7+i/9)%4];g.mut=i%3!=0;v[i]=r.next();if(g.t==I32)v[i]=(u32)v[i];if(isfloat(g.t)){float f=i;double d=i;if(g.t==F32){u32 w;memcpy(&w,&f,4);v[i]=w;}else memcpy(&v[i],&d,8);}g.init={I(g.t==I32?OP_I32C:g.t==I64?OP_I64C:g.t==F32?OP_F32C:OP_F64C,0,0,v[i])};m.globals.push_back(g);}
    for(u32 q=0;q<reads*3;q++){u32 i=pickIdx(r,n);VT t=m.globals[i].t;if(m.globals[i].mut&&!isfloat(t)&&r.chance(40)){u64 x=r.next();if(t==I32)x=(u32)x;c.push_back(I(t==I32?OP_I32C:OP_I64C,0,0,x));c.push_back(I(OP_GSET,i));v[i]=x;}
      step(t==I32?(u32)v[i]:t==I64?(u32)v[i]:i,[&]{c.push_back(I(OP_GGET,i));if(t==I64)c.push_back(I(0xa7));if(t==F32)c.push_back(I(0xa8));if(t==F64)c.push_back(I(0xaa));});}
    break;}
  case L_IFUN:{n=many(r,65536);imports(0,"f");TableT t;t.min=10;m.tables.push_back(t);
    for(u32 q=0;q<reads;q++){u32 i=pickIdx(r,n);switch(r.below(3)){case 0:step(900+i%K,[&]{c.push_back(I(OP_CALL,i));});break;
      case 1:c.push_back(I(OP_I32C,0,0,q));c.push_back(I(OP_REFFUNC,i));c.push_back(I(OP_TSET,0));step(900+i%K,[&]{c.push_back(I(OP_I32C,0,0,q));c.push_back(I(OP_CALLI,tv,0));});break;
      default:{Elem e;e.off={I(OP_I32C,0,0,q)};e.funcs={i};m.elems.push_back(e);step(900+i%K,[&]{c.push_back(I(OP_I32C,0,0,q));c.push_back(I(OP_CALLI,tv,0));});}}}
    if(r.chance(30)){m.exports.push_back({"x",0,n-1});lookups.push_back({n-1,900+(n-1)%K});}
    break;}
  case L_OFUN:{n=many(r,20000);padFuncs(n);tIdx=r.below(n+1);Func x;m.funcs.insert(m.funcs.begin()+tIdx,x);
    auto val=[&](u32 i){return i<tIdx?i:i-1;};TableT t;t.min=10;m.tables.push_back(t);
    for(u32 q=0;q<reads*2;q++){u32 i=pickIdx(r,n+1);if(i==tIdx)continue;switch(r.below(2)){case 0:step(val(i),[&]{c.push_back(I(OP_CALL,i));});break;
      default:c.push_back(I(OP_I32C,0,0,q%10));c.push_back(I(OP_REFFUNC,i));c.push_back(I(OP_TSET,0));step(val(i),[&]{c.push_back(I(OP_I32C,0,0,q%10));c.push_back(I(OP_CALLI,tv,0));});}}
    for(u32 q=0;q<4;q++){u32 i=pickIdx(r,n+1);if(i==tIdx)continue;m.exports.push_back({sfmt("e%u",q),0,i});lookups.push_back({i,val(i)});}
    break;}
  case L_TYPE:{n=many(r,65536);static const VT T[]={I32,I64,F32,F64};u32 base=m.types.size();for(u32 i=0;i<n;i++){FuncType t;u32 x=i;for(int d=0;d<8;d++){t.p.push_back(T[x&3]);x>>=2;if(!x&&r.chance(50))break;}t.r={I32};m.types.push_back(t);}
    // functions of some of these types sum up their i32 parameters
    for(u32 q=0;q<reads;q++){u32 ty=base+pickIdx(r,n);auto&t=m.types[ty];Func f;f.type=ty;f.body={I(OP_I32C,0,0,q)};u32 e=q;u32 fi=1+behind.size();b.mul();
      for(u32 k=0;k<t.p.size();k++){u32 v=r.below(10000);if(t.p[k]==I32){f.body.push_back(I(OP_LGET,k));f.body.push_back(I(0x6a));e+=v;}else if(t.p[k]==I64){f.body.push_back(I(OP_LGET,k));f.body.push_back(I(0xa7));f.body.push_back(I(0x6b));e-=v;}
        float fl=v;double db=v;u64 w=v;if(t.p[k]==F32){u32 z;memcpy(&z,&fl,4);w=z;}if(t.p[k]==F64)memcpy(&w,&db,8);c.push_back(I(t.p[k]==I32?OP_I32C:t.p[k]==I64?OP_I64C:t.p[k]==F32?OP_F32C:OP_F64C,0,0,w));}
      if(r.chance(50)){if(m.tables.empty()){TableT tb;tb.min=8;m.tables.push_back(tb);}Elem el;el.off={I(OP_I32C,0,0,q)};el.funcs={fi};m.elems.push_back(el);c.push_back(I(OP_I32C,0,0,q));c.push_back(I(OP_CALLI,ty,0));}
      else c.push_back(I(OP_CALL,fi));
      b.add();b.fold(e);behind.push_back(f);}
    break;}
  case L_LOCAL:{n=many(r,29000);static const VT T[]={I32,I64,F32,F64};u32 np=r.chance(50)?0:r.below(20);for(u32 i=0;i<np;i++){ft.p.push_back(I32);args.push_back(r.next());}
    VT blk=I32;for(u32 i=0;i<n;i++){if(r.chance(n>2000?2:30))blk=T[r.below(4)];b.locals.push_back(blk);}
    vector<u64> v(n);std::set<u32> idx;for(u32 q=0;q<reads*4;q++)idx.insert(pickIdx(r,n));
    auto push=[&](u32 i){VT t=b.locals[i];c.push_back(I(OP_LGET,np+i));if(t==I64)c.push_back(I(0xa7));if(t==F32)c.push_back(I(0xa8));if(t==F64)c.push_back(I(0xaa));};
    for(u32 i:idx){if(cfg.misc_flags&2&&r.chance(30)){step(0,[&]{push(i);});}u32 x=r.below(100000);VT t=b.locals[i];v[i]=x;u64 w=x;float f=x;double d=x;if(t==F32){u32 z;memcpy(&z,&f,4);w=z;}if(t==F64)memcpy(&w,&d,8);c.push_back(I(t==I32?OP_I32C:t==I64?OP_I64C:t==F32?OP_F32C:OP_F64C,0,0,w));c.push_back(I(OP_LSET,np+i));}
    for(u32 i:idx)step((u32)v[i],[&]{push(i);});
    for(u32 i=0;i<np;i++)step(args[i],[&]{c.push_back(I(OP_LGET,i));});
    break;}
  case L_BR:{n=many(r,20000);u32 D=pickIdx(r,n);bool viaTable=r.chance(30),cond=r.chance(30);std::map<u32,u32> adds;for(u32 q=0;q<10;q++)adds[pickIdx(r,n)]=r.next();if(D&&r.chance(50))adds[D-1]=r.next();adds[D]=r.next();
    b.locals.push_back(I32);c.push_back(I(OP_LSET,0));vector<VT> kind;for(u32 i=0;i<n;i++)c.push_back(I(OP_BLOCK,VOID)); // only blocks; a branch to one leaves it
    if(viaTable){c.push_back(I(OP_I32C,0,0,1));Ins x=I(OP_BRTABLE);x.tbl={0,D,n-1};c.push_back(x);}else if(cond){c.push_back(I(OP_I32C,0,0,1));c.push_back(I(OP_BRIF,D));}else c.push_back(I(OP_BR,D));
    u32 e=0;for(u32 i=0;i<n;i++){c.push_back(I(OP_END));if(adds.count(i)){c.push_back(I(OP_LGET,0));c.push_back(I(OP_I32C,0,0,adds[i]));b.add();c.push_back(I(OP_LSET,0));if(i>=D)e+=adds[i];}}
    c.push_back(I(OP_LGET,0));b.exp=e;cRead++;break;}
  case L_BRT:{n=many(r,16000);u32 M=r.range(1,40);ft.p={I32};u32 ix=r.chance(20)?n+r.below(3):r.chance(10)?r.next():pickIdx(r,n);args={ix};Ins x=I(OP_BRTABLE);for(u32 i=0;i<=n;i++)x.tbl.push_back(r.below(M));
    b.locals.push_back(I32);c.pop_back();for(u32 i=0;i<M;i++)c.push_back(I(OP_BLOCK,VOID));c.push_back(I(OP_LGET,0));c.push_back(x);
    for(u32 i=0;i<M;i++){c.push_back(I(OP_END));c.push_back(I(OP_LGET,1));c.push_back(I(OP_I32C,0,0,i*1000+1));b.add();c.push_back(I(OP_LSET,1));}
    c.push_back(I(OP_LGET,1));u32 D=x.tbl[ix<n?ix:n];b.exp=0;for(u32 i=D;i<M;i++)b.exp+=i*1000+1;cRead++;break;}
  case L_ELEM:{n=many(r,65536);TableT t;t.min=n+r.below(5);m.tables.push_back(t);Elem e;u32 off=r.below(t.min-n+1);e.off={I(OP_I32C,0,0,off)};for(int i=0;i<5;i++){Func f;f.type=tv;f.body={I(OP_I32C,0,0,300+i)};behind.push_back(f);}
    bool ex=r.chance(40);if(ex){e.flags=4;for(u32 i=0;i<n;i++)if(i%11==5)e.exprs.push_back({I(OP_REFNULL,FUNCREF)});else e.exprs.push_back({I(OP_REFFUNC,1+i%5)});}else for(u32 i=0;i<n;i++)e.funcs.push_back(1+i%5);m.elems.push_back(e);
    for(u32 q=0;q<reads*2;q++){u32 i=pickIdx(r,n);if(ex&&i%11==5)step(1,[&]{c.push_back(I(OP_I32C,0,0,off+i));c.push_back(I(OP_TGET,0));c.push_back(I(OP_REFISNULL));});else step(300+i%5,[&]{c.push_back(I(OP_I32C,0,0,off+i));c.push_back(I(OP_CALLI,tv,0));});}
    break;}
  case L_DATA:{n=many(r,65536)*(r.chance(30)?r.range(1,8):1);MemT t;t.min=n/65536+1+r.below(2);m.mems.push_back(t);m.exports.push_back({"mem",2,0});Data d;u32 off=r.below(t.min*65536-n+1);d.off={I(OP_I32C,0,0,off)};for(u32 i=0;i<n;i++)d.bytes.push_back((u8)r.next());
    for(u32 q=0;q<reads*2;q++){u32 i=pickIdx(r,n);step(d.bytes[i],[&]{c.push_back(I(OP_I32C,0,0,off+i));c.push_back(I(0x2d));});}
    m.datas.push_back(d);break;}
  case L_DSEG:{n=many(r,65536);MemT t;t.min=1;m.mems.push_back(t);std::map<u32,u8> w;u32 mod=r.range(1,65536);for(u32 i=0;i<n;i++){Data d;u32 a=(u32)((u64)i*7919%mod);d.off={I(OP_I32C,0,0,a)};d.bytes={(u8)r.next()};w[a]=d.bytes[0];m.datas.push_back(d);}m.datacount=r.chance(50);
    for(u32 q=0;q<reads*2;q++){u32 a=(u32)((u64)pickIdx(r,n)*7919%mod);step(w[a],[&]{c.push_back(I(OP_I32C,0,0,a));c.push_back(I(0x2d));});}
    break;}
  case L_ESEG:{n=many(r,30000);TableT t;t.min=r.range(1,2000);m.tables.push_back(t);std::map<u32,u32> w;for(int i=0;i<5;i++){Func f;f.type=tv;f.body={I(OP_I32C,0,0,300+i)};behind.push_back(f);}for(u32 i=0;i<n;i++){Elem e;u32 a=(u32)((u64)i*7919%t.min);e.off={I(OP_I32C,0,0,a)};u32 f=r.below(5);e.funcs={1+f};w[a]=300+f;m.elems.push_back(e);}
    for(u32 q=0;q<reads*2;q++){u32 a=(u32)((u64)pickIdx(r,n)*7919%t.min);step(w[a],[&]{c.push_back(I(OP_I32C,0,0,a));c.push_back(I(OP_CALLI,tv,0));});}
    break;}
  case L_EXPORT:{n=many(r,30000);for(int i=0;i<5;i++){Func f;f.type=tv;f.body={I(OP_I32C,0,0,300+i)};behind.push_back(f);}for(u32 i=0;i<n;i++)m.exports.push_back({sfmt("n%u",i),0,1+i%5});break;}
  case L_BODY:{n=many(r,60000);u32 e=0;for(u32 i=0;i<n;i++){u32 k=i*2654435761u;c.push_back(I(OP_I32C,0,0,k));if(i%3==0){c.push_back(I(0x6a));e+=k;}else if(i%3==1){c.push_back(I(0x73));e^=k;}else{k|=1;c.back().k=k;c.push_back(I(0x6c));e*=k;}}b.exp=e;cRead++;break;}
  case L_MANYARGS:{n=r.chance(30)?255:r.range(1,255);static const VT T[]={I32,I64,F32,F64};ft.p.clear();for(u32 i=0;i<n;i++)ft.p.push_back(T[r.below(4)]);for(u32 i=0;i<n;i++)args.push_back(r.below(1000000));
    for(u32 q=0;q<reads*3;q++){u32 i=pickIdx(r,n);VT t=ft.p[i];step(args[i],[&]{c.push_back(I(OP_LGET,i));if(t==I64)c.push_back(I(0xa7));if(t==F32)c.push_back(I(0xa8));if(t==F64)c.push_back(I(0xaa));});}
    break;}
  }
  (*cL[what])++;if(n>128)cBig++;if(n>16384)cHuge++;if(n>32768)cMax++;
  hx::note("%s: %u, config %d/%d",LN[what],n,cfg.stack_flags,cfg.misc_flags);
  // number the functions: imports, [own before], the function under test, those behind (generated as 1, 2, ...)
  u32 ni=m.nimp(0);Func f;f.type=m.addType(ft);f.locals=b.locals;f.body=c;
  if(what==L_OFUN)m.funcs[tIdx]=f;else{m.funcs.push_back(f);m.funcs.insert(m.funcs.end(),behind.begin(),behind.end());}
  m.exports.push_back({"t",0,ni+tIdx});
  if(r.chance(50)&&m.exports.size()>1)std::swap(m.exports.back(),m.exports[r.below(m.exports.size())]);
  vector<u8> bytes=encode(m,r.chance(20)?r.range(1,60):0,&r);cBytes+=bytes.size();
  // pwart reads a table of several thousand imports by name; all go through the namespace
  pwart_namespace ns=pwart_namespace_new();char*e=nullptr;string err;
  {vector<u8> p=encode(provider(),0,nullptr);if(!pwart_namespace_define_wasm_module(ns,"prov",(char*)p.data(),p.size(),&e))err="a good module failed to load";}
  pwart_module_state s=nullptr;
  if(err.empty()){char*buf=(char*)malloc(bytes.size());memcpy(buf,bytes.data(),bytes.size());s=(pwart_module_state)pwart_namespace_define_wasm_module(ns,"t",buf,bytes.size(),&e);free(buf);
    if(!s){// limits pwart documents by its messages
      string x=e?e:"?";if(!((what==L_OMEM&&x.find("too many memories")!=string::npos)||(what==L_OTAB&&x.find("too many tables")!=string::npos)))err="the module failed to load: "+x;}}
  if(err.empty()&&s){cMod++;
    static u8*stk=nullptr;if(!stk)stk=(u8*)pwart_allocate_stack(1<<20);u8*sp=stk+64;memset(stk,0xC3,8192);void*p=sp;
    for(u32 i=0;i<args.size();i++)switch(ft.p[i]){case I32:pwart_rstack_put_i32(&p,args[i]);break;case I64:pwart_rstack_put_i64(&p,args[i]);break;case F32:pwart_rstack_put_f32(&p,args[i]);break;default:pwart_rstack_put_f64(&p,args[i]);}
    pwart_call_wasm_function(pwart_get_export_function(s,"t"),sp);u32 got;memcpy(&got,sp,4);
    if(got!=b.exp)err=sfmt("the function returns %08x, expected %08x",got,b.exp);
    if(err.empty()&&what==L_EXPORT)for(u32 q=0;q<20&&err.empty();q++){u32 i=pickIdx(r,n);auto fn=pwart_get_export_function(s,sfmt("n%u",i).c_str());cRead++;if(!fn)err=sfmt("export n%u not found",i);else if(call1(fn,0)!=300+i%5)err=sfmt("export n%u is another function",i);if(pwart_get_export_function(s,sfmt("n%u",n+q).c_str()))err="an export that does not exist is found";}
    for(auto&l:lookups){string nm;for(auto&x:m.exports)if(x.kind==0&&x.idx==l.first&&x.name!="t")nm=x.name;if(nm.empty())continue;cRead++;auto fn=pwart_get_export_function(s,nm.c_str());if(err.empty()&&(!fn||call1(fn,0)!=l.second))err="export "+nm+" is another function";}
    if(err.empty()&&what==L_DATA){pwart_wasm_memory*mm=pwart_get_export_memory(s,"mem");auto&d=m.datas[0];u32 off=(u32)d.off[0].k;vector<u8> w(m.mems[0].min*65536);memcpy(&w[off],d.bytes.data(),n);if(memcmp(mm->bytes,w.data(),w.size()))err="memory differs from the data segment";}
    }
  pwart_namespace_delete(ns);
  {string hb=hxTakeBad();if(err.empty()&&hb.size())err=hb;}
  return err;}
void hxInit(){Rng r(1);for(int i=0;i<L_N;i++)lim(r,i+1,i);sljit_free_unused_memory_exec();hxTakeBad();}
string runOne(u64 seed,u64 idx){
  Rng r(seed*1000003+idx*7919);HxAllocStats a=hxStats();
  string err=lim(r,r.next(),idx%L_N);if(!err.empty())return err;
  sljit_free_unused_memory_exec();HxAllocStats z=hxStats();cLeak++;
  if(z.blocks!=a.blocks)return sfmt("left %ld block(s), %ld bytes: ",z.blocks-a.blocks,z.bytes-a.bytes)+hxLive();
  hx::nontrivial(hx::hashBytes(hx::S->note[hx::W],hx::S->noteLen[hx::W])^idx);return "";}
static struct Reg{Reg(){for(int i=0;i<L_N;i++){string s=string("cases_")+LN[i];for(auto&ch:s)if(ch==' ')ch='_';cL[i]=new hx::Counter(strdup(s.c_str()));}}}reg;
HX_MAIN("lim")
