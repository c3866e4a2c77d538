#include "gen.h"
#include <algorithm>
static const u32 E32[]={0,1,2,3,4,5,7,8,10,15,16,31,32,33,63,64,65,100,127,128,129,255,256,257,1000,4095,4096,32767,32768,65535,65536,0x7fffffff,0x80000000,0x80000001,0xffffffff,0xfffffffe,0xffffff80,0xffffff7f,0xffff8000,0xffff7fff,0xaaaaaaaa,0x55555555,0x12345678,0xdeadbeef,0xf0f0f0f0,0x40000000,0xc0000000};
static const u64 E64[]={0x100000000ull,0xffffffffull,0x80000000ull,0x7fffffffull,0x7fffffffffffffffull,0x8000000000000000ull,0x8000000000000001ull,~0ull,~0ull-1,0xffffffff80000000ull,0xffffffff7fffffffull,0xffffffff00000000ull,0x123456789abcdef0ull,0xfedcba9876543210ull,0x5555555555555555ull,0xaaaaaaaaaaaaaaaaull,0x00ff00ff00ff00ffull,0x8000000080000000ull,0x7fffffff80000000ull,0x0000ffff00000000ull,0x100000001ull};
u64 constOf(Rng&r,VT t,int nanpct){
  switch(t){
    case I32:switch(r.below(5)){case 0:return r.below(64);case 1:return (u32)r.next();case 2:return (u32)(1u<<r.below(32))+(u32)r.range(-1,1);case 3:return (u32)(s32)-(s32)r.below(300);default:return E32[r.below(sizeof E32/4)];}
    case I64:switch(r.below(7)){case 0:return r.below(64);case 1:return r.next();case 2:return (1ull<<r.below(64))+(u64)(s64)r.range(-1,1);case 3:return (u64)-(s64)r.below(300);case 4:return (u64)(s64)(s32)E32[r.below(sizeof E32/4)];case 5:return (u64)((s64)r.next()>>r.below(63));default:return E64[r.below(sizeof E64/8)];}
    case F32:{ if(r.chance(nanpct)){static const u32 n[]={0x7fc00000,0xffc00000,0x7fa00000,0x7f800001,0xffffffff,0x7fffffff};return n[r.below(6)];}
      static const u32 s[]={0,0x80000000,0x3f800000,0xbf800000,0x3f000000,0xbf000000,0x3fc00000,0x40200000,0x40490fdb,0x7f800000,0xff800000,1,0x80000001,0x7fffff,0x800000,0x7f7fffff,0xff7fffff,0x4f000000,0xcf000000,0x4f800000,0x5f000000,0xdf000000,0x5f800000,0x4effffff,0x4b000000,0x4b000001,0x4affffff,0xcb000001,0x3effffff,0x3f7fffff,0xbf7fffff,0x41200000,0x42c80000};
      switch(r.below(3)){case 0:return s[r.below(sizeof s/4)];case 1:{float f=(float)r.range(-1000,1000)/ (1<<r.below(5));u32 x;memcpy(&x,&f,4);return x;}default:{u32 x=(u32)r.next();if(isnan32(x))x&=0x7f7fffff;return x;}}}
    case F64:{ if(r.chance(nanpct)){static const u64 n[]={0x7ff8000000000000ull,0xfff8000000000000ull,0x7ff4000000000000ull,0x7ff0000000000001ull,~0ull};return n[r.below(5)];}
      static const u64 s[]={0,0x8000000000000000ull,0x3ff0000000000000ull,0xbff0000000000000ull,0x3fe0000000000000ull,0xbfe0000000000000ull,0x3ff8000000000000ull,0x4004000000000000ull,0x7ff0000000000000ull,0xfff0000000000000ull,1,0x8000000000000001ull,0x10000000000000ull,0x7fefffffffffffffull,0x41e0000000000000ull,0xc1e0000000000000ull,0x41dfffffffc00000ull,0x41f0000000000000ull,0x43e0000000000000ull,0xc3e0000000000000ull,0x43f0000000000000ull,0x4330000000000000ull,0x4330000000000001ull,0x432fffffffffffffull,0x3fdfffffffffffffull,0x3fefffffffffffffull,0xbfefffffffffffffull,0x400921fb54442d18ull,0x47efffffe0000000ull,0x47effffff0000000ull,0x36a0000000000000ull,0x3690000000000000ull,0x380fffffffffffffull};
      switch(r.below(3)){case 0:return s[r.below(sizeof s/8)];case 1:{double f=(double)r.range(-100000,100000)/(1<<r.below(6));u64 x;memcpy(&x,&f,8);return x;}default:{u64 x=r.next();if(isnan64(x))x&=0x7fdfffffffffffffull;return x;}}}
    default:return 0;
  }
}
static const u64 NATIVE_BASE=0x200000000000ull;
static VT randVT(Rng&r,const Prof&p,bool refs){
  if(refs&&r.chance(12))return r.chance(50)?FUNCREF:EXTERNREF;
  if(r.chance(p.float_pct))return r.chance(50)?F32:F64;
  return r.chance(50+p.i64_bias)?I64:I32;
}
FuncType randType(Rng&r,const Prof&p,bool refs){
  FuncType t;int np=r.range(0,p.params_max);if(r.chance(p.bigparams_pct))np=r.range(8,24);
  int nr=r.chance(75)?1:r.range(0,p.results_max);
  for(int i=0;i<np;i++)t.p.push_back(randVT(r,p,refs));for(int i=0;i<nr;i++)t.r.push_back(randVT(r,p,refs));return t;
}
struct Label{VT bt;bool loop;bool func;int ctr=-1;bool shared=false;};
struct FG{
  Rng&r;const Prof&p;const Module&m;u32 self;bool refs;Code o;vector<VT> loc;vector<VT> newLocals;vector<Label> lab;FuncType ft;
  vector<char> nat;vector<u32> fts;vector<TableT> tabs;vector<MemT> mems;vector<GlobalT> gl;u32 nimpf;
  vector<char> frozen; // locals reserved (loop counters)
  int budget=400; int pend=0; bool recursive=false; const Case*cs; int selfRecLeft=1;
  vector<vector<u32>> stableTab; // table -> function indices initially in it (or ~0)
  FG(Rng&r,const Prof&p,const Module&m,u32 self,bool refs,const Case*cs):r(r),p(p),m(m),self(self),refs(refs),cs(cs){fts=m.functypes();tabs=m.alltables();mems=m.allmems();gl=m.allglobals();nimpf=m.nimp(0);for(auto&i:m.imports)if(i.kind==2)nat.push_back(i.mod=="pwart_builtin");nat.resize(mems.size());}
  void e(const Ins&i){o.push_back(i);budget--;}
  void konst(VT t){u64 k=constOf(r,t,p.nanconst_pct);switch(t){case I32:e(I(OP_I32C,0,0,(u32)k));break;case I64:e(I(OP_I64C,0,0,k));break;case F32:e(I(OP_F32C,0,0,(u32)k));break;case F64:e(I(OP_F64C,0,0,k));break;case FUNCREF:if(r.chance(70)&&fts.size()){e(I(OP_REFFUNC,r.below(fts.size())));break;}e(I(OP_REFNULL,FUNCREF));break;case EXTERNREF:e(I(OP_REFNULL,EXTERNREF));break;default:break;}}
  void i32c(u32 v){e(I(OP_I32C,0,0,v));}
  int pickLocal(VT t,bool writable){vector<u32> c;for(u32 i=0;i<loc.size();i++)if(loc[i]==t&&!(writable&&frozen[i]))c.push_back(i);if(c.empty())return -1;
    return c[r.below(c.size())];}
  int tempLocal(VT t){int l=pickLocal(t,true);if(l>=0&&r.chance(85))return l;if(loc.size()>=200)return l;return addLocal(t,false);}
  int addLocal(VT t,bool fz){loc.push_back(t);frozen.push_back(fz);newLocals.push_back(t);return (int)loc.size()-1;}
  int pickGlobal(VT t,bool w){vector<u32> c;for(u32 i=0;i<gl.size();i++)if(gl[i].t==t&&(!w||gl[i].mut))c.push_back(i);if(c.empty())return -1;return c[r.below(c.size())];}
  void maybeStmt(int d){if(pend<p.maxstack-10&&d>0&&budget>0&&r.chance(p.interleave))stmt(d-1);}
  void leaf(VT t){int l;int k=r.below(10);
    if(k<6&&(l=pickLocal(t,false))>=0){e(I(OP_LGET,l));return;}
    if(k<7&&(l=pickGlobal(t,false))>=0){e(I(OP_GGET,l));return;}
    if(t==EXTERNREF){ if((l=pickLocal(t,false))>=0){e(I(OP_LGET,l));return;} if((l=pickGlobal(t,false))>=0&&r.chance(70)){e(I(OP_GGET,l));return;} }
    konst(t);}
  // bounded float for truncations
  void boundedFloat(VT t,bool uns,bool to64,int d){
    if(r.chance(12)){expr(t,d-1);return;}
    int k=r.below(4);
    if(k==0){double v=uns?(double)(r.next()>>(to64?r.range(1,60):r.range(33,63))):(double)((s64)r.next()>>(to64?r.range(1,60):r.range(33,63)));if(r.chance(60))v/= (double)(1<<r.below(9));
      if(t==F32){float f=(float)v;u32 x;memcpy(&x,&f,4);e(I(OP_F32C,0,0,x));}else{u64 x;memcpy(&x,&v,8);e(I(OP_F64C,0,0,x));}}
    else{ // convert an integer
      if(k==1||!to64){expr(I32,d-1);if(uns){i32c(0x7fffff);e(I(0x71));}else if(t==F32){i32c(r.below(8)+1);e(I(0x75));}e(I(t==F32?(uns?0xb3:0xb2):(uns?0xb8:0xb7)));}
      else{expr(I64,d-1);e(I(OP_I64C,0,0,r.range(1,40)));e(I(uns?0x88:0x87));e(I(t==F32?(uns?0xb5:0xb4):(uns?0xba:0xb9)));}
      if(r.chance(40)){pend++;konstSmallFloat(t);pend--;e(I(t==F32?0x94:0xa2));}
    }}
  void konstSmallFloat(VT t){double v=1.0/(1+r.below(16));if(t==F32){float f=(float)v;u32 x;memcpy(&x,&f,4);e(I(OP_F32C,0,0,x));}else{u64 x;memcpy(&x,&v,8);e(I(OP_F64C,0,0,x));}}
  u64 memMin(u32 mi){return (u64)mems[mi].min*65536;}
  u64 base(u32 mi){return nat[mi]?NATIVE_BASE:0;}
  int anyMem(bool grow){vector<u32> c;for(u32 i=0;i<mems.size();i++)if(!grow||!nat[i])c.push_back(i);return c.empty()?-1:(int)c[r.below(c.size())];}
  // pushes an in-bounds address for an access of width w; returns static offset
  u64 addr(u32 mi,int w,int d){
    u64 size=memMin(mi);bool q=mems[mi].is64;u64 bs=base(mi);bool lim=!q&&!(cs->misc_flags&1); // indices above 2 GB need PWART_MISC_FLAGS_EXTEND_INDEX
    u64 off=0;switch(r.below(8)){case 0:case 1:case 2:off=0;break;case 3:case 4:off=r.below(64);break;case 5:off=r.next()%(size/2);break;case 6:off=r.next()%std::min<u64>(size-w+1,0xffffffffull);break;case 7:off=size-w;break;}
    if(size>0x80000000ull&&r.chance(40)){off=0x7fffff00ull+r.below(0x200);if(off>size-w)off=size-w;}
    if(off>0xffffffffull)off=0xffffffffull;
    u64 room=size-w-off; // idx in [0,room]
    auto K=[&](u64 k){if(q)e(I(OP_I64C,0,0,bs+k));else i32c((u32)k);};
    if(r.chance(35)){u64 k=r.chance(25)?room:r.chance(40)?std::min<u64>(room,r.below(256)):(room?r.next()%(room+1):0);if(room>0x80000100ull&&r.chance(30))k=0x7fffff00ull+r.below(0x200);K(k);return off;}
    u64 mask=1;while(((mask<<1)|1)<=room)mask=(mask<<1)|1;if(room==0)mask=0;
    if(lim&&mask>0x3fffffff)mask=0x3fffffff;
    if(r.chance(60)&&mask>0xff)mask=r.chance(50)?0xff:0x3f;
    expr(q?I64:I32,d-1);if(q){e(I(OP_I64C,0,0,mask));e(I(0x83));}else{i32c((u32)mask);e(I(0x71));}
    u64 k=0;
    if(r.chance(25)&&room>mask&&r.chance(60)){k=room-mask;if(lim&&k>0x3fffffff)k=0x3fffffff;k=k?r.next()%(k+1):0;if(!lim&&room>0x90000000ull&&mask<0x10000&&r.chance(40))k=0x7fff8000ull+r.below(0x10000);}
    if(bs||k){if(q){e(I(OP_I64C,0,0,bs+k));e(I(0x7c));}else{i32c((u32)k);e(I(0x6a));}}
    if(r.chance(15)){int l=tempLocal(q?I64:I32);if(l>=0)e(I(OP_LTEE,l));}
    return off;}
  void load(u16 op,int d){VT t;int w;bool s;memsig(op,t,w,s);u32 mi=r.below(mems.size());u64 off=addr(mi,w,d);u32 al=0;while((1<<al)<w)al++;e(I(op,r.below(al+1),mi,off));}
  void store(int d){static const u16 ops[]={0x36,0x37,0x38,0x39,0x3a,0x3b,0x3c,0x3d,0x3e};u16 op;VT t;int w;bool s;
    do{op=ops[r.below(9)];memsig(op,t,w,s);}while(isfloat(t)&&!p.float_pct);
    u32 mi=r.below(mems.size());u64 off=addr(mi,w,d);pend++;maybeStmt(d);expr(t,d-1);pend--;u32 al=0;while((1<<al)<w)al++;e(I(op,r.below(al+1),mi,off));}
  void num(VT t,int d){
    vector<u16> c;static vector<u16> byret[4];static bool init=false;
    if(!init){init=true;for(u16 op=0x45;op<=0xc4;op++){Sig s;if(!numsig(op,s))continue;int k=s.r==I32?0:s.r==I64?1:s.r==F32?2:3;byret[k].push_back(op);}for(u16 op=0xfc00;op<0xfc08;op++){Sig s;numsig(op,s);byret[s.r==I32?0:1].push_back(op);}}
    int k=t==I32?0:t==I64?1:t==F32?2:3;u16 op;Sig s;
    for(int tries=0;;tries++){op=byret[k][r.below(byret[k].size())];numsig(op,s);if(!p.float_pct&&(isfloat(s.a)||isfloat(s.b))&&tries<50)continue;break;}
    numop(op,d);
  }
  void numop(u16 op,int d){Sig s;numsig(op,s);
    bool tr=(op>=0xa8&&op<=0xab)||(op>=0xae&&op<=0xb1)||op>=0xfc00;
    if(tr&&(op<0xfc00||r.chance(40))){bool uns=op>=0xfc00?(op&1):(op==0xa9||op==0xab||op==0xaf||op==0xb1);boundedFloat(s.a,uns,s.r==I64,d);e(I(op));return;}
    expr(s.a,d-1);
    if(s.b!=VOID){pend++;maybeStmt(d);
      if((op>=0x6d&&op<=0x70)||(op>=0x7f&&op<=0x82)){bool q=op>=0x7f;int z=r.below(10);
        if(z<5){u64 k;do k=constOf(r,s.b,0);while(k==0||(!q&&!(u32)k));if(q)e(I(OP_I64C,0,0,k));else i32c((u32)k);}
        else if(z<9){expr(s.b,d-1);if(q){e(I(OP_I64C,0,0,1));e(I(0x84));}else{i32c(1);e(I(0x72));}}
        else expr(s.b,d-1);}
      else expr(s.b,d-1);
      pend--;}
    e(I(op));}
  void args(const FuncType&t,int d,bool depthArg){
    for(size_t i=0;i<t.p.size();i++){if(depthArg&&i==0){e(I(OP_LGET,0));i32c(1);e(I(0x6b));}else if(pend>p.maxstack-8||d<=0||budget<0)leaf(t.p[i]);else expr(t.p[i],std::min(d-1,r.range(0,d)));pend++;maybeStmt(d-1);}
    pend-=(int)t.p.size();}
  // candidate callee indices
  vector<u32> callees(std::function<bool(const FuncType&)> ok){vector<u32> c;for(u32 i=0;i<fts.size();i++){bool dag=i<nimpf||i>self;if(!dag&&!(i==self&&recursive&&selfRecLeft>0))continue;auto&t=m.types[fts[i]];if((int)t.p.size()+pend>p.maxstack-1||(int)t.r.size()+pend>p.maxstack-1)continue;if(ok(t))c.push_back(i);}return c;}
  void docall(u32 f,int d){auto&t=m.types[fts[f]];bool rec=f==self;if(rec)selfRecLeft--;args(t,d,rec);e(I(OP_CALL,f));}
  // table entries usable for call_indirect
  bool pickIndirect(std::function<bool(const FuncType&)> ok,u32&tb,u32&ix,u32&ty){
    vector<std::pair<u32,u32>> c;for(u32 t=0;t<stableTab.size();t++)for(u32 i=0;i<stableTab[t].size();i++){u32 f=stableTab[t][i];if(f==~0u||f>=fts.size())continue;if(!(f<nimpf||f>self))continue;auto&g=m.types[fts[f]];if((int)g.p.size()+pend>p.maxstack-2||(int)g.r.size()+pend>p.maxstack-1)continue;if(ok(g))c.push_back({t,i});}
    if(c.empty())return false;auto x=c[r.below(c.size())];tb=x.first;ix=x.second;ty=fts[stableTab[tb][ix]];return true;}
  void docalli(u32 tb,u32 ix,u32 ty,int d){auto&t=m.types[ty];args(t,d,false);pend+=t.p.size();idxExpr(ix,d);pend-=t.p.size();e(I(OP_CALLI,ty,tb));}
  // an i32 expression whose value is ix
  void idxExpr(u32 ix,int d){ if(!r.chance(p.calli_idx_expr)){i32c(ix);return;}
    switch(r.below(4)){case 0:{int l=tempLocal(I32);if(l<0){i32c(ix);return;}i32c(ix);e(I(OP_LSET,l));e(I(OP_LGET,l));break;}
      case 1:expr(I32,std::min(d-1,1));i32c(0);e(I(0x71));if(ix){i32c(ix);e(I(0x6a));}break;
      case 2:i32c(ix);i32c(0);pend+=2;leaf(I32);pend-=2;e(I(0x71));e(I(0x72));break;
      default:if(mems.size()&&!mems[0].is64&&false){}i32c(ix+7);i32c(7);e(I(0x6b));}}
  // consume results above, leave value of type t (index k of rs)
  void reduceTo(const vector<VT>&rs,int k){
    int n=rs.size();if(k<0){for(int i=n-1;i>=0;i--)consume(rs[i]);return;}
    for(int i=n-1;i>k;i--)consume(rs[i]);
    if(k==0)return;
    int l=addTmp(rs[k]);e(I(OP_LSET,l));for(int i=k-1;i>=0;i--)consume(rs[i]);e(I(OP_LGET,l));}
  int addTmp(VT t){int l=tempLocal(t);if(l<0)l=addLocal(t,false);return l;}
  void consume(VT t){int l;int k=r.below(4);if(k<2&&(l=pickLocal(t,true))>=0){e(I(OP_LSET,l));return;}if(k==2&&(l=pickGlobal(t,true))>=0){e(I(OP_GSET,l));return;}e(I(OP_DROP));}
  void terminator(VT bt){ // ends the current arm: br out / return / br_table; code after is dead
    vector<u32> c;for(u32 d=0;d<lab.size();d++){auto&L=lab[lab.size()-1-d];if(L.loop)continue;c.push_back(d);}
    int k=r.below(10);
    if(k<6&&!c.empty()){u32 d=c[r.below(c.size())];auto L=lab[lab.size()-1-d];if(L.func){for(VT t:ft.r){expr(t,1);pend++;}pend-=ft.r.size();}else if(L.bt!=VOID)expr(L.bt,2);e(I(OP_BR,d));}
    else {for(VT t:ft.r){expr(t,1);pend++;}pend-=ft.r.size();e(I(OP_RETURN));}
    deadCode(bt);
  }
  // code that is never executed, on a stack of any shape
  void deadCode(VT bt){
    int q=r.below(8);
    if(q==0){int sv=pend;stmtsimple();pend=sv;}
    else if(q==1){konst(I32);e(I(OP_DROP));}
    else if(q==2){if(bt!=VOID)konst(bt);}
    else if(q<5&&p.dead_pct&&budget>0&&dead<2){
      dead++;int sp=pend;int n=r.range(1,3);
      for(int i=0;i<n;i++){int z=r.below(12);
        if(z<5)stmt(2);
        else if(z==5){e(I(0x6a));e(I(r.chance(50)?OP_DROP:OP_UNREACHABLE));}
        else if(z==6)e(I(OP_DROP));
        else if(z==7){e(I(OP_SELECT));e(I(OP_DROP));}
        else if(z==8){int l=pickLocal(r.chance(50)?I32:F64,true);if(l>=0){bool q=r.chance(50);e(I(q?OP_LSET:OP_LTEE,l));if(!q)e(I(r.chance(50)?OP_DROP:OP_UNREACHABLE));}}
        else if(z==9)e(I(OP_UNREACHABLE));
        else if(z==10){Ins b=I(OP_BRTABLE);for(int k=0;k<3;k++)b.tbl.push_back((u32)lab.size()-1);e(b);}
        else if(mems.size()){u32 mi=r.below(mems.size());e(I(0x28,0,mi,r.below(99999)));e(I(OP_DROP));}
      }
      if(bt!=VOID&&r.chance(40))expr(bt,1);
      pend=sp;dead--;}
  }
  int dead=0;
  // an if whose arm is never entered and ends in unreachable
  void never(int d){leaf(I32);i32c(0);e(I(0x71));e(I(OP_IF,VOID));lab.push_back({VOID,false,false});if(r.chance(50))stmts(1,d-1);e(I(OP_UNREACHABLE));deadCode(VOID);
    if(r.chance(30)){e(I(OP_ELSE));stmts(1,d-1);}lab.pop_back();e(I(OP_END));}
  // results of the function, and a conditional return by a branch to its label
  bool resultsFit(){return pend+(int)ft.r.size()<p.maxstack-4;}
  void brFunc(int d){u32 dd=(u32)lab.size()-1;if(!resultsFit())return;
    for(VT t:ft.r){expr(t,std::min(d-1,1));pend++;}
    cond(std::min(d-1,1));e(I(OP_BRIF,dd));
    for(size_t i=ft.r.size();i-->0;){pend--;consume(ft.r[i]);}}
  // next round of an enclosing loop
  void contin(int d){vector<u32> c;for(u32 dd=0;dd<lab.size();dd++)if(lab[lab.size()-1-dd].ctr>=0)c.push_back(dd);if(c.empty())return;u32 dd=c[r.below(c.size())];Label&L=lab[lab.size()-1-dd];L.shared=true;int k=L.ctr;
    if(r.chance(50)){cond(std::min(d-1,1));e(I(OP_IF,VOID));lab.push_back({VOID,false,false});dd++;e(I(OP_LGET,k));i32c(1);e(I(0x6b));e(I(OP_LTEE,k));i32c(0);e(I(0x4a));
      if(r.chance(50))e(I(OP_BRIF,dd));else{e(I(OP_IF,VOID));lab.push_back({VOID,false,false});if(r.chance(40))stmts(1,d-1);e(I(OP_BR,dd+1));deadCode(VOID);lab.pop_back();e(I(OP_END));}
      lab.pop_back();e(I(OP_END));}
    else{e(I(OP_LGET,k));i32c(1);e(I(0x6b));e(I(OP_LTEE,k));i32c(0);e(I(0x4a));e(I(OP_BRIF,dd));}}
  void stmtsimple(){int l;VT t=r.chance(50)?I32:F64;if((l=pickLocal(t,true))>=0){konst(t);e(I(OP_LSET,l));}else{konst(I64);e(I(OP_DROP));}}
  void cond(int d){ if(r.chance(50)){ // comparison
      static const u16 cm[]={0x45,0x46,0x47,0x48,0x49,0x4a,0x4b,0x4c,0x4d,0x4e,0x4f,0x50,0x51,0x52,0x53,0x54,0x55,0x56,0x57,0x58,0x59,0x5a,0x5b,0x5c,0x5d,0x5e,0x5f,0x60,0x61,0x62,0x63,0x64,0x65,0x66};
      u16 op=cm[r.below(p.float_pct?34:22)];numop(op,std::max(d,1));return;}
    expr(I32,d);}
  void arm(VT bt,int d){ // body of a block arm producing bt
    stmts(r.below(3),d);
    if(d>0&&budget>0&&r.chance(p.dead_pct)&&lab.size()>0){terminator(bt);return;}
    if(bt!=VOID)expr(bt,d);}
  void blockExpr(VT t,int d){e(I(OP_BLOCK,t));lab.push_back({t,false,false});
    stmts(r.below(2),d-1);
    if(r.chance(50)){expr(t,d-1);pend++;cond(d-1);pend--;e(I(OP_BRIF,0));
      if(r.chance(50))e(I(OP_DROP));else{int l=addTmp(t);e(I(OP_LSET,l));}
      stmts(r.below(2),d-1);expr(t,d-1);}
    else arm(t,d-1);
    lab.pop_back();e(I(OP_END));}
  void loopHdr(int&c){c=addLocal(I32,true);i32c(r.range(1,4));e(I(OP_LSET,c));}
  void loopTail(int c,int d){ // decrement and branch back
    e(I(OP_LGET,c));i32c(1);e(I(0x6b));bool sh=lab.back().shared;int form=r.below(10);
    if(form>=7){ // unconditional branches and tables
      e(I(OP_LTEE,c));i32c(0);e(I(0x4a));
      if(form==7){e(I(OP_IF,VOID));lab.push_back({VOID,false,false});if(r.chance(30))stmts(1,d-1);e(I(OP_BR,1));deadCode(VOID);lab.pop_back();if(r.chance(20))e(I(OP_ELSE));e(I(OP_END));}
      else if(form==8){int l=addTmp(I32);e(I(OP_LSET,l));e(I(OP_BLOCK,VOID));lab.push_back({VOID,false,false});e(I(OP_LGET,l));Ins b=I(OP_BRTABLE);b.tbl={0,1};if(r.chance(30))b.tbl={0,1,0};e(b);deadCode(VOID);lab.pop_back();e(I(OP_END));}
      else{int l=addTmp(I32);e(I(OP_LSET,l));e(I(OP_BLOCK,VOID));lab.push_back({VOID,false,false});e(I(OP_LGET,l));e(I(0x45));e(I(OP_BRIF,0));e(I(OP_BR,1));deadCode(VOID);lab.pop_back();e(I(OP_END));}
      return;}
    if(sh){if(r.chance(50)){e(I(OP_LTEE,c));}else{e(I(OP_LSET,c));e(I(OP_LGET,c));}i32c(0);e(I(0x4a));}
    else if(r.chance(70)){e(I(OP_LTEE,c));if(r.chance(40)){i32c(0);e(I(0x4a));}}
    else{e(I(OP_LSET,c));e(I(OP_LGET,c));if(r.chance(50)){i32c(0);e(I(0x47));}}
    e(I(OP_BRIF,0));}
  void loopExpr(VT t,int d){int c;loopHdr(c);e(I(OP_LOOP,t));lab.push_back({t,true,false,c});stmts(r.range(0,2),d-1);loopTail(c,d);expr(t,d-1);lab.pop_back();e(I(OP_END));}
  void ifExpr(VT t,int d){cond(d-1);e(I(OP_IF,t));lab.push_back({t,false,false});arm(t,d-1);e(I(OP_ELSE));arm(t,d-1);lab.pop_back();e(I(OP_END));}
  void brTableExpr(VT t,int d){ // nested blocks with result t, br_table carrying a value
    int n=r.range(1,5);for(int i=0;i<n;i++){e(I(OP_BLOCK,t));lab.push_back({t,false,false});}
    stmts(r.below(2),d-1);expr(t,d-1);pend++;selector(n,d-1);pend--;
    Ins b=I(OP_BRTABLE);int k=r.range(1,n+3);for(int i=0;i<k;i++)b.tbl.push_back(r.below(n));if(ft.r.size()==1&&ft.r[0]==t&&r.chance(40))b.tbl[r.below(b.tbl.size())]=(u32)lab.size()-1;else if(r.chance(40))for(u32 dd=n;dd<lab.size();dd++){auto&L=lab[lab.size()-1-dd];if(!L.loop&&!L.func&&L.bt==t){b.tbl[r.below(b.tbl.size())]=dd;break;}}e(b);deadCode(t);
    for(int i=0;i<n;i++){lab.pop_back();e(I(OP_END));if(i<n-1||true){ if(r.chance(60)){consume(t);expr(t,std::max(0,d-2));} }}
  }
  void selector(int n,int d){if(r.chance(70)){expr(I32,d);i32c(r.chance(50)?7:3);e(I(0x71));}else if(r.chance(50))i32c(r.below(n+3));else expr(I32,d);}
  void expr(VT t,int d){
    if(d<=0||budget<=0||pend>p.maxstack-6){leaf(t);return;}
    struct W{int w,k;};vector<W> ws;auto A=[&](int w,int k){if(w>0)ws.push_back({w,k});};
    bool n=!isref(t);
    A(p.e_const,0);A(p.e_lget,1);A(p.e_gget,2);if(n&&mems.size())A(p.e_load,3);if(n)A(p.e_num,4);A(p.e_tee,5);A(p.e_select,6);A(p.e_block,7);A(p.e_loop,8);A(p.e_if,9);A(p.e_call,10);A(p.e_calli,11);
    if(t==I32||t==I64){if(anyMem(true)>=0){A(p.e_msize,12);A(p.e_mgrow,13);}}
    if(t==I32&&tabs.size())A(p.e_tsize,14);if(isref(t)&&tabs.size())A(p.e_tget*10,15);if(t==I32&&refs)A(p.e_ref,16);A(p.s_brtable/2,17);A(p.s_pressure,18);
    int tot=0;for(auto&x:ws)tot+=x.w;int q=r.below(tot),k=0;for(auto&x:ws){if(q<x.w){k=x.k;break;}q-=x.w;}
    int l;
    switch(k){
      case 0:konst(t);return;
      case 1:if((l=pickLocal(t,false))>=0)e(I(OP_LGET,l));else leaf(t);return;
      case 2:if((l=pickGlobal(t,false))>=0)e(I(OP_GGET,l));else leaf(t);return;
      case 3:{static const u16 li[]={0x28,0x2c,0x2d,0x2e,0x2f},ll[]={0x29,0x30,0x31,0x32,0x33,0x34,0x35};u16 op=t==I32?li[r.below(5)]:t==I64?ll[r.below(7)]:t==F32?0x2a:0x2b;load(op,d);return;}
      case 4:num(t,d);return;
      case 5:if((l=pickLocal(t,true))>=0){expr(t,d-1);e(I(OP_LTEE,l));}else leaf(t);return;
      case 6:expr(t,d-1);pend++;maybeStmt(d);expr(t,d-1);pend++;cond(d-1);pend-=2;if(isref(t)||r.chance(15))e(I(OP_SELECTT,t));else e(I(OP_SELECT));return;
      case 7:blockExpr(t,d);return;case 8:loopExpr(t,d);return;case 9:ifExpr(t,d);return;
      case 10:{auto c=callees([&](const FuncType&f){return std::find(f.r.begin(),f.r.end(),t)!=f.r.end();});if(c.empty()){num2(t,d);return;}u32 f=c[r.below(c.size())];docall(f,d-1);auto&rs=m.types[fts[f]].r;int kk=std::find(rs.begin(),rs.end(),t)-rs.begin();reduceTo(rs,kk);return;}
      case 11:{u32 tb,ix,ty;if(!pickIndirect([&](const FuncType&f){return std::find(f.r.begin(),f.r.end(),t)!=f.r.end();},tb,ix,ty)){num2(t,d);return;}docalli(tb,ix,ty,d-1);auto&rs=m.types[ty].r;int kk=std::find(rs.begin(),rs.end(),t)-rs.begin();reduceTo(rs,kk);return;}
      case 12:{u32 mi=anyMem(true);e(I(OP_MSIZE,0,mi));fixW(mems[mi].is64?I64:I32,t);return;}
      case 13:{u32 mi=anyMem(true);grow(mi,d);fixW(mems[mi].is64?I64:I32,t);return;}
      case 14:e(I(OP_TSIZE,r.below(tabs.size())));return;
      case 15:{vector<u32> c;for(u32 i=0;i<tabs.size();i++)if(tabs[i].et==t&&tabs[i].min>0)c.push_back(i);if(c.empty()){leaf(t);return;}u32 x=c[r.below(c.size())];tidx(x,d-1);e(I(OP_TGET,x));return;}
      case 16:expr(r.chance(50)?FUNCREF:EXTERNREF,d-1);e(I(OP_REFISNULL));return;
      case 17:brTableExpr(t,d);return;
      case 18:pressure(t,d);return;
    }
    leaf(t);
  }
  void num2(VT t,int d){if(isref(t))leaf(t);else num(t,d);}
  void fixW(VT from,VT to){if(from==to)return;e(I(from==I32?0xad:0xa7));}
  void grow(u32 mi,int d){bool q=mems[mi].is64;int k=r.below(10);u64 v=k<5?r.below(3):k<7?0:k<8?(u64)constOf(r,q?I64:I32,0):r.range(0,p.growmem_pages);
    if(r.chance(70)){if(q)e(I(OP_I64C,0,0,v));else i32c((u32)v);}else{expr(q?I64:I32,std::max(0,d-1));if(q){e(I(OP_I64C,0,0,1));e(I(0x83));}else{i32c(1);e(I(0x71));}}
    e(I(OP_MGROW,0,mi));}
  void tidx(u32 t,int d){u32 n=tabs[t].min;if(r.chance(50)){i32c(r.below(n));return;}u32 mask=1;while(mask*2<=n)mask*=2;mask--;expr(I32,d);i32c(mask);e(I(0x71));}
  // many simultaneously live values of mixed types folded into one
  void pressure(VT t,int d){
    int room=p.maxstack-pend-4;if(room<3){leaf(t);return;}
    int n=r.range(2,std::min(room,r.chance(30)?24:10));vector<VT> ts;
    bool mixed=r.chance(50);
    for(int i=0;i<n;i++){VT x=mixed?(p.float_pct&&r.chance(40)?(r.chance(50)?F32:F64):(r.chance(50)?I32:I64)):(isref(t)?I32:t);ts.push_back(x);
      int z=r.below(10);if(z<4)leaf(x);else if(z<7){ // computed value (register)
        pressTop(x,std::min(d-1,1));}
      else expr(x,std::min(d-1,2));
      pend++;if(r.chance(p.interleave/2))stmt(std::min(d-1,1));}
    // fold
    for(int i=n-1;i>0;i--){VT a=ts[i-1],b=ts[i];pend--;
      if(a==b){static const u16 oi[]={0x6a,0x6b,0x73,0x71,0x72,0x6c,0x74,0x48,0x4f},ol[]={0x7c,0x7d,0x85,0x83,0x84,0x7e,0x86},of[]={0x92,0x93,0x96,0x97},od[]={0xa0,0xa1,0xa4,0xa5};
        u16 op=a==I32?oi[r.below(9)]:a==I64?ol[r.below(7)]:a==F32?of[r.below(4)]:od[r.below(4)];e(I(op));}
      else{ // convert b to a
        if(b==I32&&a==I64)e(I(0xac));else if(b==I64&&a==I32)e(I(0xa7));else if(b==F32&&a==F64)e(I(0xbb));else if(b==F64&&a==F32)e(I(0xb6));
        else if(!isfloat(b)&&isfloat(a)){e(I(b==I32?(a==F32?0xb2:0xb7):(a==F32?0xb4:0xb9)));}
        else{ // float->int: compare with a constant
          konst(b);e(I(b==F32?0x5d:0x63));if(a==I64)e(I(0xad));}
        if(a==I32)e(I(0x73));else if(a==I64)e(I(0x7c));else if(a==F32)e(I(0x92));else e(I(0xa0));}
    }
    pend--;
    VT x=ts[0];if(x==t)return;
    consume(x);leaf(t);
  }
  void pressTop(VT x,int d){ Sig s;(void)s;switch(x){case I32:leaf(I32);i32c(r.below(100));e(I(r.chance(50)?0x6a:0x73));break;case I64:leaf(I64);e(I(OP_I64C,0,0,r.below(100)));e(I(r.chance(50)?0x7c:0x85));break;case F32:leaf(F32);pend++;konst(F32);pend--;e(I(0x92));break;case F64:leaf(F64);pend++;konst(F64);pend--;e(I(0xa0));break;default:leaf(x);} }
  void stmts(int n,int d){for(int i=0;i<n&&budget>0;i++)stmt(d);}
  VT anyT(){return randVT(r,p,refs);}
  void stmt(int d){
    if(budget<=0)return;
    if(d<=0){int l;VT t=anyT();if((l=pickLocal(t,true))>=0){leaf(t);e(I(OP_LSET,l));}return;}
    struct W{int w,k;};vector<W> ws;auto A=[&](int w,int k){if(w>0)ws.push_back({w,k});};
    A(p.s_lset,0);A(p.s_gset,1);if(mems.size())A(p.s_store,2);A(p.s_drop,3);A(p.s_block,4);A(p.s_loop,5);A(p.s_if,6);A(p.s_brif,7);A(p.s_call,8);A(p.s_calli,9);if(mems.size()){A(p.s_mfill,10);A(p.s_mcopy,11);A(p.s_mgrow,12);}
    if(tabs.size()){A(p.s_tset,13);A(p.s_tfill,14);A(p.s_tcopy,15);}A(p.s_brtable,16);A(p.s_nop,17);A(p.s_retif,18);
    int tot=0;for(auto&x:ws)tot+=x.w;int q=r.below(tot),k=0;for(auto&x:ws){if(q<x.w){k=x.k;break;}q-=x.w;}
    int l;VT t=anyT();
    switch(k){
      case 0:if((l=pickLocal(t,true))<0){if(loc.size()<200)l=addLocal(t,false);else return;}expr(t,d-1);e(I(OP_LSET,l));return;
      case 1:if((l=pickGlobal(t,true))<0)return;expr(t,d-1);e(I(OP_GSET,l));return;
      case 2:store(d);return;
      case 3:expr(t,d-1);e(I(OP_DROP));return;
      case 4:
        if(!dead&&lab.size()<20&&r.chance(p.deepblock_pct)){ // nested so deep that branch depths need seven bits and more
          int n=r.range(55,r.chance(50)?90:300);for(int i=0;i<n;i++){bool lp=r.chance(10);e(I(lp?OP_LOOP:OP_BLOCK,VOID));lab.push_back({VOID,lp,false});if(r.chance(2))stmt(1);}
          for(int i=0;i<n;i++){if(r.chance(i<3?70:4))switch(r.below(4)){
              case 0:{u32 x=r.below(lab.size());auto&L=lab[lab.size()-1-x];if(!L.loop&&!L.func&&L.bt==VOID){cond(1);e(I(OP_BRIF,x));}break;}
              case 1:{Ins b=I(OP_BRTABLE);int k=r.range(1,r.chance(20)?300:12);for(int q=0;q<k*4&&(int)b.tbl.size()<k;q++){u32 x=r.below(lab.size());auto&L=lab[lab.size()-1-x];if(!L.loop&&!L.func&&L.bt==VOID)b.tbl.push_back(x);}
                if(b.tbl.empty())break;cond(1);e(I(OP_IF,VOID));lab.push_back({VOID,false,false});for(auto&x:b.tbl)x++;expr(I32,1);i32c(r.chance(30)?511:15);e(I(0x71));e(b);lab.pop_back();e(I(OP_END));break;}
              default:stmt(1);}
            lab.pop_back();e(I(OP_END));}
          return;}
        e(I(OP_BLOCK,VOID));lab.push_back({VOID,false,false});stmts(r.range(1,3),d-1);if(r.chance(p.dead_pct))terminator(VOID);lab.pop_back();e(I(OP_END));return;
      case 5:{int c;loopHdr(c);e(I(OP_LOOP,VOID));lab.push_back({VOID,true,false,c});stmts(r.range(1,3),d-1);loopTail(c,d);lab.pop_back();e(I(OP_END));return;}
      case 6:cond(d-1);e(I(OP_IF,VOID));lab.push_back({VOID,false,false});stmts(r.range(1,2),d-1);if(r.chance(p.dead_pct))terminator(VOID);if(r.chance(50)){e(I(OP_ELSE));stmts(r.range(0,2),d-1);if(r.chance(p.dead_pct))terminator(VOID);}lab.pop_back();e(I(OP_END));return;
      case 7:{if(r.chance(12)){brFunc(d);return;}if(r.chance(20)){contin(d);return;}vector<u32> c;for(u32 dd=0;dd<lab.size();dd++){auto L=lab[lab.size()-1-dd];if(!L.loop&&!L.func)c.push_back(dd);}if(c.empty())return;u32 dd=c[r.below(c.size())];auto L=lab[lab.size()-1-dd];
        if(L.bt!=VOID){expr(L.bt,d-1);pend++;cond(d-1);pend--;e(I(OP_BRIF,dd));consume(L.bt);}else{cond(d-1);e(I(OP_BRIF,dd));}return;}
      case 8:{auto c=callees([&](const FuncType&){return true;});if(c.empty())return;u32 f=c[r.below(c.size())];docall(f,d-1);reduceTo(m.types[fts[f]].r,-1);return;}
      case 9:{u32 tb,ix,ty;if(!pickIndirect([&](const FuncType&){return true;},tb,ix,ty))return;docalli(tb,ix,ty,d-1);reduceTo(m.types[ty].r,-1);return;}
      case 10:{u32 mi=r.below(mems.size());bool q=mems[mi].is64;u64 sz=memMin(mi);u64 n=r.chance(20)?0:r.below(r.chance(30)?3000:64);if(n>sz)n=sz;u64 off=r.chance(15)?sz-n:r.next()%(sz-n+1);
        if(q)e(I(OP_I64C,0,0,off+base(mi)));else bulkArg((u32)off,d);pend++;expr(I32,std::min(d-1,2));pend++;if(q)e(I(OP_I64C,0,0,n));else bulkArg((u32)n,d);pend-=2;e(I(OP_MFILL,0,mi));return;}
      case 11:{u32 a=r.below(mems.size()),b=r.chance(60)?a:r.below(mems.size());u64 sa=memMin(a),sb=memMin(b);u64 n=r.chance(15)?0:r.below(r.chance(30)?3000:64);if(n>sa)n=sa;if(n>sb)n=sb;u64 da=r.next()%(sa-n+1),so=r.next()%(sb-n+1);
        if(a==b&&r.chance(50)){so=da+(s64)r.range(-20,20);if(so>sb-n)so=da;}
        bool qa=mems[a].is64,qb=mems[b].is64;if(qa)e(I(OP_I64C,0,0,da+base(a)));else bulkArg((u32)da,d);pend++;if(qb)e(I(OP_I64C,0,0,so+base(b)));else bulkArg((u32)so,d);pend++;if(qa&&qb)e(I(OP_I64C,0,0,n));else bulkArg((u32)n,d);pend-=2;e(I(OP_MCOPY,a,b));return;}
      case 12:{int mi=anyMem(true);if(mi<0)return;grow(mi,d);consume(mems[mi].is64?I64:I32);return;}
      case 13:{u32 x=r.below(tabs.size());if(!tabs[x].min)return;tidx(x,d-1);pend++;maybeStmt(d-1);expr(tabs[x].et,d-1);pend--;e(I(OP_TSET,x));return;}
      case 14:{u32 x=r.below(tabs.size());u32 sz=tabs[x].min;u32 n=r.below(sz+1),off=r.below(sz-n+1);bulkArg(off,d);pend++;expr(tabs[x].et,d-1);pend++;bulkArg(n,d);pend-=2;e(I(OP_TFILL,x));return;}
      case 15:{u32 a=r.below(tabs.size());vector<u32> c;for(u32 i=0;i<tabs.size();i++)if(tabs[i].et==tabs[a].et)c.push_back(i);u32 b=c[r.below(c.size())];u32 n=r.below(std::min(tabs[a].min,tabs[b].min)+1);u32 da=r.below(tabs[a].min-n+1),so=r.below(tabs[b].min-n+1);bulkArg(da,d);pend++;bulkArg(so,d);pend++;bulkArg(n,d);pend-=2;e(I(OP_TCOPY,a,b));return;}
      case 16:{int n=r.range(1,6);for(int i=0;i<n;i++){e(I(OP_BLOCK,VOID));lab.push_back({VOID,false,false});}
        selector(n,d-1);Ins b=I(OP_BRTABLE);int kk=r.range(1,r.chance(10)?40:n+3);for(int i=0;i<kk;i++)b.tbl.push_back(r.below(n));
        if(lab.size()>(size_t)n&&r.chance(30)){ // also an outer void label
          for(u32 dd=n;dd<lab.size();dd++){auto&L=lab[lab.size()-1-dd];if(!L.loop&&(L.func?ft.r.empty()&&r.chance(30):L.bt==VOID)){b.tbl[r.below(b.tbl.size())]=dd;break;}}}
        e(b);
        for(int i=0;i<n;i++){lab.pop_back();e(I(OP_END));if(r.chance(60))stmts(1,d-1);}return;}
      case 17:e(I(OP_NOP));if(r.chance(50))never(d);return;
      case 18:cond(d-1);e(I(OP_IF,VOID));lab.push_back({VOID,false,false});for(VT x:ft.r){expr(x,1);pend++;}pend-=ft.r.size();e(I(OP_RETURN));lab.pop_back();e(I(OP_END));return;
    }
  }
  void bulkArg(u32 v,int d){if(r.chance(60)||(v>=0x7fffffff&&!(cs->misc_flags&1)))i32c(v);else idxExpr(v,d);}
  void body(Func&f){
    ft=m.types[f.type];loc=ft.p;loc.insert(loc.end(),f.locals.begin(),f.locals.end());newLocals=f.locals;frozen.assign(loc.size(),0);
    lab.push_back({VOID,false,true});
    if(recursive){frozen[0]=1;e(I(OP_LGET,0));i32c(0);e(I(0x4c));e(I(OP_IF,VOID));lab.push_back({VOID,false,false});for(VT t:ft.r)leaf(t);e(I(OP_RETURN));lab.pop_back();e(I(OP_END));}
    stmts(r.range(0,p.body_stmts),p.depth);
    bool tail=false;
    if(r.chance(p.tail_pct)){
      auto c=callees([&](const FuncType&t){return t.r==ft.r;});u32 tb,ix,ty;
      if(!c.empty()&&r.chance(70)){u32 x=c[r.below(c.size())];bool rec=x==self;args(m.types[fts[x]],p.depth-1,rec);e(I(OP_RCALL,x));tail=true;}
      else if(pickIndirect([&](const FuncType&t){return t.r==ft.r;},tb,ix,ty)){auto&t=m.types[ty];args(t,p.depth-1,false);pend+=t.p.size();idxExpr(ix,2);pend-=t.p.size();e(I(OP_RCALLI,ty,tb));tail=true;}
    }
    if(!tail){
      int k=r.below(20);
      for(VT t:ft.r){expr(t,ft.r.size()>3?2:p.depth-1);pend++;maybeStmt(1);}
      pend-=ft.r.size();
      if(k==0)e(I(OP_RETURN));else if(k==1)e(I(OP_BR,0));else if(k==2){Ins b=I(OP_BRTABLE);b.tbl={0,0};if(ft.r.size()<20){leaf(I32);e(b);deadCode(VOID);}}
      else if(k==3){e(I(OP_RETURN));e(I(OP_UNREACHABLE));deadCode(VOID);}
    }
    // initialise everything first if asked to
    if(p.initall){Code pre;size_t np=ft.p.size();for(size_t i=np;i<loc.size();i++){Rng&q=r;VT t=loc[i];Code sv;sv.swap(o);if(isref(t))e(I(OP_REFNULL,t));else{u64 kk=constOf(q,t,0);e(I(t==I32?OP_I32C:t==I64?OP_I64C:t==F32?OP_F32C:OP_F64C,0,0,t==I32||t==F32?(u32)kk:kk));}e(I(OP_LSET,(u32)i));sv.swap(o);pre.insert(pre.end(),sv.begin(),sv.end());}
      o.insert(o.begin(),pre.begin(),pre.end());}
    f.locals=newLocals;f.body=o;
  }
};
static Code constExpr(Rng&r,VT t,const Module&m,const Prof&p,int depth=0){
  Code c;auto gl=m.allglobals();u32 ni=m.nimp(3);
  vector<u32> cand;for(u32 i=0;i<ni;i++)if(gl[i].t==t&&!gl[i].mut)cand.push_back(i);
  if(!cand.empty()&&r.chance(30)){c.push_back(I(OP_GGET,cand[r.below(cand.size())]));return c;}
  if(p.extconst&&depth<3&&(t==I32||t==I64)&&r.chance(40)){Code a=constExpr(r,t,m,p,depth+1),b=constExpr(r,t,m,p,depth+1);c=a;c.insert(c.end(),b.begin(),b.end());c.push_back(I((t==I32?0x6a:0x7c)+r.below(3)));return c;}
  u64 k=constOf(r,t,p.nanconst_pct);
  switch(t){case I32:c.push_back(I(OP_I32C,0,0,(u32)k));break;case I64:c.push_back(I(OP_I64C,0,0,k));break;case F32:c.push_back(I(OP_F32C,0,0,(u32)k));break;case F64:c.push_back(I(OP_F64C,0,0,k));break;
    case FUNCREF:{u32 nf=m.functypes().size();if(nf&&r.chance(70))c.push_back(I(OP_REFFUNC,r.below(nf)));else c.push_back(I(OP_REFNULL,FUNCREF));break;}
    default:c.push_back(I(OP_REFNULL,EXTERNREF));}
  return c;
}
static Code offConst(Rng&r,u64 v,bool q,const Prof&p){Code c;auto K=[&](u64 x){return q?I(OP_I64C,0,0,x):I(OP_I32C,0,0,(u32)x);};
  if(p.extconst&&r.chance(40)){u64 a=r.next()%(v+1);if(r.chance(50)){c.push_back(K(a));c.push_back(K(v-a));c.push_back(I(q?0x7c:0x6a));}else{c.push_back(K(v+a));c.push_back(K(a));c.push_back(I(q?0x7d:0x6b));}}else c.push_back(K(v));return c;}
static string oddName(Rng&r,int scheme,int i){
  switch(scheme){
    case 1:return string(i+1,'a');
    case 2:{string s;int n=r.range(1,40);while((int)s.size()<n){int k=r.below(10);if(k<7)s+=(char)r.range(0x20,0x7e);else if(k<8)s+=(char)r.range(1,0x1f);else if(k<9){s+=(char)(0xc2+r.below(0x1e));s+=(char)(0x80+r.below(0x40));}else{s+=(char)(0xe1+r.below(12));s+=(char)(0x80+r.below(0x40));s+=(char)(0x80+r.below(0x40));}}return s+std::to_string(i);}
    case 3:return string(r.chance(50)?180:120,'x')+std::to_string(i);
    case 4:return string(i%4,'0')+std::to_string(i/4);
    case 5:{string s="abcdefgh";for(int b=0;b<8;b++)if(i>>b&1)s[b]-=32;return s;}
    case 6:{string s=std::to_string(i);return s+string(i%2?200:3,'.')+(i%3?"f":"g");}
    case 7:{string s=std::to_string(i);s.insert(0,string(255-s.size(),'z'));return s;}
    default:return "M"+std::to_string(i);}
}
void genModule(Rng&r,const Prof&p,Case&c,Module&m,bool refs){
  u32 self=0;while(&c.mods[self]!=&m)self++;
  // types
  // now and then index spaces so large that indices need seven bits and more
  bool many=r.chance(p.many_pct);auto big=[&](int pct){return many&&r.chance(pct);};
  if(big(50)){int n=r.range(40,200);for(int i=0;i<n;i++)m.addType(randType(r,p,refs));}
  int nt=r.range(2,6);for(int i=0;i<nt;i++)m.addType(randType(r,p,refs));
  // imports
  int nh=p.nhost_max?r.range(0,p.nhost_max):0;if(nh&&big(30))nh=r.range(60,200);
  struct Imp{Import i;int ord;};vector<Import> imps;
  for(int i=0;i<nh;i++){Import x;x.mod="env";x.kind=0;int reuse=c.hf.size()&&r.chance(20)?(int)r.below(c.hf.size()):-1;
    if(reuse<0&&c.hf.size()>=16)reuse=r.below(16);
    if(reuse<0){HostFn h;h.ft=randType(r,p,refs);if(h.ft.p.size()>12)h.ft.p.resize(12);h.kind=r.chance(p.hostwrite_pct)?2:r.below(10)<8?0:1;c.hf.push_back(h);reuse=(int)c.hf.size()-1;}
    x.field="h"+std::to_string(reuse);x.type=m.addType(c.hf[reuse].ft);imps.push_back(x);}
  int nm=p.nmem_max?r.range(p.nmem_max>1?1:(r.chance(85)?1:0),p.nmem_max):0;bool manyMem=nm&&big(35);if(manyMem)nm=r.range(60,140);
  vector<MemT> own;
  for(int i=0;i<nm;i++){bool is64=r.chance(p.mem64_pct);bool fx=r.chance(p.mem_fixed_pct);u32 pg=!manyMem&&r.chance(p.bigmem_pct)?r.range(2,5):1;
    if(r.chance(p.native_pct)){bool have=false;for(auto&h:c.hm)have|=h.native;if(!have){HostMem h;h.native=true;h.pages=h.max=2;c.hm.push_back(h);}
      Import x;x.mod="pwart_builtin";x.field="native_memory";x.kind=2;x.is64=true;x.min=2;imps.push_back(x);continue;}
    if(r.chance(p.hugemem_pct)){bool have=false;for(auto&h:c.hm)have|=h.huge;if(have)continue;
      HostMem h;h.huge=h.fixed=true;h.is64=is64;h.max=65536;h.pages=r.chance(50)?65536:r.chance(50)?32769+r.below(32000):32760+r.below(16);c.hm.push_back(h);
      Import x;x.mod="env";x.kind=2;x.field="m"+std::to_string(c.hm.size()-1);x.min=h.pages;x.is64=is64;x.hasmax=r.chance(50);x.max=65536;imps.push_back(x);continue;}
    if(imps.size()<90&&r.chance(manyMem?p.mem_import_pct/8:p.mem_import_pct)){HostMem h;h.pages=pg;h.fixed=fx;h.is64=is64;h.max=fx?pg+r.below(4):(r.chance(50)?65536:pg+r.below(6));h.init.resize(r.below(200));for(auto&b:h.init)b=(u8)r.next();c.hm.push_back(h);
      Import x;x.mod="env";x.kind=2;x.field="m"+std::to_string(c.hm.size()-1);x.min=pg;x.is64=is64;x.hasmax=h.max!=65536&&r.chance(50);x.max=h.max+(r.chance(30)?r.below(10):0);imps.push_back(x);}
    else{MemT t;t.min=pg;t.is64=is64;t.hasmax=fx;t.max=pg+r.below(5);own.push_back(t);}}
  int ntb=p.ntab_max?r.range(r.chance(70)?1:0,p.ntab_max):0;bool manyTab=ntb&&big(45);if(manyTab)ntb=r.range(60,140);vector<TableT> ownt;
  for(int i=0;i<ntb;i++){VT et=i==0||!refs||r.chance(60)?FUNCREF:EXTERNREF;u32 sz=r.range(1,20);if(manyTab&&i)sz=r.range(1,4);else if(r.chance(3))sz=r.range(100,600);
    if(r.chance(manyTab?p.tab_import_pct/8:p.tab_import_pct)){HostTab h;h.size=sz;h.et=et;for(u32 k=0;k<sz;k++)h.init.push_back(et==FUNCREF?-1:(int)r.below(1000));c.ht.push_back(h);Import x;x.mod="env";x.kind=1;x.et=et;x.field="t"+std::to_string(c.ht.size()-1);x.min=sz;x.hasmax=r.chance(30);x.max=sz+r.below(5);imps.push_back(x);}
    else{TableT t;t.et=et;t.min=sz;t.hasmax=r.chance(40);t.max=sz+r.below(9);ownt.push_back(t);}}
  int ng=p.nglob_max?r.range(0,p.nglob_max):0;bool manyGlob=ng&&big(40);if(manyGlob)ng=r.range(60,280);vector<std::pair<VT,bool>> owng;
  for(int i=0;i<ng;i++){VT t=randVT(r,p,refs);bool mut=r.chance(75);
    if(r.chance(manyGlob?p.glob_import_pct/8:p.glob_import_pct)){HostGlob h;h.t=t;h.mut=mut;h.v=isref(t)?(t==EXTERNREF?r.below(5000):0):constOf(r,t,p.nanconst_pct);c.hg.push_back(h);Import x;x.mod="env";x.kind=3;x.gt=t;x.mut=mut;x.field="g"+std::to_string(c.hg.size()-1);imps.push_back(x);}
    else owng.push_back({t,mut});}
  // imports from modules loaded earlier
  std::map<std::pair<const void*,u32>,u32> dummy;
  for(u32 j=0;j<self;j++){const Module&x=c.mods[j];auto xf=x.functypes();auto xt=x.alltables();auto xm=x.allmems();auto xg=x.allglobals();
    vector<char> nat;for(auto&i:x.imports)if(i.kind==2)nat.push_back(i.mod=="pwart_builtin");nat.resize(xm.size());
    int n=r.range(0,8);for(int k=0;k<n&&x.exports.size();k++){auto&ex=x.exports[r.below(x.exports.size())];if(ex.kind==2&&(nat[ex.idx]||r.chance(30)))continue;
      Import y;y.mod=c.names[j];y.field=ex.name;y.kind=ex.kind;
      switch(ex.kind){
        case 0:{auto&ft=x.types[xf[ex.idx]];if(!refs){bool rf=false;for(VT v:ft.p)rf|=isref(v);for(VT v:ft.r)rf|=isref(v);if(rf)continue;}y.type=m.addType(ft);break;}
        case 1:{auto&t=xt[ex.idx];if(!refs&&t.et!=FUNCREF)continue;y.et=t.et;y.min=t.min;y.hasmax=t.hasmax&&r.chance(60);y.max=t.max;break;}
        case 2:{auto&t=xm[ex.idx];y.min=t.min;y.is64=t.is64;y.hasmax=t.hasmax&&r.chance(60);y.max=t.max;break;}
        case 3:{auto&t=xg[ex.idx];if(!refs&&isref(t.t))continue;y.gt=t.t;y.mut=t.mut;break;}}
      if(y.kind==2&&imps.size()>40)continue;
      imps.push_back(y);}}
  // shuffle imports
  for(size_t i=imps.size();i>1;i--)std::swap(imps[i-1],imps[r.below(i)]);
  m.imports=imps;
  m.mems=own;m.tables=ownt;
  // functions (types first)
  int nf=r.range(p.nf_min,p.nf_max);vector<char> rec;u32 padA=0,padB=0;if(big(50)){padA=r.chance(80)?r.range(50,200):0;padB=r.chance(40)?r.range(1,80):0;}
  if(r.chance(p.start_pct))m.addType(FuncType());
  for(int i=0;i<nf;i++){Func f;FuncType t=r.chance(p.start_pct/3)?FuncType():m.types[r.below(m.types.size())];bool rc=r.chance(p.recur_pct);if(rc){t.p.insert(t.p.begin(),I32);}f.type=m.addType(t);rec.push_back(rc);
    int nl=r.range(0,p.locals_max);if(r.chance(p.biglocals_pct))nl=r.range(20,r.chance(20)?400:120);for(int k=0;k<nl;k++)f.locals.push_back(randVT(r,p,refs));m.funcs.push_back(f);}
  // functions that only return constants, before and behind
  if(padA+padB){auto mk=[&]{Func f;f.type=r.below(m.types.size());for(VT t:m.types[f.type].r){if(isref(t))f.body.push_back(I(OP_REFNULL,t));else f.body.push_back(I(t==I32?OP_I32C:t==I64?OP_I64C:t==F32?OP_F32C:OP_F64C,0,0,t==F32||t==F64?(u64)0:(u64)r.below(1000000)));}return f;};
    for(u32 i=0;i<padB;i++)m.funcs.push_back(mk());vector<Func> a;for(u32 i=0;i<padA;i++)a.push_back(mk());m.funcs.insert(m.funcs.begin(),a.begin(),a.end());}
  m.padf=padA;m.padb=padB;
  for(auto&g:owng){GlobalT x;x.t=g.first;x.mut=g.second;x.init=constExpr(r,x.t,m,p);m.globals.push_back(x);}
  // exports: everything, under generated names
  u32 nfall=m.functypes().size();
  for(u32 i=0;i<nfall;i++)m.exports.push_back({"f"+std::to_string(i),0,i});
  for(u32 i=0;i<m.alltables().size();i++)m.exports.push_back({"t"+std::to_string(i),1,i});
  for(u32 i=0;i<m.allmems().size();i++)m.exports.push_back({"m"+std::to_string(i),2,i});
  for(u32 i=0;i<m.allglobals().size();i++)m.exports.push_back({"g"+std::to_string(i),3,i});
  for(size_t i=m.exports.size();i>1;i--)std::swap(m.exports[i-1],m.exports[r.below(i)]);
  if(p.names){int sc=r.chance(40)?0:r.range(1,7);if(m.exports.size()>200&&(sc==1||sc==5))sc=6; // too few names of these forms
    if(sc){std::set<string> used;int i=0;for(auto&x:m.exports){string s;do s=oddName(r,sc,i++);while(s.size()>255||used.count(s));if(r.chance(2)&&!used.count(""))s="";used.insert(s);x.name=s;}
      if(r.chance(20))for(auto&x:m.exports){string s=x.name+"!";if(s.size()<=255&&r.chance(30)&&!used.count(s)){used.insert(s);m.exports.push_back({s,x.kind,x.idx});break;}}}}
  if(r.chance(p.start_pct)){vector<u32> c2;auto ft=m.functypes();for(u32 i=0;i<ft.size();i++)if(m.types[ft[i]].p.empty()&&m.types[ft[i]].r.empty())c2.push_back(i);if(!c2.empty())m.start=c2[r.below(c2.size())];}
  // constant expressions behind the global section may read the module's own immutable globals
  auto ownG=[&](VT t,Code init){GlobalT x;x.t=t;x.mut=false;x.init=init;m.globals.push_back(x);return (u32)m.nimp(3)+(u32)m.globals.size()-1;};
  auto offOf=[&](u64 v,bool q){if(p.extconst&&m.globals.size()<300&&r.chance(12))return Code{I(OP_GGET,ownG(q?I64:I32,{q?I(OP_I64C,0,0,v):I(OP_I32C,0,0,(u32)v)}))};return offConst(r,v,q,p);};
  auto refOf=[&](u32 f){Code k;k.push_back(f==~0u?I(OP_REFNULL,FUNCREF):I(OP_REFFUNC,f));if(m.globals.size()<300&&r.chance(12))return Code{I(OP_GGET,ownG(FUNCREF,k))};return k;};
  // elements: fill funcref tables
  auto tabs=m.alltables();vector<vector<u32>> st(tabs.size());
  for(u32 t=0;t<tabs.size();t++){st[t].assign(tabs[t].min,~0u);
    if(t<(u32)m.nimp(1)&&self){u32 k=0;for(auto&i:m.imports)if(i.kind==1&&k++==t){for(u32 j=0;j<self;j++)if(c.names[j]==i.mod)for(auto&ex:c.mods[j].exports)if(ex.kind==1&&ex.name==i.field){
      for(auto&el:c.mods[j].elems){if((el.flags&1)||((el.flags&2)?el.table:0)!=ex.idx)continue;u32 off=0;if(el.off.size()==1&&el.off[0].op!=OP_GGET)off=(u32)el.off[0].k;else continue;
        for(u32 z=0;z<el.funcs.size()&&off+z<st[t].size();z++){u32 q=0;for(auto&im:m.imports)if(im.kind==0){if(im.mod==c.names[j]){for(auto&e2:c.mods[j].exports)if(e2.kind==0&&e2.name==im.field&&e2.idx==el.funcs[z])st[t][off+z]=q;}q++;}}}}}}
    if(tabs[t].et!=FUNCREF||!nfall)continue;
    int ns=r.range(1,3);for(int s=0;s<ns;s++){Elem e;e.table=t;u32 n=r.range(0,std::min<u32>(tabs[t].min,12));u32 off=r.below(tabs[t].min-n+1);e.off=offOf(off,false);e.flags=t?2:0;
      if(p.elem_variants){int v=r.below(4);if(v==1)e.flags=2;else if(v==2){e.flags=t?6:4;}else if(v==3)e.flags=6;}
      for(u32 k=0;k<n;k++){u32 f=r.below(nfall);if(e.flags&4){if(r.chance(20)){e.exprs.push_back(refOf(~0u));st[t][off+k]=~0u;}else{e.exprs.push_back(refOf(f));st[t][off+k]=f;}}else{e.funcs.push_back(f);st[t][off+k]=f;}}
      m.elems.push_back(e);}
    if(p.elem_variants&&r.chance(30)){Elem e;e.flags=r.chance(50)?1:3;if(r.chance(30))e.flags|=4;u32 n=r.below(4);for(u32 k=0;k<n;k++){u32 f=r.below(nfall);if(e.flags&4)e.exprs.push_back({I(OP_REFFUNC,f)});else e.funcs.push_back(f);}m.elems.insert(m.elems.begin()+r.below(m.elems.size()+1),e);}
  }
  // segments of different tables in any order (those of one table keep theirs)
  if(r.chance(50)){auto tb=[](const Elem&e){return (e.flags&1)?~0u:(e.flags&2)?e.table:0u;};for(size_t k=m.elems.size()*3;k>0&&m.elems.size()>1;k--){size_t i=r.below(m.elems.size()-1);if(tb(m.elems[i])!=tb(m.elems[i+1]))std::swap(m.elems[i],m.elems[i+1]);}}
  // data
  auto mems=m.allmems();
  for(u32 mi=0;mi<mems.size();mi++){int nd=r.range(0,p.datas);for(int k=0;k<nd;k++){Data d;d.mem=mi;d.flags=mi||r.chance(20)?2:0;u32 n=r.chance(10)?0:r.below(r.chance(10)?2000:80);u64 sz=(u64)mems[mi].min*65536;if(sz<n)continue;u64 nb=0;{u32 q=0;for(auto&i:m.imports)if(i.kind==2&&q++==mi&&i.mod=="pwart_builtin")nb=NATIVE_BASE;}u64 off=r.chance(15)?sz-n:r.chance(50)?r.below(256):r.next()%(sz-n+1);off+=nb;d.off=offOf(off,mems[mi].is64);d.bytes.resize(n);for(auto&b:d.bytes)b=(u8)r.next();m.datas.push_back(d);}}
  if(r.chance(60))for(size_t i=m.datas.size();i>1;i--)std::swap(m.datas[i-1],m.datas[r.below(i)]);
  m.datacount=m.datas.size()&&r.chance(30);
  u32 ni=m.nimp(0);
  for(int i=0;i<nf;i++){
    Func best=m.funcs[padA+i];bool ok=false;
    for(int tries=0;tries<6&&!ok;tries++){
      FG g(r,p,m,ni+padA+i,refs,&c);g.recursive=rec[i];g.stableTab=st;Func f=m.funcs[padA+i];g.budget=r.chance(10)?800:r.range(20,300);g.body(f);
      int mx;Module tmp;string er=validateFunc(m,f,&mx);
      if(!er.empty()){fprintf(stderr,"GENERATOR BUG %s\n%s",er.c_str(),dumpCode(m,f.body).c_str());continue;}
      if(mx<=p.maxstack&&f.locals.size()+m.types[f.type].p.size()<=700){best=f;ok=true;}
    }
    if(!ok){best.body.clear();for(VT t:m.types[best.type].r){if(isref(t))best.body.push_back(I(OP_REFNULL,t));else best.body.push_back(I(t==I32?OP_I32C:t==I64?OP_I64C:t==F32?OP_F32C:OP_F64C));}}
    m.funcs[padA+i]=best;
  }
  if(r.chance(p.customs_pct)){int n=r.range(1,3);for(int i=0;i<n;i++){vector<u8> b;static const char*const cn[]={"name","x","dylink","dylink.0","dylin","sourceMappingURL","producers",""};string nm=cn[r.below(8)];b.push_back(nm.size());b.insert(b.end(),nm.begin(),nm.end());int k=r.below(300);for(int j=0;j<k;j++)b.push_back((u8)r.next());static const int pos[]={1,2,3,4,5,6,7,10,11,99};m.customs.push_back({pos[r.below(10)],b});}}
}
void genCase(Rng&r,const Prof&p,Case&c){
  bool refs=r.chance(p.types_ref_pct);
  c.stack_flags=r.below(2);
  c.misc_flags=(r.chance(70)?1:0)|(p.initall&&r.chance(60)?0:2);
  int nm=p.nmods_max>1&&r.chance(90)?r.range(2,p.nmods_max):1;
  c.mods.reserve(nm);int sc=p.names?(r.chance(40)?0:r.range(1,6)):0;
  for(int k=0;k<nm;k++){
    string s;do s=oddName(r,sc,k+(sc&&r.chance(30)?1:0));while(s=="env"||s=="pwart_builtin"||std::find(c.names.begin(),c.names.end(),s)!=c.names.end());
    if(p.names&&r.chance(3)&&std::find(c.names.begin(),c.names.end(),string())==c.names.end())s="";
    c.mods.emplace_back();c.names.push_back(s);
    genModule(r,p,c,c.mods.back(),refs);
  }
  c.pad=r.chance(p.pad_pct)?r.range(5,60):0;
  bool nat=false;for(auto&h:c.hm)nat|=h.native;
  c.loadmode=r.below(4);if(nat&&c.loadmode==1)c.loadmode=0;
  c.poison=r.next();c.spoff=r.below(32)*8;
  if(p.names){ // neighbours that must never be asked, names that must not be found
    for(int k=r.below(4);k>0;k--){string s=r.chance(30)?string("env"):r.pick(c.names);switch(r.below(4)){case 0:if(s.size())s.pop_back();break;case 1:s+="0";break;case 2:s="_"+s;break;default:if(s.size())s[0]^=32;}
      if(s!="env"&&s!="pwart_builtin"&&s!="pwart_namespace_meta"&&s.find('\0')==string::npos&&std::find(c.names.begin(),c.names.end(),s)==c.names.end()&&std::find(c.decoys.begin(),c.decoys.end(),s)==c.decoys.end())c.decoys.push_back(s);}
    for(int k=0;k<6;k++){auto&m=r.pick(c.mods);string s=m.exports.empty()?"":r.pick(m.exports).name;switch(r.below(6)){case 0:if(s.size())s.pop_back();break;case 1:s+="0";break;case 2:s="";break;case 3:if(s.size())s[r.below(s.size())]^=1+r.below(0x7f);break;case 4:break;default:s=s+s;}
      if(s.find('\0')==string::npos)c.absent.push_back(s);}}
  int na=r.range(1,p.actions_max);
  for(int i=0;i<na;i++){Action a;a.inst=r.below(nm);if(nm>1&&i==0)a.inst=nm-1;const Module&m=c.mods[a.inst];u32 ni=m.nimp(0);
    if(r.chance(p.host_acts_pct)){a.kind=r.range(1,3);u32 n=a.kind==1?m.allmems().size():a.kind==2?m.allglobals().size():m.alltables().size();
      if(n){a.obj=r.below(n);a.addr=a.kind==1?r.next()%((u64)m.allmems()[a.obj].min*65536-8+(m.allmems()[a.obj].min==0)*8+1):r.next();a.val=a.kind==2?constOf(r,m.allglobals()[a.obj].t,p.nanconst_pct):r.next();c.acts.push_back(a);continue;}}
    a.kind=0;{u32 nr=m.funcs.size()-m.padf-m.padb;a.func=ni+(m.padf+m.padb&&(r.chance(10)||!nr)?r.below(m.funcs.size()):m.padf+(i==0?0:r.below(nr)));}if(m.funcs.empty())continue;if(nm>1&&ni&&r.chance(10))a.func=r.below(ni);
    auto&t=m.types[m.functypes()[a.func]];
    for(VT v:t.p){if(v==EXTERNREF)a.args.push_back(r.chance(20)?0:r.below(100000)*8ull);else if(v==FUNCREF)a.args.push_back(r.below(8));else a.args.push_back(constOf(r,v,p.nanconst_pct));}
    if(t.p.size()&&t.p[0]==I32&&r.chance(60))a.args[0]=r.below(6);
    c.acts.push_back(a);}
}
