// Systematic parts of C01 and C03. C01: every numeric instruction x every way each operand can be held x how the result is consumed,
// under varying register pressure. One case holds eight functions; combinations are enumerated by the case number.
#include "gen.h"
#include <algorithm>
static vector<u16>&allOps(){static vector<u16> v;if(v.empty()){Sig s;for(u16 op=0x45;op<=0xc4;op++)if(numsig(op,s))v.push_back(op);for(u16 op=0xfc00;op<0xfc08;op++)v.push_back(op);}return v;}
static const int NFORM=18,NCONS=15;
static u16 constOp(VT t){return t==I32?OP_I32C:t==I64?OP_I64C:t==F32?OP_F32C:OP_F64C;}
static int ti(VT t){return t==I32?0:t==I64?1:t==F32?2:3;}
static const VT TS[4]={I32,I64,F32,F64};
static const u16 LD[4]={0x28,0x29,0x2a,0x2b},ST[4]={0x36,0x37,0x38,0x39};
// operand values that suit the instruction
static u64 operand(Rng&r,u16 op,VT t,int which){
  bool tr=(op>=0xa8&&op<=0xab)||(op>=0xae&&op<=0xb1);
  if(tr&&r.chance(85)){bool uns=op==0xa9||op==0xab||op==0xaf||op==0xb1;bool to64=op>=0xae;int w=to64?64:32;
    double v;switch(r.below(4)){case 0:v=r.below(1000)/8.0;break;case 1:v=uns?(double)(r.next()>>(64-w+1+r.below(w-2))):(double)((s64)r.next()>>(64-w+r.below(w-2)+1));break;case 2:v=uns?(to64?18446744073709549568.0:4294967295.0):(to64?9223372036854774784.0:2147483647.0);if(t==F32)v=uns?(to64?18446742974197923840.0:4294967040.0):(to64?9223371487098961920.0:2147483520.0);break;default:v=uns?-0.5:(to64?-9223372036854775808.0:-2147483648.0);}
    if(t==F32){float f=(float)v;u32 x;memcpy(&x,&f,4);return x;}u64 x;memcpy(&x,&v,8);return x;}
  bool div=(op>=0x6d&&op<=0x70)||(op>=0x7f&&op<=0x82);
  if(div&&which==1&&r.chance(90)){u64 k;do k=constOf(r,t,0);while(!(t==I32?(u64)(u32)k:k));return t==I32?(u32)k:k;}
  bool sh=(op>=0x74&&op<=0x78)||(op>=0x86&&op<=0x8a);
  if(sh&&which==1&&r.chance(60)){u64 k=r.below(70);return k;}
  u64 k=constOf(r,t,5);return vsize(t)==4?(u32)k:k;}
// Systematic part of C03: every number of pending operands x every mix of types x what executes while they are pending x how they are consumed.
static void pressure(Rng&r,u64 n,Case&c){
  c.stack_flags=r.below(2);c.misc_flags=3;c.names={"m"};c.mods.emplace_back();Module&m=c.mods[0];
  MemT me;me.min=1;me.max=r.chance(50)?1:3;me.hasmax=r.chance(50);m.mems.push_back(me);m.exports.push_back({"mem",2,0});
  for(int i=0;i<4;i++)for(int z=0;z<2;z++){GlobalT g;g.t=TS[i];g.mut=true;g.init={I(constOp(TS[i]),0,0,vsize(TS[i])==4?(u32)constOf(r,TS[i],0):constOf(r,TS[i],0))};m.globals.push_back(g);}
  // 0..3 identity, 4: writes every global, 5: mixes parameters of all types
  for(int i=0;i<4;i++){Func f;f.type=m.addType({{TS[i]},{TS[i]}});f.body={I(OP_LGET,0)};m.funcs.push_back(f);}
  {Func f;f.type=m.addType({{},{}});for(int i=0;i<8;i++){VT t=TS[i/2];f.body.push_back(I(constOp(t),0,0,vsize(t)==4?(u32)constOf(r,t,0):constOf(r,t,0)));f.body.push_back(I(OP_GSET,i));}
   for(int i=0;i<4;i++){f.body.push_back(I(OP_I32C,0,0,64+i*8));f.body.push_back(I(OP_I64C,0,0,r.next()));f.body.push_back(I(0x37));}m.funcs.push_back(f);}
  {Func f;f.type=m.addType({{I32,F64,I64,F32},{I32}});for(auto x:Code{I(OP_LGET,0),I(OP_LGET,1),I(0xbd),I(0xa7),I(0x6b),I(OP_LGET,2),I(0xa7),I(0x73),I(OP_LGET,3),I(0xbc),I(0x6a)})f.body.push_back(x);m.funcs.push_back(f);}
  TableT tb;tb.min=6;m.tables.push_back(tb);Elem el;el.off={I(OP_I32C,0,0,0)};el.funcs={0,1,2,3,4,5};m.elems.push_back(el);
  for(int q=0;q<4;q++){
    u64 e=n*4+q;int K=1+e%25;e/=25;int patn=e%10;e/=10;int ev=e%16;e/=16;int cons=e%5;
    FuncType ft;Func f;for(int i=0;i<8;i++)ft.p.push_back(TS[i%4]);int np=8;Code&o=f.body;auto E=[&](u16 a,u32 x=0,u32 y=0,u64 k=0){o.push_back(I(a,x,y,k));};
    vector<VT> tys=ft.p;auto newLocal=[&](VT t){f.locals.push_back(t);tys.push_back(t);return (u32)tys.size()-1;};
    int pad=r.chance(50)?0:r.below(16);for(int i=0;i<pad;i++)newLocal(r.chance(50)?I32:F64);
    u32 lz[4];for(int i=0;i<4;i++){lz[i]=newLocal(TS[i]);E(OP_LGET,i);E(OP_LSET,lz[i]);}
    vector<VT> st;
    auto kc=[&](VT t){return vsize(t)==4?(u64)(u32)constOf(r,t,0):constOf(r,t,0);};
    bool allreg=r.chance(50);
    auto value=[&](VT t,int i){int x=ti(t);u32 pa=x+4*(i&1);int form=allreg?0:r.chance(60)?0:r.below(9);
      switch(form){
        case 0:E(OP_LGET,pa);if(isfloat(t)){float v=1.0f+i*0.5f;double d=v;u64 k=0;if(t==F32){u32 z;memcpy(&z,&v,4);k=z;}else memcpy(&k,&d,8);E(constOp(t),0,0,k);E(t==F32?0x92+r.below(3):0xa0+r.below(3));}else{E(constOp(t),0,0,i*1001+7);E(t==I32?r.pick(vector<int>{0x6a,0x6b,0x73}):r.pick(vector<int>{0x7c,0x7d,0x85}));}break;
        case 1:E(OP_LGET,lz[x]);break; // a local that the events write
        case 2:E(OP_GGET,x*2+(i&1));break;
        case 3:E(OP_I32C,0,0,r.below(8)*8);E(LD[x],0,0,64);break;
        case 4:E(constOp(t),0,0,kc(t));break;
        case 5:E(OP_LGET,pa);E(OP_CALL,x);break;
        case 6:if(t==I32){E(OP_LGET,0);E(OP_LGET,4);E(r.pick(vector<int>{0x46,0x48,0x4d}));}else if(t==I64){E(OP_LGET,0);E(0xac);}else{E(OP_LGET,t==F32?0:1);E(t==F32?0xbe:0xbf);}break;
        case 7:E(OP_LGET,pa);E(OP_LTEE,lz[x]);break;
        default:E(OP_BLOCK,t);E(OP_LGET,pa);E(OP_END);}
      st.push_back(t);};
    auto event=[&](int ev){
      switch(ev){
        case 0:break;
        case 1:E(OP_CALL,4);break;
        case 2:{int x=r.below(4);E(constOp(TS[x]),0,0,kc(TS[x]));E(OP_LSET,lz[x]);break;}
        case 3:{int x=r.below(8);VT t=TS[x/2];E(constOp(t),0,0,kc(t));E(OP_GSET,x);break;}
        case 4:{int x=r.below(4);E(OP_I32C,0,0,r.below(8)*8);E(constOp(TS[x]),0,0,kc(TS[x]));E(ST[x],0,0,64);break;}
        case 5:E(OP_I32C,0,0,r.below(2));E(OP_MGROW);E(OP_DROP);break;
        case 6:{E(OP_LGET,0);E(OP_IF,VOID);E(constOp(I32),0,0,kc(I32));E(OP_LSET,lz[0]);E(OP_ELSE);E(constOp(F64),0,0,kc(F64));E(OP_LSET,lz[3]);E(OP_END);break;}
        case 7:{u32 l=newLocal(I32);E(OP_I32C,0,0,3);E(OP_LSET,l);E(OP_LOOP,VOID);E(OP_LGET,l);E(OP_I32C,0,0,1);E(0x6b);E(OP_LTEE,l);E(OP_BRIF,0);E(OP_END);break;}
        case 8:{bool q=r.chance(50);E(OP_LGET,q?1:0);E(q?OP_I64C:OP_I32C,0,0,r.below(9)+1);E((q?0x7f:0x6d)+r.below(4));E(OP_LSET,lz[q?1:0]);break;}
        case 9:{bool q=r.chance(50);E(OP_LGET,q?1:0);E(OP_LGET,q?5:4);E((q?0x86:0x74)+r.below(5));E(OP_LSET,lz[q?1:0]);break;}
        case 10:{E(OP_LGET,5);E(r.chance(50)?0xb5:0xb4);E(OP_LSET,lz[2]);break;}
        case 11:E(OP_I32C,0,0,4);{Ins x=I(OP_CALLI,m.funcs[4].type,0);o.push_back(x);}break;
        case 12:E(OP_BLOCK,VOID);E(OP_LGET,4);E(OP_BRIF,0);E(constOp(I64),0,0,kc(I64));E(OP_LSET,lz[1]);E(OP_END);break;
        case 13:E(OP_LGET,0);E(OP_LGET,3);E(OP_LGET,5);E(OP_LGET,6);E(OP_CALL,5);E(OP_LSET,lz[0]);break;
        case 14:{Ins x=I(OP_BRTABLE);x.tbl={0,1,0};E(OP_BLOCK,VOID);E(OP_BLOCK,VOID);E(OP_LGET,0);o.push_back(x);E(OP_END);E(constOp(F32),0,0,kc(F32));E(OP_LSET,lz[2]);E(OP_END);break;}
        default:if(st.size()>20){E(OP_CALL,4);break;}E(OP_I32C,0,0,64);E(OP_I32C,0,0,r.below(256));E(OP_I32C,0,0,16);E(OP_MFILL);break;}};
    int at=r.below(K+1);if(r.chance(40))at=K;
    for(int i=0;i<K;i++){if(i==at)event(ev);VT t=patn<4?TS[patn]:patn==4?(i&1?F64:I32):patn==5?(i&1?F32:F64):patn==6?(i&1?I32:I64):patn==7?TS[i&3]:patn==8?TS[r.below(4)]:r.chance(50)?F32:F64;value(t,i);
      if(r.chance(6))event(r.below(16));}
    if(at==K)event(ev);
    static const u16 SUB[4]={0x6b,0x7d,0x93,0xa1},MULL[4]={0x6c,0x7e,0x94,0xa2},ADD[4]={0x6a,0x7c,0x92,0xa0};
    vector<VT> res;
    switch(cons){
      case 0:res=st;break; // all returned
      case 1:case 2:{ // folded from the top, with an event in between in the second form
        while(st.size()>1){VT b=st.back(),a=st[st.size()-2];if(a==b){E(r.chance(60)?SUB[ti(a)]:r.chance(50)?ADD[ti(a)]:MULL[ti(a)]);st.pop_back();}
          else if(b==I32&&a==I64){E(0xac);st.back()=I64;}else if(b==I64&&a==I32){E(0xa7);st.back()=I32;}else if(b==F32&&a==F64){E(0xbb);st.back()=F64;}else if(b==F64&&a==F32){E(0xb6);st.back()=F32;}
          else if(isfloat(b)){E(b==F32?0xbc:0xbd);st.back()=b==F32?I32:I64;}else{E(b==I32?0xbe:0xbf);st.back()=b==I32?F32:F64;}
          if(cons==2&&r.chance(20))event(r.below(16));}
        res=st;break;}
      case 3:{ // arguments of a call
        FuncType t2;t2.p=st;t2.r=st;Func g;g.type=m.addType(t2);for(size_t i=0;i<st.size();i++)g.body.push_back(I(OP_LGET,i));m.funcs.push_back(g);E(OP_CALL,(u32)m.funcs.size()-1);res=st;break;}
      default:{ // set one after another to locals
        vector<u32> ls;while(st.size()){u32 l=newLocal(st.back());E(OP_LSET,l);ls.push_back(l);st.pop_back();if(r.chance(10))event(r.below(16));}
        for(size_t i=0;i<ls.size();i++){E(OP_LGET,ls[i]);res.push_back(tys[ls[i]]);}}}
    if(r.chance(30)&&res.size()<24){for(int i=0;i<4&&res.size()<26;i++){E(OP_LGET,lz[i]);res.push_back(TS[i]);}}
    ft.r=res;f.type=m.addType(ft);m.funcs.push_back(f);u32 fi=m.funcs.size()-1;m.exports.push_back({"f"+std::to_string(q),0,fi});
    int calls=r.range(1,3);for(int k=0;k<calls;k++){Action a;a.inst=0;a.func=fi;for(int i=0;i<np;i++){u64 v=kc(ft.p[i]);if(isfloat(ft.p[i])&&r.chance(70)){double d=r.range(-3000,3000)/8.0;float g=d;if(ft.p[i]==F32){u32 z;memcpy(&z,&g,4);v=z;}else memcpy(&v,&d,8);}a.args.push_back(v);}c.acts.push_back(a);}
  }
  c.pad=0;c.loadmode=r.below(4);c.poison=r.next();c.spoff=r.below(32)*8;
}
void genSpecial(const string&profile,Rng&r,u64 n,Case&c,bool&done){
  done=false;
  if(profile=="C03"&&n%4==0){pressure(r,n/4,c);done=true;
    int mx;string er=validate(c.mods[0],&mx);if(!er.empty()){fprintf(stderr,"SPECIAL GENERATOR BUG %s\n%s",er.c_str(),dumpModule(c.mods[0]).c_str());abort();}
    if(mx>28){c=Case();done=false;}return;}
  if(profile!="C01"||n%4)return;done=true;n/=4;
  c.stack_flags=r.below(2);c.misc_flags=3;c.names={"m"};c.mods.emplace_back();Module&m=c.mods[0];
  // helpers: identity functions of each type, memory, globals
  MemT me;me.min=1;me.max=1;me.hasmax=r.chance(50);m.mems.push_back(me);m.exports.push_back({"mem",2,0});
  for(int i=0;i<4;i++)for(int z=0;z<2;z++){GlobalT g;g.t=TS[i];g.mut=true;g.init={I(constOp(TS[i]),0,0,vsize(TS[i])==4?(u32)constOf(r,TS[i],0):constOf(r,TS[i],0))};m.globals.push_back(g);}
  for(int i=0;i<4;i++){Func f;f.type=m.addType({{TS[i]},{TS[i]}});f.body={I(OP_LGET,0)};m.funcs.push_back(f);}
  auto&ops=allOps();
  for(int q=0;q<8;q++){
    u64 e=n*8+q;u16 op=ops[e%ops.size()];e/=ops.size();int fa=e%NFORM;e/=NFORM;int fb=e%NFORM;
    Sig s;numsig(op,s);FuncType ft;Func f;vector<VT> loc;
    ft.p={s.a,s.b==VOID?I32:s.b};u32 np=2;int extra=r.chance(60)?r.below(4):r.range(6,14);for(int i=0;i<extra;i++)ft.p.push_back(r.chance(30)?TS[r.below(4)]:r.chance(50)?I32:F64);np=ft.p.size();
    Code&o=f.body;auto E=[&](u16 a,u32 x=0,u32 y=0,u64 k=0){o.push_back(I(a,x,y,k));};
    vector<VT> tys=ft.p;auto newLocal=[&](VT t){f.locals.push_back(t);tys.push_back(t);return (u32)tys.size()-1;};
    // prologue: operands prepared in memory, globals and locals
    int frm[2]={fa,fb};VT vt[2]={s.a,s.b};u32 lx[2]={0,0},src[2]={0,1};
    if(s.b==s.a&&r.chance(15))src[1]=0; // both operands from the same place
    for(int w=0;w<2;w++){if(vt[w]==VOID)continue;VT t=vt[w];
      if(frm[w]==2){int pad=r.below(14);for(int i=0;i<pad;i++)newLocal(r.chance(50)?I32:F64);lx[w]=newLocal(t);E(OP_LGET,src[w]);E(OP_LSET,lx[w]);}
      else if(frm[w]==3){E(OP_LGET,src[w]);E(OP_GSET,ti(t)*2+w);}
      else if(frm[w]==4||frm[w]==13){E(OP_I32C,0,0,64+w*16);E(OP_LGET,src[w]);E(ST[ti(t)],0);}
      else if(frm[w]==8||frm[w]==12||frm[w]==17){lx[w]=newLocal(t);}}
    // register pressure: pending values, returned at the end
    vector<VT> pendT;int np2=r.chance(40)?0:r.chance(60)?r.range(1,4):r.range(5,12);
    for(int i=0;i<np2;i++){VT t=TS[r.below(r.chance(40)?2:4)];u32 l=~0u;for(u32 z=2;z<np;z++)if(ft.p[z]==t&&r.chance(60))l=z;
      if(l!=~0u){E(OP_LGET,l);int k=r.below(3);if(k==0){E(OP_LGET,l);E(t==I32?0x6a:t==I64?0x7c:t==F32?0x92:0xa0);}else if(k==1&&!isfloat(t)){E(constOp(t),0,0,r.below(100)+1);E(t==I32?0x73:0x85);}}
      else E(constOp(t),0,0,vsize(t)==4?(u32)constOf(r,t,0):constOf(r,t,0));
      pendT.push_back(t);}
    vector<std::pair<int,u64>> after;
    auto push=[&](int w){VT t=vt[w];u32 p=src[w];int x=ti(t);u32 mask=0;(void)mask;
      switch(frm[w]){
        case 0:E(constOp(t),0,0,operand(r,op,t,w));break;
        case 1:E(OP_LGET,p);break;
        case 2:E(OP_LGET,lx[w]);break;
        case 3:E(OP_GGET,x*2+w);break;
        case 4:E(OP_I32C,0,0,r.below(64));E(OP_DROP);E(OP_I32C,0,0,0);E(LD[x],0,0,64+w*16);break;
        case 5:if(t==I32){E(OP_LGET,p);E(OP_I32C,0,0,r.below(50));E(r.chance(50)?0x48:r.chance(50)?0x4b:0x46);}else if(t==I64){E(OP_LGET,p);E(OP_I64C,0,0,r.below(50));E(r.chance(50)?0x53:0x51);E(r.chance(50)?0xac:0xad);}else{E(OP_LGET,p);E(OP_LGET,p);E(t==F32?0x5b:0x61);E(t==F32?0xb2:0xb7);}break;
        case 6:E(OP_LGET,p);if(t==I32){E(OP_I32C,0,0,0);E(0x6a);}else if(t==I64){E(OP_I64C,0,0,0);E(0x7c);}else{E(t==F32?0x8c:0x9a);E(t==F32?0x8c:0x9a);}break;
        case 7:E(OP_LGET,p);E(OP_CALL,x);break;
        case 8:E(OP_LGET,p);E(OP_LTEE,lx[w]);break;
        case 9:E(OP_LGET,p);E(constOp(t),0,0,operand(r,op,t,w));if(r.chance(50)){E(OP_I32C,0,0,r.below(2));}else {E(OP_LGET,p);E(t==I32?0x45:t==I64?0x50:t==F32?0xbc:0xbd);if(isfloat(t)){if(t==F64)E(0xa7);E(OP_I32C,0,0,1);E(0x71);}}E(OP_SELECT);break;
        case 10:E(OP_LGET,p);switch(t){case I32:E(0xbe);E(0xbc);break;case I64:E(0xbf);E(0xbd);break;case F32:E(0xbc);E(0xbe);break;default:E(0xbd);E(0xbf);}break;
        case 11:E(OP_BLOCK,t);E(OP_LGET,p);E(OP_END);break;
        case 12:E(OP_LGET,p);E(OP_LSET,lx[w]);E(OP_LGET,lx[w]);if(w==0)after.push_back({0,lx[w]});break; // overwritten while pending
        case 13:E(OP_I32C,0,0,0);E(LD[x],0,0,64+w*16);if(w==0)after.push_back({1,0});break; // its memory overwritten while pending
        case 14:E(OP_I32C,0,0,1);E(OP_IF,t);E(OP_LGET,p);E(OP_ELSE);E(constOp(t),0,0,1);E(OP_END);break;
        case 15:E(OP_LGET,p);switch(t){case I32:E(0xac+r.below(2));E(0xa7);break;case I64:{E(0x50);E(0x45);E(OP_LGET,p);E(0xa7);E(0x6a);E(0xad);break;}case F32:E(0xbb);E(0xb6);break;default:E(0x9a);E(0x9a);}break;
        case 16:E(OP_LGET,p);E(OP_GSET,x*2+1);E(OP_GGET,x*2+1);if(w==0)after.push_back({2,(u64)x*2+1});break; // its global overwritten while pending
        default:E(OP_LGET,p);E(OP_LSET,lx[w]);E(OP_LGET,lx[w]);E(OP_NOP);break;}};
    push(0);
    if(s.b!=VOID||r.chance(30))for(auto&a:after){VT t=s.a;u64 k=vsize(t)==4?(u32)constOf(r,t,0):constOf(r,t,0);
      if(a.first==0){E(constOp(t),0,0,k);E(OP_LSET,(u32)a.second);}else if(a.first==1){E(OP_I32C,0,0,0);E(constOp(t),0,0,k);E(ST[ti(t)],0,0,64);}else{E(constOp(t),0,0,k);E(OP_GSET,(u32)a.second);}}
    if(s.b!=VOID)push(1);
    E(op);
    // consumers
    VT t=s.r;int x=ti(t);VT rt=t;int cons=r.below(NCONS);
    if(cons>=8&&t!=I32)cons=r.below(8);
    switch(cons){
      case 0:case 1:break;
      case 2:{u32 l=newLocal(t);E(OP_LSET,l);E(OP_LGET,l);break;}
      case 3:{u32 l=newLocal(t);E(OP_LSET,l);E(OP_I32C,0,0,200);E(OP_LGET,l);E(ST[x],0);E(OP_LGET,l);break;}
      case 4:E(OP_CALL,x);break;
      case 5:E(OP_GSET,x*2);E(OP_GGET,x*2);break;
      case 6:{ // first operand of another instruction
        if(t==I32){E(OP_LGET,1);if(ft.p[1]==I32){}else if(ft.p[1]==I64)E(0xa7);else{E(ft.p[1]==F32?0xbc:0xbd);if(ft.p[1]==F64)E(0xa7);}E(r.chance(50)?0x6a:0x73);}
        else if(t==I64){E(OP_I64C,0,0,r.below(1000));E(r.chance(50)?0x7c:0x85);}else{E(constOp(t),0,0,t==F32?0x40000000u:0x4000000000000000ull);E(t==F32?0x94:0xa2);}break;}
      case 7:{ // second operand of another instruction
        u32 l=newLocal(t);E(OP_LSET,l);E(constOp(t),0,0,isfloat(t)?(t==F32?0x3f800000u:0x3ff0000000000000ull):r.below(5000));E(OP_LGET,l);E(t==I32?0x6b:t==I64?0x7d:t==F32?0x92:0xa0);break;}
      case 8:E(OP_IF,I32);E(OP_I32C,0,0,11);E(OP_ELSE);E(OP_I32C,0,0,22);E(OP_END);break;
      case 9:{E(OP_IF,VOID);u32 l=newLocal(I32);E(OP_I32C,0,0,5);E(OP_LSET,l);E(OP_END);E(OP_LGET,l);break;}
      case 10:{u32 l=newLocal(I32);E(OP_LSET,l);E(OP_BLOCK,I32);E(OP_I32C,0,0,33);E(OP_LGET,l);E(OP_BRIF,0);E(OP_DROP);E(OP_I32C,0,0,44);E(OP_END);break;}
      case 11:{u32 l=newLocal(I32);E(OP_LSET,l);VT st=TS[r.below(4)];u64 k1=r.below(100),k2=r.below(100);E(constOp(st),0,0,k1);E(constOp(st),0,0,k2);E(OP_LGET,l);E(OP_SELECT);rt=st;break;}
      case 12:E(0x45);break;
      case 13:{E(OP_I32C,0,0,0xff);E(0x71);E(0x28,0,0,r.below(100));break;}
      default:{ // directly consumed by a branch, select or test right after
        E(0x45);E(OP_IF,I32);E(OP_I32C,0,0,1);E(OP_ELSE);E(OP_I32C,0,0,2);E(OP_END);}}
    ft.r=pendT;ft.r.push_back(rt);
    f.type=m.addType(ft);m.funcs.push_back(f);u32 fi=m.funcs.size()-1;m.exports.push_back({"f"+std::to_string(q),0,fi});
    int calls=r.range(2,4);for(int k=0;k<calls;k++){Action a;a.inst=0;a.func=fi;for(u32 i=0;i<np;i++)a.args.push_back(i==0?operand(r,op,s.a,0):i==1?operand(r,op,s.b==VOID?I32:s.b,1):(vsize(ft.p[i])==4?(u32)constOf(r,ft.p[i],3):constOf(r,ft.p[i],3)));c.acts.push_back(a);}
  }
  c.pad=0;c.loadmode=r.below(4);c.poison=r.next();c.spoff=r.below(32)*8;
  // the deciding type checker also limits the operand stack
  int mx;string er=validate(m,&mx);if(!er.empty()){fprintf(stderr,"SPECIAL GENERATOR BUG %s\n%s",er.c_str(),dumpModule(m).c_str());abort();}
  if(mx>28){c=Case();done=false;}
}
