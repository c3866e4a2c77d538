#include "wasm.h"
bool numsig(u16 op,Sig&s){
  s=Sig();
  auto set=[&](VT a,VT b,VT r){s.a=a;s.b=b;s.r=r;return true;};
  if(op==0x45)return set(I32,VOID,I32);
  if(op>=0x46&&op<=0x4f)return set(I32,I32,I32);
  if(op==0x50)return set(I64,VOID,I32);
  if(op>=0x51&&op<=0x5a)return set(I64,I64,I32);
  if(op>=0x5b&&op<=0x60)return set(F32,F32,I32);
  if(op>=0x61&&op<=0x66)return set(F64,F64,I32);
  if(op>=0x67&&op<=0x69)return set(I32,VOID,I32);
  if(op>=0x6a&&op<=0x78)return set(I32,I32,I32);
  if(op>=0x79&&op<=0x7b)return set(I64,VOID,I64);
  if(op>=0x7c&&op<=0x8a)return set(I64,I64,I64);
  if(op>=0x8b&&op<=0x91)return set(F32,VOID,F32);
  if(op>=0x92&&op<=0x98)return set(F32,F32,F32);
  if(op>=0x99&&op<=0x9f)return set(F64,VOID,F64);
  if(op>=0xa0&&op<=0xa6)return set(F64,F64,F64);
  switch(op){
    case 0xa7:return set(I64,VOID,I32);
    case 0xa8:case 0xa9:return set(F32,VOID,I32);
    case 0xaa:case 0xab:return set(F64,VOID,I32);
    case 0xac:case 0xad:return set(I32,VOID,I64);
    case 0xae:case 0xaf:return set(F32,VOID,I64);
    case 0xb0:case 0xb1:return set(F64,VOID,I64);
    case 0xb2:case 0xb3:return set(I32,VOID,F32);
    case 0xb4:case 0xb5:return set(I64,VOID,F32);
    case 0xb6:return set(F64,VOID,F32);
    case 0xb7:case 0xb8:return set(I32,VOID,F64);
    case 0xb9:case 0xba:return set(I64,VOID,F64);
    case 0xbb:return set(F32,VOID,F64);
    case 0xbc:return set(F32,VOID,I32);case 0xbd:return set(F64,VOID,I64);
    case 0xbe:return set(I32,VOID,F32);case 0xbf:return set(I64,VOID,F64);
    case 0xc0:case 0xc1:return set(I32,VOID,I32);
    case 0xc2:case 0xc3:case 0xc4:return set(I64,VOID,I64);
    case 0xfc00:case 0xfc01:return set(F32,VOID,I32);
    case 0xfc02:case 0xfc03:return set(F64,VOID,I32);
    case 0xfc04:case 0xfc05:return set(F32,VOID,I64);
    case 0xfc06:case 0xfc07:return set(F64,VOID,I64);
  }
  return false;
}
bool memsig(u16 op,VT&t,int&w,bool&st){
  static const struct{VT t;int w;}L[]={{I32,4},{I64,8},{F32,4},{F64,8},{I32,1},{I32,1},{I32,2},{I32,2},{I64,1},{I64,1},{I64,2},{I64,2},{I64,4},{I64,4},
   {I32,4},{I64,8},{F32,4},{F64,8},{I32,1},{I32,2},{I64,1},{I64,2},{I64,4}};
  if(op<0x28||op>0x3e)return false;
  t=L[op-0x28].t;w=L[op-0x28].w;st=op>=0x36;return true;
}
static const char*N[256]={"unreachable","nop","block","loop","if","else",0,0,0,0,0,"end","br","br_if","br_table","return","call","call_indirect","return_call","return_call_indirect",0,0,0,0,0,0,"drop","select","select_t",0,0,0,
"local.get","local.set","local.tee","global.get","global.set","table.get","table.set",0,"i32.load","i64.load","f32.load","f64.load","i32.load8_s","i32.load8_u","i32.load16_s","i32.load16_u","i64.load8_s","i64.load8_u","i64.load16_s","i64.load16_u","i64.load32_s","i64.load32_u","i32.store","i64.store","f32.store","f64.store","i32.store8","i32.store16","i64.store8","i64.store16","i64.store32","memory.size","memory.grow","i32.const","i64.const","f32.const","f64.const",
"i32.eqz","i32.eq","i32.ne","i32.lt_s","i32.lt_u","i32.gt_s","i32.gt_u","i32.le_s","i32.le_u","i32.ge_s","i32.ge_u","i64.eqz","i64.eq","i64.ne","i64.lt_s","i64.lt_u","i64.gt_s","i64.gt_u","i64.le_s","i64.le_u","i64.ge_s","i64.ge_u",
"f32.eq","f32.ne","f32.lt","f32.gt","f32.le","f32.ge","f64.eq","f64.ne","f64.lt","f64.gt","f64.le","f64.ge",
"i32.clz","i32.ctz","i32.popcnt","i32.add","i32.sub","i32.mul","i32.div_s","i32.div_u","i32.rem_s","i32.rem_u","i32.and","i32.or","i32.xor","i32.shl","i32.shr_s","i32.shr_u","i32.rotl","i32.rotr",
"i64.clz","i64.ctz","i64.popcnt","i64.add","i64.sub","i64.mul","i64.div_s","i64.div_u","i64.rem_s","i64.rem_u","i64.and","i64.or","i64.xor","i64.shl","i64.shr_s","i64.shr_u","i64.rotl","i64.rotr",
"f32.abs","f32.neg","f32.ceil","f32.floor","f32.trunc","f32.nearest","f32.sqrt","f32.add","f32.sub","f32.mul","f32.div","f32.min","f32.max","f32.copysign",
"f64.abs","f64.neg","f64.ceil","f64.floor","f64.trunc","f64.nearest","f64.sqrt","f64.add","f64.sub","f64.mul","f64.div","f64.min","f64.max","f64.copysign",
"i32.wrap_i64","i32.trunc_f32_s","i32.trunc_f32_u","i32.trunc_f64_s","i32.trunc_f64_u","i64.extend_i32_s","i64.extend_i32_u","i64.trunc_f32_s","i64.trunc_f32_u","i64.trunc_f64_s","i64.trunc_f64_u",
"f32.convert_i32_s","f32.convert_i32_u","f32.convert_i64_s","f32.convert_i64_u","f32.demote_f64","f64.convert_i32_s","f64.convert_i32_u","f64.convert_i64_s","f64.convert_i64_u","f64.promote_f32",
"i32.reinterpret_f32","i64.reinterpret_f64","f32.reinterpret_i32","f64.reinterpret_i64","i32.extend8_s","i32.extend16_s","i64.extend8_s","i64.extend16_s","i64.extend32_s",
0,0,0,0,0,0,0,0,0,0,0,"ref.null","ref.is_null","ref.func"};
static const char*NFC[18]={"i32.trunc_sat_f32_s","i32.trunc_sat_f32_u","i32.trunc_sat_f64_s","i32.trunc_sat_f64_u","i64.trunc_sat_f32_s","i64.trunc_sat_f32_u","i64.trunc_sat_f64_s","i64.trunc_sat_f64_u","memory.init","data.drop","memory.copy","memory.fill","table.init","elem.drop","table.copy","table.grow","table.size","table.fill"};
const char*opname(u16 op){const char*r=nullptr;if(op<256)r=N[op];else if((op>>8)==0xfc&&(op&0xff)<18)r=NFC[op&0xff];return r?r:"?";}

struct Enc{
  vector<u8> o;int pad;Rng*rng;
  int padn(){return (pad&&rng&&rng->chance(pad))?rng->range(1,9):0;}
  void b(u8 x){o.push_back(x);}
  void uleb(u64 v,int maxbytes=5){int p=padn();int n=0;
    for(;;){u8 c=v&0x7f;v>>=7;n++;if(v||(p>0&&n<maxbytes)){ if(!v)p--; b(c|0x80);} else {b(c);break;}}}
  void sleb(s64 v,int maxbytes){int p=padn();int n=0;
    for(;;){u8 c=v&0x7f;v>>=7;n++;bool done=(v==0&&!(c&0x40))||(v==-1&&(c&0x40));
      if(done&&!(p>0&&n<maxbytes)){b(c);break;} if(done)p--; b(c|0x80);} }
  void str(const string&s){uleb(s.size());o.insert(o.end(),s.begin(),s.end());}
  void bytes(const vector<u8>&v){o.insert(o.end(),v.begin(),v.end());}
  void ins(const Module&m,const Ins&i){
    if(i.op==OP_RAW){for(u32 x:i.tbl)b((u8)x);return;}
    if(i.op<256)b((u8)i.op);else{b(0xfc);uleb(i.op&0xff);}
    switch(i.op){
      case OP_BLOCK:case OP_LOOP:case OP_IF:b((u8)i.a);break;
      case OP_BR:case OP_BRIF:case OP_CALL:case OP_RCALL:case OP_LGET:case OP_LSET:case OP_LTEE:case OP_GGET:case OP_GSET:case OP_TGET:case OP_TSET:case OP_REFFUNC:uleb(i.a);break;
      case OP_BRTABLE:uleb(i.tbl.size()-1);for(u32 x:i.tbl)uleb(x);break;
      case OP_CALLI:case OP_RCALLI:uleb(i.a);uleb(i.b);break;
      case OP_SELECTT:uleb(1);b((u8)i.a);break;
      case OP_MSIZE:case OP_MGROW:uleb(i.b);break;
      case OP_I32C:sleb((s32)(u32)i.k,5);break;
      case OP_I64C:sleb((s64)i.k,10);break;
      case OP_F32C:for(int j=0;j<4;j++)b(i.k>>(8*j));break;
      case OP_F64C:for(int j=0;j<8;j++)b(i.k>>(8*j));break;
      case OP_REFNULL:b((u8)i.a);break;
      case OP_MINIT:uleb(i.a);uleb(i.b);break;case OP_DDROP:uleb(i.a);break;
      case OP_MCOPY:uleb(i.a);uleb(i.b);break;case OP_MFILL:uleb(i.b);break;
      case OP_TINIT:uleb(i.a);uleb(i.b);break;case OP_EDROP:uleb(i.a);break;
      case OP_TCOPY:uleb(i.a);uleb(i.b);break;
      case OP_TGROW:case OP_TSIZE:case OP_TFILL:uleb(i.a);break;
      default:{VT t;int w;bool s;if(memsig(i.op,t,w,s)){u32 fl=i.a;if(i.b)fl|=0x40;uleb(fl);if(i.b)uleb(i.b);uleb(i.k,5);}}
    }
  }
  void code(const Module&m,const Code&c){for(auto&i:c)ins(m,i);}
  void cexpr(const Module&m,const Code&c){code(m,c);b(0x0b);}
  void limits(bool hasmax,u32 mn,u32 mx,bool is64){b((hasmax?1:0)|(is64?4:0));uleb(mn);if(hasmax)uleb(mx);}
};
vector<u8> encode(const Module&m,int pad,Rng*rng){
  Enc e;e.pad=pad;e.rng=rng;
  static const u8 hdr[]={0,'a','s','m',1,0,0,0};e.o.assign(hdr,hdr+8);
  auto custom=[&](int before){for(auto&c:m.customs)if(c.first==before){e.b(0);e.uleb(c.second.size());e.bytes(c.second);}};
  auto sec=[&](int id,size_t n,std::function<void(Enc&)> f){custom(id);if(!n)return;Enc s;s.pad=pad;s.rng=rng;f(s);e.b(id);e.uleb(s.o.size());e.bytes(s.o);};
  sec(1,m.types.size(),[&](Enc&s){s.uleb(m.types.size());for(auto&t:m.types){s.b(0x60);s.uleb(t.p.size());for(VT v:t.p)s.b(v);s.uleb(t.r.size());for(VT v:t.r)s.b(v);}});
  sec(2,m.imports.size(),[&](Enc&s){s.uleb(m.imports.size());for(auto&i:m.imports){s.str(i.mod);s.str(i.field);s.b(i.kind);
    switch(i.kind){case 0:s.uleb(i.type);break;case 1:s.b(i.et);s.limits(i.hasmax,i.min,i.max,false);break;case 2:s.limits(i.hasmax,i.min,i.max,i.is64);break;case 3:s.b(i.gt);s.b(i.mut);break;}}});
  sec(3,m.funcs.size(),[&](Enc&s){s.uleb(m.funcs.size());for(auto&f:m.funcs)s.uleb(f.type);});
  sec(4,m.tables.size(),[&](Enc&s){s.uleb(m.tables.size());for(auto&t:m.tables){s.b(t.et);s.limits(t.hasmax,t.min,t.max,false);}});
  sec(5,m.mems.size(),[&](Enc&s){s.uleb(m.mems.size());for(auto&t:m.mems)s.limits(t.hasmax,t.min,t.max,t.is64);});
  sec(6,m.globals.size(),[&](Enc&s){s.uleb(m.globals.size());for(auto&g:m.globals){s.b(g.t);s.b(g.mut);s.cexpr(m,g.init);}});
  sec(7,m.exports.size(),[&](Enc&s){s.uleb(m.exports.size());for(auto&x:m.exports){s.str(x.name);s.b(x.kind);s.uleb(x.idx);}});
  sec(8,m.start>=0,[&](Enc&s){s.uleb(m.start);});
  sec(9,m.elems.size(),[&](Enc&s){s.uleb(m.elems.size());for(auto&x:m.elems){s.uleb(x.flags);
    if(!(x.flags&1)){if(x.flags&2)s.uleb(x.table);s.cexpr(m,x.off);}
    if(x.flags&3){if(x.flags&4)s.b(x.et);else s.b(0);}
    if(x.flags&4){s.uleb(x.exprs.size());for(auto&c:x.exprs)s.cexpr(m,c);}else{s.uleb(x.funcs.size());for(u32 f:x.funcs)s.uleb(f);}}});
  sec(12,m.datacount,[&](Enc&s){s.uleb(m.datas.size());});
  sec(10,m.funcs.size(),[&](Enc&s){s.uleb(m.funcs.size());for(auto&f:m.funcs){Enc q;q.pad=pad;q.rng=rng;
    vector<std::pair<u32,VT>> g;for(VT v:f.locals){if(!g.empty()&&g.back().second==v)g.back().first++;else g.push_back({1,v});}
    // the same locals in other groups: split ones, empty ones
    if(rng&&pad>0&&rng->chance(40)){std::vector<std::pair<u32,VT>> h;static const VT T[]={I32,I64,F32,F64};for(auto x:g){while(rng->chance(25))h.push_back({0,T[rng->below(4)]});while(x.first>1&&rng->chance(50)){u32 k=rng->below(x.first+1);h.push_back({k,x.second});x.first-=k;}h.push_back(x);}if(rng->chance(20))h.push_back({0,I64});g=h;}
    if(f.rawLocals.size())q.bytes(f.rawLocals);else{q.uleb(g.size());for(auto&x:g){q.uleb(x.first);q.b(x.second);}}
    q.code(m,f.body);q.b(0x0b);s.uleb(q.o.size());s.bytes(q.o);}});
  sec(11,m.datas.size(),[&](Enc&s){s.uleb(m.datas.size());for(auto&d:m.datas){s.uleb(d.flags);if(d.flags==2)s.uleb(d.mem);if(d.flags!=1)s.cexpr(m,d.off);s.uleb(d.bytes.size());s.bytes(d.bytes);}});
  custom(99);
  return e.o;
}
struct Ctl{u16 op;VT bt;size_t h;bool unr;};
string validateFunc(const Module&m,const Func&f,int*maxst){
  const FuncType&ft=m.types[f.type];vector<VT> loc=ft.p;loc.insert(loc.end(),f.locals.begin(),f.locals.end());
  auto fts=m.functypes();auto tabs=m.alltables();auto mems=m.allmems();auto gl=m.allglobals();
  vector<VT> st;vector<Ctl> ctl;string err;int mx=0;
  ctl.push_back({OP_BLOCK,VOID,0,false});
  auto fail=[&](const string&s){if(err.empty())err=s;};
  auto push=[&](VT t){st.push_back(t);if((int)st.size()>mx)mx=st.size();};
  auto pop=[&](VT t)->VT{ if(st.size()==ctl.back().h){if(ctl.back().unr)return t;fail("underflow");return t;}
    VT x=st.back();st.pop_back();if(t!=ANY&&x!=ANY&&x!=t)fail(string("type mismatch want ")+vname(t)+" got "+vname(x));return x;};
  auto unr=[&](){st.resize(ctl.back().h);ctl.back().unr=true;};
  auto lt=[&](u32 d,vector<VT>&o){o.clear();if(d>=ctl.size()){fail("bad depth");return;}size_t k=ctl.size()-1-d;if(k==0){o=ft.r;return;}Ctl&c=ctl[k];if(c.op!=OP_LOOP&&c.bt!=VOID)o.push_back(c.bt);};
  auto popv=[&](const vector<VT>&v){for(size_t i=v.size();i-->0;)pop(v[i]);};
  auto pushv=[&](const vector<VT>&v){for(VT t:v)push(t);};
  vector<VT> tmp;
  for(size_t pc=0;pc<f.body.size()&&err.empty();pc++){
    const Ins&i=f.body[pc];Sig s;VT t;int w;bool store;
    if(numsig(i.op,s)){if(s.b!=VOID)pop(s.b);pop(s.a);push(s.r);continue;}
    if(memsig(i.op,t,w,store)){if(i.b>=mems.size()){fail("mem");break;}VT it=mems[i.b].is64?I64:I32;if(store)pop(t);pop(it);if(!store)push(t);continue;}
    switch(i.op){
      case OP_NOP:break;case OP_UNREACHABLE:unr();break;
      case OP_IF:pop(I32);/*fallthrough*/
      case OP_BLOCK:case OP_LOOP:ctl.push_back({i.op,(VT)i.a,st.size(),false});break;
      case OP_ELSE:if(ctl.size()<2||ctl.back().op!=OP_IF){fail("else");break;}
        if(ctl.back().bt!=VOID)pop(ctl.back().bt);if(st.size()!=ctl.back().h)fail("extra at else");st.resize(ctl.back().h);ctl.back().op=OP_ELSE;ctl.back().unr=false;break;
      case OP_END:if(ctl.size()<2){fail("end");break;}{Ctl c=ctl.back();if(c.op==OP_IF&&c.bt!=VOID)fail("if without else");if(c.bt!=VOID)pop(c.bt);if(st.size()!=c.h)fail("extra at end");st.resize(c.h);ctl.pop_back();if(c.bt!=VOID)push(c.bt);}break;
      case OP_BR:lt(i.a,tmp);popv(tmp);unr();break;
      case OP_BRIF:pop(I32);lt(i.a,tmp);popv(tmp);pushv(tmp);break;
      case OP_BRTABLE:{pop(I32);vector<VT> d;lt(i.tbl.back(),d);for(u32 x:i.tbl){lt(x,tmp);if(tmp!=d)fail("br_table types");}popv(d);unr();break;}
      case OP_RETURN:popv(ft.r);unr();break;
      case OP_CALL:case OP_RCALL:{if(i.a>=fts.size()){fail("func");break;}auto&g=m.types[fts[i.a]];popv(g.p);if(i.op==OP_RCALL){if(g.r!=ft.r)fail("rcall");unr();}else pushv(g.r);break;}
      case OP_CALLI:case OP_RCALLI:{if(i.b>=tabs.size()||tabs[i.b].et!=FUNCREF||i.a>=m.types.size()){fail("calli");break;}auto&g=m.types[i.a];pop(I32);popv(g.p);if(i.op==OP_RCALLI){if(g.r!=ft.r)fail("rcalli");unr();}else pushv(g.r);break;}
      case OP_DROP:pop(ANY);break;
      case OP_SELECT:{pop(I32);VT a=pop(ANY),b=pop(a);if(isref(a)||isref(b))fail("select ref");push(a==ANY?b:a);break;}
      case OP_SELECTT:pop(I32);pop((VT)i.a);pop((VT)i.a);push((VT)i.a);break;
      case OP_LGET:if(i.a>=loc.size()){fail("local");break;}push(loc[i.a]);break;
      case OP_LSET:if(i.a>=loc.size()){fail("local");break;}pop(loc[i.a]);break;
      case OP_LTEE:if(i.a>=loc.size()){fail("local");break;}pop(loc[i.a]);push(loc[i.a]);break;
      case OP_GGET:if(i.a>=gl.size()){fail("global");break;}push(gl[i.a].t);break;
      case OP_GSET:if(i.a>=gl.size()||!gl[i.a].mut){fail("global");break;}pop(gl[i.a].t);break;
      case OP_TGET:if(i.a>=tabs.size()){fail("table");break;}pop(I32);push(tabs[i.a].et);break;
      case OP_TSET:if(i.a>=tabs.size()){fail("table");break;}pop(tabs[i.a].et);pop(I32);break;
      case OP_MSIZE:if(i.b>=mems.size()){fail("mem");break;}push(mems[i.b].is64?I64:I32);break;
      case OP_MGROW:if(i.b>=mems.size()){fail("mem");break;}{VT q=mems[i.b].is64?I64:I32;pop(q);push(q);}break;
      case OP_I32C:push(I32);break;case OP_I64C:push(I64);break;case OP_F32C:push(F32);break;case OP_F64C:push(F64);break;
      case OP_REFNULL:push((VT)i.a);break;
      case OP_REFISNULL:{VT a=pop(ANY);if(a!=ANY&&!isref(a))fail("isnull");push(I32);break;}
      case OP_REFFUNC:if(i.a>=fts.size())fail("func");push(FUNCREF);break;
      case OP_MCOPY:if(i.a>=mems.size()||i.b>=mems.size()){fail("mem");break;}{VT d=mems[i.a].is64?I64:I32,q=mems[i.b].is64?I64:I32;pop(d==I64&&q==I64?I64:I32);pop(q);pop(d);}break;
      case OP_MFILL:if(i.b>=mems.size()){fail("mem");break;}{VT d=mems[i.b].is64?I64:I32;pop(d);pop(I32);pop(d);}break;
      case OP_TCOPY:if(i.a>=tabs.size()||i.b>=tabs.size()||tabs[i.a].et!=tabs[i.b].et){fail("tcopy");break;}pop(I32);pop(I32);pop(I32);break;
      case OP_TGROW:if(i.a>=tabs.size()){fail("table");break;}pop(I32);pop(tabs[i.a].et);push(I32);break;
      case OP_TSIZE:if(i.a>=tabs.size()){fail("table");break;}push(I32);break;
      case OP_TFILL:if(i.a>=tabs.size()){fail("table");break;}pop(I32);pop(tabs[i.a].et);pop(I32);break;
      default:fail("op");
    }
    if(!err.empty())err+=" at "+std::to_string(pc)+" "+opname(i.op);
  }
  if(err.empty()){if(ctl.size()!=1)fail("unclosed");else{popv(ft.r);if(st.size()!=0)fail("extra at function end");}}
  if(maxst)*maxst=mx;
  return err;
}
string validate(const Module&m,int*maxst){int M=0;for(size_t i=0;i<m.funcs.size();i++){int x=0;string e=validateFunc(m,m.funcs[i],&x);if(!e.empty())return "func "+std::to_string(i)+": "+e;if(x>M)M=x;}if(maxst)*maxst=M;return "";}
string dumpCode(const Module&m,const Code&c){
  string o;int ind=1;char b[128];
  for(auto&i:c){
    if(i.op==OP_END||i.op==OP_ELSE)ind--;
    o+=string(ind*2,' ');o+=opname(i.op);
    VT t;int w;bool st;
    switch(i.op){
      case OP_BLOCK:case OP_LOOP:case OP_IF:if(i.a!=VOID)o+=string(" (result ")+vname((VT)i.a)+")";break;
      case OP_BR:case OP_BRIF:case OP_CALL:case OP_RCALL:case OP_LGET:case OP_LSET:case OP_LTEE:case OP_GGET:case OP_GSET:case OP_TGET:case OP_TSET:case OP_REFFUNC:case OP_TGROW:case OP_TSIZE:case OP_TFILL:case OP_DDROP:case OP_EDROP:snprintf(b,128," %u",i.a);o+=b;break;
      case OP_BRTABLE:for(u32 x:i.tbl){snprintf(b,128," %u",x);o+=b;}break;
      case OP_CALLI:case OP_RCALLI:snprintf(b,128," type %u table %u",i.a,i.b);o+=b;break;
      case OP_SELECTT:case OP_REFNULL:o+=string(" ")+vname((VT)i.a);break;
      case OP_MSIZE:case OP_MGROW:case OP_MFILL:snprintf(b,128," %u",i.b);o+=b;break;
      case OP_MCOPY:case OP_TCOPY:case OP_MINIT:case OP_TINIT:snprintf(b,128," %u %u",i.a,i.b);o+=b;break;
      case OP_I32C:snprintf(b,128," %d",(s32)i.k);o+=b;break;
      case OP_I64C:snprintf(b,128," %lld",(long long)i.k);o+=b;break;
      case OP_F32C:{float f;u32 k=(u32)i.k;memcpy(&f,&k,4);snprintf(b,128," %.9g(0x%08x)",f,k);o+=b;break;}
      case OP_F64C:{double f;memcpy(&f,&i.k,8);snprintf(b,128," %.17g(0x%016llx)",f,(unsigned long long)i.k);o+=b;break;}
      default:if(memsig(i.op,t,w,st)){snprintf(b,128," mem=%u offset=%llu align=%u",i.b,(unsigned long long)i.k,i.a);o+=b;}
    }
    o+="\n";
    if(i.op==OP_BLOCK||i.op==OP_LOOP||i.op==OP_IF||i.op==OP_ELSE)ind++;
  }
  return o;
}
static string ts(const FuncType&t){string o="(";for(VT v:t.p)o+=string(vname(v))+" ";o+=")->(";for(VT v:t.r)o+=string(vname(v))+" ";return o+")";}
string dumpModule(const Module&m){
  string o;char b[256];
  for(auto&i:m.imports){snprintf(b,256,"import %s.%s kind %d",i.mod.c_str(),i.field.c_str(),i.kind);o+=b;if(i.kind==0)o+=" "+ts(m.types[i.type]);if(i.kind==3){o+=" ";o+=vname(i.gt);}if(i.kind==2||i.kind==1){snprintf(b,256," min %u max %u %s%s",i.min,i.max,i.hasmax?"hasmax":"",i.is64?" i64":"");o+=b;}o+="\n";}
  for(auto&t:m.tables){snprintf(b,256,"table %s min %u max %u %d\n",vname(t.et),t.min,t.max,t.hasmax);o+=b;}
  for(auto&t:m.mems){snprintf(b,256,"memory min %u max %u hasmax %d i64 %d\n",t.min,t.max,t.hasmax,t.is64);o+=b;}
  for(auto&g:m.globals){o+=string("global ")+vname(g.t)+(g.mut?" mut\n":"\n")+dumpCode(m,g.init);}
  for(auto&x:m.exports){snprintf(b,256,"export kind %d idx %u ",x.kind,x.idx);o+=b;o+=x.name+"\n";}
  for(auto&e:m.elems){snprintf(b,256,"elem flags %u table %u n %zu\n",e.flags,e.table,e.funcs.size()+e.exprs.size());o+=b;}
  for(auto&e:m.datas){snprintf(b,256,"data flags %u mem %u n %zu\n",e.flags,e.mem,e.bytes.size());o+=b;}
  if(m.start>=0){snprintf(b,256,"start %d\n",m.start);o+=b;}
  int ni=m.nimp(0);
  for(size_t i=0;i<m.funcs.size();i++){snprintf(b,256,"func %zu ",i+ni);o+=b;o+=ts(m.types[m.funcs[i].type])+" locals:";for(VT v:m.funcs[i].locals)o+=string(" ")+vname(v);o+="\n";o+=dumpCode(m,m.funcs[i].body);}
  return o;
}
