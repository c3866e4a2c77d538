#include "interp.h"
#include <cmath>
static inline float f32of(u64 v){float f;u32 x=(u32)v;memcpy(&f,&x,4);return f;}
static inline double f64of(u64 v){double f;memcpy(&f,&v,8);return f;}
static inline u64 of32(float f){u32 x;memcpy(&x,&f,4);return x;}
static inline u64 of64(double f){u64 x;memcpy(&x,&f,8);return x;}
template<class T>static T fmin_(T a,T b){if(a==0&&b==0)return std::signbit(a)?a:b;return a<b?a:b;}
template<class T>static T fmax_(T a,T b){if(a==0&&b==0)return std::signbit(a)?b:a;return a>b?a:b;}
static V r32(float f,bool anynan=true){V r;r.v=of32(f);r.t=f!=f&&anynan;return r;}
static V r64(double f,bool anynan=true){V r;r.v=of64(f);r.t=f!=f&&anynan;return r;}
static V ri32(u32 x){V r;r.v=x;return r;}
static V ri64(u64 x){V r;r.v=x;return r;}
static float nearf(float x){return rintf(x);} // default rounding mode: to nearest even
bool numeval(u16 op,V A,V B,V&R){
  u32 a=(u32)A.v,b=(u32)B.v;u64 x=A.v,y=B.v;float f=f32of(A.v),g=f32of(B.v);double d=f64of(A.v),e=f64of(B.v);
  switch(op){
  case 0x45:R=ri32(a==0);return true;
  case 0x46:R=ri32(a==b);return true;case 0x47:R=ri32(a!=b);return true;
  case 0x48:R=ri32((s32)a<(s32)b);return true;case 0x49:R=ri32(a<b);return true;
  case 0x4a:R=ri32((s32)a>(s32)b);return true;case 0x4b:R=ri32(a>b);return true;
  case 0x4c:R=ri32((s32)a<=(s32)b);return true;case 0x4d:R=ri32(a<=b);return true;
  case 0x4e:R=ri32((s32)a>=(s32)b);return true;case 0x4f:R=ri32(a>=b);return true;
  case 0x50:R=ri32(x==0);return true;
  case 0x51:R=ri32(x==y);return true;case 0x52:R=ri32(x!=y);return true;
  case 0x53:R=ri32((s64)x<(s64)y);return true;case 0x54:R=ri32(x<y);return true;
  case 0x55:R=ri32((s64)x>(s64)y);return true;case 0x56:R=ri32(x>y);return true;
  case 0x57:R=ri32((s64)x<=(s64)y);return true;case 0x58:R=ri32(x<=y);return true;
  case 0x59:R=ri32((s64)x>=(s64)y);return true;case 0x5a:R=ri32(x>=y);return true;
  case 0x5b:R=ri32(f==g);return true;case 0x5c:R=ri32(f!=g);return true;case 0x5d:R=ri32(f<g);return true;
  case 0x5e:R=ri32(f>g);return true;case 0x5f:R=ri32(f<=g);return true;case 0x60:R=ri32(f>=g);return true;
  case 0x61:R=ri32(d==e);return true;case 0x62:R=ri32(d!=e);return true;case 0x63:R=ri32(d<e);return true;
  case 0x64:R=ri32(d>e);return true;case 0x65:R=ri32(d<=e);return true;case 0x66:R=ri32(d>=e);return true;
  case 0x67:{u32 n=0;while(n<32&&!((a>>(31-n))&1))n++;R=ri32(n);return true;}
  case 0x68:{u32 n=0;while(n<32&&!((a>>n)&1))n++;R=ri32(n);return true;}
  case 0x69:{u32 n=0;for(int i=0;i<32;i++)n+=(a>>i)&1;R=ri32(n);return true;}
  case 0x6a:R=ri32(a+b);return true;case 0x6b:R=ri32(a-b);return true;case 0x6c:R=ri32(a*b);return true;
  case 0x6d:if(!b||(a==0x80000000u&&b==0xffffffffu))return false;R=ri32((u32)((s32)a/(s32)b));return true;
  case 0x6e:if(!b)return false;R=ri32(a/b);return true;
  case 0x6f:if(!b)return false;R=ri32(b==0xffffffffu?0:(u32)((s32)a%(s32)b));return true;
  case 0x70:if(!b)return false;R=ri32(a%b);return true;
  case 0x71:R=ri32(a&b);return true;case 0x72:R=ri32(a|b);return true;case 0x73:R=ri32(a^b);return true;
  case 0x74:R=ri32(a<<(b&31));return true;case 0x75:R=ri32((u32)((s32)a>>(b&31)));return true;case 0x76:R=ri32(a>>(b&31));return true;
  case 0x77:b&=31;R=ri32(b?(a<<b)|(a>>(32-b)):a);return true;
  case 0x78:b&=31;R=ri32(b?(a>>b)|(a<<(32-b)):a);return true;
  case 0x79:{u64 n=0;while(n<64&&!((x>>(63-n))&1))n++;R=ri64(n);return true;}
  case 0x7a:{u64 n=0;while(n<64&&!((x>>n)&1))n++;R=ri64(n);return true;}
  case 0x7b:{u64 n=0;for(int i=0;i<64;i++)n+=(x>>i)&1;R=ri64(n);return true;}
  case 0x7c:R=ri64(x+y);return true;case 0x7d:R=ri64(x-y);return true;case 0x7e:R=ri64(x*y);return true;
  case 0x7f:if(!y||(x==0x8000000000000000ull&&y==~0ull))return false;R=ri64((u64)((s64)x/(s64)y));return true;
  case 0x80:if(!y)return false;R=ri64(x/y);return true;
  case 0x81:if(!y)return false;R=ri64(y==~0ull?0:(u64)((s64)x%(s64)y));return true;
  case 0x82:if(!y)return false;R=ri64(x%y);return true;
  case 0x83:R=ri64(x&y);return true;case 0x84:R=ri64(x|y);return true;case 0x85:R=ri64(x^y);return true;
  case 0x86:R=ri64(x<<(y&63));return true;case 0x87:R=ri64((u64)((s64)x>>(y&63)));return true;case 0x88:R=ri64(x>>(y&63));return true;
  case 0x89:y&=63;R=ri64(y?(x<<y)|(x>>(64-y)):x);return true;
  case 0x8a:y&=63;R=ri64(y?(x>>y)|(x<<(64-y)):x);return true;
  case 0x8b:R.v=a&0x7fffffff;R.t=A.t;return true;
  case 0x8c:R.v=a^0x80000000u;R.t=A.t;return true;
  case 0x8d:R=r32(ceilf(f));return true;case 0x8e:R=r32(floorf(f));return true;case 0x8f:R=r32(truncf(f));return true;
  case 0x90:R=r32(nearf(f));return true;case 0x91:R=r32(sqrtf(f));return true;
  case 0x92:R=r32(f+g);return true;case 0x93:R=r32(f-g);return true;case 0x94:R=r32(f*g);return true;case 0x95:R=r32(f/g);return true;
  case 0x96:if(f!=f||g!=g){R=r32(f+g);return true;}R=r32(fmin_(f,g));return true;
  case 0x97:if(f!=f||g!=g){R=r32(f+g);return true;}R=r32(fmax_(f,g));return true;
  case 0x98:if(B.t)throw Trap{"nan sign"};R.v=(a&0x7fffffff)|(b&0x80000000u);R.t=A.t;return true;
  case 0x99:R.v=x&0x7fffffffffffffffull;R.t=A.t;return true;
  case 0x9a:R.v=x^0x8000000000000000ull;R.t=A.t;return true;
  case 0x9b:R=r64(ceil(d));return true;case 0x9c:R=r64(floor(d));return true;case 0x9d:R=r64(trunc(d));return true;
  case 0x9e:R=r64(rint(d));return true;case 0x9f:R=r64(sqrt(d));return true;
  case 0xa0:R=r64(d+e);return true;case 0xa1:R=r64(d-e);return true;case 0xa2:R=r64(d*e);return true;case 0xa3:R=r64(d/e);return true;
  case 0xa4:if(d!=d||e!=e){R=r64(d+e);return true;}R=r64(fmin_(d,e));return true;
  case 0xa5:if(d!=d||e!=e){R=r64(d+e);return true;}R=r64(fmax_(d,e));return true;
  case 0xa6:if(B.t)throw Trap{"nan sign"};R.v=(x&0x7fffffffffffffffull)|(y&0x8000000000000000ull);R.t=A.t;return true;
  case 0xa7:R=ri32((u32)x);return true;
  case 0xa8:if(!(f>=-2147483648.0f&&f<2147483648.0f))return false;R=ri32((u32)(s32)f);return true;
  case 0xa9:if(!(f>-1.0f&&f<4294967296.0f))return false;R=ri32((u32)f);return true;
  case 0xaa:if(!(d>-2147483649.0&&d<2147483648.0))return false;R=ri32((u32)(s32)d);return true;
  case 0xab:if(!(d>-1.0&&d<4294967296.0))return false;R=ri32((u32)d);return true;
  // saturating: NaN gives 0
  case 0xfc00:case 0xfc02:{double v=op==0xfc00?(double)f:d;R=ri32(v!=v?0:v<=-2147483648.0?0x80000000u:v>=2147483647.0?0x7fffffffu:(u32)(s32)v);return true;}
  case 0xfc01:case 0xfc03:{double v=op==0xfc01?(double)f:d;R=ri32(!(v>0)?0:v>=4294967295.0?0xffffffffu:(u32)v);return true;}
  case 0xfc04:case 0xfc06:{double v=op==0xfc04?(double)f:d;R=ri64(v!=v?0:v<-9223372036854775808.0?1ull<<63:v>=9223372036854775808.0?~0ull>>1:(u64)(s64)v);return true;}
  case 0xfc05:case 0xfc07:{double v=op==0xfc05?(double)f:d;R=ri64(!(v>0)?0:v>=18446744073709551616.0?~0ull:(u64)v);return true;}
  case 0xac:R=ri64((u64)(s64)(s32)a);return true;case 0xad:R=ri64(a);return true;
  case 0xae:if(!(f>=-9223372036854775808.0f&&f<9223372036854775808.0f))return false;R=ri64((u64)(s64)f);return true;
  case 0xaf:if(!(f>-1.0f&&f<18446744073709551616.0f))return false;R=ri64((u64)f);return true;
  case 0xb0:if(!(d>=-9223372036854775808.0&&d<9223372036854775808.0))return false;R=ri64((u64)(s64)d);return true;
  case 0xb1:if(!(d>-1.0&&d<18446744073709551616.0))return false;R=ri64((u64)d);return true;
  case 0xb2:R=r32((float)(s32)a);return true;case 0xb3:R=r32((float)a);return true;
  case 0xb4:R=r32((float)(s64)x);return true;case 0xb5:R=r32((float)x);return true;
  case 0xb6:R=r32((float)d);return true;
  case 0xb7:R=r64((double)(s32)a);return true;case 0xb8:R=r64((double)a);return true;
  case 0xb9:R=r64((double)(s64)x);return true;case 0xba:R=r64((double)x);return true;
  case 0xbb:R=r64((double)f);return true;
  case 0xbc:if(A.t)throw Trap{"nan bits"};R=ri32(a);return true;
  case 0xbd:if(A.t)throw Trap{"nan bits"};R=ri64(x);return true;
  case 0xbe:R=ri32(a);return true;case 0xbf:R=ri64(x);return true;
  case 0xc0:R=ri32((u32)(s32)(int8_t)a);return true;case 0xc1:R=ri32((u32)(s32)(int16_t)a);return true;
  case 0xc2:R=ri64((u64)(s64)(int8_t)x);return true;case 0xc3:R=ri64((u64)(s64)(int16_t)x);return true;case 0xc4:R=ri64((u64)(s64)(s32)x);return true;
  }
  throw Trap{"numeval op"};
}
FuncObj*Store::newFunc(){funcs.emplace_back(new FuncObj);funcs.back()->id=(int)funcs.size()-1;return funcs.back().get();}
MemObj*Store::newMem(){mems.emplace_back(new MemObj);mems.back()->id=(int)mems.size()-1;return mems.back().get();}
TabObj*Store::newTab(){tabs.emplace_back(new TabObj);tabs.back()->id=(int)tabs.size()-1;return tabs.back().get();}
GlobObj*Store::newGlob(){globs.emplace_back(new GlobObj);globs.back()->id=(int)globs.size()-1;return globs.back().get();}
V Store::evalConst(Instance*in,const Code&c){
  vector<V> st;auto pop=[&]{if(st.empty())throw Trap{"const"};V v=st.back();st.pop_back();return v;};
  for(auto&i:c){V v;Sig s;switch(i.op){
    case OP_I32C:v.v=(u32)i.k;st.push_back(v);break;case OP_I64C:case OP_F64C:v.v=i.k;st.push_back(v);break;case OP_F32C:v.v=(u32)i.k;st.push_back(v);break;
    case OP_GGET:st.push_back(in->globs.at(i.a)->v);break;
    case OP_REFNULL:st.push_back(v);break;
    case OP_REFFUNC:v.v=(u64)in->funcs.at(i.a);st.push_back(v);break;
    default:if(numsig(i.op,s)&&s.b!=VOID){V b=pop(),a=pop();if(!numeval(i.op,a,b,v))throw Trap{"const trap"};st.push_back(v);}else throw Trap{"const op"};}}
  return pop();
}
Instance*Store::instantiate(Module*m,const vector<FuncObj*>&fi,const vector<MemObj*>&mi,const vector<TabObj*>&ti,const vector<GlobObj*>&gi){
  insts.emplace_back(new Instance);Instance*in=insts.back().get();in->m=m;
  in->funcs=fi;in->mems=mi;in->tabs=ti;in->globs=gi;in->ownfunc0=(u32)fi.size();
  for(u32 k=0;k<m->funcs.size();k++){FuncObj*f=newFunc();f->inst=in;f->fi=k+(u32)fi.size();f->f=&m->funcs[k];f->ft=m->types[m->funcs[k].type];in->funcs.push_back(f);
    auto&b=f->f->body;f->match.assign(b.size(),-1);f->els.assign(b.size(),-1);vector<int> st;
    for(int p=0;p<(int)b.size();p++){u16 o=b[p].op;if(o==OP_BLOCK||o==OP_LOOP||o==OP_IF)st.push_back(p);else if(o==OP_ELSE){f->els[st.back()]=p;}else if(o==OP_END){int q=st.back();st.pop_back();f->match[q]=p;if(f->els[q]>=0)f->match[f->els[q]]=p;}}}
  for(auto&t:m->tables){TabObj*o=newTab();o->et=t.et;o->e.assign(t.min,0);o->max=t.hasmax?t.max:0xffffffffu;in->tabs.push_back(o);}
  for(auto&t:m->mems){MemObj*o=newMem();o->pages=t.min;o->max=t.hasmax?t.max:32768;o->fixed=t.hasmax;o->is64=t.is64;o->b.assign((size_t)t.min*65536,0);in->mems.push_back(o);}
  for(auto&g:m->globals){GlobObj*o=newGlob();o->t=g.t;o->mut=g.mut;o->v=evalConst(in,g.init);in->globs.push_back(o);}
  for(auto&e:m->elems){if(e.flags&1)continue;u32 off=(u32)evalConst(in,e.off).v;TabObj*t=in->tabs.at((e.flags&2)?e.table:0);
    u32 n=(e.flags&4)?e.exprs.size():e.funcs.size();if((u64)off+n>t->e.size())throw Trap{"elem oob"};
    for(u32 k=0;k<n;k++)t->e[off+k]=(e.flags&4)?evalConst(in,e.exprs[k]).v:(u64)in->funcs.at(e.funcs[k]);}
  for(auto&d:m->datas){if(d.flags==1)continue;MemObj*mo=in->mems.at(d.flags==2?d.mem:0);u64 off=evalConst(in,d.off).v;if(!mo->is64)off=(u32)off;if(off<mo->lo)throw Trap{"data oob"};off-=mo->lo;
    if(off+d.bytes.size()>mo->size()||off+d.bytes.size()<off)throw Trap{"data oob"};if(d.bytes.size())memcpy(mo->ptr()+off,d.bytes.data(),d.bytes.size());}
  return in;
}
Store::Snap Store::snap(){Snap s;for(auto&m:mems){s.mb.push_back(m->b);s.pages.push_back(m->pages);}for(auto&t:tabs)s.te.push_back(t->e);for(auto&g:globs)s.gv.push_back(g->v);s.logn=log.size();return s;}
void Store::restore(const Snap&s){for(size_t i=0;i<s.mb.size();i++){mems[i]->b=s.mb[i];mems[i]->pages=s.pages[i];if(mems[i]->ext)mems[i]->extsize=(u64)s.pages[i]*65536;}for(size_t i=0;i<s.te.size();i++)tabs[i]->e=s.te[i];for(size_t i=0;i<s.gv.size();i++)globs[i]->v=s.gv[i];log.resize(s.logn);depth=0;frameUnits=0;}

struct Lab{u16 op;VT bt;size_t h;int pc;};
void Store::call(FuncObj*F,const vector<V>&args0,vector<V>&res){
  vector<V> args=args0;
  u64 myunits=0;
 again:
  if(F->host>=0){ F->calls++;log.push_back({F->host,args}); res.clear();host(*this,F->host,args,res);return; }
  struct G{Store*s;u64&u;G(Store*s,u64&u):s(s),u(u){s->depth++;}~G(){s->depth--;s->frameUnits-=u;u=0;}};
  {
  G guard(this,myunits);
  if(depth>maxdepth)throw Trap{"depth"};
  F->calls++;
  Instance*in=F->inst;const Code&c=F->f->body;const FuncType&ft=F->ft;
  myunits=ft.p.size()+ft.r.size()+F->f->locals.size()+64;frameUnits+=myunits;if(frameUnits>maxFrameUnits)throw Trap{"frame budget"};
  vector<V> L=args;L.resize(ft.p.size()+F->f->locals.size());
  vector<V> st;vector<Lab> lab;int pc=0,n=(int)c.size();
  auto pop=[&]()->V{V v=st.back();st.pop_back();return v;};
  auto push=[&](u64 v){V x;x.v=v;st.push_back(x);};
  auto doret=[&](size_t nr){res.assign(st.end()-nr,st.end());};
  // returns true if function returns
  auto branch=[&](u32 d)->bool{
    branches++;
    if(d>=lab.size()){doret(ft.r.size());return true;}
    Lab l=lab[lab.size()-1-d];
    if(l.op==OP_LOOP){st.resize(l.h);lab.resize(lab.size()-d);pc=l.pc+1;return false;}
    if(l.bt!=VOID){V v=st.back();st.resize(l.h);st.push_back(v);}else st.resize(l.h);
    lab.resize(lab.size()-1-d);pc=F->match[l.pc]+1;return false;};
  auto chk=[&](MemObj*m,u64 idx,u64 off,u64 len)->u8*{u64 ea=idx+off;if(ea<off||ea<m->lo)throw Trap{"oob"};ea-=m->lo;if(ea+len<ea||ea+len>m->size())throw Trap{"oob"};return m->ptr()+ea;};
  while(pc<n){
    const Ins&i=c[pc];
    if(++steps>maxsteps)throw Trap{"steps"};
    opcount[i.op<256?i.op:0x100+(i.op&0xff)]++;
    Sig s;VT t;int w;bool sto;
    if(numsig(i.op,s)){V b,a,r;if(s.b!=VOID)b=pop();a=pop();if(!numeval(i.op,a,b,r))throw Trap{"numeric trap"};st.push_back(r);pc++;continue;}
    if(memsig(i.op,t,w,sto)){
      MemObj*m=in->mems[i.b];V val;if(sto)val=pop();u64 idx=pop().v;if(!m->is64)idx=(u32)idx;u8*p=chk(m,idx,i.k,w);
      if(sto){stores++;if(val.t)throw Trap{"nan bits"};for(int k=0;k<w;k++)p[k]=(u8)(val.v>>(8*k));}
      else{loads++;u64 v=0;for(int k=0;k<w;k++)v|=(u64)p[k]<<(8*k);
        switch(i.op){case 0x2c:v=(u32)(s32)(int8_t)v;break;case 0x2e:v=(u32)(s32)(int16_t)v;break;case 0x30:v=(u64)(s64)(int8_t)v;break;case 0x32:v=(u64)(s64)(int16_t)v;break;case 0x34:v=(u64)(s64)(s32)v;break;}
        push(v);}
      pc++;continue;}
    switch(i.op){
      case OP_NOP:pc++;break;
      case OP_UNREACHABLE:throw Trap{"unreachable"};
      case OP_BLOCK:case OP_LOOP:lab.push_back({i.op,(VT)i.a,st.size(),pc});pc++;break;
      case OP_IF:{u32 q=(u32)pop().v;if(q){lab.push_back({OP_IF,(VT)i.a,st.size(),pc});pc++;}
        else if(F->els[pc]>=0){lab.push_back({OP_IF,(VT)i.a,st.size(),pc});pc=F->els[pc]+1;}else pc=F->match[pc]+1;break;}
      case OP_ELSE:pc=F->match[pc]; /* to end */ break;
      case OP_END:lab.pop_back();pc++;break;
      case OP_BR:if(branch(i.a))return;break;
      case OP_BRIF:{u32 q=(u32)pop().v;if(q){if(branch(i.a))return;}else pc++;break;}
      case OP_BRTABLE:{u32 q=(u32)pop().v;u32 d=q<i.tbl.size()-1?i.tbl[q]:i.tbl.back();if(branch(d))return;break;}
      case OP_RETURN:doret(ft.r.size());return;
      case OP_CALL:case OP_CALLI:case OP_RCALL:case OP_RCALLI:{
        FuncObj*g;if(i.op==OP_CALL||i.op==OP_RCALL)g=in->funcs[i.a];
        else{u32 q=(u32)pop().v;TabObj*tb=in->tabs[i.b];if(q>=tb->e.size()||!tb->e[q])throw Trap{"calli"};g=(FuncObj*)tb->e[q];if(!(g->ft==in->m->types[i.a]))throw Trap{"calli type"};}
        size_t np=g->ft.p.size();vector<V> ar(st.end()-np,st.end());st.resize(st.size()-np);calls++;
        if(i.op==OP_RCALL||i.op==OP_RCALLI){tailcalls++;args=ar;F=g;goto tail;}
        vector<V> rs;call(g,ar,rs);for(auto&v:rs)st.push_back(v);pc++;break;}
      case OP_DROP:pop();pc++;break;
      case OP_SELECT:case OP_SELECTT:{u32 q=(u32)pop().v;V b=pop(),a=pop();st.push_back(q?a:b);pc++;break;}
      case OP_LGET:st.push_back(L[i.a]);pc++;break;
      case OP_LSET:L[i.a]=pop();pc++;break;
      case OP_LTEE:L[i.a]=st.back();pc++;break;
      case OP_GGET:st.push_back(in->globs[i.a]->v);pc++;break;
      case OP_GSET:in->globs[i.a]->v=pop();pc++;break;
      case OP_TGET:{u32 q=(u32)pop().v;TabObj*tb=in->tabs[i.a];if(q>=tb->e.size())throw Trap{"toob"};tableops++;push(tb->e[q]);pc++;break;}
      case OP_TSET:{V v=pop();u32 q=(u32)pop().v;TabObj*tb=in->tabs[i.a];if(q>=tb->e.size())throw Trap{"toob"};tableops++;tb->e[q]=v.v;pc++;break;}
      case OP_MSIZE:push(in->mems[i.b]->pages);pc++;break;
      case OP_MGROW:{MemObj*m=in->mems[i.b];u64 d=pop().v;if(!m->is64)d=(u32)d;grows++;
        u64 neg=m->is64?~0ull:0xffffffffull;
        if(m->native)throw Trap{"native grow"};
        if(d>65536||(u64)m->pages+d>m->max){push(neg);}
        else{ if(!m->ext&&(u64)m->pages+d>2048)throw Trap{"grow too large for the workload"};push(m->pages);m->pages+=(u32)d;if(m->ext)m->extsize=(u64)m->pages*65536;else m->b.resize((size_t)m->pages*65536,0);}
        pc++;break;}
      case OP_I32C:case OP_F32C:push((u32)i.k);pc++;break;
      case OP_I64C:case OP_F64C:push(i.k);pc++;break;
      case OP_REFNULL:push(0);pc++;break;
      case OP_REFISNULL:push(pop().v==0);pc++;break;
      case OP_REFFUNC:push((u64)in->funcs[i.a]);pc++;break;
      case OP_MCOPY:{MemObj*d=in->mems[i.a],*q=in->mems[i.b];bool l64=d->is64&&q->is64;u64 len=pop().v;if(!l64)len=(u32)len;u64 so=pop().v;if(!q->is64)so=(u32)so;u64 dd=pop().v;if(!d->is64)dd=(u32)dd;
        u8*pd=chk(d,dd,0,len),*ps=chk(q,so,0,len);memmove(pd,ps,len);bulk++;steps+=len/64;pc++;break;}
      case OP_MFILL:{MemObj*d=in->mems[i.b];u64 len=pop().v;u8 v=(u8)pop().v;u64 dd=pop().v;if(!d->is64){len=(u32)len;dd=(u32)dd;}memset(chk(d,dd,0,len),v,len);bulk++;steps+=len/64;pc++;break;}
      case OP_TCOPY:{TabObj*d=in->tabs[i.a],*q=in->tabs[i.b];u32 len=(u32)pop().v,so=(u32)pop().v,dd=(u32)pop().v;if((u64)so+len>q->e.size()||(u64)dd+len>d->e.size())throw Trap{"toob"};
        vector<u64> tmp(q->e.begin()+so,q->e.begin()+so+len);std::copy(tmp.begin(),tmp.end(),d->e.begin()+dd);tableops++;pc++;break;}
      case OP_TSIZE:push(in->tabs[i.a]->e.size());pc++;break;
      case OP_TGROW:{u32 d=(u32)pop().v;pop();(void)d;push(0xffffffffu);pc++;break;} // pwart tables are never grown: -1 is always allowed
      case OP_TFILL:{TabObj*d=in->tabs[i.a];u32 len=(u32)pop().v;u64 v=pop().v;u32 dd=(u32)pop().v;if((u64)dd+len>d->e.size())throw Trap{"toob"};for(u32 k=0;k<len;k++)d->e[dd+k]=v;tableops++;pc++;break;}
      default:throw Trap{"interp op"};
    }
  }
  doret(ft.r.size());
  return;
 tail:;
  }
  goto again;
}
