// C06 (and, with -DREC, C05): rings of functions that call each other many times, over module borders, tables and host functions.
// Tail calls: the values after N rounds against a model, and the native and runtime stack use of every round.
// Calls (REC): values passed down and up over N levels, with every parameter, local and pending operand of every level folded into its result.
#include "tiny.h"
#define HX_TYPES
#include "hx.h"
#include "hxalloc.h"
static hx::Counter cRounds("calls_run"),cChains("chains"),cLong("chains_of_1000_calls_or_more"),cDeepest("chains_of_10000_calls_or_more"),cProbe("stack_positions_recorded"),cHost("host_function_ends"),cInd("indirect_edges"),cCross("edges_between_modules"),cArms("two_way_functions"),cVals("values_compared"),cBounce("host_functions_calling_back"),cHW("runtime_stack_marks");
struct E{int op;VT t;u32 i=0;u64 k=0;vector<E> s;};
enum{GET,CONST,ADD,XOR,WRAP,EXT,REINT,ROT};
static u64 trunc_(VT t,u64 v){return vsize(t)==4?(u32)v:v;}
static u64 ev(const E&e,const vector<u64>&v){switch(e.op){
  case GET:return v[e.i];case CONST:return e.k;case ADD:return trunc_(e.t,ev(e.s[0],v)+ev(e.s[1],v));case XOR:return ev(e.s[0],v)^ev(e.s[1],v);
  case WRAP:return (u32)ev(e.s[0],v);case EXT:return ev(e.s[0],v);case REINT:return ev(e.s[0],v);
  default:{u64 a=ev(e.s[0],v),n=e.k;if(e.t==I32){n&=31;u32 x=a;return n?(u32)(x<<n|x>>(32-n)):x;}n&=63;return n?(a<<n|a>>(64-n)):a;}}}
static void em(const E&e,Code&c){
  switch(e.op){
  case GET:c.push_back(I(OP_LGET,e.i));return;
  case CONST:if(isref(e.t))c.push_back(I(OP_REFNULL,e.t));else c.push_back(I(e.t==I32?OP_I32C:e.t==I64?OP_I64C:e.t==F32?OP_F32C:OP_F64C,0,0,e.k));return;
  case ADD:em(e.s[0],c);em(e.s[1],c);c.push_back(I(e.t==I32?0x6a:0x7c));return;
  case XOR:em(e.s[0],c);em(e.s[1],c);c.push_back(I(e.t==I32?0x73:0x85));return;
  case WRAP:em(e.s[0],c);c.push_back(I(0xa7));return;
  case EXT:em(e.s[0],c);c.push_back(I(0xad));return;
  case REINT:em(e.s[0],c);c.push_back(I(e.t==I32?0xbc:e.t==I64?0xbd:e.t==F32?0xbe:0xbf));return;
  default:em(e.s[0],c);c.push_back(I(e.t==I32?OP_I32C:OP_I64C,0,0,e.k));c.push_back(I(e.t==I32?0x77:0x89));}}
static u64 rnd(VT t,Rng&r){u64 v=r.next();if(r.chance(30))v=(s64)(s32)r.range(-3,200);if(isref(t))v&=0x7fffffffffffull;return trunc_(t,v);}
// an expression of type t over the variables ty[0..)
static E ex(VT t,const vector<VT>&ty,int d,Rng&r){
  E e;e.t=t;vector<u32> c;for(u32 i=1;i<ty.size();i++)if(ty[i]==t)c.push_back(i);
  int k=r.below(100);
  if(d<=0||k<55||isref(t)){if(c.size()&&!r.chance(12)){e.op=GET;e.i=c[r.below(c.size())];return e;}e.op=CONST;e.k=isref(t)?0:rnd(t,r);return e;}
  switch(t){
    case I32:if(k<65){e.op=WRAP;e.s={ex(I64,ty,d-1,r)};}else if(k<75){e.op=REINT;e.s={ex(F32,ty,d-1,r)};}else if(k<85){e.op=ROT;e.k=r.below(40);e.s={ex(I32,ty,d-1,r)};}else{e.op=r.chance(50)?ADD:XOR;e.s={ex(I32,ty,d-1,r),ex(I32,ty,d-2,r)};}return e;
    case I64:if(k<65){e.op=EXT;e.s={ex(I32,ty,d-1,r)};}else if(k<75){e.op=REINT;e.s={ex(F64,ty,d-1,r)};}else if(k<85){e.op=ROT;e.k=r.below(80);e.s={ex(I64,ty,d-1,r)};}else{e.op=r.chance(50)?ADD:XOR;e.s={ex(I64,ty,d-1,r),ex(I64,ty,d-2,r)};}return e;
    default:e.op=REINT;e.s={ex(t==F32?I32:I64,ty,d-1,r)};return e;}}
struct Edge{int to;int kind;/*0 direct 1 indirect 2 host*/vector<E> args;};
struct Fn{int mod;FuncType t;vector<VT> ty;/*parameters, locals*/u32 nloc;vector<std::pair<u32,E>> sets;vector<E> pend,res;vector<Edge> arms;u32 cond=0;vector<int> nest;bool probe=false;int fin=-1;u32 resBase=0,pendBase=0,hv=0;bool redo=false;};
struct Fin{FuncType t;vector<u64> res;};
static vector<Fn> F;static vector<Fin> H;static const int MAXF=8;
// host side
struct Pos{char*nlo,*nhi,*rlo,*rhi;bool any;};
static Pos first[MAXF],second[MAXF];static u64 probes,halfAt;static string hostBad;static vector<u64> finArgs;static int finWho;static bool align_;
static size_t slot(size_t&o,VT t){if(align_&&vsize(t)==8)o=(o+7)&~(size_t)7;size_t p=o;o+=vsize(t);return p;}
static vector<u64> getVals(void*fp,const vector<VT>&t){vector<u64> v;size_t o=0;for(VT x:t){size_t p=slot(o,x);u64 q=0;memcpy(&q,(u8*)fp+p,vsize(x));v.push_back(q);}return v;}
static void putVals(void*fp,const vector<VT>&t,const vector<u64>&v){size_t o=0;for(size_t i=0;i<t.size();i++){size_t p=slot(o,t[i]);memcpy((u8*)fp+p,&v[i],vsize(t[i]));}}
static void hostProbe(void*fp){u32 id;memcpy(&id,fp,4);char*n=(char*)__builtin_frame_address(0);if((size_t)n&15)hostBad="native stack not aligned to 16 in a host function";if(id>=F.size()){hostBad="the probe got another argument";return;}
  Pos&p=probes<halfAt?first[id]:second[id];probes++;if(!p.any){p={n,n,(char*)fp,(char*)fp,true};}else{p.nlo=std::min(p.nlo,n);p.nhi=std::max(p.nhi,n);p.rlo=std::min(p.rlo,(char*)fp);p.rhi=std::max(p.rhi,(char*)fp);}}
template<int N>static void hostFin(void*fp){finWho=N;finArgs=getVals(fp,H[N].t.p);putVals(fp,H[N].t.r,H[N].res);}
static pwart_wasm_function bounceTo[MAXF];
template<int N>static void hostBounce(void*fp){cBounce++;char*n=(char*)__builtin_frame_address(0);if((size_t)n&15)hostBad="native stack not aligned to 16 in a host function";pwart_call_wasm_function(bounceTo[N],fp);}
#define EIGHT(f) f<0>,f<1>,f<2>,f<3>,f<4>,f<5>,f<6>,f<7>
typedef void(*HFn)(void*);static HFn finF[]={EIGHT(hostFin)},bounceF[]={EIGHT(hostBounce)};
static void resolve(pwart_host_module*,pwart_symbol_resolve_request*q){string f=q->import_field;q->result=nullptr;
  if(q->kind!=PWART_KIND_FUNCTION)return;if(f=="probe")q->result=(void*)hostProbe;else if(f[0]=='h')q->result=(void*)finF[f[1]-'0'];else if(f[0]=='b')q->result=(void*)bounceF[f[1]-'0'];}
static const VT VTS[]={I32,I64,F32,F64,EXTERNREF,FUNCREF};
static VT anyT(Rng&r,int bias){int k=r.below(100);if(bias==1)return I32;if(bias==2)return r.chance(50)?I64:F64;if(bias==3)return r.chance(50)?F32:F64;return VTS[k<27?0:k<54?1:k<70?2:k<86?3:k<94?4:5];}
static vector<u64> model(int f,vector<u64> a,u64*rounds,int*fin,vector<u64>*fa);
#ifdef REC
static u64 fold(u64 h,VT t,u64 v){return h*31+(isref(t)?(v==0):v);}
static void emFold(VT t,u32 idx,Code&c){ // h on the stack
  c.push_back(I(OP_I64C,0,0,31));c.push_back(I(0x7e));c.push_back(I(OP_LGET,idx));
  switch(t){case I32:c.push_back(I(0xad));break;case I64:break;case F32:c.push_back(I(0xbc));c.push_back(I(0xad));break;case F64:c.push_back(I(0xbd));break;default:c.push_back(I(OP_REFISNULL));c.push_back(I(0xad));}
  c.push_back(I(0x7c));}
#endif
static void build(Rng&r,Module*M,int nm){
  int k=r.range(1,5);F.clear();H.clear();int bias=r.below(8);FuncType R;
#ifndef REC
  {int n=r.below(6);for(int i=0;i<n;i++)R.r.push_back(anyT(r,bias));}
#endif
  for(int i=0;i<k;i++){Fn f;f.mod=nm>1?r.below(2):0;f.t.p.push_back(I32);int np=r.chance(12)?r.range(12,22):r.below(9);for(int j=0;j<np;j++)f.t.p.push_back(anyT(r,bias));
#ifdef REC
    {int n=r.below(6);for(int i=0;i<n;i++)f.t.r.push_back(anyT(r,bias));f.t.r.push_back(I64);}
#else
    f.t.r=R.r;
#endif
    f.ty=f.t.p;f.nloc=r.chance(30)?0:r.chance(10)?r.range(20,90):r.below(12);for(u32 j=0;j<f.nloc;j++)f.ty.push_back(anyT(r,bias));
    f.probe=r.chance(75);F.push_back(f);}
#ifndef REC
  {int n=r.below(3);for(int i=0;i<n;i++){Fin h;int np=r.below(7);for(int j=0;j<np;j++)h.t.p.push_back(anyT(r,bias));h.t.r=R.r;for(VT t:R.r)h.res.push_back(rnd(t,r));H.push_back(h);}}
#endif
  for(int i=0;i<k;i++){Fn&f=F[i];u32 np=f.t.p.size();
    for(u32 j=np;j<f.ty.size();j++)if(!r.chance(25)){vector<VT> vis=f.ty;f.sets.push_back({j,ex(f.ty[j],vis,2,r)});} // zero when read early
    for(size_t z=f.sets.size();z>1;z--)if(r.chance(60))std::swap(f.sets[z-1],f.sets[r.below(z)]);
    if(np>1&&r.chance(30)){int n=r.range(1,3);for(int z=0;z<n;z++){u32 p=1+r.below(np-1);f.sets.push_back({p,ex(f.ty[p],f.ty,2,r)});}}
    int na=r.chance(35)?2:1;f.cond=0;if(na==2){cArms++;vector<u32> c;for(u32 j=0;j<f.ty.size();j++)if(f.ty[j]==I32)c.push_back(j);f.cond=c[r.below(c.size())];}
    size_t mp=0;
    for(int a=0;a<na;a++){Edge e;e.to=r.chance(60)?(i+1)%k:r.below(k);Fn&g=F[e.to];
      e.kind=f.mod==0&&g.mod==1?1:r.chance(60)?0:1;
#ifdef REC
      if(r.chance(12))e.kind=2;
#endif
      if(e.kind==1)cInd++;if(f.mod!=g.mod)cCross++;
      E d;d.op=ADD;d.t=I32;E g0;g0.op=GET;g0.t=I32;g0.i=0;E c1;c1.op=CONST;c1.t=I32;c1.k=0xffffffffu;d.s={g0,c1};e.args.push_back(d);
      int mode=r.below(4);
      for(u32 j=1;j<g.t.p.size();j++){VT t=g.t.p[j];
        if(mode==0&&e.to==i){ // a rotation or exchange of the own parameters
          vector<u32> c;for(u32 z=1;z<np;z++)if(f.t.p[z]==t)c.push_back(z);u32 at=0;for(u32 z=0;z<c.size();z++)if(c[z]==j)at=z;E q;q.op=GET;q.t=t;q.i=c[(at+1)%c.size()];e.args.push_back(q);}
        else e.args.push_back(ex(t,f.ty,mode==1?0:r.range(0,3),r));}
      mp=std::max(mp,e.args.size());f.arms.push_back(e);}
    int room=26-(int)mp;int npd=r.chance(50)?0:r.below(std::max(1,std::min(room,8)));for(int z=0;z<npd;z++)f.pend.push_back(ex(anyT(r,bias),f.ty,1,r));
    int nn=r.chance(50)?0:r.range(1,4);for(int z=0;z<nn;z++)f.nest.push_back(r.below(3));
    for(VT t:f.t.r)f.res.push_back(ex(t,f.ty,2,r));
    if(H.size()&&r.chance(40))f.fin=r.below(H.size());
    if(f.fin>=0){f.res.clear();for(VT t:H[f.fin].t.p)f.res.push_back(ex(t,f.ty,2,r));}
#ifdef REC
    f.nest.clear();
#endif
  }
  // modules
  int tpos=r.below(2);bool decoy=tpos==1;
  for(int m=0;m<nm;m++){Module&X=M[m];if(m==1){Import im;im.mod="A";im.kind=1;im.et=FUNCREF;
      if(decoy){TableT t;}
      // an imported table comes first: the decoy can only follow it
      im.field="tab";im.min=MAXF;X.imports.push_back(im);}
    Import im;im.mod="env";im.kind=0;im.field="probe";im.type=X.addType({{I32},{}});X.imports.push_back(im);
    std::map<int,u32> hi,bi,fi;for(u32 z=0;z<H.size();z++){im.field=sfmt("h%u",z);im.type=X.addType(H[z].t);hi[z]=X.nimp(0);X.imports.push_back(im);}
#ifdef REC
    for(int z=0;z<k;z++){im.field=sfmt("b%d",z);im.type=X.addType(F[z].t);bi[z]=X.nimp(0);X.imports.push_back(im);}
#endif
    if(m==1)for(int z=0;z<k;z++)if(F[z].mod==0){im.mod="A";im.field=sfmt("f%d",z);im.type=X.addType(F[z].t);fi[z]=X.nimp(0);X.imports.push_back(im);}
    u32 nx=X.nimp(0);for(int z=0;z<k;z++)if(F[z].mod==m)fi[z]=nx++;
    u32 tab=0;
    if(m==0){TableT t;t.et=FUNCREF;t.min=MAXF;t.hasmax=r.chance(50);t.max=MAXF;if(decoy){TableT d=t;d.min=1;d.max=1;d.hasmax=true;X.tables.push_back(d);tab=1;}X.tables.push_back(t);X.exports.push_back({"tab",1,tab});}
    else if(decoy){TableT d;d.et=FUNCREF;d.min=1;X.tables.push_back(d);}
    for(int z=0;z<k;z++)if(F[z].mod==m){Fn&f=F[z];Func fn;fn.type=X.addType(f.t);fn.locals.assign(f.ty.begin()+f.t.p.size(),f.ty.end());Code&c=fn.body;
      auto call=[&](const Edge&e,bool tail){for(auto&a:e.args)em(a,c);if(e.kind==0)c.push_back(I(tail?OP_RCALL:OP_CALL,fi[e.to]));else if(e.kind==2)c.push_back(I(OP_CALL,bi[e.to]));else{c.push_back(I(OP_I32C,0,0,e.to));c.push_back(I(tail?OP_RCALLI:OP_CALLI,X.addType(F[e.to].t),tab));}};
      if(f.probe){c.push_back(I(OP_I32C,0,0,z));c.push_back(I(OP_CALL,0+(u32)0));}
      for(auto&s:f.sets){em(s.second,c);c.push_back(I(OP_LSET,s.first));}
#ifndef REC
      c.push_back(I(OP_LGET,0));c.push_back(I(0x45));c.push_back(I(OP_IF,VOID));for(auto&e:f.res)em(e,c);if(f.fin>=0)c.push_back(I(OP_RCALL,hi[f.fin]));else c.push_back(I(OP_RETURN));c.push_back(I(OP_END));
      for(int n:f.nest){if(n==0)c.push_back(I(OP_BLOCK,VOID));else if(n==1)c.push_back(I(OP_LOOP,VOID));else{c.push_back(I(OP_LGET,0));c.push_back(I(OP_IF,VOID));}}
      for(auto&e:f.pend)em(e,c);
      if(f.arms.size()>1){c.push_back(I(OP_LGET,f.cond));c.push_back(I(OP_I32C,0,0,1));c.push_back(I(0x71));c.push_back(I(OP_IF,VOID));call(f.arms[1],true);c.push_back(I(OP_END));}
      call(f.arms[0],true);
      for(int n:f.nest){(void)n;c.push_back(I(OP_END));}if(f.nest.size())c.push_back(I(OP_UNREACHABLE));
#else
      u32 rb=f.ty.size();size_t mr=0;for(auto&a:f.arms)for(VT t:F[a.to].t.r){(void)t;}
      // locals for pending operands and for the results of each arm
      u32 at=rb;vector<u32> pl,rl[2];for(auto&e:f.pend){fn.locals.push_back(e.t);pl.push_back(at++);}for(size_t a=0;a<f.arms.size();a++)for(VT t:F[f.arms[a].to].t.r){fn.locals.push_back(t);rl[a].push_back(at++);}
      u32 hl=at++;fn.locals.push_back(I64);
      c.push_back(I(OP_LGET,0));c.push_back(I(0x45));c.push_back(I(OP_IF,VOID));for(size_t j=0;j<f.res.size();j++)em(f.res[j],c);c.push_back(I(OP_RETURN));c.push_back(I(OP_END));
      auto arm=[&](int a){const Edge&e=f.arms[a];
        for(auto&q:f.pend)em(q,c);call(e,false);
        for(size_t j=rl[a].size();j-->0;)c.push_back(I(OP_LSET,rl[a][j]));
        for(size_t j=pl.size();j-->0;)c.push_back(I(OP_LSET,pl[j]));
        c.push_back(I(OP_I64C,0,0,17));for(size_t j=0;j<rl[a].size();j++)emFold(F[e.to].t.r[j],rl[a][j],c);for(size_t j=0;j<pl.size();j++)emFold(f.pend[j].t,pl[j],c);for(u32 j=0;j<f.ty.size();j++)emFold(f.ty[j],j,c);c.push_back(I(OP_LSET,hl));
        for(size_t j=0;j+1<f.res.size();j++){VT t=f.t.r[j];int w=-1;for(size_t z=0;z<rl[a].size();z++)if(F[e.to].t.r[z]==t)w=z;if(w>=0)c.push_back(I(OP_LGET,rl[a][w]));else em(f.res[j],c);}c.push_back(I(OP_LGET,hl));c.push_back(I(OP_RETURN));};
      if(f.arms.size()>1){c.push_back(I(OP_LGET,f.cond));c.push_back(I(OP_I32C,0,0,1));c.push_back(I(0x71));c.push_back(I(OP_IF,VOID));arm(1);c.push_back(I(OP_END));}
      arm(0);
#endif
      X.funcs.push_back(fn);X.exports.push_back({sfmt("f%d",z),0,fi[z]});
      Elem el;el.flags=tab?2:0;el.table=tab;el.off={I(OP_I32C,0,0,(u32)z)};el.funcs={fi[z]};X.elems.push_back(el);}
  }}
static vector<u64> enter(Fn&f,const vector<u64>&a){vector<u64> v=a;v.resize(f.ty.size(),0);for(auto&s:f.sets)v[s.first]=ev(s.second,v);return v;}
#ifndef REC
static vector<u64> model(int f,vector<u64> a,u64*rounds,int*fin,vector<u64>*fa){
  for(;;){Fn&g=F[f];vector<u64> v=enter(g,a);if(!(u32)v[0]){vector<u64> o;for(auto&e:g.res)o.push_back(ev(e,v));if(g.fin>=0){*fin=g.fin;*fa=o;return H[g.fin].res;}return o;}
    Edge&e=g.arms[g.arms.size()>1&&(v[g.cond]&1)?1:0];vector<u64> b;b.reserve(e.args.size());for(auto&x:e.args)b.push_back(ev(x,v));a.swap(b);f=e.to;(*rounds)++;}}
#else
static vector<u64> model(int f,vector<u64> a,u64*rounds,int*,vector<u64>*){
  struct L{int f,arm;vector<u64> v;};vector<L> st;vector<u64> o;
  for(;;){Fn&g=F[f];vector<u64> v=enter(g,a);if(!(u32)v[0]){for(auto&e:g.res)o.push_back(ev(e,v));break;}
    int arm=g.arms.size()>1&&(v[g.cond]&1)?1:0;Edge&e=g.arms[arm];vector<u64> b;for(auto&x:e.args)b.push_back(ev(x,v));st.push_back({f,arm,v});a.swap(b);f=e.to;(*rounds)++;}
  while(st.size()){L&l=st.back();Fn&g=F[l.f];Edge&e=g.arms[l.arm];auto&rt=F[e.to].t.r;u64 h=17;for(size_t j=0;j<o.size();j++)h=fold(h,rt[j],o[j]);for(auto&p:g.pend)h=fold(h,p.t,ev(p,l.v));for(size_t j=0;j<g.ty.size();j++)h=fold(h,g.ty[j],l.v[j]);
    vector<u64> q;for(size_t j=0;j+1<g.res.size();j++){VT t=g.t.r[j];int w=-1;for(size_t z=0;z<rt.size();z++)if(rt[z]==t)w=z;q.push_back(w>=0?o[w]:ev(g.res[j],l.v));}q.push_back(h);o=q;st.pop_back();}
  return o;}
#endif
static u8*RS;static const size_t RSN=
#ifdef REC
  64u<<20;
#else
  1u<<20;
#endif
void hxInit(){hx::caseWall=40;hx::caseCpu=30;
  struct rlimit l;getrlimit(RLIMIT_STACK,&l);if(l.rlim_max==RLIM_INFINITY||l.rlim_max>=(100u<<20)){l.rlim_cur=100u<<20;setrlimit(RLIMIT_STACK,&l);}
  RS=(u8*)mmap(nullptr,RSN+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);mprotect(RS+RSN,8192,PROT_NONE);}
string runOne(u64 seed,u64 idx){
  Rng r(hx::mix(seed,idx));align_=r.chance(50);struct pwart_global_compile_config cf;pwart_get_global_compile_config(&cf);cf.stack_flags=align_?PWART_STACK_FLAGS_AUTO_ALIGN:0;cf.misc_flags=2|(r.chance(70)?1:0);pwart_set_global_compile_config(&cf);
  hxTakeBad();HxAllocStats s0=hxStats();string err;u64 sig=0;
  {Module M[2];int nm=r.chance(40)?2:1;build(r,M,nm);
    // one module with an imported table keeps its imports before its functions
    for(int m=0;m<nm;m++){string e=validate(M[m]);if(!e.empty())return "GENERATOR BUG "+e;}
    pwart_namespace ns=pwart_namespace_new();struct pwart_host_module hm;memset(&hm,0,sizeof hm);hm.resolve=resolve;pwart_namespace_define_host_module(ns,"env",&hm);
    pwart_module_state st[2]={nullptr,nullptr};
    for(int m=0;m<nm&&err.empty();m++){auto b=encode(M[m],0,&r);sig=hx::hashBytes(b.data(),b.size(),sig|1);char*e=nullptr;u8*c=(u8*)malloc(b.size());memcpy(c,b.data(),b.size());st[m]=pwart_namespace_define_wasm_module(ns,m?"B":"A",(char*)c,(int)b.size(),&e);free(c);if(e||!st[m])err=string("a module does not load: ")+(e?e:"");}
    if(err.empty())for(int i=0;i<(int)F.size();i++){bounceTo[i]=pwart_get_export_function(st[F[i].mod],sfmt("f%d",i).c_str());if(!bounceTo[i])err="a function is not exported";}
    for(int m=0;m<nm&&hx::S->note[hx::W][0]==0;m++)hx::note("stack_flags %d",cf.stack_flags);
    for(int m=0;m<nm;m++){string d=dumpModule(M[m]);for(size_t o=0;o<d.size()&&o<24000;){size_t n=d.find('\n',o);if(n==string::npos)n=d.size();hx::note("%s",d.substr(o,n-o).c_str());o=n+1;}}
    int runs=r.range(1,3);size_t frame=0;for(auto&f:F){size_t q=f.ty.size()+f.pend.size();
#ifdef REC
      for(auto&a:f.arms)q+=F[a.to].t.r.size()+F[a.to].t.p.size();
#endif
      frame=std::max(frame,q*8+64*8);}
    for(int q=0;q<runs&&err.empty();q++){
      int k=r.below(1000);u32 n=k<820?r.below(60):k<985?r.range(1000,4000):
#ifdef REC
        r.range(10000,40000);
      {bool b=false;for(auto&f:F)for(auto&a:f.arms)b|=a.kind==2;u32 lim=RSN/(frame*2);
#ifdef HX_ASAN
        if(b&&n>3000)n=3000;
#endif
        if(n>lim)n=lim;}
#else
        r.range(100000,300000);
#endif
      int f=r.below(F.size());vector<u64> a;a.push_back(n);for(size_t j=1;j<F[f].t.p.size();j++)a.push_back(rnd(F[f].t.p[j],r));
      hx::note("call f%d with %u rounds",f,n);for(size_t j=1;j<a.size();j++)hx::note("  argument %zu = %llx",j,(unsigned long long)a[j]);
      u64 rounds=0;int fin=-1;vector<u64> fa,want=model(f,a,&rounds,&fin,&fa);
      size_t touch=std::min<size_t>(RSN,
#ifdef REC
        (size_t)(n+4)*frame
#else
        65536
#endif
        );
      memset(RS,0xB7,touch);u8*fp=RS+256+8*r.below(16);putVals(fp,F[f].t.p,a);size_t alo=256;
      memset(first,0,sizeof first);memset(second,0,sizeof second);probes=0;halfAt=rounds/2+F.size();hostBad.clear();finArgs.clear();finWho=-1;
      pwart_call_wasm_function(bounceTo[f],fp);
      vector<u64> got=getVals(fp,F[f].t.r);cRounds+=rounds;cChains++;if(n>=1000)cLong++;if(n>=10000)cDeepest++;cProbe+=probes;
      if(!hostBad.empty()){err=hostBad;break;}
      for(size_t j=0;j<want.size();j++){cVals++;if(got[j]!=want[j]){err=sfmt("result %zu (%s) of f%d after %llu calls is %llx, expected %llx",j,vname(F[f].t.r[j]),f,(unsigned long long)rounds,(unsigned long long)got[j],(unsigned long long)want[j]);break;}}
      if(!err.empty())break;
      for(size_t j=0;j<alo;j++)if(RS[j]!=0xB7){err="the stack below the arguments was written";break;}
#ifndef REC
      if(fin!=finWho){err=sfmt("host function %d ended the chain, expected %d",finWho,fin);break;}
      if(fin>=0){cHost++;for(size_t j=0;j<fa.size();j++){cVals++;if(finArgs[j]!=fa[j]){err=sfmt("argument %zu of the host function at the end is %llx, expected %llx",j,(unsigned long long)finArgs[j],(unsigned long long)fa[j]);break;}}}
      if(rounds>=40)for(size_t i=0;i<F.size()&&err.empty();i++)if(first[i].any&&second[i].any){
        if(second[i].nlo<first[i].nlo||second[i].nhi>first[i].nhi)err=sfmt("native stack use of f%zu changes along the chain of %llu tail calls: %p..%p, then %p..%p",i,(unsigned long long)rounds,first[i].nlo,first[i].nhi,second[i].nlo,second[i].nhi);
        else if(second[i].rlo<first[i].rlo||second[i].rhi>first[i].rhi)err=sfmt("runtime stack use of f%zu changes along the chain of %llu tail calls: %p..%p, then %p..%p",i,(unsigned long long)rounds,first[i].rlo,first[i].rhi,second[i].rlo,second[i].rhi);}
      if(rounds>=1000&&err.empty()){cHW++;size_t lim=4*(frame+300);if(lim<65536)for(size_t j=lim+(fp-RS);j<65536;j++)if(RS[j]!=0xB7){err=sfmt("a chain of %llu tail calls wrote %zu bytes up the runtime stack; its largest frame is %zu",(unsigned long long)rounds,j-(fp-RS),frame);break;}}
#endif
    }
    pwart_namespace_delete(ns);}
  string b=hxTakeBad();if(err.empty()&&!b.empty())err=b;HxAllocStats s1=hxStats();if(err.empty()&&s1.blocks!=s0.blocks)err=sfmt("%ld blocks are left behind: %s",s1.blocks-s0.blocks,hxLive().c_str());
  if(err.empty())hx::nontrivial(sig);return err;}
#ifdef REC
HX_MAIN("rec")
#else
HX_MAIN("tail")
#endif
