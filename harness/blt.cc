// C19: every builtin function, called from generated functions with arguments held in every form and with pending operands
// and live locals around the call; the documented effect is computed independently and compared.
#include "tiny.h"
#include "../engine/run.h"
#define HX_TYPES
#include "hx.h"
#include "hxalloc.h"
#include <dirent.h>
extern "C" void sljit_free_unused_memory_exec(void);
static hx::Counter cCalls("builtin_calls"),cVals("values_compared"),cBigA("allocations_of_2_gb_and_more"),cPend("pending_operands_checked"),cFiles("files_written_and_read"),cLoads("modules_loaded_by_builtin"),cMem("memory_bytes_compared"),cLeak("leak_checks"),cDir("direct_calls"),cInd("indirect_calls"),cRet("returning_calls");
static string DIR_;
#ifdef __LITTLE_ENDIAN__
enum{NHD=3};
#else
enum{NHD=2};
#endif
static hx::Counter*cB[32];
static const char*BN[]={"version","native_index_size","memory_alloc","ref_i64_casts","ref_from_index","ref_copy_bytes","ref_string_length","host_definition","files","stdio","self_context","import","load_module","native_memory","meta_this"};
enum{B_VER,B_NIS,B_ALLOC,B_CAST,B_RFI,B_COPY,B_LEN,B_HDEF,B_FILE,B_STDIO,B_SELF,B_IMPORT,B_LOAD,B_NATIVE,B_META,B_N};
struct Want{u32 g;VT t;std::function<u64()> v;string what;};
struct GenB{
  Rng r;Module m;Code c;FuncType ft;vector<u64> args;vector<VT> locals;vector<Want> want;
  std::map<string,u32> imp;vector<u8> shadow[4];int nativeMem=-1,firstOwn=0,nOwn=0;bool is64[4];u32 pages[4];bool fixed[4];string desc;
  pwart_module_state self=nullptr;pwart_namespace ns=nullptr;
  vector<std::function<string()>> post;vector<vector<u8>*> hostBufs;vector<string> paths;vector<void*> toFree;vector<std::function<void()>> clean;
  vector<u32> inG;u32 bump[4];
  explicit GenB(u64 s):r(s){}
  ~GenB(){for(auto b:hostBufs)delete b;}
  u32 bi(const char*n,const FuncType&t){auto i=imp.find(n);if(i!=imp.end())return i->second;abort();}
  u32 glob(VT t,u64 init,bool mut){GlobalT g;g.t=t;g.mut=mut;g.init={isref(t)?I(OP_REFNULL,t):I(t==I32?OP_I32C:t==I64?OP_I64C:t==F32?OP_F32C:OP_F64C,0,0,init)};m.globals.push_back(g);return m.globals.size()-1+nimpG;}
  u32 nimpG=0;
  u32 param(VT t,u64 v){ft.p.push_back(t);args.push_back(v);return (u32)args.size()-1;}
  // locals are numbered after all parameters are known: the code uses placeholders >= LB, patched at the end
  static const u32 LB=100000;
  u32 local(VT t){locals.push_back(t);return LB+locals.size()-1;}
  static u16 cop(VT t){return t==I32?OP_I32C:t==I64?OP_I64C:t==F32?OP_F32C:OP_F64C;}
  u64 rnd(VT t){u64 v=r.chance(30)?r.below(100):r.next();if(t==I32||t==F32)v=(u32)v;if(t==F32&&isnan32(v))v=0x40490fdb;if(t==F64&&isnan64(v))v=0x400921fb54442d18ull;return v;}
  // pushes a value in one of the forms the compiler treats differently
  void push(VT t,u64 v){
    if(t==I32)v=(u32)v;
    int f=r.below(t==I32||t==I64?7:4);
    if(t==EXTERNREF&&f==0)f=1;
    if(ft.p.size()>40&&f==1)f=t==EXTERNREF?3:0;
    switch(f){
      case 0:c.push_back(I(cop(t),0,0,v));return;
      case 1:c.push_back(I(OP_LGET,param(t,v)));return;
      case 2:if(t==EXTERNREF){c.push_back(I(OP_LGET,param(t,v)));return;}c.push_back(I(OP_GGET,glob(t,v,true)));return;
      case 3:{u32 l=local(t);if(t==EXTERNREF)c.push_back(I(OP_LGET,param(t,v)));else c.push_back(I(cop(t),0,0,v));c.push_back(I(r.chance(50)?OP_LTEE:OP_LSET,l));if(c.back().op==OP_LSET)c.push_back(I(OP_LGET,l));return;}
      case 4:{u64 k=rnd(t);push(t,v-k);c.push_back(I(OP_LGET,param(t,k)));c.push_back(I(t==I32?0x6a:0x7c));return;}
      case 5:{u64 k=rnd(t);c.push_back(I(cop(t),0,0,v^k));push(t,k);c.push_back(I(t==I32?0x73:0x85));return;}
      default:if(t==I32&&v<2){u32 a=r.below(1000);c.push_back(I(OP_LGET,param(I32,a)));c.push_back(I(OP_I32C,0,0,v?a:a+1));c.push_back(I(0x46));return;}
        if(t==I64&&v<=0xffffffffull){push(I32,v);c.push_back(I(0xad));return;}
        c.push_back(I(cop(t),0,0,v));return;}}
  void pop(VT t,std::function<u64()> v,const string&what){u32 g=glob(t,rnd(isref(t)?I32:t),true);c.push_back(I(OP_GSET,g));want.push_back({g,t,v,what});}
  void popv(VT t,u64 v,const string&what){pop(t,[v]{return v;},what);}
  // wrapper functions that return the call of a builtin, and a table of the builtins
  vector<Func> wraps;std::map<string,FuncType> bt;vector<u32> telem;
  static bool stubOnly(const string&n){return n=="ref_from_index"||n=="get_self_runtime_context";}
  u32 slot(const char*n){u32 f=imp.at(n);for(u32 i=0;i<telem.size();i++)if(telem[i]==f)return i;telem.push_back(f);return telem.size()-1;}
  void junk(Code&w){for(int i=r.below(4);i>0;i--)w.push_back(r.chance(50)?I(OP_I64C,0,0,r.next()):I(OP_F32C,0,0,0x3f800000));}
  u32 wrap(const FuncType&t,Code w){Func f;f.type=m.addType(t);f.body=w;wraps.push_back(f);return m.nimp(0)+wraps.size();} // function "t" comes first
  void call(const char*n){int x=r.below(100);auto&t=bt.at(n);
    if(x<65||(stubOnly(n)&&x>=85)){c.push_back(I(OP_CALL,imp.at(n)));cDir++;return;}
    if(x>=90){c.push_back(I(OP_I32C,0,0,slot(n)));c.push_back(I(OP_CALLI,m.addType(t),0));cInd++;return;}
    Code w;junk(w);for(u32 i=0;i<t.p.size();i++)w.push_back(I(OP_LGET,i));
    if(x>=85){w.push_back(I(OP_I32C,0,0,slot(n)));w.push_back(I(OP_RCALLI,m.addType(t),0));}
    else w.push_back(I(OP_RCALL,imp.at(n)));
    cRet++;c.push_back(I(OP_CALL,wrap(t,w)));}
  struct P{VT t;u64 v;};
  vector<P> pend;
  void pushPend(int n){for(int i=0;i<n;i++){static const VT T[]={I32,I64,F32,F64,EXTERNREF};VT t=T[r.below(5)];u64 v=t==EXTERNREF?r.next():rnd(t);push(t,v);pend.push_back({t,v});}}
  void popPend(){while(pend.size()){auto p=pend.back();pend.pop_back();cPend++;popv(p.t,p.v,"a pending operand");}}
  int ownMem(){return firstOwn+r.below(nOwn);}
  void pushIdx(int k,u64 a){push(is64[k]?I64:I32,a);}
  // [memidx const][index] -> ref
  void refIdx(int k,u64 a){if(r.chance(20)){VT t=is64[k]?I64:I32;Code w;junk(w);w.push_back(I(OP_I32C,0,0,k));w.push_back(I(OP_LGET,0));w.push_back(I(OP_RCALL,imp.at("ref_from_index")));pushIdx(k,a);c.push_back(I(OP_CALL,wrap({{t},{EXTERNREF}},w)));cRet++;return;}
    c.push_back(I(OP_I32C,0,0,k));pushIdx(k,a);c.push_back(I(OP_CALL,imp.at("ref_from_index")));}
  // the last 16 KiB of a memory hold the names placed by data segments and are not written by the program
  u32 lim(int k){return pages[k]*65536-16384;}
  u8*base(int k){return k==nativeMem?nullptr:(u8*)pwart_get_export_memory(self,sfmt("m%d",k).c_str())->bytes;}
  void pushPtr(const void*p,u32 len){ // a pointer to a host buffer
    (void)len;u64 v=(u64)p;int f=r.below(nativeMem>=0?3:2);
    if(f==0)push(EXTERNREF,v);else if(f==1){push(I64,v);call("ref_from_i64");}else refIdx(nativeMem,v);}
  u32 place(int k,const string&s){ // a zero-terminated string in memory k
    u32 n=s.size()+1;u32 a=bump[k];bump[k]+=n+r.below(20);memcpy(&shadow[k][a],s.c_str(),n);Data d;d.flags=k?2:0;d.mem=k;d.off={I(is64[k]?OP_I64C:OP_I32C,0,0,a)};d.bytes.assign(s.c_str(),s.c_str()+n);m.datas.push_back(d);return a;}
  const char*hostStr(const string&s){auto*b=new vector<u8>(s.c_str(),s.c_str()+s.size()+1);hostBufs.push_back(b);return(char*)b->data();}
  void pushStr(const string&s){int k=ownMem();if(bump[k]+s.size()+30<=pages[k]*65536&&r.chance(60)){refIdx(k,place(k,s));}else pushPtr(hostStr(s),0);}
};
static string textName(Rng&r){static const char*N[]={"one","two","a longer module name","env","x"};return N[r.below(5)];}
static string history(Rng&r,u64 seed){
  GenB g(seed);Module&m=g.m;string err;
  struct pwart_global_compile_config cfg;cfg.stack_flags=g.r.below(2);cfg.misc_flags=g.r.chance(80)?3:1;pwart_set_global_compile_config(&cfg);
  FuncType tv_i{{},{I32}},tmem{{I32},{I64}},tfree{{I64},{}},tr_i64{{I64},{EXTERNREF}},ti64_r{{EXTERNREF},{I64}},tcopy{{EXTERNREF,EXTERNREF,I32},{}},tlen{{EXTERNREF},{I32}},thd{{I32},{EXTERNREF}},tself{{},{EXTERNREF}},tload{{EXTERNREF,EXTERNREF,EXTERNREF,I32},{EXTERNREF}},tunl{{EXTERNREF,EXTERNREF},{EXTERNREF}},timp{{EXTERNREF,EXTERNREF,EXTERNREF,I32},{EXTERNREF}},topen{{EXTERNREF,EXTERNREF},{EXTERNREF,I32}},trw{{EXTERNREF,I32,I32,EXTERNREF},{I32}},tclose{{EXTERNREF},{I32}},tstd{{},{EXTERNREF,EXTERNREF,EXTERNREF}};
  int K=g.r.range(1,3);g.nOwn=K;bool wantNative=g.r.chance(60);
  // native memory may be any index of the import list, only one memory import here
  if(wantNative){Import i;i.mod="pwart_builtin";i.field="native_memory";i.kind=2;i.is64=true;i.min=0;m.imports.push_back(i);g.nativeMem=0;}
  g.firstOwn=wantNative?1:0;if(wantNative)g.is64[0]=true;
  for(int k=0;k<K;k++){int x=g.firstOwn+k;MemT t;t.min=g.r.range(1,2);t.hasmax=g.r.chance(50);t.max=3;t.is64=g.r.chance(30);m.mems.push_back(t);g.is64[x]=t.is64;g.pages[x]=t.min;g.fixed[x]=t.hasmax;g.shadow[x].assign(t.min*65536,0);g.bump[x]=t.min*65536-16384+g.r.below(100);m.exports.push_back({sfmt("m%d",x),2,(u32)x});
    Data d;u32 n=g.r.range(1,3000),o=g.r.below(46000);for(u32 i=0;i<n;i++)d.bytes.push_back((u8)g.r.next());d.flags=x?2:0;d.mem=x;d.off={I(t.is64?OP_I64C:OP_I32C,0,0,o)};memcpy(&g.shadow[x][o],d.bytes.data(),n);m.datas.push_back(d);}
  struct Bi{const char*n;FuncType t;};
  vector<Bi> bis={{"version",tv_i},{"native_index_size",tv_i},{"memory_alloc",tmem},{"memory_free",tfree},{"ref_from_i64",tr_i64},{"i64_from_ref",ti64_r},{"ref_copy_bytes",tcopy},{"ref_string_length",tlen},{"host_definition",thd},{"get_self_runtime_context",tself},{"load_module",tload},{"unload_module",tunl},{"import",timp},{"fopen",topen},{"fread",trw},{"fwrite",trw},{"fclose",tclose},{"stdio",tstd}};
  bis.push_back({"ref_from_index",{{I32,I64},{EXTERNREF}}});for(auto&b:bis)g.bt[b.n]=b.t;
  for(size_t i=bis.size();i>1;i--)std::swap(bis[i-1],bis[g.r.below(i)]);
  for(auto&b:bis){Import i;i.mod="pwart_builtin";i.field=b.n;i.kind=0;i.type=m.addType(b.t);m.imports.insert(m.imports.begin()+g.r.below(m.imports.size()+1),i);}
  bool meta=g.r.chance(40);if(meta){Import i;i.mod="pwart_namespace_meta";i.field="this";i.kind=3;i.gt=EXTERNREF;m.imports.push_back(i);g.nimpG=1;}
  {u32 k=0;for(auto&i:m.imports)if(i.kind==0)g.imp[i.field]=k++;}
  // ref_from_index takes an i32 or an i64 index; the declared type is only documentation for a stub
  g.ns=pwart_namespace_new();
  // a helper module in the namespace
  By_:;u32 hk=g.r.range(1,50000);pwart_module_state helper=nullptr;{Module t=tinyModule(hk,0,"",true,true,true);vector<u8> b=encode(t,0,nullptr);char*e=nullptr;helper=(pwart_module_state)pwart_namespace_define_wasm_module(g.ns,"helper",(char*)b.data(),b.size(),&e);if(!helper)return "a good module failed to load";}
  int nops=g.r.range(1,7);int filen=0;static vector<string> created;std::map<string,u32> loaded;/*name -> k*/
  vector<std::function<string()>> checks;
  for(int q=0;q<nops;q++){
    int np=g.r.below(7);g.pushPend(np);int op=g.r.below(B_N);if(op==B_META&&!meta)op=B_RFI;if(op==B_NATIVE&&g.nativeMem<0)op=B_ALLOC;
    g.desc+=string(BN[op])+sfmt("(pending %d) ",np);(*cB[op])++;cCalls++;
    switch(op){
    case B_VER:g.call("version");g.popv(I32,(u32)pwart_get_version(),"version");break;
    case B_NIS:g.call("native_index_size");g.popv(I32,sizeof(void*),"native_index_size");break;
    case B_CAST:{u64 v=g.r.chance(30)?g.r.below(5):g.r.next();g.push(I64,v);g.call("ref_from_i64");if(g.r.chance(50)){u32 l=g.local(EXTERNREF);g.c.push_back(I(OP_LTEE,l));g.popv(EXTERNREF,v,"ref_from_i64");g.pushPend(g.r.below(3));g.c.push_back(I(OP_LGET,l));}
      if(g.r.chance(30)){g.c.push_back(I(OP_REFISNULL));g.popv(I32,v==0,"ref.is_null of a cast");}else{g.call("i64_from_ref");if(g.r.chance(40)){g.push(I64,5);g.c.push_back(I(0x7c));g.popv(I64,v+5,"i64_from_ref");}else g.popv(I64,v,"i64_from_ref");}break;}
    case B_RFI:{int k=g.r.chance(25)&&g.nativeMem>=0?g.nativeMem:g.ownMem();u64 a=k==g.nativeMem?g.r.next():g.r.below(g.pages[k]*65536);g.refIdx(k,a);g.pop(EXTERNREF,[&g,k,a]{return (u64)(g.base(k)+a);},sfmt("ref_from_index of memory %d",k));break;}
    case B_COPY:{ // any of own memory / host buffer
      int dk=g.r.chance(75)?g.ownMem():-2,sk=g.r.chance(75)?g.ownMem():-2;u32 n=g.r.chance(20)?0:g.r.chance(30)?g.r.range(1,40000):g.r.range(1,300);u64 da,sa;vector<u8>*db=nullptr,*sb=nullptr;
      if(dk>=0)da=g.r.below(g.lim(dk)-n+1);else{db=new vector<u8>(n+16,(u8)0x11);g.hostBufs.push_back(db);da=0;}
      if(sk>=0)sa=g.r.below(g.lim(sk)-n+1);else{sb=new vector<u8>(n+16);for(auto&x:*sb)x=g.r.next();g.hostBufs.push_back(sb);sa=0;}
      if(dk>=0&&dk==sk&&g.r.chance(60)){s64 d=(s64)da+g.r.range(-50,50);if(d>=0&&(u64)d+n<=g.lim(dk))sa=d;}
      if(dk>=0)g.refIdx(dk,da);else g.pushPtr(db->data(),n);
      if(sk>=0)g.refIdx(sk,sa);else g.pushPtr(sb->data(),n);
      g.push(I32,n);g.call("ref_copy_bytes");
      vector<u8> tmp(n);if(n){memcpy(tmp.data(),sk>=0?&g.shadow[sk][sa]:sb->data(),n);if(dk>=0)memcpy(&g.shadow[dk][da],tmp.data(),n);}
      if(db){u32 nn=n;checks.push_back([db,tmp,nn]()->string{if(nn&&memcmp(db->data(),tmp.data(),nn))return "ref_copy_bytes wrote other bytes to a native buffer";for(u32 i=nn;i<nn+16;i++)if((*db)[i]!=0x11)return "ref_copy_bytes wrote past the end";return "";});}
      break;}
    case B_LEN:{string s;int n=g.r.chance(20)?0:g.r.chance(4)?g.r.range(32760,140000):g.r.range(1,2000);for(int i=0;i<n;i++)s+=(char)g.r.range(1,255);
      // the bytes live in the memory as it is when the call runs: the text may have been overwritten by an earlier copy
      if(n>20000||g.r.chance(50)){const char*h=g.hostStr(s);g.pushPtr(h,n);g.call("ref_string_length");g.popv(I32,n,"ref_string_length");}
      else{ // write it into memory now, by copying from a host buffer
        const char*h=g.hostStr(s);int k=g.ownMem();u64 a=g.r.below(g.lim(k)-n-1);g.refIdx(k,a);g.pushPtr(h,n+1);g.push(I32,n+1);g.call("ref_copy_bytes");memcpy(&g.shadow[k][a],h,n+1);g.refIdx(k,a);g.call("ref_string_length");g.popv(I32,n,"ref_string_length");}
      break;}
    case B_HDEF:{u32 i=g.r.below(NHD+1);g.push(I32,i);g.call("host_definition");string key=sfmt("hd%u",i);u32 gi=g.glob(EXTERNREF,0,true);g.c.push_back(I(OP_GSET,gi));
      checks.push_back([&g,gi,i]()->string{cVals++;const char*s=*(char**)pwart_get_export_global(g.self,sfmt("g%u",gi).c_str());
        // on Linux x86-64 with glibc: __linux__, __x86_64__, __LITTLE_ENDIAN__ in some order, then NULL
        static const std::set<string> ok={"__linux__","__x86_64__","__LITTLE_ENDIAN__"};static string seen[4];
        int n=NHD;
        if((int)i>=n){if((int)i==n&&s)return sfmt("host_definition(%u) is '%s', expected the end of the array",i,s);return "";}
        if(!s)return sfmt("host_definition(%u) is null",i);if(!ok.count(s))return sfmt("host_definition(%u) is '%s'",i,s);
        seen[i]=s;for(int k=0;k<3;k++)if(k!=(int)i&&seen[k]==s)return "host_definition gives one string at two indices";return "";});
      break;}
    case B_STDIO:{g.call("stdio");g.popv(EXTERNREF,(u64)stderr,"stdio stderr");g.popv(EXTERNREF,(u64)stdout,"stdio stdout");g.popv(EXTERNREF,(u64)stdin,"stdio stdin");break;}
    case B_SELF:{g.call("get_self_runtime_context");if(g.r.chance(50))g.pop(EXTERNREF,[&g]{return (u64)g.self;},"get_self_runtime_context");else{g.call("i64_from_ref");g.pop(I64,[&g]{return (u64)g.self;},"get_self_runtime_context");}break;}
    case B_META:{g.c.push_back(I(OP_GGET,0));g.pop(EXTERNREF,[&g]{return (u64)g.ns;},"pwart_namespace_meta.this");break;}
    case B_IMPORT:{static const char*F[]={"f","inc","peek","poke","ci","nothing","","fn"};string f=F[g.r.below(8)];bool noMod=g.r.chance(15);g.call("get_self_runtime_context");g.pushStr(noMod?"no module":"helper");g.pushStr(f);g.push(I32,0);g.call("import");
      g.pop(EXTERNREF,[helper,f,noMod]{return noMod?0:(u64)pwart_get_export_function(helper,f.c_str());},"import of helper."+f);break;}
    case B_LOAD:{string name=textName(g.r);bool unload=loaded.count(name)&&g.r.chance(60);
      if(unload){g.call("get_self_runtime_context");g.pushStr(name);g.call("unload_module");g.popv(EXTERNREF,0,"unload_module");loaded.erase(name);
        if(g.r.chance(50)){g.call("get_self_runtime_context");g.pushStr(name);g.pushStr("f");g.push(I32,0);g.call("import");g.popv(EXTERNREF,0,"import from an unloaded module");}}
      else{u32 k=g.r.range(1,50000);bool start=g.r.chance(40);bool bad=g.r.chance(25);Module t=tinyModule(k,0,g.r.chance(40)?"helper":"",true,true,true,start?"s":"");vector<u8> b=encode(t,0,nullptr);if(bad)b.resize(g.r.range(0,(int)b.size()-3));
        auto*hb=new vector<u8>(b);hb->push_back(0);g.hostBufs.push_back(hb);
        g.call("get_self_runtime_context");g.pushStr(name);
        if(g.r.chance(50))g.pushPtr(hb->data(),b.size());else{int kk=g.ownMem();u64 a=g.r.below(g.lim(kk)-b.size());
          // copied there first; the operands below stay pending meanwhile
          u32 l=g.local(EXTERNREF);g.refIdx(kk,a);g.c.push_back(I(OP_LTEE,l));g.pushPtr(hb->data(),b.size());g.push(I32,b.size());g.call("ref_copy_bytes");if(b.size())memcpy(&g.shadow[kk][a],b.data(),b.size());g.c.push_back(I(OP_LGET,l));}
        g.push(I32,b.size());g.call("load_module");cLoads++;
        if(bad){u32 gi=g.glob(EXTERNREF,0,true);g.c.push_back(I(OP_GSET,gi));bool wasLoaded=loaded.count(name);(void)wasLoaded;auto bytes=b;
          // a cut at a section boundary may still be a module
          bool at=false;{size_t p=8;if(bytes.size()>=8)for(;;){if(p==bytes.size()){at=true;break;}if(p>bytes.size())break;size_t q2=p+1;u32 n=0,sh=0;bool ok=true;for(;;){if(q2>=bytes.size()){ok=false;break;}u8 ch=bytes[q2++];n|=(u32)(ch&0x7f)<<sh;sh+=7;if(!(ch&0x80))break;}if(!ok)break;p=q2+n;}}
          if(at){g.desc+="(boundary) ";loaded.erase(name);loaded[name]=0;}
          else checks.push_back([&g,gi]()->string{cVals++;const char*e=*(char**)pwart_get_export_global(g.self,sfmt("g%u",gi).c_str());if(!e)return "load_module of a damaged module reports no error";if(strnlen(e,300)>=300||!*e)return "load_module error is not a text";return "";});}
        else{g.popv(EXTERNREF,0,"load_module error");loaded[name]=k|(start?0x80000000u:0);}}
      break;}
    case B_ALLOC:{u32 n=g.r.chance(15)?0:g.r.chance(70)?g.r.range(1,300):g.r.range(300,200000);
#ifndef HX_ASAN
      if(g.r.chance(3)){n=g.r.chance(30)?0x80000000u:g.r.chance(30)?0xfffffff0u:0x7fffff00u+(u32)g.r.below(0x7fffffff);cBigA++;}
#endif
      g.push(I32,n);g.call("memory_alloc");u32 l=g.local(I64);g.c.push_back(I(OP_LSET,l));
      bool nat=g.nativeMem>=0;vector<std::pair<u32,u64>> ws;
      if(nat&&n>=8)for(int i=g.r.below(4);i>0;i--){u32 o=g.r.chance(30)?n-8:g.r.below(n-7);bool clash=false;for(auto&w:ws)if(o<w.first+8&&w.first<o+8)clash=true;if(clash)continue;u64 v=g.r.next();ws.push_back({o,v});g.c.push_back(I(OP_LGET,l));if(g.r.chance(50)){g.push(I64,v);g.c.push_back(I(0x37,0,g.nativeMem,o));}else{g.push(I64,o);g.c.push_back(I(0x7c));g.push(I64,v);g.c.push_back(I(0x37,0,g.nativeMem,0));}}
      if(nat&&ws.size()){if(g.r.chance(50))g.pushPend(g.r.below(3));for(auto&w:ws){g.c.push_back(I(OP_LGET,l));g.c.push_back(I(0x29,0,g.nativeMem,w.first));g.popv(I64,w.second,"a value in allocated memory");}}
      if(g.r.chance(50)){g.c.push_back(I(OP_LGET,l));g.call("memory_free");}
      else{u32 gi=g.glob(I64,0,true);g.c.push_back(I(OP_LGET,l));g.c.push_back(I(OP_GSET,gi));checks.push_back([&g,gi,n,ws]()->string{cVals++;void*p=*(void**)pwart_get_export_global(g.self,sfmt("g%u",gi).c_str());if(!p)return n?"memory_alloc gives null":"";
#ifndef HX_ASAN
          if(hxBlockSize(p)<n)return sfmt("memory_alloc(%u) gives a block of %zu bytes",n,hxBlockSize(p));
#endif
          for(auto&w:ws){u64 v;memcpy(&v,(u8*)p+w.first,8);if(v!=w.second)return "allocated memory does not hold the value stored";}if(n<1000000)memset(p,0x5c,n);else ((u8*)p)[n-1]=1;free(p);return "";});}
      break;}
    case B_NATIVE:{ // loads and stores at absolute addresses
      auto*b=new vector<u8>(64);for(auto&x:*b)x=g.r.next();g.hostBufs.push_back(b);u32 o=g.r.below(56);u64 addr=(u64)b->data();u64 sub=g.r.chance(50)?o:0;u64 v=g.r.next();
      auto*copy=new vector<u8>(*b);g.hostBufs.push_back(copy);
      if(g.r.chance(50)){u64 x;memcpy(&x,&(*copy)[o],8);g.push(I64,addr+o-sub);int w=g.r.below(4);static const u16 L[]={0x29,0x35,0x31,0x30};u64 e=w==0?x:w==1?(u32)x:w==2?(u8)x:(u64)(s64)(int8_t)x;if(w==2){g.c.push_back(I(0x31,0,g.nativeMem,sub));}else if(w==3)g.c.push_back(I(0x30,0,g.nativeMem,sub));else g.c.push_back(I(L[w],0,g.nativeMem,sub));g.popv(I64,e,"a load from native memory");}
      else{g.push(I64,addr+o-sub);g.push(I64,v);static const u16 S[]={0x37,0x3e,0x3d,0x3c};int w=g.r.below(4);g.c.push_back(I(S[w],0,g.nativeMem,sub));memcpy(&(*copy)[o],&v,w==0?8:w==1?4:w==2?2:1);
        checks.push_back([b,copy]()->string{return *b==*copy?"":"a store to native memory wrote other bytes";});}
      break;}
    case B_FILE:{string path=DIR_+sfmt("/f%d_%d",hx::W,filen++);vector<u8> data;u32 sz=g.r.pick(vector<int>{1,1,2,4,7}),cnt=g.r.below(400);if(g.r.chance(10))cnt=0;for(u32 i=0;i<sz*cnt;i++)data.push_back(g.r.next());
      int mode=g.r.below(10);
      if(mode==0){g.pushStr(path+"/none");g.pushStr(g.r.chance(50)?"r":"w");g.call("fopen");g.pop(I32,[]{return (u64)(u32)ENOENT;},"error of fopen of a path that does not exist");g.popv(EXTERNREF,0,"fopen of a path that does not exist");break;}
      auto failing=[&]{if(!g.r.chance(30))return;g.pushStr(DIR_+"/none/x");g.pushStr("r");g.call("fopen");g.pop(I32,[]{return (u64)(u32)ENOENT;},"error of fopen of a path that does not exist");g.popv(EXTERNREF,0,"fopen of a path that does not exist");};
      if(mode==1&&g.r.chance(60)){ // what is buffered cannot be written
        static u8 some[64];u32 fl=g.local(EXTERNREF),n=g.r.range(1,64);g.pushStr("/dev/full");g.pushStr("wb");g.call("fopen");g.popv(I32,0,"error of fopen");g.c.push_back(I(OP_LSET,fl));
        g.pushPtr(some,64);g.push(I32,1);g.push(I32,n);g.c.push_back(I(OP_LGET,fl));g.call("fwrite");g.popv(I32,n,"fwrite count");failing();
        g.c.push_back(I(OP_LGET,fl));g.call("fclose");g.pop(I32,[]{return (u64)(u32)ENOSPC;},"error of fclose of a full device");break;}
      created.push_back(path);cFiles++;
      u32 fl=g.local(EXTERNREF);auto*hb=new vector<u8>(data);hb->push_back(0);g.hostBufs.push_back(hb);
      g.pushStr(path);g.pushStr("wb");g.call("fopen");g.popv(I32,0,"error of fopen");g.c.push_back(I(OP_LSET,fl));
      g.pushPtr(hb->data(),data.size());g.push(I32,sz);g.push(I32,cnt);g.c.push_back(I(OP_LGET,fl));g.call("fwrite");g.popv(I32,cnt,"fwrite count");
      failing();g.c.push_back(I(OP_LGET,fl));g.call("fclose");g.popv(I32,0,"fclose error");
      if(g.r.chance(80)){ // read it back, possibly asking for more than there is
        int k=g.ownMem();u32 rs=g.r.chance(50)?sz:g.r.range(1,9),rc=g.r.below(600);u64 tot=(u64)rs*rc;u64 a=g.r.below(g.lim(k)-tot);
        g.pushStr(path);g.pushStr("rb");g.call("fopen");g.popv(I32,0,"error of fopen");g.c.push_back(I(OP_LSET,fl));
        g.refIdx(k,a);g.push(I32,rs);g.push(I32,rc);g.c.push_back(I(OP_LGET,fl));g.call("fread");u64 got=std::min<u64>(rc,data.size()/rs);u64 bytes=std::min<u64>(tot,data.size());if(rc==0)bytes=0;g.popv(I32,got,"fread count");if(bytes)memcpy(&g.shadow[k][a],data.data(),bytes);
        failing();g.c.push_back(I(OP_LGET,fl));g.call("fclose");g.popv(I32,0,"fclose error");}
      checks.push_back([path,data]()->string{FILE*f=fopen(path.c_str(),"rb");if(!f)return "the file written does not exist";vector<u8> b(data.size()+10);size_t n=fread(b.data(),1,b.size(),f);fclose(f);unlink(path.c_str());b.resize(n);return b==data?"":"the file written holds other bytes";});
      break;}
    }
    if(g.r.chance(70)||g.pend.size()>10)g.popPend();
  }
  g.popPend();
  for(auto&i:g.c)if((i.op==OP_LGET||i.op==OP_LSET||i.op==OP_LTEE)&&i.a>=GenB::LB)i.a=i.a-GenB::LB+g.args.size();
  Func f;f.type=m.addType(g.ft);f.locals=g.locals;f.body=g.c;m.funcs.push_back(f);m.exports.push_back({"t",0,(u32)m.nimp(0)});for(auto&w:g.wraps)m.funcs.push_back(w);
  if(g.telem.size()){TableT t;t.min=g.telem.size()+g.r.below(3);m.tables.push_back(t);Elem e;e.off={I(OP_I32C,0,0,0)};e.funcs=g.telem;m.elems.push_back(e);}
  for(u32 i=0;i<m.globals.size();i++)m.exports.push_back({sfmt("g%u",i+g.nimpG),3,i+g.nimpG});
  hx::note("memories %d (native import %d), config %d/%d: %s",K,g.nativeMem,cfg.stack_flags,cfg.misc_flags,g.desc.c_str());
  if(getenv("DUMP")){string d=dumpModule(m);fprintf(stdout,"%s\n",d.c_str());fflush(stdout);}
  vector<u8> b=encode(m,0,nullptr);char*e=nullptr;char*buf=(char*)malloc(b.size());memcpy(buf,b.data(),b.size());
  g.self=(pwart_module_state)pwart_namespace_define_wasm_module(g.ns,"under test",buf,b.size(),&e);free(buf);
  if(!g.self)err=string("the module failed to load: ")+(e?e:"?");
  if(err.empty()){
    void*stk=pwart_allocate_stack(1<<16);memset(stk,0xC3,1<<16);void*sp=(u8*)stk+64;void*p=sp;
    for(size_t i=0;i<g.args.size();i++)switch(g.ft.p[i]){case I32:pwart_rstack_put_i32(&p,g.args[i]);break;case I64:pwart_rstack_put_i64(&p,g.args[i]);break;case F32:{float x;u32 w=g.args[i];memcpy(&x,&w,4);pwart_rstack_put_f32(&p,x);break;}case F64:{double x;memcpy(&x,&g.args[i],8);pwart_rstack_put_f64(&p,x);break;}default:pwart_rstack_put_ref(&p,(void*)g.args[i]);}
    errno=g.r.chance(50)?0:77;
    pwart_call_wasm_function(pwart_get_export_function(g.self,"t"),sp);
    pwart_free_stack(stk);
    for(auto&w:g.want){cVals++;void*gp=pwart_get_export_global(g.self,sfmt("g%u",w.g).c_str());u64 v=0;memcpy(&v,gp,vsize(w.t));u64 x=w.v();if(vsize(w.t)==4)x=(u32)x;if(v!=x){err=sfmt("%s is %llx, expected %llx (global %u)",w.what.c_str(),(unsigned long long)v,(unsigned long long)x,w.g);break;}}
    for(auto&ch:checks){string s=ch();if(err.empty()&&s.size())err=s;}
    if(err.empty())for(int k=g.firstOwn;k<g.firstOwn+g.nOwn;k++){u8*p2=g.base(k);cMem+=g.shadow[k].size();if(memcmp(p2,g.shadow[k].data(),g.shadow[k].size())){size_t i=0;while(p2[i]==g.shadow[k][i])i++;err=sfmt("memory %d differs at %zu: %02x expected %02x",k,i,p2[i],g.shadow[k][i]);break;}}
    // modules loaded by the builtin are there and work
    if(err.empty())for(auto&l:loaded){auto*nm=pwart_namespace_find_module(g.ns,l.first.c_str());if(!l.second)continue;if(!nm||nm->type!=PWART_MODULE_TYPE_WASM_MODULE){err="module loaded by load_module is not in the namespace";break;}
      u32 k=l.second&0x7fffffff;u32 x=(u32)g.r.next();if(call1(pwart_get_export_function(nm->val.wasm,"f"),x)!=x*k+7){err="module loaded by load_module computes a wrong value";break;}
      u32*gv=(u32*)pwart_get_export_global(nm->val.wasm,"g");if(*gv!=((l.second>>31)?k*3:k)){err=(l.second>>31)?"load_module did not run the start function":"load_module ran something";break;}}
  }
  pwart_namespace_delete(g.ns);
  {string hb=hxTakeBad();if(err.empty()&&hb.size())err=hb;}
  return err;}
void hxInit(){DIR_=hx::scratch;
  Rng r(5);RunStats st;memset(&st,0,sizeof st);Case c;Prof p=profileFor("generic",r);genCase(r,p,c);c.seed=1;runCase(c,st);FILE*f=fopen("/dev/null","w");if(f)fclose(f);fflush(stdout);sljit_free_unused_memory_exec();hxTakeBad();}
string runOne(u64 seed,u64 idx){
  Rng r(seed*1000003+idx*7919);HxAllocStats a=hxStats();
  string err=history(r,r.next());if(!err.empty())return err;
  sljit_free_unused_memory_exec();HxAllocStats b=hxStats();cLeak++;
  if(b.blocks!=a.blocks)return sfmt("left %ld block(s), %ld bytes: ",b.blocks-a.blocks,b.bytes-a.bytes)+hxLive();
  hx::nontrivial(hx::hashBytes(hx::S->note[hx::W],hx::S->noteLen[hx::W]));return "";}
static struct Reg{Reg(){for(int i=0;i<B_N;i++)cB[i]=new hx::Counter(strdup((string("calls_")+BN[i]).c_str()));}}reg;
HX_MAIN("blt")
