// C15: modules that cannot be loaded. Generated modules are damaged in a known way and loaded through every path, in
// histories with good modules in between; the monitor checks the reported error, bystander modules, later loads and
// (by accounting and AddressSanitizer) that nothing is leaked or touched out of bounds.
#include "tiny.h"
#include "../engine/run.h"
#define HX_TYPES
#include "hx.h"
#include "hxalloc.h"
extern "C" void sljit_free_unused_memory_exec(void);
static hx::Counter cAtt("load_attempts"),cErr("expected_errors_seen"),cGood("good_loads"),cTol("boundary_cuts_accepted"),cBy("bystander_checks"),cTrunc("truncations"),cLeak("leak_checks"),cLim("at_limit_modules_loaded");
static hx::Counter cSweep("modules_cut_at_every_position");
static hx::Counter *cKind[40];
static void hostStub(void*fp){(void)fp;}
// ---- objects handed to whatever a module imports
struct Pool{
  std::map<string,void*> funcs;std::map<string,pwart_wasm_memory*> mems;std::map<string,pwart_wasm_table*> tabs;std::map<string,u64*> globs;
  string refuse;int refuseKind=-1;bool small=false;
  static string key(const string&m,const string&f){return m+"\x01"+f;}
  void prepare(const Module&m){for(auto&i:m.imports){string k=key(i.mod,i.field);
    if(i.kind==0)funcs[k]=(void*)hostStub;
    else if(i.kind==2){auto*&x=mems[k];if(!x)x=(pwart_wasm_memory*)calloc(1,sizeof *x);if(x->pages<i.min+1||!x->bytes){x->pages=i.min+1;x->initial=x->pages;x->maximum=x->pages;x->fixed=1;free(x->bytes);x->bytes=(u8*)calloc(x->pages,65536);}}
    else if(i.kind==1){auto*&x=tabs[k];if(!x)x=(pwart_wasm_table*)calloc(1,sizeof *x);if(x->size<i.min+64){x->size=i.min+64;x->maximum=x->size;x->elem_type=i.et;free(x->entries);x->entries=(void**)calloc(x->size,8);}}
    else{auto*&x=globs[k];if(!x)x=(u64*)calloc(1,8);}}}
  ~Pool(){for(auto&x:mems){free(x.second->bytes);free(x.second);}for(auto&x:tabs){free(x.second->entries);free(x.second);}for(auto&x:globs)free(x.second);}
  void*find(const string&mod,const string&f,int kind){string k=key(mod,f);if(k==refuse&&kind==refuseKind)return nullptr;
    switch(kind){case 0:{auto i=funcs.find(k);return i==funcs.end()?nullptr:i->second;}case 1:{auto i=tabs.find(k);return i==tabs.end()?nullptr:i->second;}case 2:{auto i=mems.find(k);return i==mems.end()?nullptr:i->second;}default:{auto i=globs.find(k);return i==globs.end()?nullptr:(void*)i->second;}}}
};
static Pool*P;
static void rsResolve(struct pwart_symbol_resolver*,struct pwart_symbol_resolve_request*q){q->result=P->find(q->import_module,q->import_field,q->kind);}
struct HM{pwart_host_module base;string name;};
static void hmResolve(pwart_host_module*h,pwart_symbol_resolve_request*q){q->result=P->find(((HM*)h)->name,q->import_field,q->kind);}
struct Sec{u8 id;size_t start,body,end;};
static vector<Sec> sections(const vector<u8>&b){vector<Sec> o;size_t p=8;while(p<b.size()){Sec s;s.start=p;s.id=b[p++];u32 n=0,sh=0;for(;;){u8 c=b[p++];n|=(u32)(c&0x7f)<<sh;sh+=7;if(!(c&0x80))break;}s.body=p;s.end=p+n;p=s.end;o.push_back(s);}return o;}
static void putLeb(vector<u8>&o,u32 v){do{u8 c=v&0x7f;v>>=7;o.push_back(c|(v?0x80:0));}while(v);}
static vector<u8> rebuild(const vector<u8>&b,const vector<std::pair<u8,vector<u8>>>&ss){vector<u8> o(b.begin(),b.begin()+8);for(auto&s:ss){o.push_back(s.first);putLeb(o,s.second.size());o.insert(o.end(),s.second.begin(),s.second.end());}return o;}
enum Expect{OK_,ERR,EITHER};
struct Attempt{vector<u8> bytes;Expect ex=OK_;string what;int kind=0;string refuse;int refuseKind=-1;};
static string longName(Rng&r,int n){string s;for(int i=0;i<n;i++)s+=(char)('a'+r.below(26));return s;}
static const char*KINDS[]={"good","cut","cut_section_length_patched","bad_header","unresolvable_import","passive_data","unsupported_opcode","unsupported_misc_opcode","block_type_index","import_name_too_long","type_too_long","too_many_locals","operand_stack_overflow","export_name_too_long","segment_out_of_bounds","unknown_index","function_code_mismatch","duplicate_section","import_too_small","bad_const_expr","bad_segment_flags","at_limit","import_kind_mismatch"};
enum{K_GOOD,K_CUT,K_CUTP,K_HDR,K_IMP,K_PASSIVE,K_OPC,K_FC,K_BT,K_INAME,K_TYPE,K_LOCALS,K_OPSTK,K_ENAME,K_SEG,K_IDX,K_MISM,K_DUP,K_SMALL,K_CEXPR,K_FLAGS,K_LIMIT,K_KIND,K_N};
static Module baseModule(Rng&r,Case&c){
  static const char*PR[]={"generic","C14","C11","C12","C10","C05","C04","C03","C08"};
  for(;;){Case t;t.seed=r.next();t.profile=PR[r.below(9)];Prof p=profileFor(t.profile,r);p.nmods_max=1;p.hugemem_pct=p.native_pct=0;p.customs_pct=15;p.extconst|=r.chance(50);genCase(r,p,t);c=t;size_t k=r.below(t.mods.size());Module m=t.mods[k];
    return m;}}
static Code nopRes(const Module&m,u32 type){Code c;for(VT v:m.types[type].r)c.push_back(isref(v)?I(OP_REFNULL,v):I(v==I32?OP_I32C:v==I64?OP_I64C:v==F32?OP_F32C:OP_F64C));return c;}
static u32 addFunc(Module&m,const FuncType&t,const Code&body,const vector<VT>&loc={}){Func f;f.type=m.addType(t);f.body=body;f.locals=loc;m.funcs.push_back(f);return m.nimp(0)+m.funcs.size()-1;}
static size_t topPos(Rng&r,const Func&f){ // a place at nesting depth 0 which is reachable: the beginning, or after complete statements
  (void)f;return 0;}
static Ins raw(std::initializer_list<int> l){Ins i;i.op=OP_RAW;for(int x:l)i.tbl.push_back((u32)x);return i;}
static bool gapOpcode(int b){ // opcode bytes which no supported feature uses
  return (b>=0x06&&b<=0x0a)||(b>=0x14&&b<=0x19)||(b>=0x1d&&b<=0x1f)||b==0x27||(b>=0xc5&&b<=0xcf)||(b>=0xd3&&b!=0xfc);}
static bool damage(Rng&r,Module m,Attempt&a,int kind,u64 seed){ // false: not applicable to this module
  Rng er(seed);a.kind=kind;a.ex=ERR;int pad=r.chance(20)?40:0;auto enc=[&]{return encode(m,pad,&er);};
  vector<u8> b;
  switch(kind){
  case K_GOOD:a.bytes=enc();a.ex=OK_;a.what="good";return true;
  case K_CUT:{b=enc();size_t n=r.chance(10)?r.below(9):r.below(b.size());bool at=n==8;bool code=false;for(auto&s:sections(b)){if(n==s.start||n==s.end)at=true;if(s.id==10&&s.end<=n)code=true;}
    bool funcs=false;for(auto&s:sections(b))if(s.id==3&&s.end<=n&&m.funcs.size())funcs=true;
    a.bytes.assign(b.begin(),b.begin()+n);a.what=sfmt("cut at %zu of %zu%s",n,b.size(),at?" (between sections)":"");
    if(n<8||!at)a.ex=ERR;else if(funcs&&!code)a.ex=ERR;else a.ex=EITHER;
    if(n<8)a.ex=ERR;return true;}
  case K_CUTP:{pad=0;b=enc();auto ss=sections(b);vector<size_t> cand;for(size_t i=0;i<ss.size();i++)if(ss[i].id!=0&&ss[i].id!=12&&ss[i].end-ss[i].body>=1)cand.push_back(i);if(cand.empty())return false;size_t i=cand[r.below(cand.size())];
    vector<std::pair<u8,vector<u8>>> o;for(size_t k=0;k<i;k++)o.push_back({ss[k].id,vector<u8>(b.begin()+ss[k].body,b.begin()+ss[k].end)});
    size_t len=r.below(ss[i].end-ss[i].body);if(r.chance(40)){size_t full=ss[i].end-ss[i].body;len=full-1-r.below(std::min<size_t>(full,12));}o.push_back({ss[i].id,vector<u8>(b.begin()+ss[i].body,b.begin()+ss[i].body+len)});
    a.bytes=rebuild(b,o);a.what=sfmt("section %d ends after %zu of %zu bytes",ss[i].id,len,ss[i].end-ss[i].body);
    return true;}
  case K_HDR:{a.bytes=enc();int p=r.below(8);a.bytes[p]^=1<<r.below(8);if(r.chance(20)){for(int i=0;i<8;i++)a.bytes[i]=r.next();if(!memcmp(a.bytes.data(),"\0asm\1\0\0\0",8))return false;}a.what=sfmt("header byte %d changed",p);return true;}
  case K_IMP:{if(m.imports.empty()||r.chance(40)){Import i;static const char*M[]={"env","nowhere","","pwart_builtin","m0"};i.mod=M[r.below(5)];i.field="no such "+longName(r,5);i.kind=r.below(4);if(i.kind==0){i.type=m.addType({{I32},{}});}i.min=i.kind==2?0:1;m.imports.insert(m.imports.begin()+r.below(m.imports.size()+1),i);a.bytes=enc();a.what="import of "+i.mod+"."+i.field;return true;}
    auto&i=m.imports[r.below(m.imports.size())];a.refuse=Pool::key(i.mod,i.field);a.refuseKind=i.kind;a.bytes=enc();a.what="import "+i.mod+"."+i.field+" refused by the resolver";return true;}
  case K_PASSIVE:{Data d;d.flags=1;for(int i=r.below(20);i>0;i--)d.bytes.push_back(i);m.datas.insert(m.datas.begin()+r.below(m.datas.size()+1),d);a.bytes=enc();a.what="passive data segment";return true;}
  case K_OPC:case K_FC:{if(m.funcs.empty())addFunc(m,{{},{}},{});auto&f=m.funcs[r.below(m.funcs.size())];Ins x;
    if(kind==K_OPC){int o;do o=r.below(256);while(!gapOpcode(o));if(r.chance(40))o=r.chance(50)?0xfd:0xfe;x=raw({o,(int)r.below(128),(int)r.below(128)});a.what=sfmt("opcode %02x",o);}
    else{static const int F[]={8,9,12,13,18,19,30,127};int o=F[r.below(8)];x=raw({0xfc,o,0,0});if(r.chance(20)){x=raw({0xfc,0xff,0x7f});o=16383;}a.what=sfmt("opcode fc %d",o);}
    f.body.insert(f.body.begin()+r.below(f.body.size()+1),x);a.bytes=enc();return true;}
  case K_BT:{FuncType t=r.chance(50)?FuncType{{I32},{I32}}:FuncType{{},{I32,I64}};u32 ti=m.addType(t);if(ti>63)return false;Code c;for(VT v:t.p)c.push_back(I(OP_I32C));int op=r.chance(40)?OP_BLOCK:r.chance(50)?OP_LOOP:OP_IF;if(op==OP_IF)c.push_back(I(OP_I32C));c.push_back(raw({op,(int)ti}));
    if(t.p.empty()){c.push_back(I(OP_I32C));c.push_back(I(OP_I64C));}if(op==OP_IF){c.push_back(I(OP_ELSE));if(t.p.empty()){c.push_back(I(OP_I32C));c.push_back(I(OP_I64C));}}c.push_back(I(OP_END));for(size_t i=0;i<t.r.size();i++)c.push_back(I(OP_DROP));
    u32 fi=addFunc(m,{{},{}},c);(void)fi;a.bytes=enc();a.what="type index as block type";return true;}
  case K_INAME:{Import i;i.kind=0;i.type=m.addType({{},{}});int tot=r.range(499,600);if(r.chance(20))tot=r.range(600,3000);int ml=r.chance(30)?r.range(0,3):r.range(0,tot);if(r.chance(20))ml=tot;i.mod=longName(r,ml);i.field=longName(r,tot-ml);m.imports.push_back(i);P->prepare(m);a.bytes=enc();a.what=sfmt("import names of %d+%d bytes",ml,tot-ml);return true;}
  case K_TYPE:{FuncType t;int n=r.chance(50)?256:r.range(256,3000);if(r.chance(50))t.p.assign(n,I32);else t.r.assign(n,I64);if(r.chance(15)){t.p.assign(256,F32);t.r.assign(300,F64);}m.types.insert(m.types.end(),t);a.bytes=enc();a.what=sfmt("type with %d values",n);return true;}
  case K_LOCALS:{addFunc(m,{{},{}},{});Func&f=m.funcs.back();if(r.chance(50)){f.locals.assign(r.range(30001,40000),r.chance(50)?I32:F64);a.what=sfmt("%zu locals",f.locals.size());}
    else{vector<u8> o;int k=r.range(1,4);putLeb(o,k);for(int i=0;i<k;i++){putLeb(o,i==k-1?(r.chance(50)?0xffffffffu:0x80000000u-r.below(3)):r.below(30000));o.push_back(I32);}f.rawLocals=o;a.what="locals count of 32 bits";}
    a.bytes=enc();return true;}
  case K_OPSTK:{int n=r.chance(50)?r.range(33,60):r.range(60,3000);Code c;for(int i=0;i<n;i++){int t=r.below(4);c.push_back(I(t==0?OP_I32C:t==1?OP_I64C:t==2?OP_F32C:OP_F64C,0,0,i));}for(int i=0;i<n;i++)c.push_back(I(OP_DROP));addFunc(m,{{},{}},c);a.bytes=enc();a.what=sfmt("%d operands",n);return true;}
  case K_ENAME:{Export x;x.name=longName(r,r.chance(50)?256:r.range(256,2000));x.kind=0;x.idx=0;if(m.functypes().empty())addFunc(m,{{},{}},{});m.exports.insert(m.exports.begin()+r.below(m.exports.size()+1),x);a.bytes=enc();a.what=sfmt("export name of %zu bytes",x.name.size());return true;}
  case K_SEG:{bool mem=r.chance(50);if(mem){int ni=m.nimp(2);if(m.mems.empty()){MemT t;t.min=r.below(3);t.hasmax=r.chance(50);t.max=4;m.mems.push_back(t);}u32 k=r.below(m.mems.size());MemT t=m.mems[k];u64 sz=(u64)t.min*65536;
      Data d;u32 n=r.chance(30)?0:r.range(1,300);d.bytes.assign(n,0x5a);u64 off=sz-n+1+r.below(4);if(n&&r.chance(30))off=sz-r.below(n);if(r.chance(30))off=t.is64?(u64)-(s64)r.range(1,400):(u32)-(s32)r.range(1,400);if(!t.is64)off=(u32)off;if(off+n<=sz&&off<=sz)return false;
      d.mem=ni+k;d.flags=d.mem?2:(r.chance(50)?2:0);d.off={I(t.is64?OP_I64C:OP_I32C,0,0,off)};m.datas.insert(m.datas.begin()+r.below(m.datas.size()+1),d);a.bytes=enc();a.what=sfmt("data segment %llu+%u in %llu bytes",(unsigned long long)off,n,(unsigned long long)sz);return true;}
    int ni=m.nimp(1);vector<u32> ft;for(u32 i=0;i<m.tables.size();i++)if(m.tables[i].et==FUNCREF)ft.push_back(i);if(ft.empty()){TableT t;t.min=r.below(5);m.tables.push_back(t);ft.push_back(m.tables.size()-1);}
    if(m.functypes().empty())addFunc(m,{{},{}},{});u32 k=ft[r.below(ft.size())];u32 sz=m.tables[k].min;Elem e;u32 n=r.below(6);e.funcs.assign(n,r.below(m.functypes().size()));u32 off=sz-n+1+r.below(4);if(r.chance(30))off=-(s32)r.range(1,20);if((u64)off+n<=sz)return false;e.table=ni+k;e.flags=e.table?2:(r.chance(50)?2:0);e.off={I(OP_I32C,0,0,off)};m.elems.insert(m.elems.begin()+r.below(m.elems.size()+1),e);a.bytes=enc();a.what=sfmt("element segment %u+%u in %u entries",off,n,sz);return true;}
  case K_IDX:{u32 d=r.chance(50)?0:r.chance(50)?r.below(5):r.chance(50)?0x7fffffff-r.below(3):0xfffffffeu-r.below(70000);
    auto ix=[&](size_t n){u32 v=(u32)n+d;return v<n?0xffffffffu:v;};
    switch(r.below(7)){
      case 0:{Func f;f.type=ix(m.types.size());m.funcs.push_back(f);a.what="function of an unknown type";break;}
      case 1:{Import i;i.mod="env";i.field="h0";i.kind=0;i.type=ix(m.types.size());m.imports.push_back(i);a.what="import of an unknown type";break;}
      case 2:{Export x;x.name="zzz";x.kind=r.below(4);x.idx=ix(x.kind==0?m.functypes().size():x.kind==1?m.alltables().size():x.kind==2?m.allmems().size():m.allglobals().size());m.exports.push_back(x);a.what="export of an unknown object";break;}
      case 3:{m.start=(int)(ix(m.functypes().size())&0x7fffffff);if(m.start<(int)m.functypes().size())m.start=0x7fffffff;a.what="unknown start function";break;}
      case 4:{Elem e;e.flags=2;e.table=ix(m.alltables().size());e.off={I(OP_I32C)};m.elems.push_back(e);a.what="elements of an unknown table";break;}
      case 5:{Elem e;if(m.alltables().empty()||m.alltables()[0].min<1)return false;e.flags=r.chance(50)?0:1;e.off={I(OP_I32C)};e.funcs={ix(m.functypes().size())};m.elems.push_back(e);a.what="element of an unknown function";break;}
      case 6:{Data q;q.flags=2;q.mem=ix(m.allmems().size());q.off={I(OP_I32C)};m.datas.push_back(q);a.what="data of an unknown memory";break;}}
    for(auto&i:m.imports)if(i.kind==0&&i.type>=m.types.size()){}
    // the encoder needs valid types only where it looks them up: function bodies are encoded by instruction
    a.bytes=enc();return true;}
  case K_MISM:{if(m.funcs.empty())return false;pad=0;b=enc();auto ss=sections(b);vector<std::pair<u8,vector<u8>>> o;int w=r.below(3);bool hit=false;
    for(auto&s:ss){vector<u8> p(b.begin()+s.body,b.begin()+s.end);if(w==0&&s.id==10){hit=true;continue;}
      if(w==1&&s.id==3){ // one more function without a body
        vector<u8> q;putLeb(q,m.funcs.size()+1);vector<u8> x;putLeb(x,m.funcs.size());q.insert(q.end(),p.begin()+x.size(),p.end());q.push_back(0);p=q;hit=true;}
      if(w==2&&s.id==10){vector<u8> q;putLeb(q,m.funcs.size()+1);vector<u8> x;putLeb(x,m.funcs.size());q.insert(q.end(),p.begin()+x.size(),p.end());q.push_back(2);q.push_back(0);q.push_back(0x0b);p=q;hit=true;}
      o.push_back({s.id,p});}
    if(!hit)return false;a.bytes=rebuild(b,o);a.what=w==0?"no code section":w==1?"function without a body":"body without a function";return true;}
  case K_DUP:{pad=0;b=enc();auto ss=sections(b);vector<std::pair<u8,vector<u8>>> o;vector<size_t> cand;for(size_t i=0;i<ss.size();i++)if(ss[i].id==4||ss[i].id==5||ss[i].id==10)cand.push_back(i);if(cand.empty())return false;size_t k=cand[r.below(cand.size())];
    for(size_t i=0;i<ss.size();i++){vector<u8> p(b.begin()+ss[i].body,b.begin()+ss[i].end);o.push_back({ss[i].id,p});if(i==k)o.push_back({ss[i].id,p});}
    a.bytes=rebuild(b,o);a.what=sfmt("section %d twice",ss[k].id);return true;}
  case K_SMALL:{Import i;i.mod="small";bool mem=r.chance(50);i.kind=mem?2:1;i.field=mem?"m":"t";i.min=0;Module q;q.imports.push_back(i);P->prepare(q);u32 have;if(mem){auto*x=P->mems[Pool::key("small","m")];have=x->pages;x->maximum=have+(r.chance(50)?0:r.below(200));x->initial=r.chance(50)?have:r.below(have+1);}else{auto*x=P->tabs[Pool::key("small","t")];have=x->size;x->maximum=have+(r.chance(50)?0:r.below(200));x->initial=r.chance(50)?have:r.below(have+1);}i.min=have+1+(r.chance(50)?0:r.below(100));i.hasmax=r.chance(50);i.max=i.min+10;m.imports.push_back(i);a.bytes=enc();a.what=sfmt("%s import of %u where %u is available",mem?"memory":"table",i.min,have);return true;}
  case K_CEXPR:{GlobalT g;g.t=I32;g.mut=false;switch(r.below(5)){
      case 0:g.init={I(OP_I32C,0,0,1),I(OP_I32C,0,0,2),I((u16)(r.chance(50)?0x6d:0x71))};a.what="const expr with an unsupported operator";break;
      case 1:{u32 n=m.allglobals().size();g.init={I(OP_GGET,n+r.below(3))};a.what="const expr of an unknown or later global";break;}
      case 2:{g.init={I(OP_I32C,0,0,1),I(0x6a)};a.what="const expr without an operand";break;}
      case 3:{for(int i=r.range(64,400);i>0;i--)g.init.push_back(I(OP_I32C,0,0,i));a.what="const expr too deep";break;}
      case 4:{g.init={};a.what="empty const expr";break;}}
    m.globals.push_back(g);a.bytes=enc();return true;}
  case K_FLAGS:{if(r.chance(50)){if(m.allmems().empty())return false;Data d;d.flags=r.range(3,1000);d.off={I(OP_I32C)};m.datas.push_back(d);a.what="data segment flags";}else{if(m.alltables().empty())return false;Elem e;e.flags=r.range(8,1000);e.off={I(OP_I32C)};m.elems.push_back(e);a.what="element segment flags";}a.bytes=enc();return true;}
  case K_LIMIT:{a.ex=OK_;switch(r.below(7)){
      case 0:{FuncType t;t.p.assign(255,I32);if(r.chance(50))t.r.assign(255,F32);m.types.push_back(t);a.what="255 parameters";break;}
      case 1:{Export x;x.name=longName(r,255);if(m.functypes().empty())addFunc(m,{{},{}},{});m.exports.push_back(x);a.what="export name of 255 bytes";break;}
      case 2:{Import i;i.kind=3;i.gt=I32;int tot=498;int ml=r.below(tot);i.mod=longName(r,ml);i.field=longName(r,tot-ml);/* last global import shifts nothing if there are no own globals */if(m.globals.size()||m.allglobals().size())return false;m.imports.push_back(i);P->prepare(m);a.what="import names of 498 bytes";break;}
      case 3:{addFunc(m,{{},{}},{});m.funcs.back().locals.assign(r.range(29990,30000),I64);a.what="30000 locals";break;}
      case 5:case 6:{ // exactly what is available now, in an object that began smaller
        bool mem=r.chance(50);if(mem?m.mems.size():m.tables.size())return false;Import i;i.mod="small";i.kind=mem?2:1;i.field=mem?"gm":"gt";Module q;q.imports.push_back(i);P->prepare(q);
        if(mem){auto*x=P->mems[Pool::key("small","gm")];i.min=x->pages;x->initial=r.below(x->pages+1);}else{auto*x=P->tabs[Pool::key("small","gt")];i.min=x->size;x->initial=r.below(x->size+1);}
        m.imports.push_back(i);a.what=sfmt("import of a grown %s",mem?"memory":"table");break;}
      case 4:{Code c;for(int i=0;i<30;i++)c.push_back(I(OP_I32C,0,0,i));for(int i=0;i<30;i++)c.push_back(I(OP_DROP));addFunc(m,{{},{}},c);a.what="30 operands";break;}}
    a.bytes=enc();return true;}
  case K_KIND:{ // the name exists, but only for another kind
    if(m.imports.empty())return false;auto i=m.imports[r.below(m.imports.size())];int k=(i.kind+1+r.below(3))%4;if(P->find(i.mod,i.field,k))return false;i.kind=k;i.min=0;i.type=0;if(k==0&&m.types.empty())return false;m.imports.push_back(i);a.bytes=enc();a.what="import "+i.mod+"."+i.field+" of another kind";return true;}
  }
  return false;}
struct By{u32 k;int fat;pwart_module_state s;u32 g;};
static string checkBy(By&b,Rng&r){cBy++;u32 x=(u32)r.next();
  auto f=pwart_get_export_function(b.s,"f");if(!f||call1(f,x)!=x*b.k+7)return "a module loaded earlier computes a wrong value";
  b.g+=b.k;if(call1(pwart_get_export_function(b.s,"inc"),0)!=b.g)return "a module loaded earlier lost its global";
  u32 w=0;for(int i=0;i<4;i++)w|=(u32)(u8)(b.k+i)<<(8*i);if(call1(pwart_get_export_function(b.s,"peek"),b.k%1000)!=w)return "the memory of a module loaded earlier changed";
  if(call1(pwart_get_export_function(b.s,"ci"),x)!=x*b.k+7)return "the table of a module loaded earlier changed";
  if(b.fat&&call1(pwart_get_export_function(b.s,"many"),x)!=fatValue(x,b.fat))return "the code of a module loaded earlier changed";
  return "";}
static string badMsg(const char*e){if(!e)return "no error message";size_t n=strnlen(e,400);if(n==0||n>=400)return "error message is empty or unterminated";for(size_t i=0;i<n;i++)if((u8)e[i]<32||(u8)e[i]>126)return "error message is not text";return "";}
static vector<u8> tinyBytes(Rng&r,By&b){b.k=r.range(1,60000);b.fat=r.chance(30)?r.range(1,300):0;b.g=b.k;Module m=tinyModule(b.k,b.fat,"",r.chance(50),true,true);return encode(m,0,nullptr);}
void hxInit(){Rng r(5);RunStats st;memset(&st,0,sizeof st);Case c;Prof p=profileFor("generic",r);genCase(r,p,c);c.seed=1;runCase(c,st);sljit_free_unused_memory_exec();hxTakeBad();}
static string history(Rng&r){
  Pool pool;P=&pool;Case c;Module m=baseModule(r,c);pool.prepare(m);
  struct pwart_global_compile_config g;g.stack_flags=r.below(2);g.misc_flags=r.chance(70)?3:r.below(4);pwart_set_global_compile_config(&g);
  pwart_namespace ns=pwart_namespace_new();vector<HM*> hms;
  std::set<string> mods;for(auto&i:m.imports)mods.insert(i.mod);mods.insert("small");mods.insert("env");
  auto addMods=[&](const Module&q){for(auto&i:q.imports)mods.insert(i.mod);};(void)addMods;
  for(auto&n:mods){HM*h=new HM;memset(&h->base,0,sizeof h->base);h->base.resolve=hmResolve;h->name=n;hms.push_back(h);pwart_namespace_define_host_module(ns,n.c_str(),&h->base);}
  struct pwart_symbol_resolver res;res.resolve=rsResolve;
  vector<pwart_module_state> own;vector<By> by;pwart_module_compiler mc=nullptr;string err;
  auto fail=[&](const string&s){if(err.empty())err=s;};
  bool nsDefined=false;pwart_module_state nsState=nullptr;
  {By b;vector<u8> t=tinyBytes(r,b);char*e=nullptr;b.s=(pwart_module_state)pwart_namespace_define_wasm_module(ns,"bystander",(char*)t.data(),t.size(),&e);if(!b.s)fail("a good module failed to load");else by.push_back(b);}
  {By b;vector<u8> t=tinyBytes(r,b);char*e=nullptr;b.s=(pwart_module_state)pwart_load_module((char*)t.data(),t.size(),&e);if(!b.s)fail("a good module failed to load");else{by.push_back(b);own.push_back(b.s);}}
  // does the base module load with these imports?
  bool baseOk=false;
  int n=r.range(2,7);
  for(int k=0;k<n&&err.empty();k++){
    Attempt a;bool got=false;int want=k==0?K_GOOD:r.chance(30)?K_CUT:r.below(K_N);
    for(int t=0;t<6&&!got;t++)got=damage(r,m,a,t?(int)r.below(K_N):want,r.next());
    if(!got||(a.bytes.size()>4000000))continue;
    pool.refuse=a.refuse;pool.refuseKind=a.refuseKind;
    if(k&&a.ex==OK_&&!baseOk)a.ex=EITHER;if(k==0)a.ex=EITHER;
    bool imp=!m.imports.empty();
    int path=r.below(4);if(a.kind==K_INAME&&path==3)path=1; // (the long module names are not defined in the namespace)
    if(a.kind==K_LIMIT&&path==3&&imp)path=1;if(a.kind==K_LIMIT&&a.what[0]=='i')path=1;
    if(path==0&&(imp||a.kind==K_IMP||a.kind==K_SMALL||a.kind==K_LIMIT))path=1; // pwart_load_module resolves nothing
    char*buf=(char*)malloc(a.bytes.size()?a.bytes.size():1);memcpy(buf,a.bytes.data(),a.bytes.size());int len=a.bytes.size();
    hx::note("%s: %s, %d bytes, path %d",KINDS[a.kind],a.what.c_str(),len,path);
    cAtt++;(*cKind[a.kind])++;char*e=nullptr;pwart_module_state s=nullptr;bool noMsg=r.chance(15);
    if(path==0)s=(pwart_module_state)pwart_load_module(buf,len,noMsg?nullptr:&e);
    else if(path<=2){bool fresh=path==1||!mc;pwart_module_compiler q=mc;if(fresh){if(mc&&path==2)pwart_free_module_compiler(mc);q=pwart_new_module_compiler();if(path==2||!mc)mc=q;}
      pwart_set_symbol_resolver(q,&res);e=pwart_compile(q,buf,len);noMsg=false;if(!e)s=pwart_get_module_state(q);
      if(q!=mc)pwart_free_module_compiler(q);}
    else{auto*before=pwart_namespace_find_module(ns,"victim");(void)before;s=(pwart_module_state)pwart_namespace_define_wasm_module(ns,"victim",buf,len,noMsg?nullptr:&e);}
    memset(buf,0xEE,len);free(buf);
    if(path==3){auto*f=pwart_namespace_find_module(ns,"victim");
      if(s){nsDefined=true;nsState=s;}
      bool found=f&&f->type==PWART_MODULE_TYPE_WASM_MODULE;
      if(found!=nsDefined)fail(nsDefined?"the module defined earlier under the name is gone":"a module that failed to load is defined in the namespace");
      else if(found&&f->val.wasm!=nsState)fail("the name gives another module after the attempt");}
    else if(s)own.push_back(s);
    if(k==0)baseOk=s!=nullptr;
    if(a.ex==ERR){if(s)fail("the module was loaded although it must be refused: "+a.what);else{cErr++;if(!noMsg){string b=badMsg(e);if(!b.empty())fail(b);}}}
    else if(a.ex==OK_){if(!s)fail(sfmt("a good module failed to load (%s): %s",a.what.c_str(),e?e:"?"));else{if(a.kind==K_LIMIT)cLim++;else cGood++;}}
    else if(a.kind==K_CUT&&s)cTol++;else if(s)cGood++;
    if(a.kind==K_CUT)cTrunc++;
    pool.refuse.clear();
    if(err.empty()&&r.chance(60)){string v=checkBy(by[r.below(by.size())],r);if(!v.empty())fail(v);}
    if(err.empty()&&r.chance(40)){ // a later load through the same compiler or the namespace works
      By b;vector<u8> t=tinyBytes(r,b);e=nullptr;if(mc&&r.chance(60)){pwart_set_symbol_resolver(mc,&res);e=pwart_compile(mc,(char*)t.data(),t.size());b.s=e?nullptr:pwart_get_module_state(mc);if(b.s)own.push_back(b.s);}
      else b.s=(pwart_module_state)pwart_namespace_define_wasm_module(ns,sfmt("later%d",k).c_str(),(char*)t.data(),t.size(),&e);
      hx::note("later load of a good module");
      if(!b.s)fail(string("a later load of a good module failed: ")+(e?e:"?"));else{cGood++;string v=checkBy(b,r);if(!v.empty())fail("after a failed load: "+v);by.push_back(b);}}
    string hb=hxTakeBad();if(!hb.empty())fail(hb);
  }
  if(err.empty())for(auto&b:by){string v=checkBy(b,r);if(!v.empty())fail(v);}
  if(mc)pwart_free_module_compiler(mc);
  for(auto s:own)pwart_free_module_state(s);
  pwart_namespace_delete(ns);for(auto h:hms)delete h;P=nullptr;
  string hb=hxTakeBad();if(!hb.empty())fail(hb);
  return err;}
// one module cut at every position, through one compiler
static string sweep(Rng&r){
  Pool pool;P=&pool;Case c;Module m=baseModule(r,c);pool.prepare(m);vector<u8> b=encode(m,r.chance(20)?40:0,&r);struct pwart_symbol_resolver res;res.resolve=rsResolve;string err;
  bool funcs=m.funcs.size()>0;std::map<size_t,int> at;for(auto&s:sections(b)){at[s.start]=1;at[s.end]=1;}size_t codeEnd=0,funcEnd=0;for(auto&s:sections(b)){if(s.id==10)codeEnd=s.end;if(s.id==3)funcEnd=s.end;}
  pwart_module_compiler mc=pwart_new_module_compiler();pwart_set_symbol_resolver(mc,&res);cSweep++;hx::note("module of %zu bytes cut at every position",b.size());
  size_t step=1+b.size()/1500;
  for(size_t n=0;n<b.size()&&err.empty();n+=step){bool bound=n==8||at.count(n);char*buf=(char*)malloc(n?n:1);memcpy(buf,b.data(),n);char*e=pwart_compile(mc,buf,(int)n);free(buf);cAtt++;cTrunc++;
    bool mustFail=n<8||!bound||(funcs&&n>=funcEnd&&n<codeEnd);
    if(!e){if(mustFail)err=sfmt("cut at %zu of %zu was loaded",n,b.size());else{pwart_free_module_state(pwart_get_module_state(mc));cTol++;}}
    else{cErr++;err=badMsg(e);}}
  pwart_free_module_compiler(mc);P=nullptr;return err;}
string runOne(u64 seed,u64 idx){
  if(!cKind[0])return "HARNESS";
  Rng r(seed*1000003+idx*7919);HxAllocStats a=hxStats();
  string err=idx%40==7?sweep(r):history(r);if(!err.empty())return err;
  sljit_free_unused_memory_exec();HxAllocStats b=hxStats();cLeak++;
  if(b.blocks!=a.blocks)return sfmt("the history left %ld block(s), %ld bytes: ",b.blocks-a.blocks,b.bytes-a.bytes)+hxLive();
  if(b.maps!=a.maps||b.execBytes!=a.execBytes)return sfmt("the history left %ld mapping(s), %ld bytes (%ld executable)",b.maps-a.maps,b.mapBytes-a.mapBytes,b.execBytes-a.execBytes);
  hx::nontrivial(hx::hashBytes(hx::S->note[hx::W],hx::S->noteLen[hx::W]));return "";}
static struct Reg{Reg(){for(int i=0;i<K_N;i++){cKind[i]=new hx::Counter(strdup((string("attempts_")+KINDS[i]).c_str()));}}}reg;
HX_MAIN("load")
