// Module representation, binary encoder, opcode signatures and a small type checker.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t s32; typedef int64_t s64;
using std::vector; using std::string;

enum VT : u8 { I32=0x7f,I64=0x7e,F32=0x7d,F64=0x7c,FUNCREF=0x70,EXTERNREF=0x6f,VOID=0x40,ANY=0 };
inline int vsize(VT t){return t==I32||t==F32?4:8;}
inline bool isref(VT t){return t==FUNCREF||t==EXTERNREF;}
inline bool isfloat(VT t){return t==F32||t==F64;}
inline const char*vname(VT t){switch(t){case I32:return "i32";case I64:return "i64";case F32:return "f32";case F64:return "f64";case FUNCREF:return "funcref";case EXTERNREF:return "externref";case VOID:return "void";default:return "any";}}

struct Rng { u64 s; explicit Rng(u64 x=1){s=x*0x9E3779B97F4A7C15ull+0x1234567;next();next();}
  u64 next(){u64 z=(s+=0x9E3779B97F4A7C15ull);z=(z^(z>>30))*0xBF58476D1CE4E5B9ull;z=(z^(z>>27))*0x94D049BB133111EBull;return z^(z>>31);}
  u32 below(u32 n){return n?(u32)((next()>>11)%n):0;}
  bool chance(int pct){return (int)below(100)<pct;}
  int range(int a,int b){return a+(int)below(b-a+1);}
  template<class T> const T&pick(const vector<T>&v){return v[below((u32)v.size())];}
};

struct FuncType{vector<VT> p,r; bool operator==(const FuncType&o)const{return p==o.p&&r==o.r;}};
enum : u16 { OP_UNREACHABLE=0,OP_NOP=1,OP_BLOCK=2,OP_LOOP=3,OP_IF=4,OP_ELSE=5,OP_END=0xb,OP_BR=0xc,OP_BRIF=0xd,OP_BRTABLE=0xe,OP_RETURN=0xf,
 OP_CALL=0x10,OP_CALLI=0x11,OP_RCALL=0x12,OP_RCALLI=0x13,OP_DROP=0x1a,OP_SELECT=0x1b,OP_SELECTT=0x1c,
 OP_LGET=0x20,OP_LSET=0x21,OP_LTEE=0x22,OP_GGET=0x23,OP_GSET=0x24,OP_TGET=0x25,OP_TSET=0x26,
 OP_MSIZE=0x3f,OP_MGROW=0x40,OP_I32C=0x41,OP_I64C=0x42,OP_F32C=0x43,OP_F64C=0x44,OP_REFNULL=0xd0,OP_REFISNULL=0xd1,OP_REFFUNC=0xd2,
 OP_MINIT=0xfc08,OP_DDROP=0xfc09,OP_MCOPY=0xfc0a,OP_MFILL=0xfc0b,OP_TINIT=0xfc0c,OP_EDROP=0xfc0d,OP_TCOPY=0xfc0e,OP_TGROW=0xfc0f,OP_TSIZE=0xfc10,OP_TFILL=0xfc11, OP_RAW=0xfe00 /* bytes in tbl */ };
struct Ins{u16 op=OP_NOP;u32 a=0,b=0;u64 k=0;vector<u32> tbl;};
inline Ins I(u16 op,u32 a=0,u32 b=0,u64 k=0){Ins i;i.op=op;i.a=a;i.b=b;i.k=k;return i;}
typedef vector<Ins> Code;

struct Import{string mod,field;int kind=0;u32 type=0;VT et=FUNCREF;u32 min=0,max=0;bool hasmax=false,is64=false;VT gt=I32;bool mut=false;};
struct TableT{VT et=FUNCREF;u32 min=0,max=0;bool hasmax=false;};
struct MemT{u32 min=0,max=0;bool hasmax=false,is64=false;};
struct GlobalT{VT t=I32;bool mut=false;Code init;};
struct Func{u32 type=0;vector<VT> locals;Code body;vector<u8> rawLocals;/*replaces the encoded locals*/};
struct Export{string name;int kind=0;u32 idx=0;};
struct Elem{u32 flags=0,table=0;Code off;VT et=FUNCREF;vector<u32> funcs;vector<Code> exprs;};
struct Data{u32 flags=0,mem=0;Code off;vector<u8> bytes;};
struct Module{
  vector<FuncType> types;vector<Import> imports;vector<Func> funcs;vector<TableT> tables;vector<MemT> mems;vector<GlobalT> globals;
  vector<Export> exports;int start=-1;vector<Elem> elems;vector<Data> datas;
  bool datacount=false; u32 padf=0,padb=0; // trivial functions before and behind the others
  vector<std::pair<int,vector<u8>>> customs; // (before section id, content)
  int nimp(int kind)const{int n=0;for(auto&i:imports)if(i.kind==kind)n++;return n;}
  u32 addType(const FuncType&t){for(u32 i=0;i<types.size();i++)if(types[i]==t)return i;types.push_back(t);return (u32)types.size()-1;}
  // index-space views
  vector<u32> functypes()const{vector<u32> v;for(auto&i:imports)if(i.kind==0)v.push_back(i.type);for(auto&f:funcs)v.push_back(f.type);return v;}
  vector<TableT> alltables()const{vector<TableT> v;for(auto&i:imports)if(i.kind==1){TableT t;t.et=i.et;t.min=i.min;t.max=i.max;t.hasmax=i.hasmax;v.push_back(t);}for(auto&t:tables)v.push_back(t);return v;}
  vector<MemT> allmems()const{vector<MemT> v;for(auto&i:imports)if(i.kind==2){MemT t;t.min=i.min;t.max=i.max;t.hasmax=i.hasmax;t.is64=i.is64;v.push_back(t);}for(auto&t:mems)v.push_back(t);return v;}
  vector<GlobalT> allglobals()const{vector<GlobalT> v;for(auto&i:imports)if(i.kind==3){GlobalT g;g.t=i.gt;g.mut=i.mut;v.push_back(g);}for(auto&g:globals)v.push_back(g);return v;}
};

struct Sig{VT a=VOID,b=VOID,r=VOID;};  // b==VOID: unary
bool numsig(u16 op,Sig&s);
bool memsig(u16 op,VT&t,int&width,bool&store);
const char*opname(u16 op);
vector<u8> encode(const Module&m,int padmode,Rng*rng); // padmode: 0 minimal LEBs, n>0: n% of LEBs padded
// returns empty string if ok
string validate(const Module&m,int*maxstack=nullptr);
string validateFunc(const Module&m,const Func&f,int*maxstack=nullptr);
string dumpCode(const Module&m,const Code&c);
string dumpModule(const Module&m);
