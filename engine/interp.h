// Reference interpreter: the oracle. Written from the WebAssembly specification, shares no code with pwart.
#pragma once
#include "wasm.h"
#include <memory>
struct V{u64 v=0;bool t=false;}; // t: a NaN whose sign/payload the specification leaves open
struct Trap{const char*why;};
struct Instance;struct Store;
struct FuncObj{Instance*inst=nullptr;u32 fi=0;FuncType ft;int host=-1;const Func*f=nullptr;vector<int> match,els;int id=0;u64 calls=0;};
struct MemObj{vector<u8> b;u8*ext=nullptr;u64 extsize=0;u64 lo=0;/*address of byte 0*/u32 pages=0,max=65536;bool fixed=false,native=false,is64=false;int id=0;
  u8*ptr(){return ext?ext:b.data();}u64 size(){return ext?extsize:b.size();}};
struct TabObj{vector<u64> e;VT et=FUNCREF;u32 max=0;int id=0;};
struct GlobObj{V v;VT t=I32;bool mut=false;int id=0;};
struct Instance{Module*m=nullptr;vector<FuncObj*> funcs;vector<MemObj*> mems;vector<TabObj*> tabs;vector<GlobObj*> globs;u32 ownfunc0=0;};
struct HostLog{int slot;vector<V> args;};
struct Store{
  vector<std::unique_ptr<FuncObj>> funcs;vector<std::unique_ptr<MemObj>> mems;vector<std::unique_ptr<TabObj>> tabs;vector<std::unique_ptr<GlobObj>> globs;
  vector<std::unique_ptr<Instance>> insts;
  u64 steps=0,maxsteps=30000;int depth=0,maxdepth=60;u64 frameUnits=0,maxFrameUnits=60000;
  vector<HostLog> log;
  std::function<void(Store&,int,const vector<V>&,vector<V>&)> host;
  u64 opcount[0x200]={0}; // executed opcode histogram
  u64 branches=0,calls=0,grows=0,loads=0,stores=0,tailcalls=0,tableops=0,bulk=0;
  u64 refbase=0; // function references are encoded as (u64)FuncObj*
  FuncObj*newFunc();MemObj*newMem();TabObj*newTab();GlobObj*newGlob();
  // imports: resolved objects in import order (by kind)
  Instance*instantiate(Module*m,const vector<FuncObj*>&f,const vector<MemObj*>&me,const vector<TabObj*>&t,const vector<GlobObj*>&g);
  V evalConst(Instance*in,const Code&c);
  void call(FuncObj*f,const vector<V>&args,vector<V>&res);
  struct Snap{vector<vector<u8>> mb;vector<u32> pages;vector<vector<u64>> te;vector<V> gv;size_t logn;};
  Snap snap();void restore(const Snap&s);
};
bool numeval(u16 op,V a,V b,V&r); // false: operands trap (or host-dependent) in the specification
inline u32 lo32(u64 v){return (u32)v;}
inline bool isnan32(u32 x){return (x&0x7fffffffu)>0x7f800000u;}
inline bool isnan64(u64 x){return (x&0x7fffffffffffffffull)>0x7ff0000000000000ull;}
