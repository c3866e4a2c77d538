// Small modules with known behaviour, for histories of API calls.
#pragma once
#include "../engine/wasm.h"
extern "C"{
#include <pwart.h>
}
// Module T(k): exports
//  func "f" (i32)->i32 : x*k+7      func "inc" ()->i32 : g+=k, returns g      func "peek" (i32)->i32 : load32(addr)     func "poke" (i32,i32)
//  func "many": filler of `fat` instructions     memory "mem"  table "tab" (0:f 1:inc)   global "g" (i32, k)   func "ci" (i32 x)->i32: call_indirect tab[0](x)
//  and, when imod is not empty, imports imod.f and exports "via" (i32)->i32 : imod.f(x)+1
static inline Module tinyModule(u32 k,int fat,const string&imod,bool fixedMem,bool mem,bool table,const string&start=""){
  Module m;u32 ti=m.addType({{I32},{I32}}),tv=m.addType({{},{I32}}),tp=m.addType({{I32,I32},{}}),t0=m.addType({{},{}});
  u32 base=0;if(!imod.empty()){Import i;i.mod=imod;i.field="f";i.kind=0;i.type=ti;m.imports.push_back(i);base=1;}
  auto add=[&](const char*n,u32 ty,const Code&b,vector<VT> loc={}){Func f;f.type=ty;f.body=b;f.locals=loc;m.funcs.push_back(f);Export e;e.name=n;e.kind=0;e.idx=base+(u32)m.funcs.size()-1;if(n[0])m.exports.push_back(e);return e.idx;};
  GlobalT g;g.t=I32;g.mut=true;g.init={I(OP_I32C,0,0,k)};m.globals.push_back(g);m.exports.push_back({"g",3,0});
  u32 f=add("f",ti,{I(OP_LGET,0),I(OP_I32C,0,0,k),I(0x6c),I(OP_I32C,0,0,7),I(0x6a)});
  u32 inc=add("inc",tv,{I(OP_GGET,0),I(OP_I32C,0,0,k),I(0x6a),I(OP_GSET,0),I(OP_GGET,0)});
  if(mem){MemT t;t.min=1+k%2;t.hasmax=fixedMem;t.max=3;m.mems.push_back(t);m.exports.push_back({"mem",2,0});
    add("peek",ti,{I(OP_LGET,0),I(0x28,2)});add("poke",tp,{I(OP_LGET,0),I(OP_LGET,1),I(0x36,2)});
    add("grow",ti,{I(OP_LGET,0),I(OP_MGROW)});
    Data d;d.off={I(OP_I32C,0,0,k%1000)};for(int i=0;i<8;i++)d.bytes.push_back(k+i);m.datas.push_back(d);}
  if(table){TableT t;t.et=FUNCREF;t.min=2+k%3;t.hasmax=true;t.max=t.min;m.tables.push_back(t);m.exports.push_back({"tab",1,0});
    Elem e;e.off={I(OP_I32C,0,0,0)};e.funcs={f,inc};m.elems.push_back(e);
    add("ci",ti,{I(OP_LGET,0),I(OP_I32C,0,0,0),I(OP_CALLI,ti,0)});}
  if(!imod.empty())add("via",ti,{I(OP_LGET,0),I(OP_CALL,0),I(OP_I32C,0,0,1),I(0x6a)});
  if(fat){Code c{I(OP_LGET,0)};for(int i=0;i<fat;i++){c.push_back(I(OP_I32C,0,0,i*2654435761u));c.push_back(I(i%3==0?0x6a:i%3==1?0x73:0x6c));}add("many",ti,c);}
  if(!start.empty())m.start=add("",t0,{I(OP_I32C,0,0,k*3),I(OP_GSET,0)});
  return m;}
static inline u32 fatValue(u32 x,int fat){for(int i=0;i<fat;i++){u32 c=i*2654435761u;x=i%3==0?x+c:i%3==1?x^c:x*c;}return x;}
static inline u32 call1(pwart_wasm_function fn,u32 a,u32 b=0){static thread_local u64 stk[2048];memset(stk,0xC3,sizeof stk);u32*p=(u32*)(stk+8);p[0]=a;p[1]=b;pwart_call_wasm_function(fn,p);return p[0];}
