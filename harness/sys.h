// Modules that import the functions of a host module and export thunks for them; calls of those thunks in either stack layout.
#pragma once
#include "tiny.h"
#define HX_TYPES
#include "hx.h"
#include "hxalloc.h"
struct HF{string name;FuncType t;};
// t_<name>: forwards its parameters. p_<name>: the same with two operands pending and a local that lives across the call:
// (params, i64 x) -> (i32 k2, i64 k1, results, i64 x)
struct Thunks{vector<HF> fs;u32 k2;u64 k1;std::map<string,u32> imp;
  void imports(Module&m,const string&imod,const vector<HF>&f){for(auto&h:f){Import i;i.mod=imod;i.field=h.name;i.kind=0;i.type=m.addType(h.t);imp[h.name]=(u32)m.imports.size();m.imports.push_back(i);}fs.insert(fs.end(),f.begin(),f.end());}
  FuncType ptype(const FuncType&t)const{FuncType p=t;p.p.push_back(I64);p.r.insert(p.r.begin(),{I32,I64});p.r.push_back(I64);return p;}
  void thunks(Module&m,Rng&r){k2=(u32)r.next();k1=r.next();
    for(auto&h:fs){
      {Func f;f.type=m.addType(h.t);for(u32 i=0;i<h.t.p.size();i++)f.body.push_back(I(OP_LGET,i));f.body.push_back(I(OP_CALL,imp[h.name]));m.funcs.push_back(f);m.exports.push_back({"t_"+h.name,0,(u32)(m.nimp(0)+m.funcs.size()-1)});}
      {Func f;f.type=m.addType(ptype(h.t));f.body={I(OP_I32C,0,0,k2),I(OP_I64C,0,0,k1)};for(u32 i=0;i<h.t.p.size();i++)f.body.push_back(I(OP_LGET,i));f.body.push_back(I(OP_CALL,imp[h.name]));f.body.push_back(I(OP_LGET,(u32)h.t.p.size()));
        m.funcs.push_back(f);m.exports.push_back({"p_"+h.name,0,(u32)(m.nimp(0)+m.funcs.size()-1)});}}}
};
static bool sysAlign=false;
static void sysFlags(bool align){sysAlign=align;struct pwart_global_compile_config c;pwart_get_global_compile_config(&c);c.stack_flags=align?PWART_STACK_FLAGS_AUTO_ALIGN:0;pwart_set_global_compile_config(&c);}
static inline size_t sysSlot(size_t&o,VT t){if(sysAlign&&vsize(t)==8)o=(o+7)&~(size_t)7;size_t p=o;o+=vsize(t);return p;}
// calls fn with args on a stack of its own; returns "" or what is wrong around the frame
static thread_local u8 sysStkBuf[6][1<<14] __attribute__((aligned(64)));static thread_local int sysDepth;
static string callW(pwart_wasm_function fn,const FuncType&t,const vector<u64>&a,vector<u64>&res){
  struct Deep{Deep(){if(sysDepth>=6)abort();sysDepth++;}~Deep(){sysDepth--;}} deep;u8*sysStk=sysStkBuf[sysDepth-1];
  u8*fp=sysStk+256;memset(sysStk,0xB7,4096);size_t o=0;for(size_t i=0;i<t.p.size();i++){size_t p=sysSlot(o,t.p[i]);memcpy(fp+p,&a[i],vsize(t.p[i]));}
  pwart_call_wasm_function(fn,fp);
  o=0;res.clear();for(VT v:t.r){size_t p=sysSlot(o,v);u64 x=0;memcpy(&x,fp+p,vsize(v));res.push_back(x);}
  for(int i=0;i<256;i++)if(sysStk[i]!=0xB7)return "the stack below the arguments was written";
  return "";}
struct Sys{pwart_namespace ns=nullptr;pwart_module_state ms=nullptr;Thunks th;
  string load(const Module&m,const char*name,Rng&r){auto b=encode(m,0,&r);char*e=nullptr;u8*c=(u8*)malloc(b.size());memcpy(c,b.data(),b.size());ms=(pwart_module_state)pwart_namespace_define_wasm_module(ns,name,(char*)c,(int)b.size(),&e);free(c);if(e||!ms)return string("module with the imports cannot be loaded: ")+(e?e:"no error");return "";}
  // one call of an imported function, plain or with operands pending
  string call(const string&name,const vector<u64>&a,vector<u64>&res,Rng&r){
    const FuncType*t=nullptr;for(auto&h:th.fs)if(h.name==name)t=&h.t;bool pend=r.chance(50);
    auto fn=pwart_get_export_function(ms,((pend?"p_":"t_")+name).c_str());if(!fn)return "no thunk "+name;
    if(!pend)return callW(fn,*t,a,res);
    auto a2=a;u64 x=r.next();a2.push_back(x);vector<u64> q;string e=callW(fn,th.ptype(*t),a2,q);if(!e.empty())return e;
    if(q[0]!=th.k2||q[1]!=th.k1)return "an operand pending during the call of "+name+" changed";if(q.back()!=x)return "a local changed during the call of "+name;
    res.assign(q.begin()+2,q.end()-1);return "";}
};
