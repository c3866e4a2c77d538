// Random typed module generator.
#pragma once
#include "interp.h"
struct Prof{
  // program shape
  int nf_min=1,nf_max=4, params_max=6, bigparams_pct=4, results_max=3, locals_max=8, biglocals_pct=3, depth=5, body_stmts=5;
  int deepblock_pct=1,many_pct=1;          // chance of very large index spaces
  int types_ref_pct=10;   // chance that reference types are used in a module
  int i64_bias=0,float_pct=40;
  // expression weights
  int e_const=10,e_lget=22,e_gget=5,e_load=6,e_num=30,e_tee=5,e_select=4,e_block=3,e_loop=1,e_if=4,e_call=6,e_calli=2,e_msize=1,e_mgrow=0,e_tsize=0,e_tget=1,e_ref=2;
  // statement weights
  int s_lset=16,s_gset=6,s_store=8,s_drop=3,s_block=4,s_loop=3,s_if=5,s_brif=4,s_call=4,s_calli=2,s_mfill=1,s_mcopy=1,s_tset=0,s_tfill=0,s_tcopy=0,s_brtable=2,s_nop=1,s_mgrow=0,s_retif=1,s_pressure=2,s_builtin=0;
  int interleave=12;      // % chance of a statement between two operands
  int dead_pct=8;         // % chance that a block arm ends in br/return/unreachable-typed dead code
  int tail_pct=0;         // % chance that a function ends in a tail call
  int recur_pct=10;
  int nmem_max=1,mem64_pct=0,mem_fixed_pct=30,mem_import_pct=20,ntab_max=1,nglob_max=6,glob_import_pct=30,tab_import_pct=20,nhost_max=3;
  int datas=2;
  int pad_pct=0;          // chance that the module uses padded LEBs
  int nonfuncidx0=0;
  int maxstack=25;
  int bigmem_pct=0;       // memories of several pages
  int actions_max=4;
  int start_pct=0;
  int elem_variants=0;    // use all legal element segment encodings
  int extconst=0;         // extended constant expressions
  int zero_init=1;        // may read locals before writing them
  int growmem_pages=4;
  int nanconst_pct=5;
  int builtin_pct=0;
  int customs_pct=0;
  int initall=0;          // write every local at function entry (so that zero-init is irrelevant)
  int calli_idx_expr=50;
  int hugemem_pct=0,native_pct=0; // 4 GB host memories; pwart_builtin.native_memory
  int host_acts_pct=0;    // host writes between calls
  int nmods_max=1;        // linked modules
  int hostwrite_pct=10;   // host functions that write host memories and globals
  int names=0;            // odd module and export names
};
struct HostFn{FuncType ft;int kind=0;/*0 hash,1 callback into wasm,2 writes host memories and globals*/u32 cbFunc=0;};
struct HostMem{u32 pages=1,max=1;bool fixed=false,is64=false,native=false,huge=false;vector<u8> init;};
struct HostTab{u32 size=0;VT et=FUNCREF;vector<int> init;/*host fn index or -1 / extern value*/};
struct HostGlob{VT t=I32;bool mut=false;u64 v=0;};
struct ActArg{VT t;u64 v=0;int finst=-1,ffunc=-1;};
struct Action{int kind=0;/*0 call,1 host memory write,2 host global write,3 host table write*/ int inst=0;u32 func=0;vector<u64> args; u32 obj=0;u64 addr=0;u64 val=0;};
struct Case{
  vector<Module> mods;vector<string> names;vector<HostFn> hf;vector<HostMem> hm;vector<HostTab> ht;vector<HostGlob> hg;
  vector<Action> acts;int stack_flags=0,misc_flags=3;int pad=0;u64 seed=0;int loadmode=0;/*env: 0 host module,1 symbol resolver without namespace,2 named module,3 symbol list*/u64 poison=0;int spoff=0;vector<string> decoys,absent;
  string profile;
};
u64 constOf(Rng&r,VT t,int nanpct);
FuncType randType(Rng&r,const Prof&p,bool refs);
void genCase(Rng&r,const Prof&p,Case&c);
struct FG; // function generator
Prof profileFor(const string&name,Rng&r);
void genSpecial(const string&profile,Rng&r,u64 n,Case&c,bool&done); // systematic / dedicated generators
