#include "gen.h"
// Per-property workload emphasis. Every profile also randomises its own knobs per case.
Prof profileFor(const string&n,Rng&r){
  Prof p;
  p.depth=r.range(2,6);p.body_stmts=r.range(1,8);p.interleave=r.below(25);
  if(r.chance(30))p.float_pct=r.below(101);
  if(r.chance(15))p.s_pressure=20;
  p.start_pct=5;p.host_acts_pct=8;
  if(n=="generic")return p;
  if(n=="C01"){p.e_num=70;p.e_call=2;p.nf_max=2;p.s_store=10;p.types_ref_pct=0;p.dead_pct=3;p.nanconst_pct=4;}
  else if(n=="C02"){p.many_pct=8;p.deepblock_pct=6;p.s_block=8;p.e_const=50;p.pad_pct=70;p.types_ref_pct=15;p.depth=r.range(2,4);p.extconst=1;p.customs_pct=20;p.nglob_max=10;p.datas=3;}
  else if(n=="C03"){p.interleave=r.range(20,60);p.s_lset=30;p.e_tee=15;p.s_pressure=r.range(2,25);p.e_lget=40;p.s_gset=10;p.s_store=10;p.s_call=8;p.s_mgrow=1;p.dead_pct=2;p.maxstack=25;}
  else if(n=="C04"){p.deepblock_pct=3;p.e_block=10;p.e_loop=6;p.e_if=14;p.s_block=12;p.s_loop=10;p.s_if=14;p.s_brif=14;p.s_brtable=8;p.s_retif=5;p.dead_pct=r.range(5,35);p.depth=r.range(3,7);p.e_select=10;p.float_pct=25;}
  else if(n=="C05"){p.many_pct=4;p.nf_min=2;p.nf_max=8;p.e_call=24;p.s_call=16;p.e_calli=12;p.s_calli=8;p.params_max=10;p.bigparams_pct=15;p.results_max=8;p.recur_pct=30;p.nhost_max=5;p.types_ref_pct=20;p.depth=r.range(2,4);}
  else if(n=="C06"){p.nf_min=2;p.nf_max=8;p.tail_pct=80;p.params_max=10;p.bigparams_pct=15;p.recur_pct=30;p.results_max=3;p.depth=r.range(1,4);p.nhost_max=3;}
  else if(n=="C07"){p.locals_max=r.chance(30)?60:16;p.biglocals_pct=15;p.e_lget=50;p.s_lset=30;p.depth=r.range(2,4);p.s_if=10;p.s_loop=6;p.types_ref_pct=25;p.bigparams_pct=10;}
  else if(n=="C08"){p.many_pct=2;p.e_load=40;p.s_store=40;p.nmem_max=4;p.mem64_pct=25;p.bigmem_pct=15;p.s_mgrow=0;p.types_ref_pct=0;p.depth=r.range(2,5);if(r.chance(20))p.hugemem_pct=40;if(r.chance(25))p.native_pct=40;p.host_acts_pct=15;}
  else if(n=="C09"){p.many_pct=2;p.e_mgrow=8;p.s_mgrow=14;p.e_msize=12;p.e_load=12;p.s_store=16;p.nmem_max=3;p.mem_fixed_pct=30;p.mem_import_pct=35;p.types_ref_pct=0;p.depth=r.range(2,4);p.actions_max=8;p.nf_max=3;p.interleave=15;p.mem64_pct=10;if(r.chance(8))p.hugemem_pct=40;if(r.chance(25))p.nmods_max=3;p.host_acts_pct=10;}
  else if(n=="C10"){p.many_pct=5;p.s_mfill=25;p.s_mcopy=30;p.nmem_max=4;p.mem64_pct=15;p.datas=6;p.bigmem_pct=10;p.depth=r.range(2,4);p.types_ref_pct=0;p.extconst=1;if(r.chance(10))p.hugemem_pct=40;if(r.chance(15))p.native_pct=40;}
  else if(n=="C11"){p.extconst=r.chance(50);p.many_pct=6;p.types_ref_pct=95;p.ntab_max=4;p.s_tset=20;p.s_tfill=10;p.s_tcopy=10;p.e_tget=12;p.e_tsize=5;p.e_ref=10;p.e_calli=12;p.s_calli=8;p.elem_variants=1;p.nf_max=6;p.depth=r.range(2,4);p.params_max=4;if(r.chance(20))p.nmods_max=3;p.host_acts_pct=20;}
  else if(n=="C12"){p.many_pct=4;p.nglob_max=24;p.s_gset=40;p.e_gget=40;p.types_ref_pct=25;p.extconst=1;p.glob_import_pct=r.range(0,60);p.depth=r.range(2,4);p.nanconst_pct=8;if(r.chance(25))p.nmods_max=3;p.host_acts_pct=25;p.hostwrite_pct=25;}
  else if(n=="C13"){p.nhost_max=6;p.e_call=25;p.s_call=25;p.params_max=12;p.bigparams_pct=20;p.results_max=10;p.types_ref_pct=25;p.depth=r.range(1,3);p.actions_max=6;}
  else if(n=="C14"){p.customs_pct=10;p.nmods_max=5;p.names=1;p.start_pct=30;p.nf_min=0;p.nf_max=4;p.nglob_max=6;p.nmem_max=3;p.ntab_max=3;p.glob_import_pct=15;p.mem_import_pct=15;p.tab_import_pct=15;p.nhost_max=3;p.types_ref_pct=40;p.s_gset=15;p.e_gget=15;p.s_store=15;p.e_load=12;p.e_call=12;p.s_call=10;p.e_calli=6;p.s_calli=5;p.s_tset=5;p.s_tcopy=2;p.s_mgrow=3;p.e_msize=3;p.depth=r.range(2,4);p.body_stmts=r.range(1,4);p.actions_max=8;p.host_acts_pct=20;p.hostwrite_pct=15;p.extconst=1;p.mem64_pct=10;p.elem_variants=1;}
  else if(n=="C17"){p.initall=1;p.nmem_max=2;p.s_call=8;}
  return p;
}
