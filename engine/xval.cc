// Cross-validation of the reference interpreter: writes cases and what the interpreter did with them, for
// tools/xval.js to repeat in V8. Not part of any check; see DESIGN.md.
#include "run.h"
#include <algorithm>
static u64 strh(const string&s){u64 h=1469598103934665603ull;for(char c:s)h=(h^(u8)c)*1099511628211ull;return h;}
static string hex(u64 v){char b[32];snprintf(b,32,"\"%llx\"",(unsigned long long)v);return b;}
static string b64(const vector<u8>&v){static const char*A="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";string o="\"";size_t i=0;for(;i+2<v.size();i+=3){u32 x=v[i]<<16|v[i+1]<<8|v[i+2];o+=A[x>>18];o+=A[x>>12&63];o+=A[x>>6&63];o+=A[x&63];}
  if(i<v.size()){u32 x=v[i]<<16|(i+1<v.size()?v[i+1]<<8:0);o+=A[x>>18];o+=A[x>>12&63];o+=i+1<v.size()?A[x>>6&63]:'=';o+='=';}return o+"\"";}
static string str(const string&s){string o="\"";char b[8];for(u8 c:s)if(c<0x20||c=='"'||c=='\\'||c>=0x7f){return "";}else o+=c;(void)b;return o+"\"";}
static u64 canon(VT t,u64 v){if(t==F32){v=(u32)v;return isnan32(v)?0x7fc00000:v;}if(t==F64)return isnan64(v)?0x7ff8000000000000ull:v;if(t==I32)return (u32)v;if(t==FUNCREF)return v?1:0;return v;}
static string vts(const vector<VT>&v){string o="[";for(size_t i=0;i<v.size();i++)o+=(i?",":"")+string("\"")+vname(v[i])+"\"";return o+"]";}
struct HC{int slot;vector<V> a,r;};static vector<HC> hcs;static u64 hcn;static Case*CC;
static void host(Store&s,int slot,const vector<V>&a,vector<V>&res){
  auto&ft=CC->hf[slot].ft;u64 h=slot*77+(hcn++)*1315423911ull;for(size_t i=0;i<a.size();i++)h=h*1000003+canon(ft.p[i],a[i].v);
  res.clear();for(size_t i=0;i<ft.r.size();i++){V v;Rng r(h+i*7);VT t=ft.r[i];if(t==FUNCREF){v.v=0;for(size_t k=0;k<ft.p.size();k++)if(ft.p[k]==FUNCREF)v.v=a[k].v;}else if(t==EXTERNREF)v.v=r.below(9999)+1;else v.v=constOf(r,t,0);res.push_back(v);}
  hcs.push_back({slot,a,res});(void)s;}
static u32 fnv(const u8*p,size_t n){u32 h=2166136261u;for(size_t i=0;i<n;i++)h=(h^p[i])*16777619u;return h;}
static bool has(const Code&c,u16 op){for(auto&i:c)if(i.op==op)return true;return false;}
static string one(Case&c){
  CC=&c;hcn=0;if(c.ht.size())for(auto&h:c.ht)if(h.et==FUNCREF)for(int x:h.init)if(x>=0)return "";
  for(auto&h:c.hm)if(h.fixed||h.huge||h.native||h.is64)return "";
  for(auto&m:c.mods){m.start=-1;for(auto&i:m.imports)if(i.mod=="pwart_builtin"||i.is64)return "";for(auto&x:m.mems)if(x.is64)return "";for(auto&f:m.funcs)if(has(f.body,OP_TGROW))return "";}
  Store st;st.host=host;vector<FuncObj*> hf;vector<MemObj*> hm;vector<TabObj*> ht;vector<GlobObj*> hg;
  string j="{\"hf\":[";
  for(size_t i=0;i<c.hf.size();i++){FuncObj*f=st.newFunc();f->host=i;f->ft=c.hf[i].ft;hf.push_back(f);j+=(i?",":"")+string("[")+vts(f->ft.p)+","+vts(f->ft.r)+"]";}
  j+="],\"hm\":[";for(auto&h:c.hm){MemObj*m=st.newMem();m->pages=h.pages;m->max=h.max;m->b.assign((size_t)h.pages*65536,0);memcpy(m->b.data(),h.init.data(),h.init.size());j+=(hm.size()?",":"")+string("{\"n\":")+std::to_string(h.pages)+",\"x\":"+std::to_string(h.max)+",\"b\":"+b64(h.init)+"}";hm.push_back(m);}
  j+="],\"ht\":[";for(auto&h:c.ht){TabObj*t=st.newTab();t->et=h.et;t->e.assign(h.size,0);j+=(ht.size()?",":"")+string("{\"e\":\"")+vname(h.et)+"\",\"n\":"+std::to_string(h.size)+",\"v\":[";for(u32 i=0;i<h.size&&i<h.init.size();i++){t->e[i]=h.et==FUNCREF?0:(u64)h.init[i];j+=(i?",":"")+hex(t->e[i]);}j+="]}";ht.push_back(t);}
  j+="],\"hg\":[";for(auto&h:c.hg){GlobObj*g=st.newGlob();g->t=h.t;g->mut=h.mut;if(h.t==FUNCREF&&h.v)return "";g->v.v=h.v=h.t==FUNCREF||h.t==EXTERNREF?h.v:canon(h.t,h.v);j+=(hg.size()?",":"")+string("[\"")+vname(h.t)+"\","+(h.mut?"true":"false")+","+hex(h.v)+"]";hg.push_back(g);}
  j+="],\"m\":[";vector<Instance*> inst;Rng er(c.seed^0xabcdef);
  for(size_t k=0;k<c.mods.size();k++){Module&m=c.mods[k];vector<FuncObj*> f;vector<MemObj*> me;vector<TabObj*> t;vector<GlobObj*> g;
    for(auto&i:m.imports){
      if(i.mod=="env"){int ix=atoi(i.field.c_str()+1);switch(i.kind){case 0:f.push_back(hf.at(ix));break;case 1:t.push_back(ht.at(ix));break;case 2:me.push_back(hm.at(ix));break;case 3:g.push_back(hg.at(ix));break;}continue;}
      bool ok=false;for(size_t q=0;q<k&&!ok;q++)if(c.names[q]==i.mod)for(auto&x:c.mods[q].exports)if(x.name==i.field&&x.kind==i.kind){ok=true;Instance*n=inst[q];switch(i.kind){case 0:f.push_back(n->funcs.at(x.idx));break;case 1:t.push_back(n->tabs.at(x.idx));break;case 2:me.push_back(n->mems.at(x.idx));break;case 3:g.push_back(n->globs.at(x.idx));break;}break;}
      if(!ok)return "";}
    string nm=str(c.names[k]);if(nm.empty())return "";
    try{inst.push_back(st.instantiate(&m,f,me,t,g));}catch(Trap&){return "";}
    j+=(k?",":"")+string("[")+nm+","+b64(encode(m,c.pad,&er))+"]";}
  j+="],\"a\":[";
  auto state=[&]{string s="[";bool first=true;for(size_t k=0;k<c.mods.size();k++)for(auto&x:c.mods[k].exports){string n=str(x.name);if(n.empty())continue;string e;
      if(x.kind==2){MemObj*m=inst[k]->mems[x.idx];e="\"m\","+std::to_string(k)+","+n+","+std::to_string(m->pages)+","+std::to_string(fnv(m->ptr(),m->size()));}
      else if(x.kind==1){TabObj*t=inst[k]->tabs[x.idx];e="\"t\","+std::to_string(k)+","+n+",[";for(size_t i=0;i<t->e.size();i++)e+=(i?",":"")+hex(canon(t->et,t->e[i]));e+="]";}
      else if(x.kind==3){GlobObj*g=inst[k]->globs[x.idx];e="\"g\","+std::to_string(k)+","+n+",\""+vname(g->t)+"\","+hex(canon(g->t,g->v.v));}
      else continue;
      s+=(first?"":",")+string("[")+e+"]";first=false;}return s+"]";};
  auto nameOf=[&](int k,int kind,u32 idx){for(auto&x:c.mods[k].exports)if(x.kind==kind&&x.idx==idx){string s=str(x.name);if(s.size())return s;}return string();};
  j+="{\"k\":-1,\"s\":"+state()+"}";
  for(auto&a:c.acts){if(a.inst>=(int)inst.size())continue;Instance*in=inst[a.inst];string pre=",{\"k\":"+std::to_string(a.kind)+",\"i\":"+std::to_string(a.inst);
    if(a.kind==1){if(a.obj>=in->mems.size())continue;MemObj*m=in->mems[a.obj];if(a.addr+8>m->size())continue;string n=nameOf(a.inst,2,a.obj);if(n.empty())continue;memcpy(m->ptr()+a.addr,&a.val,8);j+=pre+",\"n\":"+n+",\"p\":"+std::to_string(a.addr)+",\"v\":"+hex(a.val)+"}";continue;}
    if(a.kind==2){if(a.obj>=in->globs.size())continue;GlobObj*g=in->globs[a.obj];if(!g->mut||isref(g->t))continue;string n=nameOf(a.inst,3,a.obj);if(n.empty())continue;g->v.v=canon(g->t,vsize(g->t)==4?(u32)a.val:a.val);g->v.t=false;j+=pre+",\"n\":"+n+",\"t\":\""+vname(g->t)+"\",\"v\":"+hex(g->v.v)+"}";continue;}
    if(a.kind==3){if(a.obj>=in->tabs.size())continue;TabObj*t=in->tabs[a.obj];if(t->e.empty()||t->et!=FUNCREF||in->funcs.empty())continue;u32 fi=a.val%in->funcs.size();string n=nameOf(a.inst,1,a.obj),fn=nameOf(a.inst,0,fi);if(n.empty()||fn.empty())continue;u64 i=a.addr%t->e.size();t->e[i]=(u64)in->funcs[fi];j+=pre+",\"n\":"+n+",\"p\":"+std::to_string(i)+",\"f\":"+fn+"}";continue;}
    if(a.func>=in->funcs.size())continue;FuncObj*f=in->funcs[a.func];string fn=nameOf(a.inst,0,a.func);if(fn.empty())continue;
    vector<V> args;string as="[";for(size_t i=0;i<f->ft.p.size();i++){V v;v.v=i<a.args.size()?a.args[i]:0;VT t=f->ft.p[i];if(t==FUNCREF)v.v=0;else v.v=canon(t,vsize(t)==4?(u32)v.v:v.v);as+=(i?",":"")+hex(v.v);args.push_back(v);}
    vector<V> res;hcs.clear();st.steps=0;try{st.call(f,args,res);}catch(Trap&){break;}
    j+=pre+",\"n\":"+fn+",\"pt\":"+vts(f->ft.p)+",\"a\":"+as+"],\"rt\":"+vts(f->ft.r)+",\"r\":[";for(size_t i=0;i<res.size();i++)j+=(i?",":"")+hex(canon(f->ft.r[i],res[i].v));
    j+="],\"h\":[";for(size_t i=0;i<hcs.size();i++){auto&h=hcs[i];auto&ft=c.hf[h.slot].ft;j+=(i?",":"")+string("[")+std::to_string(h.slot)+",[";for(size_t k=0;k<h.a.size();k++)j+=(k?",":"")+hex(canon(ft.p[k],h.a[k].v));j+="],[";
      for(size_t k=0;k<h.r.size();k++){int same=-1;if(ft.r[k]==FUNCREF)for(size_t z=0;z<ft.p.size();z++)if(ft.p[z]==FUNCREF)same=z;j+=(k?",":"")+(ft.r[k]==FUNCREF?"\"#"+std::to_string(same)+"\"":hex(h.r[k].v));}j+="]]";}
    j+="],\"s\":"+state()+"}";if(j.size()>4000000)return "";}
  return j+"]}";}
int main(int argc,char**argv){
  string prof=argv[1];u64 seed=strtoull(argv[2],0,0),n=strtoull(argv[3],0,0);
  for(u64 i=0;i<n;i++){Case c;Rng r(seed*1000003ull+strh(prof)+i*0x9E3779B97F4A7C15ull);c.seed=r.next();c.profile=prof;bool done=false;genSpecial(prof,r,i,c,done);if(!done){Prof p=profileFor(prof,r);genCase(r,p,c);}
    for(auto&h:c.hf)h.kind=0;string s=one(c);if(s.size())printf("%llu %s\n",(unsigned long long)i,s.c_str());}
}
