// C27: random patterns, flags, subjects and chunkings against a reference matcher that works on the pattern's syntax tree.
#include "hx.h"
#include "hxalloc.h"
extern "C"{
#include <sljitLir.h>
#include "regexJIT.h"
}
static hx::Counter cPat("patterns_compiled"),cBadPat("malformed_patterns_offered"),cSoup("random_byte_patterns"),cSoupOk("random_byte_patterns_accepted"),cSub("subjects"),cChunk("chunks_fed"),cRes("results_compared"),cHit("results_with_a_match"),cMiss("results_without_a_match"),cEmpty("empty_matches"),cIdR("matches_with_an_identifier"),cReset("matches_reset_and_reused"),cFin("finished_early"),cFail("allocation_failures_injected"),cRefused("compilations_failed_by_them"),cTwo("matches_interleaved_on_one_machine"),
  cFB("flag_begin"),cFE("flag_end"),cFN("flag_newline"),cFG("flag_non_greedy"),cHigh("patterns_with_bytes_above_127"),cRep("bounded_repetitions"),cId("identifiers_in_patterns"),cCls("character_classes"),cAlt("alternations");
// ---- syntax tree
struct Nd{int k;/*0 char 1 dot 2 class 3 seq 4 alt 5 repeat 6 id 7 group*/ int c=0;bool inv=false;bool set[256];vector<Nd*> s;int lo=0,hi=0;/*hi -1: no limit*/string text;};
struct Gen{Rng&r;vector<Nd*> all;int budget=0;bool nl;string alpha;bool high=false;
  Gen(Rng&q,bool n):r(q),nl(n){}
  ~Gen(){for(auto*x:all)delete x;}
  Nd*mk(int k){Nd*n=new Nd;n->k=k;memset(n->set,0,256);all.push_back(n);return n;}
  int ch(){if(r.chance(4)){int c=r.below(256);if(c>127)high=true;return c;}int c=(u8)alpha[r.below(alpha.size())];if(c>127)high=true;return c;}
  static string lit(int c,Rng&r,bool force=false){string o;if(strchr("\\.()|*?+{[$^",c)&&c)force=true;if(force||r.chance(3))o+='\\';o+=(char)c;return o;}
  Nd*cls(){Nd*n=mk(2);cCls++;n->inv=r.chance(30);string&t=n->text;t="[";if(n->inv)t+='^';int k=r.chance(20)?r.range(5,14):r.range(1,4);bool first=true;
    if(r.chance(8)){t+=']';n->set[(int)']']=true;first=false;}
    for(int i=0;i<k;i++){auto put=[&](int c){if(c=='\\'||c==']'||c=='-'||(first&&c=='^')||r.chance(4))t+='\\';t+=(char)c;first=false;};
      if(r.chance(35)){int a=ch(),b=r.chance(60)?std::min(255,a+(int)r.below(r.chance(70)?5:100)):ch();if(b>127)high=true;bool sw=r.chance(20);put(sw?b:a);t+='-';put(sw?a:b);for(int c=std::min(a,b);c<=std::max(a,b);c++)n->set[c]=true;}
      else{int a=ch();put(a);n->set[a]=true;}}
    if(r.chance(6)){t+='-';n->set[(int)'-']=true;}
    t+=']';return n;}
  Nd*atom(int d){int k=r.below(100);
    if(k<50||d<=0){Nd*n=mk(0);n->c=ch();n->text=lit(n->c,r);return n;}
    if(k<51){Nd*c=mk(0);c->c='{';Nd*n=mk(5);n->s.push_back(c);n->lo=0;n->hi=-1;n->text="{*";return n;} // not a repetition: an ordinary character
    if(k<58){Nd*n=mk(1);n->text=".";return n;}
    if(k<72)return cls();
    Nd*n=mk(7);Nd*b=alt(d-1);n->s.push_back(b);n->text="("+b->text+")";return n;}
  long size(Nd*n){switch(n->k){case 0:case 1:return 1;case 2:return 2;case 3:case 4:case 7:{long t=1;for(auto*x:n->s)t+=size(x);return t;}case 5:return size(n->s[0])*std::max(1,n->hi<0?n->lo+1:n->hi)+2;default:return 1;}}
  Nd*rep(Nd*a){Nd*n=mk(5);n->s.push_back(a);int k=r.below(100);long sz=size(a);string t;
    if(k<22){n->lo=0;n->hi=-1;t="*";}else if(k<44){n->lo=1;n->hi=-1;t="+";}else if(k<64){n->lo=0;n->hi=1;t="?";}
    else{cRep++;int cap=sz>60?1:sz>12?3:7;int lo=r.below(cap+1),hi=lo+r.below(cap-lo+2);auto num=[&](int v){string o;if(r.chance(15))o=string(r.range(1,3),'0');return o+std::to_string(v);};
      switch(r.below(5)){case 0:n->lo=n->hi=lo;t="{"+num(lo)+"}";break;case 1:n->lo=lo;n->hi=-1;t="{"+num(lo)+",}";break;case 2:n->lo=0;n->hi=hi;t="{,"+num(hi)+"}";break;case 3:n->lo=0;n->hi=-1;t="{,}";break;
        default:n->lo=lo;n->hi=hi;t="{"+num(lo)+","+num(hi)+"}";}}
    n->text=a->text+t;return n;}
  Nd*id(){Nd*n=mk(6);cId++;n->c=r.chance(10)?0:r.chance(90)?r.range(1,5):r.range(1,2000000);n->text="{"+string(r.chance(10)?"00":"")+std::to_string(n->c)+"!}";return n;}
  Nd*seq(int d){Nd*n=mk(3);int k=r.chance(8)?0:r.range(1,4);if(r.chance(8)){Nd*i=id();n->s.push_back(i);n->text+=i->text;}
    for(int i=0;i<k&&budget<400;i++){Nd*a=atom(d);
      int tries=0;while(r.chance(tries?18:38)&&tries<3&&budget+size(a)<400){
        if(r.chance(15)){Nd*q=mk(3);Nd*i2=id();q->s={a,i2};q->text=a->text+i2->text;a=q;} // an identifier belongs to the term an operator after it repeats
        a=rep(a);tries++;}
      budget+=size(a);n->s.push_back(a);n->text+=a->text;if(r.chance(8)){Nd*x=id();n->s.push_back(x);n->text+=x->text;}}
    return n;}
  Nd*alt(int d){Nd*n=mk(4);int k=r.chance(70)?1:r.range(2,4);if(k>1)cAlt++;for(int i=0;i<k;i++){Nd*s=seq(d);n->s.push_back(s);n->text+=(i?"|":"")+s->text;}return n;}
  // a string the tree matches (mostly)
  void sample(Nd*n,string&o){if(o.size()>60)return;switch(n->k){case 0:o+=(char)n->c;break;case 1:{int c=ch();o+=(char)c;break;}
    case 2:{vector<int> v;for(int c=0;c<256;c++)if(n->set[c]!=n->inv)v.push_back(c);if(v.size()){int c=n->inv?ch():r.pick(v);if(n->set[c]==n->inv)c=r.pick(v);o+=(char)c;}break;}
    case 3:for(auto*x:n->s)sample(x,o);break;case 4:sample(n->s[r.below(n->s.size())],o);break;case 7:sample(n->s[0],o);break;
    case 5:{int hi=n->hi<0?n->lo+3:n->hi;int k=n->lo+r.below(hi-n->lo+1);for(int i=0;i<k;i++)sample(n->s[0],o);break;}}}
};
// ---- reference: the ends reachable from a set of positions, each with the greatest identifier
typedef std::map<int,int> Pm;
static void up(Pm&m,int p,int id){auto it=m.find(p);if(it==m.end()||it->second<id)m[p]=id;}
static Pm ref(Nd*n,const Pm&in,const string&s,bool nl){Pm o;switch(n->k){
  case 0:for(auto&x:in)if(x.first<(int)s.size()&&(u8)s[x.first]==n->c)up(o,x.first+1,x.second);return o;
  case 1:for(auto&x:in)if(x.first<(int)s.size()&&!(nl&&(s[x.first]=='\n'||s[x.first]=='\r')))up(o,x.first+1,x.second);return o;
  case 2:for(auto&x:in)if(x.first<(int)s.size()&&n->set[(u8)s[x.first]]!=n->inv)up(o,x.first+1,x.second);return o;
  case 3:{o=in;for(auto*c:n->s){o=ref(c,o,s,nl);if(o.empty())break;}return o;}
  case 4:for(auto*c:n->s){Pm q=ref(c,in,s,nl);for(auto&x:q)up(o,x.first,x.second);}return o;
  case 7:return ref(n->s[0],in,s,nl);
  case 6:for(auto&x:in)up(o,x.first,std::max(x.second,n->c));return o;
  case 5:{if(n->hi==0)return in;Pm cur=in;for(int i=0;i<n->lo;i++)cur=ref(n->s[0],cur,s,nl);o=cur;
    for(int i=n->lo;n->hi<0||i<n->hi;i++){cur=ref(n->s[0],cur,s,nl);bool ch=false;for(auto&x:cur){auto it=o.find(x.first);if(it==o.end()||it->second<x.second){o[x.first]=x.second;ch=true;}}if(!ch)break;}return o;}}
  return o;}
struct Res{int b,e,id;};
static Res expect(Nd*n,const string&s,int fl){bool B=fl&REGEX_MATCH_BEGIN,E=fl&REGEX_MATCH_END,N=fl&REGEX_NEWLINE,G=fl&REGEX_MATCH_NON_GREEDY;auto isnl=[&](int i){return s[i]=='\n'||s[i]=='\r';};
  for(int b=0;b<=(int)s.size();b++){if(B&&b>0&&!(N&&isnl(b-1)))continue;Pm i;i[b]=0;Pm o=ref(n,i,s,N);int best=-1;
    for(auto&x:o){if(E&&x.first<(int)s.size()&&!(N&&isnl(x.first)))continue;if(best<0||!G)best=x.first;}
    if(best>=0)return{b,best,o[best]};}
  return{-1,0,0};}
// ---- feeding: every chunk ends at an inaccessible page
static u8*page;static size_t PG;
static const char*place(const char*p,int n){memset(page,0x5a,64);memcpy(page+PG*4-n,p,n);return (const char*)page+PG*4-n;}
typedef void(*Cont)(struct regex_match*,const char*,u64);
static string vis(const string&s){string o;for(unsigned char c:s){if(c<32||c>126||c=='"')o+=sfmt("\\x%02x",c);else o+=(char)c;}return o;}
static string compare(struct regex_match*m,Nd*n,const string&pre,int fl,const char*when){int e=-7,id=-7;int b=regex_get_result(m,&e,&id);Res x=expect(n,pre,fl);cRes++;
  if(x.b<0)cMiss++;else{cHit++;if(x.b==x.e)cEmpty++;if(x.id)cIdR++;}
  if(b!=x.b||(b>=0&&(e!=x.e||id!=x.id)))return sfmt("%s: after \"%s\" the matcher says %d..%d id %d, expected %d..%d id %d",when,vis(pre).c_str(),b,e,id,x.b,x.e,x.id);
  return "";}
void hxInit(){PG=sysconf(_SC_PAGESIZE);page=(u8*)mmap(0,PG*5,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);mprotect(page+PG*4,PG,PROT_NONE);}
static string feed(struct regex_match*m,const string&s,int off,int n,Rng&r){cChunk++;const char*p=place(s.data()+off,n);
  u64 len=(u32)n;if(r.chance(20))len|=(u64)(u32)r.next()<<32; // the upper half of an int argument's register is not defined
  ((Cont)regex_continue_match)(m,p,len);return "";}
static string runOneIn(Rng&r,u64*sig){
  int fl=0;if(r.chance(25))fl|=REGEX_NEWLINE;Gen g(r,fl&REGEX_NEWLINE);
  switch(r.below(5)){case 0:g.alpha="ab";break;case 1:g.alpha="abc\n";break;case 2:g.alpha="abcxyz019_-]}^$,!";break;case 3:g.alpha=string("ab\xe4\x80\xff\x7f\x01",7);break;default:g.alpha="abcd\r\n ";}
  if(fl&REGEX_NEWLINE&&r.chance(60))g.alpha+="\n\r";
  if(r.chance(6)){ // random bytes: any outcome, but consistent and safe
    string p;const char*tok[]={"(",")","|","*","+","?","{","}","[","]","^","$","\\",",","!","a","b","1","2","-",".","{1!}","{2,3}","{,}","a{3}","(a|b)","[a-c]"};int n=r.below(14);for(int i=0;i<n;i++)if(r.chance(95))p+=tok[r.below(27)];else p+=(char)r.next();
    cSoup++;hx::note("random bytes \"%s\" flags %d",vis(p).c_str(),fl);fl|=r.below(16)&~4;int err=-1;const char*pp=place(p.data(),p.size());HxAllocStats a=hxStats();auto*m=regex_compile(pp,p.size(),fl,&err);HxAllocStats b=hxStats();
    if(!m){if(err!=REGEX_INVALID_REGEX&&err!=REGEX_MEMORY_ERROR)return sfmt("no machine, but error %d",err);if(a.blocks!=b.blocks)return sfmt("a rejected pattern leaves %ld block(s)",b.blocks-a.blocks);return "";}
    cSoupOk++;if(err)return sfmt("a machine and error %d",err);auto*mt=regex_begin_match(m);if(!mt)return "no match";string s;int k=r.below(30);for(int i=0;i<k;i++)s+=r.pick(vector<char>{'a','b','1','{','}','c','\n','(','*'});
    for(int o=0;o<k;){int c=1+r.below(k-o);feed(mt,s,o,c,r);o+=c;}int e=-7,id;int bb=regex_get_result(mt,&e,&id);regex_free_match(mt);regex_free_machine(m);
    if(bb<-1||bb>k||(bb>=0&&(e<bb||e>k)))return sfmt("the match %d..%d does not lie in the subject of %d",bb,e,k);return "";}
  bool caret=r.chance(20),dollar=r.chance(20);
  Nd*n=g.alt(r.range(0,3));string pat=(caret?"^":"")+n->text+(dollar?"$":"");int cf=fl;if(r.chance(15))cf|=REGEX_MATCH_BEGIN;if(r.chance(15))cf|=REGEX_MATCH_END;if(r.chance(25))cf|=REGEX_MATCH_NON_GREEDY;
  fl=cf|(caret?REGEX_MATCH_BEGIN:0)|(dollar?REGEX_MATCH_END:0);
  if(g.high)cHigh++;if(fl&1)cFB++;if(fl&2)cFE++;if(fl&4)cFN++;if(fl&8)cFG++;
  hx::note("pattern \"%s\" flags %d (begin %d end %d newline %d non-greedy %d)",vis(pat).c_str(),cf,!!(fl&1),!!(fl&2),!!(fl&4),!!(fl&8));*sig=hx::hashBytes(pat.data(),pat.size(),*sig+fl);
  if(r.chance(8)){ // malformed on purpose
    string q;switch(r.below(6)){case 0:q=n->text+"\\";break;case 1:q=")"+n->text;break;case 2:q=n->text+"(";break;case 3:q=n->text+"[a";break;case 4:{const char*it[]={"*","+","?"};q=(r.chance(50)?string("("):n->text+"|")+it[r.below(3)]+"a";if(q[0]=='(')q+=")";break;}default:q="("+n->text+")a)";}
    cBadPat++;int err=-1;const char*pp=place(q.data(),std::min(q.size(),PG*4));auto*m=regex_compile(pp,q.size(),cf,&err);if(m)return sfmt("the malformed pattern \"%s\" is accepted",vis(q).c_str());if(err!=REGEX_INVALID_REGEX)return sfmt("the malformed pattern \"%s\" gives error %d",vis(q).c_str(),err);
    if(regex_compile(pp,q.size(),cf,NULL))return "accepted without an error variable";return "";}
  if(pat.size()>PG*3)return "";
  const char*pp=place(pat.data(),pat.size());int err=-1;
  if(r.chance(5)){int k=0;for(;;k+=1+r.below(4)){HxAllocStats a=hxStats();hxFailAfter(k);cFail++;auto*m=regex_compile(pp,pat.size(),cf,&err);hxFailAfter(-1);if(m){if(err)return "a machine and an error";regex_free_machine(m);break;}
      cRefused++;if(err!=REGEX_MEMORY_ERROR)return sfmt("with allocation %d refused the error is %d",k,err);HxAllocStats b=hxStats();if(a.blocks!=b.blocks)return sfmt("with allocation %d refused, %ld block(s) are left: %s",k,b.blocks-a.blocks,hxLive().c_str());if(k>60)break;}}
  err=-1;auto*m=regex_compile(pp,pat.size(),cf,r.chance(90)?&err:NULL);if(!m)return sfmt("the pattern is refused with error %d",err);if(err>0)return "a machine and an error";cPat++;memset(page,0x7e,PG*4);
  auto*mt=regex_begin_match(m);struct regex_match*m2=r.chance(25)?regex_begin_match(m):nullptr;string e;if(!mt)e="no match object";
  int rounds=r.range(1,4);
  for(int q=0;q<rounds&&e.empty();q++){if(q){regex_reset_match(mt);cReset++;}
    string s;int k=r.below(5);for(int i=0;i<k;i++){if(r.chance(60))g.sample(n,s);int x=r.below(3);for(int j=0;j<x;j++)s+=(char)g.ch();if(fl&REGEX_NEWLINE&&r.chance(30))s+=r.chance(50)?'\n':'\r';}
    if(s.size()>70)s.resize(70);cSub++;*sig=hx::hashBytes(s.data(),s.size(),*sig);
    if(r.chance(30)||s.empty())e=compare(mt,n,"",fl,"at the start");
    bool whole=r.chance(30);string s2;int o2=0;if(m2){g.sample(n,s2);if(s2.size()>40)s2.resize(40);regex_reset_match(m2);cTwo++;}
    int stop=r.chance(15)?r.below(s.size()+1):(int)s.size(); // sometimes given up half-way and reset
    for(int o=0;o<stop&&e.empty();){int c=whole?stop-o:std::min<int>(stop-o,r.chance(50)?1:r.below(8));e=feed(mt,s,o,c,r);o+=c;
      if(e.empty()&&(o==(int)s.size()||r.chance(40))){e=compare(mt,n,s.substr(0,o),fl,"chunked");}
      if(m2&&o2<(int)s2.size()&&e.empty()){int c2=1+r.below(s2.size()-o2);feed(m2,s2,o2,c2,r);o2+=c2;e=compare(m2,n,s2.substr(0,o2),fl,"second match on the machine");}
      if(regex_is_match_finished(mt)){cFin++;if(e.empty())e=compare(mt,n,s,fl,"declared finished, whole subject");}
    }}
  if(m2)regex_free_match(m2);if(mt)regex_free_match(mt);regex_free_machine(m);return e;}
string runOne(u64 seed,u64 idx){Rng r(hx::mix(seed,idx));HxAllocStats a=hxStats();u64 sig=1;string e=runOneIn(r,&sig);string hb=hxTakeBad();if(e.empty()&&hb.size())e=hb;
  HxAllocStats b=hxStats();if(e.empty()&&a.blocks!=b.blocks)e=sfmt("%ld block(s) left after freeing everything: %s",b.blocks-a.blocks,hxLive().c_str());
  if(e.empty()&&sig!=1)hx::nontrivial(sig);return e;}
HX_MAIN("rgx")
