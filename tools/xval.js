// Repeats in V8 the cases written by engine/xval.cc (stdin) and compares with the interpreter.
// usage: xval PROFILE SEED N | node --experimental-wasm-multi-memory --experimental-wasm-memory64 xval.js
const rl=require('readline').createInterface({input:process.stdin});
const buf=new DataView(new ArrayBuffer(8));
function toJs(t,h){const v=BigInt('0x'+h);if(t=='i32')return Number(BigInt.asIntN(32,v));if(t=='i64')return BigInt.asIntN(64,v);
 if(t=='f32'){buf.setUint32(0,Number(v));return buf.getFloat32(0);}if(t=='f64'){buf.setBigUint64(0,v);return buf.getFloat64(0);}
 if(t=='externref')return h=='0'?null:h;if(t=='funcref')return null;throw 'type '+t;}
function fromJs(t,x){if(t=='i32')return (x>>>0).toString(16);if(t=='i64')return BigInt.asUintN(64,x).toString(16);
 if(t=='f32'){if(x!=x)return '7fc00000';buf.setFloat32(0,x);return buf.getUint32(0).toString(16);}if(t=='f64'){if(x!=x)return '7ff8000000000000';buf.setFloat64(0,x);return buf.getBigUint64(0).toString(16);}
 if(t=='externref')return x===null||x===undefined?'0':x;if(t=='funcref')return x?'1':'0';throw 'type '+t;}
function fnv(b){let h=2166136261|0;for(let i=0;i<b.length;i++)h=Math.imul(h^b[i],16777619);return h>>>0;}
const st={cases:0,discarded:0,actions:0,hostcalls:0,results:0,states:0,bad:0};const why={};
class Bad extends Error{}
function bad(m){throw new Bad(m);}
function run(c){
 let hist=null,hp=0,cur=[];
 const env={};
 c.hf.forEach(([p,r],i)=>{env['h'+i]=(...a)=>{if(!hist||hp>=hist.length)bad('unexpected host call '+i);const[s,ha,hr]=hist[hp++];if(s!=i)bad('host call to '+i+', expected '+s);
  p.forEach((t,k)=>{const g=fromJs(t,a[k]);if(g!=ha[k])bad(`host call ${i} arg ${k} ${t} is ${g} in V8, ${ha[k]} in the interpreter`);});st.hostcalls++;
  const o=hr.map((h,k)=>h[0]=='#'?(h=='#-1'?null:a[+h.slice(1)]):toJs(r[k],h));return r.length==0?undefined:r.length==1?o[0]:o;}});
 c.hm.forEach((m,i)=>{const w=new WebAssembly.Memory({initial:m.n,maximum:m.x});new Uint8Array(w.buffer).set(Buffer.from(m.b,'base64'));env['m'+i]=w;});
 c.ht.forEach((t,i)=>{const w=new WebAssembly.Table({element:t.e=='funcref'?'anyfunc':'externref',initial:t.n,maximum:t.n},null);if(t.e!='funcref')t.v.forEach((h,k)=>w.set(k,toJs('externref',h)));env['t'+i]=w;});
 c.hg.forEach(([t,m,v],i)=>{env['g'+i]=new WebAssembly.Global({value:t=='funcref'?'anyfunc':t,mutable:m},toJs(t,v));});
 const imp={env},inst=[];
 for(const[n,b]of c.m){const x=new WebAssembly.Instance(new WebAssembly.Module(Buffer.from(b,'base64')),imp);inst.push(x.exports);imp[n]=x.exports;}
 for(let ai=0;ai<c.a.length;ai++){const a=c.a[ai];const e=a.k<0?null:inst[a.i];
  if(a.k==1){new DataView(e[a.n].buffer).setBigUint64(a.p,BigInt('0x'+a.v),true);continue;}
  if(a.k==2){e[a.n].value=toJs(a.t,a.v);continue;}
  if(a.k==3){e[a.n].set(a.p,e[a.f]);continue;}
  if(a.k==0){hist=a.h;hp=0;let r=e[a.n](...a.a.map((h,k)=>toJs(a.pt[k],h)));st.actions++;if(hp!=hist.length)bad(`action ${ai}: ${hp} host calls in V8, ${hist.length} in the interpreter`);
   if(a.rt.length==0)r=[];else if(a.rt.length==1)r=[r];else r=[...r];
   a.rt.forEach((t,k)=>{const g=fromJs(t,r[k]);st.results++;if(g!=a.r[k])bad(`action ${ai} (${a.n}) result ${k} ${t} is ${g} in V8, ${a.r[k]} in the interpreter`);});}
  for(const s of a.s){st.states++;const o=inst[s[1]][s[2]];
   if(s[0]=='m'){const b=new Uint8Array(o.buffer);if(b.length!=s[3]*65536)bad(`action ${ai}: memory ${s[2]} size`);if(fnv(b)!=s[4])bad(`action ${ai}: memory ${s[2]} differs`);}
   else if(s[0]=='t'){if(o.length!=s[3].length)bad(`action ${ai}: table size`);for(let i=0;i<o.length;i++){const x=o.get(i);const g=typeof x=='function'?'1':x===null||x===undefined?'0':x;if(g!=s[3][i])bad(`action ${ai}: table ${s[2]} entry ${i} is ${g}, ${s[3][i]}`);}}
   else{const g=fromJs(s[3],o.value);if(g!=s[4])bad(`action ${ai}: global ${s[2]} is ${g} in V8, ${s[4]} in the interpreter`);}}}}
rl.on('line',l=>{const k=l.indexOf(' ');const c=JSON.parse(l.slice(k+1));st.cases++;
 try{run(c);}catch(x){if(x instanceof Bad){st.bad++;if(st.bad<6)console.log('DIFFERENT case '+l.slice(0,k)+': '+x.message);}else{st.discarded++;const m=String(x.message||x).replace(/[0-9]+/g,'N').slice(0,110);why[m]=(why[m]||0)+1;if(!(m in why)||why[m]<=2)why[m+' e.g. '+l.slice(0,k)]=0;}}});
rl.on('close',()=>{console.log(JSON.stringify(st));for(const m of Object.entries(why).sort((a,b)=>b[1]-a[1]).slice(0,14))console.log(m[1],m[0]);process.exit(st.bad?1:0);});
