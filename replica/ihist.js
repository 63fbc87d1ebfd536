'use strict';
// Histories of the real index canister against the stand-in ledger, with the expected index computed from the ledger's blocks.
const {IWorld,block,pid,P,ptext,canon,byAcct,byTok,byType,ARCH,LEDGER}=require('./iworld.js');
const PR=[1,2,3].map(pid);
const ROLES={'7mint':['to'],'7burn':['from'],'7xfer':['from','to'],'7update_token':['from'],'37approve':['from','spender'],'37approve_coll':['from','spender'],'37revoke':['from','spender'],'37revoke_coll':['from','spender'],'37xfer':['from','spender','to']};
const KINDS=Object.keys(ROLES),NOTOK=['37approve_coll','37revoke_coll'];
class Rng{constructor(s){this.s=(s*2654435761)>>>0||1;}x(){let s=this.s;s^=s<<13;s>>>=0;s^=s>>>17;s^=s<<5;s>>>=0;this.s=s;return s/4294967296;}n(k){return Math.floor(this.x()*k);}p(q){return this.x()<q;}pick(a){return a[this.n(a.length)];}}
const mp=v=>v&&v.Map?Object.fromEntries(v.Map):null;
const P2=new Map(PR.map(h=>[ptext(h),h]));
// the keys a block is indexed under; null: it cannot be indexed
function keys(b){const m=mp(b);if(!m||!m.btype||m.btype.Text===undefined)return null;const k=m.btype.Text.toLowerCase();if(!ROLES[k])return null;
  const tx=mp(m.tx);const r=['T:'+k];if(tx){for(const f of ROLES[k])if(tx[f]&&tx[f].Text!==undefined&&P2.has(tx[f].Text)){const a='A:'+P2.get(tx[f].Text);if(!r.includes(a))r.push(a);}
    if(!NOTOK.includes(k)&&tx.tid&&tx.tid.Nat!==undefined)r.push('N:'+tx.tid.Nat);}
  return r;}
const filt=k=>k[0]==='T'?byType(k.slice(2)):k[0]==='A'?byAcct(k.slice(2)):byTok(k.slice(2));
const UNI=[...KINDS.map(k=>'T:'+k),...PR.map(h=>'A:'+h),'N:0','N:1','N:2','N:18446744073709551615'];
class Gen{constructor(seed){this.r=new Rng(seed);this.bad=this.r.p(.3);}
  block(){const r=this.r;const k=r.pick(KINDS),o={ts:r.n(1000)};for(const f of ROLES[k])if(f!=='spender'||!k.includes('revoke')||r.p(.7))o[f]=r.pick(PR);if(!NOTOK.includes(k))o.tid=r.p(.05)?2n**64n-1n:r.n(3);
    if(k==='37revoke_coll'&&r.p(.3))delete o.spender;
    o.extra={op:{Text:k}};if(r.p(.3))o.extra.memo={Blob:Buffer.from([r.n(256),1])};if(k==='7update_token')o.extra.meta={Map:[['a',{Array:[{Nat:BigInt(r.n(300))},{Map:[['x',{Text:'é'+r.n(9)}],['y',{Int:BigInt(r.n(9)-4)}]]},{Array:[]}]}],['b',{Nat:2n**64n-1n}]]};
    let b=block(k,o);
    if(this.bad&&r.p(.15)){const c=r.n(6);if(c===0)b={Map:b.Map.filter(x=>x[0]!=='btype')};else if(c===1)b={Map:b.Map.map(x=>x[0]==='btype'?['btype',{Text:'9zz'}]:x)};else if(c===2)b={Text:'x'};
      else if(c===3)b={Map:b.Map.filter(x=>x[0]!=='tx')};else if(c===4)b={Map:b.Map.map(x=>x[0]==='btype'?['btype',{Text:x[1].Text.toUpperCase()}]:x)};else b={Map:b.Map.map(x=>x[0]==='tx'?['tx',{Map:x[1].Map.map(y=>P2.has(y[1].Text)&&r.p(.5)?[y[0],{Text:'no-principal'}]:y)}]:x)};}
    return b;}
  step(){const r=this.r,c=r.n(100);
    if(c<22)return{k:'log',b:Array.from({length:r.p(.06)?r.pick([99,100,101,130]):1+r.n(6)},()=>this.block())};
    if(c<30)return{k:'arch',n:r.n(12),sp:r.p(.5)?1+r.n(3):0};
    if(c<48)return{k:'min',fault:r.p(.15)?r.n(3):null,max:r.p(.08)?1+r.n(5):null};
    if(c<53)return{k:'hold',n:2+r.n(2),log:r.p(.5)?[this.block()]:[]};
    if(c<57)return{k:'day'};
    if(c<60)return{k:'up'};
    const nf=r.p(.25)?0:1+r.n(3);
    const big=()=>r.p(.1)?r.pick([2n**64n-1n,2n**63n,2n**32n,2n**32n+1n]):null;
    const fs=Array.from({length:nf},()=>r.pick(UNI));
    return{k:'get',start:(nf||r.p(.3)?big():null)??BigInt(r.n(8)),length:(nf?big():null)??BigInt(r.p(.5)?r.n(6):r.n(300)),f:fs,sort:r.pick([null,'Ascending','Descending']),fault:r.p(.1)?r.n(3):null};}
}
const sorted=a=>a.every((x,i)=>!i||a[i-1]<=x);
function run(wasm,next,opt={}){
  const viol=[],steps=[];const bad=(prop,msg)=>viol.push({prop,msg,step:steps.length-1});const w=new IWorld(wasm);let prog=0;
  const match=(fs,p)=>{const r=[];for(let i=0;i<p;i++){const k=keys(w.blocks[i]);if(k&&fs.every(f=>k.includes(f)))r.push(i);}return r;};
  const listed=new Map();
  const checkIndex=()=>{const wrong=new Map();const no=(i,f)=>{if(!wrong.has(i))wrong.set(i,new Set());wrong.get(i).add(f);};
    for(const f of UNI){const e=match([f],prog);const g=w.get({filters:[filt(f)],length:100000});
      if(!g.ids){bad('I01',`query by ${f} fails: ${g.rej}`);listed.delete(f);continue;}
      listed.set(f,g.ids);
      if(canon(g.ids)!==canon(e)){bad('I01',`blocks listed under ${f}: ${g.ids}; logged and indexed: ${e}`);
        for(const i of new Set([...g.ids,...e]))if(g.ids.filter(x=>x===i).length!==e.filter(x=>x===i).length)no(i,f);}
      for(const b of g.blocks)if(canon(b.block)!==canon(w.blocks[Number(b.id)]))bad('I04',`block ${b.id} differs from the ledger's`);}
    for(const[i,s]of wrong){const k=keys(w.blocks[i]);if(!k||k.every(f=>s.has(f)))bad('I05',`block ${i} is ${i<prog?'below':'not below'} the progress ${prog}, but under ${[...s]} it is listed ${[...s].map(f=>listed.get(f).filter(x=>x===i).length)} times`);}};
  const after=(p0,what,clean)=>{const p=w.progress;const lim=w.blocks.length;
    if(p<p0)bad('I05',`${what}: progress went from ${p0} back to ${p}`);
    for(let i=p0;i<p;i++)if(i>=lim)bad('I05',`${what}: progress ${p} beyond the ledger's ${lim} blocks`);else if(!keys(w.blocks[i]))bad('I05',`${what}: progress ${p} passed block ${i}, which cannot be indexed`);
    if(clean&&p0<lim&&keys(w.blocks[p0])&&p===p0)bad('I05',`${what}: block ${p0} can be indexed, but progress stayed`);
    if(clean){let e=p0;while(e<lim&&e<p0+100&&keys(w.blocks[e]))e++;if(p<e&&p<lim&&p>p0)bad('I05',`${what}: stopped at ${p}, although blocks up to ${e} are there`);}
    prog=p;checkIndex();};
  for(let i=0;;i++){
    const s=next(i,w);if(!s)break;steps.push(s);
    if(opt.trace)console.log(i,canon(s).slice(0,200),'progress',prog,'log',w.blocks.length);
    if(s.k==='log')w.blocks.push(...s.b);
    else if(s.k==='arch'){w.archived=Math.min(w.blocks.length,w.archived+s.n);w.split=s.sp||0;}
    else if(s.k==='min'){let n=0;if(s.fault!==null)w.fault=()=>n++>=s.fault;if(s.max)w.max=s.max;w.minute();w.fault=null;w.max=Infinity;after(prog,'index job',s.fault===null&&!s.max);}
    else if(s.k==='hold'){w.ic.hold=m=>m.id===LEDGER||m.id===ARCH;w.minute(s.n);w.blocks.push(...s.log);w.ic.hold=null;w.ic.release();w.ic.run();after(prog,'overlapping index jobs',false);}
    else if(s.k==='day'){const p0=prog;w.day();if(p0>0){w.fault=()=>true;const g=w.get({length:1});w.fault=null;if(g.ids)bad('I04','a day has passed, and cached blocks older than the cleaning are still there');}
      after(prog,'day passes',true);}
    else if(s.k==='up'){const r=w.upgrade();if(r.err)bad('I05','upgrade fails: '+r.err);after(prog,'upgrade',false);}
    else if(s.k==='get'){const fs=s.f;let n=0;if(s.fault!==null)w.fault=()=>n++>=s.fault;w.requests=[];const g=w.get({start:s.start,length:s.length,filters:fs.map(filt),sort:s.sort});w.fault=null;
      const what=`get_blocks(${s.start},${s.length},[${fs}],${s.sort})`;
      if(!g.ids){if(s.fault===null||!n)bad(fs.length?'I02':'I04',`${what} fails: ${g.rej}`);}
      else{let all;if(fs.length&&!fs.every(f=>listed.has(f)))all=g.ids;else if(fs.length){all=(prog?listed.get(fs[0]).filter(x=>fs.every(f=>listed.get(f).includes(x))):[]).slice(Number(s.start),Number(s.start+s.length));}
        else{const st=s.sort==='Descending'?(BigInt(prog)>s.length?BigInt(prog)-s.length:0n):s.start;all=[];for(let k=st;k<st+s.length&&k<BigInt(w.blocks.length);k++)all.push(Number(k));}
        const exp=s.sort==='Descending'?[...all].reverse():all;
        if(canon(g.ids)!==canon(exp)){const dup=new Set(g.ids).size!==g.ids.length,foreign=g.ids.some(x=>!all.includes(x));
          bad(fs.length?'I02':'I03',`${what} answers ${g.ids}, expected ${exp}`);if(canon([...g.ids].sort())!==canon([...exp].sort()))bad('I03',`${what} answers ${g.ids}, requested were ${exp}`);}
        for(const b of g.blocks)if(canon(b.block)!==canon(w.blocks[Number(b.id)]))bad('I04',`${what}: block ${b.id} is not the ledger's`);
        if(g.total!==prog)bad('I05',`${what}: total ${g.total}, indexed ${prog}`);
        const asked=[];for(const{arch,req}of w.requests)if(!arch)for(const q of req)for(let k=q.start;k<q.start+q.length&&asked.length<5000;k++)asked.push(String(k));
        if(new Set(asked).size!==asked.length)bad('I03',`${what} asks the ledger twice for a block: ${asked.slice(0,50)}`);
        if(fs.length&&asked.some(x=>!all.includes(Number(x))))bad('I03',`${what} asks the ledger for blocks ${asked}, needed were ${all}`);}
      // asking again gives the same answer, now from the cache
      if(g.ids&&s.fault===null){w.fault=()=>true;const h=fs.length?w.get({start:s.start,length:s.length,filters:fs.map(filt),sort:s.sort}):g;w.fault=null;if(canon(h)!==canon(g))bad('I04',`${what} asked again, from the cache: ${h.rej||h.ids}; before ${g.ids}`);}}
    if(viol.some(v=>!opt.want||opt.want(v)))break;}
  return{viol,steps};}
function replaySteps(wasm,cfg,steps,want,opt={}){try{return run(wasm,(i)=>steps[i],{want,...opt});}catch(e){return{viol:[],steps:[],err:e};}}
function shrink(wasm,steps,want,ms){const t0=Date.now();let cur=steps;const fails=s=>{const r=replaySteps(wasm,{},s,want);return r.viol.some(want)?r.steps.length:0;};
  let n=Math.max(1,cur.length>>1);while(n>=1&&Date.now()-t0<ms){let ch=false;for(let i=0;i<cur.length&&Date.now()-t0<ms;){const t=[...cur.slice(0,i),...cur.slice(i+n)];const k=t.length?fails(t):0;if(k){cur=t.slice(0,k);ch=true;}else i+=n;}if(!ch||n===1)n=n>>1;}
  // fewer blocks
  for(let i=0;i<cur.length&&Date.now()-t0<ms;i++)if(cur[i].k==='log')for(let j=0;j<cur[i].b.length&&cur[i].b.length>1&&Date.now()-t0<ms;){const t=cur.map((s,x)=>x===i?{...s,b:s.b.filter((_,y)=>y!==j)}:s);if(fails(t))cur=t;else j++;}
  return cur;}
module.exports={Gen,run,replaySteps,shrink,keys,UNI,PR};
