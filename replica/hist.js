'use strict';
// Histories: random generation, execution with the oracle, shrinking, replay.
const {World,A,B,C,D,ANON,P,acct,akey,sub,ZERO,canon,ser,des,ALLPERM,DID}=require('./world.js');
const {checkObs,checkCall,MG,TIMED,NEED}=require('./oracle.js');
class Rng{constructor(s){this.s=BigInt(s)*0x9E3779B97F4A7C15n+1n&0xffffffffffffffffn;}
  u(){this.s^=this.s<<13n&0xffffffffffffffffn;this.s^=this.s>>7n;this.s^=this.s<<17n&0xffffffffffffffffn;return Number(this.s>>11n)/2**53;}
  n(k){return Math.floor(this.u()*k);}pick(a){return a[this.n(a.length)];}p(x){return this.u()<x;}}
const SUBS=[null,null,null,sub(1),sub(2),ZERO];
const PR=[A,B,C,D];
class Gen{constructor(seed,focus){this.r=new Rng(seed+1);for(let i=0;i<5;i++)this.r.u();this.focus=focus;this.paths=['/a','/b','c'];}
  cfg(){const r=this.r;const init={approval_init:{}};
    if(r.p(.4))init.tx_window=BigInt(r.pick([0,1000,1000000000,10000000000,1]));
    if(r.p(.4))init.permitted_drift=BigInt(r.pick([0,1000,50000000,2000000000]));
    if(r.p(.2))init.max_update_batch_size=BigInt(1+r.n(4));
    if(r.p(.2))init.max_query_batch_size=BigInt(2+r.n(4));
    if(r.p(.2))init.max_memo_size=BigInt(r.n(5));
    if(r.p(.2))init.supply_cap=BigInt(3+r.n(6));
    if(r.p(.2))init.default_take_value=BigInt(1+r.n(4));
    if(r.p(.2))init.max_take_value=BigInt(1+r.n(6));
    if(r.p(.2))init.atomic_batch_transfers=r.p(.5);
    if(r.p(.2))init.max_canister_storage_threshold=BigInt(7+r.n(1000));
    if(r.p(.3))init.approval_init={max_approvals_per_token_or_collection:r.p(.7)?BigInt(1+r.n(4)):null,max_revoke_approvals:r.p(.5)?BigInt(1+r.n(4)):null};
    if(r.p(.2))init.description='d';if(r.p(.2))init.logo='https://x.y/z';
    return{init};}
  acct(){return acct(this.r.pick(PR),this.r.pick(SUBS));}
  any(){const r=this.r;return r.p(.06)?acct(ANON,r.p(.3)?sub(1):null):this.acct();}
  id(w){const r=this.r;const k=w.owners?[...w.owners.keys()]:[];if(k.length&&r.p(.85))return BigInt(r.pick(k));return BigInt(r.n(7));}
  memo(){const r=this.r;return r.p(.7)?null:Buffer.alloc(r.n(6),65+r.n(4));}
  time(now,win,dr){const r=this.r;const c=r.n(12);if(c<4)return now;if(c===4)return now+dr;if(c===5)return now+dr+1n;if(c===6)return now-win;if(c===7)return now-win-1n;if(c===8)return now-win-dr;if(c===9){const x=now-win-dr-1n;return x<0n?0n:x;}if(c===10)return BigInt(r.pick([0,1]));return now-BigInt(r.n(100));}
  val(d=0){const r=this.r;const c=r.n(d>1?4:6);return c===0?{Nat:BigInt(r.pick([0,1,23,24,255,65536,2n**32n,2n**64n-1n]))}:c===1?{Text:r.p(.1)?'é'.repeat(r.pick([1,12,40])):'t'+r.n(5)}:c===2?{Int:BigInt(r.pick([-5,0,7,-300,-(2n**63n),2n**63n-1n]))}:c===3?{Blob:Buffer.alloc(r.p(.1)?r.pick([24,300]):r.n(4),r.n(256))}:c===4?{Array:Array.from({length:d===0&&r.p(.06)?25:r.n(3)},()=>this.val(d+1))}:{Map:Array.from({length:r.n(3)},(_,i)=>['k'+i,this.val(d+1)])};}
  md(){const r=this.r;return Array.from({length:r.n(4)},()=>[r.pick(['a','b','c','name']),this.val()]);}
  batch(f){const r=this.r;const n=r.p(.6)?1:r.p(.1)?0:1+r.n(4);return Array.from({length:n},f);}
  own(o,id){const k=o&&o.owners&&o.owners.get(String(id));if(!k)return null;const[h,s]=k.split('/');return acct(h,s?Buffer.from(s,'hex'):null);}
  step(o,ctx){const r=this.r;const now=o.now;const num=(s,d)=>{const v=o.set[s];return v==='null'?d:BigInt(JSON.parse(v).replace(/n$/,''));};
    const win=num('icrc7_tx_window',10000000000n),dr=num('icrc7_permitted_drift',50000000n);
    const W={tick:18,mint:8,transfer:14,tf:16,apt:14,apc:8,rvt:8,rvc:6,burn:5,meta:5,setm:4,perm:4,up:3,query:26,upgrade:1,hold:2,release:0};
    for(const[k,v]of Object.entries(this.focus||{}))W[k]=v;
    if(ctx.held){W.hold=0;W.upgrade=0;W.release=25;W.up=8;W.perm=8;W.mint=10;W.setm=8;W.tick=0;}
    let tot=0;for(const k in W)tot+=W[k];let x=r.u()*tot,kind;for(const k in W){x-=W[k];if(x<0){kind=k;break;}}
    const who=r.p(.93)?r.pick(PR):ANON;const mk=(m,args,w)=>({k:'call',m,args,who:w??who});
    if(kind==='tick')return{k:'tick',dt:r.pick([1,1000,20000000,61000000,61000000,61000000,100000000,1000000000,3600000000000])};
    if(kind==='mint')return mk('mint',[{mint_requests:this.batch(()=>({token_owner:this.any(),metadata:this.md(),memo:this.memo()}))}],r.p(.85)?A:who);
    if(kind==='transfer'){let w=who;const b=this.batch(()=>{const id=this.id(o);const ow=this.own(o,id);if(ow&&r.p(.85))w=ow.owner.__p;return{token_id:id,to:this.any(),memo:this.memo(),from_subaccount:ow&&r.p(.8)?ow.subaccount:r.pick(SUBS),created_at_time:r.p(.6)?null:this.time(now,win,dr)};});if(b.length>1&&r.p(.3))b[1]={...b[1],token_id:b[0].token_id};return mk('icrc7_transfer',[b],w);}
    if(kind==='apt'){let w=who;const b=this.batch(()=>{const id=this.id(o);const ow=this.own(o,id);if(ow&&r.p(.9))w=ow.owner.__p;return{token_id:id,approval_info:{spender:this.any(),from_subaccount:ow&&r.p(.9)?ow.subaccount:r.pick(SUBS),expires_at:this.expiry(now),memo:this.memo(),created_at_time:r.p(.7)?now:this.time(now,win,dr)}};});return mk('icrc37_approve_tokens',[b],w);}
    if(kind==='apc'){const b=this.batch(()=>({approval_info:{spender:this.any(),from_subaccount:r.pick(SUBS),expires_at:this.expiry(now),memo:this.memo(),created_at_time:r.p(.7)?now:this.time(now,win,dr)}}));return mk('icrc37_approve_collection',[b]);}
    if(kind==='rvt'){let w=who;const ks=[...o.tapp.keys()];const b=this.batch(()=>{const id=ks.length&&r.p(.8)?BigInt(r.pick(ks)):this.id(o);const ow=this.own(o,id);if(ow&&r.p(.9))w=ow.owner.__p;const l=o.tapp.get(String(id))||[];return{token_id:id,spender:r.p(.3)?null:l.length&&r.p(.8)?this.unkey(r.pick(l).spender):this.acct(),from_subaccount:ow&&r.p(.9)?ow.subaccount:r.pick(SUBS),memo:this.memo(),created_at_time:r.p(.6)?null:this.time(now,win,dr)};});return mk('icrc37_revoke_token_approvals',[b],w);}
    if(kind==='rvc'){const ks=[...o.capp.keys()];let w=who;const b=this.batch(()=>{let fs=r.pick(SUBS),sp=this.acct();if(ks.length&&r.p(.8)){const k=r.pick(ks);const a=this.unkey(k);w=a.owner.__p;if(r.p(.8))fs=a.subaccount;const l=o.capp.get(k);if(r.p(.8))sp=this.unkey(r.pick(l).spender);}return{spender:r.p(.3)?null:sp,from_subaccount:fs,memo:this.memo(),created_at_time:r.p(.6)?null:this.time(now,win,dr)};});return mk('icrc37_revoke_collection_approvals',[b],w);}
    if(kind==='tf'){let w=who,ss=null;const b=this.batch(()=>{let id=this.id(o);const ks=[...o.tapp.keys()];if(ks.length&&r.p(.5))id=BigInt(r.pick(ks));const ow=this.own(o,id);ss=r.pick(SUBS);
        if(ow&&r.p(.8)){const l=[...(o.tapp.get(String(id))||[]),...(o.capp.get(akey(ow))||[])];if(l.length&&r.p(.85)){const a=this.unkey(r.pick(l).spender);w=a.owner.__p;ss=a.subaccount;}else if(r.p(.4)){w=ow.owner.__p;ss=ow.subaccount;}}
        return{token_id:id,from:ow&&r.p(.92)?ow:this.acct(),to:this.any(),spender_subaccount:ss,memo:this.memo(),created_at_time:r.p(.6)?null:this.time(now,win,dr)};});
      if(b.length>1&&r.p(.4)){b[1]={...b[1],token_id:b[0].token_id,from:b[0].to};}return mk('icrc37_transfer_from',[b],w);}
    if(kind==='burn'){const id=this.id(o);const ow=this.own(o,id);return mk('burn_nft',[id],ow&&r.p(.8)?ow.owner.__p:who);}
    if(kind==='meta')return mk('update_nft_metadata',[{token_id:this.id(o),metadata:this.md()}],r.p(.8)?A:who);
    if(kind==='setm'){const q={};const put=(k,v)=>{if(r.p(.25))q[k]=v();};put('symbol',()=>'S'+r.n(9));put('name',()=>'N'+r.n(9));put('description',()=>'D'+r.n(9));put('logo',()=>'https://l/'+r.n(9));put('supply_cap',()=>BigInt(2+r.n(8)));put('max_query_batch_size',()=>BigInt(2+r.n(5)));put('max_update_batch_size',()=>BigInt(1+r.n(5)));put('max_take_value',()=>BigInt(1+r.n(5)));put('default_take_value',()=>BigInt(1+r.n(5)));put('max_memo_size',()=>BigInt(r.n(5)));put('atomic_batch_transfers',()=>r.p(.5));put('tx_window',()=>BigInt(r.pick([0,1000,10000000000])));put('permitted_drift',()=>BigInt(r.pick([0,1000,50000000])));put('max_canister_storage_threshold',()=>BigInt(r.n(99)));return mk('update_collection_metadata',[q],r.p(.8)?A:who);}
    if(kind==='perm')return mk(r.p(.5)?'grant_permission':'revoke_permission',[{principal:P(r.pick([B,C,D,...(r.p(.05)?[A]:[])])),permission:r.pick(ALLPERM)}],r.p(.7)?A:who);
    if(kind==='up'||kind==='hold'){const p=r.pick(this.paths);const cur=o.up&&o.up.get(p);let m;if(r.p(.75))m=cur===undefined?'init_upload':cur==='Init'?r.pick(['store_chunk','store_chunk','cancel_upload']):cur==='InProgress'?r.pick(['store_chunk','finalize_upload','finalize_upload','cancel_upload']):r.pick(['init_upload','store_chunk','finalize_upload','cancel_upload']);else m=r.pick(['init_upload','store_chunk','finalize_upload','cancel_upload']);
      const s=this.upload(m,p,ctx);if(kind==='hold')s.hold=true;else if(r.p(.3))s.fault={method:r.pick([m,m,'create_canister','install_code','get_storage_size']),kind:r.pick(['reject','garbage']),code:r.pick([2,4,5])};return{...s,who:r.p(.85)?A:who};}
    if(kind==='upgrade')return{k:'upgrade'};
    if(kind==='release')return{k:'release'};
    // queries
    const c=r.n(11);const bid=()=>Array.from({length:r.n(5)},()=>this.id(o));
    if(c===0)return mk('icrc7_tokens',[r.p(.3)?null:BigInt(r.n(8)),r.p(.3)?null:BigInt(r.n(7))]);
    if(c===1)return mk('icrc7_tokens_of',[this.acct(),r.p(.3)?null:BigInt(r.n(8)),r.p(.3)?null:BigInt(r.n(7))]);
    if(c===2)return mk('icrc7_owner_of',[bid()]);
    if(c===3)return mk('icrc7_balance_of',[Array.from({length:r.n(5)},()=>this.acct())]);
    if(c===4)return mk('icrc7_token_metadata',[bid()]);
    if(c<8){return mk('icrc37_is_approved',[Array.from({length:1+r.n(3)},()=>{let id=this.id(o);const ow=this.own(o,id);let sp=this.any();const l=ow?[...(o.tapp.get(String(id))||[]),...(o.capp.get(akey(ow))||[])]:[];if(l.length&&r.p(.7))sp=this.unkey(r.pick(l).spender);else if(ow&&r.p(.4))sp=r.p(.5)?ow:acct(ow.owner.__p,r.pick(SUBS));return{token_id:id,spender:sp,from_subaccount:ow&&r.p(.7)?ow.subaccount:r.pick(SUBS)};})]);}
    if(c===8){const ks=[...o.tapp.keys()];const id=ks.length&&r.p(.8)?BigInt(r.pick(ks)):this.id(o);const l=o.tapp.get(String(id))||[];return mk('icrc37_get_token_approvals',[id,r.p(.5)||!l.length?null:{token_id:id,approval_info:{spender:this.unkey(r.pick(l).spender),created_at_time:0n}},r.p(.3)?null:BigInt(r.n(5))]);}
    if(c===9){const ks=[...o.capp.keys()];const a=ks.length&&r.p(.8)?this.unkey(r.pick(ks)):this.acct();const l=o.capp.get(akey(a))||[];return mk('icrc37_get_collection_approvals',[a,r.p(.5)||!l.length?null:{approval_info:{spender:this.unkey(r.pick(l).spender),created_at_time:0n}},r.p(.3)?null:BigInt(r.n(5))]);}
    return r.p(.4)?mk('has_permission',[{principal:P(r.pick(PR)),permission:r.pick(ALLPERM)}],r.p(.6)?A:who):r.p(.5)?mk('get_upload_status',[r.pick(this.paths)],r.p(.6)?A:who):mk(r.pick(['get_user_permissions','get_all_uploads','get_all_storage_subcanisters']),null,who);}
  upload(m,p,ctx){const body=Buffer.from('hello');const r=this.r;if(m==='init_upload')return{k:'call',m,args:[{file_path:p,file_hash:require('crypto').createHash('sha256').update(body).digest('hex'),file_size:5n,chunk_size:r.p(.5)?null:r.pick([5n,3n])}],who:A};
    if(m==='store_chunk')return{k:'call',m,args:[{file_path:p,chunk_id:r.p(.8)?0n:1n,chunk_data:r.p(.8)?body:Buffer.from('hel')}],who:A};
    return{k:'call',m,args:[{file_path:p}],who:A};}
  expiry(now){const r=this.r;return r.p(.4)?null:now+BigInt(r.pick([0,1,-1,30000000,61000000,100000000,1000000000]));}
  unkey(k){const[h,s]=k.split('/');return acct(h,s?Buffer.from(s,'hex'):this.r.p(.2)?ZERO:null);}
}
const ACCTS=[];for(const h of PR)for(const s of [null,sub(1),sub(2)])ACCTS.push(acct(h,s));ACCTS.push(acct(ANON),acct(ANON,sub(1)),acct(ANON,sub(2)));
function universe(maxid){const ids=[];for(let i=0;i<=maxid+2;i++)ids.push(BigInt(i));return{ids,accts:ACCTS,princ:[...PR,ANON],admin:A,reader:A};}
// Runs a history. nextStep(obs,ctx,i) supplies the steps. Returns {viol:[{prop,msg,step}],steps}
function run(wasm,cfg,nextStep,opt={}){
  const viol=[],steps=[];const bad=(prop,msg)=>viol.push({prop,msg,step:steps.length-1});
  const w=new World(wasm,cfg);const hist={used:new Set(),ops:[],att:[]};let maxid=4;const ctx={held:null};
  let pre=w.observe(universe(maxid));
  {const i=w.init;const chk=(k,v)=>{if(pre.set[k]!==canon(v??null))bad('C19',`after installation ${k} is ${pre.set[k]}, installed with ${canon(v??null)}`);};
   for(const k of ['symbol','name','description','logo','supply_cap','max_query_batch_size','max_update_batch_size','default_take_value','max_take_value','max_memo_size','atomic_batch_transfers','tx_window','permitted_drift'])chk('icrc7_'+k,i[k]);
   chk('icrc37_max_approvals_per_token_or_collection',i.approval_init.max_approvals_per_token_or_collection);chk('icrc37_max_revoke_approvals',i.approval_init.max_revoke_approvals);
   if(pre.tokens&&pre.tokens.length)bad('C01','tokens exist after installation');checkObs(pre,bad);}
  for(let i=0;;i++){
    if(viol.length&&(!opt.want||viol.some(v=>opt.want(v))))break;
    viol.length=0;
    const s=nextStep(pre,ctx,i);if(!s)break;steps.push(s);
    if(s.k==='tick'){const up0=w.storageLog.length;w.ic.tick(s.dt);const post=w.observe(universe(maxid));post.now=w.now;
      checkCall({...pre},{m:'(time passes)',args:[],who:'',update:true,storage:w.storageLog.slice(up0)},{ok:[null]},post,hist,bad);checkObs(post,bad);pre=post;continue;}
    if(s.k==='upgrade'){const r=w.upgrade();const post=w.observe(universe(maxid));checkCall(pre,{m:'(upgrade)',args:[],who:'',update:true,upgrade:true},r.ok?{ok:[null]}:{rej:r.err},post,hist,bad);checkObs(post,bad);pre=post;continue;}
    if(s.k==='release'){if(!ctx.held)continue;w.ic.hold=null;w.ic.release();w.ic.run();const h=ctx.held;ctx.held=null;const res=h.sub.res;const ans=res?w.dec(res):{rej:'no answer'};
      const post=w.observe(universe(maxid));checkCall(pre,{...h.call,pending:false,storage:w.storageLog.slice(h.s0)},ans,post,hist,bad);checkObs(post,bad);pre=post;
      // the lock must be free again
      {const d=w.q('get_user_permissions',[{principal:P(B)}]);const r=w.u('grant_permission',[{principal:P(pid9),permission:'ReadUploads'}]);if(r.ok&&r.ok[0].Err&&'ConcurrentManagementCall'in r.ok[0].Err)bad('C14','management calls are still refused after the operation ended');}
      continue;}
    if(s.args===null)s.args=s.m==='get_user_permissions'?[{principal:P(B)}]:s.m==='get_all_uploads'?[null,null]:[];
    const q=DID.svc[s.m]&&DID.svc[s.m].query;
    let ans;const s0=w.storageLog.length;const call={m:s.m,args:s.args,who:s.who,update:!q,whileHeld:!!ctx.held&&MG.has(s.m)&&!q};
    if(q)ans=w.q(s.m,s.args,s.who);
    else if(s.hold&&!ctx.held){w.ic.hold=m=>m.id!=='0';const subm=w.ic.submit(require('./world.js').CORE,s.m,w.enc(s.m,s.args),s.who);w.ic.run();
      if(subm.res){w.ic.hold=null;ans=w.dec(subm.res);}else{ctx.held={sub:subm,call,s0};call.pending=true;const post=w.observe(universe(maxid));checkCall(pre,call,{ok:[{Err:'pending'}]},post,hist,bad);checkObs(post,bad);pre=post;continue;}}
    else{w.fault=s.fault||null;ans=w.u(s.m,s.args,s.who);w.fault=null;}
    if(s.m==='mint'&&ans.ok&&ans.ok[0].Ok!==undefined)maxid=Math.max(maxid,Number(ans.ok[0].Ok)+s.args[0].mint_requests.length);
    call.storage=w.storageLog.slice(s0);
    const post=q?pre:w.observe(universe(maxid));
    if(opt.trace)console.log(i,s.m,s.who.slice(0,4),canon(s.args).slice(0,300),'=>',canon(ans).slice(0,300));
    checkCall(pre,call,ans,post,hist,bad);if(!q)checkObs(post,bad);
    pre=post;}
  return{viol:viol.slice(),steps};}
const pid9=Buffer.alloc(29,9).toString('hex');
function replaySteps(wasm,cfg,steps,want,opt={}){try{return run(wasm,cfg,(o,c,i)=>steps[i],{want,...opt});}catch(e){return{viol:[],steps:[],err:e};}}
function shrink(wasm,cfg,steps,want,budgetMs){const t0=Date.now();let cur=steps;const fails=s=>{const r=replaySteps(wasm,cfg,s,want);return r.viol.some(want)?r.steps.length:0;};
  let n=Math.max(1,cur.length>>1);
  while(n>=1&&Date.now()-t0<budgetMs){let changed=false;for(let i=0;i<cur.length&&Date.now()-t0<budgetMs;){const t=[...cur.slice(0,i),...cur.slice(i+n)];const k=t.length?fails(t):0;if(k){cur=t.slice(0,k);changed=true;}else i+=n;}if(!changed||n>1)n=n>>1;}
  return cur;}
module.exports={Gen,run,replaySteps,shrink,universe,ACCTS};
