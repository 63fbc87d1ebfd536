'use strict';
// Drives the real core_nft canister through histories of calls and observes it through its public API.
const fs=require('fs'),path=require('path'),zlib=require('zlib'),crypto=require('crypto');
const {IC,Reject,candid}=require('./ic.js');
const DID=candid.parse(fs.readFileSync(path.join(__dirname,'core.did'),'utf8'));
const MG=candid.parse(`type R=record{canister_id:principal};
service : () -> { create_canister:()->(R); install_code:(record{canister_id:principal;wasm_module:blob;arg:blob})->(); canister_status:()->(record{status:variant{running;stopping;stopped};settings:record{controllers:vec principal;compute_allocation:nat;memory_allocation:nat;freezing_threshold:nat;reserved_cycles_limit:nat;wasm_memory_limit:nat;wasm_memory_threshold:nat;log_visibility:variant{controllers};environment_variables:vec record{name:text;value:text}};module_hash:opt blob;memory_size:nat;cycles:nat;reserved_cycles:nat;idle_cycles_burned_per_day:nat;query_stats:record{num_calls_total:nat;num_instructions_total:nat;request_payload_bytes_total:nat;response_payload_bytes_total:nat};memory_metrics:record{wasm_memory_size:nat;stable_memory_size:nat;global_memory_size:nat;wasm_binary_size:nat;custom_sections_size:nat;canister_history_size:nat;wasm_chunk_store_size:nat;snapshots_size:nat};ready_for_migration:bool;version:nat64}); }`);
const CORE='00000000000000010101',ANON='04';
const pid=n=>Buffer.alloc(29,n).toString('hex');
const [A,B,C,D]=[1,2,3,4].map(pid);
const P=h=>({__p:h});
const ZERO=Buffer.alloc(32,0);
const sub=n=>{const b=Buffer.alloc(32,0);b[31]=n;return b;};
const acct=(h,s=null)=>({owner:P(h),subaccount:s});
// Accounts are equal when owners are equal and subaccounts are equal, an absent one standing for the all-zero one.
const akey=a=>a.owner.__p+'/'+((a.subaccount==null||Buffer.from(a.subaccount).equals(ZERO))?'':Buffer.from(a.subaccount).toString('hex'));
const skey=s=>(s==null||Buffer.from(s).equals(ZERO))?'':Buffer.from(s).toString('hex');
const canon=v=>JSON.stringify(v,(k,x)=>typeof x==='bigint'?x+'n':(x&&x.type==='Buffer'&&Array.isArray(x.data))?'b:'+Buffer.from(x.data).toString('hex'):x);
const hexo=b=>b==null?null:Buffer.from(b).toString('hex');
function ser(v){return JSON.stringify(v,(k,x)=>typeof x==='bigint'?{$n:x.toString()}:(x&&x.type==='Buffer'&&Array.isArray(x.data))?{$b:Buffer.from(x.data).toString('hex')}:x);}
function des(s){return JSON.parse(s,(k,x)=>x&&typeof x==='object'&&'$n'in x?BigInt(x.$n):x&&typeof x==='object'&&'$b'in x?Buffer.from(x.$b,'hex'):x);}
const ALLPERM=['Minting','ManageAuthorities','UpdateMetadata','UpdateCollectionMetadata','ReadUploads','UpdateUploads'];
const icrc3map=v=>v&&v.Map?Object.fromEntries(v.Map):{};
class World{
  constructor(wasm,cfg={}){this.wasm=wasm;this.ic=new IC();const ic=this.ic;this.nextCan=1;this.storageLog=[];this.fault=null;this.cfg=cfg;
    this.did=cfg.did||DID;
    ic.addWasm(CORE,wasm);
    ic.addMock('',(method,arg)=>{
      if(method==='create_canister'){const id='00000000000000f'+(this.nextCan++).toString(16).padStart(1,'0')+'0101';return candid.encode(MG,MG.svc.create_canister.ret,[{canister_id:P(id)}]);}
      if(method==='install_code'){const a=candid.decode(arg)[0];let w=a.wasm_module;if(w[0]===0x1f)w=zlib.gunzipSync(w);const h=crypto.createHash('sha256').update(w).digest('hex').slice(0,12);
        const p='/tmp/.icw-'+process.pid+'-'+h+'.wasm';if(!fs.existsSync(p)){fs.writeFileSync(p,w);process.on('exit',()=>{try{fs.unlinkSync(p);}catch(e){}});}
        const id=a.canister_id.__p;const c=ic.addWasm(id,p);const r=c.exec('u',{caller:Buffer.from(CORE,'hex'),arg:a.arg},()=>c.ex.canister_init());if(r.err)throw new Reject(5,'install: '+r.err.message);ic.spawn(c,r,null);
        return candid.encode(MG,[],[]);}
      throw new Reject(3,'management canister: no '+method);});
    // every message to a storage canister goes through here: fault injection and a record of what it confirmed
    const answer=ic.answer.bind(ic);ic.answer=(ctx,res)=>{if(ctx.st&&!ctx.res){let ok=false;if(res.reply){try{const d=candid.decode(res.reply)[0];ok=d&&'Ok'in d;}catch(e){}}this.storageLog.push({method:ctx.method,path:ctx.st.path,ok});}answer(ctx,res);};
    const step=ic.step.bind(ic);ic.step=()=>{const m=ic.queue[0];if(m.k==='req'&&m.ctx.inter&&m.id!==CORE&&m.id!==''){
        if(!m.ctx.st){let p=null;try{p=candid.decode(m.arg)[0].file_path;}catch(e){}m.ctx.st={path:p};}
        if(this.fault&&this.fault.method===m.method&&!(ic.hold&&ic.hold(m))){ic.queue.shift();if(this.fault.kind==='garbage')return ic.answer(m.ctx,{reply:Buffer.from('DIDL\0\0')});return ic.answer(m.ctx,{reject:[this.fault.code||5,'injected']});}}
      else if(m.k==='req'&&m.ctx.inter&&m.id===''&&this.fault&&this.fault.method===m.method){ic.queue.shift();return ic.answer(m.ctx,{reject:[5,'injected']});}
      return step();};
    const v={major:1,minor:0,patch:0};
    this.init={permissions:{user_permissions:[[P(A),ALLPERM]]},test_mode:false,name:'n',symbol:'s',version:v,commit_hash:'x',collection_metadata:[],approval_init:{},...(cfg.init||{})};
    ic.install(CORE,candid.encode(this.did,this.did.init,[{Init:this.init}]),cfg.installer||A);}
  enc(m,args){const s=this.did.svc[m];if(!s)throw new Error('no method '+m);return candid.encode(this.did,s.args,args);}
  dec(r){if(r.reply)return{ok:candid.decode(r.reply)};if(r.reject)return{rej:r.reject[1]};return r;}
  q(m,args,who=A){return this.dec(this.ic.query(CORE,m,this.enc(m,args),who));}
  u(m,args,who=A){return this.dec(this.ic.update(CORE,m,this.enc(m,args),who));}
  get now(){return this.ic.time;}
  upgrade(){return this.ic.upgrade(CORE,candid.encode(this.did,this.did.init,[{Upgrade:{version:{major:9,minor:9,patch:9},commit_hash:'upgraded'}}]),A);}
  q1(m,args,who){const r=this.q(m,args,who);if(!r.ok)throw new Error(m+': '+r.rej);return r.ok[0];}
  // Complete observation through the query API.
  observe(uni){const o={now:this.now};const lim=Number(this.q1('icrc7_max_query_batch_size',[])??100n);
    const batch=(m,xs)=>{if(lim<1)return null;let r=[];for(let i=0;i<xs.length;i+=Math.min(lim,100)){const y=this.q1(m,[xs.slice(i,i+Math.min(lim,100))]);r=r.concat(y);}return r;};
    const ids=uni.ids;o.ids=ids;
    const ow=batch('icrc7_owner_of',ids);o.owners=new Map();if(ow)ids.forEach((id,i)=>{if(ow[i])o.owners.set(String(id),akey(ow[i]));});o.ownersOk=!!ow;
    const md=batch('icrc7_token_metadata',ids);o.meta=new Map();if(md)ids.forEach((id,i)=>{if(md[i])o.meta.set(String(id),canon([...md[i]].sort((x,y)=>x[0]<y[0]?-1:1)));});
    const bal=batch('icrc7_balance_of',uni.accts);o.bal=new Map();if(bal)uni.accts.forEach((a,i)=>o.bal.set(akey(a),bal[i]));
    o.supply=this.q1('icrc7_total_supply',[]);
    const page=(m,pre)=>{const r=[];let prev=null;for(let n=0;n<300;n++){const x=this.q1(m,[...pre,prev,null]);if(!x.length)return r;r.push(...x.map(String));prev=x[x.length-1];}return r;};
    const dt=this.q1('icrc7_default_take_value',[]);o.pageOk=dt===null||dt>0n;
    o.tokens=o.pageOk?page('icrc7_tokens',[]):null;
    o.tokensOf=new Map();if(o.pageOk)for(const a of uni.accts)o.tokensOf.set(akey(a),page('icrc7_tokens_of',[a]));
    const ap=x=>({spender:akey(x.approval_info.spender),fs:skey(x.approval_info.from_subaccount),exp:x.approval_info.expires_at===null?null:String(x.approval_info.expires_at),memo:hexo(x.approval_info.memo),created:String(x.approval_info.created_at_time)});
    const srt=l=>l.sort((x,y)=>x.spender<y.spender?-1:x.spender>y.spender?1:0);
    o.tapp=new Map();for(const id of ids)if(id<(1n<<64n)){const r=this.q1('icrc37_get_token_approvals',[id,null,1000n]);if(r.length)o.tapp.set(String(id),srt(r.map(ap)));}
    o.capp=new Map();for(const a of uni.accts){const r=this.q1('icrc37_get_collection_approvals',[a,null,1000n]);if(r.length)o.capp.set(akey(a),srt(r.map(ap)));}
    o.set={};for(const m of SETTINGS)o.set[m]=canon(this.q1(m,[]));
    o.cmeta=this.q1('icrc7_collection_metadata',[]);
    o.perms=new Map();for(const p of uni.princ){let v='?';for(const adm of [uni.admin||A,...uni.princ]){const r=this.q('get_user_permissions',[{principal:P(p)}],adm);if(r.ok){const x=r.ok[0];v=x.Ok?[...new Set(x.Ok.map(y=>Object.keys(y)[0]))].sort().join():'';break;}}o.perms.set(p,v);}
    o.up=null;for(const rd of [uni.reader||A,...uni.princ]){const r=this.q('get_all_uploads',[null,1000n],rd);if(r.ok&&r.ok[0].Ok){o.up=new Map();for(const[p,s]of r.ok[0].Ok)o.up.set(p,Object.keys(s)[0]);break;}}
    const bl=this.q1('icrc3_get_blocks',[[{start:0n,length:10000n}]]);o.loglen=Number(bl.log_length);o.nblocks=bl.blocks.length;o.blocks=bl.blocks.map(b=>({id:Number(b.id),...this.block(b.block)}));
    return o;}
  block(b){const m=icrc3map(b),tx=icrc3map(m.tx);const ac=v=>v?v.Array?v.Array[0].Blob.toString('hex')+'/'+skey(v.Array[1]?v.Array[1].Blob:null):canon(v):null;
    const n=v=>v?String(v.Nat??v.Int):null;
    return{btype:m.btype&&m.btype.Text,op:tx.op&&tx.op.Text,tid:n(tx.tid),from:ac(tx.from),to:ac(tx.to),spender:ac(tx.spender),memo:tx.memo&&tx.memo.Blob?tx.memo.Blob.toString('hex'):null,exp:n(tx.exp),cat:n(tx.created_at_time),raw:canon(b)};}
}
const SETTINGS=['icrc7_symbol','icrc7_name','icrc7_description','icrc7_logo','icrc7_supply_cap','icrc7_max_query_batch_size','icrc7_max_update_batch_size','icrc7_default_take_value','icrc7_max_take_value','icrc7_max_memo_size','icrc7_atomic_batch_transfers','icrc7_tx_window','icrc7_permitted_drift','icrc37_max_approvals_per_token_or_collection','icrc37_max_revoke_approvals'];
module.exports={World,A,B,C,D,ANON,P,CORE,acct,akey,skey,sub,ZERO,canon,ser,des,ALLPERM,SETTINGS,DID,hexo,pid};
