'use strict';
// Property oracle for core_nft histories: relates the observation before a call, the call, its answer and the observation after it.
const {akey,skey,canon,hexo,ANON,SETTINGS,acct}=require('./world.js');
const CRC=(()=>{const t=[];for(let i=0;i<256;i++){let c=i;for(let k=0;k<8;k++)c=c&1?0xEDB88320^(c>>>1):c>>>1;t[i]=c>>>0;}return t;})();
function ptext(hex){const b=Buffer.from(hex,'hex');let c=0xFFFFFFFF;for(const x of b)c=CRC[(c^x)&255]^(c>>>8);c=(c^0xFFFFFFFF)>>>0;const d=Buffer.concat([Buffer.from([c>>>24,(c>>>16)&255,(c>>>8)&255,c&255]),b]);
  let bits=0,v=0,o='';for(const x of d){v=(v<<8)|x;bits+=8;while(bits>=5){o+='abcdefghijklmnopqrstuvwxyz234567'[(v>>>(bits-5))&31];bits-=5;}v&=(1<<bits)-1;}if(bits)o+='abcdefghijklmnopqrstuvwxyz234567'[(v<<(5-bits))&31];return o.match(/.{1,5}/g).join('-');}
const blkAcct=a=>a==null?null:JSON.stringify({Text:ptext(a.owner.__p)});
const U64=(1n<<64n)-1n;
const oget=(s,m)=>{const v=s.set[m];return v==='null'?null:BigInt(JSON.parse(v).replace(/n$/,''));};
const MG=new Set(['update_collection_metadata','mint','update_nft_metadata','burn_nft','init_upload','store_chunk','finalize_upload','cancel_upload','grant_permission','revoke_permission']);
const NEED={mint:'Minting',update_nft_metadata:'UpdateMetadata',update_collection_metadata:'UpdateCollectionMetadata',init_upload:'UpdateUploads',store_chunk:'UpdateUploads',finalize_upload:'UpdateUploads',cancel_upload:'UpdateUploads',grant_permission:'ManageAuthorities',revoke_permission:'ManageAuthorities',get_user_permissions:'ManageAuthorities',has_permission:'ManageAuthorities',get_all_storage_subcanisters:'ManageAuthorities',get_upload_status:'ReadUploads',get_all_uploads:'ReadUploads'};
const TIMED={icrc7_transfer:a=>a.created_at_time,icrc37_approve_tokens:a=>a.approval_info.created_at_time,icrc37_approve_collection:a=>a.approval_info.created_at_time,icrc37_revoke_token_approvals:a=>a.created_at_time,icrc37_revoke_collection_approvals:a=>a.created_at_time,icrc37_transfer_from:a=>a.created_at_time};
const mapEq=(a,b)=>a.size===b.size&&[...a].every(([k,v])=>canon(b.get(k))===canon(v));
const liveEq=(e,now)=>e.exp===null||BigInt(e.exp)>now;
// approvals equal up to dropping entries expired at `now`
function apEq(exp,got,now){const ks=new Set([...exp.keys(),...got.keys()]);for(const k of ks){const x=exp.get(k)||[],y=got.get(k)||[];
    const xm=new Map(x.map(e=>[e.spender,canon(e)])),ym=new Map(y.map(e=>[e.spender,canon(e)]));
    if(ym.size!==y.length)return k+' duplicate spender';
    for(const[s,v]of ym)if(xm.get(s)!==v)return `${k}: unexpected or altered approval ${v} (expected ${xm.get(s)})`;
    for(const e of x)if(!ym.has(e.spender)&&liveEq(e,now))return `${k}: approval of ${e.spender} is missing`;}return null;}
// Consistency of one observation
function checkObs(o,bad){
  if(o.ownersOk&&o.pageOk){
    const all=[...o.owners.keys()];
    if(BigInt(all.length)!==o.supply)bad('C02',`total supply ${o.supply} but ${all.length} tokens have an owner`);
    for(const[k,b]of o.bal){const n=all.filter(t=>o.owners.get(t)===k);if(b!==BigInt(n.length))bad('C02',`balance of ${k} is ${b} but it owns ${n.length} tokens`);
      const l=o.tokensOf.get(k);if(canon(l)!==canon(n.sort((x,y)=>+x-+y)))bad('C02',`tokens listed for ${k}: ${l}, owned: ${n}`);
      if(canon(l)!==canon([...new Set(l)].sort((x,y)=>+x-+y)))bad('C10',`account listing of ${k} is not ascending without repetition: ${l}`);}
    if(canon(o.tokens)!==canon(all.slice().sort((x,y)=>+x-+y)))bad('C10',`following the pages of the listing gives ${o.tokens}, tokens are ${all}`);}
  for(const k of o.meta.keys())if(o.ownersOk&&!o.owners.has(k))bad('C11',`metadata reported for token ${k}, which does not exist`);
  const want={'icrc7:symbol':o.set.icrc7_symbol,'icrc7:name':o.set.icrc7_name,'icrc7:description':o.set.icrc7_description,'icrc7:logo':o.set.icrc7_logo,'icrc7:supply_cap':o.set.icrc7_supply_cap,'icrc7:max_query_batch_size':o.set.icrc7_max_query_batch_size,'icrc7:max_update_batch_size':o.set.icrc7_max_update_batch_size,'icrc7:default_take_value':o.set.icrc7_default_take_value,'icrc7:max_take_value':o.set.icrc7_max_take_value,'icrc7:max_memo_size':o.set.icrc7_max_memo_size,'icrc7:tx_window':o.set.icrc7_tx_window,'icrc7:permitted_drift':o.set.icrc7_permitted_drift};
  const cm=new Map(o.cmeta);for(const[k,v]of Object.entries(want)){const g=cm.has(k)?canon(Object.values(cm.get(k))[0]):'null';if(g!==v)bad('C19',`collection metadata lists ${k}=${g} but the setting is ${v}`);}
  {const g=cm.get('icrc7:atomic_batch_transfers'),v=o.set.icrc7_atomic_batch_transfers;if((g===undefined)!==(v==='null')||(g!==undefined&&canon(g.Text)!==JSON.stringify(v)))bad('C19',`collection metadata atomic_batch_transfers ${canon(g)} vs ${v}`);}
  if(cm.has('icrc7:total_supply')&&cm.get('icrc7:total_supply').Nat!==o.supply)bad('C19','collection metadata total supply differs');
}
// hist: {used:Set of ids ever minted, ops:[{tid,t}], cm: expected settings}
function checkCall(pre,call,ans,post,hist,bad){
  const{m,args,who}=call,now=pre.now;const ok=ans.ok?ans.ok[0]:null;const isUpd=call.update;
  const S={owners:new Map(pre.owners),meta:new Map(pre.meta),tapp:new Map([...pre.tapp].map(([k,v])=>[k,v.slice()])),capp:new Map([...pre.capp].map(([k,v])=>[k,v.slice()])),perms:new Map(pre.perms),set:{...pre.set},up:new Map(pre.up||[])};
  const exp=[];// expected blocks
  const has=(p,perm)=>(pre.perms.get(p)||'').split(',').includes(perm);
  const perm=NEED[m];const authorised=!perm||has(who,perm);
  const effective=ok!=null&&!(ok&&typeof ok==='object'&&'Err'in ok);
  if(perm&&!authorised){if(ans.ok&&pre.perms.get(who)!==undefined&&pre.perms.get(who)!=='?')bad('C08',`${m} answered a caller without ${perm}: ${canon(ok)}`);}
  if(perm&&authorised&&ans.rej&&/permission/.test(ans.rej))bad('C08',`${m} refused a caller holding ${perm}: ${ans.rej}`);
  const drift=(()=>{const d=oget(pre,'icrc7_permitted_drift');return d===null?50_000_000n:d;})(),win=(()=>{const d=oget(pre,'icrc7_tx_window');return d===null?10_000_000_000n:d;})();
  const drop=(map,k,s)=>{const l=(map.get(k)||[]).filter(e=>e.spender!==s);if(l.length)map.set(k,l);else map.delete(k);};
  const put=(map,k,e)=>{const l=(map.get(k)||[]).filter(x=>x.spender!==e.spender);l.push(e);l.sort((x,y)=>x.spender<y.spender?-1:1);map.set(k,l);};
  const maxAp=(()=>{const d=oget(pre,'icrc37_max_approvals_per_token_or_collection');return d===null?10n:d;})();
  const admitted=(tid)=>{hist.ops.push({tid:String(tid),t:now});const n=hist.ops.filter(x=>x.tid===String(tid)&&now-x.t<60_000_000n).length;if(n>5)bad('C15',`${n} operations on ${tid} admitted within 60 ms`);};
  const attempts=[];
  const items=Array.isArray(args[0])&&TIMED[m]?args[0]:null;
  if(items&&isUpd&&ans.ok){
    const arr=m==='icrc7_transfer'?ok:('Ok'in ok?ok.Ok:null);
    if(arr===null){/* refused as a whole */if(m!=='icrc37_revoke_token_approvals'&&false)bad('C17','refused');}
    else{
      const ub=oget(pre,'icrc7_max_update_batch_size');const maxb=ub===null?100n:ub;
      const rv=oget(pre,'icrc37_max_revoke_approvals');const maxr=rv===null?10n:rv;
      let n=items.length;let whole=false;
      if(m==='icrc7_transfer'){const atomic=pre.set.icrc7_atomic_batch_transfers==='true';
        if(items.length===0){if(arr.length)bad('C17','an empty batch got a non-empty answer');n=0;}
        else if(who===ANON||(atomic&&BigInt(items.length)>maxb)){whole=true;if(!(arr.length===1&&arr[0]&&'Err'in arr[0]))bad('C17',`batch not refused outright: ${canon(arr)}`);}
        else if(BigInt(n)>maxb)n=Number(maxb);}
      if(m.startsWith('icrc37_revoke'))n=BigInt(n)>maxr?Number(maxr):n;
      if(!whole&&arr.length!==n)bad('C17',`${m}: ${arr.length} answers for ${n} processed requests`);
      if(whole&&arr.some(r=>r&&'Ok'in r))bad('C17','refused batch has successes');
      let idx=0;
      if(!whole)for(let i=0;i<Math.min(n,arr.length);i++){const a=items[i],r=arr[i];
        if(!r){bad('C17','missing answer');continue;}
        const tid=a.token_id!==undefined?String(a.token_id):null;const key=tid===null?'0':tid;
        if('Err'in r&&r.Err.GenericError&&/rate limit/i.test(r.Err.GenericError.message)){
          const n=hist.att.filter(x=>x.tid===key&&now-x.t<60_000_000n).length+attempts.filter(x=>x===key).length;
          if(n<5)bad('C15',`rate limited after only ${n} earlier calls on ${key}`);}
        attempts.push(key);
        if('Ok'in r){
          admitted(key);
          const t=TIMED[m](a);
          if(t!==null&&t!==undefined&&!(t<=now+drift&&t+win+drift>=now))bad('C09',`${m} carried out with creation time ${t} at ${now}, drift ${drift}, window ${win}`);
          if(m!=='icrc7_transfer'){}
          const log=pre.loglen+exp.length+1;
          if(r.Ok!==BigInt(log))bad('C03',`${m} item ${i} reports index ${r.Ok}, its block was number ${log}`);
          const b={btype:null,tid,from:null,to:null,spender:null};
          if(m==='icrc7_transfer'){b.btype='7xfer';const o=S.owners.get(tid);
            if(o===undefined)bad('C01',`transfer of non-existing token ${tid} succeeded`);
            else if(o.split('/')[0]!==who)bad('C01',`transfer of ${tid} by ${who}, owner is ${o}`);
            if(a.to.owner.__p===ANON)bad('C01','moved to the anonymous recipient');
            const mx=oget(pre,'icrc7_max_memo_size');if(a.memo&&BigInt(a.memo.length)>(mx===null?1000000n:mx))bad('C20',`transfer with a memo of ${a.memo.length} bytes carried out`);
            b.from=o&&JSON.stringify({Text:ptext(o.split('/')[0])});b.to=blkAcct(a.to);b.memo=hexo(a.memo);
            S.owners.set(tid,akey(a.to));S.tapp.delete(tid);}
          else if(m==='icrc37_transfer_from'){b.btype='37xfer';const o=S.owners.get(tid);const sp=akey({owner:{__p:who},subaccount:a.spender_subaccount});
            if(o===undefined)bad('C01',`delegated transfer of non-existing token ${tid} succeeded`);
            else{if(akey(a.from)!==o)bad('C01',`delegated transfer of ${tid} names ${akey(a.from)} as source, owner is ${o}`);
              const live=(S.tapp.get(tid)||[]).some(e=>e.spender===sp&&liveEq(e,now))||(S.capp.get(o)||[]).some(e=>e.spender===sp&&liveEq(e,now));
              if(sp!==o&&!live){bad('C04',`delegated transfer of ${tid} by ${sp} without a live approval`);bad('C01',`delegated transfer of ${tid} by ${sp} without authority`);}}
            if(a.to.owner.__p===ANON)bad('C01','moved to the anonymous recipient');
            b.from=blkAcct(a.from);b.to=blkAcct(a.to);b.spender=JSON.stringify({Text:ptext(who)});b.memo=hexo(a.memo);
            S.owners.set(tid,akey(a.to));S.tapp.delete(tid);if(![...S.owners.values()].includes(akey(a.from)))S.capp.delete(akey(a.from));}
          else if(m==='icrc37_approve_tokens'){b.btype='37approve';const ai=a.approval_info,fr=akey({owner:{__p:who},subaccount:ai.from_subaccount});
            if(S.owners.get(tid)!==fr)bad('C05',`approval on ${tid} by ${fr}, owner is ${S.owners.get(tid)}`);
            if(akey(ai.spender)===akey(acct(ANON)))bad('C05','anonymous spender approved');
            const e={spender:akey(ai.spender),fs:skey(ai.from_subaccount),exp:ai.expires_at==null?null:String(ai.expires_at),memo:hexo(ai.memo),created:String(now)};
            const cur=S.tapp.get(tid)||[];if(!cur.some(x=>x.spender===e.spender)&&BigInt(cur.length)>=maxAp)bad('C05',`more than ${maxAp} approvals on ${tid}`);
            put(S.tapp,tid,e);b.from=blkAcct({owner:{__p:who}});b.spender=blkAcct(ai.spender);b.memo=hexo(ai.memo);b.exp=e.exp;}
          else if(m==='icrc37_approve_collection'){b.btype='37approve_coll';const ai=a.approval_info,fr=akey({owner:{__p:who},subaccount:ai.from_subaccount});
            if(akey(ai.spender)===akey(acct(ANON)))bad('C05','anonymous spender approved');
            const e={spender:akey(ai.spender),fs:skey(ai.from_subaccount),exp:ai.expires_at==null?null:String(ai.expires_at),memo:hexo(ai.memo),created:String(now)};
            const cur=S.capp.get(fr)||[];if(!cur.some(x=>x.spender===e.spender)&&BigInt(cur.length)>=maxAp)bad('C05',`more than ${maxAp} collection approvals of ${fr}`);
            put(S.capp,fr,e);b.from=blkAcct({owner:{__p:who}});b.spender=blkAcct(ai.spender);b.memo=hexo(ai.memo);b.exp=e.exp;}
          else if(m==='icrc37_revoke_token_approvals'){b.btype='37revoke';const fr=akey({owner:{__p:who},subaccount:a.from_subaccount});
            if(S.owners.get(tid)!==fr)bad('C05',`revocation on ${tid} by ${fr}, owner is ${S.owners.get(tid)}`);
            if(a.spender)drop(S.tapp,tid,akey(a.spender));else S.tapp.delete(tid);
            b.from=blkAcct({owner:{__p:who}});b.spender=blkAcct(a.spender);b.memo=hexo(a.memo);}
          else if(m==='icrc37_revoke_collection_approvals'){b.btype='37revoke_coll';const fr=akey({owner:{__p:who},subaccount:a.from_subaccount});
            if(a.spender)drop(S.capp,fr,akey(a.spender));else S.capp.delete(fr);
            b.from=blkAcct({owner:{__p:who}});b.spender=blkAcct(a.spender);b.memo=hexo(a.memo);}
          exp.push(b);}}
    }}
  else if(m==='mint'){const rq=args[0].mint_requests;
    if(effective){const first=ok.Ok;const cap=oget(pre,'icrc7_supply_cap')??10000n,ub=oget(pre,'icrc7_max_update_batch_size')??100n,mm=oget(pre,'icrc7_max_memo_size')??1000000n;
      if(BigInt(pre.owners.size+rq.length)>cap)bad('C07',`minted beyond the supply cap ${cap}`);
      if(BigInt(rq.length)>ub)bad('C07',`batch of ${rq.length} over the limit ${ub}`);
      for(const r of rq)if(r.memo&&BigInt(r.memo.length)>mm){bad('C07','memo over the limit');bad('C20','minted with an oversized memo');}
      rq.forEach((r,i)=>{const id=String(first+BigInt(i));if(hist.used.has(id))bad('C07',`id ${id} was used before`);hist.used.add(id);S.owners.set(id,akey(r.token_owner));S.meta.set(id,canon([...new Map(r.metadata)].sort((x,y)=>x[0]<y[0]?-1:1)));
        exp.push({btype:'7mint',tid:id,from:null,to:blkAcct(r.token_owner),spender:null,memo:hexo(r.memo)});});}}
  else if(m==='burn_nft'){const id=String(args[0]);if(effective){const o=S.owners.get(id);if(o===undefined)bad('C01','burnt a non-existing token');else if(o.split('/')[0]!==who)bad('C01',`token ${id} of ${o} burnt by ${who}`);
      exp.push({btype:'7burn',tid:id,from:o?JSON.stringify({Text:ptext(o.split('/')[0])}):null,to:null,spender:null});S.owners.delete(id);S.meta.delete(id);S.tapp.delete(id);}}
  else if(m==='update_nft_metadata'){const id=String(args[0].token_id);if(effective){if(!S.owners.has(id))bad('C11','metadata written for a non-existing token');S.meta.set(id,canon([...new Map(args[0].metadata)].sort((x,y)=>x[0]<y[0]?-1:1)));
      exp.push({btype:'7update_token',tid:id,from:blkAcct({owner:{__p:who}}),to:null,spender:null});}}
  else if(m==='grant_permission'||m==='revoke_permission'){if(effective){const p=args[0].principal.__p,q=typeof args[0].permission==='string'?args[0].permission:Object.keys(args[0].permission)[0];const s=new Set((S.perms.get(p)||'').split(',').filter(x=>x));if(m==='grant_permission')s.add(q);else s.delete(q);S.perms.set(p,[...s].sort().join());}}
  else if(m==='update_collection_metadata'){if(effective){const r=args[0];for(const k of ['symbol','name','description','logo','supply_cap','max_query_batch_size','max_update_batch_size','default_take_value','max_take_value','max_memo_size','atomic_batch_transfers','tx_window','permitted_drift'])if(r[k]!==null&&r[k]!==undefined)S.set['icrc7_'+k]=canon(r[k]);}}
  else if(['init_upload','store_chunk','finalize_upload','cancel_upload'].includes(m)&&!call.pending){const p=args[0].file_path,cur=S.up.get(p);
    const conf=(call.storage||[]).some(x=>x.method===m&&x.path===p&&x.ok);
    if(effective){
      if(!conf)bad('C13',`${m} of ${p} succeeded without confirmation by the storage canister`);
      if(m==='init_upload'){if(cur!==undefined)bad('C13',`${p} registered twice`);S.up.set(p,'Init');}
      if(m==='store_chunk'){if(cur!=='Init'&&cur!=='InProgress')bad('C13',`chunk for ${p} accepted at stage ${cur}`);S.up.set(p,'InProgress');}
      if(m==='finalize_upload'){if(cur!=='InProgress')bad('C13',`${p} finalized at stage ${cur}`);S.up.set(p,'Finalized');}
      if(m==='cancel_upload'){if(cur!=='Init'&&cur!=='InProgress')bad('C13',`${p} cancelled at stage ${cur}`);S.up.delete(p);}}}
  for(const k of attempts)hist.att.push({tid:k,t:now});
  // queries
  if(!isUpd&&ans.ok)checkQuery(pre,m,args,ok,bad,now);
  if(!isUpd){const lim=oget(pre,'icrc7_max_query_batch_size')??100n;if(['icrc7_owner_of','icrc7_balance_of','icrc7_token_metadata'].includes(m)){if(ans.ok&&BigInt(args[0].length)>lim)bad('C20',`${m} over ${args[0].length} items answered, limit ${lim}`);}
    if(m==='icrc7_tokens'||m==='icrc7_tokens_of'){const take=args[args.length-1],mx=oget(pre,'icrc7_max_take_value')??100n;if(take!==null&&take!==undefined&&take>mx&&ans.ok)bad('C10',`page of ${take} served, limit ${mx}`);if(ans.rej&&(take===null||take===undefined||take<=mx))bad('C10',`page refused: ${ans.rej}`);}}
  if(call.upgrade){if(!ans.ok){if(/expected Int value/.test(canon(ans))&&hist.intLogged)bad('KNOWN','C16-int-in-log');else bad('C16','upgrade failed: '+canon(ans));}}
  // lock
  if(MG.has(m)&&isUpd){if(call.whileHeld){if(effective)bad('C14',`${m} was carried out while another management call was waiting`);}
    else if(!call.pending&&ok&&ok.Err&&(ok.Err==='ConcurrentManagementCall'||(typeof ok.Err==='object'&&'ConcurrentManagementCall'in ok.Err)))bad('C14',`${m} refused as concurrent although no management call is in progress`);}
  // frame: everything not predicted above must be unchanged
  const cat=(exp.length||!isUpd)?null:null;
  const P=(props,msg)=>{for(const p of props)bad(p,msg);};
  if(post.ownersOk&&pre.ownersOk&&!mapEq(S.owners,post.owners)){const d=diff(S.owners,post.owners);
    const ps=m==='mint'?['C07']:['C01'];if(call.upgrade)ps.push('C16');if(!effective&&!items)ps.push('C03');if(items&&(m==='icrc7_transfer'||m==='icrc37_transfer_from'))ps.push('C03','C17');if(perm&&!authorised)ps.push('C08');if(call.whileHeld)ps.push('C14');P(ps,`${m}: ownership: ${d}`);}
  if(post.ownersOk&&pre.ownersOk&&!mapEq(S.meta,post.meta)){P(call.upgrade?['C11','C16']:effective?['C11','C12']:['C11','C03'],`${m}: metadata: ${diff(S.meta,post.meta)}`);}
  const te=apEq(S.tapp,post.tapp,now);if(te)P(call.upgrade?['C05','C16']:m.includes('approve')||m.includes('revoke')?['C05','C18','C12']:m.includes('transfer')||m==='burn_nft'?['C04']:['C05'],`${m}: token approvals: ${te}`);
  const ce=apEq(S.capp,post.capp,now);if(ce)P(call.upgrade?['C05','C16']:['C05','C18','C12'],`${m}: collection approvals: ${ce}`);
  for(const[k,v]of post.perms)if(v==='?')S.perms.set(k,v);for(const k of S.perms.keys())if(pre.perms.get(k)==='?')S.perms.set(k,post.perms.get(k));
  if(!mapEq(S.perms,post.perms))P(call.upgrade?['C08','C16']:['C08'],`${m}: permissions: ${diff(S.perms,post.perms)}`);
  for(const k of SETTINGS)if(S.set[k]!==post.set[k])P(call.upgrade?['C19','C16']:['C19'],`${m}: ${k} is ${post.set[k]}, expected ${S.set[k]}`);
  if(pre.up&&post.up&&!mapEq(S.up,post.up)&&!call.pending)P(call.upgrade?['C13','C16']:call.whileHeld?['C13','C14']:['C13'],`${m}: uploads: ${diff(S.up,post.up)}`);
  // log
  const nb=post.blocks.slice(pre.blocks.length);
  if(post.blocks.some(b=>b.raw.includes('"Int"')))hist.intLogged=true;
  if(post.blocks.slice(0,pre.blocks.length).some((b,i)=>b.raw!==pre.blocks[i].raw))P(call.upgrade?['C03','C16']:['C03'],'existing blocks changed');
  if(nb.length!==exp.length||post.loglen-pre.loglen!==exp.length)P(call.upgrade?['C16']:call.whileHeld?['C03','C14']:['C03'],`${m}: ${nb.length} new blocks, expected ${exp.length} for ${canon(ok)}`);
  else nb.forEach((b,i)=>{const e=exp[i];for(const f of ['btype','tid','from','to','spender','memo','exp'])if(f in e&&e[f]!==undefined&&(b[f]??null)!==(e[f]??null))bad('C03',`${m}: block ${f} is ${b[f]}, expected ${e[f]}`);});
}
function diff(a,b){const r=[];for(const k of new Set([...a.keys(),...b.keys()]))if(canon(a.get(k))!==canon(b.get(k)))r.push(`${k}: expected ${canon(a.get(k))}, found ${canon(b.get(k))}`);return r.slice(0,4).join('; ');}
function checkQuery(pre,m,args,ok,bad,now){
  const tokens=[...pre.owners.keys()].sort((x,y)=>+x-+y);
  const page=(ids,prev,take)=>{const dt=oget(pre,'icrc7_default_take_value')??100n;const p=prev??0n,t=take??dt;return ids.filter(x=>BigInt(x)>p).slice(0,Number(t>1000n?1000n:t));};
  if(m==='icrc7_tokens'){const e=page(tokens,args[0],args[1]);if(canon(ok.map(String))!==canon(e))bad('C10',`icrc7_tokens(${canon(args)}) = ${ok}, expected ${e}`);}
  if(m==='icrc7_tokens_of'){const e=page(tokens.filter(t=>pre.owners.get(t)===akey(args[0])),args[1],args[2]);if(canon(ok.map(String))!==canon(e))bad('C10',`icrc7_tokens_of(${canon(args)}) = ${ok}, expected ${e}`);}
  if(m==='icrc7_owner_of'){const e=args[0].map(t=>pre.owners.get(String(t))??null);if(canon(ok.map(x=>x&&akey(x)))!==canon(e))bad('C17',`owner_of(${args[0]}) = ${canon(ok)}, expected ${canon(e)}`);}
  if(m==='icrc7_balance_of'){const e=args[0].map(a=>BigInt(tokens.filter(t=>pre.owners.get(t)===akey(a)).length));if(canon(ok)!==canon(e))bad('C17',`balance_of = ${canon(ok)}, expected ${canon(e)}`);}
  if(m==='icrc7_token_metadata'){const e=args[0].map(t=>pre.meta.get(String(t))??null);if(canon(ok.map(x=>x&&canon([...x].sort((p,q)=>p[0]<q[0]?-1:1))))!==canon(e))bad('C17',`token_metadata = ${canon(ok)}, expected ${canon(e)}`);}
  if(m==='icrc37_is_approved'){if(ok.length!==args[0].length)bad('C17','is_approved answers');args[0].forEach((a,i)=>{const o=pre.owners.get(String(a.token_id)),sp=akey(a.spender),fs=skey(a.from_subaccount);
      const e=o!==undefined&&(sp===o||(pre.tapp.get(String(a.token_id))||[]).some(x=>x.spender===sp&&liveEq(x,now))||(o.split('/')[1]===fs&&(pre.capp.get(o)||[]).some(x=>x.spender===sp&&liveEq(x,now))));
      if(ok[i]!==e)bad('C06',`is_approved(${canon(a)}) = ${ok[i]}, expected ${e}; owner ${o}`);});}
  if(m==='icrc37_get_token_approvals'||m==='icrc37_get_collection_approvals'){const k=m==='icrc37_get_token_approvals'?String(args[0]):akey(args[0]);const st=(m==='icrc37_get_token_approvals'?pre.tapp:pre.capp).get(k)||[];
    const got=ok.map(x=>({spender:akey(x.approval_info.spender),fs:skey(x.approval_info.from_subaccount),exp:x.approval_info.expires_at===null?null:String(x.approval_info.expires_at),memo:hexo(x.approval_info.memo),created:String(x.approval_info.created_at_time)}));
    const take=args[2]??10n;if(BigInt(got.length)>take)bad('C18',`${got.length} approvals listed, take ${take}`);
    if(new Set(got.map(g=>g.spender)).size!==got.length)bad('C18','an approval is listed twice');
    for(const g of got)if(!st.some(s=>canon(s)===canon(g)))bad('C18',`listed ${canon(g)} is not a stored approval of ${k}`);
    if((args[1]===null||args[1]===undefined)&&take>=BigInt(st.length)&&got.length!==st.length)bad('C18',`${got.length} of ${st.length} approvals listed`);}
  if(m==='has_permission'&&ok.Ok!==undefined){const p=args[0].principal.__p;const q=Object.keys(args[0].permission)[0];if(pre.perms.has(p)&&ok.Ok!==(pre.perms.get(p).split(',').includes(typeof args[0].permission==='string'?args[0].permission:q)))bad('C08',`has_permission(${p},${canon(args[0].permission)}) = ${ok.Ok}`);}
  if(m==='get_upload_status'&&pre.up){const e=pre.up.get(args[0]);if(ok.Ok!==undefined?Object.keys(ok.Ok)[0]!==e:e!==undefined)bad('C13',`status of ${args[0]} is ${canon(ok)}, expected ${e}`);}
}
module.exports={checkObs,checkCall,ptext,MG,TIMED,NEED};
