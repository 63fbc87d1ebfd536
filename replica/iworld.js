'use strict';
// Drives the real index_icrc7 canister against a stand-in ledger (and archive) that answers icrc3_get_blocks from a given list of blocks.
const fs=require('fs'),path=require('path');
const {IC,Reject,candid}=require('./ic.js');
const DID=candid.parse(fs.readFileSync(path.join(__dirname,'index.did'),'utf8'));
const LD=candid.parse(fs.readFileSync(path.join(__dirname,'ledger.did'),'utf8'));
const INDEX='00000000000000020101',LEDGER='00000000000000030101',ARCH='00000000000000040101';
const pid=n=>Buffer.alloc(29,n).toString('hex');const P=h=>({__p:h});
const crc=b=>{let c,r=0xffffffff;for(const x of b){c=(r^x)&255;for(let k=0;k<8;k++)c=c&1?(c>>>1)^0xedb88320:c>>>1;r=(r>>>8)^c;}return(r^0xffffffff)>>>0;};
const ptext=h=>{const b=Buffer.from(h,'hex');const c=Buffer.alloc(4);c.writeUInt32BE(crc(b));const x=Buffer.concat([c,b]);let bits=0,v=0,s='';for(const y of x){v=((v<<8)|y)&0xffff;bits+=8;while(bits>=5){s+='abcdefghijklmnopqrstuvwxyz234567'[(v>>(bits-5))&31];bits-=5;}}if(bits)s+='abcdefghijklmnopqrstuvwxyz234567'[(v<<(5-bits))&31];return s.match(/.{1,5}/g).join('-');};
const canon=v=>JSON.stringify(v,(k,x)=>typeof x==='bigint'?x+'n':(x&&x.type==='Buffer'&&Array.isArray(x.data))?'b:'+Buffer.from(x.data).toString('hex'):x);
// a block of the kind the collection canister logs
function block(btype,{tid,from,to,spender,ts=1,extra={}}={}){const tx=[];if(tid!==undefined)tx.push(['tid',{Nat:BigInt(tid)}]);
  for(const[k,v]of[['from',from],['to',to],['spender',spender]])if(v!==undefined)tx.push([k,{Text:ptext(v)}]);
  for(const[k,v]of Object.entries(extra))tx.push([k,v]);
  tx.sort((a,b)=>a[0]<b[0]?-1:1);
  return{Map:[['btype',{Text:btype}],['timestamp',{Nat:BigInt(ts)}],['tx',{Map:tx}]]};}
const COMPAT=['tid','from','to','spender'];
class IWorld{
  constructor(wasm,cfg={}){this.ic=new IC();this.blocks=[];this.archived=0;this.max=Infinity;this.split=0;this.fault=null;this.requests=[];const ic=this.ic;
    ic.addWasm(INDEX,wasm);
    const reply=(arch)=>(method,arg)=>{
      if(method!=='icrc3_get_blocks')throw new Reject(3,'no method '+method);
      const req=candid.decode(arg)[0];this.requests.push({arch,req});
      if(this.fault&&this.fault(arch,req))throw new Reject(5,'injected');
      const out=[],ab=[];
      for(const{start,length}of req)for(let i=start;i<start+length&&i<BigInt(this.blocks.length)&&out.length+ab.length<this.max;i++){
        if(!arch&&i<BigInt(this.archived))ab.push(i);else out.push({id:i,block:this.blocks[Number(i)]});}
      const args=[];for(const i of ab){const l=args[args.length-1];if(l&&l.start+l.length===i)l.length++;else args.push({start:i,length:1n});}
      return candid.encode(LD,LD.svc.icrc3_get_blocks.ret,[{log_length:BigInt(this.blocks.length),blocks:out,archived_blocks:(this.split?args.flatMap(a=>{const r=[];for(let i=0n;i<a.length;i+=BigInt(this.split)){const l=a.length-i;r.push({start:a.start+i,length:l<BigInt(this.split)?l:BigInt(this.split)});}return r;}).map(a=>[a]):args.length?[args]:[]).map(args=>({args,callback:{func:[ARCH,'icrc3_get_blocks']}}))}]);};
    ic.addMock(LEDGER,reply(false));ic.addMock(ARCH,reply(true));
    const v={major:1,minor:0,patch:0};
    ic.install(INDEX,candid.encode(DID,DID.init,[{Init:{test_mode:false,authorized_principals:[],version:v,ledger_canister_id:P(LEDGER),commit_hash:'x'}}]),pid(1));}
  dec(r){if(r.reply)return{ok:candid.decode(r.reply)};if(r.reject)return{rej:r.reject[1]};return r;}
  enc(m,a){return candid.encode(DID,DID.svc[m].args,a);}
  u(m,a,who=pid(9)){return this.dec(this.ic.update(INDEX,m,this.enc(m,a),who));}
  q(m,a,who=pid(9)){return this.dec(this.ic.query(INDEX,m,this.enc(m,a),who));}
  get progress(){return Number(this.q('status',[]).ok[0].last_block_id);}
  // the index job runs every minute
  minute(n=1){for(let i=0;i<n;i++)this.ic.tick(60_000_000_000n);}
  day(){this.ic.tick(86_400_000_000_000n);}
  get({start=0,length=1000,filters=[],sort=null}){const r=this.u('get_blocks',[{start:BigInt(start),length:BigInt(length),filters,sort_by:sort?{[sort]:null}:null}]);return r.ok?{blocks:r.ok[0].blocks,total:Number(r.ok[0].total),ids:r.ok[0].blocks.map(b=>Number(b.id))}:r;}
  upgrade(){return this.ic.upgrade(INDEX,candid.encode(DID,DID.init,[{Upgrade:{version:{major:9,minor:9,patch:9},commit_hash:'u'}}]),pid(1));}
}
const byAcct=h=>({Account:{owner:P(h),subaccount:null}}),byTok=t=>({TokenId:BigInt(t)}),byType=s=>({BlockType:s});
module.exports={IWorld,block,pid,P,ptext,canon,byAcct,byTok,byType,INDEX,LEDGER,ARCH,candid};
