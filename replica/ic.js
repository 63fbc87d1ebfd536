'use strict';
// A minimal in-process Internet Computer: runs the real canister wasm with a stand-in for the system API.
const fs=require('fs');const {withTable}=require('./wasmfix.js');const candid=require('./candid.js');
const MODS=new Map();
function loadModule(path){if(!MODS.has(path))MODS.set(path,new WebAssembly.Module(withTable(fs.readFileSync(path))));return MODS.get(path);}
const PAGE=65536;
class Stable{constructor(){this.pages=new Map();this.size=0;this.undo=null;}
  begin(){this.undo={size:this.size,pages:new Map()};}
  commit(){this.undo=null;}
  rollback(){this.size=this.undo.size;for(const[k,v]of this.undo.pages){if(v)this.pages.set(k,v);else this.pages.delete(k);}this.undo=null;}
  write(off,src){let i=0;while(i<src.length){const pg=Math.floor((off+i)/PAGE),o=(off+i)%PAGE,l=Math.min(PAGE-o,src.length-i);
      let b=this.pages.get(pg);
      if(this.undo&&!this.undo.pages.has(pg))this.undo.pages.set(pg,b?Uint8Array.prototype.slice.call(b):null);
      if(!b){b=new Uint8Array(PAGE);this.pages.set(pg,b);}
      b.set(src.subarray(i,i+l),o);i+=l;}}
  read(off,dst){let i=0;while(i<dst.length){const pg=Math.floor((off+i)/PAGE),o=(off+i)%PAGE,l=Math.min(PAGE-o,dst.length-i);
      const b=this.pages.get(pg);if(b)dst.set(b.subarray(o,o+l),i);else dst.fill(0,i,i+l);i+=l;}}}
class Trap extends Error{}
class Reject extends Error{constructor(code,msg){super(msg);this.code=code;this.msg=msg;}}
class Wasm{
  constructor(ic,id,path){this.ic=ic;this.id=id;this.mod=loadModule(path);this.stable=new Stable();this.version=1n;this.timer=0n;this.cert=null;this.msg=null;this.fresh();this.snap=null;}
  setModule(path){this.mod=loadModule(path);}
  fresh(){const self=this,imp={};for(const i of WebAssembly.Module.imports(this.mod))(imp[i.module]??={})[i.name]=this.api(i.name);
    this.inst=new WebAssembly.Instance(this.mod,imp);this.ex=this.inst.exports;this.tab=this.ex.__vtable;this.sp=this.ex.__sp;this.sp0=this.sp.value;}
  mem(){return new Uint8Array(this.ex.memory.buffer);}
  bytes(p,n){return Buffer.from(this.mem().slice(Number(p)>>>0,(Number(p)>>>0)+Number(n)));}
  restore(){const s=this.snap;if(this.mem().length!==s.length)this.fresh();this.sp.value=this.sp0;const need=(s.length-this.mem().length)/PAGE;if(need>0)this.ex.memory.grow(need);this.mem().set(s);this.dirty=false;}
  api(n){const self=this;const arr=(get)=>({size:()=>get().length,copy:(d,o,l)=>{d=Number(d)>>>0;o=Number(o);l=Number(l);self.mem().set(get().subarray(o,o+l),d);}});
    const A={arg:arr(()=>self.msg.arg),caller:arr(()=>self.msg.caller),self:arr(()=>Buffer.from(self.id,'hex')),rej:arr(()=>Buffer.from(self.msg.rejMsg||''))};
    const w128=(p,v)=>{const b=Buffer.alloc(16);b.writeBigUInt64LE(v&0xffffffffffffffffn,0);b.writeBigUInt64LE(v>>64n,8);self.mem().set(b,Number(p)>>>0);};
    switch(n){
      case'time':return()=>self.ic.time;
      case'global_timer_set':return t=>{const o=self.timer;self.timer=BigInt.asUintN(64,t);return o;};
      case'data_certificate_present':return()=>0;
      case'data_certificate_size':return()=>0;case'data_certificate_copy':return()=>{};
      case'certified_data_set':return(p,l)=>{self.cert=self.bytes(p,l);};
      case'stable64_size':return()=>BigInt(self.stable.size);
      case'stable64_grow':return d=>{const o=self.stable.size;self.stable.size+=Number(d);return BigInt(o);};
      case'stable64_write':return(off,src,l)=>{off=Number(off);src=Number(src);l=Number(l);if(off+l>self.stable.size*PAGE)throw new Trap('stable oob');self.stable.write(off,self.mem().subarray(src,src+l));};
      case'stable64_read':return(dst,off,l)=>{off=Number(off);dst=Number(dst);l=Number(l);if(off+l>self.stable.size*PAGE)throw new Trap('stable oob');self.stable.read(off,self.mem().subarray(dst,dst+l));};
      case'canister_cycle_balance128':case'canister_liquid_cycle_balance128':return p=>w128(p,10n**18n);
      case'debug_print':return(p,l)=>{if(self.ic.debug)console.log('['+self.id.slice(0,6)+'] '+self.bytes(p,l));};
      case'trap':return(p,l)=>{throw new Trap(self.bytes(p,l).toString());};
      case'msg_arg_data_size':return A.arg.size;case'msg_arg_data_copy':return A.arg.copy;
      case'msg_caller_size':return A.caller.size;case'msg_caller_copy':return A.caller.copy;
      case'canister_self_size':return A.self.size;case'canister_self_copy':return A.self.copy;
      case'msg_reject_code':return()=>self.msg.rejCode||0;
      case'msg_reject_msg_size':return A.rej.size;case'msg_reject_msg_copy':return A.rej.copy;
      case'msg_reply_data_append':return(p,l)=>{self.msg.reply.push(self.bytes(p,l));};
      case'msg_reply':return()=>{if(self.msg.done)throw new Trap('already replied');self.msg.done={reply:Buffer.concat(self.msg.reply)};};
      case'msg_reject':return(p,l)=>{if(self.msg.done)throw new Trap('already replied');self.msg.done={reject:[4,self.bytes(p,l).toString()]};};
      case'canister_version':return()=>self.version;
      case'cost_call':return(a,b,p)=>w128(p,0n);
      case'call_new':return(cp,cl,np,nl,rf,re,jf,je)=>{self.cur={to:self.bytes(cp,cl).toString('hex'),method:self.bytes(np,nl).toString(),rf,re,jf,je,arg:[],cf:null,cycles:0n};};
      case'call_data_append':return(p,l)=>{self.cur.arg.push(self.bytes(p,l));};
      case'call_cycles_add128':return(h,l)=>{self.cur.cycles+=(BigInt.asUintN(64,h)<<64n)+BigInt.asUintN(64,l);};
      case'call_on_cleanup':return(f,e)=>{self.cur.cf=f;self.cur.ce=e;};
      case'call_with_best_effort_response':return()=>{};
      case'call_perform':return()=>{self.msg.out.push(self.cur);self.cur=null;return 0;};
      default:return()=>{throw new Trap('unsupported system call '+n);};}}
  // Runs f in a message context. mode 'u' commits, 'q' discards. ctx: {caller,arg,call}
  exec(mode,ctx,f){const fresh=!this.snap;if(fresh){this.snap=this.mem().slice();}if(this.dirty&&mode==='u')this.restore();
    this.msg={reply:[],done:null,out:[],...ctx};this.stable.begin();const t0=this.timer,c0=this.cert;const m=this.msg;let err=null;
    try{f();}catch(e){if(!(e instanceof Trap)&&!(e instanceof WebAssembly.RuntimeError)&&!(e instanceof RangeError))throw e;err=e;}
    if(err||mode==='q'){this.stable.rollback();this.timer=t0;this.cert=c0;if(err||!this.ic.fastq)this.restore();else this.dirty=true;}
    else{this.stable.commit();this.version++;const mm=this.mem();if(mm.length===this.snap.length)this.snap.set(mm);else this.snap=mm.slice();}
    this.msg=null;return{err,done:m.done,out:m.out};}
}
class IC{
  constructor(){this.time=1_700_000_000_000_000_000n;this.can=new Map();this.queue=[];this.debug=!!process.env.IC_DEBUG;this.fastq=!!IC.fastq;this.hold=null;this.held=[];this.trace=[];}
  addWasm(id,path){const c=new Wasm(this,id,path);this.can.set(id,c);return c;}
  addMock(id,fn){this.can.set(id,{mock:fn});}
  install(id,arg,caller){const c=this.can.get(id);c.snap=null;const r=c.exec('u',{caller:Buffer.from(caller,'hex'),arg},()=>c.ex.canister_init());if(r.err)throw new Error('init trapped: '+r.err.message);this.spawn(c,r,null);this.run();}
  upgrade(id,arg,caller,path){const c=this.can.get(id);
    if(!c.snap)c.snap=c.mem().slice();if(c.dirty)c.restore();
    const keep={inst:c.inst,ex:c.ex,tab:c.tab,sp:c.sp,sp0:c.sp0,snap:c.snap.slice(),mod:c.mod,timer:c.timer,cert:c.cert,version:c.version};
    const st={size:c.stable.size,pages:new Map([...c.stable.pages].map(([k,v])=>[k,v.slice()]))};
    const undo=()=>{Object.assign(c,keep);c.restore();c.stable.size=st.size;c.stable.pages=st.pages;};
    let r=c.exec('u',{caller:Buffer.from(caller,'hex'),arg:Buffer.alloc(0)},()=>c.ex.canister_pre_upgrade&&c.ex.canister_pre_upgrade());
    if(r.err){undo();return{err:'pre_upgrade: '+r.err.message};}
    if(path)c.setModule(path);c.fresh();c.snap=null;c.timer=0n;
    r=c.exec('u',{caller:Buffer.from(caller,'hex'),arg},()=>c.ex.canister_post_upgrade());
    if(r.err){undo();return{err:'post_upgrade: '+r.err.message};}
    this.spawn(c,r,null);this.run();return{ok:true};}
  query(id,method,arg,caller){const c=this.can.get(id);const f=['canister_query '+method,'canister_update '+method].find(n=>c.ex[n]);if(!f)return{reject:[3,'no method '+method]};
    const r=c.exec('q',{caller:Buffer.from(caller,'hex'),arg},()=>c.ex[f]());
    if(r.err)return{reject:[5,String(r.err.message)]};return r.done||{reject:[5,'no reply']};}
  // Submit an update; the result object gets .res once the call context has answered.
  submit(id,method,arg,caller){const ctx={res:null,pending:0,origin:null,method};this.queue.push({k:'req',id,method,arg,caller,ctx});return ctx;}
  update(id,method,arg,caller){const x=this.submit(id,method,arg,caller);this.run();return x.res||{pending:x};}
  spawn(c,r,ctx){for(const o of r.out){if(ctx)ctx.pending++;this.queue.push({k:'req',id:o.to,method:o.method,arg:Buffer.concat(o.arg),caller:c.id,ctx:{res:null,pending:0,origin:{c,o,ctx,inst:c.inst},method:o.method,inter:true}});}}
  answer(ctx,res){if(ctx.res)return;ctx.res=res;if(ctx.origin)this.queue.push({k:'resp',...ctx.origin,res});}
  step(){const m=this.queue.shift();
    if(m.k==='req'){const c=this.can.get(m.id);
      if(m.ctx.inter&&this.hold&&this.hold(m)){this.held.push(m);return;}
      if(!c)return this.answer(m.ctx,{reject:[3,'no canister '+m.id]});
      if(c.mock){let res;try{res={reply:c.mock(m.method,m.arg,m.caller,this)};}catch(e){if(!(e instanceof Reject))throw e;res={reject:[e.code,e.msg]};}
        return this.answer(m.ctx,res);}
      const f=['canister_update '+m.method,'canister_query '+m.method].find(n=>c.ex[n]);
      if(!f)return this.answer(m.ctx,{reject:[3,'no method '+m.method]});
      const q=!c.ex['canister_update '+m.method];
      const r=c.exec(q?'q':'u',{caller:Buffer.from(m.caller,'hex'),arg:m.arg},()=>c.ex[f]());
      this.finish(c,r,m.ctx);}
    else{const{c,o,ctx,res,inst}=m;
      if(inst!==c.inst){/* callee answered after an upgrade: dropped */return;}
      if(ctx)ctx.pending--;
      const base={caller:Buffer.alloc(0),arg:res.reply||Buffer.alloc(0),rejCode:res.reject?res.reject[0]:0,rejMsg:res.reject?res.reject[1]:''};
      const saved=ctx&&ctx.res;
      let r=c.exec('u',{...base,done:saved?{reply:Buffer.alloc(0)}:null},()=>res.reply?c.tab.get(o.rf)(o.re):c.tab.get(o.jf)(o.je));
      if(r.err&&o.cf!==null){c.exec('u',base,()=>c.tab.get(o.cf)(o.ce));}
      if(ctx){if(saved&&!r.err){r.done=null;}this.finish(c,r,ctx);}else if(!r.err)this.spawn(c,r,null);}}
  finish(c,r,ctx){
    if(r.err){if(ctx.pending===0)this.answer(ctx,{reject:[5,String(r.err.message)]});else if(!ctx.res)ctx.trapped=String(r.err.message);return;}
    this.spawn(c,r,ctx);
    if(r.done)this.answer(ctx,r.done);
    else if(ctx.pending===0&&!ctx.res)this.answer(ctx,{reject:[5,ctx.trapped||'did not reply']});}
  run(max=100000){let n=0;while(this.queue.length&&n++<max)this.step();if(n>=max)throw new Error('too many messages');}
  release(pred=()=>true){const keep=[];for(const m of this.held){if(pred(m)){m.ctx.inter=false;this.queue.push(m);}else keep.push(m);}this.held=keep;}
  // Advance time and fire due timers.
  tick(dt){this.time+=BigInt(dt);for(let i=0;i<20;i++){let any=false;for(const c of this.can.values()){if(c.mock||!c.timer||c.timer>this.time)continue;any=true;c.timer=0n;
      const r=c.exec('u',{caller:Buffer.alloc(0),arg:Buffer.alloc(0)},()=>c.ex.canister_global_timer());if(!r.err)this.spawn(c,r,null);this.run();}
      if(!any)break;}}
}
module.exports={IC,Reject,Trap,loadModule,candid};
