'use strict';
// search.js WASM OUT.json SECONDS SEED [PROP,...] : looks for a history of the real canister that breaks one of the properties.
const {Gen,run,shrink,replaySteps}=require('./hist.js');const {ser}=require('./world.js');const fs=require('fs');
const[,,wasm,out,secs,seed,props]=process.argv;const P=props&&props!=='all'?new Set(props.split(',')):null;
const FOC={C13:{up:40,hold:6,transfer:2,tf:2,apt:2,apc:1,rvt:1,rvc:1,query:8},C14:{up:20,hold:20,perm:8},C07:{mint:30,burn:15,setm:8},C08:{perm:25,up:8},C10:{query:50,mint:15,burn:8},C11:{meta:25,mint:15,burn:8},C12:{meta:25,mint:15,upgrade:4,apt:15,apc:12,query:20},C15:{tick:6},C16:{upgrade:8,up:8},C19:{setm:25,upgrade:3},C02:{burn:12,mint:12},C06:{query:60},C18:{query:40,apt:20,apc:15},C20:{setm:10,query:30,mint:15,transfer:20}};
const {IC}=require('./ic.js');IC.fastq=true;
const want=v=>v.prop!=='KNOWN'&&(!P||P.has(v.prop));const t0=Date.now();let n=0,steps=0;
for(let s=+seed;Date.now()-t0<secs*1000;s+=1000){
  const g=new Gen(s,P?FOC[[...P][0]]:null);const cfg=g.cfg();let mx=40;
  let r;try{r=run(wasm,cfg,(o,c,i)=>i<2&&i===0?{k:'call',m:'mint',args:[{mint_requests:[0,1].map(()=>({token_owner:g.acct(),metadata:g.md(),memo:null}))}],who:require('./world.js').A}:i<mx&&Date.now()-t0<secs*1000?g.step(o,c):(c.held?{k:'release'}:null),{want});}
  catch(e){fs.writeFileSync(out,JSON.stringify({error:String(e.stack)}));process.exit(2);}
  n++;steps+=r.steps.length;
  const v=r.viol.find(want);
  if(v){IC.fastq=false;const v1=replaySteps(wasm,cfg,r.steps,want).viol.some(want);if(!v1){IC.fastq=true;continue;}IC.fastq=true;const w2=x=>x.prop===v.prop;const st=shrink(wasm,cfg,r.steps,w2,Math.min(25000,Math.max(4000,secs*300)));IC.fastq=false;const rr=replaySteps(wasm,cfg,st,w2);const vv=rr.viol.find(w2)||v;
    fs.writeFileSync(out,ser({kind:'core-history',prop:v.prop,msg:vv.msg,cfg,steps:st,seed:s}));console.log(v.prop,vv.msg);process.exit(1);}}
fs.writeFileSync(out,JSON.stringify({ok:true,histories:n,steps}));console.log('ok',n,steps);process.exit(0);
