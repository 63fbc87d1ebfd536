'use strict';
// isearch.js WASM OUT.json SECONDS SEED [PROP,...] : looks for a history of the real index canister that breaks one of the properties.
const {Gen,run,shrink,replaySteps}=require('./ihist.js');const {ser}=require('./world.js');const fs=require('fs');
const[,,wasm,out,secs,seed,props]=process.argv;const P=props&&props!=='all'?new Set(props.split(',')):null;
const want=v=>!P||P.has(v.prop);const t0=Date.now();let n=0,steps=0;
for(let s=+seed;Date.now()-t0<secs*1000;s+=1000){const g=new Gen(s);const mx=5+g.r.n(30);let r;
  try{r=run(wasm,i=>i<mx?g.step():null,{want});}catch(e){fs.writeFileSync(out,JSON.stringify({error:String(e.stack)}));console.log(e.stack);process.exit(2);}
  n++;steps+=r.steps.length;const v=r.viol.find(want);
  if(v){const w2=x=>x.prop===v.prop;const st=shrink(wasm,r.steps,w2,Math.min(30000,secs*500));const vv=replaySteps(wasm,{},st,w2).viol.find(w2)||v;
    fs.writeFileSync(out,ser({kind:'index-history',prop:v.prop,msg:vv.msg,cfg:{},steps:st,seed:s}));console.log(v.prop,vv.msg);process.exit(1);}}
fs.writeFileSync(out,JSON.stringify({ok:true,histories:n,steps}));console.log('ok',n,steps);process.exit(0);
