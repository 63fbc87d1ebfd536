'use strict';
// replay.js WASM FILE.json : run a recorded history on the real canister; exit 1 when it still breaks its property.
const {des}=require('./world.js');const fs=require('fs');
const [,,wasm,f]=process.argv;const h=des(fs.readFileSync(f,'utf8'));const {replaySteps}=require(h.kind==='index-history'?'./ihist.js':'./hist.js');
const r=replaySteps(wasm,h.cfg,h.steps,v=>v.prop===h.prop&&(!h.match||v.msg.includes(h.match)));
const v=r.viol.find(v=>v.prop===h.prop&&(!h.match||v.msg.includes(h.match)));
if(v){console.log(v.prop,v.msg);process.exit(1);}console.log('history passes');process.exit(0);
