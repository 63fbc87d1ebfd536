'use strict';
// Small Candid codec: DID parser, encoder driven by the DID types, decoder driven by the wire types.
// JS values: nat*/int* -> BigInt, text -> string, blob/vec nat8 -> Buffer, principal -> {__p: hex},
// opt -> null | value (nested opt: [v]), record -> object, tuple record -> array, variant -> {Tag: v}.
function hash(s){let h=0;for(const b of Buffer.from(s))h=(Math.imul(h,223)+b)>>>0;return h;}
const NAMES=new Map();
function nm(s){NAMES.set(hash(s),s);return s;}
const PRIM={null:-1,bool:-2,nat:-3,int:-4,nat8:-5,nat16:-6,nat32:-7,nat64:-8,int8:-9,int16:-10,int32:-11,int64:-12,float32:-13,float64:-14,text:-15,reserved:-16,empty:-17,principal:-24};
const PNAME=Object.fromEntries(Object.entries(PRIM).map(([k,v])=>[v,k]));
function parse(src){
  const toks=src.match(/"[^"]*"|->|[A-Za-z_][A-Za-z_0-9]*|\d+|[{}();:=,]/g);let p=0;
  const peek=()=>toks[p],next=()=>toks[p++],eat=t=>{if(toks[p]!==t)throw Error('did: expected '+t+' got '+toks[p]+' at '+p);p++;};
  const types={},svc={};let init=[];
  const id=()=>{const t=next();return t[0]==='"'?t.slice(1,-1):t;};
  function ty(){const t=next();
    if(t==='opt')return{k:'opt',t:ty()};
    if(t==='vec')return{k:'vec',t:ty()};
    if(t==='blob')return{k:'vec',t:{k:'prim',n:'nat8'}};
    if(t==='record'||t==='variant'){eat('{');const fs=[];let i=0;
      while(peek()!=='}'){
        if(toks[p+1]===':'){const n=id();eat(':');const ft=ty();fs.push({n:/^\d+$/.test(n)?+n:nm(n),h:/^\d+$/.test(n)?+n:hash(n),t:ft});}
        else if(t==='variant'){const n=id();fs.push({n:nm(n),h:hash(n),t:{k:'prim',n:'null'}});}
        else{const ft=ty();fs.push({n:i,h:i,t:ft});i++;}
        if(peek()===';')next();}
      eat('}');fs.sort((a,b)=>a.h-b.h);return{k:t,fs};}
    if(t==='func'){const a=args();eat('->');const r=args();let q=false;while(peek()==='query'){next();q=true;}return{k:'func',a,r,q};}
    if(t in PRIM)return{k:'prim',n:t};
    return{k:'ref',n:t};}
  function args(){eat('(');const r=[];while(peek()!==')'){r.push(ty());if(peek()===',')next();}eat(')');return r;}
  while(p<toks.length){const t=next();
    if(t==='type'){const n=id();eat('=');types[n]=ty();eat(';');}
    else if(t==='service'){eat(':');init=args();eat('->');eat('{');
      while(peek()!=='}'){const n=id();eat(':');const a=args();eat('->');const r=args();let q=false;while(peek()==='query'){next();q=true;}svc[n]={args:a,ret:r,query:q};if(peek()===';')next();}
      eat('}');}
    else if(t===';'){}
    else throw Error('did: '+t);}
  return{types,svc,init};}
class W{constructor(){this.b=[];this.n=0;}
  raw(x){this.b.push(x);}byte(x){this.b.push(Buffer.from([x]));}
  leb(n){n=BigInt(n);const o=[];do{let b=Number(n&0x7fn);n>>=7n;if(n)b|=0x80;o.push(b);}while(n);this.b.push(Buffer.from(o));}
  sleb(n){n=BigInt(n);const o=[];for(;;){let b=Number(n&0x7fn);n>>=7n;if((n===0n&&!(b&0x40))||(n===-1n&&(b&0x40))){o.push(b);break;}o.push(b|0x80);}this.b.push(Buffer.from(o));}
  out(){return Buffer.concat(this.b);}}
function encode(did,tys,vals){
  const table=[],memo=new Map();const T=t=>{while(t.k==='ref')t=did.types[t.n];return t;};
  function idx(t){
    if(t.k==='prim')return PRIM[t.n];
    const key=t.k==='ref'?'r:'+t.n:t;
    if(t.k==='ref'){const u=did.types[t.n];if(!u)throw Error('type '+t.n);if(u.k==='prim')return PRIM[u.n];}
    if(memo.has(key))return memo.get(key);
    const u=T(t);if(memo.has(u)){memo.set(key,memo.get(u));return memo.get(u);}
    const i=table.length;table.push(null);memo.set(key,i);memo.set(u,i);
    const w=new W();
    if(u.k==='opt'){const j=idx(u.t);w.sleb(-18);w.sleb(j);}
    else if(u.k==='vec'){const j=idx(u.t);w.sleb(-19);w.sleb(j);}
    else if(u.k==='record'||u.k==='variant'){const js=u.fs.map(f=>idx(f.t));w.sleb(u.k==='record'?-20:-21);w.leb(u.fs.length);u.fs.forEach((f,k)=>{w.leb(f.h);w.sleb(js[k]);});}
    else if(u.k==='func'){const a=u.a.map(idx),r=u.r.map(idx);w.sleb(-22);w.leb(a.length);a.forEach(j=>w.sleb(j));w.leb(r.length);r.forEach(j=>w.sleb(j));w.leb(u.q?1:0);if(u.q)w.byte(1);}
    else throw Error('enc type '+u.k);
    table[i]=w.out();return i;}
  const body=new W();
  function num(n,bits,signed){const b=Buffer.alloc(bits/8);let x=BigInt.asUintN(bits,BigInt(n));for(let i=0;i<bits/8;i++){b[i]=Number(x&255n);x>>=8n;}body.raw(b);}
  function val(t,v){t=T(t);
    if(t.k==='prim')switch(t.n){
      case'null':case'reserved':return;case'bool':return body.byte(v?1:0);
      case'nat':return body.leb(v);case'int':return body.sleb(v);
      case'nat8':return num(v,8);case'nat16':return num(v,16);case'nat32':return num(v,32);case'nat64':return num(v,64);
      case'int8':return num(v,8);case'int16':return num(v,16);case'int32':return num(v,32);case'int64':return num(v,64);
      case'text':{const b=Buffer.from(v);body.leb(b.length);return body.raw(b);}
      case'principal':{const b=Buffer.from(v.__p,'hex');body.byte(1);body.leb(b.length);return body.raw(b);}
      default:throw Error('enc '+t.n);}
    if(t.k==='opt'){if(v===null||v===undefined)return body.byte(0);body.byte(1);return val(t.t,T(t.t).k==='opt'?v[0]:v);}
    if(t.k==='vec'){if(Buffer.isBuffer(v)){body.leb(v.length);return body.raw(v);}body.leb(v.length);for(const x of v)val(t.t,x);return;}
    if(t.k==='record'){for(const f of t.fs)val(f.t,v[f.n]);return;}
    if(t.k==='variant'){const tag=typeof v==='string'?v:Object.keys(v)[0];const i=t.fs.findIndex(f=>f.n===tag);if(i<0)throw Error('variant '+tag);body.leb(i);return val(t.fs[i].t,typeof v==='string'?null:v[tag]);}
    if(t.k==='func'){body.byte(1);const b=Buffer.from(v.func[0],'hex'),m=Buffer.from(v.func[1]);body.byte(1);body.leb(b.length);body.raw(b);body.leb(m.length);return body.raw(m);}
    throw Error('enc '+t.k);}
  const js=tys.map(idx);tys.forEach((t,i)=>val(t,vals[i]));
  const w=new W();w.raw(Buffer.from('DIDL'));w.leb(table.length);for(const e of table)w.raw(e);w.leb(js.length);for(const j of js)w.sleb(j);w.raw(body.out());
  return w.out();}
function decode(buf){
  let p=0;const byte=()=>{if(p>=buf.length)throw Error('eof');return buf[p++];};
  const leb=()=>{let r=0n,s=0n;for(;;){const b=byte();r|=BigInt(b&0x7f)<<s;s+=7n;if(!(b&0x80))return r;}};
  const sleb=()=>{let r=0n,s=0n;for(;;){const b=byte();r|=BigInt(b&0x7f)<<s;s+=7n;if(!(b&0x80)){if(b&0x40)r-=1n<<s;return r;}}};
  const n=()=>Number(leb());
  if(buf.subarray(0,4).toString()!=='DIDL')throw Error('magic');p=4;
  const nt=n(),tab=[];
  for(let i=0;i<nt;i++){const c=Number(sleb());
    if(c===-18)tab.push({k:'opt',t:Number(sleb())});else if(c===-19)tab.push({k:'vec',t:Number(sleb())});
    else if(c===-20||c===-21){const m=n(),fs=[];for(let j=0;j<m;j++){const h=n();fs.push({h,t:Number(sleb())});}tab.push({k:c===-20?'record':'variant',fs});}
    else if(c===-22){let m=n();for(let j=0;j<m;j++)sleb();m=n();for(let j=0;j<m;j++)sleb();m=n();for(let j=0;j<m;j++)byte();tab.push({k:'func'});}
    else if(c===-23){let m=n();for(let j=0;j<m;j++){let l=n();p+=l;sleb();}tab.push({k:'service'});}
    else throw Error('dec type '+c);}
  const na=n(),at=[];for(let i=0;i<na;i++)at.push(Number(sleb()));
  const num=(bits,signed)=>{let x=0n;for(let i=0;i<bits/8;i++)x|=BigInt(byte())<<BigInt(8*i);return signed?BigInt.asIntN(bits,x):x;};
  const name=h=>NAMES.has(h)?NAMES.get(h):String(h);
  const blob=()=>{const l=n();if(p+l>buf.length)throw Error('eof');const r=Buffer.from(buf.subarray(p,p+l));p+=l;return r;};
  function val(t){
    if(t<0)switch(PNAME[t]){
      case'null':case'reserved':return null;case'bool':return byte()!==0;case'nat':return leb();case'int':return sleb();
      case'nat8':return num(8);case'nat16':return num(16);case'nat32':return num(32);case'nat64':return num(64);
      case'int8':return num(8,true);case'int16':return num(16,true);case'int32':return num(32,true);case'int64':return num(64,true);
      case'float64':{const r=buf.readDoubleLE(p);p+=8;return r;}case'float32':{const r=buf.readFloatLE(p);p+=4;return r;}
      case'text':return blob().toString();case'principal':byte();return{__p:blob().toString('hex')};
      default:throw Error('dec '+t);}
    const u=tab[t];
    if(u.k==='opt'){if(!byte())return null;const inner=val(u.t);return u.t>=0&&tab[u.t].k==='opt'?[inner]:inner;}
    if(u.k==='vec'){if(u.t===-5)return blob();const l=n(),r=[];for(let i=0;i<l;i++)r.push(val(u.t));return r;}
    if(u.k==='record'){const tuple=u.fs.length>0&&u.fs.every((f,i)=>f.h===i);if(tuple)return u.fs.map(f=>val(f.t));const o={};for(const f of u.fs)o[name(f.h)]=val(f.t);return o;}
    if(u.k==='variant'){const i=n();return{[name(u.fs[i].h)]:val(u.fs[i].t)};}
    if(u.k==='func'){byte();byte();return{func:[blob().toString('hex'),blob().toString()]};}
    throw Error('dec '+u.k);}
  return at.map(val);}
module.exports={parse,encode,decode,hash,P:h=>({__p:h}),W};
