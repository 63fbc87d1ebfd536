'use strict';
// Adds an export of table 0 (needed to deliver call-backs) and of the first mutable global (the shadow stack pointer) to a wasm binary.
function leb(n){const o=[];do{let b=n&0x7f;n>>>=7;if(n)b|=0x80;o.push(b);}while(n);return Buffer.from(o);}
function rd(b,p){let r=0,s=0;for(;;){const x=b[p++];r+=(x&0x7f)*2**s;s+=7;if(!(x&0x80))return[r,p];}}
exports.withTable=function(b){
  const out=[b.subarray(0,8)];let p=8;
  while(p<b.length){const id=b[p];let[len,q]=rd(b,p+1);const body=b.subarray(q,q+len);
    if(id===7){const[cnt,r]=rd(body,0);const nm=Buffer.from('__vtable');
      const nb=Buffer.concat([leb(cnt+2),body.subarray(r),leb(nm.length),nm,Buffer.from([1,0]),leb(4),Buffer.from('__sp'),Buffer.from([3,0])]);
      out.push(Buffer.from([7]),leb(nb.length),nb);}
    else out.push(b.subarray(p,q+len));
    p=q+len;}
  return Buffer.concat(out);};
