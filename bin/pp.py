#!/usr/bin/env python3
"""pretty-print dumped MIR: pp.py FILE SUBSTR"""
import json,sys
d=json.load(open(sys.argv[1]));T=d['types'];I=d['insts']
def tn(i): return T[i]['n'] if isinstance(i,int) else str(i)
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='d': s+='@%d'%e[1]
        else: s+=str(e)
    return s
def co(c):
    if c['k'] in('int','bool','str'): return repr(c['v'])
    if c['k']=='zst': return 'zst:'+tn(c['t'])
    if c['k']=='agg': return tn(c['t'])+'#%d{%s}'%(c['v'],','.join(co(x) for x in c['f']))
    if c['k']=='ref': return '&'+co(c['to'])
    return json.dumps(c)[:80]
def op(o): return co(o['c']) if o['k']=='const' else ('mv ' if o['k']=='move' else '')+pl(o['p'])
def rv(r):
    k=r['k']
    if k=='use': return op(r['o'])
    if k=='ref': return '&'+('mut ' if r['mut'] else '')+pl(r['p'])
    if k in('bin','cbin'): return '%s(%s,%s)'%(r['op'],op(r['a']),op(r['b']))
    if k=='agg': return '%s %s#%d(%s)'%(r['ak'],tn(r['t'])[:60],r['v'],', '.join(map(op,r['o'])))
    if k=='cast': return '%s as %s [%s]'%(op(r['o']),tn(r['t'])[:50],r['ck'][:30])
    if k in('discr','len'): return k+' '+pl(r['p'])
    return json.dumps(r)[:100]
for n,i in enumerate(I):
    if sys.argv[2] not in i['name'] or not i['body']: continue
    b=i['body']
    print('=== #%d %s  [%s] %s:%s'%(n,i['name'],i['mangled'],i['file'],i['line']))
    for k,l in enumerate(b['locals']): print('   let _%d: %s'%(k,tn(l)[:140]))
    print('   dbg',', '.join('%s=%s'%(a,pl(p)) for a,p in b['dbg'])[:400])
    for k,bb in enumerate(b['bb']):
        print('  bb%d:'%k)
        for s in bb['s']:
            if s[0]=='=': print('    %s = %s'%(pl(s[1]),rv(s[2])))
            else: print('   ',s)
        t=bb['t']
        if t['k']=='call':
            f=t['f']
            print('    %s = CALL %s<%s> inst=%s (%s) -> %s  L%s'%(pl(t['d']),f.get('def','DYN'),','.join(tn(a)[:50] for a in f.get('args',[])),f.get('inst'),', '.join(map(op,t['a'])),t['t'],t['line']))
        elif t['k']=='switch': print('    switch %s %s else %s'%(op(t['d']),t['br'],t['o']))
        elif t['k']=='drop': print('    drop %s di=%s -> %s'%(pl(t['p']),t['di'],t['t']))
        elif t['k']=='assert': print('    assert %s==%s %s -> %s'%(op(t['c']),t['e'],t['m'],t['t']))
        else: print('    ',t)
