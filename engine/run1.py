import sys, time, traceback
import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *; from loops import LoopMixin; import lib_std, lib_ic, lib_index
from lib_std import Models
from spec import *; import rules
from solve import *
import ispec, irules, cspec, lib_cbor, kspec
def specfor(P, export, props):
    if P.crate == 'index_icrc7': return ispec.ISpec(export, irules.RULES, props)
    if P.crate.startswith('origyn_icrc7_cmdline'): return kspec.KSpec(export, props)
    return Spec(export, rules.RULES, props)
class Engine(LoopMixin, Ex): pass
def run_export(P, k, props=None, budget=200):
    name = k.split('.')[-1]
    if k.startswith('codec.'): return run_codec(P, k, props, budget)
    if k.startswith('contract.'): return run_contract(P, k, props, budget)
    ex = Engine(P, Models()); sp = specfor(P, name, props); ex.spec = sp
    ex.deadline = time.time() + budget
    st = sp.start(ex, name not in ('canister_init', 'canister_post_upgrade'))
    b = P.I[P.exports[k]]['body']; args = [ex.fresh(st, b['locals'][i], 'self') for i in range(1, b['argc'] + 1)]
    rs = ex.call_inst(st, P.exports[k], args)
    sp.finish(ex, rs)
    return ex, sp
def run_contract(P, k, props=None, budget=200):
    """an internal function under its own contract: arbitrary arguments, arbitrary state satisfying the invariant"""
    name = k.split('.')[-1]
    n = contract_inst(P, k)
    ex = Engine(P, Models()); sp = specfor(P, k, props); sp.rules = [r for r in sp.rules if getattr(r, 'contract', False)]; ex.spec = sp
    ex.deadline = time.time() + budget
    st = sp.start(ex, True)
    b = P.I[n]['body']; args = [ex.fresh(st, b['locals'][i], 'arg') for i in range(1, b['argc'] + 1)]
    st.g['fargs'] = tuple(args); st.g['ftys'] = tuple(b['locals'][1:b['argc'] + 1])
    sp.contract_pre(ex, st)
    rs = ex.call_inst(st, n, args); out = []
    for s, v in rs:
        if isinstance(v, Co):
            pty = P.I[P.ty(v.ty)['inst']]['body']['locals'][0]; rty = P.fields(pty, 0)[0][1]
            for s2, w in lib_ic.run_future(ex, s, v):
                w = ex.force(s2, w)
                if w.d != 0: raise Unsupported('future left pending')
                s2.g['reply'] = w.p[0][0]; s2.g['replyty'] = rty; out.append((s2, w))
        else: s.g['reply'] = v; s.g['replyty'] = b['locals'][0]; out.append((s, v))
    rs = out
    sp.finish(ex, rs)
    return ex, sp
def run_codec(P, k, props=None, budget=200):
    ex = Engine(P, Models()); sp = cspec.CSpec(k, props); ex.spec = sp; ex.deadline = time.time() + budget
    cspec.run(ex, P, sp)
    return ex, sp
def contract_inst(P, k):
    name = k.split('.')[-1]
    c = [n for n, i in enumerate(P.I) if i['crate'] == P.crate and i['body'] is not None and i['name'].split('::')[-1] == name]
    return c[0] if len(c) == 1 else None
if __name__ == '__main__':
    P = Prog('/tmp/mir/core_nft.mir.json')
    names = sys.argv[1:]
    if names[0] == 'all': names = sorted(P.exports)
    for nm in names:
        k = nm if nm in P.exports else next(e for e in P.exports if e.split('.')[-1] == nm)
        t = time.time()
        try: ex, sp = run_export(P, k)
        except Unsupported as u:
            print('UNS', k, str(u)[:300], '@', getattr(u, 'where', ''), round(time.time()-t,1)); traceback.print_exc() if len(names) == 1 else 0; continue
        t1 = time.time(); bad = 0
        for o in sp.obls:
            t2 = time.time(); r = discharge(o); dt = time.time() - t2
            if r != 'proved' or dt > 3: bad += r != 'proved'; print('   ', r, round(dt, 1), o['prop'], o['name'], '@', o['where'][-60:], len(o['pc']))
        print('%-60s obligations %d not proved %d  exec %.1fs solve %.1fs' % (k, len(sp.obls), bad, t1 - t, time.time() - t1), flush=True)
