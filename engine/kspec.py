"""The upload tool (K01): what is sent is the file."""
import z3
from vals import *
from core import *
from terms import *
from lib_std import *
from lib_cli import *
from spec import Spec
NST, SENT, PHASE = ('gh', 'nst'), ('gh', 'sent'), ('gh', 'phase')
class KSpec(Spec):
    def __init__(s, export, props):
        Spec.__init__(s, export, [], props); s.compound = True; s.roots = {}; s.events_on = False
    def start(s, ex, fresh_state=True):
        s.ex = ex; st = State(); P = ex.P
        st.g.update(caller=z3.Const('caller', Prin), now=z3.Int('now'), events=(), cut=(), nev=0, msgs={})
        for r in (NST, SENT, PHASE): st.store[r] = 0; ex.rootty[r] = P.tyn('u64')
        return st
    def contract_pre(s, ex, st):
        n = [x for x in s.sig(ex)]
        st.g['path'] = zleaf(deref(ex, st, st.g['fargs'][2])); st.g['dest'] = zleaf(deref(ex, st, st.g['fargs'][3])); content(st, st.g['path'])
        st.add(z3.And(zint(st.g['fargs'][4]) >= 1, zint(st.g['fargs'][4]) < 2**62))
    def sig(s, ex): return ()
    def memids(s): return {}
    def loop_head(s, ex, st0, sh, mod, hv, name, world): pass
    def loop_back(s, ex, head, b, mod, hv, name, world): pass
    def is_world_mod(s, ex, mod): return False
    def trapped(s, ex, st, why): pass
    def ob(s, name, st, goal, where): s.oblige('K01', name, st, goal, '%s/%s' % (s.export, where))
    def candidates(s, ex, st0, sh, hv, name):
        out = []; F = CONTENT(st0.g['path']); L = blen(F)
        if SENT in {r for r, p in hv}:
            g = lambda r: lambda st: zint(st.store[r])
            sent, nst = g(SENT), g(NST)
            sizes = [zint(st0.g['fargs'][4])]
            out += [lambda ex, st: z3.And(sent(st) >= 0, sent(st) <= L), lambda ex, st: nst(st) >= 0, lambda ex, st: nst(st) <= sent(st)]
            for (r, p), (o, n) in hv.items():
                if r[:2] == ('gh', 'fpos'): out.append(lambda ex, st, r=r: zint(st.store[r]) == sent(st))
                if isinstance(o, It): out.append(lambda ex, st, k=(r, p): nst(st) == zint(ex.getp(st, *k).pos))
                elif is_leaf(o) and not isinstance(o, bool) and (isinstance(o, int) or z3.is_int(o)) and r[0] != 'gh':
                    out.append(lambda ex, st, k=(r, p): nst(st) == zint(ex.getp(st, *k)))
                    out.append(lambda ex, st, k=(r, p): sent(st) == zint(ex.getp(st, *k)))
                    out.append(lambda ex, st, k=(r, p): L - sent(st) == zint(ex.getp(st, *k)))
            for c in sizes:
                out.append(lambda ex, st, c=c: sent(st) == z3.If(nst(st) * c < L, nst(st) * c, L))
        return out
    def await_(s, ex, st, v, c):
        if v.d['name'] != 'agent_update': return Spec.await_(s, ex, st, v, c)
        b = v.d['args'][0]; P = ex.P; rt = P.fields(c.dt, 0)[0][1]; F = CONTENT(st.g['path']); out = []
        if b.d['arg'] is None or b.d['arg'].sexpr() not in st.g['msgs']: raise Unsupported('message of unknown content')
        vs = st.g['msgs'][b.d['arg'].sexpr()]
        if len(vs) != 1: raise Unsupported('message of %d values' % len(vs))
        ty, a = vs[0]; a = T(ex, ty, ex.enc(st, ty, a)); m = b.d['method']
        name = next((n for n in ('init_upload', 'store_chunk', 'finalize_upload') if ex.entails(st, m == CONSTS.str(n))), None)
        if name is None: raise Unsupported('call of another method')
        ph, nst, sent = zint(st.store[PHASE]), zint(st.store[NST]), zint(st.store[SENT]); w = 'call of ' + name
        self_ = zleaf(deref(ex, st, st.g['fargs'][1]))
        s.ob('the storage is asked where the caller said', st, z3.And(b.d['canister'] == self_, a.f('file_path').t == st.g['dest']), w)
        if name == 'init_upload':
            s.ob('the upload is announced once and first', st, ph == 0, w)
            s.ob('the announced size is the size of the file', st, a.f('file_size').t == blen(F), w)
            s.ob('the announced hash is the hash of the file', st, a.f('file_hash').t == HEX(SHA(F)), w)
        elif name == 'store_chunk':
            s.ob('chunks follow the announcement', st, ph == 1, w)
            s.ob('chunks are numbered consecutively from zero', st, a.f('chunk_id').t == nst, w)
            d = a.f('chunk_data').t; n = blen(d); st.add(n >= 0)
            s.ob('a chunk is the next piece of the file', st, z3.Or(n == 0, z3.And(sent + n <= blen(F), d == SUB(F, sent, sent + n))), w)
        else:
            s.ob('the upload is closed after the announcement', st, ph == 1, w)
            s.ob('all bytes of the file were sent', st, sent == blen(F), w)
        no = st.fork()
        rty = rt
        if name == 'init_upload': st.store[PHASE] = 1
        elif name == 'store_chunk': st.store[NST] = simp(nst + 1); st.store[SENT] = simp(sent + n)
        else: st.store[PHASE] = 2
        good = ok(rt, ex.fresh(st, P.fields(rt, 0)[0][1], 'answer')); bad = err(rt, ex.fresh(no, P.fields(rt, 1)[0][1], 'err'))
        return [(st, En(c.dt, 0, {0: (good,)})), (no, En(c.dt, 0, {0: (bad,)}))]
    def segment(s, kind, st, **kw): pass
    def finish(s, ex, rs):
        for st, v in rs:
            r = ex.force(st, st.g['reply']) if 'reply' in st.g else None
            if r is None: continue
            okk = zbool(simpb(zint(r.d) == 0))
            s.ob('success is reported only for a completed upload', st, z3.Implies(okk, z3.And(zint(st.store[PHASE]) == 2, zint(st.store[SENT]) == blen(CONTENT(st.g['path'])))), 'exit')
