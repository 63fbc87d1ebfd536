"""Codecs of the stored types: what to_bytes writes, from_bytes reads back (C12, I06)."""
import re
import z3
from vals import *
from core import *
from terms import *
from lib_std import *
from spec import Spec
import lib_cbor as CB
from lib_cbor import RPOS
RX = re.compile(r'^<(&?)(.*) as minicbor::(Encode|Decode)<.*>>::(encode|decode)')
RB = re.compile(r'^<(.*) as ic_stable_structures::Storable>::BOUND$')
RS = re.compile(r'^<(.*) as ic_stable_structures::Storable>::(to_bytes|from_bytes)$')
def find(P, T):
    """instances of the codec of local type T: (to_bytes, from_bytes) or (encode, decode)"""
    r = {}
    for n, i in enumerate(P.I):
        if i['crate'] != P.crate or i['body'] is None or '{closure' in i['name']: continue
        m = RS.match(i['name'])
        if m and m.group(1).split('::')[-1] == T: r[m.group(2)] = n
        m = RX.match(i['name'])
        if m and not m.group(1) and m.group(2).split('::')[-1] == T and i['name'].split('::<')[0].endswith(m.group(4)): r.setdefault(m.group(4), []).append(n)
    return r
def types(P):
    """local types stored through a codec of their own or used in one"""
    out = {}
    for n, i in enumerate(P.I):
        if i['crate'] != P.crate or i['body'] is None: continue
        m = RS.match(i['name']) or RX.match(i['name'])
        if not m: continue
        nm = m.group(1) if m.re is RS else m.group(2)
        if re.fullmatch(r'[\w:]+', nm): out[nm.split('::')[-1]] = 1
    return sorted(out)
class CSpec(Spec):
    codec = True
    def __init__(s, export, props):
        Spec.__init__(s, export, [], props); s.compound = True; s.roots = {}; s.T = export.split('.')[-1]; s.pid = None
    def start(s, ex):
        s.ex = ex; ex.MERGE_AT = 10**9
        st = State(); st.g.update(caller=z3.Const('caller', Prin), now=z3.Int('now'), events=(), cut=(), nev=0, streams={}, phase='encode')
        st.store[RPOS] = 0; ex.rootty[RPOS] = ex.P.tyn('usize')
        return st
    def memids(s): return {}
    def loop_head(s, ex, st0, sh, mod, hv, name, world): pass
    def loop_back(s, ex, head, b, mod, hv, name, world): pass
    def is_world_mod(s, ex, mod): return False
    def candidates(s, ex, st0, sh, hv, name): return []
    # ---- codecs by their contract: a value of a type with a codec is one unit of the byte stream
    def callee(s, ex, st, n, args):
        P = ex.P; i = P.I[n]; nm = i['name']
        m = RS.match(nm)
        if m:
            if n == s.entry.get(m.group(2)): return None
            b = i['body']
            if m.group(2) == 'to_bytes':
                ty = strip(ex, b['locals'][1]); v = ex.enc(st, ty, deref(ex, st, args[0]))
                buf = z3.Const('enc!%d' % uid(), Bytes); st.add(blen(buf) >= 0)
                st.g['streams'] = {**st.g['streams'], buf.sexpr(): (('stored', ty, v, buf),)}
                rt = b['locals'][0]
                no = []
                return [(st, En(rt, 1, {1: (buf,)}))]
            rt = b['locals'][0]; d = ex.force(st, args[0]); v = d.p[d.d][0]
            t = deref(ex, st, v); t = zleaf(ex.bytes_term(st, t) if isinstance(t, Sq) else t)
            seg = next((x for x in st.g['streams'].values() if x and x[0][0] == 'stored' and ex.entails(st, t == x[0][3])), None)
            if not seg or seg[0][0] != 'stored' or canon(P.name(seg[0][1])) != canon(P.name(rt)): raise Unsupported('nested from_bytes of other bytes')
            return [(st, ex.dec(st, rt, seg[0][2]))]
        m = RX.match(nm)
        if not m or m.group(1) or '{closure' in nm or not nm.split('::<')[0].endswith(m.group(4)): return None
        own = s.entry[m.group(4)] or ()
        if n in own and not any(x in ex.callstack for x in own): return None
        b = i['body']
        if m.group(3) == 'Encode':
            CB.chunk_put(ex, st, args[1], strip(ex, b['locals'][1]), deref(ex, st, args[0]))
            rt = b['locals'][0]; return [(st, ok(rt, unit(ex)))]
        rt = b['locals'][0]; ty = P.fields(rt, 0)[0][1]
        return [(st, CB.chunk_get(ex, st, args[0], ty, rt))]
    def trapped(s, ex, st, why):
        if st.g.get('phase') == 'decode': s.ob('every stored form is accepted when it is read', st, z3.BoolVal(False))
        else: s.ob('every value in range is stored', st, z3.Not(s.inrange(ex, st)))
    def inrange(s, ex, st):
        x = st.g['x']; P = ex.P
        def num(ty, v):
            c = P.cls(ty); T = P.ty(ty)
            if c == 'nat': 
                t = zleaf(v); i = T['def'] in ('candid::Int', 'num_bigint::bigint::BigInt')
                return z3.And(t >= -2**63, t < 2**63) if i else z3.And(t >= 0, t < 2**64)
            if c == 'transp': return num(P.inner(ty), v)
            v = ex.force(st, v)
            if c == 'struct': return And(*[num(x, y) for (_, x), y in zip(P.fields(ty), v.f)])
            if c == 'enum': return And(*[Implies(simpb(zint(v.d) == k), And(*[num(x, y) for (_, x), y in zip(P.fields(ty, k), v.p.get(k, ()))])) for k in range(len(P.ty(ty)['v']))])
            return True
        return zbool(num(st.g['xty'], x))
    def ob(s, name, st, goal):
        for p in s.props or ('C12' if s.ex.P.crate == 'core_nft' else 'I06',): s.oblige(p, name, st, goal, s.export)
    # ---- loops that write one group of tokens per iteration
    def linear(s, ex, st0, backs, mod):
        """integers that change by a constant in the first iteration, with the iterator they follow"""
        its = []
        for (r, p) in mod:
            o = ex.getp(st0, r, p)
            if isinstance(o, It) and all(isinstance(ex.getp(b, r, p), It) and eqv(simp(zint(ex.getp(b, r, p).pos) - zint(o.pos)), 1) for b in backs): its.append((r, p))
        if not its: return {}
        out = {}; b0 = sorted(its, key=str)[0]
        for (r, p) in mod:
            o = ex.getp(st0, r, p)
            if isinstance(o, bool) or not (isinstance(o, int) or isinstance(o, z3.ExprRef) and z3.is_int(o)): continue
            ds = [simp(zint(ex.getp(b, r, p)) - zint(o)) for b in backs]
            if all(z3.is_int_value(zint(d)) for d in ds) and len({zint(d).as_long() for d in ds}) == 1: out[(r, p)] = (b0, zint(ds[0]).as_long())
        return out
    def grow(s, ex, st0, head, backs, hv):
        """streams at the head of a loop whose iterations append the same tokens (as a function of the position); None when nothing is appended"""
        S0 = head.g['streams']; new = {}
        for b in backs:
            for k, segs in b.g['streams'].items():
                o = S0.get(k, ())
                if segs is o or len(segs) == len(o): continue
                if k not in S0: continue       # a buffer of the iteration's own
                new.setdefault(k, []).append((b, segs[len(o):]))
        if not new: return None
        its = [(k, o, n) for k, (o, n) in hv.items() if isinstance(o, It)]
        if len(its) != 1: raise Unsupported('loop writing a stream without a single iterator')
        (ik, io, inn) = its[0]; p = inn.pos
        if not isinstance(p, z3.ExprRef): raise Unsupported('position of the writing loop')
        okc = {c.get_id() for f in st0.pc for c in L.consts_of(f)} | {c.get_id() for v in st0.store.values() for c in L.consts_of_value(v)} | {c.get_id() for c in L.all_literals()} | {p.get_id()}
        out = dict(S0)
        for k, l in new.items():
            if len(l) != len(backs): raise Unsupported('iterations writing different tokens')
            for b, toks in l:
                if not L.samg(toks, l[0][1]): raise Unsupported('iterations writing different tokens')
                if not eqv(simp(zint(ex.getp(b, *ik).pos) - p), 1): raise Unsupported('step of the writing loop')
            for t in l[0][1]:
                for x in t:
                    if isinstance(x, z3.ExprRef):
                        for c in L.consts_of(x):
                            if c.get_id() not in okc and not str(c).startswith('Z_'): raise Unsupported('token of the writing loop depends on ' + str(c))
                if t[0] == 'rep': raise Unsupported('nested writing loops')
            out[k] = S0[k] + (('rep', simp(p - zint(io.pos)), p, simp(zint(io.pos)), tuple(l[0][1])),)
        return out
    # ---- declared size bounds: storing a longer form traps
    def bound(s, ex, st, v, key):
        P = ex.P; n = [k for k, i in enumerate(P.I) if i['crate'] == P.crate and i['body'] is not None and RB.match(i['name']) and RB.match(i['name']).group(1).split('::')[-1] == s.T]
        if len(n) != 1: raise Unsupported('no size bound of ' + s.T)
        st = st.fork(); (st, b), = ex.call_inst(st, n[0], []); b = ex.force(st, b); vs = [x['n'] for x in P.ty(b.ty)['v']]
        if not isinstance(b.d, int): raise Unsupported('size bound')
        if vs[b.d] == 'Unbounded': return
        f = dict(zip([x for x, _ in P.fields(b.ty, b.d)], b.p[b.d])); mx = zint(f['max_size']); fx = f['is_fixed_size']
        segs = st.g['streams'].get(key) if key else None
        if segs and segs[0][0] == 'stored': raise Unsupported('size of a stored value of another codec')
        if segs: sz = CB.size(ex, st, segs)
        else:
            v = deref(ex, st, v); sz = zint(ex.seq_term(st, v)[0]) if isinstance(v, Sq) else blen(zleaf(v))
        s.ob('every stored form fits the declared size', st, z3.Implies(s.inrange(ex, st), z3.If(zbool(fx), sz == mx, sz <= mx)))
    # ---- equality of what was read with what was stored
    def veq(s, ex, st, ty, a, b):
        P = ex.P
        a = deref(ex, st, a); b = deref(ex, st, b)
        while P.cls(ty) in ('transp', 'ref', 'box'): ty = P.inner(ty)
        if isinstance(a, Sq) and P.cls(ty) == 'bytes': a = ex.bytes_term(st, a)
        if isinstance(b, Sq) and P.cls(ty) == 'bytes': b = ex.bytes_term(st, b)
        if is_leaf(a) and is_leaf(b): return zleaf(a) == zleaf(b)
        a = ex.force(st, a); b = ex.force(st, b)
        if isinstance(a, St) and isinstance(b, St): return z3.And(True, *[s.veq(ex, st, x, y, z) for (_, x), y, z in zip(P.fields(ty), a.f, b.f)])
        if isinstance(a, En) and isinstance(b, En):
            g = [zint(a.d) == zint(b.d)]
            for k in range(len(P.ty(ty)['v'])):
                if simpb(zint(a.d) == k) is False or simpb(zint(b.d) == k) is False: continue
                if not P.fields(ty, k): continue
                if k not in a.p or k not in b.p: g.append(z3.And(zint(a.d) != k, zint(b.d) != k)); continue
                g.append(z3.Implies(z3.And(zint(a.d) == k, zint(b.d) == k), z3.And(True, *[s.veq(ex, st, x, y, z) for (_, x), y, z in zip(P.fields(ty, k), a.p[k], b.p[k])])))
            return z3.And(*g)
        if isinstance(a, Sq) and isinstance(b, Sq):
            la, aa, _ = ex.seq_term(st, a); lb, ab, _ = ex.seq_term(st, b); j = z3.Int('sk_j!%d' % uid())
            return z3.And(zint(la) == zint(lb), z3.Implies(z3.And(j >= 0, j < zint(la)), z3.Select(aa, j) == z3.Select(ab, j)))
        if isinstance(a, Mp) and isinstance(b, Mp):
            k = z3.Const('sk_k!%d' % uid(), a.arr.sort().domain())
            return z3.Select(a.arr, k) == z3.Select(b.arr, k)        # the size of a map follows from its content
        raise Unsupported('comparison of %r and %r' % (a, b))
def run(ex, P, sp):
    s = sp; T = s.T; f = find(P, T)
    if 'encode' not in f and 'to_bytes' not in f: raise Unsupported('no codec of ' + T)
    s.entry = {k: f.get(k) for k in ('encode', 'decode', 'to_bytes', 'from_bytes')}
    st = s.start(ex); out = []
    if 'to_bytes' in f:
        b = P.I[f['to_bytes']]['body']; ty = strip(ex, b['locals'][1]); x = ex.fresh(st, ty, 'x'); st.g['x'] = x; st.g['xty'] = ty
        rs = ex.call_inst(st, f['to_bytes'], [ex.tmp(st, x, ty)])
    else:
        rs = []; st0 = st
        for en in f['encode']:      # one instance per kind of buffer written to
            st = st0.fork()
            b = P.I[en]['body']; ty = strip(ex, b['locals'][1]); x = ex.fresh(st, ty, 'x'); st.g['x'] = x; st.g['xty'] = ty
            ety = P.inner(b['locals'][2]); wi = CB.find(ex, ety, 'writer'); wty = P.fields(ety)[wi][1]; own = P.cls(wty) not in ('ref', 'box')
            bty = wty if own else P.inner(wty)
            w = Sq(P.elem(bty) if P.cls(bty) == 'seq' else P.tyn('u8'), 0, None, None, ())
            if not own: w = ex.tmp(st, w, bty)
            e = ex.tmp(st, St(ety, [w if k == wi else ex.fresh(st, t, 'e') for k, (_, t) in enumerate(P.fields(ety))]), ety)
            buf = Rf(e.root, e.path + (('f', wi),)) if own else w
            for s2, r in ex.call_inst(st, en, [ex.tmp(st, x, ty), e, ex.tmp(st, unit(ex))]):
                r = ex.force(s2, r)
                if isinstance(r.d, int) and r.d == 0: rs.append((s2, buf))
                else:
                    # an encoder that gives up
                    bad = s2.fork(); bad.add(zint(r.d) != 0); s.trapped(ex, bad, 'error')
                    s2.add(zint(r.d) == 0); rs.append((s2, buf))
    n = 0
    for s2, r in rs:
        n += 1; s2.g['phase'] = 'decode'; s2.store[RPOS] = 0
        if 'to_bytes' in f:
            src = ex.force(s2, r); key = CB.streamkey(ex, s2, src.p[src.d][0])
            s.bound(ex, s2, src.p[src.d][0], key)
            rr = ex.call_inst(s2, f['from_bytes'], [r])
        else:
            src = ex.read(s2, r); key = CB.streamkey(ex, s2, src)
            dn = f['decode'][0]; b = P.I[dn]['body']; dty = P.inner(b['locals'][1])
            d = St(dty, [ex.tmp(s2, src) if nm == 'buf' else 0 if nm == 'pos' else St(t, ()) for nm, t in P.fields(dty)])
            rr = []
            for s3, v in ex.call_inst(s2, dn, [ex.tmp(s2, d, dty), ex.tmp(s2, unit(ex))]):
                v = ex.force(s3, v)
                if not (isinstance(v.d, int) and v.d == 0):
                    bad = s3.fork(); bad.add(zint(v.d) != 0); s.trapped(ex, bad, 'error'); s3.add(zint(v.d) == 0)
                if not (isinstance(v.d, int) and v.d != 0): rr.append((s3, v.p[0][0]))
        for s3, v in rr:
            s.ob('the value read is the value stored', s3, s.veq(ex, s3, ty, s3.g['x'], v))
            segs = s3.g['streams'].get(key) if key else ()
            if segs and segs[0][0] not in ('stored', 'raw'):
                s.ob('reading consumes exactly what was written', s3, zint(s3.store[RPOS]) == zint(CB.total(segs)))
                s.ob('the stored form does not look like a missing value', s3, z3.BoolVal(segs[0][0] not in ('null', 'undefined', 'rep')))
    if not n: raise Unsupported('nothing can be stored')
    return rs
import loops as L
