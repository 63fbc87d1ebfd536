"""World, invariant and obligation bookkeeping for the index canister (index_icrc7)."""
import re
import z3
from vals import *
from core import *
from terms import *
from lib_std import *
from spec import Spec, Seg, WV
import spec as _spec

def findroots(P):
    r = {}
    for i, t in enumerate(P.T):
        n = t['n']
        if not n.startswith('std::thread::LocalKey<'): continue
        if 'Option<state::RuntimeState>' in n: r['RS'] = ('tls', n)
        elif 'BTreeMap<index::IndexType' in n: r['IX'] = ('tls', n)
        elif 'BTreeMap<u64' in n: r['CA'] = ('tls', n)
    return r
plower = lambda: z3.Function('str_lower', Str, Str)
pt_ok = lambda s: z3.Function('principal_text_ok', Str, z3.BoolSort())(s)
pt_val = lambda s: z3.Function('principal_of_text', Str, Prin)(s)
class IWV(WV):
    def key(s, kind, x):
        """normalised index key"""
        P = s.ex.P; ity = P.tyn('index::IndexType'); D = P.keysort(ity)
        vi = P.variant(ity, kind); so = D.constructor(vi).domain(0)
        return D.constructor(vi)(x if x.sort() == so else so.constructor(0)(x))
    @property
    def ix(s): return s.root('IX')
    def ids(s, k):
        """(length, value at j) of the list of ids stored under k; nothing stored means the empty list"""
        m = s.ix; q = m.at(k).f(0)
        return z3.If(m.has(k), q.len, z3.IntVal(0)), lambda j: q.at(j).t
    def idbag(s, k):
        m = s.ix; q = m.at(k).f(0)
        return lambda x: z3.If(m.has(k), z3.Select(q.bag, x), z3.IntVal(0))
    @property
    def cache(s): return s.root('CA')
XI = z3.Int('gh_x0')               # an arbitrary block id (index contract)
i0 = z3.Int('gh_i0')               # an arbitrary block id
SERVED = z3.Bool('gh_served')      # the ledger (or an archive) holds that block
def wf(ln, arr, bag, x, w):
    """what a multiset says about the positions of its list: w is a position of x"""
    ln = zint(ln); j = z3.Int('j!%d' % uid()); c = z3.Select(bag, x)
    return [c >= 0, c <= ln, z3.Implies(c >= 1, z3.And(w >= 0, w < ln, z3.Select(arr, w) == x)),
            ForAll([j], z3.Implies(z3.And(0 <= j, j < ln, z3.Select(arr, j) == x), z3.And(c >= 1, z3.Implies(c == 1, j == w))), patterns=[z3.Select(arr, j)] if not z3.is_store(arr) else [])]
def X0(sp):
    P = sp.ex.P; D = P.sort(P.tyn(BWI)); return D.constructor(0)(i0, sp.L(i0))
BWI = 'icrc_ledger_types::icrc3::blocks::BlockWithId'
class ISpec(Spec):
    def __init__(s, export, rules, props=None):
        Spec.__init__(s, export, rules, props)
        s.compound = True; s.events_on = False
    memo_cands = True
    keep_lengths = True      # vectors built by straight-line code keep their concrete length (paths are not merged)
    ROOTS = ('RS', 'IX', 'CA')
    STABLE = ('IX', 'CA')
    def start(s, ex, fresh_state=True):
        s.ex = ex; s.roots = findroots(ex.P)
        st = State()
        st.g.update(caller=z3.Const('caller', Prin), now=z3.Int('now'), events=(), cut=(), nev=0)
        st.add(z3.And(st.g['now'] >= 0, st.g['now'] < 2**64))
        for r in s.ROOTS: s.tls_init(ex, st, s.roots[r], (None, s.roots[r][1]), fresh_state)
        if fresh_state: s.assume_inv(st)
        s.snap(st); st.g['wE'] = st.g['w0']
        st.store[('gh', 'added')] = 0; ex.rootty[('gh', 'added')] = ex.P.tyn('u64'); s.ghostix(st)
        s.first = True
        return st
    def ghostix(s, st):
        """ghost copy of the index as the last call of add_block_to_index left it"""
        r = s.roots['IX']; st.store[('gh', 'ix')] = st.store[r]; s.ex.rootty[('gh', 'ix')] = s.ex.rootty[r]
    def ixsame(s, ex, st):
        ty = ex.rootty[s.roots['IX']]
        return ex.enc(st, ty, st.store[s.roots['IX']]) == ex.enc(st, ty, st.store[('gh', 'ix')])
    def sorted_(s, ex, st, v):
        """lists of ids that were put in order: witnesses for the page contract"""
        if s.export == 'get_blocks' and ex.P.cls(v.ety) == 'int': st.g['sorts'] = st.g.get('sorts', ()) + (v,)
    # callees taken by their contract
    def callee(s, ex, st, n, args):
        nm = ex.P.I[n]['name'].split('::')[-1]
        if s.export == 'contract.' + nm: return None
        h = {'get_all_blocks': s.c_blocks, 'add_block_to_index': s.c_add, 'group_consecutive_block_ids': s.c_group}.get(nm)
        return h(ex, st, n, args) if h else None
    def contract_pre(s, ex, st):
        if s.export != 'contract.get_all_blocks': return
        ids = st.g['fargs'][0]; n, arr, bag = ex.seq_term(st, ids)
        p0 = z3.Int('gh_p0'); c = z3.Select(bag, i0)
        for f in wf(n, arr, bag, i0, p0) + [c <= 1, i0 >= 0, i0 < 2**64]: st.add(f)
        st.g['asked'] = (n, arr, bag, p0); st.g['cached0'] = s.wv(st).cache.has(i0); st.g['runs'] = (); st.g['replies'] = (); st.g['ledger'] = None
    def c_group(s, ex, st, n, args):
        """the runs of an ascending list: I03"""
        b = ex.P.I[n]['body']; rt = b['locals'][0]; v = deref(ex, st, args[0]); l, arr, bag = ex.seq_term(st, v)
        s.segment('group', st, name='group_consecutive_block_ids', ids=(zint(l), arr))
        r = ex.fresh(st, rt, 'runs'); m, ra, rb = ex.seq_term(st, r); D = ex.P.sort(r.ety)
        R = Runs(arr, l, '!%d' % uid()); cl = lambda k: D.len(z3.Select(ra, k)); cat = lambda k, j: z3.Select(D.arr(z3.Select(ra, k)), j)
        for f in R.facts(zint(m), cl, cat): st.add(f)
        p1 = z3.Int('gh_p1!%d' % uid())
        for f in wf(l, arr, bag, i0, p1): st.add(f)
        st.add(z3.Implies(z3.Select(bag, i0) <= 1, R.covers(zint(m), cl, cat, z3.Select(bag, i0), p1, i0)))
        st.g['runs'] = st.g.get('runs', ()) + ((R, p1, bag),)
        return [(st, r)]
    def await_(s, ex, st, v, c):
        nm = v.d['name']; P = ex.P
        if nm not in ('ledger_blocks', 'archive_blocks'): return Spec.await_(s, ex, st, v, c)
        a = [ext_arg(ex, st, v, i) for i in range(2)]
        old = s.wv(st)
        r = Spec.await_(s, ex, st, v, c)
        for st, _ in r:
            e = st.g['ext'][-1]; rep = T(ex, e.d['rt'], ex.enc(st, e.d['rt'], e.d['reply'])).v('Ok'); bl = rep.f('blocks'); x = X0(s)
            j = z3.Int('j!%d' % uid()); w = z3.Int('gh_w!%d' % uid()); cov = lambda p, q: z3.Function('COVERS', p.sort(), q.sort(), z3.IntSort(), z3.BoolSort())(p, q, i0)
            for f in wf(bl.len, bl.arr, bl.bag, x, w): st.add(f)
            st.add(ForAll([j], z3.Implies(z3.And(0 <= j, j < bl.len), bl.at(j).f('block').t == s.L(bl.at(j).f('id').t)), patterns=[z3.Select(bl.arr, j)]))
            if nm == 'ledger_blocks':
                q = v.d['args'][1]; q = deref(ex, st, q) if isinstance(q, Rf) else q
                if not (isinstance(q, Sq) and q.concrete and len(q.tail) == 1): raise Unsupported('block request with several ranges')
                g = a[1].at(0); lo = g.f('start').t; inr = z3.And(lo <= i0, i0 < lo + g.f('length').t)
                src = z3.Int('gh_src!%d' % uid()); ar = rep.f('archived_blocks'); k = z3.Int('k!%d' % uid())
                st.add(z3.And(src >= -2, src < ar.len, (src >= -1) == z3.And(inr, SERVED)))
                st.add(z3.Select(bl.bag, x) == z3.If(src == -1, 1, 0))
                en = ar.at(k); st.add(ForAll([k], z3.Implies(z3.And(0 <= k, k < ar.len), cov(en.f('callback').f('canister_id').t, en.f('args').t) == (src == k)), patterns=[z3.Select(ar.arr, k)]))
                st.g['ledger'] = Lib('asked', src=src, inr=inr); st.g['replies'] = ()
            else: st.add(z3.Select(bl.bag, x) == z3.If(cov(a[0].t, a[1].t), 1, 0))
            st.g['replies'] = st.g.get('replies', ()) + ((bl, w),)
        return r
    def c_blocks(s, ex, st, n, args):
        b = ex.P.I[n]['body']
        return [(st, Lib('ext', name='get_all_blocks', args=tuple(args), tys=tuple(b['locals'][1:b['argc'] + 1])))]
    def addone(s, w0, w1, K, blk):
        """adding a block lists its id at most once more under a key, and no other id"""
        a, b = w0.idbag(K)(XI), w1.idbag(K)(XI)
        return z3.And(b >= a, b <= a + z3.If(blk.f('id').t == XI, 1, 0))
    def c_add(s, ex, st, n, args):
        """either the block is added (index changed, result Ok) or refused (index unchanged): I01"""
        b = ex.P.I[n]['body']; rt = b['locals'][0]; r = s.roots['IX']; c = args[0]
        s.segment('add', st, name='add_block_to_index', block=T(ex, strip(ex, b['locals'][1]), ex.enc(st, strip(ex, b['locals'][1]), deref(ex, st, c))))
        no = st.fork(); w0 = s.wv(st); blk = T(ex, strip(ex, b['locals'][1]), ex.enc(st, strip(ex, b['locals'][1]), deref(ex, st, c)))
        st.store[r] = ex.havocv(st, st.store[r], ex.rootty[r], 'added'); s.ghostix(st)
        st.store[('gh', 'added')] = simp(zint(st.store[('gh', 'added')]) + 1)
        w1 = s.wv(st); K = s.indexkey(); st.add(ForAll([K], s.addone(w0, w1, K, blk), patterns=[w1.ix.slot(K)]))
        err = ex.fresh(no, ex.P.fields(rt, 1)[0][1], 'err')
        return [(st, En(rt, 0, {0: (St(ex.P.unit, ()),)})), (no, En(rt, 1, {1: (err,)}))]
    def wv(s, st, key=None): return IWV(s, s.ex, s.world(st) if key is None else st.g[key], st)
    # ledger content: ghost function from block id to block
    def L(s, i):
        P = s.ex.P; ty = P.tyn('icrc_ledger_types::icrc::generic_value::ICRC3Value')
        return z3.Function('LEDGER', z3.IntSort(), P.sort(ty))(zint(i))
    def inv(s, w, k=None):
        c = w.cache
        return [('cache', z3.Implies(c.has(k), c.at(k).f('value').f(0).t == s.L(k)))]
    def invix(s, w, K, extra=0):
        """no id is listed twice under a key, and only ids the counter has passed"""
        c = w.idbag(K)(XI); last = w.data('last_block_id').t
        return z3.And(c >= 0, c <= 1, z3.Implies(c >= 1, XI < last + extra))
    def indexkey(s, tag='K'): return z3.Const('%s!%d' % (tag, uid()), s.ex.P.keysort(s.ex.P.tyn('index::IndexType')))
    def assume_inv(s, st):
        w = s.wv(st); k = z3.Int('k!%d' % uid())
        if not w.absent(): st.add(w.data('last_block_id').t < 2**63)      # assumption: a ledger holds fewer than 2^63 blocks
        st.add(ForAll([k], dict(s.inv(w, k))['cache'], patterns=[z3.Select(w.cache.arr, k)]))
        if not w.absent(): K = s.indexkey(); st.add(ForAll([K], s.invix(w, K), patterns=[w.ix.slot(K)]))
    def havoc(s, ex, st):
        old = s.wv(st)
        for r in s.roots.values():
            v = st.store[r]
            if isinstance(v, En): st.store[r] = En(v.ty, 1, {1: (ex.fresh(st, ex.P.tyn('state::RuntimeState'), 'W'),)})
            else: st.store[r] = ex.havocv(st, v, ex.rootty[r], 'await')
        st.add(s.wv(st).data('ledger_canister_id').t == old.data('ledger_canister_id').t)       # rely: no message changes it (obligation on every entry point)
        s.assume_inv(st); s.snap(st); st.g['events'] = ()
        st.store[('gh', 'added')] = 0; s.ghostix(st)
    def loop_head(s, ex, st0, sh, mod, hv, name, world):
        Spec.loop_head(s, ex, st0, sh, mod, hv, name, world)
        if world and s.export == 'contract.get_all_blocks':
            s.segment('part', st0, name='before ' + name); s.snap(sh); sh.g['resnap'] = name
    def loop_back(s, ex, head, b, mod, hv, name, world):
        if world and s.export == 'contract.get_all_blocks': s.segment('part', b, name=name)
    def candidates(s, ex, st0, sh, hv, name):
        out = []
        if s.roots['CA'] in {r for r, p in hv}:
            def cacheinv(ex, st):
                k = z3.Int('k!inv'); w = s.wv(st)
                return ForAll([k], dict(s.inv(w, k))['cache'], patterns=[z3.Select(w.cache.arr, k)])
            out.append(cacheinv)
        if s.roots['IX'] in {r for r, p in hv}:
            out.append(lambda ex, st: s.ixsame(ex, st))
            if ('gh', 'added') in {r for r, p in hv}:
                l0 = s.wv(st0).data('last_block_id').t; a0 = zint(st0.store[('gh', 'added')])
                def once(ex, st):
                    K = z3.Const('K!inv', ex.P.keysort(ex.P.tyn('index::IndexType'))); w = s.wv(st); c = w.idbag(K)(XI)
                    return ForAll([K], z3.And(c >= 0, c <= 1, z3.Implies(c >= 1, XI < l0 + zint(st.store[('gh', 'added')]))), patterns=[w.ix.slot(K)])
                once.nm = 'once'; out.append(once)
        if s.roots['RS'] in {r for r, p in hv}: 
            l0 = s.wv(st0).data('ledger_canister_id').t
            out.append(lambda ex, st: s.wv(st).data('ledger_canister_id').t == l0)
        for r in s.rules:
            c = getattr(r, 'candidates', None)
            if c and s.export in [('contract.' if getattr(r, 'contract', False) else '') + n for n in r.names]: out += c(s, ex, st0, sh, hv, name)
        return out
def ext_arg(ex, st, x, i):
    ty = x.d['tys'][i]; v = x.d['args'][i]
    if isinstance(v, Rf): v = deref(ex, st, v); ty = strip(ex, ty)
    return T(ex, ty, ex.enc(st, ty, v))
class Runs:
    """ghost description of a list of numbers as maximal runs of consecutive ones: run(p) is the index of the run position p
    belongs to, at(p) where that run starts, first(k) where run k starts"""
    def __init__(s, arr, n, tag=''):
        I = z3.IntSort()
        s.arr = arr; s.n = zint(n); s.ci = z3.Function('run' + tag, I, I); s.rs = z3.Function('runstart' + tag, I, I); s.st = z3.Function('runfirst' + tag, I, I)
    def a(s, p): return z3.Select(s.arr, p)
    def unfold(s, p):
        """definition at position p, and the precondition there: the list ascends"""
        p = zint(p); b = s.a(p) != s.a(p - 1) + 1
        return z3.And(s.ci(0) == 0, s.rs(0) == 0, s.st(0) == 0,
                      z3.Implies(z3.And(p >= 1, p < s.n), z3.And(s.a(p - 1) <= s.a(p), s.ci(p) == s.ci(p - 1) + z3.If(b, 1, 0), s.rs(p) == z3.If(b, p, s.rs(p - 1)))),
                      z3.Implies(z3.And(p >= 0, p < s.n), s.st(s.ci(p)) == s.rs(p)))
    def lemmas(s):
        """facts proved by induction: (name, step)"""
        p, q, k = z3.Int('p!L'), z3.Int('q!L'), z3.Int('k!L')
        def one(p): return z3.And(s.rs(p) >= 0, s.rs(p) <= p, s.ci(p) >= 0, s.a(p) == s.a(s.rs(p)) + p - s.rs(p), s.ci(s.rs(p)) == s.ci(p), s.rs(s.rs(p)) == s.rs(p), s.ci(p) <= p)
        def two(p, q): return z3.Implies(z3.And(0 <= p, p <= q), z3.And(s.ci(p) <= s.ci(q), z3.Implies(s.ci(p) == s.ci(q), s.rs(p) == s.rs(q))))
        def three(k, q): return z3.Implies(z3.And(0 <= k, k <= s.ci(q)), z3.And(s.st(k) >= 0, s.st(k) <= q, s.ci(s.st(k)) == k, s.rs(s.st(k)) == s.st(k)))
        step = z3.And(q >= 0, q + 1 < s.n, s.unfold(q), s.unfold(q + 1))
        base = z3.And(s.n >= 1, s.unfold(z3.IntVal(0)))
        yield 'runs start at or before their positions', z3.And(z3.Implies(base, one(z3.IntVal(0))), z3.Implies(z3.And(step, one(q)), one(q + 1)))
        yield 'run indices grow', z3.And(z3.Implies(base, two(p, z3.IntVal(0))), z3.Implies(z3.And(step, z3.Implies(p <= q, two(p, q)), ForAll([p], two(p, q), patterns=[s.ci(p)])), two(p, q + 1)))
        yield 'every run index is taken', z3.And(z3.Implies(base, three(k, z3.IntVal(0))), z3.Implies(z3.And(step, one(q), three(k, q)), three(k, q + 1)))
        last = s.n - 1; e = z3.If(k < s.ci(last), s.st(k + 1), s.n)
        use = z3.And(0 <= p, p < s.n, s.n >= 1, one(p), s.unfold(p), s.unfold(last), three(s.ci(p), last), three(s.ci(p) + 1, last), three(k, last), three(k + 1, last),
                     ForAll([p, q], z3.Implies(z3.And(0 <= p, p <= q, q < s.n), two(p, q)), patterns=[(s.ci(p), s.ci(q))]))
        yield 'a position lies in its run', z3.Implies(z3.And(use, k == s.ci(p)), z3.And(k >= 0, k <= s.ci(last), s.st(k) <= p, p < e))
        yield 'and in no other', z3.Implies(z3.And(use, 0 <= k, k <= s.ci(last), s.st(k) <= p, p < e), z3.And(s.ci(p) == k, s.rs(p) == s.st(k)))
        yield 'runs are not empty', z3.Implies(z3.And(use, 0 <= k, k <= s.ci(last), three(k, last), three(k + 1, last)), z3.And(s.st(k) < e, s.st(k) >= 0, e <= s.n))
    def end(s, k): return z3.If(k < s.ci(s.n - 1), s.st(k + 1), s.n)
    def fact1(s, m): return z3.If(s.n == 0, m == 0, m == s.ci(s.n - 1) + 1)
    def fact2(s, m, clen, k): return z3.Implies(z3.And(0 <= k, k < m), z3.And(clen(k) == s.end(k) - s.st(k), clen(k) >= 1, s.st(k) >= 0, s.end(k) <= s.n))
    def fact3(s, m, clen, cat, k, j): return z3.Implies(z3.And(0 <= k, k < m, 0 <= j, j < clen(k)), z3.And(cat(k, j) == s.a(s.st(k) + j), s.a(s.st(k) + j) == s.a(s.st(k)) + j, s.ci(s.st(k) + j) == k))
    def facts(s, m, clen, cat):
        """what the contract promises to a caller, as (quantified) facts about the list of runs: m runs, clen(k) their lengths, cat(k, j) their elements"""
        k, j = z3.Int('k!%d' % uid()), z3.Int('j!%d' % uid())
        return [s.fact1(m), ForAll([k], s.fact2(m, clen, k), patterns=[clen(k)]), ForAll([k, j], s.fact3(m, clen, cat, k, j), patterns=[cat(k, j)])]
    def covers(s, m, clen, cat, count, p, x):
        """the ranges of the runs cover x once if the list holds it (at p), in its run, and not at all otherwise"""
        k = z3.Int('k!%d' % uid())
        inr = z3.And(cat(k, 0) <= x, x < cat(k, 0) + clen(k))
        return z3.And(z3.Implies(count >= 1, z3.And(s.ci(p) >= 0, s.ci(p) < m)),
                      ForAll([k], z3.Implies(z3.And(0 <= k, k < m), inr == z3.And(count >= 1, s.ci(p) == k)), patterns=[clen(k)]))
    def coverlemma(s):
        """covers() follows from facts(), placed() and the multiset of the list"""
        I = z3.IntSort(); cl = z3.Function('L_clen', I, I); ca = z3.Function('L_cat', I, I, I); m, p, x, cnt, k = [z3.Int('L_' + v) for v in ('m', 'p', 'x', 'count', 'k')]
        d = x - ca(k, 0)
        occ = lambda j: z3.Implies(z3.And(0 <= j, j < s.n, s.a(j) == x), z3.And(cnt >= 1, z3.Implies(cnt == 1, j == p)))
        pre = z3.And(s.fact1(m), s.fact2(m, cl, k), s.fact2(m, cl, s.ci(p)), *[s.fact3(m, cl, ca, k, e) for e in (z3.IntVal(0), d, p - s.st(k))],
                     s.n >= 0, m >= 0, cnt >= 0, cnt <= 1, z3.Implies(cnt >= 1, z3.And(0 <= p, p < s.n, s.a(p) == x)), occ(s.st(k) + d), s.placed(p, cl))
        inr = z3.And(ca(k, 0) <= x, x < ca(k, 0) + cl(k))
        return z3.Implies(z3.And(pre, 0 <= k, k < m), z3.And(inr == z3.And(cnt >= 1, s.ci(p) == k), z3.Implies(cnt >= 1, z3.And(s.ci(p) >= 0, s.ci(p) < m))))
    def placed(s, p, clen):
        """for a position p: the run it lies in"""
        k = s.ci(p)
        return z3.Implies(z3.And(0 <= p, p < s.n), z3.And(k >= 0, k <= s.ci(s.n - 1), s.st(k) <= p, p < s.st(k) + clen(k)))
class ISeg(Seg):
    def seqarg(s, i):
        t = s.farg(i); return t
ISpec.SEG = ISeg
