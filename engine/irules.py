"""Obligations of the index canister."""
import z3
from vals import *
from core import *
from terms import *
from ispec import *
import ispec
from ispec import X0, XI, i0, SERVED, wf, BWI, ext_arg
ROLES = {'7mint': ('to',), '7burn': ('from', 'to'), '7xfer': ('from', 'to'), '7update_token': ('from',), '37approve': ('from', 'spender'), '37approve_coll': ('from', 'spender'),
         '37revoke': ('from', 'spender'), '37revoke_coll': ('from', 'spender'), '37xfer': ('from', 'spender', 'to')}
def contract(*names):
    def d(f): f.contract = True; f.names = names; return f
    return d
def mget(m, k):
    """entry of a block's map: (present, value)"""
    k = CONSTS.str(k); return m.has(k), m.at(k)
@contract('add_block_to_index')
def i01(g):
    if g.export != 'contract.add_block_to_index' or g.kind != 'end': return
    b = g.farg(0); d = b.f('block'); n = b.f('id').t; r = g.reply(); okk = r.is_('Ok')
    m = d.v('Map'); hb, vb = mget(m, 'btype'); name = vb.v('Text').t
    hx, vx = mget(m, 'tx'); tx = vx.v('Map')
    P = g.ex.P; K = z3.Const('K!%d' % uid(), P.keysort(P.tyn('index::IndexType'))); j = g.sk('j')
    l0, v0 = g.w0.ids(K); l1, v1 = g.w1.ids(K)
    yield 'I01', 'a block that is refused leaves the index as it was', z3.Implies(z3.Not(okk), g.w0.ix.slot(K) == g.w1.ix.slot(K))
    yield 'I01', 'no key lists the block twice, and no other id is added', g.sp.addone(g.w0, g.w1, K, b)
    for t, roles in ROLES.items():
        pre = z3.And(d.is_('Map'), hb, vb.is_('Text'), name == CONSTS.str(t))
        keys = [K == g.w0.key('BlockType', CONSTS.str(t))]
        for role in roles:
            h, v = mget(tx, role); s = v.v('Text').t
            keys.append(z3.And(hx, vx.is_('Map'), h, v.is_('Text'), pt_ok(s), K == g.w0.key('Account', g.acc(pt_val(s), ZERO32))))
        if not t.endswith('_coll'):
            h, v = mget(tx, 'tid')
            keys.append(z3.And(hx, vx.is_('Map'), h, v.is_('Nat'), K == g.w0.key('TokenId', v.v('Nat').t)))
        named = z3.Or(*keys)
        yield 'I01', 'a %s block is accepted' % t, z3.Implies(pre, okk)
        yield 'I01', '%s: one entry more under every key the block names' % t, z3.Implies(z3.And(pre, named), z3.And(l1 == l0 + 1, v1(z3.IntVal(0)) == n))
        yield 'I01', '%s: earlier entries stay' % t, z3.Implies(z3.And(pre, named, j >= 0, j < l0), v1(j + 1) == v0(j))
        yield 'I01', '%s: nothing under any other key' % t, z3.Implies(z3.And(pre, z3.Not(named)), z3.And(l1 == l0, z3.Implies(z3.And(j >= 0, j < l0), v1(j) == v0(j))))
def groupruns(sp, ex, st):
    v = st.g['fargs'][0]; v = deref(ex, st, v); n, arr, bag = ex.seq_term(st, v)
    return Runs(arr, n)
@contract('group_consecutive_block_ids')
def i03(g):
    if g.export != 'contract.group_consecutive_block_ids' or g.kind != 'end': return
    R = groupruns(g.sp, g.ex, g.st); r = g.reply(); m = r.len; n = R.n; last = n - 1
    u = z3.And(R.unfold(last), R.unfold(z3.IntVal(0)), R.unfold(n))
    k, j = g.sk('nk'), g.sk('j'); c = r.at(k)
    lem = list(R.lemmas())
    for nm, f in lem: yield 'I03', 'lemma: ' + nm, f
    yield 'I03', 'fetching the runs as ranges fetches exactly the listed ids, each once', R.coverlemma()
    yield 'I03', 'nothing to split gives no runs', z3.Implies(n == 0, m == 0)
    yield 'I03', 'as many runs as there are gaps, plus one', z3.Implies(z3.And(u, n >= 1), m == R.ci(last) + 1)
    kk = z3.And(u, n >= 1, 0 <= k, k < m)
    yield 'I03', 'every run ends where the next begins, the last at the end of the list', z3.Implies(kk, c.len == R.end(k) - R.st(k))
    yield 'I03', 'a run holds the ids of the list in their order', z3.Implies(z3.And(kk, 0 <= j, j < c.len), c.at(j).t == R.a(R.st(k) + j))
def i03c(sp, ex, st0, sh, hv, name):
    P = ex.P; R = groupruns(sp, ex, st0); out = []
    def isl(v, depth):
        if not isinstance(v, Sq): return False
        c = P.cls(v.ety)
        return c == 'int' if depth == 1 else c == 'seq' and P.cls(P.elem(v.ety)) == 'int'
    ps = []
    for k, (o, n) in hv.items():
        if isinstance(n, It): ps.append(lambda ex, st, k=k: zint(ex.getp(st, *k).pos))
        elif isinstance(n, z3.ExprRef) and z3.is_int(n): ps.append(lambda ex, st, k=k: zint(ex.getp(st, *k)))
    for f in ps:
        for d in (-1, 0, 1): sh.add(R.unfold(f(ex, sh) + d)); st0.add(R.unfold(f(ex, st0) + d))
    def add(nm, c): c.nm = nm; out.append(c)
    for fi, f in enumerate(ps):
        for d in (-1, 0):
            T = 'p%d%+d ' % (fi, d)
            q = lambda ex, st, f=f, d=d: f(ex, st) + d
            add(T + 'range', lambda ex, st, q=q: z3.And(q(ex, st) >= 0, q(ex, st) < R.n))
            for k, (o, n) in hv.items():
                if isinstance(n, z3.ExprRef) and z3.is_int(n):
                    add(T + 'start', lambda ex, st, q=q, k=k: zint(ex.getp(st, *k)) == R.rs(q(ex, st)))
                    add(T + 'startle', lambda ex, st, q=q, k=k: zint(ex.getp(st, *k)) <= q(ex, st))
                if isl(n, 1):
                    def cur(ex, st, q=q, k=k):
                        l, a, b = ex.seq_term(st, ex.getp(st, *k)); j = z3.Int('j!c'); qq = q(ex, st)
                        return z3.And(zint(l) == qq - R.rs(qq) + 1, ForAll([j], z3.Implies(z3.And(0 <= j, j < zint(l)), z3.Select(a, j) == R.a(R.rs(qq) + j)), patterns=[z3.Select(a, j)]))
                    add(T + 'cur', cur)
                if isl(n, 2):
                    D = P.sort(n.ety)
                    for extra in (0, 1):
                        add(T + 'count%d' % extra, lambda ex, st, q=q, k=k, extra=extra: zint(ex.seq_len(st, ex.getp(st, *k))) == R.ci(q(ex, st)) + extra)
                    def body(ex, st, k=k):
                        l, a, b = ex.seq_term(st, ex.getp(st, *k)); i = z3.Int('k!c'); c = z3.Select(a, i)
                        return ForAll([i], z3.Implies(z3.And(0 <= i, i < zint(l)), D.len(c) == R.st(i + 1) - R.st(i)), patterns=[c])
                    def elems(ex, st, k=k):
                        l, a, b = ex.seq_term(st, ex.getp(st, *k)); i = z3.Int('k!c'); j = z3.Int('j!c'); c = z3.Select(a, i)
                        return ForAll([i, j], z3.Implies(z3.And(0 <= i, i < zint(l), 0 <= j, j < D.len(c)), z3.Select(D.arr(c), j) == R.a(R.st(i) + j)), patterns=[z3.Select(D.arr(c), j)])
                    add(T + 'lens', body); add(T + 'elems', elems)
    return out
i03.candidates = i03c
U64 = 2**64
def lastid(w): return w.data('last_block_id').t
def i05(g):
    """a round of the index job"""
    sp = g.sp; added = zint(g.st.store[('gh', 'added')])
    if g.kind == 'end' or g.kind == 'await':
        w0, w1 = g.w0, g.w1
        yield 'I05', 'the index changes only by adding blocks', sp.ixsame(g.ex, g.st)
        yield 'I05', 'an id is listed at most once under a key, and only if the counter has passed it', sp.invix(w1, sp.indexkey())
        yield 'I04', 'the ledger asked is never changed', w0.data('ledger_canister_id').t == w1.data('ledger_canister_id').t
        yield 'I05', 'the progress counter advances by the number of blocks added', lastid(w1) == lastid(w0) + added
        if g.kind == 'await' and g.export == 'update_index_job':
            x = g.kw['ext']
            if x.d['name'] != 'get_all_blocks': yield 'I05', 'no other call during a round', z3.BoolVal(False); return
            ids = ext(g, x, 0); so = ext(g, x, 1); j = g.sk('j')
            yield 'I05', 'a round asks for the block at the counter and those after it', z3.And(ids.len >= 1, z3.Implies(z3.And(0 <= j, j < ids.len), ids.at(j).t == lastid(w1) + j))
            yield 'I05', 'a round takes the blocks in ascending order', z3.Not(z3.And(so.some(), so.val().is_('Descending')))
    if g.kind == 'add':
        yield 'I05', 'the block added is the one the counter stands at', g.kw['block'].f('id').t == lastid(g.w0) + added
i05.ev = True
def i04(g):
    """cached blocks are the ledger's; cleaning removes exactly the old entries"""
    if g.kind not in ('end', 'await'): return
    k = g.sk('n'); c0, c1 = g.w0.cache, g.w1.cache
    yield 'I04', 'a cached block is the block the ledger returned for that id', dict(g.sp.inv(g.w1, k))['cache']
    if g.export in ('remove_all_values_older_than', 'contract.remove_all_values_older_than', 'cleanup_cache_job') and g.kind == 'end':
        limit = g.farg(0).t if g.export.startswith('contract.') else g.now
        yield 'I04', 'cleaning removes exactly the entries older than the given time', c1.has(k) == z3.And(c0.has(k), c0.at(k).f('timestamp').t >= limit)
        yield 'I04', 'cleaning leaves the entries it keeps as they were', z3.Implies(c1.has(k), c0.at(k).t == c1.at(k).t)
i04.ev = True
@contract('remove_all_values_older_than')
def i04c(g): yield from i04(g)
class Filters:
    """ghost: which of the first filters list the id X0"""
    def __init__(s, w, F):
        s.w = w; s.F = F; s.n = F.len; s.m = z3.Function('gh_match', z3.IntSort(), z3.BoolSort())
    def count(s, i): return s.w.idbag(s.F.at(i).key())(XI)
    def unfold(s, p): return z3.And(s.m(0), z3.Implies(z3.And(p >= 1, p < s.n), s.m(p) == z3.And(s.m(p - 1), s.count(p) > 0)), z3.Implies(z3.And(p >= 0, p < s.n), s.count(p) >= 0))
def twice(S):
    """a list that holds an id at two positions holds it twice"""
    l, arr, bag = S; a, b = z3.Int('a!%d' % uid()), z3.Int('b!%d' % uid())
    return ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < zint(l), z3.Select(arr, a) == XI, z3.Select(arr, b) == XI), z3.Select(bag, XI) >= 2), patterns=[z3.MultiPattern(z3.Select(arr, a), z3.Select(arr, b))])
def order(x): return z3.And(x.some(), x.val().is_('Descending'))
def i02(g):
    if g.export != 'get_blocks' or g.kind not in ('await', 'end'): return
    a = g.arg(0); F = a.f('filters'); n = F.len; st = g.st; w0 = g.wE; first = not st.g.get('ext')
    start, length = a.f('start').t, a.f('length').t; des = order(a.f('sort_by')); last = lastid(w0)
    fl = Filters(w0, F); j, k = g.sk('j'), g.sk('jk'); sat = lambda e: z3.If(e >= U64, z3.IntVal(U64 - 1), e)
    def page(lo, hi):
        """(list of matching ids in order) at the page"""
        for S in st.g.get('sorts', ()):
            S = T(g.ex, None, None) if False else g.ex.seq_term(st, S)
            l, arr, bag = S; l = zint(l)
            whole = z3.And(z3.Select(bag, XI) == z3.If(fl.m(n - 1), fl.count(z3.IntVal(0)), 0),
                           z3.Implies(z3.And(0 <= j, j <= k, k < l), z3.Select(arr, j) <= z3.Select(arr, k)))
            yield z3.Implies(z3.And(fl.unfold(n - 1), fl.unfold(z3.IntVal(0))), whole), l, arr
    if g.kind == 'await':
        x = g.kw['ext']
        if x.d['name'] != 'get_all_blocks': yield 'I02', 'no other call during a query', z3.BoolVal(False); return
        Q = ext(g, x, 0); so = ext(g, x, 1); j2 = g.sk('j2')
        s0 = z3.If(des, z3.If(last >= length, last - length, 0), start); m = sat(s0 + length) - s0
        yield 'I02', 'without filters: the blocks of the page', z3.Implies(n == 0, z3.And(Q.len == m, z3.Implies(z3.And(0 <= j, j < m), Q.at(j).t == s0 + j)))
        yield 'I02', 'the blocks are fetched in the order asked for', order(so) == des
        lo, hi = start, sat(start + length)
        alts = list(page(lo, hi))
        yield 'I02', 'with filters: exactly the ids every filter lists, in order', z3.Implies(n > 0, z3.Or(*[w for w, l, arr in alts]) if alts else z3.BoolVal(False))
        yield 'I02', 'no block is fetched twice', z3.Implies(z3.And(0 <= j, j < k, k < Q.len, *[twice(g.ex.seq_term(st, S)) for S in st.g.get('sorts', ())], fl.unfold(n - 1), fl.unfold(z3.IntVal(0))), z3.Not(z3.And(Q.at(j).t == XI, Q.at(k).t == XI)))
        pg = [z3.And(lo <= l, Q.len == z3.If(hi <= l, hi, l) - lo, z3.Implies(z3.And(0 <= j2, j2 < Q.len), Q.at(j2).t == z3.Select(arr, lo + j2))) for w, l, arr in alts]
        yield 'I02', 'with filters: the page of that list', z3.Implies(n > 0, z3.Or(*pg) if pg else z3.BoolVal(False))
    else:
        r = g.reply()
        yield 'I02', 'the total reported is the number of blocks indexed', r.f('total').t == lastid(g.w1)
        if first:
            alts = list(page(0, 0))
            yield 'I02', 'with filters: exactly the ids every filter lists, in order', z3.Implies(n > 0, z3.Or(*[w for w, l, arr in alts]) if alts else z3.BoolVal(False))
            yield 'I02', 'an empty answer without a fetch: the page is empty', z3.And(r.f('blocks').len == 0, z3.Or(*[z3.And(n > 0, z3.Or(start >= l, length == 0)) for w, l, arr in alts], z3.And(n == 0, length == 0)))
        else:
            e = st.g['ext'][-1]; er = T(g.ex, e.d['rt'], g.ex.enc(st, e.d['rt'], e.d['reply']))
            yield 'I02', 'the blocks of the page are returned', z3.And(er.is_('Ok'), r.f('blocks').t == er.v('Ok').t, len(st.g['ext']) == 1)
i02.ev = True
def i02c(sp, ex, st0, sh, hv, name):
    """what a loop over the filters has computed about the id X0"""
    if 'arg' not in st0.g: return []
    P = ex.P; out = []; a = T(ex, st0.g['argty'], ex.enc(st0, st0.g['argty'], st0.g['arg'])).f(0); fl = Filters(sp.wv(st0, 'wE'), a.f('filters'))
    its = [k for k, (o, n) in hv.items() if isinstance(n, It)]
    for f in its:
        pos = lambda ex, st, f=f: zint(ex.getp(st, *f).pos)
        for k, (o, n) in hv.items():
            if not (isinstance(n, Sq) and P.cls(n.ety) == 'int'): continue
            for d in (-1, 0, 1):
                for s in (sh, st0): s.add(fl.unfold(pos(ex, s) + d)); s.add(fl.unfold(pos(ex, s) + d + 1))
                out.append(lambda ex, st, k=k, d=d, pos=pos: z3.Select(ex.seq_term(st, ex.getp(st, *k))[2], XI) == z3.If(fl.m(pos(ex, st) + d), fl.count(z3.IntVal(0)), 0))
    return out
i02.candidates = i02c; i02.names = ('get_blocks',)
def ilife(g):
    if g.kind != 'end': return
    e = g.export; P = g.ex.P; st = g.st
    if e == 'canister_init':
        if g.w1.absent(): raise Unsupported('no state installed')
        yield 'I05', 'a new index starts at the first block', lastid(g.w1) == 0
    elif e == 'canister_pre_upgrade':
        if 'saved' not in st.g or not isinstance(st.g['saved'], St): raise Unsupported('no state saved')
        rt = P.tyn('state::RuntimeState'); rs = T(g.ex, rt, g.ex.enc(st, rt, st.g['saved'].f[0]))
        for n in ('last_block_id', 'ledger_canister_id'): yield 'I05', 'upgrade saves ' + n, rs.f('data').f(n).t == g.w0.data(n).t
        yield from stable(g)
    else:
        if 'restored' not in st.g or g.w1.absent(): raise Unsupported('no state restored')
        rv = g.ex.force(st, st.g['restored'])
        rt = P.fields(rv.ty)[0][1]; rs = T(g.ex, rt, g.ex.enc(st, rt, rv.f[0]))
        for n in ('last_block_id', 'ledger_canister_id'): yield 'I05', 'upgrade restores ' + n, g.w1.data(n).t == rs.f('data').f(n).t
        yield from stable(g)
ilife.life = True
def stable(g):
    yield 'I05', 'an upgrade leaves the index alone', g.w0.root('IX').t == g.w1.root('IX').t
    yield 'I04', 'an upgrade leaves the cache alone', g.w0.root('CA').t == g.w1.root('CA').t
    ids = g.sp.memids(); u = g.st.g.get('upmem')
    if u is None: raise Unsupported('memory of the saved state')
    ks = [k for _, k in ids.values()] + [u]
    if any(k is None for k in ks): raise Unsupported('stable memory ids')
    d = And(*[Not(Eq(ks[i], ks[j])) for i in range(len(ks)) for j in range(i)])
    for p in ('I04', 'I05'): yield p, 'index, cache and saved state live in different stable memories', d
    for r, (op, _) in ids.items(): yield {'IX': 'I05', 'CA': 'I04'}[r], 'the stable map is reopened, not recreated', op == 'init'
def ext(g, x, i): return ext_arg(g.ex, g.st, x, i)
@contract('get_all_blocks')
def blocks(g):
    """the blocks asked for, from the cache or the ledger"""
    if g.export != 'contract.get_all_blocks': return
    sp = g.sp; st = g.st
    if g.kind in ('end', 'await', 'part'):
        yield 'I05', 'fetching blocks leaves the counter and the index alone', z3.And(lastid(g.w0) == lastid(g.w1), g.w0.root('IX').t == g.w1.root('IX').t)
        yield 'I04', 'the ledger asked is never changed', g.w0.data('ledger_canister_id').t == g.w1.data('ledger_canister_id').t
        yield 'I04', 'a cached block is the block the ledger returned for that id', dict(sp.inv(g.w1, g.sk('n')))['cache']
    if g.kind == 'await':
        x = g.kw['ext']
        if x.d['name'] == 'ledger_blocks': yield 'I04', 'blocks are asked from the configured ledger', ext(g, x, 0).t == g.w1.data('ledger_canister_id').t
        elif x.d['name'] != 'archive_blocks': yield 'I04', 'no other call while fetching', z3.BoolVal(False)
    if g.kind == 'group':
        l, arr = g.kw['ids']; j, k = g.sk('j'), g.sk('jk')
        yield 'I03', 'ids are in ascending order when they are grouped', z3.Implies(z3.And(0 <= j, j <= k, k < l), z3.Select(arr, j) <= z3.Select(arr, k))
    if g.kind == 'end':
        r = g.reply(); okk = r.is_('Ok'); q = r.v('Ok'); n, arr, bag, p0 = st.g['asked']; asked = z3.Select(bag, i0) >= 1
        yield 'I04', 'a block that was asked for and is held is returned once, any other not at all', z3.Implies(okk, z3.Select(q.bag, X0(sp)) == z3.If(z3.And(asked, z3.Or(st.g['cached0'], SERVED)), 1, 0))
        j, k = g.sk('j'), g.sk('jk'); so = g.farg(1); d = order(so); a, b = q.at(j).f('id').t, q.at(k).f('id').t
        yield 'I02', 'blocks come in the order asked for', z3.Implies(z3.And(okk, 0 <= j, j <= k, k < q.len), z3.If(d, a >= b, a <= b))
def blocksc(sp, ex, st0, sh, hv, name):
    P = ex.P; out = []; x = X0(sp); bwi = P.tyn(BWI); st = st0
    n, arr, bag, p0 = st0.g['asked']; cached0 = st0.g['cached0']; asked = z3.Select(bag, i0) >= 1
    for f in [k for k, (o, n) in hv.items() if isinstance(n, It)]:
        pos = lambda s, f=f: zint(ex.getp(s, *f).pos)
        for k, (o, n) in hv.items():
            if not isinstance(n, Sq): continue
            isb = P.cls(n.ety) == 'struct' and P.name(n.ety) == P.name(bwi); isi = P.cls(n.ety) == 'int'
            if not (isb or isi): continue
            at = x if isb else i0; nl, na, nb = ex.seq_term(sh, n); sh.add(z3.And(z3.Select(nb, at) >= 0, z3.Select(nb, at) <= zint(nl)))      # multiset and length of a list agree
            b0 = z3.Select(ex.seq_term(st0, o)[2], at)
            def add(nm, cond, k=k, at=at, b0=b0, pos=pos):
                c = lambda ex, s: z3.Select(ex.seq_term(s, ex.getp(s, *k))[2], at) == b0 + z3.If(cond(pos(s)), 1, 0)
                c.nm = nm; out.append(c)
            # what can hold depends on how far the function has come: cache, runs, archives, blocks of a reply
            if not st0.g['runs']: add('uncached', lambda p: z3.And(asked, p0 < p, z3.Not(cached0))) if isi else add('cached', lambda p: z3.And(asked, p0 < p, cached0)); continue
            if isi: continue
            if st0.g['ledger'] is None:
                for R, p1, bs in st0.g['runs']: add('runs', lambda p, R=R, p1=p1, bs=bs: z3.And(z3.Select(bs, i0) >= 1, R.ci(p1) < p, SERVED))
                continue
            if len(st0.g['replies']) <= 1: src = st0.g['ledger'].d['src']; add('archives', lambda p, src=src: z3.And(src >= 0, src < p))
            for bl, w in st0.g['replies'][-1:]: add('reply', lambda p, bl=bl, w=w: z3.And(z3.Select(bl.bag, x) >= 1, w < p))
    return out
blocks.candidates = blocksc
RULES = [i01, i02, i03, i05, i04, i04c, ilife, blocks]
