"""Contracts of the canister's entry points: every rule turns a stretch of execution (segment) into proof obligations."""
import z3
from vals import *
from core import *
from terms import *
from spec import *

EV = {'icrc7_transfer': '7xfer', 'icrc37_transfer_from': '37xfer', 'icrc37_approve_tokens': '37approve', 'icrc37_approve_collection': '37approve_coll',
      'icrc37_revoke_token_approvals': '37revoke', 'icrc37_revoke_collection_approvals': '37revoke_coll', 'mint': '7mint', 'burn_nft': '7burn', 'update_nft_metadata': '7update_token'}
BATCH = {'icrc7_transfer', 'icrc37_transfer_from', 'icrc37_approve_tokens', 'icrc37_approve_collection', 'icrc37_revoke_token_approvals', 'icrc37_revoke_collection_approvals'}
U64 = 2**64
def default(o, d): return z3.If(o.some(), o.val().t, z3.IntVal(d))

class Item:
    """one request of a batch and its answer, in the iteration that handled it"""
    pass
def item(seg):
    """the request/answer pair handled by this iteration; None when the segment is not an iteration that answers"""
    if hasattr(seg, '_item'): return seg._item
    seg._item = None
    if seg.kind != 'iter' or seg.export not in BATCH: return None
    ex = seg.ex; P = ex.P
    req = seg.arg(0)
    cands = []
    for k, n, pushed in seg.kw['accs']:
        e = n.ety
        ok = P.adt(e) == 'std::option::Option' and P.cls(P.fields(e, 1)[0][1]) == 'enum' and {v['n'] for v in P.ty(P.fields(e, 1)[0][1])['v']} == {'Ok', 'Err'}
        if ok: cands.append((k, n, pushed))
    if not cands: return None
    if len(cands) != 1: raise Unsupported('several answer lists')
    k, n, pushed = cands[0]
    if pushed is None: raise Unsupported('answer list modified other than by appending')
    if len(pushed) == 0:
        it = seg._item = Item(); it.pushed = 0; it.ok = z3.BoolVal(False); it.res = None; it.req = None; it.arr = n.arr
        return it
    if len(pushed) != 1: raise Unsupported('several answers in one iteration')
    it = seg._item = Item(); it.pushed = 1
    it.j = zint(n.bl); it.arr = n.arr
    it.req = req.at(it.j)
    r = T(ex, n.ety, ex.enc(seg.st, n.ety, pushed[0]))
    it.res = r; it.isok = z3.And(r.some(), r.val().is_('Ok')); it.ok = it.isok
    it.idx = r.val().v('Ok').t
    it.inrange = z3.And(it.j >= 0, it.j < req.len)
    return it
def tid_of(seg, it):
    return it.req.f('token_id').t if 'collection' not in seg.export else None
def info(seg, it):
    return it.req.f('approval_info') if 'approve' in seg.export else it.req
def from_acc(seg, it):
    """account under which the caller acts"""
    return seg.acc(seg.caller, effsub(info(seg, it).f('from_subaccount')))
def sp_acc(seg, it): return seg.acc(seg.caller, effsub(it.req.f('spender_subaccount')))
def authority(seg, it, t):
    """delegated transfer: the caller's spender account may move token t now"""
    w = seg.w0; sp = sp_acc(seg, it); o = w.own(t)
    h1, a1 = w.tas(t, sp); h2, a2 = w.cas(o, sp)
    return z3.Or(sp == o, z3.And(h1, live(a1, seg.now)), z3.And(h2, live(a2, seg.now)))
def isempty(seg):
    """definitely nothing happened to the specified state"""
    return seg.sameroot('RS', 'TA', 'CA', 'MD') and not seg.events

# ------------------------------------------------------------ C01
def c01(seg):
    if seg.sameroot('RS'): return
    t = seg.sk('t'); ch = seg.changed(t); w0, w1 = seg.w0, seg.w1; e = seg.export
    if same(w0.raw('data', 'tokens_list'), w1.raw('data', 'tokens_list')): return
    if e == 'icrc7_transfer' and item(seg) and item(seg).pushed:
        it = item(seg)
        yield 'C01', 'an ownership change is the requested transfer, by the owner', z3.Implies(ch, z3.And(it.inrange, w0.exists(t), w1.exists(t), w0.ownp(t) == seg.caller,
            it.req.f('token_id').t == t, w1.own(t) == it.req.f('to').key(), w1.ownp(t) != ANON))
    elif e == 'icrc37_transfer_from' and item(seg) and item(seg).pushed:
        it = item(seg)
        yield 'C01', 'an ownership change is the requested delegated transfer, from the owner, with authority', z3.Implies(ch, z3.And(it.inrange, w0.exists(t), w1.exists(t),
            it.req.f('token_id').t == t, w0.own(t) == it.req.f('from').key(), w1.own(t) == it.req.f('to').key(), w1.ownp(t) != ANON, authority(seg, it, t)))
    elif e == 'burn_nft':
        yield 'C01', 'only the owner burns the named token', z3.Implies(ch, z3.And(w0.exists(t), z3.Not(w1.exists(t)), w0.ownp(t) == seg.caller, seg.arg(0).t == t))
    elif e == 'mint':
        yield 'C01', 'minting only creates tokens', z3.Implies(ch, z3.And(z3.Not(w0.exists(t)), w1.exists(t)))
    elif e == 'canister_init':
        yield 'C01', 'no token exists after installation', z3.Not(w1.exists(t))
    elif e == 'canister_post_upgrade': return
    else:
        yield 'C01', 'ownership is unchanged', z3.Not(ch)
# ------------------------------------------------------------ C02 (and the invariant every other argument rests on)
def c02(seg):
    if seg.export == 'canister_post_upgrade': return
    if seg.sameroot('RS', 'TA', 'CA', 'MD'): return
    t, a, s = seg.sk('t'), seg.sk('a'), seg.sk('s')
    for n, g in seg.sp.inv(seg.w1, t, a, s, seg.sk('k'), seg.sk('p')):
        yield INVPROP[n], 'invariant: ' + n, g
# ------------------------------------------------------------ C03
def nochange(seg):
    """ownership, approvals (up to expired ones) and metadata are as they were"""
    t, a, s = seg.sk('t'), seg.sk('a'), seg.sk('s')
    w0, w1 = seg.w0, seg.w1
    g = []
    if not seg.sameroot('RS'): g.append(z3.Not(seg.changed(t)))
    if not seg.sameroot('TA'): g.append(slot_same(seg, w0.tas(t, s), w1.tas(t, s), True))
    if not seg.sameroot('CA'): g.append(slot_same(seg, w0.cas(a, s), w1.cas(a, s), True))
    if not seg.sameroot('MD'): g.append(md_same(seg, t))
    return And(*g)
def slot_same(seg, x, y, exp):
    (h0, a0), (h1, a1) = x, y
    r = z3.Or(z3.And(z3.Not(h0), z3.Not(h1)), z3.And(h0, h1, apeq(a0, a1)))
    if exp: r = z3.Or(r, z3.And(h0, z3.Not(h1), expired(a0, seg.now)))
    return r
def md_same(seg, t):
    w0, w1 = seg.w0, seg.w1
    return z3.Or(z3.And(z3.Not(w0.mdhas(t)), z3.Not(w1.mdhas(t))), z3.And(w0.mdhas(t), w1.mdhas(t), w0.mdat(t).t == w1.mdat(t).t))
def evfields(seg, ev):
    tx, idx = seg.event(ev)
    d = tx.f('tx')
    return tx.f('btype').t, d, idx
def sameacc(o, k):
    return z3.And(o.some(), o.val().key() == k)
def optacc(o, p):
    return z3.And(o.some() == p.some(), z3.Implies(o.some(), o.val().key() == p.val().key()))
def block_ok(seg, it, ev):
    e = seg.export; w0 = seg.w0
    bt, d, idx = evfields(seg, ev)
    g = [bt == CONSTS.str(EV[e]), idx == it.idx]
    tid = tid_of(seg, it)
    g.append(z3.And(d.f('tid').some(), d.f('tid').val().t == tid) if tid is not None else z3.Not(d.f('tid').some()))
    if e == 'icrc7_transfer':
        g += [sameacc(d.f('from'), w0.own(tid)), sameacc(d.f('to'), it.req.f('to').key())]
    elif e == 'icrc37_transfer_from':
        g += [sameacc(d.f('from'), w0.own(tid)), sameacc(d.f('to'), it.req.f('to').key()), sameacc(d.f('spender'), sp_acc(seg, it))]
    elif 'approve' in e:
        g += [sameacc(d.f('from'), from_acc(seg, it)), z3.Not(d.f('to').some()), sameacc(d.f('spender'), info(seg, it).f('spender').key()), opteq(d.f('exp'), info(seg, it).f('expires_at'))]
    else:
        g += [sameacc(d.f('from'), from_acc(seg, it)), z3.Not(d.f('to').some()), optacc(d.f('spender'), it.req.f('spender'))]
    g.append(opteq(d.f('memo'), info(seg, it).f('memo')))
    return z3.And(*g)
def c03(seg):
    e = seg.export; ev = seg.events
    if e in ('canister_init', 'canister_post_upgrade', 'canister_pre_upgrade'):
        if ev: yield 'C03', 'nothing is logged', False
        return
    if e in BATCH:
        it = item(seg)
        if it is None or not it.pushed:
            if ev: yield 'C03', 'no block without an answer', False
            g = nochange(seg)
            if g is not True: yield 'C03', 'nothing changes without an answer', g
            return
        if len(ev) > 1: yield 'C03', 'at most one block per request', False
        if len(ev) == 0: yield 'C03', 'a success appended a block', z3.Not(it.ok)
        if len(ev) == 1: yield 'C03', 'the block of a success names the request and its index is reported', z3.And(it.ok, it.inrange, block_ok(seg, it, ev[0]))
        if len(ev) == 0:
            g = nochange(seg)
            if g is not True: yield 'C03', 'a failed request changes nothing', z3.Implies(z3.Not(it.ok), g)
        return
    if e in ('mint', 'burn_nft', 'update_nft_metadata'): return
    if ev: yield 'C03', 'this call appends no block', False
    if e.startswith('query:') or e not in EV: pass
# ------------------------------------------------------------ C04
def c04(seg):
    e = seg.export; w0, w1 = seg.w0, seg.w1
    it = item(seg)
    t, s = seg.sk('t'), seg.sk('s')
    if e in ('icrc37_transfer_from', 'icrc7_transfer') and it and it.pushed:
        tid = it.req.f('token_id').t
        if e == 'icrc37_transfer_from':
            yield 'C04', 'a delegated transfer needs the owner account or a live approval', z3.Implies(it.ok, z3.And(w0.exists(tid), authority(seg, it, tid)))
        yield 'C04', 'no approval of a transferred token remains', z3.Implies(it.ok, z3.Not(w1.tas(tid, s)[0]))
    if not seg.sameroot('RS') and e not in ('mint', 'canister_init', 'canister_post_upgrade') and not same(w0.raw('data', 'tokens_list'), w1.raw('data', 'tokens_list')):
        yield 'C04', 'no approval of a moved or burnt token remains', z3.Implies(seg.changed(t), z3.Not(w1.tas(t, s)[0]))
# ------------------------------------------------------------ C05
def c05(seg):
    e = seg.export; w0, w1 = seg.w0, seg.w1
    if e == 'canister_init': return
    it = item(seg)
    t, a, s = seg.sk('t'), seg.sk('a'), seg.sk('s')
    pushed = it is not None and it.pushed
    if not seg.sameroot('TA'):
        x, y = w0.tas(t, s), w1.tas(t, s)
        ok = [slot_same(seg, x, y, True), z3.And(z3.Not(y[0]), seg.changed(t))]
        if e == 'icrc37_approve_tokens' and pushed:
            ok.append(z3.And(it.ok, it.inrange, t == it.req.f('token_id').t, s == info(seg, it).f('spender').key(), w0.exists(t), w0.own(t) == from_acc(seg, it), y[0], stored(seg, it, y[1])))
        if e == 'icrc37_revoke_token_approvals' and pushed:
            ok.append(z3.And(it.ok, it.inrange, t == it.req.f('token_id').t, named(it, s), w0.exists(t), w0.own(t) == from_acc(seg, it), z3.Not(y[0])))
        yield 'C05', 'token approvals change only as requested by the owner', z3.Or(*ok)
    if not seg.sameroot('CA'):
        x, y = w0.cas(a, s), w1.cas(a, s)
        ok = [slot_same(seg, x, y, True)]
        if e == 'icrc37_approve_collection' and pushed:
            ok.append(z3.And(it.ok, it.inrange, a == from_acc(seg, it), s == info(seg, it).f('spender').key(), y[0], stored(seg, it, y[1])))
        if e == 'icrc37_revoke_collection_approvals' and pushed:
            ok.append(z3.And(it.ok, it.inrange, a == from_acc(seg, it), named(it, s), z3.Not(y[0])))
        if e == 'icrc37_transfer_from' and pushed:
            # lapse when the source account holds nothing any more
            b = w1.ibag(a); l = w1.idx.at(a).len
            seqfact = z3.Implies(z3.And(w1.idx.has(a), l == 0), z3.Select(b, t) == 0)
            ok.append(z3.And(it.ok, a == it.req.f('from').key(), z3.Not(y[0]), z3.Implies(seqfact, z3.Not(z3.And(w1.exists(t), w1.own(t) == a)))))
        yield 'C05', 'collection approvals change only as requested by their account', z3.Or(*ok)
    if pushed and e == 'icrc37_approve_tokens':
        tid = it.req.f('token_id').t; sp = info(seg, it).f('spender').key(); y = w1.tas(tid, sp)
        yield 'C05', 'a successful token approval is stored as requested', z3.Implies(it.ok, z3.And(y[0], stored(seg, it, y[1]), w0.exists(tid), w0.own(tid) == from_acc(seg, it)))
        yield 'C05', 'no approval of the anonymous account', z3.Implies(it.ok, sp != seg.acc(ANON, ZERO32))
        yield 'C05', 'approvals of a token stay within the limit', z3.Implies(it.ok, w1.ta(tid)[1].size <= default(w0.data('approval_init').f('max_approvals_per_token_or_collection'), 10))
    if pushed and e == 'icrc37_approve_collection':
        fr = from_acc(seg, it); sp = info(seg, it).f('spender').key(); y = w1.cas(fr, sp)
        yield 'C05', 'a successful collection approval is stored as requested', z3.Implies(it.ok, z3.And(y[0], stored(seg, it, y[1])))
        yield 'C05', 'no approval of the anonymous account', z3.Implies(it.ok, sp != seg.acc(ANON, ZERO32))
        yield 'C05', 'approvals of an account stay within the limit', z3.Implies(it.ok, w1.ca(fr)[1].size <= default(w0.data('approval_init').f('max_approvals_per_token_or_collection'), 10))
    if pushed and e == 'icrc37_revoke_token_approvals':
        tid = it.req.f('token_id').t
        yield 'C05', 'a successful token revocation leaves no named approval', z3.Implies(it.ok, z3.And(w0.exists(tid), w0.own(tid) == from_acc(seg, it), z3.Implies(named(it, s), z3.Not(w1.tas(tid, s)[0]))))
    if pushed and e == 'icrc37_revoke_collection_approvals':
        yield 'C05', 'a successful collection revocation leaves no named approval', z3.Implies(it.ok, z3.Implies(named(it, s), z3.Not(w1.cas(from_acc(seg, it), s)[0])))
def named(it, s):
    sp = it.req.f('spender')
    return z3.Or(z3.Not(sp.some()), sp.val().key() == s)
def stored(seg, it, ap):
    i = info(seg, it)
    return z3.And(ap.f('spender').key() == i.f('spender').key(), ap.f('from').key() == from_acc(seg, it), opteq(ap.f('expires_at'), i.f('expires_at')), opteq(ap.f('memo'), i.f('memo')), ap.f('created_at').t == seg.now)
# ------------------------------------------------------------ C09
def c09(seg):
    it = item(seg)
    if not it or not it.pushed: return
    w = seg.w0
    ct = info(seg, it).f('created_at_time'); P = seg.ex.P
    drift = default(w.data('permitted_drift'), 50_000_000); win = default(w.data('tx_window'), 10_000_000_000)
    if P.cls(ct.ty) == 'int': has, t = z3.BoolVal(True), ct.t
    else: has, t = ct.some(), ct.val().t
    yield 'C09', 'a request carried out has its creation time in the window', z3.Implies(z3.And(it.ok, has), z3.And(t <= seg.now + drift, t + win + drift >= seg.now))
    if not (seg.sameroot('RS', 'TA', 'CA', 'MD') and not seg.events):
        g = nochange(seg)
        if g is not True or seg.events:
            yield 'C09', 'a request outside its window changes nothing and is not logged', z3.Implies(z3.And(has, z3.Not(z3.And(t <= seg.now + drift, t + win + drift >= seg.now))), z3.And(zbool(g), z3.BoolVal(not seg.events)))
# ------------------------------------------------------------ C17
def c17(seg):
    e = seg.export
    if e not in BATCH: return
    w = seg.wE
    if seg.kind == 'iter':
        it = item(seg)
        if it is None: return
        yield 'C17', 'each iteration gives exactly one answer', z3.BoolVal(bool(it.pushed))
        if it.pushed:
            yield 'C17', 'every request is answered', it.res.some()
        return
    if seg.kind != 'end': return
    rep = seg.reply()
    if rep is None: raise Unsupported('no reply seen')
    P = seg.ex.P
    n = seg.arg(0).len
    err = None
    if P.cls(rep.ty) == 'enum': err = rep.is_('Err'); rep = rep.v('Ok')
    L = rep.len
    looped = bool(seg.st.g.get('cuts'))
    if e == 'icrc7_transfer':
        mx = default(w.data('max_update_batch_size'), 100); at = w.data('atomic_batch_transfers')
        refuse = z3.And(n > 0, z3.Or(seg.caller == ANON, z3.And(at.some(), at.val().t, n > mx)))
        yield 'C17', 'an empty batch gets an empty answer', z3.Implies(n == 0, L == 0)
        yield 'C17', 'a refused batch is refused outright', z3.Implies(refuse, z3.And(z3.BoolVal(not looped), L == 1, rep.at(0).some(), rep.at(0).val().is_('Err')))
        yield 'C17', 'exactly the first requests up to the limit are answered', z3.Implies(z3.And(n > 0, z3.Not(refuse)), L == z3.If(n < mx, n, mx))
        if not looped: yield 'C17', 'requests of an accepted batch are processed', z3.Or(n == 0, refuse, mx == 0)
        return
    lim = n
    if 'revoke' in e:
        m = default(w.data('approval_init').f('max_revoke_approvals'), 10); m = z3.If(m < U64, m, 10); lim = z3.If(n < m, n, m)
    g = L == lim
    yield 'C17', 'one answer per processed request', z3.Implies(z3.Not(err), g) if err is not None else g
    if err is not None and looped: yield 'C17', 'a batch refused as a whole was not processed', z3.Not(err)
def c17reply(seg):
    """the reply is the list built by the loop"""
    if seg.export not in BATCH or seg.kind != 'end' or not seg.st.g.get('cuts'): return
    rep = seg.reply()
    if seg.ex.P.cls(rep.ty) == 'enum': rep = rep.v('Ok')
    accs = seg.st.g.get('accarrs', ())
    if not any(simp(rep.arr).eq(a) if isinstance(simp(rep.arr), z3.ExprRef) else False for a in accs): raise Unsupported('reply is not the list of answers built by the loop')
    return ()
# ------------------------------------------------------------ frames
def frames(seg):
    e = seg.export; w0, w1 = seg.w0, seg.w1
    if e in ('canister_init', 'canister_post_upgrade'): return
    if not seg.sameroot('RS'):
        if e != 'update_collection_metadata':
            for f in SETTINGS:
                if not same(w0.raw('data', f), w1.raw('data', f)): yield 'C19', 'setting %s is unchanged' % f, w0.data(f).t == w1.data(f).t
        if e not in ('grant_permission', 'revoke_permission') and not same(w0.raw('data', 'permissions'), w1.raw('data', 'permissions')):
            yield 'C08', 'permissions are unchanged', w0.data('permissions').t == w1.data('permissions').t
        if e != 'mint' and not same(w0.raw('data', 'last_token_id'), w1.raw('data', 'last_token_id')):
            yield 'C07', 'the id counter is unchanged', w0.data('last_token_id').t == w1.data('last_token_id').t
        if e not in ('init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload') and not same(w0.raw('internal_filestorage'), w1.raw('internal_filestorage')):
            yield 'C13', 'uploads are unchanged', w0.get('internal_filestorage').t == w1.get('internal_filestorage').t
    if e not in ('mint', 'update_nft_metadata', 'burn_nft') and not seg.sameroot('MD'):
        yield 'C11', 'token metadata is unchanged', md_same(seg, seg.sk('t'))

# ------------------------------------------------------------ management calls: C03, C07, C11
COMPOUND = {'mint': True, 'burn_nft': True, 'update_nft_metadata': True}
GF = {}
def fold_of(P, md):
    """ghost fold of a list of (key, value) pairs: content as a map from keys to values, later pairs winning"""
    ety = P.elem(md.ty); es = P.sort(ety)
    r = GF.get(es.get_id() if hasattr(es, 'get_id') else es)
    if r is None:
        kx = lambda e: T(md.ex, ety, e).f(0); vx = lambda e: T(md.ex, ety, e).f(1)
        A = z3.ArraySort(z3.IntSort(), es)
        w = z3.Function('pairlast!%d' % uid(), A, z3.IntSort(), Str, z3.IntSort())
        a = z3.Const('pa!%d' % uid(), A); n = z3.Int('pn!%d' % uid()); y = z3.Const('py!%d' % uid(), Str); j = z3.Int('pj!%d' % uid())
        ww = w(a, n, y)
        ax = [ForAll([a, n, y], z3.Implies(n >= 0, z3.Or(ww == -1, z3.And(ww >= 0, ww < n, kx(z3.Select(a, ww)).t == y))), patterns=[ww]),
              ForAll([a, n, y, j], z3.Implies(z3.And(n >= 0, j >= 0, j < n, kx(z3.Select(a, j)).t == y), ww >= j), patterns=[z3.MultiPattern(ww, z3.Select(a, j))])]
        r = GF[es.get_id()] = (w, ax, kx, vx)
    return r
def mdslot(w, t, k):
    """(present, value term) of key k of token t"""
    m = w.mdat(t).f('data'); h = z3.And(w.mdhas(t), m.has(k))
    return h, m.at(k)
def lastwins(P, w, t, md, k):
    """token t's value under k is the last one of the list md"""
    last, ax, kx, vx = fold_of(P, md)
    h, v = mdslot(w, t, k); l = last(md.arr, md.len, k)
    return ax, z3.And(h == (l >= 0), z3.Implies(l >= 0, sameval(v, vx(z3.Select(md.arr, l)))))
def sameval(stored, given):
    """a stored metadata value (possibly wrapped) equals a given one"""
    P = stored.ex.P
    x = stored
    while x.t.sort() != given.t.sort():
        if P.cls(x.ty) == 'struct' and len(P.fields(x.ty)) == 1: x = x.f(0)
        else: raise Unsupported('metadata value representation')
    return x.t == given.t
def mint_ev(seg):
    if seg.export != 'mint' or not seg.events: return
    n = seg.arg(0).f('mint_requests'); L = seg.wE.data('last_token_id').t
    nev = zint(seg.st.g['nev']) - len(seg.events)
    for i, ev in enumerate(seg.events):
        bt, d, idx = evfields(seg, ev); j = simp(nev + i); r = n.at(j)
        yield 'C03', 'each mint block names the next id, its first owner and memo', z3.And(j >= 0, j < n.len, bt == CONSTS.str('7mint'), d.f('tid').some(), d.f('tid').val().t == L + j, z3.Not(d.f('from').some()),
            sameacc(d.f('to'), r.f('token_owner').key()), opteq(d.f('memo'), r.f('memo')))
mint_ev.ev = True
def mint_cands(sp, ex, st0, sh, hv, name):
    if sp.export != 'mint' or 'argty' not in sh.g: return []
    P = ex.P; out = []
    roots = {k[0] for k in hv}
    rs = any(isinstance(o, Mp) and k[0] == sp.roots['RS'] for k, (o, n) in hv.items()); md = any(k[0] == sp.roots['MD'] for k in hv)
    if not rs: return []
    wE = sp.wv(sh, 'wE'); L = wE.data('last_token_id').t
    req = T(ex, sh.g['argty'], ex.enc(sh, sh.g['argty'], sh.g['arg'])).f(0).f('mint_requests')
    W = lambda s: sp.wv(s)
    A = P.accsort()
    t = z3.Int('t!%d' % uid()); a = z3.Const('a!%d' % uid(), A); kk = z3.Const('k!%d' % uid(), Str)
    for k, (o, n) in hv.items():
        if not isinstance(o, It): continue
        p = lambda s, k=k, o=o: zint(ex.getp(s, *k).pos) - zint(o.pos)
        new = lambda s, p=p: z3.And(t >= L, t < L + p(s))
        def c1(ex, s, new=new):
            w = W(s); tk = z3.Select(w.tok.arr, t)
            return ForAll([t], z3.And(w.exists(t) == z3.Or(wE.exists(t), new(s)), z3.Implies(z3.Not(new(s)), tk == z3.Select(wE.tok.arr, t)),
                z3.Implies(new(s), z3.And(w.tok.at(t).f('token_id').t == t, w.own(t) == req.at(t - L).f('token_owner').key()))), patterns=[tk])
        def c2(ex, s, new=new):
            w = W(s)
            return ForAll([a, t], dict(sp.inv(w, t, a, a, z3.Const('k!inv', Str), z3.Const('p!inv', Prin)))['index'], patterns=[(z3.Select(w.idx.arr, a), z3.Select(w.tok.arr, t))])
        def c3(ex, s, new=new):
            w = W(s); m = z3.Select(w.md.arr, w.wn(t))
            return ForAll([t], z3.Implies(z3.Not(new(s)), m == z3.Select(wE.md.arr, wE.wn(t))), patterns=[m])
        def c4(ex, s, new=new):
            w = W(s); ax, f = lastwins(P, w, t, req.at(t - L).f('metadata'), kk)
            for x in ax: s.add(x)
            last = fold_of(P, req.at(t - L).f('metadata'))[0]; mdr = req.at(t - L).f('metadata')
            return ForAll([t, kk], z3.Implies(new(s), f), patterns=[last(mdr.arr, mdr.len, kk), z3.Select(w.mdat(t).f('data').arr, kk)])
        for i, c in enumerate((c1, c2, c3, c4)): c.nm = 'mint%d/%s' % (i + 1, k); out.append(c)
    return out
mint_ev.candidates = mint_cands
def mint_end(seg):
    if seg.export != 'mint' or seg.kind != 'end' or seg.reply() is None: return
    P = seg.ex.P; w0, w1 = seg.wE, seg.w1; rep = seg.reply(); req = seg.arg(0).f('mint_requests'); n = req.len
    ok = rep.is_('Ok'); L = w0.data('last_token_id').t; t, j, k = seg.sk('t'), seg.sk('j'), seg.sk('k')
    nev = zint(seg.st.g['nev'])
    inr = z3.And(j >= 0, j < n)
    yield 'C03', 'a mint reported as successful logged one block per token', z3.Implies(ok, nev == n)
    yield 'C03', 'a mint reported as failed logged nothing', z3.Implies(z3.Not(ok), nev == 0)
    g = nochange(seg)
    if g is not True:
        yield 'C07', 'a mint answered with an error creates no token', z3.Implies(z3.Not(ok), z3.And(g, w1.data('last_token_id').t == L))
        yield 'C03', 'a failed mint changes nothing', z3.Implies(z3.Not(ok), g)
    yield 'C07', 'the answer is the first id', z3.Implies(ok, rep.v('Ok').t == L)
    yield 'C07', 'the id counter moves past the new ids', z3.Implies(ok, w1.data('last_token_id').t == L + n)
    new = z3.And(t >= L, t < L + n)
    yield 'C07', 'exactly the next n ids become tokens and no existing token changes', z3.Implies(ok, z3.And(w1.exists(t) == z3.Or(w0.exists(t), new), z3.Implies(new, z3.Not(w0.exists(t))), z3.Implies(w0.exists(t), w1.own(t) == w0.own(t))))
    yield 'C07', 'the i-th token goes to the i-th account', z3.Implies(z3.And(ok, inr), z3.And(w1.exists(L + j), w1.own(L + j) == req.at(j).f('token_owner').key()))
    yield 'C07', 'the supply cap is respected', z3.Implies(ok, w0.tok.size + n <= default(w0.data('supply_cap'), 10_000))
    yield 'C07', 'the number of tokens is the old number plus n', z3.Implies(ok, w1.tok.size == w0.tok.size + n)
    yield 'C07', 'the batch limit is respected', z3.Implies(ok, n <= default(w0.data('max_update_batch_size'), 100))
    memo = req.at(j).f('memo')
    yield 'C07', 'every memo is within the limit', z3.Implies(z3.And(ok, inr, memo.some()), bytelen(memo.val()) <= default(w0.data('max_memo_size'), 1_000_000))
    yield 'C20', 'a mint with an oversized memo is refused without effect', z3.Implies(z3.And(inr, memo.some(), bytelen(memo.val()) > default(w0.data('max_memo_size'), 1_000_000)), z3.And(z3.Not(ok), nev == 0, zbool(g)))
    # metadata
    ax, f = lastwins(P, w1, L + j, req.at(j).f('metadata'), k)
    for x in ax: seg.st.add(x)
    yield 'C11', 'a minted token has exactly the requested metadata', z3.Implies(z3.And(ok, inr), f)
    yield 'C11', 'minting leaves the metadata of existing tokens alone', z3.Implies(w0.exists(t), md_same(seg, t))
def bytelen(b): return blen(b.t)
def refused(seg):
    """an update call refused by its guard before it is processed"""
    if seg.kind != 'end' or seg.reply() is not None or seg.export not in COMPOUND: return
    if seg.events: yield 'C03', 'a refused call logs nothing', False
    g = nochange(seg)
    if g is not True: yield 'C03', 'a refused call changes nothing', g
def burn_end(seg):
    if seg.export != 'burn_nft' or seg.kind != 'end' or seg.reply() is None: return
    w0, w1 = seg.wE, seg.w1; rep = seg.reply(); ok = rep.is_('Ok'); tid = seg.arg(0).t; ev = seg.events
    yield from single(seg, ok, ev, lambda bt, d: z3.And(bt == CONSTS.str('7burn'), d.f('tid').some(), d.f('tid').val().t == tid, sameacc(d.f('from'), w0.own(tid)), z3.Not(d.f('to').some())))
    yield 'C02', 'a successful burn removes exactly the named token', z3.Implies(ok, z3.And(w0.exists(tid), z3.Not(w1.exists(tid)), z3.Implies(seg.sk('t') != tid, z3.Not(seg.changed(seg.sk('t'))))))
    yield 'C01', 'a successful burn was made by the owner', z3.Implies(ok, w0.ownp(tid) == seg.caller)
    yield 'C02', 'a burn lowers the supply by one', z3.Implies(ok, w1.tok.size == w0.tok.size - 1)
    yield 'C04', 'no approval of a burnt token remains', z3.Implies(ok, z3.Not(w1.tas(tid, seg.sk('s'))[0]))
def single(seg, ok, ev, f):
    """calls with one answer: one block exactly when successful"""
    if len(ev) > 1: yield 'C03', 'at most one block', False
    elif len(ev) == 0:
        yield 'C03', 'a success appended a block', z3.Not(ok)
        g = nochange(seg)
        if g is not True: yield 'C03', 'a failed call changes nothing', z3.Implies(z3.Not(ok), g)
    else:
        bt, d, idx = evfields(seg, ev[0])
        yield 'C03', 'the block of a success names the request', z3.And(ok, f(bt, d))
def update_end(seg):
    if seg.export != 'update_nft_metadata' or seg.kind != 'end' or seg.reply() is None: return
    P = seg.ex.P; w0, w1 = seg.wE, seg.w1; rep = seg.reply(); ok = rep.is_('Ok'); q = seg.arg(0); tid = q.f('token_id').t; ev = seg.events
    t, k = seg.sk('t'), seg.sk('k')
    yield from single(seg, ok, ev, lambda bt, d: z3.And(bt == CONSTS.str('7update_token'), d.f('tid').some(), d.f('tid').val().t == tid, z3.Not(d.f('to').some()), d.f('from').some(), d.f('from').val().f(0).t == seg.caller))
    yield 'C11', 'only an existing token gets metadata', z3.Implies(ok, w0.exists(tid))
    yield 'C11', 'the answer names the token', z3.Implies(ok, rep.v('Ok').t == tid)
    ax, f = lastwins(P, w1, tid, q.f('metadata'), k)
    for x in ax: seg.st.add(x)
    yield 'C11', 'after an update the metadata is exactly what was given', z3.Implies(ok, f)
    yield 'C11', 'the metadata of every other token is unchanged', z3.Implies(t != tid, md_same(seg, t))
    yield 'C11', 'a refused update leaves the metadata as it was', z3.Implies(z3.Not(ok), md_same(seg, tid))
# ------------------------------------------------------------ installation and upgrade
LIFE = {'canister_init', 'canister_pre_upgrade', 'canister_post_upgrade'}
def permitted(perms, p, perm):
    m = perms.f('user_permissions')
    return z3.And(m.has(p), z3.Select(m.at(p).bag, perm) > 0)
def permsort(seg): return seg.ex.P.sort(seg.ex.P.tyn('types::permissions::Permission'))
def life(seg):
    if seg.kind != 'end': return
    e = seg.export; P = seg.ex.P; st = seg.st
    if seg.events: yield 'C03', 'nothing is logged', False
    if e == 'canister_init':
        if seg.w1.absent(): raise Unsupported('no state installed')
        w = seg.w1; t, a, s = seg.sk('t'), seg.sk('a'), seg.sk('s')
        yield 'C01', 'no token exists after installation', z3.Not(w.exists(t))
        for n, g in seg.sp.inv(w, t, a, s, seg.sk('k'), seg.sk('p')):
            yield INVPROP[n], 'invariant established: ' + n, g
        yield 'C02', 'the supply is zero after installation', w.tok.size == 0
        arg = seg.arg(0); ini = arg.v('Init')
        for f in SETTINGS:
            yield 'C19', 'setting %s is the installation argument' % f, w.data(f).t == ini.f(f).t
        p = seg.sk('p'); q = z3.Const('sk_q!%d' % uid(), permsort(seg))
        um = ini.f('permissions').f('user_permissions'); st.add(z3.Select(um.at(p).bag, q) >= 0)   # multiplicities are counts
        st.add(z3.Implies(p == seg.caller, z3.Select(um.at(seg.caller).bag, q) >= 0))
        yield 'C08', 'permissions are those of the installation argument', permitted(w.data('permissions'), p, q) == z3.Or(permitted(ini.f('permissions'), p, q), z3.And(ini.f('test_mode').t, p == seg.caller))
        yield 'C13', 'no upload exists after installation', z3.Not(w.get('internal_filestorage').f('map').has(seg.sk('k')))
        yield 'C14', 'no management call is running after installation', z3.Not(w.get('principal_guards').has(p))
    elif e == 'canister_pre_upgrade':
        if 'saved' not in st.g: raise Unsupported('no state saved')
        sv = st.g['saved']
        if not isinstance(sv, St): raise Unsupported('saved value')
        w0 = seg.w0; rs = T(seg.ex, P.tyn('state::RuntimeState'), seg.ex.enc(st, P.tyn('state::RuntimeState'), sv.f[0]))
        yield 'C16', 'the saved state is the whole state', rs.t == w0.get().t
        lg = sv.f[3]
        if isinstance(lg, En) and lg.d == 1: lg = lg.p[1][0]
        yield 'C16', 'the transaction log is saved', isinstance(lg, Lib) and lg.kind == 'icrc3' and lg is st.g['log0']
        for r in ('TA', 'CA', 'MD'): yield 'C16', 'stable maps are left alone', w0.root(r).t == seg.w1.root(r).t
        yield from memories(seg)
    else:
        if 'restored' not in st.g or seg.w1.absent(): raise Unsupported('no state restored')
        rv = seg.ex.force(st, st.g['restored']); w = seg.w1
        rt = P.fields(rv.ty)[0][1]; rs = T(seg.ex, rt, seg.ex.enc(st, rt, rv.f[0]))
        d = rs.f('data')
        for n, _ in P.fields(P.tyn('state::Data')): yield 'C16', '%s is restored' % n, w.data(n).t == d.f(n).t
        for f in ('test_mode',): yield 'C16', 'the mode is kept', w.get('env').f(f).t == rs.f('env').f(f).t
        up = seg.arg(0).v('Upgrade')
        yield 'C16', 'the new version and commit hash are recorded', z3.And(w.get('env').f('version').t == up.f('version').t, w.get('env').f('commit_hash').t == up.f('commit_hash').t)
        yield 'C16', 'uploads are restored', w.get('internal_filestorage').t == rs.f('internal_filestorage').t
        yield 'C15', 'recent calls are restored', w.get('sliding_window_guards').t == rs.f('sliding_window_guards').t
        yield 'C14', 'no management call is running after an upgrade', z3.Not(w.get('principal_guards').has(seg.sk('p')))
        for r in ('TA', 'CA', 'MD'): yield 'C16', 'stable maps are left alone', seg.w0.root(r).t == w.root(r).t
        yield from memories(seg)
        lg = st.store.get(('static', 'icrc3'))
        lg = lg.p[1][0] if isinstance(lg, En) and lg.d == 1 else None
        yield 'C16', 'the transaction log is restored', lg is not None and same(lg, rv.f[3])
def memories(seg):
    ids = seg.sp.memids(); u = seg.st.g.get('upmem')
    if u is None: raise Unsupported('memory of the saved state')
    ks = [k for _, k in ids.values()] + [u]
    if any(k is None for k in ks): raise Unsupported('stable memory ids')
    yield 'C16', 'approvals, metadata and saved state live in different stable memories', And(*[Not(Eq(ks[i], ks[j])) for i in range(len(ks)) for j in range(i)])
    for r, (op, _) in ids.items(): yield 'C16', 'the stable map is reopened, not recreated', op == 'init'
life.life = True
INVPROP = {'ids': 'C02', 'index': 'C02', 'meta': 'C11', 'approvals': 'C04', 'collapprovals': 'C05', 'limits': 'C05', 'uploads': 'C13', 'subcanisters': 'C13', 'calls': 'C15'}
RULES = [life, c01, c02, c03, c04, c05, c09, c17, c17reply, frames, mint_ev, mint_end, burn_end, update_end, refused]
import rules2
RULES += rules2.RULES2
import rules3
RULES += rules3.RULES3
