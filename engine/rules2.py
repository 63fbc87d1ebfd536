"""Contracts of the queries, permissions, settings, limits and rate guard."""
import z3
from vals import *
from core import *
from terms import *
from spec import *
import rules as R
from rules import default, permitted, permsort, item, tid_of, nochange, md_same, slot_same, U64, BATCH, bytelen

def answered(seg): return seg.kind == 'end' and seg.reply() is not None
def isacc(seg, rep):
    """the reply is the list appended to by a loop"""
    a = simp(rep.arr)
    return isinstance(a, z3.ExprRef) and any(a.eq(x) for x in seg.st.g.get('accarrs', ()))
def peritem(seg, f):
    """f(j, element) for every answer of a list-valued query, wherever the list is built.
    yields what f yields with the proper guard"""
    if seg.kind == 'iter':
        ty = replyelem(seg)
        for k, n, pushed in seg.kw['accs']:
            if seg.ex.P.name(n.ety) != seg.ex.P.name(ty): continue
            if pushed is None: raise Unsupported('answer list modified other than by appending')
            for i, x in enumerate(pushed):
                j = simp(zint(n.bl) + len(n.tail) + i)
                for p, nm, g in f(j, T(seg.ex, n.ety, seg.ex.enc(seg.st, n.ety, x))): yield p, nm, z3.Implies(j >= 0, g)
        return
    if answered(seg):
        rep = seg.reply()
        if isacc(seg, rep): return
        j = seg.sk('j')
        for p, nm, g in f(j, rep.at(j)): yield p, nm, z3.Implies(z3.And(j >= 0, j < rep.len), g)
def replyelem(seg):
    """element type of this export's reply list"""
    if hasattr(seg.sp, '_relem'): return seg.sp._relem
    P = seg.ex.P
    ty = P.tyn(RELEM[seg.export])
    seg.sp._relem = ty
    return ty
RELEM = {'icrc7_owner_of': 'std::option::Option<icrc_ledger_types::icrc1::account::Account>', 'icrc37_is_approved': 'bool',
         'icrc7_balance_of': 'candid::Nat', 'icrc7_token_metadata': 'std::option::Option<std::vec::Vec<(std::string::String, icrc_ledger_types::icrc::generic_value::ICRC3Value)>>'}
# ------------------------------------------------------------ C02, C11, C06, C20: batch queries
def q_batch(seg):
    e = seg.export
    if e not in RELEM: return
    w = seg.wE
    if answered(seg):
        rep = seg.reply(); n = seg.arg(0).len
        yield 'C17', 'one answer per request', rep.len == n
        if e != 'icrc37_is_approved':
            lim = default(w.data('max_query_batch_size'), 100)
            yield 'C20', 'a query over the limit is refused as a whole', n <= z3.If(lim < U64, lim, 100)
    if seg.kind not in ('iter', 'end'): return
    if e == 'icrc7_owner_of':
        def f(j, r):
            t = seg.arg(0).at(j).t
            yield 'C02', 'the reported owner is the stored one', z3.And(r.some() == w.exists(t), z3.Implies(r.some(), r.val().key() == w.own(t)))
    elif e == 'icrc7_balance_of':
        def f(j, r):
            a = seg.arg(0).at(j).key()
            yield 'C02', 'the reported balance is the length of the account\'s token list', r.t == z3.If(w.idx.has(a), w.idx.at(a).len, 0)
    elif e == 'icrc37_is_approved':
        def f(j, r):
            q = seg.arg(0).at(j); t = q.f('token_id').t; sp = q.f('spender').key(); o = w.own(t)
            h1, a1 = w.tas(t, sp); h2, a2 = w.cas(o, sp)
            A = seg.ex.P.accsort()
            yield 'C06', 'the approval query answers exactly what a delegated transfer allows', r.t == z3.And(w.exists(t), z3.Or(sp == o,
                z3.And(h1, live(a1, seg.now)), z3.And(h2, live(a2, seg.now), A.sub(o) == effsub(q.f('from_subaccount')))))
    else:
        def f(j, r):
            t = seg.arg(0).at(j).t
            yield 'C11', 'metadata is reported only for existing tokens', r.some() == w.exists(t)
            yield from pairs_of(seg, 'C11', z3.And(r.some()), r.val(), w, t)
    yield from peritem(seg, f)
def pairs_of(seg, prop, cond, lst, w, t):
    """lst lists exactly the metadata pairs of token t, each key once"""
    k, n, m = seg.sk('k'), seg.sk('n'), seg.sk('nm')
    e1, e2 = lst.at(n), lst.at(m)
    inr = z3.And(n >= 0, n < lst.len)
    h, v = R.mdslot(w, t, e1.f(0).t)
    yield prop, 'every reported pair is stored', z3.Implies(z3.And(cond, inr), z3.And(h, R.sameval(v, e1.f(1))))
    yield prop, 'no key is reported twice', z3.Implies(z3.And(cond, inr, m >= 0, m < lst.len, n != m), e1.f(0).t != e2.f(0).t)
    hk, vk = R.mdslot(w, t, k)
    yield prop, 'every stored pair is reported', z3.Implies(z3.And(cond, hk), contains(seg, lst, lambda x: z3.And(x.f(0).t == k, R.sameval(vk, x.f(1))), k))
def contains(seg, lst, f, key=None):
    """some element of the list satisfies f (with hints where the element may be)"""
    i = z3.Int('ex!%d' % uid())
    import solve, views
    solve.WIT[str(i)] = (key, [(idx.name(), idx) for KA, idx, ax, m in views._enum.values()] + list(seg.ex.keyhints), list(seg.ex.hints))
    return z3.Exists([i], z3.And(i >= 0, i < lst.len, f(lst.at(i))))
def q_supply(seg):
    if seg.export != 'icrc7_total_supply' or not answered(seg): return
    yield 'C02', 'the total supply is the number of tokens', seg.reply().t == seg.wE.tok.size
# ------------------------------------------------------------ C08
NEED = {'mint': 'Minting', 'update_nft_metadata': 'UpdateMetadata', 'update_collection_metadata': 'UpdateCollectionMetadata', 'init_upload': 'UpdateUploads', 'store_chunk': 'UpdateUploads',
        'finalize_upload': 'UpdateUploads', 'cancel_upload': 'UpdateUploads', 'grant_permission': 'ManageAuthorities', 'revoke_permission': 'ManageAuthorities',
        'get_user_permissions': 'ManageAuthorities', 'has_permission': 'ManageAuthorities', 'get_all_storage_subcanisters': 'ManageAuthorities', 'get_upload_status': 'ReadUploads', 'get_all_uploads': 'ReadUploads'}
def permval(seg, n):
    P = seg.ex.P; ty = P.tyn('types::permissions::Permission')
    return P.sort(ty).constructor(P.variant(ty, n))()
def c08(seg):
    e = seg.export; w = seg.wE
    if e in NEED:
        p = permitted(w.data('permissions'), seg.caller, permval(seg, NEED[e]))
        if seg.kind == 'await' or not seg.sameroot('RS', 'TA', 'CA', 'MD') or seg.events:
            yield 'C08', 'only a caller with the specific permission has any effect', p
        if seg.kind == 'end':
            if seg.reply() is not None: yield 'C08', 'only a caller with the specific permission is answered', p
            else: yield 'C08', 'a caller with the specific permission is not turned away', z3.Not(p)
    q = z3.Const('sk_q!%d' % uid(), permsort(seg)) ; p = seg.sk('p')
    if e in ('grant_permission', 'revoke_permission') and answered(seg):
        w1 = seg.w1; a = seg.arg(0); ok = seg.reply().is_('Ok')
        p0, p1 = w.data('permissions'), w1.data('permissions')
        for x in (p0, p1):
            seg.st.add(z3.Select(x.f('user_permissions').at(p).bag, q) >= 0)       # multiplicities are counts
            seg.st.add(z3.Select(x.f('user_permissions').at(a.f('principal').t).bag, q) >= 0)
        hit = z3.And(p == a.f('principal').t, q == a.f('permission').t)
        if e == 'grant_permission': new = z3.Or(permitted(p0, p, q), hit)
        else: new = z3.And(permitted(p0, p, q), z3.Not(hit))
        yield 'C08', 'exactly the named permission changes', z3.Implies(ok, permitted(p1, p, q) == new)
        if not seg.sameroot('RS'): yield 'C08', 'a refused call changes no permission', z3.Implies(z3.Not(ok), p0.t == p1.t)
    if e == 'has_permission' and answered(seg):
        a = seg.arg(0); r = seg.reply()
        yield 'C08', 'the permission query answers what is stored', z3.And(r.is_('Ok'), r.v('Ok').t == permitted(w.data('permissions'), a.f('principal').t, a.f('permission').t))
# ------------------------------------------------------------ C10
def c10(seg):
    e = seg.export
    if e not in ('icrc7_tokens', 'icrc7_tokens_of') or not answered(seg): return
    w = seg.wE; rep = seg.reply(); k = 0 if e == 'icrc7_tokens' else 1
    prev, take = seg.arg(k), seg.arg(k + 1)
    mx = default(w.data('max_take_value'), 100)
    yield 'C10', 'a page size above the maximum is refused', z3.Implies(take.some(), take.val().t <= mx)
    size = z3.If(take.some(), take.val().t, default(w.data('default_take_value'), 100))
    size = z3.If(size < U64, size, 100)
    t, n, m = seg.sk('t'), seg.sk('n'), seg.sk('nm')
    pv = z3.If(prev.some(), prev.val().t, 0)
    member = lambda x: z3.And(w.exists(x), w.own(x) == seg.arg(0).key()) if e == 'icrc7_tokens_of' else w.exists(x)
    inr = lambda i: z3.And(i >= 0, i < rep.len)
    yield 'C10', 'every listed id is a token past prev', z3.Implies(inr(n), z3.And(member(rep.at(n).t), rep.at(n).t > pv))
    yield 'C10', 'ids are listed in ascending order without repetition', z3.Implies(z3.And(inr(n), inr(m), n < m), rep.at(n).t < rep.at(m).t)
    yield 'C10', 'the page is not larger than asked for', rep.len <= size
    listed = contains(seg, rep, lambda x: x.t == t, t)
    yield 'C10', 'no token is skipped', z3.Implies(z3.And(member(t), t > pv), z3.Or(listed, z3.And(rep.len == size, z3.Implies(inr(n), rep.at(n).t < t))))
# ------------------------------------------------------------ C18
def c18(seg):
    e = seg.export
    if e not in ('icrc37_get_token_approvals', 'icrc37_get_collection_approvals') or not answered(seg): return
    w = seg.wE; rep = seg.reply(); prev, take = seg.arg(1), seg.arg(2)
    tok = e == 'icrc37_get_token_approvals'
    slot = (lambda s: w.tas(seg.arg(0).t, s)) if tok else (lambda s: w.cas(seg.arg(0).key(), s))
    size = z3.If(take.some(), take.val().t, 10)
    n, m, s = seg.sk('n'), seg.sk('nm'), seg.sk('s')
    inr = lambda i: z3.And(i >= 0, i < rep.len)
    def shows(x, s):
        i = x.f('approval_info'); h, a = slot(s); A = seg.ex.P.accsort()
        g = [i.f('spender').key() == s, h, a.f('spender').key() == s, A.sub(a.f('from').key()) == effsub(i.f('from_subaccount')), opteq(i.f('expires_at'), a.f('expires_at')), opteq(i.f('memo'), a.f('memo')),
             created(i) == a.f('created_at').t]
        if tok: g.append(x.f('token_id').t == seg.arg(0).t)
        return z3.And(*g)
    def created(i):
        c = i.f('created_at_time'); return c.t if seg.ex.P.cls(c.ty) == 'int' else c.val().t
    x = rep.at(n)
    yield 'C18', 'every listed approval is stored, with its own fields', z3.Implies(inr(n), shows(x, x.f('approval_info').f('spender').key()))
    yield 'C18', 'no approval is listed twice', z3.Implies(z3.And(inr(n), inr(m), n != m), x.f('approval_info').f('spender').key() != rep.at(m).f('approval_info').f('spender').key())
    yield 'C18', 'at most the requested number is listed', rep.len <= size
    cnt = z3.If(w.ta(seg.arg(0).t)[0], w.ta(seg.arg(0).t)[1].size, 0) if tok else z3.If(w.ca(seg.arg(0).key())[0], w.ca(seg.arg(0).key())[1].size, 0)
    yield 'C18', 'a large enough page lists as many as are stored', z3.Implies(z3.And(z3.Not(prev.some()), size >= cnt, cnt < U64), rep.len == cnt)
    yield 'C18', 'a large enough page lists every stored approval', z3.Implies(z3.And(z3.Not(prev.some()), size >= cnt, slot(s)[0]), contains(seg, rep, lambda x: shows(x, s), s))
# ------------------------------------------------------------ C19
SETQ = {'icrc7_' + f: f for f in ('symbol', 'name', 'description', 'logo', 'supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'default_take_value', 'max_take_value', 'max_memo_size', 'atomic_batch_transfers', 'tx_window', 'permitted_drift')}
AP = {'icrc37_max_approvals_per_token_or_collection': 'max_approvals_per_token_or_collection', 'icrc37_max_revoke_approvals': 'max_revoke_approvals'}
def c19(seg):
    e = seg.export; w = seg.wE
    if e in SETQ and answered(seg): yield 'C19', 'the query reports the setting', seg.reply().t == w.data(SETQ[e]).t
    if e in AP and answered(seg): yield 'C19', 'the query reports the setting', seg.reply().t == w.data('approval_init').f(AP[e]).t
    if e == 'update_collection_metadata':
        if answered(seg):
            w1 = seg.w1; ok = seg.reply().is_('Ok'); a = seg.arg(0); P = seg.ex.P
            names = {n for n, _ in P.fields(a.ty)}
            for f in SETTINGS:
                o, n = w.data(f), w1.data(f)
                if f not in names: yield 'C19', 'setting %s is unchanged' % f, o.t == n.t; continue
                g = a.f(f)
                val = z3.If(g.some(), some_like(n, g), o.t)
                yield 'C19', 'setting %s is what the update named, or as before' % f, n.t == z3.If(ok, val, o.t)
        elif seg.kind == 'end' and not seg.sameroot('RS'):
            for f in SETTINGS: yield 'C19', 'a refused update changes nothing', w.data(f).t == seg.w1.data(f).t
    if e == 'icrc7_collection_metadata' and answered(seg):
        rep = seg.reply(); P = seg.ex.P
        for f in SETQ.values():
            o = w.data(f); isopt = f not in ('symbol', 'name')
            key = CONSTS.str('icrc7:' + f); v = o.val() if isopt else o
            has = o.some() if isopt else z3.BoolVal(True)
            kind = 'Nat' if P.cls(v.ty) == 'nat' else 'Text'
            if f == 'atomic_batch_transfers': val = lambda x: z3.BoolVal(True)
            else: val = lambda x, kind=kind, v=v: z3.And(x.is_(kind), x.v(kind).t == v.t)
            # the list holds the pair (key, value) -- stated on its multiset of elements
            ety = P.elem(rep.ty); D = P.sort(ety)
            pair = z3.Const('sk_pair!%d' % uid(), D); pt = T(seg.ex, ety, pair)
            seg.st.add(z3.Select(rep.bag, pair) >= 0)
            cands = bagkeys(rep.bag)
            here = [z3.And(z3.Select(rep.bag, c) > 0, T(seg.ex, ety, c).f(0).t == key, val(T(seg.ex, ety, c).f(1))) for c in cands]
            yield 'C19', 'the collection metadata lists %s under its key when it is set' % f, z3.Implies(has, z3.Or(*here) if here else z3.BoolVal(False))
            yield 'C19', 'the collection metadata lists nothing else for %s' % f, z3.Implies(z3.And(z3.Select(rep.bag, pair) > 0, pt.f(0).t == key), z3.And(has, val(pt.f(1)), z3.Select(rep.bag, pair) == 1))
def bagkeys(b):
    out = []; seen = set(); work = [b]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_store(x): out.append(x.arg(1)); work.append(x.arg(0))
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: work += [x.arg(1), x.arg(2)]
    return out
def some_like(n, g):
    P = n.ex.P
    if P.name(n.ty) == P.name(g.ty): return g.t
    if n.t.sort() == g.val().t.sort(): return g.val().t
    raise Unsupported('setting representation ' + P.name(n.ty))
# ------------------------------------------------------------ C20: transfer memo
def c20(seg):
    if seg.export != 'icrc7_transfer': return
    it = item(seg)
    if not it or not it.pushed: return
    memo = it.req.f('memo'); lim = default(seg.w0.data('max_memo_size'), 1_000_000)
    big = z3.And(memo.some(), bytelen(memo.val()) > lim)
    yield 'C20', 'a transfer with an oversized memo is refused', z3.Implies(big, z3.Not(it.ok))
    g = nochange(seg)
    if g is not True or seg.events: yield 'C20', 'a transfer with an oversized memo has no effect', z3.Implies(big, z3.And(zbool(g), z3.BoolVal(not seg.events)))
# ------------------------------------------------------------ C06: the delegated transfer's side
def c06(seg):
    if seg.export != 'icrc37_transfer_from': return
    it = item(seg)
    if not it or not it.pushed: return
    tid = it.req.f('token_id').t; w = seg.w0; au = R.authority(seg, it, tid); fr = it.req.f('from').key()
    yield 'C06', 'a delegated transfer is only made where the approval query answers true', z3.Implies(it.ok, z3.And(w.exists(tid), au))
    # the source account being the owner is what the approval query's subaccount stands for
    yield 'C06', 'a delegated transfer is not refused for lack of approval where the approval query answers true', z3.Implies(z3.And(it.inrange, w.exists(tid), w.own(tid) == fr, au), z3.Not(z3.And(it.res.some(), it.res.val().is_('Err'), it.res.val().v('Err').is_('Unauthorized'))))
RULES2 = [c06, q_batch, q_supply, c08, c10, c18, c19, c20]
