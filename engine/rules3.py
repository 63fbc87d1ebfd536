"""Contracts of uploads, the management lock and the call rate limit."""
import z3
from vals import *
from core import *
from terms import *
from spec import *
import rules as R
from rules import item, tid_of, nochange, BATCH

MANAGEMENT = ('update_collection_metadata', 'mint', 'update_nft_metadata', 'burn_nft', 'init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload', 'grant_permission', 'revoke_permission')
UPLOADS = ('init_upload', 'store_chunk', 'finalize_upload', 'cancel_upload')
def answered(seg): return seg.kind == 'end' and seg.reply() is not None
def busy(w): return w.get('principal_guards').size >= 1
# ------------------------------------------------------------ C14
def c14(seg):
    e = seg.export; w0, w1, wE = seg.w0, seg.w1, seg.wE
    if e not in MANAGEMENT:
        if not seg.sameroot('RS') and not same(w0.raw('principal_guards'), w1.raw('principal_guards')):
            yield 'C14', 'the management lock is left alone', w0.get('principal_guards').t == w1.get('principal_guards').t
        return
    if seg.kind == 'await':
        yield 'C14', 'the management lock is held while another canister is waited for', busy(w1)
        yield 'C14', 'a management call made while another one runs reaches no other canister', z3.Not(busy(wE))
    if seg.kind == 'end':
        yield 'C14', 'the management lock is free once the call has ended', z3.Implies(z3.Not(busy(wE)), z3.Not(busy(w1)))
        b = busy(wE)
        if seg.events: yield 'C14', 'a management call made while another one runs logs nothing', z3.Not(b)
        for r in ('TA', 'CA', 'MD'):
            if not seg.sameroot(r): yield 'C14', 'a management call made while another one runs has no effect', z3.Implies(b, w0.root(r).t == w1.root(r).t)
        if not seg.sameroot('RS'): yield 'C14', 'a management call made while another one runs has no effect', z3.Implies(b, z3.And(w0.get('data').t == w1.get('data').t, w0.get('principal_guards').t == w1.get('principal_guards').t, w0.get('internal_filestorage').t == w1.get('internal_filestorage').t))
        if seg.reply() is not None: yield 'C14', 'a management call made while another one runs is refused', z3.Implies(b, seg.reply().is_('Err'))
def lockcands(sp, ex, st0, sh, hv, name):
    """the lock and the uploads are untouched while this call holds the lock across a loop with awaits"""
    if sp.export not in MANAGEMENT: return []
    def f(ex, st):
        w, o = sp.wv(st), sp.wv(st0)
        return z3.And(w.get('principal_guards').t == o.get('principal_guards').t, w.get('internal_filestorage').t == o.get('internal_filestorage').t)
    return [f]
c14.candidates = lockcands
# ------------------------------------------------------------ C13
def fs(w): return w.get('internal_filestorage').f('map')
def confirmed(seg, name):
    """the last answer from another canister was that step's success"""
    x = seg.st.g.get('ext', ())
    if not x: return z3.BoolVal(False)
    n, args, rt, v = x[-1].d['name'], x[-1].d['args'], x[-1].d['rt'], x[-1].d['reply']
    if n != name: return z3.BoolVal(False)
    r = T(seg.ex, rt, seg.ex.enc(seg.st, rt, v))
    ok = r.is_('Ok')
    inner = r.v('Ok')
    if seg.ex.P.cls(inner.ty) == 'enum': ok = z3.And(ok, inner.is_('Ok'))
    return ok
def extarg(seg, x, i):
    a = x.d['args'][i]; ty = x.d['tys'][i]
    return T(seg.ex, ty, seg.ex.enc(seg.st, ty, a))
def samebut(a, b, *fields):
    P = a.ex.P
    return z3.And(*[a.f(n).t == b.f(n).t for n, _ in P.fields(a.ty) if n not in fields])
def c13(seg):
    e = seg.export
    k = seg.sk('k')
    if e == 'get_upload_status' and answered(seg):
        f = fs(seg.wE); p = seg.arg(0).t; r = seg.reply()
        yield 'C13', 'the reported stage is the stored one', z3.And(r.is_('Ok') == f.has(p), z3.Implies(f.has(p), r.v('Ok').t == f.at(p).f('state').t))
    if e not in UPLOADS: return
    f0, f1 = fs(seg.w0), fs(seg.w1)
    if seg.kind == 'await':
        x = seg.kw['ext']; n = x.d['name']; path = seg.arg(0).f('file_path').t
        if n in UPLOADS:
            u = f1.at(path); has = f1.has(path)
            yield 'C13', 'the storage canister is asked for the step of the named upload', extarg(seg, x, 1).f('file_path').t == path
            if n != 'init_upload': yield 'C13', 'the step is made at the canister that holds the upload', z3.And(has, extarg(seg, x, 0).t == u.f('canister').t)
            if n == 'init_upload': yield 'C13', 'an upload is registered only for a path not already in use', z3.Not(has)
            if n == 'store_chunk': yield 'C13', 'chunks are accepted only while registered and not finalized', z3.And(has, z3.Not(u.f('state').is_('Finalized')))
            if n == 'finalize_upload': yield 'C13', 'finalization follows an accepted chunk', z3.And(has, u.f('state').is_('InProgress'))
            if n == 'cancel_upload': yield 'C13', 'cancellation comes before finalization', z3.And(has, z3.Not(u.f('state').is_('Finalized')))
            yield 'C13', 'each call makes only its own step', n == e
    if not seg.sameroot('RS') and not same(seg.w0.raw('internal_filestorage'), seg.w1.raw('internal_filestorage')):
        if seg.kind != 'end': yield 'C13', 'nothing changes before the storage canister answered', f0.t == f1.t
        else:
            path = seg.arg(0).f('file_path').t
            h0, h1, u0, u1 = f0.has(path), f1.has(path), f0.at(path), f1.at(path)
            yield 'C13', 'only the named path changes', z3.Implies(k != path, f0.slot(k) == f1.slot(k))
            ch = z3.Not(z3.Or(z3.And(z3.Not(h0), z3.Not(h1)), z3.And(h0, h1, u0.t == u1.t)))
            P = seg.ex.P
            con = confirmed(seg, e)
            yield 'C13', 'the record names its path', z3.Implies(z3.And(ch, h1), u1.f('path').t == path)
            # an upload whose storage canister the collection does not know is dropped
            lost = z3.And(h0, z3.Not(h1), z3.Not(u0.f('state').is_('Finalized')), z3.Not(known(seg, u0.f('canister').t)), seg.reply().is_('Err')) if e != 'init_upload' and seg.reply() is not None else z3.BoolVal(False)
            st0 = lambda n: u0.f('state').is_(n)
            st1 = lambda n: u1.f('state').is_(n)
            if e == 'init_upload':
                x = seg.st.g.get('ext', ())
                at = extarg(seg, x[-1], 0).t == u1.f('canister').t if x else z3.BoolVal(False)
                step = z3.And(z3.Not(h0), h1, st1('Init'), at)
            elif e == 'store_chunk': step = z3.And(h0, z3.Not(st0('Finalized')), h1, st1('InProgress'), samebut(u0, u1, 'state'))
            elif e == 'finalize_upload': step = z3.And(h0, st0('InProgress'), h1, st1('Finalized'), samebut(u0, u1, 'state'))
            else: step = z3.And(h0, z3.Not(st0('Finalized')), z3.Not(h1))
            yield 'C13', 'the stage changes as the life cycle says', z3.Implies(ch, z3.Or(step, lost))
            yield 'C13', 'the stage changes only when the storage canister confirmed the step', z3.Implies(ch, z3.Or(con, lost))
    if answered(seg):
        path = seg.arg(0).f('file_path').t; h1, u1 = f1.has(path), f1.at(path); ok = seg.reply().is_('Ok')
        res = {'init_upload': z3.And(h1, u1.f('state').is_('Init')), 'store_chunk': z3.And(h1, u1.f('state').is_('InProgress')), 'finalize_upload': z3.And(h1, u1.f('state').is_('Finalized')), 'cancel_upload': z3.Not(h1)}[e]
        yield 'C13', 'a confirmed step is recorded', z3.Implies(ok, res)
        yield 'C13', 'success is answered only when the storage canister confirmed', z3.Implies(ok, confirmed(seg, e))
def known(seg, can):
    """the collection still knows the storage canister"""
    P = seg.ex.P
    m = seg.wE.data('sub_canister_manager').f('sub_canister_manager').f('sub_canisters')
    return m.has(can)
# ------------------------------------------------------------ C15
WIN = 60_000_000
def calls(w, t):
    m = w.get('sliding_window_guards'); h = m.has(t); q = m.at(t)
    return h, q
def cnt(w, t, x):
    h, q = calls(w, t); return z3.If(h, z3.Select(q.bag, x), 0)
def c15(seg):
    e = seg.export; w0, w1 = seg.w0, seg.w1
    if seg.sameroot('RS') or same(w0.raw('sliding_window_guards'), w1.raw('sliding_window_guards')): touched = False
    else: touched = True
    t, x = seg.sk('t'), seg.sk('n')
    if e not in BATCH:
        if touched: yield 'C15', 'the record of recent calls is left alone', w0.get('sliding_window_guards').t == w1.get('sliding_window_guards').t
        return
    it = item(seg)
    seg.st.add(cnt(w0, t, x) >= 0)
    if touched:
        h, q = calls(w1, t)
        yield 'C15', 'no more than five recent calls of a token are admitted', z3.Implies(z3.And(h), q.len <= 5)
    if touched:
        yield 'C15', 'admitted calls are remembered for 60 ms', z3.Implies(seg.now - x < WIN, cnt(w1, t, x) >= cnt(w0, t, x))
    if it is None or not it.pushed:
        if touched: yield 'C15', 'only a handled item counts as a call', w0.get('sliding_window_guards').t == w1.get('sliding_window_guards').t
        return
    T_ = it.req.f('token_id').t if 'collection' not in e else z3.IntVal(0)
    if touched: yield 'C15', 'calls on other tokens are not counted', z3.Implies(t != T_, w0.get('sliding_window_guards').slot(t) == w1.get('sliding_window_guards').slot(t))
    done = cnt(w1, T_, seg.now) >= cnt(w0, T_, seg.now) + 1
    seg.st.add(cnt(w0, T_, seg.now) >= 0)
    yield 'C15', 'an admitted call is counted', z3.Implies(it.ok, done)
    if seg.events: yield 'C15', 'a call that has an effect is counted', done
    g = nochange(seg)
    if g is not True: yield 'C15', 'a call that has an effect is counted', z3.Or(g, done)
def c15fn(seg):
    """the rate guard's own contract: it refuses only what is over the limit, and admits what is not"""
    if seg.export != 'contract.guard_sliding_window' or seg.kind != 'end': return
    tk = seg.farg(0).t; h, q = calls(seg.w1, tk); ok = seg.reply().is_('Ok'); j = seg.sk('j')
    seg.st.add(cnt(seg.w0, tk, seg.now) >= 0)
    yield 'C15', 'a call is refused only when five calls of its token are recent', z3.Implies(z3.Not(ok), z3.And(h, q.len >= 5, z3.Implies(z3.And(j >= 0, j < q.len), seg.now - q.at(j).t < WIN)))
    yield 'C15', 'an admitted call is counted', z3.Implies(ok, cnt(seg.w1, tk, seg.now) == cnt(seg.w0, tk, seg.now) + 1)
c15fn.contract = True
RULES3 = [c14, c13, c15, c15fn]
