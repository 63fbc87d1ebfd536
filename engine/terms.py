"""Typed z3 terms: field, variant, map and sequence access by source-level names."""
import z3
from vals import *
from core import *

def _acc(D, ci, fi, t):
    if is_ctor(t) and t.decl().eq(D.constructor(ci)): return t.arg(fi)
    return D.accessor(ci, fi)(t)
def _rec(D, ci, t):
    if is_ctor(t): return z3.BoolVal(t.decl().eq(D.constructor(ci)))
    return D.recognizer(ci)(t)

class T:
    __slots__ = ('ex', 'ty', 't')
    def __init__(s, ex, ty, t):
        P = ex.P
        while P.cls(ty) in ('ref', 'box', 'transp'): ty = P.inner(ty)
        s.ex = ex; s.ty = ty; s.t = zleaf(t)
    def __repr__(s): return 'T<%s>(%s)' % (s.ex.P.name(s.ty), s.t)
    # structs / tuples
    def f(s, name, v=0):
        P = s.ex.P
        k = P.fidx(s.ty, name, v) if isinstance(name, str) else name
        x = P.fields(s.ty, v)[k][1]
        if s.ex.is_u(s.ty):
            m = mangle(canon(P.name(s.ty))); so = P.sort(s.ty)
            return T(s.ex, x, s.ex.uf('fld_%s_%d_%d' % (m, v, k), so, P.sort(x))(s.t))
        return T(s.ex, x, _acc(P.sort(s.ty), v, k, s.t))
    # enums
    def vi(s, name): return s.ex.P.variant(s.ty, name)
    def is_(s, name):
        if s.ex.is_u(s.ty):
            m = mangle(canon(s.ex.P.name(s.ty))); so = s.ex.P.sort(s.ty)
            return s.ex.uf('dsc_' + m, so, z3.IntSort())(s.t) == s.vi(name)
        return _rec(s.ex.P.sort(s.ty), s.vi(name), s.t)
    def v(s, name, k=0): return s.f(k, s.vi(name))
    def some(s): return s.is_('Some')
    def val(s): return s.v('Some')
    # accounts
    def key(s):
        """normalised account key"""
        P = s.ex.P; x = s
        w = P.acc_newtype(x.ty)
        if w is not None: x = x.f(0)
        if P.enum_key(x.ty):
            D = P.keysort(x.ty); r = None
            for vi, v in reversed(list(enumerate(P.T[x.ty]['v']))):
                c = D.constructor(vi)(*[T(x.ex, t, _acc(P.sort(x.ty), vi, j, x.t)).anykey() for j, (_, t) in enumerate(v['f'])])
                r = c if r is None else z3.If(_rec(P.sort(x.ty), vi, x.t), c, r)
            return r
        if P.adt(x.ty) != ACCOUNT: raise Unsupported('key of ' + P.name(x.ty))
        return P.accsort().acc(x.f(0).t, effsub(x.f(1)))
    def anykey(s):
        P = s.ex.P
        return s.key() if P.adt(s.ty) == ACCOUNT or P.acc_newtype(s.ty) is not None or P.enum_key(s.ty) else s.t
    # maps
    def mapD(s):
        k, v = s.ex.P.mapkv(s.ty); return s.ex.P.mapdt(k, v)
    @property
    def arr(s):
        D = s.mapD() if s.ex.P.cls(s.ty) == 'map' else s.ex.P.seqdt(s.ex.P.elem(s.ty))
        return _acc(D, 0, 0 if s.ex.P.cls(s.ty) == 'map' else 1, s.t)
    @property
    def size(s): return _acc(s.mapD(), 0, 1, s.t)
    def slot(s, k): return sel(s.arr, k)
    def has(s, k):
        O = s.ex.P.optdt(s.ex.P.mapkv(s.ty)[1]); o = sel(s.arr, k)
        if is_ctor(o): return z3.BoolVal(o.decl().eq(O.some))
        return O.is_some(o)
    def at(s, k):
        P = s.ex.P
        if P.cls(s.ty) == 'map':
            vt = P.mapkv(s.ty)[1]; O = P.optdt(vt); o = sel(s.arr, k)
            return T(s.ex, vt, o.arg(0) if is_ctor(o) and o.decl().eq(O.some) else O.val(o))
        return T(s.ex, P.elem(s.ty), sel(s.arr, zint(k)))
    # sequences
    @property
    def len(s): return _acc(s.ex.P.seqdt(s.ex.P.elem(s.ty)), 0, 0, s.t)
    @property
    def bag(s): return _acc(s.ex.P.seqdt(s.ex.P.elem(s.ty)), 0, 2, s.t)

def effsub(o):
    return z3.If(o.some(), o.val().t, ZERO32)
def optkey(o, ex):
    return o.val().key()
