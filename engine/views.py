"""Iterator views: sequences of values that iterators range over."""
import z3
from vals import *
from core import *

class View:
    countable = True
    def same(s, o): return s is o
    def consts(s): return []
    def ref(s, x): return x

class SeqView(View):
    """elements of a sequence; by reference when rf is given"""
    def __init__(s, sq, rf=None, lo=0, hi=None):
        s.sq = sq; s.rf = rf
    def length(s, ex, st): return ex.seq_len(st, s.sq)
    def get(s, ex, st, i):
        if s.rf is not None: return [(st, Rf(s.rf.root, s.rf.path + (('i', i),)))]
        return [(st, ex.seq_get(st, s.sq, i))]
    def same(s, o): return isinstance(o, SeqView) and same(s.sq, o.sq) and ((s.rf is None) == (o.rf is None)) and (s.rf is None or same(s.rf, o.rf))
    def consts(s):
        from loops import consts_of_value
        return consts_of_value(s.sq)
    def __repr__(s): return 'Seq'

class MapView(View):
    """entries of a map in iteration order; mode kv|k|v ; rf: reference to the map (yield references)"""
    def __init__(s, ex, st, mp, rf, mode, byref):
        s.mp = mp; s.rf = rf; s.mode = mode; s.byref = byref
        s.KA, s.idx = enum_of(ex, st, mp)
    def length(s, ex, st): return s.mp.size
    def get(s, ex, st, i):
        P = ex.P; m = s.mp
        k = sel(s.KA, zint(i))
        n = zint(i)
        st.add(z3.Implies(z3.And(n >= 0, n < zint(m.size)), z3.And(P.optdt(m.vty).is_some(sel(m.arr, k)), s.idx(k) == n)))
        kv = key_value(ex, st, m.kty, k)
        if s.byref:
            kr = ex.tmp(st, kv, m.kty)
            vr = Rf(s.rf.root, s.rf.path + (('k', k),)) if s.rf is not None else ex.tmp(st, val_of(ex, st, m, k), m.vty)
        else: kr = kv; vr = val_of(ex, st, m, k)
        if s.mode == 'k': return [(st, kr)]
        if s.mode == 'v': return [(st, vr)]
        return [(st, St(None, (kr, vr)))]
    def same(s, o): return isinstance(o, MapView) and same(s.mp, o.mp) and s.mode == o.mode and s.byref == o.byref
    def consts(s):
        from loops import consts_of_value
        return consts_of_value(s.mp)

def val_of(ex, st, m, k):
    o = sel(m.arr, k); D = ex.P.optdt(m.vty)
    return ex.dec(st, m.vty, D.val(o) if not is_ctor(o) else o.arg(0))

def key_value(ex, st, kty, k):
    """a value of the key type whose normalised key is k"""
    P = ex.P; kt = P.keyty(kty)
    return dec_key(ex, st, kt, k)
def dec_key(ex, st, kt, k):
    P = ex.P
    if P.adt(kt) == ACCOUNT:
        A = P.accsort(); oty = P.fields(kt)[1][1]
        d = z3.Function('accrep', A, z3.IntSort())(k)
        sub = A.sub(k)
        st.add(z3.And(d >= 0, d <= 1, z3.Implies(d == 0, sub == ZERO32)))
        st.add(blen(sub) == 32)
        return St(kt, (A.ow(k), En(oty, d, {0: (), 1: (sub,)})))
    w = P.acc_newtype(kt)
    if w is not None: return St(kt, (dec_key(ex, st, w, k),))
    return ex.dec(st, kt, k)

_enum = {}
def enum_of(ex, st, m):
    """ghost enumeration of the keys of a map: (array index->key, function key->index) with its defining axioms"""
    P = ex.P
    if z3.is_K(m.arr) and isinstance(m.size, int) and m.size == 0:
        pass
    key = (m.arr.get_id(), zint(m.size).get_id())
    r = _enum.get(key)
    if r is None:
        ks = m.arr.sort().domain()
        KA = z3.Const('enum!%d' % uid(), z3.ArraySort(z3.IntSort(), ks))
        idx = z3.Function('idx!%d' % uid(), ks, z3.IntSort())
        D = P.optdt(m.vty); i = z3.Int('i!%d' % uid()); j = z3.Int('j!%d' % uid()); k = z3.Const('k!%d' % uid(), ks)
        sz = zint(m.size)
        ax = [ForAll([i], z3.Implies(z3.And(i >= 0, i < sz), z3.And(D.is_some(z3.Select(m.arr, z3.Select(KA, i))), idx(z3.Select(KA, i)) == i)), patterns=[z3.Select(KA, i)]),
              ForAll([k], z3.Implies(D.is_some(z3.Select(m.arr, k)), z3.And(idx(k) >= 0, idx(k) < sz, z3.Select(KA, idx(k)) == k)), patterns=[z3.Select(m.arr, k)] if not z3.is_store(m.arr) and not z3.is_K(m.arr) else [idx(k)])]
        if m.ordered and ks == z3.IntSort():
            ax.append(ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < sz), z3.Select(KA, i) < z3.Select(KA, j)), patterns=[(z3.Select(KA, i), z3.Select(KA, j))]))
        r = _enum[key] = (KA, idx, ax, m)
    ids = {p.get_id() for p in st.pc}
    for a in r[2]:
        if a.get_id() not in ids: st.add(a)
    return r[0], r[1]

class RangeView(View):
    def __init__(s, lo, hi): s.lo = lo; s.hi = hi
    def length(s, ex, st):
        if isinstance(s.lo, int) and isinstance(s.hi, int): return max(0, s.hi - s.lo)
        return simp(z3.If(zint(s.hi) > zint(s.lo), zint(s.hi) - zint(s.lo), 0))
    def get(s, ex, st, i):
        if isinstance(s.lo, int) and isinstance(i, int): return [(st, s.lo + i)]
        return [(st, simp(zint(s.lo) + zint(i)))]
    def same(s, o): return isinstance(o, RangeView) and eqv(s.lo, o.lo) and eqv(s.hi, o.hi)
    def consts(s):
        from loops import consts_of_value
        return consts_of_value(s.lo) + consts_of_value(s.hi)

class Wrap(View):
    def __init__(s, v, x=None): s.v = v; s.x = x
    @property
    def countable(s): return s.v.countable
    def length(s, ex, st): return s.v.length(ex, st)
    def same(s, o): return type(s) == type(o) and s.v.same(o.v) and (s.x is o.x or (isinstance(s.x, (V, int, bool, z3.ExprRef)) and isinstance(o.x, (V, int, bool, z3.ExprRef)) and same(s.x, o.x)))
    def consts(s):
        from loops import consts_of_value
        return s.v.consts() + (consts_of_value(s.x) if isinstance(s.x, (V, z3.ExprRef)) else [])
class Mapped(Wrap):
    def get(s, ex, st, i):
        r = []
        for s1, x in s.v.get(ex, st, i): r += ex.apply(s1, s.x, [x])
        return r
class Cloned(Wrap):
    def get(s, ex, st, i):
        r = []
        for s1, x in s.v.get(ex, st, i):
            v = ex.read(s1, x) if isinstance(x, Rf) else x
            r.append((s1, v))
        return r
class Enumerated(Wrap):
    def get(s, ex, st, i): return [(s1, St(s.x, (i, x))) for s1, x in s.v.get(ex, st, i)]
class Taken(Wrap):
    def length(s, ex, st):
        l = s.v.length(ex, st)
        if isinstance(l, int) and isinstance(s.x, int): return min(l, s.x)
        return simp(z3.If(zint(l) < zint(s.x), zint(l), zint(s.x)))
    def get(s, ex, st, i): return s.v.get(ex, st, i)
class Skipped(Wrap):
    def length(s, ex, st):
        l = s.v.length(ex, st)
        if isinstance(l, int) and isinstance(s.x, int): return max(0, l - s.x)
        return simp(z3.If(zint(l) > zint(s.x), zint(l) - zint(s.x), 0))
    def get(s, ex, st, i): return s.v.get(ex, st, i + s.x if isinstance(i, int) and isinstance(s.x, int) else simp(zint(i) + zint(s.x)))
class Rev(Wrap):
    def get(s, ex, st, i):
        l = s.v.length(ex, st)
        return s.v.get(ex, st, l - 1 - i if isinstance(l, int) and isinstance(i, int) else simp(zint(l) - 1 - zint(i)))
class Chained(Wrap):
    @property
    def countable(s): return s.v.countable and s.x.countable
    def length(s, ex, st):
        a, b = s.v.length(ex, st), s.x.length(ex, st)
        return a + b if isinstance(a, int) and isinstance(b, int) else simp(zint(a) + zint(b))
    def get(s, ex, st, i):
        a = s.v.length(ex, st)
        r = []
        for s1, b in ex.branch(st, simp(zint(i) < zint(a))):
            if b: r += s.v.get(ex, s1, i)
            else: r += s.x.get(ex, s1, i - a if isinstance(i, int) and isinstance(a, int) else simp(zint(i) - zint(a)))
        return r
    def same(s, o): return isinstance(o, Chained) and s.v.same(o.v) and s.x.same(o.x)
    def consts(s): return s.v.consts() + s.x.consts()
class Zipped(Wrap):
    def length(s, ex, st):
        a, b = s.v.length(ex, st), s.x.length(ex, st)
        if isinstance(a, int) and isinstance(b, int): return min(a, b)
        return simp(z3.If(zint(a) < zint(b), zint(a), zint(b)))
    def get(s, ex, st, i):
        r = []
        for s1, x in s.v.get(ex, st, i):
            for s2, y in s.x.get(ex, s1, i): r.append((s2, St(None, (x, y))))
        return r
    def same(s, o): return isinstance(o, Zipped) and s.v.same(o.v) and s.x.same(o.x)
    def consts(s): return s.v.consts() + s.x.consts()
class Filtered(Wrap):
    """positions are positions of the underlying view"""
    countable = False
class FilterMapped(Wrap):
    countable = False
