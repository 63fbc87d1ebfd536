"""Assumed contracts of std / core / alloc functions (and generic helpers)."""
import re, hashlib
import z3
from vals import *
from core import *
from views import *

M = {}
PAT = []
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d
def pmodel(rx):
    def d(f): PAT.append((re.compile(rx), f)); return f
    return d

class Models:
    def __init__(self): self.memo = {}
    def lookup(self, ex, c):
        n = c.defn
        f = M.get(n)
        if f is not None: return f
        if n in self.memo: return self.memo[n]
        r = None
        for rx, f in PAT:
            if rx.search(n): r = f; break
        self.memo[n] = r
        return r

# ------------------------------------------------------------ helpers
def deref(ex, st, v):
    k = 0
    while isinstance(v, Rf):
        v = ex.read(st, v); k += 1
        if k > 8: raise Unsupported('deref chain')
    return v
def deref_rf(ex, st, v):
    """innermost reference"""
    while True:
        if not isinstance(v, Rf): 
            return ex.tmp(st, v)
        w = ex.read(st, v)
        if isinstance(w, Rf): v = w
        else: return v
def opt_ty(ex, c):
    return c.dt
def some(ty, v): return En(ty, 1, {1: (v,)})
def none(ty): return En(ty, 0, {0: ()})
def mkopt(ty, cond, v):
    if cond is True: return some(ty, v)
    if cond is False: return none(ty)
    return En(ty, If(cond, 1, 0), {0: (), 1: (v,)})
def ok(ty, v): return En(ty, 0, {0: (v,)})
def err(ty, v): return En(ty, 1, {1: (v,)})
def mkres(ty, cond, v, e):
    if cond is True: return ok(ty, v)
    if cond is False: return err(ty, e)
    return En(ty, If(cond, 0, 1), {0: (v,), 1: (e,)})
def unit(ex): return St(ex.P.unit, ())
def strip(ex, ty):
    while ty is not None and ex.P.cls(ty) in ('ref', 'box', 'transp'): ty = ex.P.inner(ty)
    return ty
def local_body(ex, c):
    """is the resolved callee a hand-written (non-derived) function of the crate under verification?"""
    n = c.f.get('inst')
    if n is None: return False
    i = ex.P.I[n]
    return i['crate'] == ex.P.crate and i['body'] is not None and not ex.P.derived(n)
def custom(P, trait, ty):
    """does the type contain (or equal) a type whose implementation of the trait is hand-written in the crate?"""
    H = getattr(P, '_hand', None)
    if H is None:
        H = P._hand = {}; rx = re.compile(r'^<(.*) as std::(?:clone|cmp|hash)::(Clone|PartialEq|PartialOrd|Ord|Hash)>::')
        for n, i in enumerate(P.I):
            if i['crate'] != P.crate or i['body'] is None: continue
            m = rx.match(i['name'])
            if m and not P.derived(n) and not m.group(1).startswith(('std::', 'alloc::', 'core::', 'hashbrown::')):
                nm = m.group(1)
                if nm.startswith(P.crate + '::'): nm = nm[len(P.crate) + 2:]
                H.setdefault(m.group(2), set()).add(nm)
        P._cust = {}
    hs = set()
    for t in trait: hs |= H.get(t, set())
    if not hs: return False
    def go(t, seen):
        k = (trait, t)
        if k in P._cust: return P._cust[k]
        if t in seen: return False
        seen = seen | {t}
        d = P.ty(t); r = False
        nm = d['n']
        if any(nm == h or nm == P.crate + '::' + h for h in hs): r = True
        else:
            sub = [f[1] for v in d.get('v') or () for f in v['f']] if d['k'] == 'adt' and d.get('crate') == P.crate else []
            sub += [x for x in d.get('args') or () if isinstance(x, int)]
            e = d.get('e')
            sub += e if isinstance(e, list) else [e] if isinstance(e, int) else []
            r = any(go(x, seen) for x in sub)
        P._cust[k] = r
        return r
    return go(ty, frozenset())
def handwritten(ex, c, *trait):
    """the callee, or something it calls on a part of the value, is hand-written: its body has to be run"""
    if local_body(ex, c): return True
    if not c.targs or not isinstance(c.targs[0], int) or not custom(ex.P, trait, c.targs[0]): return False
    n = c.f.get('inst')
    if n is not None and ex.P.I[n]['crate'] == ex.P.crate and ex.P.I[n]['body'] is not None and not ex.P.name(strip(ex, c.targs[0])).startswith('std::'): return True
    if ex.P.ty(c.targs[0])['k'] == 'ref' and 'Clone' in trait: return False
    raise Unsupported('hand-written %s inside %s' % (trait[0], ex.P.name(c.targs[0])))
def get_opt(ex, st, v):
    v = ex.force(st, v)
    return v

def eqval(ex, st, ty, a, b):
    """semantic equality (PartialEq) of two values of type ty"""
    P = ex.P
    while P.cls(ty) in ('ref', 'box', 'transp') if ty is not None else False: ty = P.inner(ty)
    a = deref(ex, st, a); b = deref(ex, st, b)
    if is_leaf(a) and is_leaf(b): 
        if zleaf(a).sort() != zleaf(b).sort(): raise Unsupported('eq sorts')
        return Eq(a, b)
    if isinstance(a, Un) or isinstance(b, Un): raise Unsupported('eq on unknown')
    if ty is not None and P.adt(ty) == ACCOUNT:
        o1, s1 = ex.acc_parts(st, ty, a); o2, s2 = ex.acc_parts(st, ty, b)
        return And(Eq(o1, o2), Eq(s1, s2))
    if isinstance(a, Op) and isinstance(b, Op) and not contains_account(ex, a.ty) : return Eq(a.t, b.t)
    if isinstance(a, Sq) and isinstance(b, Sq): return eqseq(ex, st, a, b)
    if isinstance(a, Mp) and isinstance(b, Mp): return And(Eq(a.arr, b.arr), Eq(a.size, b.size))
    if not isinstance(a, (St, En, Op)) or not isinstance(b, (St, En, Op)): raise Unsupported('eq %r %r' % (a, b))
    a = ex.force(st, a); b = ex.force(st, b)
    if isinstance(a, St): return And(*[eqval(ex, st, x, u, v) for (_, x), u, v in zip(P.fields(a.ty), a.f, b.f)])
    if isinstance(a, En):
        cs = [Eq(a.d, b.d)]
        if cs[0] is False: return False
        for vi in set(a.p) & set(b.p):
            fs = P.fields(a.ty, vi)
            if not fs: continue
            g = Eq(a.d, vi)
            if g is False or Eq(b.d, vi) is False: continue
            e = And(*[eqval(ex, st, x, u, v) for (_, x), u, v in zip(fs, a.p[vi], b.p[vi])])
            cs.append(Implies(g, e))
        return And(*cs)
    raise Unsupported('eq')
_ca = {}
def contains_account(ex, ty, seen=None):
    k = ty
    if k in _ca and seen is None: return _ca[k]
    seen = seen or set()
    if ty in seen: return False
    seen.add(ty)
    r = ex.P.adt(ty) == ACCOUNT or any(contains_account(ex, x, seen) for x in ex.P._sub(ty))
    _ca[k] = r
    return r
def eqseq(ex, st, a, b):
    if same(a, b): return True
    if a.concrete and b.concrete:
        if len(a.tail) != len(b.tail): return False
        return And(*[eqval(ex, st, a.ety, x, y) for x, y in zip(a.tail, b.tail)])
    la, aa, _ = ex.seq_term(st, a); lb, ab, _ = ex.seq_term(st, b)
    r = z3.Bool('seqeq!%d' % uid()); i = z3.Int('i!%d' % uid()); w = z3.Int('w!%d' % uid())
    st.add(z3.Implies(r, z3.And(zint(la) == zint(lb), ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(la)), z3.Select(aa, i) == z3.Select(ab, i)), patterns=[z3.Select(aa, i)]))))
    st.add(z3.Implies(z3.Not(r), z3.Or(zint(la) != zint(lb), z3.And(w >= 0, w < zint(la), z3.Select(aa, w) != z3.Select(ab, w)))))
    return r

def snap_clone(ex, st, v):
    return v

# ------------------------------------------------------------ clone / eq / ord / default / convert
@model('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'core::clone::Clone::clone')
def m_clone(ex, st, c):
    if handwritten(ex, c, 'Clone'): return NotImplemented
    a = c.args[0]
    t = c.targs[0] if c.targs else None
    # cloning a reference copies the reference
    if t is not None and ex.P.ty(t)['k'] == 'ref': return ex.read(st, a)
    v = ex.read(st, a) if isinstance(a, Rf) else a
    if t is not None and ex.P.ty(t)['k'] == 'adt' and ex.P.ty(t)['def'] == 'std::boxed::Box': return ex.tmp(st, ex.read(st, v), ex.P.inner(t))
    return v
@model('std::clone::Clone::clone_from')
def m_clone_from(ex, st, c):
    ex.write(st, c.args[0], deref(ex, st, c.args[1])); return unit(ex)
@model('std::cmp::PartialEq::eq')
def m_eq(ex, st, c):
    if handwritten(ex, c, 'PartialEq'): return NotImplemented
    return eqgen(ex, st, c)
@model('std::cmp::PartialEq::ne')
def m_ne(ex, st, c):
    if handwritten(ex, c, 'PartialEq'): return NotImplemented
    n = c.f.get('inst')
    e = eqgen(ex, st, c)
    return Not(e)
def eqgen(ex, st, c):
    a, b = c.args
    P = ex.P
    ta, tb = c.targs[0], (c.targs[1] if len(c.targs) > 1 else c.targs[0])
    A, B = strip(ex, ta), strip(ex, tb)
    if 'tracing' in P.name(A): return False
    return eqval(ex, st, A, a, b)
def num(ex, st, v):
    v = deref(ex, st, v)
    if isinstance(v, bool): return int(v)
    if is_leaf(v) and (isinstance(v, int) or z3.is_int(v)): return v
    raise Unsupported('ordering of %r' % (v,))
def ordval(ex, st, ty, a, b):
    """-> (lt, eq) booleans"""
    P = ex.P; ty = strip(ex, ty); a = deref(ex, st, a); b = deref(ex, st, b)
    if is_leaf(a) and is_leaf(b):
        if isinstance(a, bool) or isinstance(b, bool) or (not isinstance(a, int) and z3.is_bool(a)): raise Unsupported('bool order')
        if isinstance(a, int) and isinstance(b, int): return a < b, a == b
        za, zb = zleaf(a), zleaf(b)
        if z3.is_int(za): return simp(za < zb), Eq(a, b)
        if za.sort() == Str: return strlt(za, zb), Eq(a, b)
        if za.sort() in (Prin, Bytes): return z3.Function('lt_' + str(za.sort()), za.sort(), za.sort(), z3.BoolSort())(za, zb), Eq(a, b)
        raise Unsupported('order on ' + str(za.sort()))
    a = ex.force(st, a); b = ex.force(st, b)
    if isinstance(a, St) and isinstance(b, St) and a.ty is not None and P.adt(a.ty) == ACCOUNT:
        A = P.accsort(); ka, kb = A.acc(*ex.acc_parts(st, a.ty, a)), A.acc(*ex.acc_parts(st, b.ty, b))
        l = z3.Function('lt_acc', A, A, z3.BoolSort())
        return l(ka, kb), Eq(ka, kb)
    if isinstance(a, En) and isinstance(b, En) and len(P.ty(a.ty)['v']) >= 1:
        lt = (a.d < b.d) if isinstance(a.d, int) and isinstance(b.d, int) else simp(zint(a.d) < zint(b.d)); eq = Eq(a.d, b.d)
        for vi in set(a.p) & set(b.p):
            fs = P.fields(a.ty, vi)
            if not fs: continue
            l, e = lex(ex, st, [x for _, x in fs], a.p[vi], b.p[vi])
            g = And(Eq(a.d, vi), Eq(b.d, vi))
            lt = Or(lt, And(g, l)); eq = And(eq, Implies(g, e))
        return lt, eq
    if isinstance(a, St) and isinstance(b, St) and P.adt(a.ty) != ACCOUNT:
        return lex(ex, st, [x for _, x in P.fields(a.ty)] if a.ty is not None else [None] * len(a.f), a.f, b.f)
    raise Unsupported('ordering of %r' % (a,))
def lex(ex, st, tys, xs, ys):
    lt, eq = False, True
    for t, x, y in zip(tys, xs, ys):
        l, e = ordval(ex, st, t, x, y)
        lt = Or(lt, And(eq, l)); eq = And(eq, e)
    return lt, eq
def cmpop(which):
    def f(ex, st, c):
        if handwritten(ex, c, 'PartialOrd', 'Ord'): return NotImplemented
        A = strip(ex, c.targs[0]) if c.targs else None
        if A is not None and 'tracing' in ex.P.name(A): return False
        n = c.f.get('inst')
        # provided methods lt/le/gt/ge on a type whose partial_cmp is hand-written in the crate are not modelled
        lt, eq = ordval(ex, st, A, c.args[0], c.args[1])
        return {'lt': lt, 'le': Or(lt, eq), 'gt': Not(Or(lt, eq)), 'ge': Not(lt)}[which]
    return f
for w in ('lt', 'le', 'gt', 'ge'): M['std::cmp::PartialOrd::' + w] = cmpop(w)
def ordering(ex, ty, lt, eq):
    # std::cmp::Ordering: variants Less, Equal, Greater (indices 0,1,2)
    d = If(lt, 0, If(eq, 1, 2))
    return En(ty, d, {0: (), 1: (), 2: ()})
def ord_ty(ex): return ex.P.tyn('std::cmp::Ordering')
@model('std::cmp::Ord::cmp')
def m_cmp(ex, st, c):
    if handwritten(ex, c, 'Ord', 'PartialOrd'): return NotImplemented
    lt, eq = ordval(ex, st, c.targs[0], c.args[0], c.args[1])
    return ordering(ex, ord_ty(ex), lt, eq)
@model('std::cmp::PartialOrd::partial_cmp')
def m_pcmp(ex, st, c):
    if handwritten(ex, c, 'Ord', 'PartialOrd'): return NotImplemented
    A = strip(ex, c.targs[0])
    if 'tracing' in ex.P.name(A): return Un(c.dt, 'tracing')
    lt, eq = ordval(ex, st, c.targs[0], c.args[0], c.args[1])
    oty = c.dt if c.dt is not None else ex.P.tyn('std::option::Option<std::cmp::Ordering>')
    return some(oty, ordering(ex, ex.P.targ(oty, 0), lt, eq))
@model('std::cmp::Ord::max', 'std::cmp::max')
def m_max(ex, st, c):
    lt, eq = ordval(ex, st, c.targs[0], c.args[0], c.args[1])
    if is_leaf(c.args[0]): return If(Or(lt, eq), c.args[1], c.args[0])
    return [(s, c.args[1] if b else c.args[0]) for s, b in ex.branch(st, Or(lt, eq))]
@model('std::cmp::Ord::min', 'std::cmp::min')
def m_min(ex, st, c):
    lt, eq = ordval(ex, st, c.targs[0], c.args[0], c.args[1])
    if is_leaf(c.args[0]): return If(lt, c.args[0], If(eq, c.args[0], c.args[1]))
    return [(s, c.args[0] if b else c.args[1]) for s, b in ex.branch(st, Or(lt, eq))]
@model('std::default::Default::default')
def m_default(ex, st, c):
    if local_body(ex, c): return NotImplemented
    return default(ex, st, c.targs[0])
def default(ex, st, ty):
    P = ex.P; c = P.cls(ty)
    if c in ('int', 'nat'): return 0
    if c == 'bool': return False
    if c == 'str': return CONSTS.str('')
    if c == 'bytes': return CONSTS.byt(b'')
    if c == 'seq': return Sq(P.elem(ty))
    if c == 'map': return empty_map(ex, ty)
    if P.adt(ty) == 'std::option::Option': return none(ty)
    if c == 'transp': return default(ex, st, P.inner(ty))
    if c == 'box': return ex.tmp(st, default(ex, st, P.inner(ty)))
    if c == 'tuple': return St(ty, [default(ex, st, x) for _, x in P.fields(ty)])
    raise Unsupported('default of ' + P.name(ty))

def wname(ex, t): return ex.P.name(t)
@model('std::convert::From::from', 'std::convert::Into::into')
def m_from(ex, st, c):
    if local_body(ex, c): return NotImplemented
    if c.defn.endswith('into'): S, D = c.targs[0], c.targs[1]
    else: D, S = c.targs[0], (c.targs[1] if len(c.targs) > 1 else c.targs[0])
    # user-written From impls reached through Into
    n = c.f.get('inst')
    v = c.args[0]; P = ex.P
    if canon(P.name(S)) == canon(P.name(D)): return v
    sc, dc = P.cls(strip(ex, S)), P.cls(D)
    if c.defn.endswith('into'):
        if n is not None and P.I[n]['body'] is not None: return NotImplemented
    if dc in ('int', 'nat') and sc in ('int', 'nat', 'bool'):
        x = deref(ex, st, v)
        if isinstance(x, bool): return int(x)
        if isinstance(x, z3.ExprRef) and z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        return x
    if dc == 'str' and sc == 'str': return deref(ex, st, v)
    if dc == 'bytes' and sc == 'bytes': return deref(ex, st, v)
    if dc == 'bytes' and sc == 'str': return utf8(zleaf(deref(ex, st, v)))
    if dc == 'bytes' and sc == 'prin': return z3.Function('prin_bytes', Prin, Bytes)(deref(ex, st, v))
    if P.adt(D) == 'std::option::Option': return some(D, v)
    if P.adt(D) == ACCOUNT and sc == 'prin': return St(D, (deref(ex, st, v), none(P.fields(D)[1][1])))
    if dc == 'seq' and sc == 'seq':
        x = deref(ex, st, v)
        return x
    if dc == 'box': return ex.tmp(st, v, P.inner(D))
    if dc == 'transp': return v
    if dc == 'map' and sc == 'seq': return collect_into(ex, st, D, It(SeqView(deref(ex, st, v)), 0))
    if P.opaque_adt(D) or P.name(D).startswith('std::boxed::Box<dyn'): return Un(D, 'from')
    if n is not None and P.I[n]['body'] is not None: return NotImplemented
    raise Unsupported('conversion %s -> %s' % (P.name(S), P.name(D)))
@model('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def m_tryfrom(ex, st, c):
    if local_body(ex, c): return NotImplemented
    P = ex.P
    if c.defn.endswith('into'): S, D = c.targs[0], c.targs[1]
    else: D, S = c.targs[0], c.targs[1]
    v = deref(ex, st, c.args[0]); sc, dc = P.cls(strip(ex, S)), P.cls(D)
    rt = c.dt
    if dc == 'int' and sc in ('int', 'nat'):
        T = P.ty(D); w = T['bits']; lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if T['signed'] else (0, 1 << w)
        if isinstance(v, int): inr = lo <= v < hi
        else: inr = simp(And(zint(v) >= lo, zint(v) < hi))
        et = P.targ(rt, 1)
        return mkres(rt, inr, v, Un(et, 'conversion error'))
    if dc == 'bytes' and sc == 'bytes':
        T = P.ty(D); et = P.targ(rt, 1)
        if T['k'] == 'array': return mkres(rt, Eq(ex.seq_len(st, v), int(T['len'])), v, Un(et, 'len'))
    raise Unsupported('try_from %s -> %s' % (P.name(S), P.name(D)))
@pmodel(r'ToPrimitive::to_(u64|u32|usize|u128|i64|u8|u16)$')
def m_toprim(ex, st, c):
    v = deref(ex, st, c.args[0]); w = c.defn.split('_')[-1]
    bits = {'u64': 64, 'u32': 32, 'usize': 64, 'u128': 128, 'u8': 8, 'u16': 16}.get(w)
    if bits is None: raise Unsupported(c.defn)
    inr = 0 <= v < (1 << bits) if isinstance(v, int) else simp(And(v >= 0, v < (1 << bits)))
    return mkopt(c.dt, inr, v)
@model('std::string::ToString::to_string')
def m_tostring(ex, st, c):
    if local_body(ex, c): return NotImplemented
    v = deref(ex, st, c.args[0])
    return show(ex, st, v)
def show(ex, st, v):
    if is_leaf(v):
        z = zleaf(v)
        if z.sort() == Str: return z
        if isinstance(v, int) and not isinstance(v, bool): return CONSTS.str(str(v))
        return z3.Function('show_' + str(z.sort()), z.sort(), Str)(z)
    if isinstance(v, Op): return z3.Function('show_' + str(v.t.sort()), v.t.sort(), Str)(v.t)
    if isinstance(v, (St, En)) and v.ty is not None:
        try:
            t = ex.enc(st, v.ty, v)
            return z3.Function('show_' + str(t.sort()), t.sort(), Str)(t)
        except Unsupported: pass
    return z3.Const('str!%d' % uid(), Str)

# ------------------------------------------------------------ integers
@pmodel(r'^(core|std)::num::<impl (u|i)(8|16|32|64|128|size)>::')
def m_num(ex, st, c):
    op = c.defn.split('::')[-1]
    ty = c.at[0]
    if ty is None:
        m = re.search(r'<impl (\w+)>', c.defn); ty = ex.P.tyn(m.group(1))
    T = ex.P.ty(ty)
    if T['k'] == 'ref': ty = ex.P.inner(ty); T = ex.P.ty(ty)
    w = T['bits']; signed = T['signed']; hi = (1 << (w - 1)) if signed else (1 << w); lo = -(1 << (w - 1)) if signed else 0
    a = deref(ex, st, c.args[0]); b = deref(ex, st, c.args[1]) if len(c.args) > 1 else None
    conc = isinstance(a, int) and (b is None or isinstance(b, int))
    base = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b} if conc else {'add': lambda: zint(a) + zint(b), 'sub': lambda: zint(a) - zint(b), 'mul': lambda: zint(a) * zint(b)}
    for k in ('saturating_', 'checked_', 'wrapping_', 'overflowing_', 'unchecked_', ''):
        if op.startswith(k) and op[len(k):] in base:
            r = base[op[len(k):]]()
            if k == 'saturating_':
                if conc: return max(lo, min(hi - 1, r))
                return simp(z3.If(r < lo, z3.IntVal(lo), z3.If(r >= hi, z3.IntVal(hi - 1), r)))
            if k == 'checked_':
                inr = lo <= r < hi if conc else simp(And(r >= lo, r < hi))
                return mkopt(c.dt, inr, r)
            if k in ('wrapping_', 'unchecked_'):
                return ex.arith(st, {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[op[len(k):]], ty, a, b)[0]
            if k == 'overflowing_':
                v, o = ex.arith(st, {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[op[len(k):]], ty, a, b)
                return St(c.dt, (v, o))
    if op == 'unsigned_abs': return abs(a) if conc else simp(z3.If(zint(a) < 0, -zint(a), zint(a)))
    if op in ('is_negative', 'is_positive'): 
        if conc: return a < 0 if op == 'is_negative' else a > 0
        return simpb(zint(a) < 0 if op == 'is_negative' else zint(a) > 0)
    if op in ('checked_div', 'checked_rem') and (not signed or conc and a >= 0 and b >= 0):
        nz = Not(Eq(b, 0))
        r = (a // b if op == 'checked_div' else a % b) if conc and b != 0 else (0 if conc else (zint(a) / zint(b) if op == 'checked_div' else zint(a) % zint(b)))
        return mkopt(c.dt, nz, r)
    if op == 'div_ceil':
        if conc and b: return -(-a // b)
        rs = []
        for s2, z in ex.branch(st, Eq(b, 0)):
            if z: ex.trap(s2, 'div0')
            else: rs.append((s2, simp((zint(a) + zint(b) - 1) / zint(b))))
        return rs
    if op == 'abs_diff':
        if conc: return abs(a - b)
        return simp(z3.If(zint(a) > zint(b), zint(a) - zint(b), zint(b) - zint(a)))
    if op == 'min_value': return lo
    if op == 'max_value': return hi - 1
    if op in ('is_power_of_two', 'leading_zeros', 'trailing_zeros', 'pow'): 
        if op == 'pow' and conc: return ex.wrap(ty, a ** b)
    return NotImplemented
@model('std::ops::Add::add', 'std::ops::Sub::sub', 'std::ops::Mul::mul', 'std::ops::Div::div', 'std::ops::Rem::rem')
def m_arith(ex, st, c):
    if local_body(ex, c): return NotImplemented
    P = ex.P
    A = strip(ex, c.targs[0]); op = c.defn.split('::')[-1]
    a = deref(ex, st, c.args[0]); b = deref(ex, st, c.args[1])
    if not (is_leaf(a) and is_leaf(b)): raise Unsupported('arith on %s' % P.name(A))
    if P.cls(A) == 'nat' or (len(c.targs) > 1 and P.cls(strip(ex, c.targs[1])) == 'nat'):
        isint = P.adt(A) in ('candid::Int', 'num_bigint::bigint::BigInt')
        if isinstance(a, int) and isinstance(b, int) and op in ('add', 'mul', 'sub'):
            r = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
            if r < 0 and not isint: raise Trap()
            return r
        x, y = zint(a), zint(b)
        if op == 'add': return simp(x + y)
        if op == 'mul': return simp(x * y)
        if op == 'sub':
            if isint: return simp(x - y)
            rs = []
            for s, ok_ in ex.branch(st, simp(x >= y)):
                if ok_: rs.append((s, simp(x - y)))
                else: ex.trap(s, 'Nat underflow')
            return rs
        rs = []
        for s, nz in ex.branch(st, Not(Eq(b, 0))):
            if nz: rs.append((s, x / y if op == 'div' else x % y))
            else: ex.trap(s, 'div0')
        return rs
    if P.cls(A) == 'int':
        return ex.binop(st, {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}[op], a, b, A, A, A)
    if P.cls(A) == 'str' and op == 'add': return z3.Function('strcat', Str, Str, Str)(zleaf(a), zleaf(b))
    return NotImplemented
@model('std::ops::AddAssign::add_assign', 'std::ops::SubAssign::sub_assign', 'std::ops::MulAssign::mul_assign')
def m_arith_assign(ex, st, c):
    if local_body(ex, c): return NotImplemented
    op = c.defn.split('::')[-1].replace('_assign', '')
    A = strip(ex, c.targs[0])
    cur = ex.read(st, c.args[0])
    cc = Call(dict(c.f), [cur, c.args[1]], [None, None], None, c.line, c.caller)
    cc.defn = 'std::ops::X::' + op
    cc.f['inst'] = None
    r = m_arith(ex, st, cc)
    if r is NotImplemented: return r
    out = []
    for s, v in ex.norm(st, r):
        ex.write(s, c.args[0], v); out.append((s, unit(ex)))
    return out

# ------------------------------------------------------------ cells, boxes, deref
@model('std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut', 'std::cell::RefCell::<T>::get_mut', 'std::cell::UnsafeCell::<T>::get', 'std::cell::RefCell::<T>::as_ptr')
def m_borrow(ex, st, c): return deref_cell(ex, st, c.args[0])
def deref_cell(ex, st, v): return v
@model('std::cell::RefCell::<T>::new', 'std::cell::Cell::<T>::new', 'std::sync::RwLock::<T>::new', 'std::sync::Mutex::<T>::new', 'std::cell::RefCell::<T>::into_inner', 'std::mem::ManuallyDrop::<T>::new')
def m_cellnew(ex, st, c): return c.args[0]
@model('std::cell::Cell::<T>::get')
def m_cellget(ex, st, c): return ex.read(st, c.args[0])
@model('std::cell::Cell::<T>::set')
def m_cellset(ex, st, c): ex.write(st, c.args[0], c.args[1]); return unit(ex)
@model('std::cell::RefCell::<T>::replace', 'std::mem::replace', 'std::cell::Cell::<T>::replace')
def m_replace(ex, st, c):
    o = ex.read(st, c.args[0]); ex.write(st, c.args[0], c.args[1]); return o
@model('std::mem::take')
def m_memtake(ex, st, c):
    o = ex.read(st, c.args[0]); ex.write(st, c.args[0], default(ex, st, c.targs[0])); return o
@model('std::mem::swap')
def m_swap(ex, st, c):
    a = ex.read(st, c.args[0]); b = ex.read(st, c.args[1]); ex.write(st, c.args[0], b); ex.write(st, c.args[1], a); return unit(ex)
@model('std::mem::drop', 'std::mem::forget')
def m_drop(ex, st, c):
    if c.defn.endswith('drop') and c.targs and ex.needs_drop(c.targs[0]):
        r = ex.tmp(st, c.args[0], c.targs[0])
        return [(s, unit(ex)) for s in ex.drop_val(st, c.targs[0], r)]
    return unit(ex)
@model('std::boxed::Box::<T>::new', 'std::boxed::Box::<T, A>::new_in', 'std::rc::Rc::<T>::new', 'std::sync::Arc::<T>::new', 'std::boxed::Box::<T>::pin')
def m_boxnew(ex, st, c): return ex.tmp(st, c.args[0], c.targs[0] if c.targs else None, 'h')
@model('std::boxed::Box::<T>::new_uninit')
def m_boxuninit(ex, st, c): return ex.tmp(st, Un(None, 'uninit-transparent'), None, 'h')
@model('std::boxed::box_assume_init_into_vec_unsafe')
def m_boxvec(ex, st, c): return deref(ex, st, c.args[0])
@model('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow', 'std::convert::AsMut::as_mut', 'std::string::String::as_str', 'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', 'std::borrow::BorrowMut::borrow_mut', 'core::slice::<impl [T]>::as_ref', 'std::vec::Vec::<T, A>::leak', 'std::string::String::as_mut_str', 'core::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_slice')
def m_deref(ex, st, c):
    if local_body(ex, c): return NotImplemented
    a = c.args[0]
    A = c.targs[0] if c.targs else None
    n = c.f.get('inst')
    if n is not None and ex.P.I[n]['body'] is not None and ex.P.I[n]['crate'] in ('core', 'std', 'alloc') and A is not None and ex.P.cls(A) == 'struct' and ex.P.adt(A) == 'std::pin::Pin': return NotImplemented
    if A is not None and ex.P.cls(A) in ('ref', 'box'):
        v = ex.read(st, a) if isinstance(a, Rf) else a
        if isinstance(v, Rf): return v
    if A is not None and ex.P.adt(A) == 'std::borrow::Cow':
        v = ex.force(st, ex.read(st, a))
        if isinstance(v, En):
            if isinstance(v.d, int): return v.p[0][0] if v.d == 0 else Rf(a.root, a.path + (('v', 1, 0),))
            raise Unsupported('symbolic Cow')
        return a
    if A is not None and ex.P.cls(A) == 'bytes' and c.defn.endswith('as_ref'): return a
    if A is not None and ex.P.cls(A) == 'str' and c.defn.endswith('as_ref') and c.dt is not None and ex.P.cls(strip(ex, c.dt)) == 'bytes':
        return ex.tmp(st, utf8(zleaf(deref(ex, st, a))))
    if A is not None and ex.P.adt(A) is not None and ex.P.adt(A).endswith('Lazy'): return NotImplemented
    return a
@model('std::ops::Index::index', 'std::ops::IndexMut::index_mut', 'std::slice::SliceIndex::index', 'core::slice::<impl [T]>::get_unchecked', 'std::slice::SliceIndex::index_mut')
def m_index(ex, st, c):
    if local_body(ex, c): return NotImplemented
    a, i = c.args
    if c.defn.startswith('std::slice::SliceIndex'): a, i = i, a
    v = deref(ex, st, a)
    ra = deref_rf(ex, st, a)
    if isinstance(v, Mp):
        k = ex.keyenc(st, v.kty, i); D = ex.P.optdt(v.vty); rs = []
        for s, p in ex.branch(st, simp(D.is_some(sel(v.arr, k)))):
            if p: rs.append((s, Rf(ra.root, ra.path + (('k', k),))))
            else: ex.trap(s, 'missing key')
        return rs
    i2 = deref(ex, st, i)
    if is_leaf(i2):
        ln = ex.seq_len(st, v); rs = []
        cnd = i2 < ln if isinstance(i2, int) and isinstance(ln, int) else simp(zint(i2) < zint(ln))
        for s, p in ex.branch(st, cnd):
            if p: rs.append((s, Rf(ra.root, ra.path + (('i', i2),))))
            else: ex.trap(s, 'bounds')
        return rs
    lo, hi = range_bounds(ex, st, i2, ex.seq_len(st, v))
    rs = []
    ln = ex.seq_len(st, v)
    cnd = And(z3.IntVal(0) <= zint(lo), zint(lo) <= zint(hi), zint(hi) <= zint(ln)) if not all(isinstance(x, int) for x in (lo, hi, ln)) else 0 <= lo <= hi <= ln
    for s, p in ex.branch(st, cnd):
        if p: rs.append((s, subref(ex, s, c, ra, v, lo, hi)))
        else: ex.trap(s, 'range')
    return rs
def subref(ex, st, c, r, v, lo, hi):
    """reference to a part of a sequence: of the sequence itself when it may be written through"""
    if not c.defn.endswith('_mut'): return ex.tmp(st, subseq(ex, st, v, lo, hi))
    if isinstance(lo, int) and lo == 0 and eqv(hi, ex.seq_len(st, v)): return r
    return Rf(r.root, r.path + (('r', lo, hi),))
def setsub(ex, st, v, lo, hi, x):
    if isinstance(v, Sq) and v.concrete and isinstance(lo, int) and isinstance(hi, int) and isinstance(x, Sq) and x.concrete: return Sq(v.ety, 0, None, None, v.tail[:lo] + x.tail + v.tail[hi:])
    ln = ex.seq_len(st, v)
    for y in (v, x):
        if isinstance(y, Sq) and not (y.concrete and ex.P.ty(y.ety)['k'] == 'int' and ex.P.ty(y.ety).get('bits') == 8): raise Unsupported('part of a sequence written')
    if isinstance(v, Sq): v = ex.bytes_term(st, v)
    if isinstance(x, Sq): x = ex.bytes_term(st, x)
    if zleaf(v).sort() != Bytes: raise Unsupported('part of a text written')
    t = zleaf(x)
    if not (isinstance(lo, int) and lo == 0): t = bcat(st, zleaf(subseq(ex, st, v, 0, lo)), t)
    if not eqv(hi, ln): t = bcat(st, t, zleaf(subseq(ex, st, v, hi, ln)))
    return t
def range_bounds(ex, st, r, ln):
    r = ex.force(st, r)
    n = ex.P.adt(r.ty) if isinstance(r, St) else None
    if n and n.endswith('::RangeFull'): return 0, ln
    if n and n.endswith('::RangeFrom'): return r.f[0], ln
    if n and n.endswith('::RangeTo'): return 0, r.f[0]
    if n and n.endswith('::RangeInclusive'): return r.f[0], (r.f[1] + 1 if isinstance(r.f[1], int) else simp(zint(r.f[1]) + 1))
    if n and n.endswith('::Range'): return r.f[0], r.f[1]
    raise Unsupported('range %r' % (r,))
def subseq(ex, st, v, lo, hi):
    if is_leaf(v):
        if isinstance(lo, int) and lo == 0 and eqv(hi, ex.seq_len(st, v)): return v
        f = z3.Function('bsub', Bytes, z3.IntSort(), z3.IntSort(), Bytes) if zleaf(v).sort() == Bytes else z3.Function('ssub', Str, z3.IntSort(), z3.IntSort(), Str)
        w = zleaf(v)
        if z3.is_app(w) and w.decl().eq(f): t = f(w.arg(0), simp(w.arg(1) + zint(lo)), simp(w.arg(1) + zint(hi)))      # a part of a part
        else: t = f(w, zint(lo), zint(hi))
        st.add((blen if zleaf(v).sort() == Bytes else slen)(t) == zint(hi) - zint(lo))
        return t
    if v.concrete and isinstance(lo, int) and isinstance(hi, int): return Sq(v.ety, 0, None, None, v.tail[lo:hi])
    if isinstance(lo, int) and lo == 0 and eqv(hi, ex.seq_len(st, v)): return v
    ln, arr, bag = ex.seq_term(st, v)
    na = z3.Const('sub!%d' % uid(), arr.sort()); j = z3.Int('j!%d' % uid())
    if isinstance(lo, int) and lo == 0: na = arr
    else: st.add(ForAll([j], z3.Select(na, j) == z3.Select(arr, j + zint(lo)), patterns=[z3.Select(na, j)]))
    return Sq(v.ety, simp(zint(hi) - zint(lo)), na, None)

# ------------------------------------------------------------ Vec / slices
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::collections::VecDeque::<T>::new', 'std::vec::Vec::<T, A>::new_in')
def m_vecnew(ex, st, c):
    e = c.targs[0]
    T = ex.P.ty(e)
    if T['k'] == 'int' and T.get('bits') == 8: return CONSTS.byt(b'')
    return Sq(e)
@model('std::string::String::new', 'std::string::String::with_capacity')
def m_strnew(ex, st, c): return CONSTS.str('')
@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'std::string::String::len', 'std::iter::ExactSizeIterator::len', 'std::collections::VecDeque::<T, A>::len')
def m_len(ex, st, c):
    v = deref(ex, st, c.args[0])
    if isinstance(v, It):
        l = v.view.length(ex, st)
        return l - v.pos if isinstance(l, int) and isinstance(v.pos, int) else simp(zint(l) - zint(v.pos))
    return ex.seq_len(st, v)
@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'std::string::String::is_empty', 'std::collections::VecDeque::<T, A>::is_empty')
def m_isempty(ex, st, c): return Eq(ex.seq_len(st, deref(ex, st, c.args[0])), 0)
@model('std::vec::Vec::<T, A>::push', 'std::collections::VecDeque::<T, A>::push_back')
def m_push(ex, st, c):
    r = c.args[0]; v = deref(ex, st, r)
    r = deref_rf(ex, st, r)
    if is_leaf(v):
        ex.write(st, r, bytes_push(ex, st, v, c.args[1])); return unit(ex)
    ex.write(st, r, seq_push(ex, st, v, c.args[1])); return unit(ex)
def seq_push(ex, st, v, x):
    return Sq(v.ety, v.bl, v.arr, v.bag, v.tail + (x,))
def bytes_push(ex, st, v, x):
    for b, t in CONSTS.bytes.items():
        if t.eq(v) and isinstance(x, int): return CONSTS.byt(b + bytes([x]))
    t = z3.Function('bpush', Bytes, z3.IntSort(), Bytes)(zleaf(v), zint(x)); st.add(blen(t) == blen(zleaf(v)) + 1)
    return t
@model('std::collections::VecDeque::<T, A>::push_front')
def m_pushfront(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r); x = c.args[1]
    if v.concrete: ex.write(st, r, Sq(v.ety, tail=(x,) + v.tail)); return unit(ex)
    ln, arr, bag = ex.seq_term(st, v); e = ex.enc(st, v.ety, x); ln = zint(ln)
    na = z3.Const('front!%d' % uid(), arr.sort()); i = z3.Int('i!%d' % uid())
    st.add(z3.Select(na, 0) == e)
    st.add(ForAll([i], z3.Implies(z3.And(i >= 1, i <= ln), z3.Select(na, i) == z3.Select(arr, i - 1)), patterns=[z3.Select(na, i)]))
    st.add(ForAll([i], z3.Implies(z3.And(i >= 0, i < ln), z3.Select(na, i + 1) == z3.Select(arr, i)), patterns=[z3.Select(arr, i)]))
    ex.write(st, r, Sq(v.ety, simp(ln + 1), na, z3.Store(bag, e, bag_get(bag, e) + 1))); return unit(ex)
@model('std::vec::Vec::<T, A>::pop', 'std::collections::VecDeque::<T, A>::pop_back')
def m_pop(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r)
    if v.tail:
        ex.write(st, r, Sq(v.ety, v.bl, v.arr, v.bag, v.tail[:-1])); return some(c.dt, v.tail[-1])
    if v.concrete: return none(c.dt)
    rs = []
    for s, p in ex.branch(st, simp(v.bl > 0)):
        if p:
            x = ex.dec(s, v.ety, sel(v.arr, simp(v.bl - 1)))
            ex.write(s, r, Sq(v.ety, simp(v.bl - 1), v.arr, None)); rs.append((s, some(c.dt, x)))
        else: rs.append((s, none(c.dt)))
    return rs
@model('std::vec::Vec::<T, A>::clear', 'std::string::String::clear', 'std::collections::VecDeque::<T, A>::clear')
def m_vclear(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r)
    if is_leaf(v): ex.write(st, r, CONSTS.byt(b'') if zleaf(v).sort() == Bytes else CONSTS.str(''))
    else: ex.write(st, r, Sq(v.ety))
    return unit(ex)
@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def m_first(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r); ln = ex.seq_len(st, v)
    ne = Not(Eq(ln, 0))
    if ne is False: return none(c.dt)
    i = 0 if 'first' in c.defn else (ln - 1 if isinstance(ln, int) else simp(zint(ln) - 1))
    return mkopt(c.dt, ne, Rf(r.root, r.path + (('i', i),)))
@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def m_sget(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r); i = c.args[1]; ln = ex.seq_len(st, v)
    if not is_leaf(i):
        lo, hi = range_bounds(ex, st, i, ln)
        cnd = And(simp(zint(lo) <= zint(hi)), simp(zint(hi) <= zint(ln)))
        rs = []
        for s, p in ex.branch(st, cnd):
            rs.append((s, some(c.dt, subref(ex, s, c, r, v, lo, hi)) if p else none(c.dt)))
        return rs
    inr = i < ln if isinstance(i, int) and isinstance(ln, int) else simp(zint(i) < zint(ln))
    if inr is False: return none(c.dt)
    return mkopt(c.dt, inr, Rf(r.root, r.path + (('i', i),)))
@model('core::slice::<impl [T]>::contains')
def m_contains(ex, st, c):
    v = deref(ex, st, c.args[0]); x = deref(ex, st, c.args[1])
    return contains(ex, st, v, x)
def contains(ex, st, v, x):
    if isinstance(v, Sq):
        tl = Or(*[eqval(ex, st, v.ety, t, x) for t in v.tail]) if v.tail else False
        if v.concrete or tl is True: return tl
        if v.bag is not None and not contains_account(ex, v.ety):
            e = ex.enc(st, v.ety, x)
            # relation of the bag to the elements: count >= 1 iff some index holds the element
            r = simp(sel(v.bag, e) > 0)
            w = z3.Int('w!%d' % uid())
            if isinstance(r, z3.ExprRef): st.add(z3.Implies(r, z3.And(w >= 0, w < zint(v.bl), sel(v.arr, w) == e)))
            j = z3.Int('j!%d' % uid())
            st.add(z3.Implies(Not(zbool(r)), ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(v.bl)), z3.Select(v.arr, j) != e), patterns=[z3.Select(v.arr, j)])))
            st.add(sel(v.bag, e) >= 0)
            return Or(tl, r)
        r = z3.Bool('contains!%d' % uid()); w = z3.Int('w!%d' % uid()); j = z3.Int('j!%d' % uid())
        ew = eqval(ex, st, v.ety, ex.dec(st, v.ety, sel(v.arr, w)), x)
        ej = eqval(ex, st, v.ety, ex.dec(st, v.ety, z3.Select(v.arr, j)), x)
        st.add(z3.Implies(r, z3.And(w >= 0, w < zint(v.bl), zbool(ew))))
        st.add(z3.Implies(z3.Not(r), ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(v.bl)), Not(zbool(ej))), patterns=[z3.Select(v.arr, j)])))
        return Or(tl, r)
    if is_leaf(v):
        return z3.Function('bcontains', zleaf(v).sort(), zleaf(x).sort(), z3.BoolSort())(zleaf(v), zleaf(x))
    raise Unsupported('contains')
@model('core::str::<impl str>::contains', 'core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with')
def m_strcontains(ex, st, c):
    v = deref(ex, st, c.args[0]); p = deref(ex, st, c.args[1])
    if not is_leaf(p): return z3.Bool('strtest!%d' % uid())
    if isinstance(p, int): p = CONSTS.str(chr(p))
    return z3.Function(c.defn.split('::')[-1], Str, zleaf(p).sort(), z3.BoolSort())(zleaf(v), zleaf(p))
@model('std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_uppercase', 'core::str::<impl str>::trim', 'std::str::<impl str>::replace')
def m_strfn(ex, st, c):
    v = zleaf(deref(ex, st, c.args[0])); op = c.defn.split('::')[-1]
    if op == 'replace': return z3.Const('str!%d' % uid(), Str)
    if op in ('to_lowercase', 'to_uppercase'): CONSTS.cases.add(op)
    t = z3.Function(op, Str, Str)(v)
    if c.defn.endswith('trim'): return ex.tmp(st, t)
    return t
@model('core::str::<impl str>::as_bytes', 'std::string::String::into_bytes', 'std::string::String::as_bytes')
def m_asbytes(ex, st, c):
    t = utf8(zleaf(deref(ex, st, c.args[0])))
    st.add(blen(t) == slen(zleaf(deref(ex, st, c.args[0]))))
    return ex.tmp(st, t) if 'as_bytes' in c.defn else t
@model('std::string::String::push_str', 'std::string::String::push')
def m_pushstr(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); a = zleaf(ex.read(st, r)); b = deref(ex, st, c.args[1])
    if isinstance(b, int): b = CONSTS.str(chr(b))
    ex.write(st, r, z3.Function('strcat', Str, Str, Str)(a, zleaf(b))); return unit(ex)
@model('std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::into_vec', 'core::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec_in::ConvertVec::to_vec', 'std::slice::ConcatSlice', 'std::boxed::Box::<[T]>::into_vec')
def m_tovec(ex, st, c): return deref(ex, st, c.args[0])
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::collections::VecDeque::<T, A>::iter')
def m_siter(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r)
    return It(SeqView(v, r), 0)
@model('std::vec::Vec::<T, A>::retain')
def m_retain(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r); f = c.args[1]
    if v.concrete and len(v.tail) <= 64:
        sts = [(st, ())]
        for x in v.tail:
            nx = []
            for s, kept in sts:
                for s2, b in ex.apply(s, f, [ex.tmp(s, x, v.ety)]):
                    for s3, bb in ex.branch(s2, b): nx.append((s3, kept + ((x,) if bb else ())))
            sts = nx
            if len(sts) > 64: raise Unsupported('retain paths')
        for s, kept in sts: ex.write(s, r, Sq(v.ety, 0, None, None, kept))
        return [(s, unit(ex)) for s, _ in sts]
    ln, arr, bag = ex.seq_term(st, v)
    es = ex.P.sort(v.ety)
    x = z3.Const('x!%d' % uid(), es)
    b, facts = pure(ex, st, [x], lambda s: ex.apply(s, f, [ex.tmp(s, ex.dec(s, v.ety, x), v.ety)]))
    keep = lambda t: z3.substitute(zbool(b), (x, t))
    if facts: st.add(ForAll([x], z3.Implies(z3.Select(bag, x) > 0, z3.And(*facts)), patterns=[z3.Select(bag, x)]))
    nl = z3.Int('len!%d' % uid()); na = z3.Const('ret!%d' % uid(), arr.sort()); nb = z3.Const('retbag!%d' % uid(), bag.sort())
    st.add(z3.And(nl >= 0, nl <= zint(ln)))
    st.add(ForAll([x], z3.Select(nb, x) == z3.If(zbool(b), z3.Select(bag, x), 0), patterns=[z3.Select(nb, x)]))
    src = z3.Function('rsrc!%d' % uid(), z3.IntSort(), z3.IntSort()); inv = z3.Function('rinv!%d' % uid(), z3.IntSort(), z3.IntSort())
    j = z3.Int('j!%d' % uid()); k = z3.Int('k!%d' % uid())
    st.add(ForAll([j], z3.Implies(z3.And(j >= 0, j < nl), z3.And(src(j) >= j, src(j) < zint(ln), z3.Select(na, j) == z3.Select(arr, src(j)), keep(z3.Select(arr, src(j))), inv(src(j)) == j)), patterns=[z3.Select(na, j)]))
    st.add(ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(ln), keep(z3.Select(arr, j))), z3.And(inv(j) >= 0, inv(j) < nl, inv(j) <= j, src(inv(j)) == j)), patterns=[inv(j)] if z3.is_store(arr) else [z3.Select(arr, j)]))
    st.add(ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < nl), src(j) < src(k)), patterns=[(src(j), src(k))]))
    # length: exact when the predicate excludes exactly one value
    e = exclusion(zbool(b), x)
    if e is not None: st.add(nl == zint(ln) - sel(bag, e)); st.add(sel(bag, e) >= 0)
    ex.write(st, r, Sq(v.ety, nl, na, nb))
    return unit(ex)
def uses(e, x):
    from loops import consts_of
    return any(c.eq(x) for c in consts_of(e))
def exclusion(b, x):
    """b is 'x != e' -> e"""
    b = z3.simplify(b)
    if z3.is_not(b) and z3.is_eq(b.arg(0)):
        l, r = b.arg(0).arg(0), b.arg(0).arg(1)
        if l.eq(x) and not uses(r, x): return r
        if r.eq(x) and not uses(l, x): return l
    return None
def fresh_after(e, u0):
    """uninterpreted symbols of e created after uid u0"""
    out = {}; seen = set(); work = [e]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): work.append(x.body()); continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.search(r'!(\d+)$', x.decl().name())
            if m and int(m.group(1)) > u0:
                if x.num_args(): raise Unsupported('function symbol introduced under a binder')
                out[x.get_id()] = x
        work.extend(x.children())
    return list(out.values())
def skolemise(xs, u0, v, facts):
    """symbols introduced while evaluating a body at the bound variables xs become functions of xs"""
    exprs = [zbool(f) for f in facts] + ([x for x in v.f if isinstance(x, z3.ExprRef)] if isinstance(v, St) else [v] if isinstance(v, z3.ExprRef) else [])
    sub = {}
    for e in exprs:
        for c in fresh_after(e, u0):
            if not any(c.eq(x) for x in xs): sub[c.get_id()] = c
    if not sub: return v, facts
    prs = [(c, z3.Function('sk_%s_%d' % (c.decl().name().split('!')[0], uid()), *[x.sort() for x in xs], c.sort())(*xs)) for c in sub.values()]
    f = lambda e: z3.substitute(e, *prs) if isinstance(e, z3.ExprRef) else e
    v = St(v.ty, tuple(f(x) for x in v.f)) if isinstance(v, St) else f(v)
    return v, [f(x) for x in facts]
def pure(ex, st, xs, thunk):
    """evaluate thunk (state -> [(st, v)]) at the bound variables xs for its merged value without effects -> (value, facts about xs);
    the facts hold whenever the body is really evaluated at xs, and may only be used under that guard"""
    u0 = uid()
    v, facts = pure0(ex, st, thunk)
    v, facts = skolemise(xs, u0, v, [f for f in facts if not z3.is_true(f)])
    return v, facts
def pure0(ex, st, thunk):
    s = st.fork(); base = len(s.pc)
    keys = list(s.store)
    outs = thunk(s)
    if not outs: raise Trap()
    if len(outs) > 1: outs = ex.merge_results(outs)
    if len(outs) != 1: raise Unsupported('closure with several outcomes')
    s2, v = outs[0]
    for k in keys:
        if k in s2.store and s2.store[k] is not st.store[k] and not same(s2.store[k], st.store[k]) and k[0] in ('tls', 'static', 'l', 'h'):
            raise Unsupported('closure with effects')
    for g in st.g:
        if s2.g.get(g) is not st.g[g] and s2.g.get(g) != st.g[g]: raise Unsupported('closure with ghost effects')
    n = 0
    while n < len(st.pc) and n < len(s2.pc) and st.pc[n].eq(s2.pc[n]): n += 1
    for k in s2.store:
        if k not in st.store: st.store[k] = s2.store[k]
    return v, s2.pc[n:]
@model('std::vec::Vec::<T, A>::extend_from_slice', 'std::vec::Vec::<T, A>::append', 'std::slice::<impl [T]>::concat')
def m_extend_slice(ex, st, c):
    if c.defn.endswith('concat'): raise Unsupported('concat')
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r); w = deref(ex, st, c.args[1])
    if is_leaf(v):
        v = zleaf(v); w = zleaf(ex.bytes_term(st, w) if isinstance(w, Sq) else w)
        t = bcat(st, v, w)
        ex.write(st, r, t); 
    else: ex.write(st, r, seq_concat(ex, st, v, w))
    if c.defn.endswith('append'): ex.write(st, deref_rf(ex, st, c.args[1]), Sq(v.ety) if not is_leaf(v) else CONSTS.byt(b''))
    return unit(ex)
def bcat(st, v, w):
    """concatenation of byte strings, with its length, its bytes and its two parts"""
    if v.eq(CONSTS.byt(b'')): return w
    if w.eq(CONSTS.byt(b'')): return v
    t = z3.Function('bcat', Bytes, Bytes, Bytes)(v, w); st.add(blen(t) == blen(v) + blen(w)); st.add(blen(v) >= 0); st.add(blen(w) >= 0)
    sub = z3.Function('bsub', Bytes, z3.IntSort(), z3.IntSort(), Bytes); j = z3.Int('j!%d' % uid())
    st.add(ForAll([j], z3.Implies(z3.And(j >= 0, j < blen(v)), bget(t, j) == bget(v, j)), patterns=[bget(t, j)]))
    st.add(ForAll([j], z3.Implies(z3.And(j >= blen(v), j < blen(t)), bget(t, j) == bget(w, j - blen(v))), patterns=[bget(t, j)]))
    st.add(sub(t, blen(v), blen(t)) == w); st.add(sub(t, 0, blen(v)) == v)
    return t
NUM = {'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8, 'u128': 16, 'i16': 2, 'i32': 4, 'i64': 8, 'i128': 16}
@model(*['core::num::<impl %s>::%s_%s_bytes' % (t, d, e) for t in NUM for d in ('to', 'from') for e in ('le', 'be', 'ne')])
def m_intbytes(ex, st, c):
    """fixed-width bytes of an integer; the two directions are inverse"""
    ty, dr, e = re.search(r'<impl (\w+)>::(to|from)_(le|be|ne)_bytes$', c.defn).groups()
    if e == 'ne': e = 'le'
    n = NUM[ty]; to = z3.Function('%s_to_%s' % (ty, e), z3.IntSort(), Bytes)
    def value(bs):
        for x in bs: st.add(z3.And(x >= 0, x < 256))
        r = z3.Sum([x * 256**(k if e == 'le' else n - 1 - k) for k, x in enumerate(bs)])
        return r if ty[0] == 'u' else z3.If(r >= 2**(8 * n - 1), r - 2**(8 * n), r)
    if dr == 'to':
        x = zint(zleaf(deref(ex, st, c.args[0]))); t = to(x); st.add(blen(t) == n); st.add(value([bget(t, k) for k in range(n)]) == x); return t
    v = deref(ex, st, c.args[0])
    bs = [zint(zleaf(x)) for x in v.tail] if isinstance(v, Sq) else [bget(zleaf(v), k) for k in range(n)]
    r = simp(value(bs)); ex.rng(st, c.dt, r)
    return r
def seq_concat(ex, st, v, w):
    if w.concrete: return Sq(v.ety, v.bl, v.arr, v.bag, v.tail + w.tail)
    if v.concrete and not v.tail: return w
    la, aa, ba = ex.seq_term(st, v); lb, ab, bb = ex.seq_term(st, w)
    na = z3.Const('cat!%d' % uid(), aa.sort()); j = z3.Int('j!%d' % uid())
    st.add(ForAll([j], z3.Select(na, j) == z3.If(j < zint(la), z3.Select(aa, j), z3.Select(ab, j - zint(la))), patterns=[z3.Select(na, j)]))
    nb = z3.Const('catbag!%d' % uid(), ba.sort()); x = z3.Const('x!%d' % uid(), ba.sort().domain())
    st.add(ForAll([x], z3.Select(nb, x) == z3.Select(ba, x) + z3.Select(bb, x), patterns=[z3.Select(nb, x)]))
    return Sq(v.ety, simp(zint(la) + zint(lb)), na, nb)
@model('std::vec::Vec::<T, A>::truncate')
def m_truncate(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r); n = c.args[1]; ln = ex.seq_len(st, v)
    if not is_leaf(v) and v.concrete and isinstance(n, int): ex.write(st, r, Sq(v.ety, 0, None, None, v.tail[:n])); return unit(ex)
    if is_leaf(v):
        rs = []
        for s, p in ex.branch(st, simpb(zint(n) < zint(ln))):
            if p: ex.write(s, r, subseq(ex, s, v, 0, n))
            rs.append((s, unit(ex)))
        return rs
    l, arr, bag = ex.seq_term(st, v)
    ex.write(st, r, Sq(v.ety, simp(z3.If(zint(l) < zint(n), zint(l), zint(n))), arr, None)); return unit(ex)
@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def m_vremove(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r); i = c.args[1]; ln = ex.seq_len(st, v)
    rs = []
    cnd = i < ln if isinstance(i, int) and isinstance(ln, int) else simp(zint(i) < zint(ln))
    for s, p in ex.branch(st, cnd):
        if not p: ex.trap(s, 'remove index'); continue
        if v.concrete and isinstance(i, int):
            t = list(v.tail)
            if c.defn.endswith('swap_remove'): x = t[i]; t[i] = t[-1]; t.pop()
            else: x = t.pop(i)
            ex.write(s, r, Sq(v.ety, 0, None, None, t)); rs.append((s, x)); continue
        l, arr, bag = ex.seq_term(s, v)
        e = sel(arr, zint(i)); j = z3.Int('j!%d' % uid()); na = z3.Const('rem!%d' % uid(), arr.sort())
        if c.defn.endswith('swap_remove'): s.add(na == z3.Store(arr, zint(i), z3.Select(arr, zint(l) - 1)))
        else: s.add(ForAll([j], z3.Select(na, j) == z3.If(j < zint(i), z3.Select(arr, j), z3.Select(arr, j + 1)), patterns=[z3.Select(na, j)]))
        s.add(sel(bag, e) >= 1)
        ex.write(s, r, Sq(v.ety, simp(zint(l) - 1), na, z3.Store(bag, e, sel(bag, e) - 1)))
        rs.append((s, ex.dec(s, v.ety, e)))
    return rs
@model('std::vec::Vec::<T, A>::insert')
def m_vinsert(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r); i = c.args[1]; ln = ex.seq_len(st, v)
    if v.concrete and isinstance(i, int):
        t = list(v.tail); t.insert(i, c.args[2]); ex.write(st, r, Sq(v.ety, 0, None, None, t)); return unit(ex)
    rs = []
    for s, p in ex.branch(st, simp(zint(i) <= zint(ln))):
        if not p: ex.trap(s, 'insert index'); continue
        l, arr, bag = ex.seq_term(s, v); e = ex.enc(s, v.ety, c.args[2]); j = z3.Int('j!%d' % uid()); na = z3.Const('ins!%d' % uid(), arr.sort())
        s.add(ForAll([j], z3.Select(na, j) == z3.If(j < zint(i), z3.Select(arr, j), z3.If(j == zint(i), e, z3.Select(arr, j - 1))), patterns=[z3.Select(na, j)]))
        ex.write(s, r, Sq(v.ety, simp(zint(l) + 1), na, z3.Store(bag, e, sel(bag, e) + 1))); rs.append((s, unit(ex)))
    return rs
@model('std::slice::<impl [T]>::sort', 'std::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable', 'core::slice::<impl [T]>::sort_unstable_by', 'std::slice::<impl [T]>::sort_by_key', 'core::slice::<impl [T]>::sort_unstable_by_key')
def m_sort(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r)
    if v.concrete and len(v.tail) <= 1:
        if ex.spec is not None: ex.spec.sorted_(ex, st, v)
        return unit(ex)
    l, arr, bag = ex.seq_term(st, v)
    na = z3.Const('sorted!%d' % uid(), arr.sort())
    p = z3.Function('perm!%d' % uid(), z3.IntSort(), z3.IntSort()); q = z3.Function('pinv!%d' % uid(), z3.IntSort(), z3.IntSort())
    j = z3.Int('j!%d' % uid()); k = z3.Int('k!%d' % uid()); L = zint(l)
    st.add(ForAll([j], z3.Implies(z3.And(j >= 0, j < L), z3.And(p(j) >= 0, p(j) < L, q(p(j)) == j, z3.Select(na, j) == z3.Select(arr, p(j)))), patterns=[z3.Select(na, j)]))
    st.add(ForAll([j], z3.Implies(z3.And(j >= 0, j < L), z3.And(q(j) >= 0, q(j) < L, p(q(j)) == j, z3.Select(na, q(j)) == z3.Select(arr, j))), patterns=[z3.Select(arr, j), q(j)] if not z3.is_store(arr) else [q(j)]))
    es = arr.sort().range(); x = z3.Const('x!%d' % uid(), es); y = z3.Const('y!%d' % uid(), es)
    name = c.defn.split('::')[-1]
    def le(s):
        vx = ex.tmp(s, ex.dec(s, v.ety, x), v.ety); vy = ex.tmp(s, ex.dec(s, v.ety, y), v.ety)
        if name in ('sort', 'sort_unstable'):
            a, b = ordval(ex, s, v.ety, vx, vy); return [(s, Or(a, b))]
        if name.endswith('_by'):
            return [(s2, Not(Eq(ex.force(s2, o).d, 2))) for s2, o in ex.apply(s, c.args[1], [vx, vy])]
        rs = []
        for s2, kx in ex.apply(s, c.args[1], [vx]):
            for s3, ky in ex.apply(s2, c.args[1], [vy]):
                a, b = ordval(ex, s3, None, kx, ky); rs.append((s3, Or(a, b)))
        return rs
    b, facts = pure(ex, st, [x, y], le)
    f = z3.substitute(z3.And(zbool(b), *facts), (x, z3.Select(na, j)), (y, z3.Select(na, k)))
    st.add(ForAll([j, k], z3.Implies(z3.And(j >= 0, j <= k, k < L), f), patterns=[(z3.Select(na, j), z3.Select(na, k))]))
    ex.hints.append((q.name(), lambda x: q(x)))
    # the multiset of a list counts its positions
    bw = z3.Function('bagat!%d' % uid(), es, z3.IntSort())
    st.add(ForAll([x], z3.Implies(z3.Select(bag, x) > 0, z3.And(bw(x) >= 0, bw(x) < L, z3.Select(arr, bw(x)) == x)), patterns=[bw(x)]))
    ex.keyhints.append((bw.name(), bw))
    ex.write(st, r, Sq(v.ety, l, na, bag))
    if ex.spec is not None: ex.spec.sorted_(ex, st, ex.read(st, r))
    return unit(ex)
@model('std::vec::Vec::<T, A>::dedup')
def m_dedup(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r)
    if v.concrete and len(v.tail) <= 1: return unit(ex)
    raise Unsupported('dedup')
@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def m_copyslice(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); a = ex.read(st, r); b = deref(ex, st, c.args[1])
    rs = []
    for s, p in ex.branch(st, Eq(ex.seq_len(st, a), ex.seq_len(st, b))):
        if p: ex.write(s, r, b); rs.append((s, unit(ex)))
        else: ex.trap(s, 'copy_from_slice')
    return rs

# ------------------------------------------------------------ maps and sets
MAPP = r'(std::collections::(HashMap|BTreeMap|HashSet|BTreeSet)|ic_stable_structures::(btreemap::)?BTreeMap)::<[^>]*>::'
def empty_map(ex, ty):
    P = ex.P; k, v = P.mapkv(ty)
    return Mp(ty, k, v, z3.K(P.keysort(k), P.optdt(v).none), 0, P.ty(ty)['def'] in ORDERED)
def mapof(ex, st, r):
    rf = deref_rf(ex, st, r); m = ex.read(st, rf)
    if not isinstance(m, Mp):
        if isinstance(m, Un): raise Unsupported('map unknown')
        raise Unsupported('not a map: %r' % (m,))
    return rf, m
def writable(m):
    if m.ro: raise Unsupported('write through a second handle of a stable map')
@pmodel('^' + MAPP + r'(new|with_capacity|init)$')
def m_mapnew(ex, st, c):
    if c.dt is None: raise Unsupported('map new')
    if c.defn.endswith('init'):
        return ex.spec.stable_init(ex, st, c) if ex.spec is not None else empty_map(ex, c.dt)
    if 'ic_stable_structures' in c.defn and ex.spec is not None: return ex.spec.stable_init(ex, st, c)
    return empty_map(ex, c.dt)
@pmodel('^' + MAPP + r'get$')
def m_mapget(ex, st, c):
    rf, m = mapof(ex, st, c.args[0]); k = ex.keyenc(st, m.kty, c.args[1])
    D = ex.P.optdt(m.vty); slot = sel(m.arr, k); cond = simp(D.is_some(slot))
    if cond is False: return none(c.dt)
    if 'ic_stable_structures' in c.defn: return mkopt(c.dt, cond, val_of(ex, st, m, k))
    if c.defn.startswith('std::collections::HashSet') or c.defn.startswith('std::collections::BTreeSet'): return mkopt(c.dt, cond, c.args[1])
    return mkopt(c.dt, cond, Rf(rf.root, rf.path + (('k', k),)))
@pmodel('^' + MAPP + r'get_mut$')
def m_mapgetmut(ex, st, c):
    rf, m = mapof(ex, st, c.args[0]); k = ex.keyenc(st, m.kty, c.args[1])
    D = ex.P.optdt(m.vty); cond = simp(D.is_some(sel(m.arr, k)))
    if cond is False: return none(c.dt)
    return mkopt(c.dt, cond, Rf(rf.root, rf.path + (('k', k),)))
@pmodel('^' + MAPP + r'(contains_key|contains)$')
def m_mapcontains(ex, st, c):
    rf, m = mapof(ex, st, c.args[0]); k = ex.keyenc(st, m.kty, c.args[1])
    return simp(ex.P.optdt(m.vty).is_some(sel(m.arr, k)))
@pmodel('^' + MAPP + r'len$')
def m_maplen(ex, st, c): return mapof(ex, st, c.args[0])[1].size
@pmodel('^' + MAPP + r'is_empty$')
def m_mapempty(ex, st, c): return Eq(mapof(ex, st, c.args[0])[1].size, 0)
@pmodel('^' + MAPP + r'(clear|clear_new)$')
def m_mapclear(ex, st, c):
    rf, m = mapof(ex, st, c.args[0]); writable(m)
    ex.write(st, rf, Mp(m.ty, m.kty, m.vty, z3.K(m.arr.sort().domain(), ex.P.optdt(m.vty).none), 0, m.ordered)); return unit(ex)
def map_put(ex, st, m, k, vt):
    writable(m)
    D = ex.P.optdt(m.vty); old = simp(D.is_some(sel(m.arr, k)))
    if old is True: size = m.size
    elif old is False: size = m.size + 1 if isinstance(m.size, int) else simp(m.size + 1)
    else: size = simp(zint(m.size) + z3.If(old, 0, 1)); st.add(z3.Implies(old, zint(m.size) > 0))
    return Mp(m.ty, m.kty, m.vty, z3.Store(m.arr, k, D.some(vt)), size, m.ordered), old
@pmodel('^' + MAPP + r'(insert|replace)$')
def m_mapinsert(ex, st, c):
    rf, m = mapof(ex, st, c.args[0]); k = ex.keyenc(st, m.kty, c.args[1])
    isset = len(c.args) == 2
    vt = ex.P.unitsort().unit if isset else ex.enc(st, m.vty, c.args[2])
    nm, old = map_put(ex, st, m, k, vt)
    ex.write(st, rf, nm)
    if isset: return Not(old)
    if old is False: return none(c.dt)
    return mkopt(c.dt, old, val_of(ex, st, m, k))
@pmodel('^' + MAPP + r'(remove|take)$')
def m_mapremove(ex, st, c):
    rf, m = mapof(ex, st, c.args[0]); writable(m); k = ex.keyenc(st, m.kty, c.args[1])
    D = ex.P.optdt(m.vty); old = simp(D.is_some(sel(m.arr, k)))
    if isinstance(old, z3.ExprRef): st.add(z3.Implies(old, zint(m.size) > 0))
    if old is not False:
        size = (m.size - 1 if isinstance(m.size, int) else simp(m.size - 1)) if old is True else simp(zint(m.size) - z3.If(old, 1, 0))
        ex.write(st, rf, Mp(m.ty, m.kty, m.vty, z3.Store(m.arr, k, D.none), size, m.ordered))
    if ex.P.ty(c.dt)['k'] == 'bool': return old
    if old is False: return none(c.dt)
    return mkopt(c.dt, old, val_of(ex, st, m, k))
@pmodel('^' + MAPP + r'entry$')
def m_entry(ex, st, c):
    rf, m = mapof(ex, st, c.args[0]); k = ex.keyenc(st, m.kty, c.args[1])
    return Lib('entry', ref=rf, key=c.args[1], k=k)
@pmodel(r'(hash_map|btree_map)::Entry::<[^>]*>::(or_insert|or_insert_with|or_default|or_insert_with_key|and_modify)$')
def m_orinsert(ex, st, c):
    e = c.args[0]
    if not isinstance(e, Lib): raise Unsupported('entry')
    rf, k = e.d['ref'], e.d['k']; m = ex.read(st, rf); D = ex.P.optdt(m.vty)
    slot = sel(m.arr, k); old = simp(D.is_some(slot))
    res = Rf(rf.root, rf.path + (('k', k),))
    op = c.defn.split('::')[-1]
    if op == 'and_modify':
        out = []
        for s, p in ex.branch(st, old):
            if p: out += [(s2, e) for s2, _ in ex.apply(s, c.args[1], [res])]
            else: out.append((s, e))
        return out
    if op == 'or_insert' or op == 'or_default':
        v = c.args[1] if op == 'or_insert' else default(ex, st, m.vty)
        vt = ex.enc(st, m.vty, v)
        if old is True: return res
        if old is False: nm, _ = map_put(ex, st, m, k, vt); ex.write(st, rf, nm); return res
        st.add(z3.Implies(old, zint(m.size) > 0))
        ex.write(st, rf, Mp(m.ty, m.kty, m.vty, z3.Store(m.arr, k, z3.If(old, slot, D.some(vt))), simp(zint(m.size) + z3.If(old, 0, 1)), m.ordered))
        return res
    out = []
    for s, p in ex.branch(st, old):
        if p: out.append((s, res)); continue
        for s2, v in ex.apply(s, c.args[1], [] if op == 'or_insert_with' else [ex.tmp(s, e.d['key'])]):
            m2 = ex.read(s2, rf)
            nm, _ = map_put(ex, s2, m2, k, ex.enc(s2, m2.vty, v)); ex.write(s2, rf, nm); out.append((s2, res))
    return out
@pmodel('^' + MAPP + r'(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain)$')
def m_mapiter(ex, st, c):
    rf, m = mapof(ex, st, c.args[0]); op = c.defn.split('::')[-1]
    if op == 'drain':
        r = It(MapView(ex, st, m, None, 'kv', False), 0)
        ex.write(st, rf, empty_map(ex, m.ty)); return r
    isset = 'Set' in c.defn
    mode = 'k' if 'keys' in op or isset else ('v' if 'values' in op else 'kv')
    byref = not op.startswith('into_') and 'ic_stable_structures' not in c.defn
    return It(MapView(ex, st, m, rf, mode, byref), 0)
@pmodel('^' + MAPP + r'retain$')
def m_mapretain(ex, st, c):
    rf, m = mapof(ex, st, c.args[0]); D = ex.P.optdt(m.vty)
    ks = m.arr.sort().domain(); k = z3.Const('k!%d' % uid(), ks)
    isset = 'Set' in c.defn
    vr = {}
    def th(s):
        kr = ex.tmp(s, key_value(ex, s, m.kty, k), m.kty)
        args = [kr] if isset else [kr, ex.tmp(s, val_of(ex, s, m, k), m.vty)]
        if not isset: vr['v'] = (args[1], s.store[args[1].root])
        return ex.apply(s, c.args[1], args)
    b, facts = pure(ex, st, [k], th)
    na = z3.Const('mret!%d' % uid(), m.arr.sort())
    if facts: st.add(ForAll([k], z3.Implies(D.is_some(z3.Select(m.arr, k)), z3.And(*facts)), patterns=[z3.Select(m.arr, k)] if not z3.is_store(m.arr) and not z3.is_K(m.arr) else [z3.Select(na, k)]))
    st.add(ForAll([k], z3.Select(na, k) == z3.If(zbool(b), z3.Select(m.arr, k), D.none), patterns=[z3.Select(na, k)]))
    s = z3.Int('size!%d' % uid()); st.add(z3.And(s >= 0, s <= zint(m.size)))
    ex.write(st, rf, Mp(m.ty, m.kty, m.vty, na, s, m.ordered)); return unit(ex)
@pmodel('^' + MAPP + r'(first_key_value|last_key_value|pop_first|pop_last|range|keys_range|values_range|first|last)$')
def m_mapmisc(ex, st, c): raise Unsupported(c.defn)

# ------------------------------------------------------------ iterators
def to_iter(ex, st, v, ty=None):
    if isinstance(v, It): return v
    if isinstance(v, Rf):
        w = ex.read(st, v)
        if isinstance(w, It): return None
        if isinstance(w, Rf): return to_iter(ex, st, w)
        if isinstance(w, Sq): return It(SeqView(w, v), 0)
        if isinstance(w, Mp): return It(MapView(ex, st, w, v, 'k' if ex.P.ty(w.ty)['def'] in SETS else 'kv', True), 0)
        if is_leaf(w) and zleaf(w).sort() == Bytes: return It(SeqView(w, v), 0)
        w = ex.force(st, w)
        if isinstance(w, En) and ex.P.adt(w.ty) == 'std::option::Option':
            raise Unsupported('iter over option ref')
    if isinstance(v, Sq): return It(SeqView(v), 0)
    if isinstance(v, Mp): return It(MapView(ex, st, v, None, 'k' if ex.P.ty(v.ty)['def'] in SETS else 'kv', False), 0)
    v = ex.force(st, v)
    if isinstance(v, St) and ex.P.adt(v.ty) == 'std::ops::Range': return It(RangeView(v.f[0], v.f[1]), 0)
    if isinstance(v, St) and ex.P.adt(v.ty) == 'std::ops::RangeInclusive': return It(RangeView(v.f[0], v.f[1] + 1 if isinstance(v.f[1], int) else simp(v.f[1] + 1)), 0)
    if isinstance(v, En) and ex.P.adt(v.ty) == 'std::option::Option':
        t = ex.P.targ(v.ty, 0)
        if isinstance(v.d, int): return It(SeqView(Sq(t, 0, None, None, v.p[1] if v.d == 1 else ())), 0)
        e = ex.enc(st, t, v.p[1][0])
        return It(SeqView(Sq(t, v.d, z3.Store(ex.emptyarr(t), 0, e), None)), 0)
    if is_leaf(v) and zleaf(v).sort() == Bytes: return It(SeqView(v), 0)
    raise Unsupported('not iterable: %r' % (v,))
@model('std::iter::IntoIterator::into_iter')
def m_intoiter(ex, st, c):
    v = c.args[0]
    if isinstance(v, It): return v
    if isinstance(v, Rf) and isinstance(ex.read(st, v), It): return v   # &mut iterator
    if c.targs and ex.P.cls(c.targs[0]) not in ('seq', 'map', 'ref', 'bytes') and local_body(ex, c): return NotImplemented
    return to_iter(ex, st, v)
def itval(ex, st, v):
    if isinstance(v, Rf):
        w = ex.read(st, v)
        if isinstance(w, It): return w
    if isinstance(v, It): return v
    return to_iter(ex, st, v)
def curview(ex, v):
    if isinstance(v.pos, int) and v.pos == 0: return v.view
    return Skipped(v.view, v.pos)
def adapter(cls, conv=None):
    def f(ex, st, c):
        it = itval(ex, st, c.args[0]); x = c.args[1] if len(c.args) > 1 else None
        if conv: x = conv(ex, st, x)
        view = curview(ex, it)
        if cls in (Mapped, Filtered, FilterMapped) and isinstance(x, (St, Fn)): pass
        if not view.countable and cls not in (Mapped, Cloned, Filtered, Enumerated, Taken, FilterMapped): raise Unsupported('adapter %s on filtered iterator' % cls.__name__)
        return It(cls(view, x), 0)
    return f
M['std::iter::Iterator::map'] = adapter(Mapped)
M['std::iter::Iterator::filter'] = adapter(Filtered)
M['std::iter::Iterator::filter_map'] = adapter(FilterMapped)
M['std::iter::Iterator::take'] = adapter(Taken)
M['std::iter::Iterator::skip'] = adapter(Skipped)
M['std::iter::Iterator::rev'] = adapter(Rev)
M['std::iter::Iterator::cloned'] = adapter(Cloned)
M['std::iter::Iterator::copied'] = adapter(Cloned)
M['std::iter::Iterator::by_ref'] = lambda ex, st, c: c.args[0]
M['std::iter::Iterator::fuse'] = lambda ex, st, c: c.args[0]
M['std::iter::Iterator::peekable'] = lambda ex, st, c: c.args[0]
@model('std::iter::Iterator::enumerate')
def m_enum(ex, st, c):
    it = itval(ex, st, c.args[0]); return It(Enumerated(curview(ex, it), None), 0)
@model('std::iter::Iterator::chain')
def m_chain(ex, st, c):
    a = itval(ex, st, c.args[0]); b = itval(ex, st, c.args[1]) if not isinstance(c.args[1], It) else c.args[1]
    return It(Chained(curview(ex, a), curview(ex, b)), 0)
@model('std::iter::Iterator::zip')
def m_zip(ex, st, c):
    a = itval(ex, st, c.args[0]); b = itval(ex, st, c.args[1])
    return It(Zipped(curview(ex, a), curview(ex, b)), 0)
def flat(view):
    """(base view, list of stages) of a pipeline over a countable base; stages: ('map',f) ('filter',f) ('fmap',f) ('clone',) ('take',n) ('enum',)"""
    stages = []
    v = view
    while True:
        if v.countable and not isinstance(v, (Mapped,)): break
        if v.countable: break
        if isinstance(v, Filtered): stages.append(('filter', v.x))
        elif isinstance(v, FilterMapped): stages.append(('fmap', v.x))
        elif isinstance(v, Mapped): stages.append(('map', v.x))
        elif isinstance(v, Cloned): stages.append(('clone',))
        elif isinstance(v, Taken): stages.append(('take', v.x))
        elif isinstance(v, Skipped): stages.append(('skip', v.x))
        elif isinstance(v, Enumerated): stages.append(('enum',))
        else: raise Unsupported('pipeline stage')
        v = v.v
    stages.reverse()
    return v, stages
def through(ex, st, stages, x):
    """push item x through filter/map stages -> [(st, keep(bool expr), val)]"""
    cur = [(st, True, x)]
    for sg in stages:
        nx = []
        for s, kp, v in cur:
            if sg[0] == 'map': nx += [(s2, kp, w) for s2, w in ex.apply(s, sg[1], [v])]
            elif sg[0] == 'clone': nx.append((s, kp, ex.read(s, v) if isinstance(v, Rf) else v))
            elif sg[0] == 'filter':
                for s2, b in ex.apply(s, sg[1], [ex.tmp(s, v)]): nx.append((s2, And(kp, b), v))
            elif sg[0] == 'fmap':
                for s2, o in ex.apply(s, sg[1], [v]):
                    o = ex.force(s2, o)
                    nx.append((s2, And(kp, Eq(o.d, 1)), o.p[1][0] if 1 in o.p else ex.fresh(s2, ex.P.fields(o.ty, 1)[0][1], 'filtered')))
            else: raise Unsupported('stage ' + sg[0])
        cur = nx
    return cur
def it_next(ex, st, rf):
    """advance iterator stored at rf -> [(st, present(bool), value)]"""
    it = ex.read(st, rf)
    while isinstance(it, Rf): rf = it; it = ex.read(st, rf)
    ex.hasnext = True
    if not isinstance(it, It): 
        # Range used directly as an iterator
        w = ex.force(st, it)
        if isinstance(w, St) and ex.P.adt(w.ty) == 'std::ops::Range':
            lo, hi = w.f
            c = lo < hi if isinstance(lo, int) and isinstance(hi, int) else simp(zint(lo) < zint(hi))
            rs = []
            br = ex.branch(st, c)
            if len(br) > 1: ex.symnext = True
            for s, b in br:
                if b:
                    ex.write(s, rf, St(w.ty, (lo + 1 if isinstance(lo, int) else simp(lo + 1), hi))); rs.append((s, True, lo))
                else: rs.append((s, False, None))
            return rs
        raise Unsupported('next on %r' % (it,))
    view, pos = it.view, it.pos
    if view.countable:
        L = view.length(ex, st)
        c = pos < L if isinstance(pos, int) and isinstance(L, int) else simp(zint(pos) < zint(L))
        br = ex.branch(st, c)
        if len(br) > 1 or not isinstance(c, bool) and not isinstance(L, int): 
            if not isinstance(L, int): ex.symnext = True
        rs = []
        for s, b in br:
            if not b: rs.append((s, False, None)); continue
            ex.write(s, rf, It(view, pos + 1 if isinstance(pos, int) else simp(pos + 1)))
            for s2, v in view.get(ex, s, pos): rs.append((s2, True, v))
        return rs
    base, stages = flat(view)
    L = base.length(ex, st)
    if any(s[0] in ('take', 'skip', 'enum') for s in stages): raise Unsupported('next on pipeline with take after filter')
    if isinstance(L, int) and isinstance(pos, int):
        rs = []; cur = [(st, pos)]
        while cur:
            s, p = cur.pop()
            if p >= L:
                ex.write(s, rf, It(view, p)); rs.append((s, False, None)); continue
            for s2, x in base.get(ex, s, p):
                for s3, kp, v in through(ex, s2, stages, x):
                    for s4, b in ex.branch(s3, kp):
                        if b: ex.write(s4, rf, It(view, p + 1)); rs.append((s4, True, v))
                        else: cur.append((s4, p + 1))
        return rs
    ex.symnext = True
    # symbolic: the next kept position j, or none left
    i = z3.Int('i!%d' % uid())
    def th(s):
        r = []
        for s2, x in base.get(ex, s, i):
            r += [(s3, zbool(kp)) for s3, kp, v in through(ex, s2, stages, x)]
        return r
    K, facts = pure(ex, st, [i], th)
    FS = lambda q: [z3.substitute(f, (i, q)) for f in facts]
    rs = []
    a = st.fork(); j = z3.Int('nx!%d' % uid())
    a.add(z3.And(j >= zint(pos), j < zint(L)))
    q = z3.Int('q!%d' % uid())
    for s2, x in base.get(ex, a, j):
        for s3, kp, v in through(ex, s2, stages, x):
            s3.add(zbool(kp))
            if not ex.feasible(s3): continue
            s3.add(ForAll([q], z3.Implies(z3.And(q >= zint(pos), q < j), z3.And(z3.Not(z3.substitute(zbool(K), (i, q))), *FS(q)))))
            s3.add(And(*FS(j)))
            ex.write(s3, rf, It(view, simp(j + 1))); rs.append((s3, True, v))
    b = st
    b.add(ForAll([q], z3.Implies(z3.And(q >= zint(pos), q < zint(L)), z3.And(z3.Not(z3.substitute(zbool(K), (i, q))), *FS(q)))))
    ex.write(b, rf, It(view, L)); rs.append((b, False, None))
    return rs
@model('std::iter::Iterator::next')
def m_next(ex, st, c):
    r = c.args[0]
    if isinstance(r, Rf):
        w = ex.read(st, r)
        if not isinstance(w, (It, Rf)) and local_body(ex, c): return NotImplemented
        if isinstance(w, (Un, Lib)): raise Unsupported('next on unknown iterator')
    out = []
    for s, p, v in it_next(ex, st, r):
        if p:
            t = ex.P.targ(c.dt, 0) if c.dt is not None else None
            out.append((s, some(c.dt, retype(ex, t, v))))
        else: out.append((s, none(c.dt)))
    return out
def retype(ex, t, v):
    if isinstance(v, St) and v.ty is None and t is not None: return St(t, [retype(ex, x, y) for (_, x), y in zip(ex.P.fields(t), v.f)] if ex.P.ty(t)['k'] == 'tuple' else v.f)
    return v
@model('std::iter::DoubleEndedIterator::next_back')
def m_nextback(ex, st, c): raise Unsupported('next_back')

def drive(ex, st, it, init, step, name):
    """fold over an iterator.  init: dict name->(value, ty) placed in fresh roots; step(ex, st, roots, x) -> [(st, stop(bool), result)]
    returns [(st, roots, stopped, result)]"""
    rit = ex.newroot('h'); st.store[rit] = it
    roots = {}
    for k, (v, ty) in init.items():
        r = ex.newroot('h', ty); st.store[r] = v; roots[k] = Rf(r)
    def run(s):
        o = {'back': [], 'exit': [], 'ret': []}
        for s1, p, x in it_next(ex, s, Rf(rit)):
            if not p: o['exit'].append((0, s1)); s1.g['$res'] = None; continue
            for s2, stop, res in step(ex, s1, roots, x):
                if stop: s2.g['$res'] = res; o['exit'].append((1, s2))
                else: o['back'].append(s2)
        if len(o['back']) > ex.MERGE_AT: o['back'] = ex.merge(o['back'])
        return o
    st.g['$res'] = None
    outs = []; cur = [st]; n = 0
    while cur:
        n += 1
        if n > 600: raise Unsupported('iteration too long')
        s = cur.pop()
        save = (ex.symnext, ex.hasnext); ex.symnext = ex.hasnext = False
        n0 = ex.spec.mark() if ex.spec is not None else 0
        s0 = s.fork(); o = run(s)
        sym = ex.symnext; ex.symnext, ex.hasnext = save
        if sym and o['back']:
            if ex.spec is not None: ex.spec.rollback(n0)
            o = ex.cut(s0, run, name, o)
            outs += o['exit']; continue
        outs += o['exit']
        b = o['back']
        if len(b) > 1: b = ex.merge(b)
        cur += b
    res = []
    for k, s in outs:
        r = s.g.pop('$res', None)
        s.store.pop(rit, None)
        res.append((s, roots, k == 1, r))
    return res

def is_identity(view):
    """view is exactly the elements of a sequence"""
    v = view
    while isinstance(v, Cloned): v = v.v
    if isinstance(v, SeqView) and (v.rf is None or isinstance(view, Cloned)): return v
    return None
def collect_into(ex, st, ty, it, name='collect'):
    """collect iterator it into collection type ty -> [(st, value)]"""
    P = ex.P; c = P.cls(ty); adt = P.adt(ty)
    if c == 'seq':
        if not isinstance(it.pos, int) or it.pos != 0: it = It(curview(ex, it), 0)
        iv = is_identity(it.view)
        if iv is not None: return [(st, iv.sq)]
        e = P.elem(ty)
        # prefix of a sequence
        if isinstance(it.view, (Cloned, Taken, Skipped)):
            r = as_slice(ex, st, it.view)
            if r is not None: return [(st, r)]
        L = it.view.length(ex, st) if it.view.countable else None
        if not it.view.countable and not isinstance(flat(it.view)[0].length(ex, st), int): return collect_filtered(ex, st, e, it)
        if it.view.countable and not isinstance(L, int):
            try: return [(st, collect_pure(ex, st, e, it.view, L))]
            except (Unsupported, Trap): pass
        def step(ex, s, roots, x):
            v = ex.read(s, roots['acc']); ex.write(s, roots['acc'], seq_push(ex, s, v, retype(ex, e, x)))
            return [(s, False, None)]
        out = []
        for s, roots, stp, r in drive(ex, st, it, {'acc': (Sq(e), ty)}, step, name):
            out.append((s, ex.read(s, roots['acc']))); s.store.pop(roots['acc'].root)
        return out
    if c == 'map':
        k, vt = P.mapkv(ty); isset = P.ty(ty)['def'] in SETS
        if isset and isinstance(it.view, (SeqView, Cloned)) :
            r = collect_set(ex, st, ty, it)
            if r is not None: return r
        def step(ex, s, roots, x):
            m = ex.read(s, roots['acc'])
            if isset: kt, vv = x, P.unitsort().unit
            else:
                x = ex.force(s, x); kt, vv = x.f[0], ex.enc(s, vt, x.f[1])
            nm, _ = map_put(ex, s, m, ex.keyenc(s, k, kt), vv); ex.write(s, roots['acc'], nm)
            return [(s, False, None)]
        out = []
        for s, roots, stp, r in drive(ex, st, it, {'acc': (empty_map(ex, ty), ty)}, step, name):
            out.append((s, ex.read(s, roots['acc']))); s.store.pop(roots['acc'].root)
        return out
    if adt in ('std::result::Result', 'std::option::Option'):
        inner = P.targ(ty, 0); isres = adt.endswith('Result')
        if P.cls(inner) != 'seq': raise Unsupported('collect into ' + P.name(ty))
        e = P.elem(inner)
        def step(ex, s, roots, x):
            x = ex.force(s, x); rs = []
            for s2, good in ex.branch(s, Eq(x.d, 0 if isres else 1)):
                if good:
                    v = ex.read(s2, roots['acc']); ex.write(s2, roots['acc'], seq_push(ex, s2, v, x.p[0 if isres else 1][0])); rs.append((s2, False, None))
                else: rs.append((s2, True, x.p[1][0] if isres else St(P.unit, ())))
            return rs
        out = []
        for s, roots, stp, r in drive(ex, st, it, {'acc': (Sq(e), inner)}, step, name):
            v = ex.read(s, roots['acc']); s.store.pop(roots['acc'].root)
            if stp: out.append((s, err(ty, r) if isres else none(ty)))
            else: out.append((s, ok(ty, v) if isres else some(ty, v)))
        return out
    if c == 'str': return [(st, z3.Const('str!%d' % uid(), Str))]
    if c == 'bytes':
        t = z3.Const('bytes!%d' % uid(), Bytes); L = it.view.length(ex, st) if it.view.countable else None
        iv = is_identity(it.view)
        if iv is not None and is_leaf(iv.sq): return [(st, iv.sq)]
        if L is not None: st.add(blen(t) == zint(L))
        return [(st, t)]
    raise Unsupported('collect into ' + P.name(ty))
def as_slice(ex, st, view):
    """Take/Skip/Cloned chain over a plain sequence -> Sq"""
    ops = []; v = view; cloned = False
    while isinstance(v, (Cloned, Taken, Skipped)):
        if isinstance(v, Cloned): cloned = True
        else: ops.append(v)
        v = v.v
    if not isinstance(v, SeqView): return None
    if v.rf is not None and not cloned: return None
    sq = v.sq
    if is_leaf(sq): return None
    for o in reversed(ops):
        ln = ex.seq_len(st, sq)
        if isinstance(o, Taken):
            hi = min(ln, o.x) if isinstance(ln, int) and isinstance(o.x, int) else simp(z3.If(zint(ln) < zint(o.x), zint(ln), zint(o.x)))
            sq = subseq(ex, st, sq, 0, hi)
        else:
            lo = min(ln, o.x) if isinstance(ln, int) and isinstance(o.x, int) else simp(z3.If(zint(ln) < zint(o.x), zint(ln), zint(o.x)))
            sq = subseq(ex, st, sq, lo, ln)
    return sq
def collect_pure(ex, st, e, view, L):
    from loops import consts_of
    i = z3.Int('ci!%d' % uid())
    s = st.fork(); s.add(z3.And(i >= 0, i < zint(L)))
    keys = list(s.store); n0 = len(s.pc)
    outs = view.get(ex, s, i)
    if not outs: raise Unsupported('always traps')
    ntr = len(ex.traps)
    if len(outs) > 1: outs = ex.merge_results(outs)
    if len(outs) != 1: raise Unsupported('outcomes')
    s2, v = outs[0]
    for k in keys:
        if k in s2.store and s2.store[k] is not st.store[k] and not same(s2.store[k], st.store[k]): raise Unsupported('effects')
    for g in st.g:
        if s2.g.get(g) is not st.g[g] and s2.g.get(g) != st.g[g]: raise Unsupported('ghost effects')
    t = ex.enc(s2, e, retype(ex, e, v))
    facts = s2.pc[n0:]
    known = set()
    for f in st.pc:
        for cst in consts_of(f): known.add(cst.get_id())
    from loops import consts_of_value, all_literals
    for x in st.store.values():
        for cst in consts_of_value(x): known.add(cst.get_id())
    for x in all_literals(): known.add(x.get_id())
    known.add(i.get_id())
    def closed(f): return all(cst.get_id() in known or str(cst).startswith('Z_') for cst in consts_of(f))
    if not closed(t): raise Unsupported('not closed')
    na = z3.Const('col!%d' % uid(), z3.ArraySort(z3.IntSort(), t.sort()))
    fs = [f for f in facts if uses(f, i) and closed(f)]
    body = z3.Select(na, i) == t
    if fs: body = z3.And(body, *fs)
    st.add(ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(L)), body), patterns=[z3.Select(na, i)]))
    return Sq(e, L, na, None)
def collect_filtered(ex, st, e, it):
    """collect of a filter/map pipeline over a countable symbolic base: exact characterisation by an order-preserving injection"""
    base, stages = flat(it.view)
    take = None
    if stages and stages[-1][0] == 'take': take = stages[-1][1]; stages = stages[:-1]
    elif any(s[0] == 'take' for s in stages):
        # take followed by maps: push take to the end (maps are one-to-one)
        k = next(n for n, s in enumerate(stages) if s[0] == 'take')
        if all(s[0] in ('map', 'clone') for s in stages[k + 1:]): take = stages[k][1]; stages = stages[:k] + stages[k + 1:]
    if any(s[0] in ('take', 'skip', 'enum') for s in stages): raise Unsupported('pipeline')
    pos = it.pos; L = base.length(ex, st)
    i = z3.Int('fi!%d' % uid())
    box = {}
    def th(s):
        s.add(z3.And(i >= 0, i < zint(L)))
        r = []
        for s2, x in base.get(ex, s, i):
            for s3, kp, v in through(ex, s2, stages, x):
                v = retype(ex, e, v)
                r.append((s3, St(None, (zbool(kp), ex.enc(s3, e, v)))))
        return r
    v, facts = pure(ex, st, [i], th)
    K, val = zbool(v.f[0]), v.f[1]
    fs = [f for f in facts if uses(f, i)]
    n = z3.Int('fn!%d' % uid()); na = z3.Const('flt!%d' % uid(), z3.ArraySort(z3.IntSort(), val.sort()))
    src = z3.Function('fsrc!%d' % uid(), z3.IntSort(), z3.IntSort()); inv = z3.Function('finv!%d' % uid(), z3.IntSort(), z3.IntSort())
    j = z3.Int('j!%d' % uid()); k = z3.Int('k!%d' % uid())
    sub = lambda f, t: z3.substitute(f, (i, t))
    st.add(z3.And(n >= 0, n <= zint(L)))
    st.add(ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(src(j) >= zint(pos), src(j) < zint(L), inv(src(j)) == j, sub(K, src(j)), z3.Select(na, j) == sub(val, src(j)), *[sub(f, src(j)) for f in fs])), patterns=[z3.Select(na, j)]))
    body = z3.Implies(K, z3.And(inv(i) >= 0, inv(i) < n, src(inv(i)) == i, z3.Select(na, inv(i)) == val))
    st.add(ForAll([i], z3.Implies(z3.And(i >= zint(pos), i < zint(L)), z3.And(body, *fs)), patterns=[inv(i)]))
    # make completeness available wherever the base is indexed
    tr = base_trigger(base, i)
    if tr is not None: st.add(ForAll([i], z3.Implies(z3.And(i >= zint(pos), i < zint(L)), body), patterns=[tr]))
    st.add(ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), src(j) < src(k)), patterns=[(src(j), src(k))]))
    ln = n
    if take is not None: ln = simp(z3.If(n < zint(take), n, zint(take)))
    ex.hints.append((inv.name(), lambda x: inv(x)))
    # what is kept of a plain sequence, counted: the multiset of the sequence without the values refused
    b = base; nb = None
    while isinstance(b, Cloned): b = b.v
    if take is None and isinstance(pos, int) and pos == 0 and isinstance(b, SeqView) and isinstance(b.sq, Sq) and b.sq.bag is not None and not b.sq.tail and z3.simplify(val).eq(z3.simplify(z3.Select(b.sq.arr, i))):
        x = z3.Const('x!%d' % uid(), val.sort()); kx = z3.simplify(z3.substitute(z3.simplify(K), (z3.simplify(val), x)))
        if not uses(kx, i):
            nb = z3.Const('fltbag!%d' % uid(), b.sq.bag.sort())
            st.add(ForAll([x], z3.Select(nb, x) == z3.If(kx, z3.Select(b.sq.bag, x), 0), patterns=[z3.Select(nb, x)]))
            q = exclusion(kx, x)
            if q is not None: st.add(n == zint(L) - sel(b.sq.bag, q)); st.add(sel(b.sq.bag, q) >= 0)
    return [(st, Sq(e, ln, na, nb))]
def bag_link(ex, st, v):
    """the multiset of a sequence counts its positions: what it holds is somewhere"""
    if not isinstance(v, Sq) or v.concrete or v.tail or v.bag is None: return
    x = z3.Const('x!%d' % uid(), v.bag.sort().domain()); bw = z3.Function('bagat!%d' % uid(), x.sort(), z3.IntSort()); t = z3.Select(v.bag, x)
    try: st.add(ForAll([x], z3.Implies(t > 0, z3.And(bw(x) >= 0, bw(x) < zint(v.bl), z3.Select(v.arr, bw(x)) == x)), patterns=[t]))
    except z3.Z3Exception: pass
def base_trigger(v, i):
    while isinstance(v, Wrap):
        if isinstance(v, (Skipped, Rev, Chained, Zipped)): return None
        v = v.v
    if isinstance(v, SeqView) and isinstance(v.sq, Sq) and v.sq.arr is not None and z3.is_const(v.sq.arr): return z3.Select(v.sq.arr, i)
    if isinstance(v, MapView): return z3.Select(v.KA, i)
    return None
def collect_set(ex, st, ty, it):
    """set of the elements of a plain sequence"""
    P = ex.P; iv = is_identity(it.view) if not (isinstance(it.view, SeqView) and it.view.rf is None) else it.view
    if iv is None or not isinstance(iv.sq, Sq) or iv.sq.concrete: return None
    k, _ = P.mapkv(ty)
    if contains_account(ex, iv.sq.ety): return None
    ln, arr, bag = ex.seq_term(st, iv.sq); U = P.unitsort().unit; D = P.optdt(P.unit)
    na = z3.Const('set!%d' % uid(), z3.ArraySort(P.keysort(k), D)); w = z3.Function('sw!%d' % uid(), P.keysort(k), z3.IntSort())
    x = z3.Const('x!%d' % uid(), P.keysort(k)); j = z3.Int('j!%d' % uid())
    st.add(ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(ln)), z3.Select(na, z3.Select(arr, j)) == D.some(U)), patterns=[z3.Select(arr, j)] if not z3.is_store(arr) else [w(z3.Select(arr, j))]))
    st.add(ForAll([x], z3.Implies(D.is_some(z3.Select(na, x)), z3.And(w(x) >= 0, w(x) < zint(ln), z3.Select(arr, w(x)) == x)), patterns=[z3.Select(na, x)]))
    s = z3.Int('ssz!%d' % uid()); st.add(z3.And(s >= 0, s <= zint(ln), z3.Implies(zint(ln) > 0, s > 0)))
    return [(st, Mp(ty, k, P.unit, na, s, P.ty(ty)['def'] in ORDERED))]
@model('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
def m_collect(ex, st, c):
    it = itval(ex, st, c.args[0])
    return collect_into(ex, st, c.dt, it, 'collect@%s' % c.line)
@model('std::iter::Extend::extend')
def m_extend(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r)
    it = itval(ex, st, c.args[1])
    if isinstance(v, Sq):
        ty = None
        out = []
        for s, w in collect_into(ex, st, c.targs[0] if ex.P.cls(c.targs[0]) == 'seq' else None, it): 
            ex.write(s, r, seq_concat(ex, s, ex.read(s, r), w)); out.append((s, unit(ex)))
        return out
    if isinstance(v, Mp):
        P = ex.P; k, vt = v.kty, v.vty; isset = P.ty(v.ty)['def'] in SETS
        def step(ex, s, roots, x):
            m = ex.read(s, r)
            if isset: kt, vv = x, P.unitsort().unit
            else:
                x = ex.force(s, x); kt, vv = x.f[0], ex.enc(s, vt, deref(ex, s, x.f[1]))
            nm, _ = map_put(ex, s, m, ex.keyenc(s, k, kt), vv); ex.write(s, r, nm)
            return [(s, False, None)]
        return [(s, unit(ex)) for s, _, _, _ in drive(ex, st, it, {}, step, 'extend')]
    raise Unsupported('extend')
def quant(ex, st, it, f, byref):
    """(K(i) predicate at position i as z3, i, L, pos)"""
    view, pos = it.view, it.pos
    base, stages = (view, []) if view.countable else flat(view)
    if any(s[0] in ('take', 'skip', 'enum') for s in stages): raise Unsupported('pipeline')
    L = base.length(ex, st); i = z3.Int('qi!%d' % uid())
    def th(s):
        s.add(z3.And(i >= 0, i < zint(L)))
        r = []
        for s2, x in base.get(ex, s, i):
            for s3, kp, v in through(ex, s2, stages, x):
                for s4, b in ex.apply(s3, f, [ex.tmp(s3, v) if byref else v]): r.append((s4, And(kp, b) if isinstance(And(kp, b), bool) else zbool(And(kp, b))))
        return r
    v, facts = pure(ex, st, [i], th)
    return zbool(v), i, L, pos, [x for x in facts if uses(x, i)]
def concrete_iter(ex, st, it):
    base = it.view if it.view.countable else flat(it.view)[0]
    return isinstance(base.length(ex, st), int) and isinstance(it.pos, int)
@model('std::iter::Iterator::any', 'std::iter::Iterator::all')
def m_any(ex, st, c):
    isany = c.defn.endswith('any')
    rf = c.args[0]; it = itval(ex, st, rf)
    if concrete_iter(ex, st, it):
        def step(ex, s, roots, x):
            rs = []
            for s2, b in ex.apply(s, c.args[1], [x]):
                for s3, bb in ex.branch(s2, b): rs.append((s3, bb == isany, isany))
            return rs
        return [(s, r if stp else (not isany)) for s, _, stp, r in drive(ex, st, it, {}, step, 'any')]
    K, i, L, pos, fs = quant(ex, st, it, c.args[1], False)
    if not isany: K = Not(K)
    r = z3.Bool('any!%d' % uid()); w = z3.Int('w!%d' % uid())
    st.add(z3.Implies(r, z3.And(w >= zint(pos), w < zint(L), z3.substitute(zbool(K), (i, w)), *[z3.substitute(f, (i, w)) for f in fs])))
    base = it.view if it.view.countable else flat(it.view)[0]
    tr = base_trigger(base, i)
    st.add(z3.Implies(z3.Not(r), ForAll([i], z3.Implies(z3.And(i >= zint(pos), i < zint(L)), z3.And(z3.Not(zbool(K)), *fs)), **({'patterns': [tr]} if tr is not None else {}))))
    return r if isany else z3.Not(r)
@model('std::iter::Iterator::find', 'std::iter::Iterator::position', 'std::iter::Iterator::find_map')
def m_find(ex, st, c):
    op = c.defn.split('::')[-1]
    rf = c.args[0]; it = itval(ex, st, rf)
    if op == 'find_map': raise Unsupported('find_map')
    if concrete_iter(ex, st, it):
        def step(ex, s, roots, x):
            rs = []
            for s2, b in ex.apply(s, c.args[1], [ex.tmp(s, x) if op == 'find' else x]):
                for s3, bb in ex.branch(s2, b):
                    n = ex.read(s3, roots['n'])
                    if not bb: ex.write(s3, roots['n'], n + 1)
                    rs.append((s3, bb, x if op == 'find' else n))
            return rs
        return [(s, some(c.dt, r) if stp else none(c.dt)) for s, _, stp, r in drive(ex, st, it, {'n': (0, None)}, step, 'find')]
    K, i, L, pos, fs = quant(ex, st, it, c.args[1], op == 'find')
    r = z3.Bool('found!%d' % uid()); w = z3.Int('w!%d' % uid()); q = z3.Int('q!%d' % uid())
    base, stages = (it.view, []) if it.view.countable else flat(it.view)
    rs = []
    a = st.fork(); a.add(r); a.add(z3.And(w >= zint(pos), w < zint(L))); a.add(z3.substitute(K, (i, w)))
    FS = lambda q: [z3.substitute(f, (i, q)) for f in fs]
    a.add(ForAll([q], z3.Implies(z3.And(q >= zint(pos), q < w), z3.And(z3.Not(z3.substitute(K, (i, q))), *FS(q)))))
    a.add(And(*FS(w)))
    ex.hints.append((w.decl().name(), lambda x: x - w)); ex.hints.append((w.decl().name(), lambda x: x - w - 1))
    if ex.feasible(a):
        if op == 'position': rs.append((a, some(c.dt, simp(w - zint(pos)))))
        else:
            for s2, x in base.get(ex, a, w):
                for s3, kp, v in through(ex, s2, stages, x): rs.append((s3, some(c.dt, v)))
    b = st; b.add(z3.Not(r))
    tr = base_trigger(base, q)
    b.add(ForAll([q], z3.Implies(z3.And(q >= zint(pos), q < zint(L)), z3.And(z3.Not(z3.substitute(K, (i, q))), *FS(q))), **({'patterns': [tr]} if tr is not None else {})))
    if isinstance(base, SeqView): bag_link(ex, b, base.sq)
    rs.append((b, none(c.dt)))
    return rs
@model('std::iter::Iterator::count')
def m_count(ex, st, c):
    it = itval(ex, st, c.args[0])
    if it.view.countable:
        l = it.view.length(ex, st); return l - it.pos if isinstance(l, int) and isinstance(it.pos, int) else simp(zint(l) - zint(it.pos))
    raise Unsupported('count')
@model('std::iter::Iterator::for_each')
def m_foreach(ex, st, c):
    it = itval(ex, st, c.args[0])
    def step(ex, s, roots, x): return [(s2, False, None) for s2, _ in ex.apply(s, c.args[1], [x])]
    cl = c.args[1]
    if isinstance(cl, St): cl = ex.tmp(st, cl, cl.ty, 'h'); 
    def step(ex, s, roots, x): return [(s2, False, None) for s2, _ in ex.apply(s, cl, [x])]
    return [(s, unit(ex)) for s, _, _, _ in drive(ex, st, it, {}, step, 'for_each')]
@model('std::iter::Iterator::fold')
def m_fold(ex, st, c):
    it = itval(ex, st, c.args[0])
    def step(ex, s, roots, x):
        rs = []
        for s2, v in ex.apply(s, c.args[2], [ex.read(s, roots['acc']), x]):
            ex.write(s2, roots['acc'], v); rs.append((s2, False, None))
        return rs
    return [(s, ex.read(s, roots['acc'])) for s, roots, _, _ in drive(ex, st, it, {'acc': (c.args[1], c.targs[1] if len(c.targs) > 1 else None)}, step, 'fold')]
@model('std::iter::Iterator::last', 'std::iter::Iterator::max', 'std::iter::Iterator::min', 'std::iter::Iterator::sum', 'std::iter::Iterator::nth')
def m_last(ex, st, c):
    it = itval(ex, st, c.args[0])
    if it.view.countable and c.defn.endswith('::last'):
        L = it.view.length(ex, st); rs = []
        for s, b in ex.branch(st, simp(zint(L) > zint(it.pos)) if not (isinstance(L, int) and isinstance(it.pos, int)) else L > it.pos):
            if b: rs += [(s2, some(c.dt, v)) for s2, v in it.view.get(ex, s, L - 1 if isinstance(L, int) else simp(L - 1))]
            else: rs.append((s, none(c.dt)))
        return rs
    raise Unsupported(c.defn)
@model('std::iter::once')
def m_once(ex, st, c): return It(SeqView(Sq(c.targs[0], 0, None, None, (c.args[0],))), 0)
@model('std::iter::empty')
def m_emptyit(ex, st, c): return It(SeqView(Sq(c.targs[0])), 0)

# ------------------------------------------------------------ formatting / panics
@pmodel(r'^core::fmt::rt::Argument::')
def m_arg(ex, st, c):
    try: v = deref(ex, st, c.args[0])
    except Unsupported: v = Un(None, 'fmt')
    if isinstance(v, Lib) and v.kind == 'hash' and c.defn.endswith('new_lower_hex'): return Lib('fmtarg', v=v, hex=z3.Function('HEX', Bytes, Str)(v.d['t']))
    return Lib('fmtarg', v=v)
@pmodel(r'^std::fmt::Arguments::<[^>]*>::')
def m_args(ex, st, c):
    vs = []
    for a in c.args:
        try: v = deref(ex, st, a)
        except Unsupported: v = None
        if isinstance(v, Sq): vs += [x for x in v.tail]
        else: vs.append(v)
    return Lib('fmt', vs=tuple(vs), line=(c.caller, c.line))
@model('std::fmt::format', 'alloc::fmt::format', 'std::fmt::format::format_inner')
def m_format(ex, st, c):
    a = c.args[0]
    if isinstance(a, Lib) and a.kind == 'fmt':
        hx = [x.d['hex'] for x in a.d['vs'] if isinstance(x, Lib) and 'hex' in x.d]
        if len(a.d['vs']) == 2 and hx and is_leaf(a.d['vs'][0]) and zleaf(a.d['vs'][0]).eq(CONSTS.byt(b'\xc0\x00')): return hx[0]      # format!("{:x}", hash)
        leaves = []; key = []
        good = True
        for x in a.d['vs']:
            if isinstance(x, Lib) and x.kind == 'fmtarg':
                v = x.d['v']
                if is_leaf(v): leaves.append(zleaf(v))
                elif isinstance(v, Op): leaves.append(v.t)
                else: good = False
            elif is_leaf(x): leaves.append(zleaf(x))
            elif x is None or isinstance(x, (Un,)): good = False
            else: good = False
        if good:
            # identical format pieces at one source position
            nm = 'fmt_%s_%s' % (a.d['line'], '_'.join(str(l.sort()) for l in leaves))
            nm = 'fmt_' + hashlib.md5(nm.encode()).hexdigest()[:10]
            if not leaves: return z3.Const(nm, Str)
            return z3.Function(nm, *([l.sort() for l in leaves] + [Str]))(*leaves)
    return z3.Const('str!%d' % uid(), Str)
@model('std::hint::must_use', 'std::convert::identity', 'std::hint::black_box')
def m_mustuse(ex, st, c): return c.args[0]
@pmodel(r'^(core::panicking::|std::rt::begin_panic|std::option::(unwrap|expect)_failed|std::result::unwrap_failed|std::process::abort|core::slice::index::slice_|std::alloc::handle_alloc_error|core::str::slice_error_fail|std::rt::panic_fmt)')
def m_panic(ex, st, c): ex.trap(st, 'panic'); return []
@model('std::io::_print', 'std::io::_eprint')
def m_print(ex, st, c): return unit(ex)
@model('std::time::Duration::from_millis', 'std::time::Duration::from_secs', 'std::time::Duration::from_nanos', 'std::time::Duration::from_micros')
def m_dur(ex, st, c): return Lib('dur', v=c.args[0], unit=c.defn.split('_')[-1])
@model('std::option::Option::<&T>::cloned', 'std::option::Option::<&T>::copied', 'std::option::Option::<&mut T>::cloned')
def m_optcloned(ex, st, c):
    v = ex.force(st, c.args[0])
    n = c.f.get('inst')
    if isinstance(v, En):
        if 1 in v.p and not (isinstance(v.d, int) and v.d == 0):
            # hand-written Clone impls of the crate are run
            e = ex.P.targ(c.dt, 0)
            if custom(ex.P, ('Clone',), e): raise Unsupported('hand-written clone of ' + ex.P.name(e))
            w = ex.read(st, v.p[1][0]) if isinstance(v.p[1][0], Rf) else v.p[1][0]
            return En(c.dt, v.d, {0: (), 1: (w,)})
        return none(c.dt)
    raise Unsupported('cloned')
@model('std::option::Option::<T>::is_some', 'std::option::Option::<T>::is_none')
def m_issome(ex, st, c):
    v = ex.force(st, deref(ex, st, c.args[0]))
    return Eq(v.d, 1 if c.defn.endswith('some') else 0)
@model('std::result::Result::<T, E>::is_ok', 'std::result::Result::<T, E>::is_err')
def m_isok(ex, st, c):
    v = ex.force(st, deref(ex, st, c.args[0]))
    return Eq(v.d, 0 if c.defn.endswith('ok') else 1)
@model('std::option::Option::<T>::unwrap_or', 'std::option::Option::<T>::unwrap_or_default')
def m_unwrapor(ex, st, c):
    v = ex.force(st, c.args[0])
    d = c.args[1] if len(c.args) > 1 else default(ex, st, c.targs[0])
    if isinstance(v.d, int): return v.p[1][0] if v.d == 1 else d
    x = v.p[1][0]
    if is_leaf(x) and is_leaf(d): return If(simp(v.d == 1), x, d)
    return NotImplemented if len(c.args) > 1 else [(s, x if b else d) for s, b in ex.branch(st, Eq(v.d, 1))]
@model('std::option::Option::<T>::as_ref', 'std::option::Option::<T>::as_mut', 'std::option::Option::<T>::as_deref', 'std::option::Option::<T>::as_deref_mut')
def m_asref(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.force(st, ex.read(st, r))
    if not isinstance(v, En): raise Unsupported('as_ref of %r' % (v,))
    if isinstance(v.d, int) and v.d == 0: return none(c.dt)
    # make the expansion persistent so that payload references stay valid
    if isinstance(ex.read(st, r), Op): ex.write(st, r, v) if not r.path or all(e[0] != 'k' for e in r.path) else None
    return En(c.dt, v.d, {0: (), 1: (Rf(r.root, r.path + (('v', 1, 0),)),)})
@model('std::option::Option::<T>::take')
def m_opttake(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.force(st, ex.read(st, r)); ex.write(st, r, none(c.targs and c.dt)); return v
@model('std::result::Result::<T, E>::as_ref')
def m_resasref(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); v = ex.force(st, ex.read(st, r))
    return En(c.dt, v.d, {k: (Rf(r.root, r.path + (('v', k, 0),)),) for k in v.p})
