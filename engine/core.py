"""Symbolic executor for dumped MIR (path enumeration with merging, loop cutting)."""
import sys, time, re, struct
import z3
from vals import *

sys.setrecursionlimit(20000)

class State:
    __slots__ = ('store', 'pc', 'g', 'np')
    def __init__(s, store=None, pc=None, g=None):
        s.store = store if store is not None else {}
        s.pc = pc if pc is not None else []
        s.g = g if g is not None else {}
        s.np = None
    def fork(s):
        r = State(dict(s.store), list(s.pc), dict(s.g))
        if s.np is not None and len(s.np) == len(s.pc): r.np = set(s.np)
        return r
    def add(s, f):
        if f is True: return
        if isinstance(f, bool): f = z3.BoolVal(f)
        if s.np is None: s.np = {x.get_id() for x in s.pc}
        i = f.get_id()
        if i in s.np: return
        s.np.add(i); s.pc.append(f)

class Trap(Exception): pass

class Body:
    """control-flow information of one MIR body"""
    def __init__(self, b, co=False):
        self.b = b; bb = b['bb']; n = len(bb)
        self.succ = [self._succ(x['t']) for x in bb]
        # a coroutine is always driven from its start to its end (awaits complete in place): resume edges are not part of its flow
        if co and bb[0]['t']['k'] == 'switch': self.succ[0] = [x[1] for x in bb[0]['t']['br'] if x[0] == '0']
        # reachable + RPO
        order = []; seen = set(); stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            k, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.succ[s]))); break
            else:
                order.append(k); stack.pop()
        order.reverse()
        self.rpo = {k: i for i, k in enumerate(order)}
        self.order = order
        pred = {k: [] for k in order}
        for k in order:
            for s in self.succ[k]: pred[s].append(k)
        # dominators
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for k in order[1:]:
                ps = [p for p in pred[k] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    a, c = d, p
                    while a != c:
                        while self.rpo[a] > self.rpo[c]: a = idom[a]
                        while self.rpo[c] > self.rpo[a]: c = idom[c]
                    d = a
                if idom.get(k) != d: idom[k] = d; ch = True
        def dom(a, k):
            while True:
                if a == k: return True
                if k == 0: return False
                k = idom[k]
        self.loops = {}
        for k in order:
            for s in self.succ[k]:
                if dom(s, k):
                    body = self.loops.setdefault(s, {s}); work = [k]
                    while work:
                        x = work.pop()
                        if x in body: continue
                        body.add(x); work.extend(pred[x])
        self.headers = set(self.loops)
    def _succ(self, t):
        k = t['k']
        if k == 'goto': return [t['t']]
        if k == 'switch': return list(dict.fromkeys([x[1] for x in t['br']] + ([t['o']] if t['o'] is not None else [])))
        if k in ('call', 'drop', 'assert'): return [t['t']] if t.get('t') is not None else []
        return []

class Watch:
    """the solver query under way, visible to the supervising process: a query that outlives its time limit is given up by starting over without it"""
    cell = None; n = 0; skip = frozenset(); seed = 0
def watched(s, timeout):
    W = Watch; W.n += 1
    if W.n in W.skip: return z3.unknown
    if W.seed: s.set('random_seed', W.seed)
    if W.cell is None: return s.check()
    W.cell[0:24] = struct.pack('<dqd', time.time(), W.n, timeout / 1000)
    try: return s.check()
    finally: W.cell[0:24] = bytes(24)

class Ex:
    MERGE_AT = 6
    def __init__(self, prog, models, verbose=False):
        self.P = prog; self.models = models; self.verbose = verbose
        self.bodies = {}; self.frame = 0; self.heap = 0
        self.symnext = False; self.hasnext = False
        self.depth = 0
        self.rootty = {}
        self.spec = None
        self.traps = []
        self.unmodelled = {}
        self.used_models = {}
        self.inlined = set(); self.hints = []; self.keyhints = []
        self.nsolve = 0; self.tsolve = 0.0
        self.dropmemo = {}
        self.feas_memo = {}
        self.callstack = []
        self.deadline = None
        self.global_facts = []       # axioms usable in feasibility checks (quantifier-free)
        self._sf = {}
    # ------------------------------------------------------------ solving
    def axioms(self):
        return CONSTS.axioms()
    def feasible(self, st, timeout=400):
        """is the (light) path condition satisfiable? unknown counts as yes"""
        if any(z3.is_false(c) for c in st.pc): return False
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exhausted')
        key = tuple(c.get_id() for c in st.pc)
        r = self.feas_memo.get(key)
        if r is not None: return r[0]
        t = time.time()
        s = z3.SimpleSolver()
        s.set('timeout', timeout)
        for c in st.pc:
            if not has_quant(c): s.add(c)
        for a in CONSTS.axioms(): s.add(a)
        r = watched(s, timeout) != z3.unsat
        self.nsolve += 1; self.tsolve += time.time() - t
        self.feas_memo[key] = (r, list(st.pc))
        return r
    def entails(self, st, c, timeout=400):
        """light entailment (sound: only True when proved)"""
        if c is True: return True
        if c is False: return not self.feasible(st)
        s2 = State(None, list(st.pc), None); s2.add(Not(c))
        return not self.feasible(s2, timeout)
    def branch(self, st, c):
        """fork on boolean c -> [(st, bool)] feasible ones"""
        c = simp(c) if not isinstance(c, bool) else c
        if isinstance(c, bool): return [(st, c)]
        nc = Not(c)
        for p in st.pc:
            if p.eq(c): return [(st, True)]
            if p.eq(nc): return [(st, False)]
        a = st.fork(); a.add(c)
        b = st; 
        fa = self.feasible(a)
        b2 = st.fork(); b2.add(nc)
        fb = self.feasible(b2) if fa else True
        r = []
        if fa: r.append((a, True))
        if fb: r.append((b2, False))
        return r
    # ------------------------------------------------------------ fresh / encode / decode
    def rng(self, st, ty, t):
        """range facts for an integer-like leaf"""
        T = self.P.ty(ty)
        if isinstance(t, (int, bool)): return
        if T['k'] == 'int':
            w = T['bits']
            if T['signed']: st.add(z3.And(t >= -(1 << (w - 1)), t < (1 << (w - 1))))
            else: st.add(z3.And(t >= 0, t < (1 << w)))
        elif T['k'] == 'char': st.add(z3.And(t >= 0, t < 0x110000))
        elif self.P.cls(ty) == 'nat' and T['def'] not in ('candid::Int', 'num_bigint::bigint::BigInt'): st.add(t >= 0)
        elif self.P.cls(ty) == 'bytes':
            st.add(blen(t) >= 0)
            if T['k'] == 'array' and T.get('len') is not None: st.add(blen(t) == int(T['len']))
        elif self.P.cls(ty) == 'str': st.add(slen(t) >= 0)
    def newroot(self, kind, ty=None):
        self.heap += 1
        r = (kind, self.heap)
        self.rootty[r] = ty
        return r
    def tmp(self, st, v, ty=None, kind='t'):
        r = self.newroot(kind, ty)
        st.store[r] = v
        return Rf(r)
    def fresh(self, st, ty, name='x'):
        P = self.P; c = P.cls(ty)
        if c in ('int', 'nat', 'bool', 'str', 'bytes', 'prin', 'f64'):
            t = z3.Const('%s!%d' % (name, uid()), P.sort(ty)); self.rng(st, ty, t); return t
        if c == 'zst' : return St(ty, ())
        if c == 'tuple' and not P.ty(ty)['e']: return St(ty, ())
        if c in ('fndef', 'closure'): return Un(ty, 'fresh fn')
        if c in ('ref', 'box'):
            return self.tmp(st, self.fresh(st, P.inner(ty), name), P.inner(ty))
        if c == 'transp': return self.fresh(st, P.inner(ty), name)
        return self.dec(st, ty, z3.Const('%s!%d' % (name, uid()), P.sort(ty)))
    def dec(self, st, ty, t):
        P = self.P; c = P.cls(ty)
        if c in ('int', 'nat', 'bool', 'str', 'bytes', 'prin', 'f64'):
            t = lit(t); self.rng(st, ty, t); return t
        if c in ('transp',): return self.dec(st, P.inner(ty), t)
        if c in ('ref', 'box'): return self.tmp(st, self.dec(st, P.inner(ty), t), P.inner(ty))
        if c == 'zst' or (c == 'tuple' and not P.ty(ty)['e']): return St(ty, ())
        if c in ('fndef', 'closure'): return Fn(P.ty(ty).get('inst'), P.ty(ty).get('def'))
        if c == 'seq':
            e = P.elem(ty); D = P.seqdt(e)
            if is_ctor(t): ln, arr, bag = t.arg(0), t.arg(1), t.arg(2)
            else: ln, arr, bag = D.len(t), D.arr(t), D.bag(t)
            if not z3.is_int_value(ln): st.add(z3.And(ln >= 0, ln < 2**62))
            T = P.ty(ty)
            if T['k'] == 'array' and T.get('len') is not None:
                return Sq(e, 0, None, None, tuple(self.dec(st, e, z3.Select(arr, k)) for k in range(int(T['len']))))
            return Sq(e, lit(ln), arr, bag)
        if c == 'map':
            k, v = P.mapkv(ty); D = P.mapdt(k, v)
            if is_ctor(t): arr, size = t.arg(0), t.arg(1)
            else: arr, size = D.arr(t), D.size(t)
            if not z3.is_int_value(size): st.add(z3.And(size >= 0, size < 2**62))
            return Mp(ty, k, v, arr, lit(size), P.ty(ty)['def'] in ORDERED)
        return Op(ty, t)
    def uf(self, name, *sorts):
        return z3.Function(name, *sorts)
    def is_u(self, ty):
        """type represented by an uninterpreted sort"""
        return self.P.opaque_adt(ty) or self.P.is_recursive(ty)
    def force(self, st, v):
        if not isinstance(v, Op): return v
        P = self.P; ty = v.ty; t = v.t; c = P.cls(ty); T = P.ty(ty)
        if c in ('coroutine', 'dyn', 'fnptr', 'never', 'union'): return v
        if self.is_u(ty):
            m = mangle(canon(P.name(ty))); s = P.sort(ty)
            nv = len(T['v'])
            if P.cls(ty) == 'enum' and nv > 1:
                d = self.uf('dsc_' + m, s, z3.IntSort())(t); st.add(z3.And(d >= 0, d < nv))
                k = self.known(st, t, d)
                if k is not None: d = k
            else: d = 0
            def pay(vi):
                return tuple(self.dec(st, x, self.uf('fld_%s_%d_%d' % (m, vi, k), s, P.sort(x))(t)) for k, (_, x) in enumerate(P.fields(ty, vi)))
            if c == 'enum': return En(ty, d, {vi: pay(vi) for vi in (range(nv) if not isinstance(d, int) else [d])})
            return St(ty, pay(0))
        D = P.sort(ty)
        if c in ('struct', 'tuple'):
            if is_ctor(t): return St(ty, [self.dec(st, x, t.arg(k)) for k, (_, x) in enumerate(P.fields(ty))])
            return St(ty, [self.dec(st, x, D.accessor(0, k)(t)) for k, (_, x) in enumerate(P.fields(ty))])
        if c == 'enum':
            nv = len(T['v'])
            if is_ctor(t):
                vi = next(k for k in range(nv) if D.constructor(k).eq(t.decl()))
                return En(ty, vi, {vi: tuple(self.dec(st, x, t.arg(k)) for k, (_, x) in enumerate(P.fields(ty, vi)))})
            k = self.known_ctor(st, D, nv, t)
            d = z3.IntVal(nv - 1)
            for vi in range(nv - 2, -1, -1): d = z3.If(D.recognizer(vi)(t), z3.IntVal(vi), d)
            if nv == 1: d = 0
            if k is not None: d = k
            return En(ty, d, {vi: tuple(self.dec(st, x, D.accessor(vi, k)(t)) for k, (_, x) in enumerate(P.fields(ty, vi))) for vi in (range(nv) if not isinstance(d, int) else [d])})
        raise Unsupported('force ' + P.name(ty))
    def known_ctor(self, st, D, nv, t):
        for vi in range(nv):
            r = D.recognizer(vi)(t)
            for p in st.pc:
                if p.eq(r): return vi
        return None
    def known(self, st, t, d):
        for p in st.pc:
            if z3.is_eq(p) and p.arg(0).eq(d) and z3.is_int_value(p.arg(1)): return p.arg(1).as_long()
        return None
    def emptyarr(self, e):
        s = self.P.sort(e)
        return z3.Const('Z_' + str(s), z3.ArraySort(z3.IntSort(), s))
    def emptybag(self, e):
        return z3.K(self.P.sort(e), z3.IntVal(0))
    def seq_term(self, st, v):
        """(len, arr, bag) of a Sq including its tail"""
        ln, arr, bag = v.bl, v.arr, v.bag
        if arr is None: ln, arr, bag = 0, self.emptyarr(v.ety), self.emptybag(v.ety)
        for x in v.tail:
            e = self.enc(st, v.ety, x)
            arr = z3.Store(arr, zint(ln), e)
            if bag is not None: bag = z3.Store(bag, e, bag_get(bag, e) + 1)
            ln = ln + 1 if isinstance(ln, int) else simp(ln + 1)
        if bag is None:
            bag = z3.Const('bag!%d' % uid(), z3.ArraySort(self.P.sort(v.ety), z3.IntSort()))
        return ln, arr, bag
    def enc(self, st, ty, v):
        P = self.P; c = P.cls(ty)
        if is_leaf(v): return zleaf(v)
        if isinstance(v, Op): return v.t
        if isinstance(v, Rf):
            if c in ('ref', 'box', 'transp'): return self.enc(st, P.inner(ty), self.read(st, v))
            raise Unsupported('encode reference as ' + P.name(ty))
        if c in ('transp', 'box', 'ref'): return self.enc(st, P.inner(ty), v)
        if c in ('zst', 'fndef', 'closure') or (c == 'tuple' and not P.ty(ty)['e']): return P.unitsort().unit
        if isinstance(v, Sq):
            if c == 'bytes':
                return self.bytes_term(st, v)
            D = P.seqdt(v.ety); ln, arr, bag = self.seq_term(st, v)
            return D.mk(zint(ln), arr, bag)
        if isinstance(v, Mp):
            k, vt = P.mapkv(ty); D = P.mapdt(k, vt)
            return D.mk(v.arr, zint(v.size))
        if isinstance(v, St):
            fs = P.fields(ty)
            if len(fs) != len(v.f): raise Unsupported('encode struct arity ' + P.name(ty))
            es = [self.enc(st, x, w) for (_, x), w in zip(fs, v.f)]
            if self.is_u(ty): return self.umk(st, ty, 0, es)
            return P.sort(ty).constructor(0)(*es)
        if isinstance(v, En):
            def one(vi):
                fs = P.fields(ty, vi)
                es = [self.enc(st, x, w) for (_, x), w in zip(fs, v.p.get(vi, ()))]
                if self.is_u(ty): return self.umk(st, ty, vi, es)
                return P.sort(ty).constructor(vi)(*es)
            if isinstance(v.d, int): return one(v.d)
            ks = sorted(v.p); r = None
            for vi in reversed(ks):
                try: t = one(vi)
                except KeyError: continue
                r = t if r is None else z3.If(simpb(v.d == vi), t, r)
            return r
        if isinstance(v, (Un, Lib, Fn, It, Co)):
            if isinstance(v, Un) and v.ty is not None:
                return z3.Const('un!%d' % uid(), P.sort(ty))
            if isinstance(v, Lib) and self.is_u(ty): return z3.Const('lib!%d' % uid(), P.sort(ty))
            raise Unsupported('encode %s as %s' % (type(v).__name__, P.name(ty)))
        raise Unsupported('encode %r' % (v,))
    def umk(self, st, ty, vi, es):
        P = self.P; m = mangle(canon(P.name(ty))); s = P.sort(ty)
        t = self.uf('mk_%s_%d' % (m, vi), *([e.sort() for e in es] + [s]))(*es)
        if P.cls(ty) == 'enum' and len(P.ty(ty)['v']) > 1: st.add(self.uf('dsc_' + m, s, z3.IntSort())(t) == vi)
        for k, e in enumerate(es): st.add(self.uf('fld_%s_%d_%d' % (m, vi, k), s, e.sort())(t) == e)
        return t
    def bytes_term(self, st, v):
        if v.concrete and all(isinstance(x, int) for x in v.tail): return CONSTS.byt(bytes(v.tail))
        t = z3.Const('bytes!%d' % uid(), Bytes)
        if v.concrete:
            st.add(blen(t) == len(v.tail))
            for k, x in enumerate(v.tail): st.add(bget(t, k) == zint(x))
        return t
    def keyenc(self, st, kty, v):
        """normalised key term of map key v (type kty)"""
        P = self.P
        while isinstance(v, Rf) and P.cls(kty) in ('ref', 'box'):
            v = self.read(st, v); kty = P.inner(kty)
        if isinstance(v, Rf): v = self.read(st, v)
        kty = P.keyty(kty)
        if P.adt(kty) == ACCOUNT:
            ow, sub = self.acc_parts(st, kty, v)
            return P.accsort().acc(ow, sub)
        w = P.acc_newtype(kty)
        if w is not None:
            return self.keyenc(st, w, self.force(st, v).f[0])
        if P.enum_key(kty):
            v = self.force(st, v); D = P.keysort(kty)
            def one(vi): return D.constructor(vi)(*[zleaf(self.keyenc(st, x, y)) for (_, x), y in zip(P.fields(kty, vi), v.p[vi])])
            if isinstance(v.d, int): return one(v.d)
            r = None
            for vi in reversed(sorted(v.p)): r = one(vi) if r is None else z3.If(simpb(v.d == vi), one(vi), r)
            return r
        return self.enc(st, kty, v)
    def acc_parts(self, st, ty, v):
        """(owner, effective subaccount) of an Account value"""
        v = self.force(st, v)
        ow = v.f[0]; so = self.force(st, v.f[1])
        return zleaf(ow), self.effsub(so)
    def effsub(self, so):
        if isinstance(so.d, int): return zleaf(so.p[1][0]) if so.d == 1 else ZERO32
        return If(simp(so.d == 1), so.p[1][0], ZERO32)
    # ------------------------------------------------------------ memory
    def child(self, st, v, e):
        """value of component e of v"""
        v = self.force(st, v)
        k = e[0]
        if k == 'f':
            i = e[1]
            if isinstance(v, St):
                if i >= len(v.f): raise Unsupported('field %d of %r' % (i, v))
                return v.f[i]
            if is_leaf(v) or isinstance(v, (Rf, Sq, Mp, It)): return v       # transparent wrappers
            if isinstance(v, Co): return v.up[i]
            if isinstance(v, En) and len(v.p) == 1 and 0 in v.p: return v.p[0][i]
            if isinstance(v, Un): return Un(None, v.why)
            if isinstance(v, (Lib, Op)): return v
            raise Unsupported('field %d of %r' % (i, v))
        if k == 'v':
            if isinstance(v, En):
                if e[1] not in v.p:
                    if not isinstance(v.d, int) or v.d == e[1]: raise Unsupported('payload missing %r %r' % (v, e))
                    raise Trap()
                return v.p[e[1]][e[2]]
            if isinstance(v, Co):
                if (e[1], e[2]) not in v.saved: raise Unsupported('coroutine slot unset')
                return v.saved[(e[1], e[2])]
            if isinstance(v, Un): return Un(None, v.why)
            raise Unsupported('variant of %r' % (v,))
        if k == 'i':
            return self.seq_get(st, v, e[1])
        if k == 'k':
            o = z3.Select(v.arr, e[1]); D = self.P.optdt(v.vty)
            o = sel(v.arr, e[1])
            return self.dec(st, v.vty, D.val(o) if not is_ctor(o) else o.arg(0))
        if k == 'r':
            import lib_std
            return lib_std.subseq(self, st, v, e[1], e[2])
        raise Unsupported('path %r' % (e,))
    def seq_get(self, st, v, i):
        if isinstance(v, Sq):
            if isinstance(i, int) and v.concrete:
                if i >= len(v.tail): raise Unsupported('index out of concrete range')
                return v.tail[i]
            if not v.concrete and not v.tail:
                return self.dec(st, v.ety, sel(v.arr, zint(i)))
            ln, arr, bag = self.seq_term(st, v)
            return self.dec(st, v.ety, sel(arr, zint(i)))
        if is_leaf(v):
            t = bget(v, zint(i)); st.add(z3.And(t >= 0, t < 256)); return t
        raise Unsupported('index of %r' % (v,))
    def setchild(self, st, v, e, x):
        v = self.force(st, v)
        k = e[0]
        if k == 'f':
            i = e[1]
            if isinstance(v, St):
                f = list(v.f); f[i] = x; return St(v.ty, f)
            if is_leaf(v) or isinstance(v, (Rf, Sq, Mp, It, Lib)): return x
            if isinstance(v, Co):
                f = list(v.up); f[i] = x; return Co(v.ty, v.d, f, v.saved)
            if isinstance(v, En) and len(v.p) == 1 and 0 in v.p:
                f = list(v.p[0]); f[i] = x; return En(v.ty, v.d, {0: tuple(f)})
            if isinstance(v, Un): return x if v.why == 'uninit-transparent' else v
            raise Unsupported('set field of %r' % (v,))
        if k == 'v':
            if isinstance(v, Co):
                s = dict(v.saved); s[(e[1], e[2])] = x; return Co(v.ty, v.d, v.up, s)
            if isinstance(v, En):
                p = dict(v.p); f = list(p.get(e[1], ()))
                while len(f) <= e[2]: f.append(Un(None, 'unset'))
                f[e[2]] = x; p[e[1]] = tuple(f); return En(v.ty, v.d, p)
            raise Unsupported('set variant field of %r' % (v,))
        if k == 'r':
            import lib_std
            return lib_std.setsub(self, st, v, e[1], e[2], x)
        if k == 'i':
            i = e[1]
            if not isinstance(v, Sq): raise Unsupported('element of %r written' % (v,))
            if v.concrete and isinstance(i, int):
                t = list(v.tail); t[i] = x; return Sq(v.ety, v.bl, v.arr, v.bag, t)
            ln, arr, bag = self.seq_term(st, v)
            return Sq(v.ety, ln, z3.Store(arr, zint(i), self.enc(st, v.ety, x)), None)
        if k == 'k':
            D = self.P.optdt(v.vty)
            return Mp(v.ty, v.kty, v.vty, z3.Store(v.arr, e[1], D.some(self.enc(st, v.vty, x))), v.size, v.ordered)
        raise Unsupported('set path %r' % (e,))
    def read(self, st, r):
        if not isinstance(r, Rf): 
            raise Unsupported('deref of %r' % (r,))
        if r.root not in st.store: raise Unsupported('read of unset root %r' % (r.root,))
        v = st.store[r.root]
        for e in r.path: v = self.child(st, v, e)
        return v
    def write(self, st, r, x):
        if not r.path: st.store[r.root] = x; return
        if r.root not in st.store: raise Unsupported('write to unset root %r' % (r.root,))
        def go(v, p):
            if not p: return x
            return self.setchild(st, v, p[0], go(self.child(st, v, p[0]) if len(p) > 1 else None, p[1:]) if len(p) > 1 else x)
        st.store[r.root] = go(st.store[r.root], r.path)
    # places
    def place(self, st, fr, p):
        """-> Rf naming the place"""
        root = ('l', fr, p[0]); path = []
        proj = p[1]; k = 0
        while k < len(proj):
            e = proj[k]
            if e[0] == '*':
                v = self.read(st, Rf(root, path))
                if isinstance(v, Rf): root, path = v.root, list(v.path)
                elif isinstance(v, Un): return Rf(('un',), ())
                elif isinstance(v, (Lib,)) and 'ref' in v.d: root, path = v.d['ref'].root, list(v.d['ref'].path)
                elif isinstance(v, (Op, Fn)) or is_leaf(v) or isinstance(v, (St, Sq, Mp)):
                    # value standing for a reference to it
                    rr = self.newroot('t'); st.store[rr] = v; root, path = rr, []
                else: raise Unsupported('deref of %r' % (v,))
            elif e[0] == 'f':
                if k > 0 and proj[k - 1][0] == 'd': path.append(('v', proj[k - 1][1], e[1]))
                else: path.append(('f', e[1]))
            elif e[0] == 'd': pass
            elif e[0] == 'i':
                iv = self.read(st, Rf(('l', fr, e[1])))
                path.append(('i', iv))
            elif e[0] == 'ci':
                if e[3]:
                    v = self.read(st, Rf(root, path)); ln = self.seq_len(st, v)
                    path.append(('i', simp(zint(ln) - e[1]) if not isinstance(ln, int) else ln - e[1]))
                else: path.append(('i', e[1]))
            elif e[0] == 'oc': pass
            elif e[0] == 'ss': raise Unsupported('subslice pattern')
            else: raise Unsupported('projection %r' % (e,))
            k += 1
        return Rf(root, path)
    def seq_len(self, st, v):
        if isinstance(v, Sq):
            return v.bl + len(v.tail) if isinstance(v.bl, int) else (simp(v.bl + len(v.tail)) if v.tail else v.bl)
        if isinstance(v, St) and not v.f: return 0
        if is_leaf(v):
            if v.sort() == Bytes:
                for b, c in CONSTS.bytes.items():
                    if c.eq(v): return len(b)
                return blen(v)
            if v.sort() == Str:
                for b, c in CONSTS.strs.items():
                    if c.eq(v): return len(b.encode())
                return slen(v)
        raise Unsupported('len of %r' % (v,))
    # operands
    def const(self, st, c):
        k = c['k']; P = self.P
        if k == 'int':
            T = P.ty(c['t'])
            return int(c['v'])
        if k == 'bool': return bool(c['v'])
        if k == 'str': return self.tmp(st, CONSTS.str(c['v']), kind='c')
        if k == 'bytes' : return CONSTS.byt(bytes(c['v']))
        if k == 'arr':
            vs = [self.const(st, x) for x in c['f']] if 'f' in c else [self.const(st, x) for x in c['v']]
            if 't' in c and P.cls(c['t']) == 'bytes' and all(isinstance(x, int) for x in vs): return CONSTS.byt(bytes(vs))
            return Sq(P.elem(c['t']), 0, None, None, vs)
        if k == 'zst':
            T = P.ty(c['t'])
            if T['k'] in ('fndef', 'closure'): return Fn(T.get('inst'), T.get('def'), T.get('args', ())) if T['k'] == 'fndef' else St(c['t'], ())
            if P.cls(c['t']) == 'seq': return Sq(P.elem(c['t']))
            if T['k'] == 'adt' and T['kind'] == 'enum': return En(c['t'], 0, {0: ()})
            if P.cls(c['t']) == 'bytes': return CONSTS.byt(b'')
            return self.zst(c['t'])
        if k == 'agg':
            T = P.ty(c['t'])
            if T['k'] == 'adt' and T['def'] == 'std::thread::LocalKey': return Lib('tls', key=(c['f'][0].get('inst'), T['n']))
            fs = [self.const(st, x) for x in c['f']]
            cl = P.cls(c['t'])
            if cl in ('int', 'nat', 'str', 'bytes', 'prin', 'bool', 'transp', 'ref', 'seq'):
                if len(fs) == 1: return fs[0]
                return Un(c['t'], 'const')
            if cl == 'enum': return En(c['t'], c['v'], {c['v']: tuple(fs)})
            return St(c['t'], fs)
        if k == 'ref':
            v = self.const(st, c['to'])
            if isinstance(v, Rf) and c['to']['k'] == 'str': pass
            return self.tmp(st, v, kind='c')
        if k == 'static': return Rf(('static', c['n']))
        if k == 'fnptr': return Fn(c['inst'], c.get('n'))
        if k == 'float':
            return z3.Const('f64!' + str(c.get('v')), F64)
        return Un(c.get('t'), k)
    def zst(self, ty):
        P = self.P; T = P.ty(ty)
        if T['k'] == 'tuple': return St(ty, [self.zst(x) for x in T['e']])
        if T['k'] == 'adt' and T['kind'] == 'struct' and not P.opaque_adt(ty): return St(ty, [self.zst(x) for _, x in P.fields(ty)])
        if T['k'] in ('fndef',): return Fn(T.get('inst'), T.get('def'), T.get('args', ()))
        return St(ty, ())
    def operand(self, st, fr, o):
        if o['k'] == 'const': return self.const(st, o['c'])
        return self.readp(st, fr, o['p'])
    def readp(self, st, fr, p):
        r = self.place(st, fr, p)
        if r.root == ('un',): return Un(None, 'deref unknown')
        return self.read(st, r)
    # rvalues
    def wrap(self, ty, e):
        T = self.P.ty(ty)
        if T['k'] != 'int': return e
        w = T['bits']; m = 1 << w
        if isinstance(e, int):
            e %= m
            if T['signed'] and e >= m // 2: e -= m
            return e
        return e
    def arith(self, st, op, ty, a, b):
        T = self.P.ty(ty); signed = T.get('signed', False); w = T.get('bits', 64); m = 1 << w
        lo, hi = (-(m // 2), m // 2) if signed else (0, m)
        if isinstance(a, int) and isinstance(b, int):
            r = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b}[op]()
            return self.wrap(ty, r), not (lo <= r < hi)
        a, b = zint(a), zint(b)
        r = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[op]
        r = z3.simplify(r) if op != 'Mul' else r
        if z3.is_int_value(r):
            x = r.as_long(); return self.wrap(ty, x), not (lo <= x < hi)
        ovf = z3.Or(r < lo, r >= hi)
        if op == 'Add':
            over, under = (r >= hi), (r < lo) if signed else False
        elif op == 'Sub':
            over, under = (r >= hi) if signed else False, (r < lo)
        else:
            if self.entails(st, z3.Not(ovf)): return r, False
            return (r % m if not signed else ((r - lo) % m) + lo), ovf
        if self.entails(st, Not(Or(over, under))): return r, False
        rr = r
        if over is not False: rr = If(over, r - m, rr)
        if under is not False: rr = If(under, r + m, rr)
        return rr, Or(over, under)
    def binop(self, st, op, a, b, ta, tb, rt):
        if isinstance(a, Un) or isinstance(b, Un): return Un(rt, 'binop on unknown')
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, Rf) and isinstance(b, Rf):
                r = (a.root == b.root and samepath(a.path, b.path))
                if op == 'Eq': return r
                if op == 'Ne': return not r
                raise Unsupported('pointer order')
            if not is_leaf(a) or not is_leaf(b):
                raise Unsupported('compare %r %r' % (a, b))
            if op == 'Eq': return Eq(a, b)
            if op == 'Ne': return Not(Eq(a, b))
            if isinstance(a, bool) or isinstance(b, bool): raise Unsupported('order on bool')
            f = {'Lt': lambda x, y: x < y, 'Le': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'Ge': lambda x, y: x >= y}[op]
            if isinstance(a, int) and isinstance(b, int): return f(a, b)
            if not z3.is_int(zleaf(a)): raise Unsupported('order on ' + str(zleaf(a).sort()))
            return simp(f(zint(a), zint(b)))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return self.arith(st, op.replace('Unchecked', ''), ta, a, b)[0]
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            T = self.P.ty(ta)
            if T['k'] == 'bool':
                if op == 'BitAnd': return And(a, b)
                if op == 'BitOr': return Or(a, b)
                return Not(Eq(a, b))
            if isinstance(a, int) and isinstance(b, int):
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
            if T.get('signed'): raise Unsupported('bits of a signed number')
            w = T['bits']
            r = {'BitAnd': lambda x, y: x & y, 'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y}[op](z3.Int2BV(zint(a), w), z3.Int2BV(zint(b), w))
            return z3.BV2Int(r)
        if op in ('Div', 'Rem'):
            if isinstance(a, int) and isinstance(b, int):
                if b == 0: raise Trap()
                q = abs(a) // abs(b); q = q if (a >= 0) == (b >= 0) else -q
                return q if op == 'Div' else a - q * b
            if self.P.ty(ta).get('signed'): raise Unsupported('signed division')
            return zint(a) / zint(b) if op == 'Div' else zint(a) % zint(b)
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked') and isinstance(b, int):
            w = self.P.ty(ta)['bits']; b = b % w
            if self.P.ty(ta).get('signed') and not isinstance(a, int): raise Unsupported('shift of a signed number')
            if op.startswith('Shl'): return self.wrap(ta, a << b) if isinstance(a, int) else (a * (1 << b)) % (1 << w)
            return a >> b if isinstance(a, int) else a / (1 << b)
        if op == 'Offset': return Un(rt, 'ptr offset')
        raise Unsupported('binop ' + op)
    def rvalue(self, st, fr, body, r, dty):
        k = r['k']; P = self.P
        if k == 'use': return self.operand(st, fr, r['o'])
        if k == 'ref':
            rf = self.place(st, fr, r['p'])
            if rf.root == ('un',): return Un(dty, 'ref unknown')
            return rf
        if k == 'bin' or k == 'cbin':
            a = self.operand(st, fr, r['a']); b = self.operand(st, fr, r['b'])
            ta = self.opty(body, r['a'])
            if k == 'bin' and not r['op'].endswith('WithOverflow'): return self.binop(st, r['op'], a, b, ta, None, dty)
            v, o = self.arith(st, r['op'].replace('WithOverflow', ''), ta, a, b)
            return St(dty, (v, o))
        if k == 'un':
            a = self.operand(st, fr, r['o'] if 'o' in r else r['a']); op = r['op']
            if op == 'Not':
                if isinstance(a, bool) or (isinstance(a, z3.ExprRef) and z3.is_bool(a)): return Not(a)
                if isinstance(a, int): return self.wrap(dty, ~a)
                raise Unsupported('bit not')
            if op == 'Neg':
                if isinstance(a, int): return self.wrap(dty, -a)
                if P.ty(dty)['k'] != 'int': raise Unsupported('negation')
                lo = -(1 << (P.ty(dty)['bits'] - 1)); return simp(z3.If(zint(a) == lo, z3.IntVal(lo), -zint(a)))
            if op == 'PtrMetadata':
                if isinstance(a, Rf): return self.seq_len(st, self.read(st, a))
                return Un(dty, 'meta')
            raise Unsupported('unop ' + op)
        if k == 'discr':
            rf = self.place(st, fr, r['p'])
            if rf.root == ('un',): return Un(dty, 'discr')
            v0 = self.read(st, rf)
            v = self.force(st, v0)
            if isinstance(v0, Op): self.refine_store(st, rf, v)
            if isinstance(v, Co): return v.d
            if isinstance(v, En):
                vs = P.ty(v.ty)['v']
                if isinstance(v.d, int): return int(vs[v.d]['d']) if v.d < len(vs) else v.d
                if all(int(x['d']) == n for n, x in enumerate(vs)): return v.d
                e = z3.IntVal(int(vs[-1]['d']))
                for n in range(len(vs) - 2, -1, -1): e = z3.If(v.d == n, z3.IntVal(int(vs[n]['d'])), e)
                return e
            if isinstance(v, Un): return Un(dty, v.why)
            if isinstance(v, int) and not isinstance(v, bool): return v
            raise Unsupported('discriminant of %r' % (v,))
        if k == 'len':
            return self.seq_len(st, self.readp(st, fr, r['p']))
        if k == 'cast':
            a = self.operand(st, fr, r['o'])
            return self.cast(st, r, a, self.opty(body, r['o']), r['t'])
        if k == 'repeat':
            a = self.operand(st, fr, r['o']); n = P.ty(dty).get('len') if P.ty(dty)['k'] == 'array' else None
            if P.cls(dty) == 'bytes' and isinstance(a, int): return CONSTS.byt(bytes([a]) * int(n))
            if n is None or int(n) > 256: return Un(dty, 'repeat')
            return Sq(P.elem(dty), 0, None, None, (a,) * int(n))
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r['o']]
            ak = r['ak']; ty = r['t']
            if ak == 'array':
                e = P.elem(ty) if P.ty(ty)['k'] == 'array' else ty
                if P.ty(e)['k'] == 'int' and P.ty(e).get('bits') == 8 and all(isinstance(x, int) for x in ops): return CONSTS.byt(bytes(ops))
                return Sq(e, 0, None, None, ops)
            if ak == 'tuple': return St(dty, ops)
            if ak == 'closure': return St(ty, ops)
            if ak == 'coroutine': return Co(ty, 0, ops, {})
            if ak == 'rawptr': return ops[0]
            T = P.ty(ty); c = P.cls(ty)
            if c in ('int', 'nat', 'str', 'bytes', 'prin', 'transp', 'seq', 'map'): return ops[0]
            if c == 'ref' or c == 'box': return ops[0]
            if c == 'enum': return En(ty, r['v'], {r['v']: tuple(ops)})
            if c == 'zst': return St(ty, ())
            if T['k'] == 'adt' and T['kind'] == 'union': return ops[0]
            return St(ty, ops)
        if k == 'tls': return Un(dty, 'tls')
        raise Unsupported('rvalue ' + k)
    def refine_store(self, st, rf, v):
        """remember the expansion of a lazily represented value (same value, cheaper later)"""
        if not rf.path: st.store[rf.root] = v
    def opty(self, body, o):
        if o['k'] == 'const': return o['c'].get('t')
        return self.placety(body, o['p'])
    def placety(self, body, p):
        ty = body['locals'][p[0]]; P = self.P
        v = 0
        for e in p[1]:
            if e[0] == '*': ty = P.inner(ty)
            elif e[0] == 'f': ty = e[2]
            elif e[0] in ('i', 'ci'): ty = P.elem(ty)
            elif e[0] == 'oc': ty = e[1]
        return ty
    def cast(self, st, r, a, ta, tb):
        P = self.P; ck = r['ck']
        if isinstance(a, Un): return Un(tb, a.why)
        if ck.startswith('IntToInt') or ck == 'Misc' or 'IntToInt' in ck:
            if isinstance(a, bool): return int(a)
            if isinstance(a, z3.ExprRef) and z3.is_bool(a): return z3.If(a, z3.IntVal(1), z3.IntVal(0))
            if isinstance(a, int): return self.wrap(tb, a)
            if isinstance(a, En):
                if isinstance(a.d, int): return a.d
                return a.d
            A, B = P.ty(ta), P.ty(tb)
            if A['k'] == 'int' and B['k'] == 'int' and (A['bits'] <= B['bits'] if A['signed'] == B['signed'] else A['bits'] < B['bits'] and not A['signed']): return a
            if A['k'] in ('char',) : return a
            if B['k'] == 'int':
                m = 1 << B['bits']
                lo, hi = (-(m // 2), m // 2) if B['signed'] else (0, m)
                if self.entails(st, z3.And(a >= lo, a < hi)): return a
                return ((a - lo) % m) + lo
            return a
        if ck.startswith('Transmute') or 'PtrToPtr' in ck or 'PointerCoercion' in ck or 'BoxDeref' in ck:
            if 'ReifyFnPointer' in ck or 'ClosureFnPointer' in ck: return a
            if 'Unsize' in ck:
                # &[T;N] -> &[T]: same place; Box<dyn>: keep
                return a
            if ck.startswith('Transmute') and is_leaf(a) and not isinstance(a, (int, bool)) and P.cls(tb) != P.cls(ta):
                if P.cls(tb) in ('ref',) : return a
                raise Unsupported('transmute')
            return a
        if 'Float' in ck or 'IntToFloat' in ck:
            return z3.Const('f64!%d' % uid(), F64) if P.cls(tb) == 'f64' else self.fresh(st, tb, 'fcast')
        if 'Subtype' in ck: return a
        raise Unsupported('cast ' + ck)
    # ------------------------------------------------------------ running bodies
    def bodyinfo(self, n):
        b = self.bodies.get(n)
        if b is None: b = self.bodies[n] = Body(self.P.I[n]['body'], self.is_co(n))
        return b
    def is_co(self, n):
        b = self.P.I[n]['body']
        return b['argc'] >= 1 and self.P.ty(b['locals'][1])['n'].startswith('std::pin::Pin<&mut {async')
    def call_inst(self, st, n, args, spread=False):
        """run instance n (inlined) -> [(st, ret)]"""
        inst = self.P.I[n]; body = inst['body']
        if self.spec is not None and inst['crate'] == self.P.crate:
            h = self.spec.callee(self, st, n, args)
            if h is not None: return h
        if body is None: raise Unsupported('no body: ' + inst['name'][:160])
        self.depth += 1
        if self.depth > 120: raise Unsupported('recursion too deep at ' + inst['name'])
        if sum(1 for c in self.callstack if c == n) > 4: raise Unsupported('recursive function ' + inst['name'])
        self.callstack.append(n)
        if inst['crate'] == self.P.crate: self.inlined.add(n)
        try:
            B = self.bodyinfo(n)
            self.frame += 1; fr = self.frame
            sp = body['spread']
            if sp is not None and len(args) != body['argc']:
                # rust-call ABI: spread tuple
                a2 = args[:sp - 1] + [St(body['locals'][sp], args[sp - 1:])]
                args = a2
            elif sp is None and len(args) != body['argc'] and len(args) == 2 and body['argc'] >= 1 and isinstance(args[1], St):
                args = [args[0]] + list(args[1].f)
            if len(args) != body['argc']: raise Unsupported('argc mismatch calling ' + inst['name'] + ' %d %d' % (len(args), body['argc']))
            for k, a in enumerate(args): st.store[('l', fr, k + 1)] = a
            for k, t in enumerate(body['locals']): self.rootty[('l', fr, k)] = t
            out = self.region(n, B, fr, {0: [st]}, None, None)
            res = []
            for s in out['ret']:
                v = s.store.get(('l', fr, 0), None)
                if v is None: v = St(self.P.unit, ()) if not self.P.ty(body['locals'][0]).get('e') else Un(body['locals'][0], 'no return')
                for k in range(len(body['locals'])): s.store.pop(('l', fr, k), None)
                res.append((s, v))
            if len(res) > self.MERGE_AT: res = self.merge_results(res)
            return res
        finally:
            self.depth -= 1; self.callstack.pop()
    def merge_results(self, res):
        R = ('ret', 0)
        for s, v in res: s.store[R] = v
        ms = self.merge([s for s, _ in res])
        out = []
        for s in ms:
            v = s.store.pop(R); out.append((s, v))
        return out
    def region(self, n, B, fr, pending, blocks, header):
        """run blocks until leaving the region.  returns dict(ret=[st], exit=[(bb,st)], back=[st])"""
        out = {'ret': [], 'exit': [], 'back': []}
        body = B.b
        first = header is not None
        while pending:
            k = min(pending, key=lambda x: B.rpo[x])
            sts = pending.pop(k)
            if len(sts) > self.MERGE_AT: sts = self.merge(sts)
            for st in sts:
                if k in B.headers and not (k == header):
                    rs = self.loop(n, B, fr, k, st)
                    for s in rs['ret']: out['ret'].append(s)
                    for bb, s in rs['exit']:
                        self._route(out, pending, blocks, header, bb, s)
                    continue
                for bb, s in self.block(n, body, fr, k, st, out):
                    self._route(out, pending, blocks, header, bb, s)
        return out
    def _route(self, out, pending, blocks, header, bb, s):
        if bb == header: out['back'].append(s)
        elif blocks is not None and bb not in blocks: out['exit'].append((bb, s))
        else: pending.setdefault(bb, []).append(s)
    def block(self, n, body, fr, k, st, out):
        """execute block k; returns [(succ, st)]"""
        blk = body['bb'][k]
        try:
            for s in blk['s']: self.stmt(st, fr, body, s)
            return self.term(n, body, fr, k, st, blk['t'], out)
        except Trap:
            self.trap(st, 'trap')
            return []
        except Unsupported as u:
            if not hasattr(u, 'where'):
                u.where = '%s bb%d (%s:%s)' % (self.P.I[n]['name'][:100], k, self.P.I[n]['file'].split('/src/')[-1], blk['t'].get('line', self.P.I[n]['line'][0]))
            raise
    def trap(self, st, why):
        self.traps.append(why)
        h = getattr(self.spec, 'trapped', None)
        if h is not None: h(self, st, why)
    def stmt(self, st, fr, body, s):
        if s[0] == '=':
            dty = self.placety(body, s[1])
            v = self.rvalue(st, fr, body, s[2], dty)
            self.assign(st, fr, s[1], v)
        elif s[0] == 'sd':
            r = self.place(st, fr, s[1])
            v = self.read(st, r) if r.root in st.store else None
            if isinstance(v, Co): self.write(st, r, Co(v.ty, s[2], v.up, v.saved))
            elif isinstance(v, En): self.write(st, r, En(v.ty, s[2], v.p))
            else: self.write(st, r, En(self.placety(body, s[1]), s[2], {s[2]: ()}))
        elif s[0] == 'assume': pass
        else: raise Unsupported('statement ' + s[0])
    def assign(self, st, fr, p, v):
        if not p[1]:
            st.store[('l', fr, p[0])] = v; return
        root = ('l', fr, p[0])
        if root not in st.store:
            # partial initialisation of an aggregate
            ty = self.rootty.get(root)
            st.store[root] = self.uninit(ty)
        r = self.place(st, fr, p)
        if r.root == ('un',): return
        self.write(st, r, v)
    def uninit(self, ty):
        P = self.P; T = P.ty(ty); c = P.cls(ty)
        if c in ('struct', 'tuple'): return St(ty, [Un(x, 'uninit') for _, x in P.fields(ty)])
        if c == 'enum': return En(ty, 0, {})
        return Un(ty, 'uninit-transparent')
    def term(self, n, body, fr, k, st, t, out):
        kd = t['k']
        if kd == 'goto': return [(t['t'], st)]
        if kd == 'return': out['ret'].append(st); return []
        if kd == 'unreachable': return []
        if kd in ('resume', 'abort'): return []
        if kd == 'switch':
            d = self.operand(st, fr, t['d'])
            if isinstance(d, Un): raise Unsupported('branch on unknown: ' + d.why)
            if isinstance(d, bool): d = int(d)
            if isinstance(d, int):
                T = self.P.ty(t['dt']) if t.get('dt') is not None else {}
                for v, bb in t['br']:
                    iv = int(v)
                    if iv == d or (d < 0 and iv == d % (1 << T.get('bits', 64))): return [(bb, st)]
                return [(t['o'], st)]
            res = []; neg = []
            isb = z3.is_bool(d)
            cur = st
            for v, bb in t['br']:
                iv = int(v)
                c = (Not(d) if iv == 0 else d) if isb else simp(d == iv)
                if c is False: continue
                s2 = cur.fork() if c is not True else cur
                s2.add(c)
                if c is True or self.known_true(cur, c) or self.feasible(s2): res.append((bb, s2))
                neg.append(Not(c))
                if c is True: return res
            if t['o'] is not None and not self.is_unreachable(body, t['o']):
                s2 = cur.fork()
                for c in neg: s2.add(c)
                if not res or self.feasible(s2): res.append((t['o'], s2))
            if len(res) == 1 and False: pass
            return res
        if kd == 'assert':
            c = self.operand(st, fr, t['c'])
            if isinstance(c, Un): raise Unsupported('assert on unknown')
            c = c if t['e'] else Not(c)
            if c is True: return [(t['t'], st)]
            rs = []
            for s, b in self.branch(st, c):
                if b: rs.append((t['t'], s))
                else: self.trap(s, t['m'])
            return rs
        if kd == 'drop':
            rs = self.drop_place(st, fr, body, t)
            return [(t['t'], s) for s in rs]
        if kd == 'call':
            return self.do_call(n, body, fr, st, t)
        raise Unsupported('terminator ' + kd)
    def known_true(self, st, c):
        return any(p.eq(c) for p in st.pc) if isinstance(c, z3.ExprRef) else False
    def is_unreachable(self, body, bb):
        b = body['bb'][bb]
        return not b['s'] and b['t']['k'] == 'unreachable'
    # ------------------------------------------------------------ drops
    def needs_drop(self, ty, seen=None):
        """does dropping a value of this type run user code of the crate?"""
        P = self.P
        if ty in self.dropmemo: return self.dropmemo[ty]
        seen = seen or set()
        if ty in seen: return False
        seen.add(ty)
        T = P.ty(ty); r = False
        if self.user_drop(T): r = True
        elif T['k'] in ('closure', 'coroutine'):
            r = T['k'] == 'coroutine' and False
        elif T['k'] in ('ref', 'ptr', 'fndef', 'fnptr'): r = False
        else: r = any(self.needs_drop(x, seen) for x in P._sub(ty)) if T['k'] in ('adt', 'tuple', 'array', 'slice') and not P.opaque_adt(ty) else False
        self.dropmemo[ty] = r
        return r
    def user_drop(self, T):
        return T['k'] == 'adt' and T.get('drop') is not None and T.get('crate') == self.P.crate
    def drop_place(self, st, fr, body, t):
        ty = t['pt'] if t.get('pt') is not None else self.placety(body, t['p'])
        if not self.needs_drop(ty): return [st]
        r = self.place(st, fr, t['p'])
        if r.root not in st.store: return [st]
        return self.drop_val(st, ty, r)
    def drop_val(self, st, ty, r):
        P = self.P; T = P.ty(ty)
        if not self.needs_drop(ty): return [st]
        if self.user_drop(T):
            outs = []
            for s, _ in self.call_inst(st, T['drop'], [r]): outs.append(s)
            return outs
        v = self.force(st, self.read(st, r))
        if isinstance(v, Un): return [st]
        if isinstance(v, St):
            sts = [st]
            for k, (_, x) in enumerate(P.fields(ty)):
                if self.needs_drop(x):
                    sts = [s2 for s in sts for s2 in self.drop_val(s, x, Rf(r.root, r.path + (('f', k),)))]
            return sts
        if isinstance(v, En):
            outs = []
            for vi in range(len(T['v'])):
                c = Eq(v.d, vi)
                if c is False: continue
                if not isinstance(v.d, int):
                    s2 = st.fork(); s2.add(c)
                    if not self.feasible(s2): continue
                else: s2 = st
                sts = [s2]
                for k, (_, x) in enumerate(P.fields(ty, vi)):
                    if self.needs_drop(x):
                        sts = [s3 for s in sts for s3 in self.drop_val(s, x, Rf(r.root, r.path + (('v', vi, k),)))]
                outs += sts
            return outs
        return [st]
    # ------------------------------------------------------------ calls
    def do_call(self, n, body, fr, st, t):
        f = t['f']
        args = [self.operand(st, fr, a) for a in t['a']]
        if 'dyn' in f:
            fv = self.operand(st, fr, f['dyn'])
            rs = self.apply(st, fv, args)
        else:
            c = Call(f, args, t['at'], t['dt'], t['line'], n)
            rs = self.call(st, c)
        res = []
        if t['t'] is None:
            return []
        for s, v in rs:
            if s is None: continue
            self.assign(s, fr, t['d'], v)
            res.append((t['t'], s))
        return res
    def call(self, st, c):
        f = c.f
        m = self.models.lookup(self, c)
        if m is not None:
            self.used_models[c.defn] = self.used_models.get(c.defn, 0) + 1
            r = m(self, st, c)
            if r is not NotImplemented:
                return self.norm(st, r)
        if f.get('virt'): return self.virtual(st, c)
        if f['inst'] is None: raise Unsupported('unresolved call ' + c.defn)
        inst = self.P.I[f['inst']]
        if inst['body'] is None:
            self.unmodelled[c.defn] = self.unmodelled.get(c.defn, 0) + 1
            raise Unsupported('no contract for library function ' + (inst['name'] if len(inst['name']) < 300 else c.defn))
        return self.call_inst(st, f['inst'], c.args)
    def virtual(self, st, c):
        """method of a trait object: the implementation for the type of the value the reference points to"""
        a = c.args[0]; v = a; k = 0
        while isinstance(v, Rf) and k < 6: v = self.read(st, v); k += 1
        ty = getattr(v, 'ty', None)
        if not isinstance(ty, int): raise Unsupported('virtual call %s on %r' % (c.defn, v))
        n = [i for y, i in c.f.get('vt', ()) if canon(self.P.name(y)) == canon(self.P.name(ty))]
        if len(n) != 1: raise Unsupported('virtual call %s on %s' % (c.defn, self.P.name(ty)))
        r = a
        while isinstance(r, Rf) and isinstance(self.read(st, r), Rf): r = self.read(st, r)
        return self.call_inst(st, n[0], [r] + list(c.args[1:]))
    def norm(self, st, r):
        if isinstance(r, list): return r
        return [(st, r)]
    def apply(self, st, fv, args):
        """call a function value (closure / fn item / fn ptr) with argument list"""
        P = self.P
        if isinstance(fv, Rf): 
            inner = self.read(st, fv)
            if isinstance(inner, (Fn, Rf)): return self.apply(st, inner, args)
            if isinstance(inner, St) and P.ty(inner.ty)['k'] == 'closure':
                return self.call_closure(st, inner, fv, args)
        if isinstance(fv, Fn):
            if fv.inst is None: raise Unsupported('call of unknown fn ' + str(fv.def_))
            inst = P.I[fv.inst]
            if fv.def_ or inst['name']:
                c = Call({'def': fv.def_ or inst['def'], 'args': list(fv.args) if fv.def_ and fv.args else inst['args'], 'inst': fv.inst, 'name': inst['name'], 'intr': None, 'virt': False}, args, [None] * len(args), None, 0, None)
                m = self.models.lookup(self, c)
                if m is not None:
                    r = m(self, st, c)
                    if r is not NotImplemented: return self.norm(st, r)
            if inst['body'] is None:
                r = self.ctor(inst, args)
                if r is not None: return [(st, r)]
            return self.call_inst(st, fv.inst, args)
        if isinstance(fv, St) and P.ty(fv.ty)['k'] == 'closure':
            return self.call_closure(st, fv, None, args)
        raise Unsupported('apply %r' % (fv,))
    def ctor(self, inst, args):
        """tuple-struct / variant constructor used as a function"""
        P = self.P; nm = inst['name'].replace('::<', '<').replace(P.crate + '::', '')
        for cand, v in ((nm, None), (nm.rsplit('::', 1)[0], nm.rsplit('::', 1)[-1])):
            ty = P.byname.get(canon(cand))
            if ty is None or P.ty(ty)['k'] != 'adt': continue
            if v is None:
                return args[0] if P.cls(ty) in ('int', 'nat', 'str', 'bytes', 'prin', 'transp') else St(ty, args)
            for k, x in enumerate(P.ty(ty)['v']):
                if x['n'] == v: return En(ty, k, {k: tuple(args)})
        return None
    def call_closure(self, st, cv, ref, args):
        P = self.P; T = P.ty(cv.ty); n = T['inst']
        if n is None: raise Unsupported('closure without body')
        body = P.I[n]['body']
        if body is None: raise Unsupported('closure without body')
        selfty = P.ty(body['locals'][1]) if body['argc'] >= 1 else None
        if selfty and selfty['k'] == 'ref':
            if ref is None: ref = self.tmp(st, cv, cv.ty)
            a0 = ref
        else: a0 = cv
        return self.call_inst(st, n, [a0] + list(args))

class Call:
    __slots__ = ('f', 'args', 'at', 'dt', 'line', 'caller', 'defn', 'targs')
    def __init__(s, f, args, at, dt, line, caller):
        s.f = f; s.args = args; s.at = at; s.dt = dt; s.line = line; s.caller = caller
        s.defn = f['def']; s.targs = [a for a in f.get('args', []) if isinstance(a, int)]

def is_ctor(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR
def simpb(e):
    e = z3.simplify(e); return e
def bag_get(bag, e):
    """Select with store/K peeling"""
    return sel(bag, e)
_distinct_memo = {}
def sel(arr, k):
    a = arr
    while z3.is_store(a):
        i = a.arg(1)
        if i.eq(k): return a.arg(2)
        if definitely_distinct(i, k): a = a.arg(0)
        else: break
    if z3.is_K(a): return a.arg(0)
    return z3.Select(a, k)
def definitely_distinct(i, k):
    if z3.is_int_value(i) and z3.is_int_value(k): return i.as_long() != k.as_long()
    if z3.is_const(i) and z3.is_const(k) and i.sort() == Str:
        names = set(c.get_id() for c in CONSTS.strs.values())
        return i.get_id() in names and k.get_id() in names and not i.eq(k)
    d = z3.simplify(i == k)
    return z3.is_false(d)
_hq = {}
def has_quant(e):
    k = e.get_id()
    r = _hq.get(k)
    if r is not None: return r[0]
    r = False; seen = {}; work = [e]
    while work:
        x = work.pop(); i = x.get_id()
        if i in seen: continue
        q = _hq.get(i)
        if q is not None:
            if q[0]: r = True; break
            continue
        seen[i] = x
        if z3.is_quantifier(x): r = True; break
        work.extend(x.children())
    if not r:
        for i, x in seen.items(): _hq[i] = (False, x)
    _hq[k] = (r, e)
    return r
