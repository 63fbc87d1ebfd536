"""State merging and loop cutting (loop invariants) for the executor."""
import z3
from vals import *
from core import *
import core

import os
DBG = int(os.environ.get('DBG') or 0)
class NoMerge(Exception): pass

def mergev(ex, c, sa, sb, st, a, b, ty=None):
    """value equal to a when c, b otherwise"""
    if a is b or same(a, b): return a
    if is_leaf(a) and is_leaf(b):
        if zleaf(a).sort() != zleaf(b).sort(): raise NoMerge()
        return If(c, a, b)
    if isinstance(a, Un) or isinstance(b, Un): return Un(None, 'merged unknown')
    if isinstance(a, Op) and isinstance(b, Op) and a.ty == b.ty: return Op(a.ty, z3.If(c, a.t, b.t))
    if isinstance(a, Op) and isinstance(b, (St, En)) or isinstance(b, Op) and isinstance(a, (St, En)):
        a = ex.force(st, a); b = ex.force(st, b)
    if isinstance(a, St) and isinstance(b, St):
        if a.ty != b.ty or len(a.f) != len(b.f): raise NoMerge()
        return St(a.ty, [mergev(ex, c, sa, sb, st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, En) and isinstance(b, En):
        if a.ty != b.ty and canon(ex.P.name(a.ty)) != canon(ex.P.name(b.ty)): raise NoMerge()
        d = If(c, a.d, b.d)
        p = {}
        for k in set(a.p) | set(b.p):
            if k in a.p and k in b.p: 
                if len(a.p[k]) != len(b.p[k]): raise NoMerge()
                p[k] = tuple(mergev(ex, c, sa, sb, st, x, y) for x, y in zip(a.p[k], b.p[k]))
            else: p[k] = a.p.get(k, b.p.get(k))
        return En(a.ty, d, p)
    if isinstance(a, Sq) and isinstance(b, Sq) and a.ety == b.ety:
        if same(Sq(a.ety, a.bl, a.arr, a.bag), Sq(b.ety, b.bl, b.arr, b.bag)) and len(a.tail) == len(b.tail):
            return Sq(a.ety, a.bl, a.arr, a.bag, [mergev(ex, c, sa, sb, st, x, y) for x, y in zip(a.tail, b.tail)])
        if getattr(ex.spec, 'keep_lengths', False) and a.concrete and b.concrete: raise NoMerge()
        try: la, aa, ba = ex.seq_term(st, a); lb, ab, bb = ex.seq_term(st, b)
        except Unsupported: raise NoMerge()
        return Sq(a.ety, If(c, la, lb), z3.If(c, aa, ab), z3.If(c, ba, bb))
    if isinstance(a, Mp) and isinstance(b, Mp): return Mp(a.ty, a.kty, a.vty, z3.If(c, a.arr, b.arr), If(c, a.size, b.size), a.ordered)
    if isinstance(a, Rf) and isinstance(b, Rf):
        # shared temporaries holding values: merge the contents when both are value temps
        if a.root[0] in ('t', 'c') and b.root[0] in ('t', 'c'):
            try: va, vb = ex.read(sa, a), ex.read(sb, b)
            except Unsupported: raise NoMerge()
            return ex.tmp(st, mergev(ex, c, sa, sb, st, va, vb))
        raise NoMerge()
    if isinstance(a, It) and isinstance(b, It) and a.view.same(b.view): return It(a.view, If(c, a.pos, b.pos))
    if isinstance(a, Co) and isinstance(b, Co) and a.ty == b.ty and eqv(a.d, b.d) and len(a.up) == len(b.up):
        sv = {k: mergev(ex, c, sa, sb, st, x, b.saved[k]) if k in b.saved else x for k, x in a.saved.items()}
        sv.update({k: x for k, x in b.saved.items() if k not in a.saved})
        return Co(a.ty, a.d, [mergev(ex, c, sa, sb, st, x, y) for x, y in zip(a.up, b.up)], sv)
    if isinstance(a, Lib) and isinstance(b, Lib) and a.kind == b.kind and a.kind in ('fmt', 'trace', 'args'): return a
    raise NoMerge()

class LoopMixin:
    def merge(self, sts):
        """merge states pairwise where possible; returns a (hopefully shorter) list"""
        if len(sts) <= 1 or getattr(self.spec, 'codec', False): return sts
        groups = []
        for s in sts:
            for g in groups:
                if self.compat(g[0], s): g.append(s); break
            else: groups.append([s])
        out = []
        for g in groups:
            out += self.mergegroup(g)
        return out
    def compat(self, a, b):
        ga, gb = a.g, b.g
        if set(ga) != set(gb): return False
        for k in ga:
            if ga[k] is gb[k]: continue
            if isinstance(ga[k], (V, int, bool, z3.ExprRef)) :
                continue
            if not samg(ga[k], gb[k]): return False
        return True
    def mergegroup(self, g):
        cur = g[0]; rest = []
        for s in g[1:]:
            m = self.merge2(cur, s)
            if m is None: rest.append(s)
            else: cur = m
        return [cur] + (self.mergegroup(rest) if rest else [])
    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or a.pc[n].eq(b.pc[n])): n += 1
        ra, rb = a.pc[n:], b.pc[n:]
        ca = And(*ra); cb = And(*rb)
        m = State({}, list(a.pc[:n]), dict(a.g))
        # condition selecting a: pick a literal of ra whose negation is in rb if there is one
        c = None
        nb = [Not(x) for x in rb]
        ib = {y.get_id() for y in nb if isinstance(y, z3.ExprRef)}
        for x in ra:
            if isinstance(x, z3.ExprRef) and x.get_id() in ib: c = x; break
        if c is None:
            c = ca
        if c is True or c is False: return None
        if isinstance(c, z3.ExprRef) and has_quant(c):
            # a ghost flag names the path instead
            c = z3.Bool('path!%d' % uid())
        st = m
        # frame-local temporaries may exist on one side only
        try:
            for k in a.store:
                va = a.store[k]
                if k not in b.store:
                    if k[0] != 'l': m.store[k] = va
                    else: m.store[k] = va
                    continue
                vb = b.store[k]
                m.store[k] = va if va is vb else mergev(self, c, a, b, st, va, vb)
            for k in b.store:
                if k not in a.store: m.store[k] = b.store[k]
            for k in a.g:
                if isinstance(a.g[k], (V, int, bool, z3.ExprRef)) and a.g[k] is not b.g[k]:
                    m.g[k] = mergev(self, c, a, b, st, a.g[k], b.g[k])
        except (NoMerge, Unsupported) as e:
            if DBG == 2: print('   no merge', k, repr(e), str(a.store.get(k))[:300], '|||', str(b.store.get(k))[:300])
            return None
        m.np = None
        if ra or rb:
            # facts (range facts, axioms of fresh symbols) are conditional on their own path
            ibs = {y.get_id() for y in rb}
            common = [x for x in ra if x.get_id() in ibs]; ics = {x.get_id() for x in common}
            for x in common: m.pc.append(x)
            ra2 = [x for x in ra if x.get_id() not in ics]
            rb2 = [x for x in rb if x.get_id() not in ics]
            if c is not ca:
                for x in ra2:
                    if not (isinstance(c, z3.ExprRef) and x.eq(c)): m.pc.append(z3.Implies(zbool(c), x))
                nc = Not(c)
                for x in rb2:
                    if not x.eq(nc): m.pc.append(z3.Implies(zbool(nc), x))
            else:
                o = Or(And(*ra2), And(*rb2))
                if o is not True: m.pc.append(zbool(o))
        return m
    # ------------------------------------------------------------ loops
    def loop(self, n, B, fr, h, st):
        blocks = B.loops[h]
        def run(s):
            o = self.region(n, B, fr, {h: [s]}, blocks, h)
            return o
        res = {'ret': [], 'exit': []}
        cur = [st]; k = 0
        while cur:
            k += 1
            if k > 400: raise Unsupported('loop does not finish')
            s = cur.pop()
            save = (self.symnext, self.hasnext); self.symnext = self.hasnext = False
            s0 = s.fork()
            n0 = self.spec.mark() if self.spec is not None else 0
            o = run(s)
            sym = self.symnext or (not self.hasnext and o['back'] and (o['exit'] or o['ret']))
            self.symnext, self.hasnext = save
            if sym and o['back']:
                if self.spec is not None: self.spec.rollback(n0)
                c = self.cut(s0, run, '%s@bb%d' % (self.P.I[n]['name'][:80], h), o)
                res['ret'] += c['ret']; res['exit'] += c['exit']
                continue
            res['ret'] += o['ret']; res['exit'] += o['exit']
            b = o['back']
            if len(b) > 1: b = self.merge(b)
            cur += b
            if len(cur) > 64: raise Unsupported('too many loop states')
        if len(res['exit']) > self.MERGE_AT:
            by = {}
            for bb, s in res['exit']: by.setdefault(bb, []).append(s)
            res['exit'] = [(bb, s) for bb, l in by.items() for s in self.merge(l)]
        return res
    # --- diff / havoc
    def expand(self, st, a, b):
        """unfold an opaque record where the other value is unfolded"""
        if a is b: return a
        if isinstance(a, Op) and isinstance(b, (St, Mp, Sq)):
            if isinstance(b, St) and isinstance(a.ty, int) and self.P.cls(a.ty) != 'struct': return a
            try: a = self.force(st, a)
            except Unsupported: return a
        if isinstance(a, St) and isinstance(b, St) and a.ty == b.ty and len(a.f) == len(b.f):
            f = [self.expand(st, x, y) for x, y in zip(a.f, b.f)]
            return a if all(x is y for x, y in zip(f, a.f)) else St(a.ty, f)
        if isinstance(a, En) and isinstance(b, En) and isinstance(a.d, int) and eqv(a.d, b.d) and len(a.p) == 1 and a.p.keys() == b.p.keys():
            return En(a.ty, a.d, {k: tuple(self.expand(st, x, y) for x, y in zip(a.p[k], b.p[k])) for k in a.p})
        return a
    def diff(self, a, b):
        """paths at which value b differs from a"""
        if same(a, b): return []
        if isinstance(a, St) and isinstance(b, St) and a.ty == b.ty and len(a.f) == len(b.f):
            return [(('f', i),) + p for i, (x, y) in enumerate(zip(a.f, b.f)) for p in self.diff(x, y)]
        if isinstance(a, En) and isinstance(b, En) and a.ty == b.ty and isinstance(a.d, int) and eqv(a.d, b.d) and len(a.p) == 1 and a.p.keys() == b.p.keys():
            return [(('v', k, i),) + p for k in a.p for i, (x, y) in enumerate(zip(a.p[k], b.p[k])) for p in self.diff(x, y)]
        if isinstance(a, Co) and isinstance(b, Co) and a.ty == b.ty and len(a.up) == len(b.up) and eqv(a.d, b.d):
            r = [(('f', i),) + p for i, (x, y) in enumerate(zip(a.up, b.up)) for p in self.diff(x, y)]
            for k in a.saved:
                if k in b.saved: r += [(('v',) + k,) + p for p in self.diff(a.saved[k], b.saved[k])]
            return r
        return [()]
    def havocv(self, st, v, ty, tag):
        """fresh value of the same type as v"""
        P = self.P
        if isinstance(v, It):
            ln = v.view.length(self, st)
            p = z3.Int('pos!%d' % uid()); st.add(p >= 0)
            if ln is not None: st.add(p <= zint(ln))
            return It(v.view, p)
        if isinstance(v, Sq):
            D = P.seqdt(v.ety)
            ln = z3.Int('len!%d' % uid()); st.add(z3.And(ln >= 0, ln < 2**62))
            es = P.sort(v.ety)
            return Sq(v.ety, ln, z3.Const('arr!%d' % uid(), z3.ArraySort(z3.IntSort(), es)), z3.Const('bag!%d' % uid(), z3.ArraySort(es, z3.IntSort())))
        if isinstance(v, Mp):
            s = z3.Int('size!%d' % uid()); st.add(z3.And(s >= 0, s < 2**62))
            return Mp(v.ty, v.kty, v.vty, z3.Const('map!%d' % uid(), v.arr.sort()), s, v.ordered)
        if isinstance(v, (St, En, Op)):
            try: return self.fresh(st, v.ty, 'hv')
            except Unsupported: return Un(v.ty, 'havoc')
        if is_leaf(v):
            if ty is not None and P.cls(ty) in ('int', 'nat', 'bool', 'str', 'bytes', 'prin', 'f64'): return self.fresh(st, ty, 'hv')
            z = zleaf(v)
            t = z3.Const('hv!%d' % uid(), z.sort())
            if ty is None and z3.is_int(z): st.add(t >= 0) if False else None
            return t
        return Un(ty, 'havoc')
    def type_at(self, root, path):
        ty = self.rootty.get(root); P = self.P
        if ty is None: return None
        try:
            for e in path:
                while P.cls(ty) == 'transp': ty = P.inner(ty)
                if e[0] == 'f': ty = P.fields(ty)[e[1]][1]
                elif e[0] == 'v': ty = P.fields(ty, e[1])[e[2]][1]
                else: return None
            while P.cls(ty) == 'transp': ty = P.inner(ty)
            return ty
        except Exception: return None
    def getp(self, st, root, path):
        return self.read(st, Rf(root, path))
    def cut(self, st0, run, name, trial):
        """verify an arbitrary iteration of a loop from a havocked state; returns exits from it.
        Loop invariant = type facts + automatically found candidates (Houdini) + the specification's world invariant."""
        P = self.P; spec = self.spec
        self.loopset = getattr(self, 'loopset', set()); self.loopset.add(name)
        if spec is not None: spec.loop_entry(self, st0, name)
        mod = set()
        def collect(base, backs):
            r = set()
            for b in backs:
                for root, v in base.store.items():
                    if root in b.store:
                        w = b.store[root]
                        if w is v: continue
                        for p in self.diff(v, w): r.add((root, p))
                    # a local that is dead at the back edge
            return r
        for b in trial['back']:
            for root in list(st0.store):
                if root in b.store and b.store[root] is not st0.store[root]: st0.store[root] = self.expand(st0, st0.store[root], b.store[root])
        new = collect(st0, trial['back'])
        logs = spec is not None and spec.loop_events(st0, trial['back'])
        codec = getattr(spec, 'codec', False); nonlinear = set()
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12: raise Unsupported('loop modification set does not stabilise: ' + name)
            if new is not True: mod |= new
            # drop paths subsumed by a prefix
            mod = {(r, p) for (r, p) in mod if not any(r == r2 and len(q) < len(p) and p[:len(q)] == q for r2, q in mod)}
            sh = st0.fork()
            hv = {}
            lin = {k: v for k, v in (spec.linear(self, st0, trial['back'], mod) if codec else {}).items() if k not in nonlinear}
            for (root, p) in sorted(mod, key=lambda k: (k in lin, str(k))):
                old = self.getp(st0, root, p)
                if (root, p) in lin:
                    # a counter that follows the iterator
                    bk, c = lin[(root, p)]; nv = simp(zint(old) + c * (zint(hv[bk][1].pos) - zint(hv[bk][0].pos)))
                else: nv = self.havocv(sh, old, self.type_at(root, p), name)
                hv[(root, p)] = (old, nv)
                self.write(sh, Rf(root, p), nv)
            world = spec is not None and (logs or spec.is_world_mod(self, mod))
            if spec is not None: spec.logging = logs; spec.loop_head(self, st0, sh, mod, hv, name, world)
            cand = self.candidates(st0, sh, hv)
            if spec is not None: cand += spec.candidates(self, st0, sh, hv, name)
            # initialisation
            n0 = len(cand); memo = None
            if getattr(spec, 'memo_cands', False):
                # candidates that failed in an earlier run of this loop are not tried again (dropping one is always sound)
                memo = self.__dict__.setdefault('cmemo', {}).setdefault((name, tuple(sorted(map(str, hv))), n0), set())
                for i, c in enumerate(cand):
                    try: c.ix = i
                    except AttributeError: pass
                cand = [c for c in cand if getattr(c, 'ix', None) not in memo]
            cand, failed = split(cand, lambda c: self.prove_light(st0, c(self, st0)))
            if memo is not None: memo.update(c.ix for c in failed if hasattr(c, 'ix'))
            if DBG: print('LOOP', name, 'mod', [(r, p, type(hv[(r,p)][1]).__name__) for r, p in sorted(mod,key=str)][:12], 'cands', n0, 'init', len(cand), [getattr(c, 'nm', None) for c in cand if hasattr(c, 'nm')])
            while True:
                s = sh.fork()
                s.g['cut'] = s.g.get('cut', ()) + (name,)
                for c in cand: 
                    f = c(self, s)
                    s.add(f)
                head = s.fork()
                nobl = spec.mark() if spec is not None else 0
                save = (self.symnext, self.hasnext)
                o = run(s)
                self.symnext, self.hasnext = save
                backs = o['back']
                new = collect(head, backs) - mod
                new = {(r, p) for (r, p) in new if not any(r == r2 and p[:len(q)] == q for r2, q in mod)}
                if new: break
                if spec is not None and not world and spec.loop_events(head, backs): logs = new = True; break
                bad = []
                for c in cand:
                    ok = all(self.prove_light(b, c(self, b)) for b in backs)
                    if not ok: bad.append(c)
                if not bad: break
                if memo is not None: memo.update(c.ix for c in bad if hasattr(c, 'ix'))
                cand = [c for c in cand if c not in bad]
                if DBG: print('   dropped', len(bad), [getattr(c, 'nm', None) for c in bad if hasattr(c, 'nm')])
                if spec is not None: spec.rollback(nobl)
            if not new and lin:
                for k, (bk, c) in lin.items():
                    for b in backs:
                        if not self.entails(b, zint(self.getp(b, *k)) == zint(hv[k][0]) + c * (zint(self.getp(b, *bk).pos) - zint(hv[bk][0].pos))): nonlinear.add(k); new = True
            if not new: break
            if spec is not None: spec.rollback(nobl)
        grown = spec.grow(self, st0, head, backs, hv) if codec else None
        if grown:
            spec.rollback(nobl); head.g['streams'] = grown
            o = run(head.fork()); backs = o['back']
        # content of sequences built by one push per iteration
        closed = self.closed_forms(st0, head, backs, hv)
        closed += self.map_forms(st0, head, backs, hv)
        closed += self.path_forms(st0, head, backs, hv)
        if closed and (not world or getattr(spec, 'compound', False)):
            # re-run with the closed forms assumed at the head (they are inductive by construction)
            if spec is not None: spec.rollback(nobl)
            s = head.fork()
            for f in closed: s.add(f)
            save = (self.symnext, self.hasnext)
            head = s.fork()
            o = run(s)
            self.symnext, self.hasnext = save
            backs = o['back']
        if spec is not None:
            for b in backs: spec.loop_back(self, head, b, mod, hv, name, world)
        for (_, s) in o['exit']: s.g['cut'] = s.g['cut'][:-1]
        for s in o['ret']: s.g['cut'] = s.g['cut'][:-1]
        return {'ret': o['ret'], 'exit': o['exit']}
    def prove_light(self, st, f):
        if f is True: return True
        if f is False: return self.entails(st, f, 1500)
        if has_quant(f): return self.provef(st, f, 2000)
        if self.entails(st, f, 1500): return True
        return getattr(self.spec, 'compound', False) and self.provef(st, f, 1000)
    def provef(self, st, f, timeout):
        """full entailment, quantifiers included (sound: only True when proved)"""
        s = z3.Solver(); s.set('timeout', timeout); s.set('smt.mbqi', False)
        seen = set()
        for c in st.pc:
            if c.get_id() not in seen: seen.add(c.get_id()); s.add(c)
        for a in CONSTS.axioms(): s.add(a)
        s.add(z3.Not(zbool(f)))
        return watched(s, timeout) == z3.unsat
    def candidates(self, st0, sh, hv):
        """candidate invariants relating havocked values to their entry values"""
        out = []
        its = [(k, o, n) for k, (o, n) in hv.items() if isinstance(o, It)]
        sqs = [(k, o, n) for k, (o, n) in hv.items() if isinstance(o, Sq)]
        ints = [(k, o, n) for k, (o, n) in hv.items() if is_leaf(o) and not isinstance(o, bool) and (isinstance(o, int) or z3.is_int(o))]
        def pos(k, o): return lambda ex, s: zint(ex.getp(s, *k).pos) - zint(o.pos)
        def ln(k, o): return lambda ex, s: zint(ex.seq_len(s, ex.getp(s, *k))) - zint(ex.seq_len(s, o))
        def iv(k, o): return lambda ex, s: zint(ex.getp(s, *k)) - zint(o)
        def eq(f, g):
            def c(ex, s):
                try: return simp(f(ex, s) == g(ex, s))
                except (Unsupported, AttributeError): return False
            return c
        def ge(f):
            def c(ex, s):
                try: return simp(f(ex, s) >= 0)
                except (Unsupported, AttributeError): return False
            return c
        def le(f, g):
            def c(ex, s):
                try: return simp(f(ex, s) <= g(ex, s))
                except (Unsupported, AttributeError): return False
            return c
        P = [pos(k, o) for k, o, _ in its]
        for f in P: out.append(ge(f))
        for k, o, _ in sqs:
            l = ln(k, o); out.append(ge(l))
            for f in P: out.append(eq(l, f)); out.append(le(l, f))
        for k, o, _ in ints:
            x = iv(k, o); out.append(ge(x))
            for f in P: out.append(eq(x, f)); out.append(le(x, f))
            for k2, o2, _ in sqs: out.append(eq(x, ln(k2, o2)))
        for a in range(len(P)):
            for b in range(a): out.append(eq(P[a], P[b]))
        for a in range(len(ints)):
            for b in range(a): out.append(eq(iv(*ints[a][:2]), iv(*ints[b][:2])))
        for k, (o, n) in hv.items():
            if isinstance(o, Mp):
                def sz(ex, s, k=k, o=o): return zint(ex.getp(s, *k).size) - zint(o.size)
                out.append(le(sz, lambda ex, s: z3.IntVal(0))) if not P else None
                for f in P: out.append(eq(sz, f)); out.append(le(sz, f))
        return out
    def map_forms(self, st0, head, backs, hv):
        """maps filled by the loop: which keys it touches, and the content as a fold over the positions.
        Every returned fact is about the loop head and has been shown to be preserved by the iteration."""
        its = [(k, o, n) for k, (o, n) in hv.items() if isinstance(o, It)]
        mps = [(k, o, n) for k, (o, n) in hv.items() if isinstance(o, Mp)]
        if not mps or not backs or len(backs) > 8: return []
        P = self.P
        base = {c.get_id() for f in st0.pc for c in consts_of(f)} | {c.get_id() for v in st0.store.values() for c in consts_of_value(v)} | {c.get_id() for c in all_literals()}
        pos = [n.pos for _, _, n in its if isinstance(n.pos, z3.ExprRef)]
        facts = []
        def closed(e, extra=()):
            ok = set(base) | {x.get_id() for x in extra}
            return all(c.get_id() in ok or str(c).startswith('Z_') for c in consts_of(e))
        def tryfact(f, goals, side=()):
            """f holds at the head if it holds initially (checked by the caller) and at every back edge"""
            for b, g in goals:
                bb = b.fork()
                for x in facts: bb.add(x)
                bb.add(f)
                for x in side: bb.add(x)
                if not self.provef(bb, g, 3000): return False
            return True
        for k, o, n in mps:
            try: qs = [(b, self.getp(b, *k)) for b in backs]
            except Unsupported: continue
            if not all(isinstance(q, Mp) for _, q in qs): continue
            keys = {}
            for b, q in qs: stores(q.arr, n.arr, keys)
            ks = o.arr.sort().domain(); x = z3.Const('q!%d' % uid(), ks)
            cks = [e for e in keys.values() if closed(e)]
            if DBG: print('   map', k, 'keys', [str(e)[:200] for e in keys.values()], len(cks), 'backs', len(backs))
            if cks and len(cks) == len(keys) and len(cks) <= 3:
                mk = lambda arr: ForAll([x], z3.Or(*[x == e for e in cks], z3.Select(arr, x) == z3.Select(o.arr, x)), patterns=[z3.Select(arr, x)])
                f = mk(n.arr)
                if tryfact(f, [(b, ForAll([x], z3.Or(*[x == e for e in cks], z3.Select(q.arr, x) == z3.Select(o.arr, x)))) for b, q in qs]): facts.append(f)
                if DBG: print('   frame', len(facts))
            # content
            for ik, io, inn in its:
                p = inn.pos
                if not isinstance(p, z3.ExprRef): continue
                p0 = zint(io.pos)
                # (a) the map itself
                mk2 = (str(k), str(ik), tuple(sorted(map(str, hv)))); memo = self.__dict__.setdefault('fmemo', set())
                if getattr(self.spec, 'memo_cands', False) and mk2 in memo: continue
                r = self.fold_fact(st0, n.arr, o.arr, [(b, q.arr, zint(self.getp(b, *ik).pos)) for b, q in qs], p, p0, closed, tryfact)
                if not r: memo.add(mk2)
                if DBG: print('   foldA', bool(r))
                if r: facts += r; break
                # (b) a map inside the record stored under one fixed key
                if len(cks) == 1 and len(keys) == 1:
                    kk = cks[0]; D = P.optdt(n.vty); vt = n.vty
                    while P.cls(vt) == 'transp': vt = P.inner(vt)
                    if P.cls(vt) != 'struct' or self.is_u(vt): continue
                    done = False
                    for fi, (fn, ft) in enumerate(P.fields(vt)):
                        if P.cls(ft) != 'map': continue
                        kt2, vt2 = P.mapkv(ft); MD = P.mapdt(kt2, vt2); O2 = P.optdt(vt2); rec = P.sort(vt)
                        E0 = z3.K(MD.accessor(0, 0).range().domain(), O2.none)
                        view = lambda arr: z3.If(D.is_some(z3.Select(arr, kk)), MD.accessor(0, 0)(rec.accessor(0, fi)(D.val(z3.Select(arr, kk)))), E0)
                        goals = [(b, simp(view(q.arr)), zint(self.getp(b, *ik).pos)) for b, q in qs]
                        f1 = z3.If(p == p0, z3.Select(n.arr, kk) == z3.Select(o.arr, kk), D.is_some(z3.Select(n.arr, kk)))
                        if tryfact(f1, [(b, z3.If(pb == p0, z3.Select(q.arr, kk) == z3.Select(o.arr, kk), D.is_some(z3.Select(q.arr, kk)))) for (b, q), (_, _, pb) in zip(qs, goals)]): facts.append(f1)
                        r = self.fold_fact(st0, simp(view(n.arr)), simp(view(o.arr)), goals, p, p0, closed, tryfact)
                        if DBG: print('   foldB', bool(r))
                        if r: facts += r; done = True; break
                    if done: break
        return facts
    def fold_fact(self, st0, nowarr, initarr, backs, p, p0, closed, tryfact):
        """nowarr == fold of the stores made at positions p0..p-1 over initarr"""
        cand = {}
        for b, arr, pb in backs: innerstores(arr, cand)
        cs = [(k, v) for k, v in cand.values() if k.sort() == nowarr.sort().domain() and v.sort() == nowarr.sort().range() and closed(k, [p]) and closed(v, [p]) and any(c.eq(p) for c in consts_of(k))]
        for kp, vp in cs[:3]:
            so = nowarr.sort(); u = uid()
            F = z3.Function('fold!%d' % u, z3.IntSort(), so); w = z3.Function('foldw!%d' % u, z3.IntSort(), so.domain(), z3.IntSort())
            m = z3.Int('m!%d' % u); j = z3.Int('j!%d' % u); y = z3.Const('y!%d' % u, so.domain())
            sub = lambda e, t: z3.substitute(e, (p, t))
            step = F(p + 1) == z3.Store(F(p), kp, vp)
            ww = w(m, y)
            ax = [F(p0) == initarr, step,
                  ForAll([m, y], z3.Implies(m >= p0, z3.Or(z3.And(ww == -1, z3.Select(F(m), y) == z3.Select(initarr, y)), z3.And(ww >= p0, ww < m, sub(kp, ww) == y, z3.Select(F(m), y) == sub(vp, ww)))), patterns=[z3.Select(F(m), y)])]
            trs = selects(kp, p)
            bp = [z3.MultiPattern(ww, sub(t, j)) for t in trs] or ()
            ax.append(ForAll([m, y, j], z3.Implies(z3.And(m >= p0, j >= p0, j < m, sub(kp, j) == y), ww >= j), patterns=bp))
            f = nowarr == F(p)
            if tryfact(f, [(b, arr == F(simp(pb))) for b, arr, pb in backs], ax[:2]): return ax[:1] + ax[2:] + [f]
        return None
    def path_forms(self, st0, head, backs, hv):
        """what every completed iteration has established about its position (checks that leave the loop when they fail)"""
        its = [(k, o, n) for k, (o, n) in hv.items() if isinstance(o, It)]
        if not backs or len(backs) > 4: return []
        base = {c.get_id() for f in st0.pc for c in consts_of(f)} | {c.get_id() for v in st0.store.values() for c in consts_of_value(v)} | {c.get_id() for c in all_literals()}
        out = []
        for k, o, n in its:
            p = n.pos
            if not isinstance(p, z3.ExprRef): continue
            ok = base | {p.get_id()}
            alts = []
            for b in backs:
                m = len(head.pc)
                if [x.get_id() for x in b.pc[:m]] != [x.get_id() for x in head.pc] or not eqv(simp(zint(self.getp(b, *k).pos) - p), 1): return []
                cs = [c for c in b.pc[m:] if not has_quant(c) and all(x.get_id() in ok or str(x).startswith('Z_') for x in consts_of(c))]
                alts.append(And(*cs))
            C = Or(*alts)
            if C is True or C is False: continue
            C = zbool(C)
            trs = selects(C, p)
            if not trs: continue
            j = z3.Int('j!%d' % uid())
            out.append(ForAll([j], z3.Implies(z3.And(j >= zint(o.pos), j < p), z3.substitute(C, (p, j))), patterns=[z3.substitute(t, (p, j)) for t in trs[:1]]))
        return out
    def closed_forms(self, st0, head, backs, hv):
        """for sequences that grow by exactly one pushed value per iteration, the pushed value as a function of the position"""
        its = [(k, o, n) for k, (o, n) in hv.items() if isinstance(o, It)]
        sqs = [(k, o, n) for k, (o, n) in hv.items() if isinstance(o, Sq)]
        if len(its) != 1 or not sqs or not backs: return []
        (ik, io, inn) = its[0]
        p = inn.pos
        if not isinstance(p, z3.ExprRef): return []
        if len(backs) > 1:
            backs = self.merge([b.fork() for b in backs])
            if len(backs) != 1: return []
        b = backs[0]
        hvconsts = set()
        for k, (o, n) in hv.items():
            for c in (consts_of_value(n.pos) if isinstance(n, It) else consts_of_value(n)): hvconsts.add(c.get_id())
        hvconsts.discard(p.get_id())
        base = set()
        for f in head.pc:
            for c in consts_of(f): base.add(c.get_id())
        for v in head.store.values():
            for c in consts_of_value(v): base.add(c.get_id())
        out = []
        for k, o, n in sqs:
            q = self.getp(b, *k)
            if not (isinstance(q, Sq) and q.arr is not None and n.arr is not None and q.arr.eq(n.arr) and len(q.tail) == 1): continue
            try: e = self.enc(b, q.ety, q.tail[0])
            except Unsupported: continue
            cs = consts_of(e)
            ids = {c.get_id() for c in cs}
            known = {c.get_id() for c in all_literals()}
            if DBG: print('   closed form', k, str(e)[:1500], [str(c) for c in cs if c.get_id() in hvconsts or not (c.get_id() in base or c.get_id() in known)])
            if ids & hvconsts: continue
            if not all(i in base or i in known or str(cn).startswith('Z_') for cn, i in zip(cs, [c.get_id() for c in cs])): continue
            j = z3.Int('j!%d' % uid())
            l0, a0, _ = self.seq_term(head, o)
            ee = z3.substitute(e, (p, j - zint(l0) + zint(io.pos)))
            na = n.arr
            out.append(ForAll([j], z3.Implies(z3.And(j >= zint(l0), j < n.bl), z3.Select(na, j) == ee), patterns=[z3.Select(na, j)]))
            if not (isinstance(l0, int) and l0 == 0):
                out.append(ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(l0)), z3.Select(na, j) == z3.Select(a0, j)), patterns=[z3.Select(na, j)]))
            out.append(n.bl - zint(l0) == p - zint(io.pos))
        return out

def split(l, f):
    a, b = [], []
    for x in l: (a if f(x) else b).append(x)
    return a, b
def stores(arr, base, out):
    """keys at which arr was stored over base"""
    if arr.eq(base): return
    if z3.is_store(arr): out[arr.arg(1).get_id()] = arr.arg(1); stores(arr.arg(0), base, out); return
    if z3.is_app_of(arr, z3.Z3_OP_ITE): stores(arr.arg(1), base, out); stores(arr.arg(2), base, out); return
    z = z3.FreshConst(arr.sort()); out[z.get_id()] = z       # unknown
def innerstores(e, out, depth=0):
    if depth > 60 or len(out) > 40: return
    seen = set(); work = [e]
    while work:
        x = work.pop()
        if x.get_id() in seen or z3.is_quantifier(x): continue
        seen.add(x.get_id())
        if z3.is_store(x): out[x.get_id()] = (x.arg(1), x.arg(2))
        work.extend(x.children())
def selects(e, p):
    """array reads of e at position p"""
    out = []; seen = set(); work = [e]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_select(x) and x.arg(1).eq(p): out.append(x)
        work.extend(x.children())
    return out
def all_literals():
    return list(CONSTS.strs.values()) + list(CONSTS.bytes.values()) + [ANON, ZERO32]
_cm = {}
def bigger(e, n):
    seen = set(); work = [e]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if len(seen) > n or z3.is_quantifier(x): return True
        work.extend(x.children())
    return False
def consts_of(e):
    k = e.get_id()
    r = _cm.get(k)
    if r is not None: return r[0]
    out = {}; seen = set(); work = [e]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): work.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.get_id()] = x
        work.extend(x.children())
    r = list(out.values())
    _cm[k] = (r, e)
    return r
def consts_of_value(v):
    if isinstance(v, z3.ExprRef): return consts_of(v)
    if isinstance(v, (int, bool)) or v is None: return []
    if isinstance(v, St): return [c for x in v.f for c in consts_of_value(x)]
    if isinstance(v, En): return consts_of_value(v.d) + [c for xs in v.p.values() for x in xs for c in consts_of_value(x)]
    if isinstance(v, Sq): return consts_of_value(v.bl) + (consts_of(v.arr) if v.arr is not None else []) + (consts_of(v.bag) if v.bag is not None else []) + [c for x in v.tail for c in consts_of_value(x)]
    if isinstance(v, Mp): return consts_of(v.arr) + consts_of_value(v.size)
    if isinstance(v, Op): return consts_of(v.t)
    if isinstance(v, It): return consts_of_value(v.pos) + v.view.consts()
    if isinstance(v, Co): return [c for x in v.up for c in consts_of_value(x)] + [c for x in v.saved.values() for c in consts_of_value(x)]
    if isinstance(v, Lib): return [c for x in v.d.values() if isinstance(x, (V, z3.ExprRef)) for c in consts_of_value(x)]
    return []
def samg(a, b):
    if a is b: return True
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(samg(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict): return a.keys() == b.keys() and all(samg(a[k], b[k]) for k in a)
    if isinstance(a, V) and isinstance(b, V): return same(a, b)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef): return eqv(a, b)
    return a == b
