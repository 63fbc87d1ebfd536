"""Discharging of proof obligations."""
import time, subprocess, tempfile, os, re
import z3
from vals import *
from core import *
def conj(g):
    """split a goal into independently provable parts"""
    if z3.is_and(g): return [x for c in g.children() for x in conj(c)]
    if z3.is_implies(g): return [z3.Implies(g.arg(0), x) for x in conj(g.arg(1))]
    if z3.is_or(g):
        cs = [(i, c) for i, c in enumerate(g.children()) if z3.is_and(c)]
        if len(cs) == 1:
            i, c = cs[0]; rest = [x for k, x in enumerate(g.children()) if k != i]
            return [z3.Or(*rest, x) for x in c.children()]
    return [g]
def solver(timeout, seed=0, mbqi=False, **kw):
    s = z3.Solver(); s.set('timeout', timeout); s.set('smt.mbqi', mbqi)
    if seed: s.set('smt.random_seed', seed)
    for k, v in kw.items(): s.set(k.replace('__', '.'), v)
    return s
def dedup(fs):
    seen = set(); out = []
    for f in fs:
        if f.get_id() in seen or z3.is_true(f): continue
        seen.add(f.get_id()); out.append(f)
    return out
TICK = [None, 0, ()]        # called before every solver call; number of calls so far; calls known not to return
END = [None]        # no solver call outlives this time
def check(pc, g, timeout, **kw):
    if END[0]:
        left = int((END[0] - time.time()) * 1000)
        if left <= 0: return 'unknown'
        timeout = min(timeout, left)
    TICK[1] += 1
    if TICK[1] in TICK[2]: return 'unknown'
    if TICK[0]: TICK[0](timeout)
    s = solver(timeout, **kw)
    for c in pc: s.add(c)
    s.add(z3.Not(g))
    r = s.check()
    return 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown'
WIT = {}
MENTION = z3.Function('mentioned', z3.IntSort(), z3.BoolSort())
def declnames(fs):
    out = set(); seen = set(); work = [c for c in fs if isinstance(c, z3.ExprRef)]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): work.append(x.body()); continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        work.extend(x.children())
    return out
def witnesses(g, pc):
    """replace existentials of the goal by their instances at the positions the library contracts name (a stronger goal); also returns facts that keep these positions in sight"""
    ex = {}; more = []; seen = set(); work = [g]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if x.is_exists() and x.num_vars() == 1 and x.var_name(0) in WIT: ex[x.get_id()] = x
            continue
        work.extend(x.children())
    if not ex: return g, []
    names = declnames(pc); subs = []
    for x in ex.values():
        key, kh, hs = WIT[x.var_name(0)]
        c = [f(key) for n, f in kh if key is not None and n in names and f.domain(0) == key.sort() and f.range() == z3.IntSort()]
        for n, f in hs:
            if n in names and len(c) < 40: c += [z3.simplify(f(h)) for h in c]
        c = dedup(c)
        for h in c: more.append(MENTION(h))          # keeps the candidate among the solver's ground terms
        if c: subs.append((x, z3.Or(*[z3.substitute_vars(x.body(), h) for h in c])))
    return (z3.substitute(g, *subs) if subs else g), more
def flags(fs):
    """ghost path flags, in order of introduction"""
    out = {}; seen = set(); work = list(fs)
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): work.append(x.body()); continue
        if z3.is_const(x) and z3.is_bool(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('path!'): out[int(x.decl().name()[5:])] = x
        work.extend(x.children())
    return [out[k] for k in sorted(out)]
def arrayite(g):
    """condition of a choice between two lists or maps in the goal"""
    seen = set(); work = [g]
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): work.append(x.body()); continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and (z3.is_array(x) or any(z3.is_select(y) for y in x.children()[1:])) and not hasvar(x.arg(0)): return x.arg(0)
        work.extend(x.children())
    return None
def hasvar(e):
    seen = set(); work = [e]
    while work:
        x = work.pop()
        if z3.is_var(x): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id()); work.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return False
def flat_facts(pc):
    out = []
    for c in pc:
        c = z3.simplify(c)
        if z3.is_true(c): continue
        if z3.is_and(c): out += c.children()
        else: out.append(c)
    return dedup(out)
def bycases(pc, g, timeout, budget=64):
    """prove g by splitting on the path flags"""
    work = [(pc, g)]; n = 0
    while work:
        pc, g = work.pop(); n += 1
        if n > budget: return False
        if any(z3.is_false(c) for c in pc): continue
        b = None; fl = flags([g])
        if fl: b = fl[-1]
        else:
            b = arrayite(g)
            if b is None and flags(pc):
                # flags that no longer matter to the goal
                wg, more = witnesses(g, pc)
                if check(pc + more, wg, min(timeout, 1500)) == 'proved': continue
                b = flags(pc)[-1]
        if b is None:
            if check(pc, z3.BoolVal(False), 300) == 'proved': continue
            wg, more = witnesses(g, pc)
            for p in conj(wg):
                if not any(check(pc + more, p, timeout, seed=sd, **kw) == 'proved' for sd, kw in ((0, {}), (7, {}), (13, {'smt__relevancy': 0}), (5, {'smt__arith__solver': 2}))): return False
            continue
        for v in (True, False):
            sub = (b, z3.BoolVal(v))
            pc2 = ([] if z3.is_const(b) else [b if v else z3.Not(b)]) + flat_facts([z3.substitute(c, sub) for c in pc]); g2 = z3.simplify(z3.substitute(g, sub))
            if z3.is_true(g2): continue
            work.append((pc2, g2))
    return True
def discharge(o, timeout=8000, end=None):
    """'proved' | 'unknown' ; o gains 'solver'"""
    if o['triv']: o['solver'] = 'simplifier'; return 'proved'
    END[0] = end
    pc = dedup(list(o['pc']) + list(CONSTS.axioms()))
    g0 = zbool(o['goal']); g, more = witnesses(g0, pc); pc0 = pc; pc = pc + more
    t = min(timeout, 3000); hasex = g is not g0
    if check(pc, g, min(t, 1500) if hasex or flags(pc) else t) == 'proved': o['solver'] = 'z3'; return 'proved'
    o['solver'] = 'z3 portfolio'
    if hasex:
        if bycases(pc0, g0, t): return 'proved'
        if timeout > t and bycases(pc0, g0, timeout): return 'proved'
        o['part'] = g0
        return 'unknown'
    parts = conj(g)
    for p in parts:
        if len(parts) > 1 and check(pc, p, t) == 'proved': continue
        fl = flags([p]) or flags(pc)
        if fl and bycases(pc, p, t): continue
        for seed, tm, kw in ((7, timeout, {}), (13, timeout, {'smt__relevancy': 0}), (5, timeout, {'smt__arith__solver': 2})):
            if check(pc, p, tm, seed=seed, **kw) == 'proved': break
        else:
            o['part'] = p
            return 'unknown'
    return 'proved'
