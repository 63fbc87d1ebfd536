"""Vacuity check: contexts of obligations that are contradictory (dead paths, or an inconsistent contract)."""
import sys, time, re
import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ProcessPoolExecutor
def work(path, k):
    import run1, solve
    from core import Prog
    P = Prog(path)
    try: ex, sp = run1.run_export(P, k, None)
    except Exception as u: return k, 'UNS ' + str(u)[:80], 0, []
    seen = {}; bad = []
    for o in sp.obls:
        key = tuple(c.get_id() for c in o['pc'])
        if key not in seen:
            seen[key] = solve.check(solve.dedup(list(o['pc']) + list(run1.CONSTS.axioms())), run1.z3.BoolVal(False), 1500) == 'proved'
            if seen[key]: bad.append(o['where'][-60:])
    return k, len(seen), sum(seen.values()), bad
if __name__ == '__main__':
    from core import Prog
    path = '/tmp/mir/core_nft.mir.json'; P = Prog(path)
    ks = sorted(P.exports) if sys.argv[1] == 'all' else [e for e in P.exports if e.split('.')[-1] in sys.argv[1].split(',')]
    with ProcessPoolExecutor(8) as pool:
        for k, n, b, bad in pool.map(work, [path] * len(ks), ks): print('%-58s contexts %s contradictory %s %s' % (k, n, b, sorted(set(bad))[:6]), flush=True)
