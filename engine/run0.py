import sys, time
import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *; from loops import LoopMixin; import lib_std, lib_ic
from lib_std import Models
from spec0 import Spec0
import traceback
class Engine(LoopMixin, Ex): pass
P = Prog('/tmp/mir/core_nft.mir.json')
names = sys.argv[1:]
if names == ['all']: names = sorted(P.exports)
ok = 0
for nm in names:
    k = nm if nm in P.exports else next(e for e in P.exports if e.split('.')[-1] == nm)
    ex = Engine(P, Models()); ex.spec = Spec0()
    st = State(); st.g.update(caller=z3.Const('caller', Prin), now=z3.Int('now'), events=(), cut=())
    st.add(z3.And(st.g['now'] >= 0, st.g['now'] < 2**64))
    t = time.time(); ex.deadline = t + 120
    try:
        rs = ex.call_inst(st, P.exports[k], [])
        print('OK  ', k, len(rs), 'paths', round(time.time() - t, 1), 's', ex.nsolve, 'queries'); ok += 1
    except Unsupported as u:
        print('UNS ', k, str(u)[:300], '@', getattr(u, 'where', ''), round(time.time()-t,1))
    except Exception as e:
        print('EXC ', k, repr(e)[:300], round(time.time()-t,1))
        if len(names) == 1: traceback.print_exc()
print(ok, 'of', len(names))
