"""minimal specification object used for engine bring-up"""
from lib_std import *
from core import *
class Spec0:
    def __init__(s): s.obl = []
    def tls_init(s, ex, st, root, key):
        P = ex.P; inst, name = key
        import re
        m = re.match(r'std::thread::LocalKey<(.*)>$', name)
        ty = P.tyn(m.group(1))
        ex.rootty[root] = ty
        v = ex.fresh(st, ty, 'W')
        if P.cls(strip(ex, ty)) == 'enum':
            v = ex.force(st, v)
            st.add(v.d == 1); v = En(v.ty, 1, {1: v.p[1]})
        st.store[root] = v
    def stable_init(s, ex, st, c): return ex.fresh(st, c.dt, 'stable')
    def decode(s, ex, st, ty):
        v = ex.fresh(st, ty, 'arg'); st.g['arg'] = v; return v
    def loop_entry(s, ex, st, name): pass
    def is_world_mod(s, ex, mod): return any(r[0] == 'tls' for r, p in mod)
    def loop_head(s, ex, st0, sh, mod, hv, name, world): pass
    def candidates(s, *a): return []
    def mark(s): return 0
    def rollback(s, n): pass
    def loop_back(s, ex, head, b, mod, hv, name, world): pass
    def restored(s, ex, st, ty): return ex.fresh(st, ty, 'restored')
    def await_(s, ex, st, v, c):
        P = ex.P
        rt = P.fields(c.dt, 0)[0][1]
        return [(st, En(c.dt, 0, {0: (ex.fresh(st, rt, 'reply'),)}))]
    def loop_events(s, *a): return False
