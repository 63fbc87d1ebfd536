"""Assumed contracts of library functions used by the index canister."""
import z3
from vals import *
from core import *
from views import *
from lib_std import *
import lib_std
@model('std::str::FromStr::from_str', 'core::str::<impl str>::parse', 'candid::Principal::from_text', 'ic_principal::Principal::from_text')
def m_fromstr(ex, st, c):
    P = ex.P
    if lib_std.local_body(ex, c): return NotImplemented
    ty = P.fields(c.dt, 0)[0][1]; s = zleaf(deref(ex, st, c.args[0]))
    ety = P.fields(c.dt, 1)[0][1]
    if P.cls(ty) == 'prin':
        okk = z3.Function('principal_text_ok', Str, z3.BoolSort())(s); v = z3.Function('principal_of_text', Str, Prin)(s)
    elif P.cls(ty) == 'nat':
        okk = z3.Function('nat_text_ok', Str, z3.BoolSort())(s); v = z3.Function('nat_of_text', Str, z3.IntSort())(s); st.add(v >= 0)
    else: raise Unsupported('parse ' + P.name(ty))
    good = st.fork(); good.add(okk); bad = st; bad.add(z3.Not(okk))
    return [(good, ok(c.dt, v)), (bad, err(c.dt, ex.fresh(bad, ety, 'perr')))]

@model('bity_ic_icrc3_c2c_client::icrc3_get_blocks')
def m_ledgerblocks(ex, st, c): return Lib('ext', name='ledger_blocks', args=tuple(c.args), tys=tuple(c.at))
@model('bity_ic_icrc3_archive_c2c_client::icrc3_get_blocks')
def m_archiveblocks(ex, st, c): return Lib('ext', name='archive_blocks', args=tuple(c.args), tys=tuple(c.at))
