"""Assumed contracts of library functions used by the command line tool: files, hashing, agent calls."""
import z3
from vals import *
from core import *
from lib_std import *
from views import View
import lib_std
CONTENT = z3.Function('FILE', Str, Bytes)           # content of the file at a path (does not change while the tool runs)
SHA = z3.Function('SHA256', Bytes, Bytes)
HEX = z3.Function('HEX', Bytes, Str)
SUB = z3.Function('bsub', Bytes, z3.IntSort(), z3.IntSort(), Bytes)
def fork(ex, st, c, good, ety=None):
    """either the given result or some error, with nothing else done"""
    no = st.fork(); e = ex.fresh(no, ex.P.fields(c.dt, 1)[0][1], 'ioerr')
    rs = good(st)
    return rs + [(no, err(c.dt, e))]
def pathof(ex, st, v):
    v = deref(ex, st, v)
    if not (is_leaf(v) and zleaf(v).sort() == Str): raise Unsupported('path %r' % (v,))
    return zleaf(v)
def pos(k): return ('gh', 'fpos', k)
def handle(ex, st, v):
    f = deref(ex, st, v)
    if not (isinstance(f, Lib) and f.kind == 'file'): raise Unsupported('file %r' % (f,))
    return f
def content(st, path):
    F = CONTENT(path); st.add(z3.And(blen(F) >= 0, blen(F) < 2**62)); st.add(SUB(F, 0, blen(F)) == F); return F
@model('std::fs::File::open')
def m_open(ex, st, c):
    p = pathof(ex, st, c.args[0])
    def good(s):
        k = uid(); s.store[pos(k)] = 0; ex.rootty[pos(k)] = ex.P.tyn('u64'); content(s, p)
        return [(s, ok(c.dt, Lib('file', path=p, k=k)))]
    return fork(ex, st, c, good)
@model('std::fs::read')
def m_fsread(ex, st, c):
    p = pathof(ex, st, c.args[0])
    return fork(ex, st, c, lambda s: [(s, ok(c.dt, content(s, p)))])
@model('std::fs::File::metadata', 'std::fs::metadata')
def m_meta(ex, st, c):
    v = deref(ex, st, c.args[0]); p = v.d['path'] if isinstance(v, Lib) and v.kind == 'file' else pathof(ex, st, v)
    return fork(ex, st, c, lambda s: [(s, ok(c.dt, Lib('filemeta', path=p)))])
@model('std::fs::Metadata::len')
def m_mlen(ex, st, c):
    v = deref(ex, st, c.args[0])
    if not (isinstance(v, Lib) and v.kind == 'filemeta'): raise Unsupported('metadata')
    return blen(content(st, v.d['path']))
def fetch(ex, st, f, n):
    """the next n bytes at the position of f"""
    r = pos(f.d['k']); p = zint(st.store[r]); F = content(st, f.d['path'])
    t = SUB(F, p, simp(p + zint(n))); st.add(blen(t) == zint(n)); st.store[r] = simp(p + zint(n))
    return t
def left(ex, st, f):
    F = content(st, f.d['path']); p = zint(st.store[pos(f.d['k'])]); return z3.If(p <= blen(F), blen(F) - p, 0)
def source(ex, st, v):
    """(file, bytes that may still be taken from it)"""
    v = deref(ex, st, v)
    if isinstance(v, Lib) and v.kind == 'take': f, m = source(ex, st, v.d['f']); l = zint(v.d['n']); return f, z3.If(l < m, l, m)
    if isinstance(v, Lib) and v.kind == 'bufreader': return source(ex, st, v.d['f'])
    f = handle(ex, st, v); return f, left(ex, st, f)
@model('std::io::Read::read_to_end')
def m_rte(ex, st, c):
    if lib_std.local_body(ex, c): return NotImplemented
    def good(s):
        f, m = source(ex, s, c.args[0]); n = z3.Int('n!%d' % uid()); s.add(n == m)
        b = deref_rf(ex, s, c.args[1]); old = ex.read(s, b); whole = eqv(zint(s.store[pos(f.d['k'])]), 0) and isinstance(deref(ex, s, c.args[0]), Lib) and deref(ex, s, c.args[0]).kind == 'file'
        t = content(s, f.d['path']) if whole else None
        if whole: s.store[pos(f.d['k'])] = blen(t)
        else: t = fetch(ex, s, f, n)
        o = ex.bytes_term(s, old) if isinstance(old, Sq) else zleaf(old)
        ex.write(s, b, t if o.eq(CONSTS.byt(b'')) else bcat(s, o, t)); taken(ex, s, c.args[0], n)
        return [(s, ok(c.dt, n))]
    return fork(ex, st, c, good)
def taken(ex, st, v, n):
    """a Take remembers how much it may still give"""
    if not isinstance(v, Rf): return
    r = deref_rf(ex, st, v); w = ex.read(st, r)
    if isinstance(w, Lib) and w.kind == 'take': ex.write(st, r, Lib('take', f=w.d['f'], n=simp(zint(w.d['n']) - zint(n))))
@model('std::io::Read::read')
def m_read(ex, st, c):
    if lib_std.local_body(ex, c): return NotImplemented
    def good(s):
        f, m = source(ex, s, c.args[0]); b = deref_rf(ex, s, c.args[1]); old = ex.read(s, b); ln = zint(ex.seq_len(s, old))
        n = z3.Int('n!%d' % uid()); cap = z3.If(m < ln, m, ln); s.add(z3.And(n >= 0, n <= cap, (n == 0) == (cap == 0)))     # may be short
        fill(ex, s, b, fetch(ex, s, f, n), n, ln); taken(ex, s, c.args[0], n)
        return [(s, ok(c.dt, n))]
    return fork(ex, st, c, good)
def fill(ex, s, b, t, n, ln):
    w = z3.Const('buf!%d' % uid(), Bytes); s.add(blen(w) == ln); s.add(SUB(w, 0, n) == t); s.add(z3.Implies(n == ln, w == t)); ex.write(s, b, w)
@model('std::io::Read::read_exact')
def m_readex(ex, st, c):
    if lib_std.local_body(ex, c): return NotImplemented
    def good(s):
        f, m = source(ex, s, c.args[0]); b = deref_rf(ex, s, c.args[1]); ln = zint(ex.seq_len(s, ex.read(s, b)))
        s.add(ln <= m); fill(ex, s, b, fetch(ex, s, f, ln), ln, ln); taken(ex, s, c.args[0], ln)
        return [(s, ok(c.dt, unit(ex)))] if ex.feasible(s) else []
    return fork(ex, st, c, good)
@model('std::io::Read::take')
def m_rtake(ex, st, c): return Lib('take', f=c.args[0], n=c.args[1])
@model('std::io::Read::by_ref')
def m_byref(ex, st, c): return c.args[0]
@model('std::io::BufReader::<R>::new', 'std::io::BufReader::<R>::with_capacity')
def m_bufr(ex, st, c): return Lib('bufreader', f=c.args[-1])
@model('std::io::Seek::seek')
def m_seek(ex, st, c):
    if lib_std.local_body(ex, c): return NotImplemented
    w = ex.force(st, c.args[1])
    if not isinstance(w.d, int) or [x['n'] for x in ex.P.ty(w.ty)['v']][w.d] != 'Start': raise Unsupported('seek')
    def good(s):
        f, _ = source(ex, s, c.args[0]); s.store[pos(f.d['k'])] = w.p[w.d][0]; return [(s, ok(c.dt, w.p[w.d][0]))]
    return fork(ex, st, c, good)
@model('std::io::Seek::rewind')
def m_rewind(ex, st, c):
    def good(s): f, _ = source(ex, s, c.args[0]); s.store[pos(f.d['k'])] = 0; return [(s, ok(c.dt, unit(ex)))]
    return fork(ex, st, c, good)
# ---- hashing
def bytesof(ex, st, v):
    v = deref(ex, st, v)
    if isinstance(v, Lib) and v.kind == 'hash': return v.d['t']
    v = ex.bytes_term(st, v) if isinstance(v, Sq) else v
    if not (is_leaf(v) and zleaf(v).sort() == Bytes): raise Unsupported('bytes %r' % (v,))
    return zleaf(v)
@model('sha2::Digest::digest', 'digest::Digest::digest')
def m_digest(ex, st, c): return Lib('hash', t=SHA(bytesof(ex, st, c.args[0])))
@model('sha2::Digest::new', 'digest::Digest::new')
def m_dnew(ex, st, c): return Lib('hasher', t=CONSTS.byt(b''))
@model('sha2::Digest::update', 'digest::Digest::update')
def m_dupd(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); h = ex.read(st, r); b = bytesof(ex, st, c.args[1]); o = h.d['t']
    ex.write(st, r, Lib('hasher', t=b if o.eq(CONSTS.byt(b'')) else bcat(st, o, b))); return unit(ex)
@model('sha2::Digest::finalize', 'digest::Digest::finalize')
def m_dfin(ex, st, c):
    h = deref(ex, st, c.args[0])
    if not (isinstance(h, Lib) and h.kind == 'hasher'): raise Unsupported('hasher')
    return Lib('hash', t=SHA(h.d['t']))
@model('hex::encode')
def m_hex(ex, st, c): return HEX(bytesof(ex, st, c.args[0]))
# ---- messages
@model('candid::ser::IDLBuilder::new')
def m_idl(ex, st, c): return Lib('idl', vs=())
@model('candid::ser::IDLBuilder::arg')
def m_idlarg(ex, st, c):
    r = deref_rf(ex, st, c.args[0]); b = ex.read(st, r); v = deref(ex, st, c.args[1])
    ex.write(st, r, Lib('idl', vs=b.d['vs'] + ((strip(ex, c.at[1]), v),)))
    return ok(c.dt, c.args[0])
@model('candid::ser::IDLBuilder::serialize')
def m_idlser(ex, st, c):
    b = deref(ex, st, c.args[0]); o = bytesof(ex, st, deref_rf(ex, st, c.args[1]))
    if not o.eq(CONSTS.byt(b'')): raise Unsupported('message behind other bytes')
    t = z3.Const('msg!%d' % uid(), Bytes); st.add(blen(t) >= 0); st.g['msgs'] = {**st.g['msgs'], t.sexpr(): b.d['vs']}
    ex.write(st, deref_rf(ex, st, c.args[1]), t); return ok(c.dt, unit(ex))
@model('candid::ser::IDLBuilder::serialize_to_vec')
def m_idlvec(ex, st, c):
    b = deref(ex, st, c.args[0]); t = z3.Const('msg!%d' % uid(), Bytes); st.add(blen(t) >= 0); st.g['msgs'] = {**st.g['msgs'], t.sexpr(): b.d['vs']}
    return ok(c.dt, t)
@pmodel(r'^candid::(utils::)?decode_one$')
def m_decone(ex, st, c): 
    v = ex.fresh(st, ex.P.fields(c.dt, 0)[0][1], 'answer')
    return fork(ex, st, c, lambda s: [(s, ok(c.dt, v))])
@model('url::Url::parse')
def m_url(ex, st, c): return fork(ex, st, c, lambda s: [(s, ok(c.dt, ex.fresh(s, ex.P.fields(c.dt, 0)[0][1], 'url')))])
@model('ic_agent::Agent::update')
def m_update(ex, st, c): return Lib('update', canister=zleaf(deref(ex, st, c.args[1])), method=zleaf(deref(ex, st, c.args[2])), arg=None)
@pmodel(r'^ic_agent::agent::UpdateBuilder::<[^>]*>::(with_arg|call_and_wait)$')
def m_ub(ex, st, c):
    b = deref(ex, st, c.args[0])
    if c.defn.endswith('with_arg'): return Lib('update', canister=b.d['canister'], method=b.d['method'], arg=bytesof(ex, st, c.args[1]))
    return Lib('ext', name='agent_update', args=(b,), tys=(None,))
@model('std::vec::from_elem')
def m_fromelem(ex, st, c):
    if ex.P.ty(c.targs[0]).get('bits') != 8: raise Unsupported('vec![x; n]')
    t = z3.Const('zeros!%d' % uid(), Bytes); st.add(blen(t) == zint(c.args[1])); return t
@pmodel(r'^anyhow::')
def m_anyhow(ex, st, c): return ex.fresh(st, c.dt, 'anyhow')

class ChunkView(View):
    """the pieces of n bytes of v, the last one possibly shorter"""
    def __init__(s, v, n): s.v = v; s.n = n
    def length(s, ex, st): return simp((blen(s.v) + zint(s.n) - 1) / zint(s.n))
    def get(s, ex, st, i):
        lo = simp(zint(i) * zint(s.n)); hi = simp(lo + zint(s.n)); hi = z3.If(hi < blen(s.v), hi, blen(s.v))
        return [(st, ex.tmp(st, subseq(ex, st, s.v, lo, hi)))]
    def same(s, o): return isinstance(o, ChunkView) and s.v.eq(o.v) and eqv(zint(s.n), zint(o.n))
    def consts(s):
        from loops import consts_of
        return list(consts_of(s.v)) + (list(consts_of(s.n)) if isinstance(s.n, z3.ExprRef) else [])
@model('core::slice::<impl [T]>::chunks')
def m_chunks(ex, st, c):
    v = deref(ex, st, c.args[0])
    if not is_leaf(v): raise Unsupported('chunks of %r' % (v,))
    rs = []
    for s, z in ex.branch(st, Eq(c.args[1], 0)):
        if z: ex.trap(s, 'chunk size 0')
        else: rs.append((s, It(ChunkView(zleaf(v), c.args[1]), 0)))
    return rs
