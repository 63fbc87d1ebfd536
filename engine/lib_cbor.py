"""Assumed contracts of minicbor's primitive writers and readers: one token per call, read back as written.
Everything built on them (Encode/Decode impls of the crate, derived or hand written, and minicbor's generic impls) is executed."""
import z3
from vals import *
from core import *
from views import *
from lib_std import *
RPOS = ('gh', 'rpos')          # position behind the last token read
def find(ex, ty, nm):
    return next(k for k, (n, _) in enumerate(ex.P.fields(ty)) if n == nm)
def base(e):
    """(constant, {term id: (coefficient, term)}) of a linear expression"""
    e = z3.simplify(zint(e), som=True); c = 0; m = {}
    def go(x, f):
        nonlocal c
        if z3.is_int_value(x): c += f * x.as_long()
        elif z3.is_add(x): [go(y, f) for y in x.children()]
        elif z3.is_sub(x): go(x.arg(0), f); [go(y, -f) for y in x.children()[1:]]
        elif z3.is_app_of(x, z3.Z3_OP_UMINUS): go(x.arg(0), -f)
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)): go(x.arg(1), f * x.arg(0).as_long())
        else: k = x.get_id(); m[k] = (m.get(k, (0, x))[0] + f, x)
    go(e, 1); return c, m
def divexact(e, k):
    c, m = base(e)
    if c % k or any(f % k for f, _ in m.values()): return None
    r = z3.IntVal(c // k)
    for f, x in m.values(): r = r + (f // k) * x
    return simp(r)
def subst(tok, p, t): return tuple(z3.substitute(x, (p, zint(t))) if isinstance(x, z3.ExprRef) else x for x in tok)
END = ('end',)
def locate(ex, st, segs, q):
    """token at position q of a stream"""
    b = 0
    def at(d):
        d = simp(zint(d))
        if z3.is_int_value(d): return d.as_long() == 0
        return ex.entails(st, d == 0)
    for s in segs:
        if s[0] != 'rep':
            if at(zint(q) - b): return s
            b = simp(zint(b) + 1)
        else:
            _, cnt, p, p0, toks = s; k = len(toks); r = zint(q) - zint(b)
            for c in range(k):
                t = divexact(r - c, k)
                if t is not None and ex.entails(st, z3.And(zint(t) >= 0, zint(t) < zint(cnt))): return subst(toks[c], p, zint(p0) + zint(t))
            b = simp(zint(b) + k * zint(cnt))
    if at(zint(q) - b): return END
    raise Unsupported('reading position of the byte stream cannot be resolved')
def total(segs):
    b = z3.IntVal(0)
    for s in segs: b = b + (1 if s[0] != 'rep' else len(s[4]) * zint(s[1]))
    return simp(b)
def size(ex, st, segs):
    """number of bytes of a stream (of what has no bound: some number)"""
    def head(t): return z3.If(t < 24, 1, z3.If(t < 2**8, 2, z3.If(t < 2**16, 3, z3.If(t < 2**32, 5, 9))))
    n = z3.IntVal(0)
    for s in segs:
        if s[0] == 'int': n = n + head(z3.If(s[1] >= 0, s[1], -1 - s[1]))
        elif s[0] in ('array', 'map'): n = n + head(s[1])
        elif s[0] == 'bytes': st.add(blen(s[1]) >= 0); n = n + head(blen(s[1])) + blen(s[1])
        elif s[0] == 'str': st.add(slen(s[1]) >= 0); n = n + head(slen(s[1])) + slen(s[1])
        elif s[0] in ('null', 'undefined', 'bool'): n = n + 1
        elif s[0] == 'rep' or s[0] == 'chunk' and ex.P.cls(s[1]) in ('seq', 'str', 'bytes', 'map'): t = z3.Int('size!%d' % uid()); st.add(t >= (len(s[4]) * zint(s[1]) if s[0] == 'rep' else 1)); n = n + t
        else: raise Unsupported('size of a stored value of another codec')
    return simp(n)
def streamkey(ex, st, v):
    v = deref(ex, st, v)
    if isinstance(v, Sq):
        if v.concrete and not v.tail: return None
        return zleaf(ex.bytes_term(st, v)).sexpr()
    t = zleaf(v)
    return None if t.eq(CONSTS.byt(b'')) else t.sexpr()
def put(ex, st, enc, tok):
    """append a token to the stream of the buffer behind an Encoder"""
    rf = deref_rf(ex, st, enc); e = ex.force(st, ex.read(st, rf)); wi = find(ex, e.ty, 'writer'); w = e.f[wi]
    w = deref_rf(ex, st, w) if isinstance(w, Rf) else Rf(rf.root, rf.path + (('f', wi),))   # an encoder that owns its buffer
    k = streamkey(ex, st, ex.read(st, w)); S = st.g.get('streams', {})
    if k is None:
        b = z3.Const('buf!%d' % uid(), Bytes); st.add(blen(b) >= 0); ex.write(st, w, b); k = b.sexpr()
    elif k not in S: raise Unsupported('writing behind bytes of unknown structure')
    st.g['streams'] = {**S, k: S.get(k, ()) + (tok,)}
def peek(ex, st, dec):
    rf = deref_rf(ex, st, dec); d = ex.force(st, ex.read(st, rf)); ip = find(ex, d.ty, 'pos')
    k = streamkey(ex, st, d.f[find(ex, d.ty, 'buf')]); S = st.g.get('streams', {})
    if k is None: return END, rf, ip, d.f[ip]
    if k not in S: raise Unsupported('reading bytes of unknown structure')
    return locate(ex, st, S[k], d.f[ip]), rf, ip, d.f[ip]
def advance(ex, st, rf, ip, q):
    n = simp(zint(q) + 1); ex.write(st, Rf(rf.root, rf.path + (('f', ip),)), n); st.store[RPOS] = n
RNG = {'u8': (0, 2**8), 'u16': (0, 2**16), 'u32': (0, 2**32), 'u64': (0, 2**64), 'i8': (-2**7, 2**7), 'i16': (-2**15, 2**15), 'i32': (-2**31, 2**31), 'i64': (-2**63, 2**63)}
LOOSE = {'unsigned'}
def encres(ex, st, c):
    """Ok(self)"""
    return ok(c.dt, c.args[0])
def wr(kind):
    def f(ex, st, c):
        m = c.defn.split('::')[-1]
        if m in RNG:
            t = zint(zleaf(deref(ex, st, c.args[1]))); tok = ('int', t, RNG[m][0], RNG[m][1])
        elif m in ('array', 'map'): tok = (m, zint(zleaf(deref(ex, st, c.args[1]))))
        elif m in ('null', 'undefined'): tok = (m,)
        elif m == 'bool': tok = (m, zbool(deref(ex, st, c.args[1])))
        else:
            v = deref(ex, st, c.args[1]); tok = (m, zleaf(ex.bytes_term(st, v) if isinstance(v, Sq) else v))
        put(ex, st, c.args[0], tok)
        return encres(ex, st, c)
    return f
for _m in list(RNG) + ['array', 'map', 'null', 'undefined', 'bool', 'bytes', 'str']: M['minicbor::Encoder::<W>::' + _m] = wr(_m)
def mism(ex, st, c): return err(c.dt, ex.fresh(st, ex.P.fields(c.dt, 1)[0][1], 'cborerr'))
def rd(m):
    def f(ex, st, c):
        tok, rf, ip, q = peek(ex, st, c.args[0])
        def done(s, v): advance(ex, s, rf, ip, q); return (s, ok(c.dt, v))
        okty = ex.P.fields(c.dt, 0)[0][1]
        if m in RNG:
            if tok[0] != 'int': return mism(ex, st, c)
            lo, hi = RNG[m]; t = tok[1]; st.add(z3.And(t >= tok[2], t < tok[3]))
            cond = simpb(z3.And(t >= lo, t < hi)); out = []
            for s, b in ex.branch(st, cond):
                if b: out.append(done(s, t if not z3.is_int_value(t) else t.as_long()))
                else: out.append((s, mism(ex, s, c)))
            return out
        if tok[0] != m: return mism(ex, st, c)
        if m in ('array', 'map'):
            st.add(z3.And(tok[1] >= 0, tok[1] < 2**62)); n = simp(tok[1])
            return [done(st, some(okty, n.as_long() if z3.is_int_value(n) else n))]
        if m in ('null', 'undefined'): return [done(st, unit(ex))]
        if m == 'bytes': st.add(blen(tok[1]) >= 0)
        if m == 'str': st.add(slen(tok[1]) >= 0)
        return [done(st, ex.tmp(st, lit(tok[1]), ex.P.inner(okty)) if ex.P.cls(okty) == 'ref' else tok[1])]
    return f
for _m in list(RNG) + ['array', 'map', 'null', 'undefined', 'bool', 'bytes', 'str']: M["minicbor::Decoder::<'b>::" + _m] = rd(_m)
TYPES = {'bytes': ('Bytes',), 'str': ('String',), 'array': ('Array',), 'map': ('Map',), 'null': ('Null',), 'undefined': ('Undefined',), 'bool': ('Bool',),
         'int': ('U8', 'U16', 'U32', 'U64', 'I8', 'I16', 'I32', 'I64', 'Int')}
@model("minicbor::Decoder::<'b>::datatype")
def m_datatype(ex, st, c):
    tok, rf, ip, q = peek(ex, st, c.args[0])
    if tok == END: return mism(ex, st, c)
    ty = ex.P.fields(c.dt, 0)[0][1]; vs = [v['n'] for v in ex.P.ty(ty)['v']]
    if tok[0] in TYPES:
        ks = [vs.index(n) for n in TYPES[tok[0]]]
    else:   # the first token of a value of another codec: never null (obligation of that codec)
        ks = [k for k, n in enumerate(vs) if n not in ('Null', 'Undefined')]
    if len(ks) == 1: return ok(c.dt, En(ty, ks[0], {ks[0]: ()}))
    d = z3.Int('cbortype!%d' % uid()); st.add(z3.Or(*[d == k for k in ks]))
    return ok(c.dt, En(ty, d, {k: tuple(ex.fresh(st, x, 'dt') for _, x in ex.P.fields(ty, k)) for k in ks}))
@model("minicbor::Decoder::<'b>::skip")
def m_skip(ex, st, c):
    tok, rf, ip, q = peek(ex, st, c.args[0])
    if tok == END: return mism(ex, st, c)
    if tok[0] in ('array', 'map'): raise Unsupported('skipping a structure of the byte stream')
    advance(ex, st, rf, ip, q); return ok(c.dt, unit(ex))
prin_bytes = z3.Function("prin_bytes", Prin, Bytes); prin_of = z3.Function('prin_of_bytes', Bytes, Prin)
@pmodel(r'Principal::as_slice$')
def m_prinslice(ex, st, c):
    p = zleaf(deref(ex, st, c.args[0])); b = prin_bytes(p)
    st.add(prin_of(b) == p); st.add(z3.And(blen(b) >= 0, blen(b) <= 29))
    return ex.tmp(st, b)
@pmodel(r'Principal::from_slice$')
def m_prinfrom(ex, st, c):
    v = deref(ex, st, c.args[0]); b = zleaf(ex.bytes_term(st, v) if isinstance(v, Sq) else v); out = []
    for s, y in ex.branch(st, blen(b) <= 29):
        if y: out.append((s, prin_of(b)))
        else: ex.trap(s, 'principal too long')
    return out
@model("minicbor::Decoder::<'b>::current", "minicbor::Decoder::<'b>::peek", "minicbor::Decoder::<'b>::read", "minicbor::Decoder::<'b>::read_slice",
       "minicbor::Decoder::<'b>::array_iter_with", "minicbor::Decoder::<'b>::str_iter", "minicbor::Decoder::<'b>::bytes_iter", 'minicbor::Encoder::<W>::put')
def m_out(ex, st, c): raise Unsupported('token level contract: ' + c.defn)
def chunk_put(ex, st, enc, ty, v):
    put(ex, st, enc, ('chunk', ty, ex.enc(st, ty, v)))
def chunk_get(ex, st, dec, ty, dt):
    """(state, Result) of reading a whole value of a type written by its own codec"""
    tok, rf, ip, q = peek(ex, st, dec)
    if not (tok[0] == 'chunk' and canon(ex.P.name(tok[1])) == canon(ex.P.name(ty))): raise Unsupported('value of another type in the byte stream')
    advance(ex, st, rf, ip, q)
    return ok(dt, ex.dec(st, ty, tok[2]))
@model('minicbor::Encode::encode', 'minicbor::Decode::decode')
def m_vec(ex, st, c):
    """minicbor's codec of a vector of plain integers or text: one unit of the stream, never null"""
    if c.f.get('inst') is None or ex.P.I[c.f['inst']]['def'] not in ('<std::vec::Vec<T> as minicbor::Encode<C>>::encode', "<std::vec::Vec<T> as minicbor::Decode<'b, C>>::decode"): return NotImplemented
    if c.defn.endswith('encode'):
        ty = strip(ex, c.at[0]); el = ty
    else: ty = ex.P.fields(c.dt, 0)[0][1]
    if ex.P.cls(ty) == 'seq' and ex.P.cls(ex.P.elem(ty)) not in ('int', 'str', 'bytes'): raise Unsupported('vector codec of ' + ex.P.name(ty))
    if c.defn.endswith('encode'):
        chunk_put(ex, st, c.args[1], ty, deref(ex, st, c.args[0])); return ok(c.dt, unit(ex))
    return chunk_get(ex, st, c.args[0], ty, c.dt)
