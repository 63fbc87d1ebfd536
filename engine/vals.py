"""Values, types and sorts of the symbolic semantics of MIR.

Structural values (Python objects) with z3 leaves.  Everything is immutable;
mutation happens by functional update of the state's store.
"""
import re, json
import z3

class Unsupported(Exception):
    """The construct is outside the verifier's reach (never an alarm)."""
    pass

_fresh = [0]
def uid():
    _fresh[0] += 1
    return _fresh[0]

# ---------------------------------------------------------------- leaf sorts
Str = z3.DeclareSort('Str')
Bytes = z3.DeclareSort('Bytes')
Prin = z3.DeclareSort('Prin')
F64 = z3.DeclareSort('F64')
slen = z3.Function('slen', Str, z3.IntSort())
blen = z3.Function('blen', Bytes, z3.IntSort())
bget = z3.Function('bget', Bytes, z3.IntSort(), z3.IntSort())
utf8 = z3.Function('utf8', Str, Bytes)
strlt = z3.Function('strlt', Str, Str, z3.BoolSort())
ANON = z3.Const('ANON', Prin)
ZERO32 = z3.Const('ZERO32', Bytes)

class Consts:
    """Distinct constants for literals."""
    def __init__(self):
        self.strs = {}
        self.bytes = {}
        self.prins = {}
        self.cases = set()       # case conversions in use
    def str(self, s):
        if s not in self.strs:
            self.strs[s] = z3.Const('s!%d!%s' % (len(self.strs), re.sub(r'[^A-Za-z0-9_]', '_', s)[:30]), Str)
        return self.strs[s]
    def byt(self, b):
        if b == bytes(32): return ZERO32
        if b not in self.bytes:
            self.bytes[b] = z3.Const('b!%d' % len(self.bytes), Bytes)
        return self.bytes[b]
    def axioms(self):
        ax = []
        ss = list(self.strs.items())
        if len(ss) > 1: ax.append(z3.Distinct(*[c for _, c in ss]))
        for s, c in ss: ax.append(slen(c) == len(s.encode()))
        for op in sorted(self.cases):
            for s, c in ss:
                r = s.lower() if op == 'to_lowercase' else s.upper()
                if r in self.strs: ax.append(z3.Function(op, Str, Str)(c) == self.strs[r])
        bs = list(self.bytes.items()) + [(bytes(32), ZERO32)]
        if len(bs) > 1: ax.append(z3.Distinct(*[c for _, c in bs]))
        for b, c in bs: ax.append(blen(c) == len(b))
        return ax
CONSTS = Consts()

# ---------------------------------------------------------------- values
class V: __slots__ = ()
class St(V):
    __slots__ = ('ty', 'f')
    def __init__(s, ty, f): s.ty = ty; s.f = tuple(f)
    def __repr__(s): return 'St<%s>(%s)' % (s.ty, ', '.join(map(repr, s.f)))
class En(V):
    """enum value: d int|z3 Int (variant index), p: {variant index: tuple}"""
    __slots__ = ('ty', 'd', 'p')
    def __init__(s, ty, d, p): s.ty = ty; s.d = d; s.p = p
    def __repr__(s): return 'En<%s>#%s%s' % (s.ty, s.d, s.p)
class Rf(V):
    __slots__ = ('root', 'path', 'mut')
    def __init__(s, root, path=(), mut=True): s.root = root; s.path = tuple(path); s.mut = mut
    def __repr__(s): return '&%s%s' % (s.root, list(s.path) if s.path else '')
class Sq(V):
    """Vec/slice/array: symbolic base (len, arr: Array Int->sort, bag: Array sort->Int or None) followed by concrete tail values.
    base length may be Python int 0 with arr None -> fully concrete."""
    __slots__ = ('ety', 'bl', 'arr', 'bag', 'tail')
    def __init__(s, ety, bl=0, arr=None, bag=None, tail=()): s.ety = ety; s.bl = bl; s.arr = arr; s.bag = bag; s.tail = tuple(tail)
    @property
    def concrete(s): return s.arr is None
    def __repr__(s): return 'Sq<%s>(%s,%s)' % (s.ety, s.bl if not s.concrete else '', list(s.tail))
class Mp(V):
    """map/set: arr: Array K -> Option V (z3), size Int"""
    __slots__ = ('ty', 'kty', 'vty', 'arr', 'size', 'ordered', 'ro')
    def __init__(s, ty, kty, vty, arr, size, ordered): s.ty = ty; s.kty = kty; s.vty = vty; s.arr = arr; s.size = size; s.ordered = ordered; s.ro = False
    def __repr__(s): return 'Mp(%s)' % (s.arr,)
class Op(V):
    """lazily expanded value of type ty given by a z3 term"""
    __slots__ = ('ty', 't')
    def __init__(s, ty, t): s.ty = ty; s.t = t
    def __repr__(s): return 'Op<%s>(%s)' % (s.ty, s.t)
class Fn(V):
    __slots__ = ('inst', 'def_', 'args')
    def __init__(s, inst, def_=None, args=()): s.inst = inst; s.def_ = def_; s.args = args
    def __repr__(s): return 'Fn(%s %s)' % (s.inst, s.def_)
class Un(V):
    """unknown / irrelevant value (library internals); any semantic use is unsupported"""
    __slots__ = ('ty', 'why')
    def __init__(s, ty=None, why=''): s.ty = ty; s.why = why
    def __repr__(s): return 'Un(%s,%s)' % (s.ty, s.why)
class It(V):
    """iterator: src is a view object, pos the number of items taken (int|z3)"""
    __slots__ = ('view', 'pos')
    def __init__(s, view, pos): s.view = view; s.pos = pos
    def __repr__(s): return 'It(%s@%s)' % (s.view, s.pos)
class Lib(V):
    """a library object with named components (e.g. map entry, formatter args)"""
    __slots__ = ('kind', 'd')
    def __init__(s, kind, **d): s.kind = kind; s.d = d
    def __repr__(s): return 'Lib:%s(%s)' % (s.kind, s.d)
class Co(V):
    """coroutine: discr, upvars, saved[(variant, i)]"""
    __slots__ = ('ty', 'd', 'up', 'saved')
    def __init__(s, ty, d, up, saved): s.ty = ty; s.d = d; s.up = tuple(up); s.saved = saved
    def __repr__(s): return 'Co<%s>#%s' % (s.ty, s.d)

UNIT_TY = 0

def is_leaf(v): return isinstance(v, (int, bool, z3.ExprRef))
def zint(v):
    if isinstance(v, bool): raise Unsupported('bool as int')
    return z3.IntVal(v) if isinstance(v, int) else v
def zbool(v): return z3.BoolVal(v) if isinstance(v, bool) else v
def zleaf(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    return v

def eqv(a, b):
    """syntactic equality of leaves"""
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef): return False
    return type(a) == type(b) and a == b

def same(a, b):
    """syntactic identity of values"""
    if a is b: return True
    if is_leaf(a) or is_leaf(b): return is_leaf(a) and is_leaf(b) and eqv(a, b)
    if type(a) != type(b): return False
    if isinstance(a, St): return a.ty == b.ty and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, En): return a.ty == b.ty and eqv(a.d, b.d) and a.p.keys() == b.p.keys() and all(len(a.p[k]) == len(b.p[k]) and all(same(x, y) for x, y in zip(a.p[k], b.p[k])) for k in a.p)
    if isinstance(a, Rf): return a.root == b.root and samepath(a.path, b.path)
    if isinstance(a, Sq): return a.ety == b.ety and eqv(a.bl, b.bl) and (a.arr is None) == (b.arr is None) and (a.arr is None or a.arr.eq(b.arr)) and (a.bag is None) == (b.bag is None) and (a.bag is None or a.bag.eq(b.bag)) and len(a.tail) == len(b.tail) and all(same(x, y) for x, y in zip(a.tail, b.tail))
    if isinstance(a, Mp): return a.arr.eq(b.arr) and eqv(a.size, b.size)
    if isinstance(a, Op): return a.ty == b.ty and a.t.eq(b.t)
    if isinstance(a, Fn): return a.inst == b.inst and a.def_ == b.def_
    if isinstance(a, Un): return True
    if isinstance(a, It): return eqv(a.pos, b.pos) and a.view.same(b.view)
    if isinstance(a, Lib): return a.kind == b.kind and a.d.keys() == b.d.keys() and all((same(a.d[k], b.d[k]) if isinstance(a.d[k], (V, int, bool, z3.ExprRef)) else a.d[k] == b.d[k]) for k in a.d)
    if isinstance(a, Co): return a.ty == b.ty and eqv(a.d, b.d) and len(a.up) == len(b.up) and all(same(x, y) for x, y in zip(a.up, b.up)) and a.saved.keys() == b.saved.keys() and all(same(a.saved[k], b.saved[k]) for k in a.saved)
    return False

def samepath(p, q):
    if len(p) != len(q): return False
    for a, b in zip(p, q):
        if a[0] != b[0] or len(a) != len(b): return False
        for x, y in zip(a[1:], b[1:]):
            if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef):
                if not eqv(x, y): return False
            elif x is not y and x != y: return False
    return True

# ---------------------------------------------------------------- smart z3
def And(*xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)): x = And(*x)
        if x is True: continue
        if x is False: return False
        if z3.is_true(x): continue
        if z3.is_false(x): return False
        r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def Or(*xs):
    r = []
    for x in xs:
        if x is True: return True
        if x is False: continue
        if z3.is_true(x): return True
        if z3.is_false(x): continue
        r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def Not(x):
    if isinstance(x, bool): return not x
    if z3.is_true(x): return False
    if z3.is_false(x): return True
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def If(c, a, b):
    if c is True or z3.is_true(c) if not isinstance(c, bool) else c: return a
    if c is False or (not isinstance(c, bool) and z3.is_false(c)): return b
    if eqv(a, b): return a
    if isinstance(a, bool) and isinstance(b, bool): return c if a else Not(c)
    return z3.If(c, zleaf(a), zleaf(b))
def Eq(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return a == b
    if eqv(a, b): return True
    if isinstance(a, bool): return b if a else Not(b)
    if isinstance(b, bool): return a if b else Not(a)
    return simp(zleaf(a) == zleaf(b))
def Implies(a, b): return Or(Not(a), b)
def simp(e):
    if isinstance(e, (int, bool)): return e
    e = z3.simplify(e)
    return lit(e)
def lit(e):
    if isinstance(e, (int, bool)): return e
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    if z3.is_int_value(e): return e.as_long()
    return e

def pat_ok(t, vs):
    """is t a legal and useful trigger for the bound variables vs?"""
    seen = set(); work = [t]; found = set()
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return False
        if z3.is_var(x): continue
        if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES): return False
        for v in vs:
            if v.eq(x): found.add(v.get_id())
        work.extend(x.children())
    return len(found) == len(vs) and not any(t.eq(v) for v in vs)
def ForAll(vs, body, patterns=()):
    """universal quantifier; triggers that z3 would reject are dropped"""
    if isinstance(body, bool): body = z3.BoolVal(body)
    ps = []
    for p in patterns:
        if isinstance(p, (list, tuple)):
            if all(pat_ok(q, []) or any(pat_ok(q, [v]) for v in vs) for q in p) : ps.append(z3.MultiPattern(*p))
        elif isinstance(p, z3.PatternRef): ps.append(p)
        elif pat_ok(p, vs): ps.append(p)
    try: return z3.ForAll(vs, body, patterns=ps)
    except z3.Z3Exception: return z3.ForAll(vs, body)
# ---------------------------------------------------------------- program
class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']; self.T = d['types']; self.I = d['insts']; self.statics = d['statics']; self.roots = d['roots']
        self.unit = next(i for i, t in enumerate(self.T) if t['k'] == 'tuple' and not t.get('e'))
        global UNIT_TY
        UNIT_TY = self.unit
        self.byname = {}
        for i, t in enumerate(self.T): self.byname.setdefault(canon(t['n']), i)
        self.sorts = {}
        self.sort_busy = set()
        self._derived = {}
        self._src = {}
        self._dt = {}
        self.recursive = {}
        self.exports = {}
        for n, i in enumerate(self.I):
            m = i['mangled'] or ''
            if i['body'] and i['crate'] == self.crate and (m.startswith('canister_')): self.exports[m] = n
        self.timers()
    def timers(self):
        """callbacks of type fn() that code reachable from the exports hands to the timer service: entry points without arguments"""
        seen = set(); work = list(self.exports.values())
        def insts(x):
            if isinstance(x, dict):
                if isinstance(x.get('inst'), int): yield x['inst']
                if x.get('k') in ('zst', 'agg') and isinstance(x.get('t'), int):
                    n = self.T[x['t']].get('inst')
                    if n is not None: yield n
                if x.get('k') == 'cast' and 'FnPointer' in x.get('ck', '') and self.T[x['t']].get('n') == 'fn()' and x['o'].get('k') == 'const':
                    n = self.T[x['o']['c']['t']].get('inst')
                    if n is not None and self.I[n]['body']: self.exports['timer.' + '.'.join(self.I[n]['name'].split('::')[-2 if '{' in self.I[n]['name'] else -1:])] = n
                for v in x.values(): yield from insts(v)
            elif isinstance(x, (list, tuple)):
                for v in x: yield from insts(v)
        while work:
            n = work.pop()
            if n in seen: continue
            seen.add(n); i = self.I[n]
            if i['body'] and i['crate'] == self.crate: work.extend(insts(i['body']['bb']))
    # --- types
    def ty(self, i): return self.T[i]
    def name(self, i): return self.T[i]['n'] if isinstance(i, int) else str(i)
    def adt(self, i):
        t = self.T[i]
        return t['def'] if t['k'] == 'adt' else None
    def find(self, pat):
        r = re.compile(pat)
        return [i for i, t in enumerate(self.T) if r.search(t['n'])]
    def tyn(self, name):
        """type id by exact name"""
        k = canon(name)
        if k not in self.byname: raise Unsupported('type %s not found' % name)
        return self.byname[k]
    def targ(self, i, n):
        a = [x for x in self.T[i]['args'] if isinstance(x, int)]
        return a[n]
    # classification
    def cls(self, i):
        t = self.T[i]; k = t['k']
        c = t.get('_cls')
        if c is None: c = t['_cls'] = self._cls(t, k)
        return c
    def _cls(self, t, k):
        if k == 'int' or k == 'char': return 'int'
        if k == 'bool': return 'bool'
        if k == 'float': return 'f64'
        if k == 'str': return 'str'
        if k == 'slice' or k == 'array':
            e = self.T[t['e']]
            if e['k'] == 'int' and e.get('bits') == 8: return 'bytes'
            return 'seq'
        if k in ('ref', 'ptr'): return 'ref'
        if k in ('fndef', 'fnptr', 'closure', 'coroutine', 'dyn', 'tuple', 'never'): return k
        if k == 'pat': return self.cls(t['e'])
        if k == 'adt':
            d = t['def']
            if d in LEAF_ADT: return LEAF_ADT[d]
            if d in TRANSPARENT: return 'transp'
            if d in ('std::vec::Vec', 'alloc::vec::Vec', 'std::collections::VecDeque'):
                e = self.T[[x for x in t['args'] if isinstance(x, int)][0]]
                if e['k'] == 'int' and e.get('bits') == 8: return 'bytes'
                return 'seq'
            if d in MAPS: return 'map'
            if d in ('std::boxed::Box',): return 'box'
            if d in REFLIKE: return 'ref'
            return t['kind']
        return k
    def inner(self, i):
        """wrapped type of a transparent/box/ref type"""
        t = self.T[i]
        if t['k'] in ('ref', 'ptr'): return t['e']
        return [x for x in t['args'] if isinstance(x, int)][0]
    def elem(self, i):
        t = self.T[i]
        if t['k'] in ('slice', 'array'): return t['e']
        return self.targ(i, 0)
    def fields(self, i, v=0):
        t = self.T[i]
        if t['k'] == 'tuple': return [(str(n), x) for n, x in enumerate(t['e'])]
        return [(n, x) for n, x in t['v'][v]['f']]
    def fidx(self, i, name, v=0):
        for n, (fn, _) in enumerate(self.fields(i, v)):
            if fn == name: return n
        raise Unsupported('field %s of %s' % (name, self.name(i)))
    def variant(self, i, name):
        for n, v in enumerate(self.T[i]['v']):
            if v['n'] == name: return n
        raise Unsupported('variant %s of %s' % (name, self.name(i)))
    def is_recursive(self, i):
        i0 = i
        if i in self.recursive: return self.recursive[i]
        seen = set(); work = [x for x in self._sub(i)]; r = False
        me = canon(self.name(i))
        while work:
            j = work.pop()
            if j in seen: continue
            seen.add(j)
            if canon(self.name(j)) == me: r = True; break
            work.extend(self._sub(j))
        self.recursive[i0] = r
        return r
    def _sub(self, i):
        t = self.T[i]; c = self.cls(i)
        if c in ('int', 'bool', 'f64', 'str', 'bytes', 'nat', 'prin', 'never', 'dyn', 'fnptr', 'fndef', 'zst'): return []
        if c == 'seq': return [self.elem(i)]
        if c in ('transp', 'box', 'ref'): return [self.inner(i)]
        if c == 'map': return [x for x in t['args'] if isinstance(x, int)][:2]
        if t['k'] == 'tuple': return list(t['e'])
        if t['k'] == 'adt': return [x for v in t['v'] for _, x in v['f']]
        return []
    def opaque_adt(self, i):
        """library ADT whose structure is not looked at"""
        t = self.T[i]
        if t['k'] != 'adt': return False
        if t['kind'] == 'union': return True
        if t['crate'] == self.crate: return False
        if t['crate'] in OPEN_CRATES: return False
        return t['def'] not in OPEN_ADT
    # --- sorts
    def sort(self, i):
        n = canon(self.name(i))
        s = self.sorts.get(n)
        if s is None: s = self.sorts[n] = self._sort(i, n)
        return s
    def _sort(self, i, n):
        c = self.cls(i); t = self.T[i]
        if c in ('int', 'nat'): return z3.IntSort()
        if c == 'bool': return z3.BoolSort()
        if c == 'f64': return F64
        if c == 'str': return Str
        if c == 'bytes': return Bytes
        if c == 'prin': return Prin
        if c in ('transp', 'box', 'ref'): return self.sort(self.inner(i))
        if c == 'seq': return self.seqdt(self.elem(i))
        if c == 'map':
            k, v = self.mapkv(i)
            return self.mapdt(k, v)
        if c in ('fndef', 'closure', 'zst') or (c == 'tuple' and not t['e']): return self.unitsort()
        if c in ('coroutine', 'dyn', 'fnptr', 'never'): return z3.DeclareSort('X_' + mangle(n))
        if self.opaque_adt(i) or self.is_recursive(i): return z3.DeclareSort('U_' + mangle(n))
        dt = z3.Datatype(mangle(n))
        if c == 'tuple' or c == 'struct':
            dt.declare('mk', *[('f%d' % k, self.sort(x)) for k, (_, x) in enumerate(self.fields(i))])
        elif c == 'enum':
            if not t['v']: return z3.DeclareSort('X_' + mangle(n))
            for vi, v in enumerate(t['v']):
                dt.declare('v%d' % vi, *[('v%df%d' % (vi, k), self.sort(x)) for k, (_, x) in enumerate(v['f'])])
        else: raise Unsupported('sort of ' + n)
        return dt.create()
    def unitsort(self):
        s = self._dt.get('unit')
        if s is None:
            d = z3.Datatype('Unit'); d.declare('unit'); s = self._dt['unit'] = d.create()
        return s
    def seqdt(self, e):
        k = ('seq', canon(self.name(e)))
        s = self._dt.get(k)
        if s is None:
            es = self.sort(e)
            d = z3.Datatype('Seq_' + mangle(k[1]))
            d.declare('mk', ('len', z3.IntSort()), ('arr', z3.ArraySort(z3.IntSort(), es)), ('bag', z3.ArraySort(es, z3.IntSort())))
            s = self._dt[k] = d.create()
        return s
    def mapkv(self, i):
        t = self.T[i]; a = [x for x in t['args'] if isinstance(x, int)]
        if t['def'] in SETS: return a[0], self.unit
        return a[0], a[1]
    def keysort(self, k):
        """sort of normalised keys (key equality, not structural equality)"""
        k = self.keyty(k)
        if self.adt(k) == ACCOUNT or self.acc_newtype(k) is not None: return self.accsort()
        if self.T[k]['k'] == 'tuple' and any(self.has_account(x) for x in self.T[k]['e']): raise Unsupported('tuple key with account')
        if self.enum_key(k):
            n = ('key', canon(self.name(k))); s = self._dt.get(n)
            if s is None:
                d = z3.Datatype('Key_' + mangle(n[1]))
                for vi, v in enumerate(self.T[k]['v']): d.declare('v%d' % vi, *[('v%df%d' % (vi, j), self.keysort(x)) for j, (_, x) in enumerate(v['f'])])
                s = self._dt[n] = d.create()
            return s
        return self.sort(k)
    def enum_key(self, k):
        """an enum of this crate used as a key, some variant of which holds an account"""
        t = self.T[k]
        return t['k'] == 'adt' and t['kind'] == 'enum' and t['crate'] == self.crate and any(self.has_account(x) or self.acc_newtype(self.keyty(x)) is not None for v in t['v'] for _, x in v['f'])
    def keyty(self, k):
        while self.cls(k) in ('ref', 'box', 'transp'): k = self.inner(k)
        return k
    def acc_newtype(self, i):
        """inner type of a one-field wrapper struct around an account (key equality is that of the account)"""
        t = self.T[i]
        if t['k'] == 'adt' and t['kind'] == 'struct' and t['crate'] == self.crate and len(t['v'][0]['f']) == 1:
            x = t['v'][0]['f'][0][1]
            if self.adt(x) == ACCOUNT: return x
        return None
    def has_account(self, i): return self.adt(self.keyty(i)) == ACCOUNT
    def accsort(self):
        s = self._dt.get('acc')
        if s is None:
            d = z3.Datatype('AccKey'); d.declare('acc', ('ow', Prin), ('sub', Bytes)); s = self._dt['acc'] = d.create()
        return s
    def optdt(self, v):
        """Option of map entries: carries the stored key (its exact representation) and the value"""
        vs = self.sort(v)
        k = ('opt', canon(self.name(v)))
        s = self._dt.get(k)
        if s is None:
            d = z3.Datatype('Slot_' + mangle(k[1])); d.declare('none'); d.declare('some', ('val', vs)); s = self._dt[k] = d.create()
        return s
    def mapdt(self, kt, vt):
        k = ('map', canon(self.name(self.keyty(kt))), canon(self.name(vt)))
        s = self._dt.get(k)
        if s is None:
            ks = self.keysort(kt); o = self.optdt(vt)
            d = z3.Datatype('Map_' + mangle(k[1]) + '__' + mangle(k[2]))
            d.declare('mk', ('arr', z3.ArraySort(ks, o)), ('size', z3.IntSort()))
            s = self._dt[k] = d.create()
        return s
    # --- derived impls
    def derived(self, n):
        """is this (local) instance produced by #[derive]?"""
        r = self._derived.get(n)
        if r is None:
            i = self.I[n]; r = False
            if i['line'][0] == i['line'][1]:
                src = self.src(i['file'])
                l = i['line'][0] - 1
                # the span of a derived fn is the trait name inside #[derive(...)], possibly on a continuation line
                k = l
                while src and 0 <= k < len(src) and l - k < 12:
                    s = src[k].strip()
                    if 'derive(' in s: r = True; break
                    if ';' in s or '{' in s or '}' in s: break
                    k -= 1
            self._derived[n] = r
        return r
    def src(self, f):
        if f not in self._src:
            import os
            for base in ('', self.root + '/' if hasattr(self, 'root') else '/repo/'):
                p = base + f
                if os.path.exists(p):
                    self._src[f] = open(p).read().split('\n'); break
            else: self._src[f] = []
        return self._src[f]

ACCOUNT = 'icrc_ledger_types::icrc1::account::Account'
LEAF_ADT = {
    'candid::Nat': 'nat', 'num_bigint::biguint::BigUint': 'nat', 'num_bigint::BigUint': 'nat', 'candid::Int': 'nat', 'num_bigint::bigint::BigInt': 'nat',
    'std::string::String': 'str', 'candid::Principal': 'prin', 'ic_principal::Principal': 'prin', 'serde_bytes::ByteBuf': 'bytes',
    'std::marker::PhantomData': 'zst', 'serde_bytes::bytebuf::ByteBuf': 'bytes',
}
# note: candid::Int is an unbounded integer; its leaf is an Int without the >=0 fact
TRANSPARENT = {'std::cell::RefCell', 'std::cell::UnsafeCell', 'std::cell::Cell', 'std::mem::ManuallyDrop', 'std::mem::MaybeUninit', 'std::sync::RwLock', 'std::sync::Mutex',
    'core::mem::maybe_dangling::MaybeDangling', 'std::mem::maybe_dangling::MaybeDangling', 'std::mem::MaybeDangling', 'std::borrow::Cow_', 'std::cmp::Reverse_', 'std::num::Wrapping', 'std::pin::UnsafePinned'}
REFLIKE = {'std::rc::Rc', 'std::sync::Arc', 'std::cell::Ref', 'std::cell::RefMut', 'std::ptr::NonNull', 'std::ptr::Unique', 'core::ptr::unique::Unique', 'std::sync::RwLockReadGuard', 'std::sync::RwLockWriteGuard', 'std::sync::MutexGuard'}
MAPS = {'std::collections::HashMap', 'std::collections::BTreeMap', 'std::collections::BTreeSet', 'std::collections::HashSet', 'ic_stable_structures::BTreeMap', 'ic_stable_structures::btreemap::BTreeMap'}
SETS = {'std::collections::BTreeSet', 'std::collections::HashSet'}
ORDERED = {'std::collections::BTreeMap', 'std::collections::BTreeSet', 'ic_stable_structures::BTreeMap', 'ic_stable_structures::btreemap::BTreeMap'}
OPEN_CRATES = {'core_nft', 'index_icrc7', 'icrc_ledger_types', 'bity_ic_types', 'bity_ic_storage_canister_api', 'bity_ic_icrc3'}
OPEN_ADT = {'std::option::Option', 'std::result::Result', 'std::task::Poll', 'std::ops::ControlFlow', 'std::pin::Pin', 'std::cmp::Ordering', 'std::ops::Range', 'std::ops::RangeInclusive', 'std::ops::RangeFrom', 'std::ops::RangeTo', 'std::time::Duration',
            'std::borrow::Cow', 'std::convert::Infallible', 'std::cmp::Reverse'}

def canon(n):
    n = re.sub(r"'[a-zA-Z_][a-zA-Z0-9_]*\b(?!')", "'_", n)
    n = re.sub(r'&\'_ ', '&', n)
    return n
_mg = {}
def mangle(n):
    m = _mg.get(n)
    if m is None: m = _mg[n] = re.sub(r'[^A-Za-z0-9]+', '_', n.replace('std::', '').replace('types::', ''))[:60] + '_%d' % len(_mg)
    return m
