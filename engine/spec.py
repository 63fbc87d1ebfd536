"""World, invariant and proof-obligation bookkeeping for core_nft."""
import re, time
import z3
from vals import *
from core import *
from terms import *
from lib_std import *

RS = 'std::thread::LocalKey<std::cell::RefCell<std::option::Option<state::RuntimeState>>>'
def findroots(P):
    r = {}
    for i, t in enumerate(P.T):
        n = t['n']
        if not n.startswith('std::thread::LocalKey<'): continue
        if 'Option<state::RuntimeState>' in n: r['RS'] = ('tls', n)
        elif 'BTreeMap<types::wrapped_types::WrappedNat, types::wrapped_types::WrappedApprovalValue' in n: r['TA'] = ('tls', n)
        elif 'BTreeMap<types::wrapped_types::WrappedAccount, types::wrapped_types::WrappedApprovalValue' in n: r['CA'] = ('tls', n)
        elif 'RefCell<types::metadata::Metadata>' in n: r['MD'] = ('tls', n)
    return r
LIFE = {'canister_init', 'canister_pre_upgrade', 'canister_post_upgrade'}
SETTINGS = ['description', 'symbol', 'name', 'logo', 'supply_cap', 'max_query_batch_size', 'max_update_batch_size', 'max_take_value', 'default_take_value', 'max_memo_size',
            'atomic_batch_transfers', 'tx_window', 'permitted_drift', 'max_canister_storage_threshold', 'approval_init']

def rules_mod():
    import rules; return rules
class WV:
    """a snapshot of the canister's state"""
    def __init__(s, sp, ex, roots, st):
        s.sp = sp; s.ex = ex; s.r = roots; s.st = st; s.memo = {}
    def value(s, root):
        v = s.r[s.sp.roots[root]]
        if root == 'RS':
            v = s.ex.force(s.st, v)
            return v.p[1][0]
        return v
    def absent(s):
        v = s.ex.force(s.st, s.r[s.sp.roots['RS']])
        return not (isinstance(v, En) and v.d == 1)
    def get(s, *path):
        """typed term of a component of the runtime state"""
        k = path
        if k in s.memo: return s.memo[k]
        P = s.ex.P; ty = P.tyn('state::RuntimeState'); v = s.value('RS')
        for p in path:
            v = s.ex.force(s.st, v); i = P.fidx(ty, p)
            if isinstance(v, Rf): v = s.ex.read(s.st, v)
            v = v.f[i] if isinstance(v, St) else v
            ty = P.fields(ty)[i][1]
        t = T(s.ex, ty, s.ex.enc(s.st, ty, v))
        s.memo[k] = t
        return t
    def raw(s, *path):
        P = s.ex.P; ty = P.tyn('state::RuntimeState'); v = s.value('RS')
        for p in path:
            v = s.ex.force(s.st, v); i = P.fidx(ty, p); v = v.f[i]; ty = P.fields(ty)[i][1]
        return v
    def data(s, f): return s.get('data', f)
    def root(s, r):
        if r in s.memo: return s.memo[r]
        P = s.ex.P; m = re.match(r'std::thread::LocalKey<(.*)>$', s.sp.roots[r][1]); ty = P.tyn(m.group(1))
        t = T(s.ex, ty, s.ex.enc(s.st, ty, s.value(r)))
        s.memo[r] = t
        return t
    @property
    def tok(s): return s.data('tokens_list')
    @property
    def idx(s): return s.data('tokens_list_by_owner')
    def exists(s, t): return s.tok.has(t)
    def own(s, t): return s.tok.at(t).f('token_owner').key()
    def ownp(s, t): return s.ex.P.accsort().ow(s.own(t))
    def ibag(s, a):
        o = s.idx
        return z3.If(o.has(a), o.at(a).bag, z3.K(z3.IntSort(), z3.IntVal(0)))
    def wn(s, t): return s.ex.P.sort(s.ex.P.tyn('types::wrapped_types::WrappedNat')).constructor(0)(t)
    def ta(s, t):
        """(present, approvals map) of token t"""
        m = s.root('TA'); k = s.wn(t); return m.has(k), m.at(k).f(0)
    def ca(s, a):
        m = s.root('CA'); return m.has(a), m.at(a).f(0)
    def tas(s, t, sp):
        h, m = s.ta(t); return z3.And(h, m.has(sp)), m.at(sp)
    def cas(s, a, sp):
        h, m = s.ca(a); return z3.And(h, m.has(sp)), m.at(sp)
    @property
    def md(s): return s.root('MD').f(0)
    def mdhas(s, t): return s.md.has(s.wn(t))
    def mdat(s, t): return s.md.at(s.wn(t))
def live(ap, now): return z3.Or(z3.Not(ap.f('expires_at').some()), ap.f('expires_at').val().t > now)
def expired(ap, now): return z3.And(ap.f('expires_at').some(), ap.f('expires_at').val().t <= now)
def opteq(a, b):
    """equality of two optional leaves of possibly different option types"""
    return z3.And(a.some() == b.some(), z3.Implies(a.some(), a.val().t == b.val().t))
def apeq(a, b):
    return z3.And(a.f('spender').key() == b.f('spender').key(), a.f('from').key() == b.f('from').key(), opteq(a.f('expires_at'), b.f('expires_at')),
                  a.f('created_at').t == b.f('created_at').t, opteq(a.f('memo'), b.f('memo')))

def emptymap(ex, v):
    if isinstance(v, Mp): return Mp(v.ty, v.kty, v.vty, z3.K(v.arr.sort().domain(), ex.P.optdt(v.vty).none), 0, v.ordered)
    return v
class Spec:
    def __init__(s, export, rules, props=None):
        s.export = export; s.rules = rules; s.props = props
        s.compound = getattr(rules_mod(), 'COMPOUND', {}).get(export, False)
        s.logging = False; s.obls = []; s.memo = set(); s.notes = []; s.undecided = []
    # ------------------------------------------------------------ world
    def start(s, ex, fresh_state=True):
        P = ex.P; s.ex = ex
        s.roots = findroots(P)
        st = State()
        st.g.update(caller=z3.Const('caller', Prin), now=z3.Int('now'), events=(), cut=(), nev=0)
        st.add(z3.And(st.g['now'] >= 0, st.g['now'] < 2**64))
        for r in ('RS', 'TA', 'CA', 'MD'): s.tls_init(ex, st, s.roots[r], (None, s.roots[r][1]), fresh_state)
        if fresh_state: s.assume_inv(st)
        s.logs(st, fresh_state)
        if s.export == 'canister_init':
            # stable memory of a newly installed canister is empty
            for r in ('TA', 'CA', 'MD'):
                ty = ex.rootty[s.roots[r]]; v = ex.force(st, st.store[s.roots[r]])
                if isinstance(v, St): st.store[s.roots[r]] = St(v.ty, tuple(emptymap(ex, x) for x in v.f))
                else: st.store[s.roots[r]] = emptymap(ex, v)
        s.snap(st)
        st.g['wE'] = st.g['w0']
        return st
    def tls_init(s, ex, st, root, key, some=True):
        P = ex.P; m = re.match(r'std::thread::LocalKey<(.*)>$', key[1]); ty = P.tyn(m.group(1))
        ex.rootty[root] = ty
        v = ex.fresh(st, ty, 'W')
        if P.cls(strip(ex, ty)) == 'enum':
            v = ex.force(st, v)
            if some:
                st.add(v.d == 1); v = En(v.ty, 1, {1: v.p[1]})
            else: v = En(v.ty, 0, {0: ()})
        st.store[root] = v
    def logs(s, st, some):
        """the static holding the block log"""
        P = s.ex.P
        try: oty = P.tyn('std::option::Option<bity_ic_icrc3::icrc3::ICRC3>')
        except Exception: return
        st.g['log0'] = Lib('icrc3')
        st.store[('static', 'icrc3')] = En(oty, 1, {1: (st.g['log0'],)}) if some else En(oty, 0, {0: ()})
    def world(s, st): return {r: st.store[r] for r in s.roots.values()}
    def snap(s, st): st.g['w0'] = s.world(st)
    def wv(s, st, key=None): return WV(s, s.ex, s.world(st) if key is None else st.g[key], st)
    def stable_init(s, ex, st, c):
        """a handle on the stable map living in a memory: its content is that of the state component opened on the same memory"""
        vm = c.args[0]; mid = vm.d['id'] if isinstance(vm, Lib) and vm.kind == 'vm' else None
        op = c.defn.split('::')[-1]
        if s.capturing is not None:
            s.capturing.append((op, mid)); return ex.fresh(st, c.dt, 'opened')
        if op != 'init': raise Unsupported('stable map recreated')
        for r, (o, i) in s.memids().items():
            if i is not None and mid is not None and eqv(i, mid):
                v = ex.force(st, st.store[s.roots[r]])
                while isinstance(v, St): v = ex.force(st, v.f[0])
                if isinstance(v, Mp):
                    h = Mp(v.ty, v.kty, v.vty, v.arr, v.size, v.ordered); h.ro = True
                    return h
        return ex.fresh(st, c.dt, 'stable')
    capturing = None
    STABLE = ('TA', 'CA', 'MD')
    def memids(s):
        """root -> (how it is opened, memory id), from the initialisers of the thread locals"""
        if hasattr(s, '_memids'): return s._memids
        P = s.ex.P; s._memids = {}
        for r in s.STABLE:
            ty = P.tyn(re.match(r'std::thread::LocalKey<(.*)>$', s.roots[r][1]).group(1))
            cands = [n for n, i in enumerate(P.I) if i['name'].endswith('__rust_std_internal_init_fn') and i['body'] is not None and i['body']['locals'][0] == ty]
            if len(cands) != 1: raise Unsupported('initialiser of ' + r)
            s.capturing = []
            try:
                st = State(); st.g.update(events=(), now=z3.Int('now'), caller=z3.Const('caller', Prin))
                save = s.ex.traps; s.ex.traps = []
                s.ex.call_inst(st, cands[0], [Un(None, 'marker')] * P.I[cands[0]]['body']['argc'])
                s.ex.traps = save
                if len(s.capturing) != 1: raise Unsupported('initialiser of %s opens %d maps' % (r, len(s.capturing)))
                s._memids[r] = s.capturing[0]
            finally: s.capturing = None
        return s._memids
    def decode(s, ex, st, ty):
        v = ex.fresh(st, ty, 'arg'); st.g['arg'] = v; st.g['argty'] = ty; return v
    def restored(s, ex, st, ty): 
        v = ex.fresh(st, ty, 'restored'); st.g['restored'] = v; return v
    # ------------------------------------------------------------ invariant
    def inv(s, w, t=None, a=None, sp=None, k=None, p=None):
        """[(name, body)] with the given variables"""
        P = s.ex.P; L = w.data('last_token_id').t
        has, tk = w.exists(t), w.tok.at(t)
        th, tm = w.tas(t, sp); chh, cm = w.cas(a, sp)
        fm = w.get('internal_filestorage').f('map'); sw = w.get('sliding_window_guards')
        sc = w.data('sub_canister_manager').f('sub_canister_manager').f('sub_canisters')
        return [
            ('ids', z3.Implies(has, z3.And(tk.f('token_id').t == t, t < L))),
            ('index', z3.Select(w.ibag(a), t) == z3.If(z3.And(has, w.own(t) == a), 1, 0)),
            ('meta', z3.Implies(w.mdhas(t), t < L)),
            ('approvals', z3.Implies(th, z3.And(has, tm.f('spender').key() == sp, tm.f('from').key() == w.own(t)))),
            ('limits', z3.And(*[z3.Implies(o.some(), o.val().t >= 1) for o in (w.data('approval_init').f('max_approvals_per_token_or_collection'), w.data('approval_init').f('max_revoke_approvals'))])),
            ('uploads', z3.Implies(fm.has(k), fm.at(k).f('path').t == k)),
            ('subcanisters', z3.Implies(sc.has(p), sc.at(p).f('canister_id').t == p)),
            ('calls', z3.Implies(sw.has(t), z3.And(sw.at(t).len <= 5, sw.at(t).len >= 0))),
            ('collapprovals', z3.Implies(chh, z3.And(cm.f('spender').key() == sp, cm.f('from').key() == a))),
        ]
    def assume_inv(s, st):
        w = s.wv(st); P = s.ex.P; A = P.accsort()
        t = z3.Int('t!%d' % uid()); a = z3.Const('a!%d' % uid(), A); sp = z3.Const('s!%d' % uid(), A)
        k = z3.Const('k!%d' % uid(), Str); p = z3.Const('p!%d' % uid(), Prin)
        I = dict(s.inv(w, t, a, sp, k, p))
        tok = z3.Select(w.tok.arr, t); idx = z3.Select(w.idx.arr, a); ta = z3.Select(w.root('TA').arr, w.wn(t)); ca = z3.Select(w.root('CA').arr, a)
        md = z3.Select(w.md.arr, w.wn(t))
        th, tm = w.ta(t); chh, cm = w.ca(a)
        st.add(ForAll([t], I['ids'], patterns=[tok]))
        st.add(ForAll([a, t], I['index'], patterns=[(idx, tok)]))
        st.add(ForAll([a, t], I['index'], patterns=[z3.Select(w.idx.at(a).bag, t)]))
        st.add(ForAll([t], I['meta'], patterns=[md]))
        st.add(ForAll([t, sp], I['approvals'], patterns=[z3.Select(tm.arr, sp)]))
        st.add(ForAll([a, sp], I['collapprovals'], patterns=[z3.Select(cm.arr, sp)]))
        st.add(w.data('last_token_id').t >= 0)
        st.add(I['limits'])
        st.add(ForAll([k], I['uploads'], patterns=[z3.Select(w.get('internal_filestorage').f('map').arr, k)]))
        st.add(ForAll([p], I['subcanisters'], patterns=[z3.Select(w.data('sub_canister_manager').f('sub_canister_manager').f('sub_canisters').arr, p)]))
        gs = w.get('principal_guards')
        st.add(ForAll([p], z3.Implies(gs.has(p), gs.size >= 1), patterns=[z3.Select(gs.arr, p)])); st.add(gs.size >= 0)   # a set with a member is not empty
        st.add(ForAll([t], I['calls'], patterns=[z3.Select(w.get('sliding_window_guards').arr, t)]))
    # ------------------------------------------------------------ obligations
    def mark(s): return len(s.obls)
    def rollback(s, n): del s.obls[n:]
    def oblige(s, prop, name, st, goal, where):
        if s.props is not None and prop not in s.props: return
        g = simp(goal) if not isinstance(goal, bool) else goal
        s.obls.append(dict(prop=prop, name=name, where=where, pc=list(st.pc), goal=goal, triv=(g is True), cut=st.g.get('cut', ())))
    def segment(s, kind, st, **kw):
        """all obligations of a stretch of execution that starts at snapshot w0 and ends in st"""
        st = st.fork()
        seg = s.SEG(s, kind, st, kw)
        for rule in s.rules:
            if (s.export in LIFE) != getattr(rule, 'life', False): continue
            if s.export.startswith('contract.') != getattr(rule, 'contract', False): continue
            if s.compound and kind in ('iter', 'pre') and not getattr(rule, 'ev', False): continue
            for x in rule(seg) or ():
                prop, name, goal = x
                s.oblige(prop, name, st, goal, '%s/%s' % (s.export, kw.get('name', kind)))
    # ------------------------------------------------------------ hooks
    def loop_entry(s, ex, st, name): pass
    def is_world_mod(s, ex, mod): return any(r in s.roots.values() for r, p in mod)
    def loop_events(s, st0, backs):
        return any(b.g['events'] is not st0.g['events'] and b.g['events'] != st0.g['events'] for b in backs)
    def loop_head(s, ex, st0, sh, mod, hv, name, world):
        if s.compound:
            if s.logging:
                if st0.g['events']: s.segment('pre', st0, name='before ' + name)
                sh.g['events'] = (); sh.g['nev'] = z3.Int('nev!%d' % uid()); sh.g['nev0'] = sh.g['nev']; sh.add(sh.g['nev'] >= 0)
        elif world:
            k = (id(st0), name)
            if k not in s.memo:
                s.memo.add(k); s.notes.append(st0)
                s.segment('pre', st0, name='before ' + name)
            s.assume_inv(sh); s.snap(sh); sh.g['events'] = ()
            sh.g['cuts'] = sh.g.get('cuts', ()) + (name,)
        sh.g['accarrs'] = sh.g.get('accarrs', ()) + tuple(n.arr for k, (o, n) in hv.items() if isinstance(n, Sq))
    def candidates(s, ex, st0, sh, hv, name): 
        out = []
        for r in s.rules:
            c = getattr(r, 'candidates', None)
            if c: out += c(s, ex, st0, sh, hv, name)
        if s.compound:
            n0 = zint(st0.g['nev'])
            for k, (o, n) in hv.items():
                if isinstance(o, It):
                    out.append(lambda ex, st, k=k, o=o: simp(zint(st.g['nev']) - n0 == zint(ex.getp(st, *k).pos) - zint(o.pos)))
            out.append(lambda ex, st: simp(zint(st.g['nev']) == n0))
        return out
    def loop_back(s, ex, head, b, mod, hv, name, world):
        accs = s.accumulators(ex, head, b, hv)
        if not world and not accs: return
        s.segment('iter', b, name=name, head=head, hv=hv, accs=accs, world=world)
    def accumulators(s, ex, head, b, hv):
        """sequences that grow in the iteration: (key, head value, values pushed)"""
        out = []
        for k, (o, n) in hv.items():
            if not isinstance(n, Sq): continue
            try: q = ex.getp(b, *k)
            except Unsupported: continue
            if isinstance(q, Sq) and q.arr is not None and n.arr is not None and q.arr.eq(n.arr) and len(q.tail) >= len(n.tail): out.append((k, n, q.tail[len(n.tail):]))
            else: out.append((k, n, None))
        return out
    def sorted_(s, ex, st, v): pass
    def contract_pre(s, ex, st):
        """preconditions of the function under contract"""
    def callee(s, ex, st, n, args):
        """results of calling a function by its contract, None: execute its body"""
        return None
    def await_(s, ex, st, v, c):
        P = ex.P
        s.segment('await', st, name='await ' + str(v.d.get('name')), ext=v)
        rt = P.fields(c.dt, 0)[0][1]
        s.havoc(ex, st)
        if v.d.get('name') == 'create_canister': s.created(ex, st, v)
        rep = ex.fresh(st, rt, 'reply')
        st.g['ext'] = st.g.get('ext', ()) + (Lib('extcall', name=v.d.get('name'), args=v.d.get('args'), tys=v.d.get('tys'), rt=rt, reply=rep),)
        return [(st, En(c.dt, 0, {0: (rep,)}))]
    def created(s, ex, st, v):
        """the library adds the canister it created to the manager it was called on; canisters it knew stay known"""
        r = deref_rf(ex, st, v.d['args'][0]); ty = v.d['tys'][0]
        old = T(ex, ty, ex.enc(st, strip(ex, ty), ex.read(st, r))).f('sub_canisters')
        nv = ex.fresh(st, strip(ex, ty), 'manager'); ex.write(st, r, nv)
        new = T(ex, ty, ex.enc(st, strip(ex, ty), ex.read(st, r))).f('sub_canisters')
        p = z3.Const('p!%d' % uid(), Prin)
        st.add(ForAll([p], z3.And(z3.Implies(new.has(p), new.at(p).f('canister_id').t == p), z3.Implies(old.has(p), new.has(p))), patterns=[z3.Select(new.arr, p)]))
    def havoc(s, ex, st):
        """other messages may run during an await"""
        for r in s.roots.values(): st.store[r] = ex.havocv(st, st.store[r], ex.rootty[r], 'await') if not isinstance(st.store[r], En) else s.havoc_state(ex, st, st.store[r])
        s.assume_inv(st); s.snap(st); st.g['events'] = ()
    def havoc_state(s, ex, st, v):
        old = s.wv(st); og = old.get('principal_guards'); of = old.get('internal_filestorage')
        w = ex.fresh(st, ex.P.tyn('state::RuntimeState'), 'W')
        r = En(v.ty, 1, {1: (w,)})
        if s.export in rules_mod().rules3.MANAGEMENT:
            # rely: whoever holds the lock finds the lock and the uploads as it left them (guaranteed by the C14 and C13 obligations of every other entry point)
            st.store[s.roots['RS']] = r; new = s.wv(st)
            st.add(z3.Implies(og.size >= 1, z3.And(new.get('principal_guards').t == og.t, new.get('internal_filestorage').t == of.t)))
        return r
    def finish(s, ex, rs):
        for st, v in rs: s.segment('end', st, name='exit')

class Seg:
    def __init__(s, sp, kind, st, kw):
        s.sp = sp; s.ex = sp.ex; s.kind = kind; s.st = st; s.kw = kw
        s.w0 = sp.wv(st, 'w0'); s.w1 = sp.wv(st); s.wE = sp.wv(st, 'wE')
        s.now = zint(st.g['now']); s.caller = zleaf(st.g['caller']); s.events = st.g['events']
        s.export = sp.export; s._sk = {}
    def sk(s, n):
        """skolem constants of this segment"""
        if n not in s._sk:
            A = s.ex.P.accsort()
            s._sk[n] = z3.Const('sk_%s!%d' % (n, uid()), A if n[0] in 'as' else z3.IntSort() if n[0] in 'tnj' else Str if n[0] == 'k' else Prin)
        return s._sk[n]
    def acc(s, p, sub): return s.ex.P.accsort().acc(p, sub)
    def arg(s, k=0):
        """typed term of the k-th argument"""
        st = s.st
        if 'arg' not in st.g: raise Unsupported('no argument decoded')
        ty = st.g['argty']; P = s.ex.P
        v = T(s.ex, ty, s.ex.enc(st, ty, st.g['arg']))
        return v.f(k)
    def farg(s, i):
        """i-th argument of a function under contract"""
        ty = s.st.g['ftys'][i]; ty = strip(s.ex, ty) if s.ex.P.cls(ty) in ('ref', 'box') else ty
        v = s.st.g['fargs'][i]
        return T(s.ex, ty, s.ex.enc(s.st, ty, deref(s.ex, s.st, v) if isinstance(v, Rf) else v))
    def changed(s, t):
        w0, w1 = s.w0, s.w1
        return z3.Or(w0.exists(t) != w1.exists(t), z3.And(w0.exists(t), w0.own(t) != w1.own(t)))
    def sameroot(s, *names):
        return all(same(s.w0.r[s.sp.roots[n]], s.w1.r[s.sp.roots[n]]) for n in names)
    def event(s, e):
        tx, ty, idx = e
        P = s.ex.P; ty = strip(s.ex, ty) if False else ty
        return T(s.ex, ty, s.ex.enc(s.st, ty, tx)), zint(idx)
    def reply(s):
        st = s.st
        if 'reply' not in st.g: return None
        ty = st.g['replyty']
        return T(s.ex, ty, s.ex.enc(st, ty, st.g['reply']))
Spec.SEG = Seg
