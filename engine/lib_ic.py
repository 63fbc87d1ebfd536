"""Assumed contracts of the Internet Computer system API, the CDK and the bity crates."""
import z3
from vals import *
from core import *
from views import *
from lib_std import *
import lib_std

U256 = None

# ------------------------------------------------------------ thread locals
def tls_ref(ex, st, v):
    v = deref(ex, st, v)
    if not isinstance(v, Lib) or v.kind != 'tls': raise Unsupported('thread local %r' % (v,))
    root = ('tls', v.d['key'][1])
    if root not in st.store: ex.spec.tls_init(ex, st, root, v.d['key'])
    return Rf(root)
@model('std::thread::LocalKey::<T>::with', 'std::thread::LocalKey::<std::cell::RefCell<T>>::with_borrow', 'std::thread::LocalKey::<std::cell::RefCell<T>>::with_borrow_mut', 'std::thread::LocalKey::<T>::try_with')
def m_with(ex, st, c):
    return ex.apply(st, c.args[1], [tls_ref(ex, st, c.args[0])])
@model('std::thread::LocalKey::<std::cell::RefCell<T>>::take')
def m_tlstake(ex, st, c):
    r = tls_ref(ex, st, c.args[0]); v = ex.read(st, r)
    ex.write(st, r, none(c.dt)); return v
@model('std::thread::LocalKey::<std::cell::RefCell<T>>::replace', 'std::thread::LocalKey::<std::cell::RefCell<T>>::set')
def m_tlsreplace(ex, st, c):
    r = tls_ref(ex, st, c.args[0]); v = ex.read(st, r)
    ex.write(st, r, c.args[1]); return v if c.defn.endswith('replace') else unit(ex)

# ------------------------------------------------------------ system api
@model('ic_cdk::api::msg_caller', 'ic_cdk::caller', 'ic_cdk::api::caller')
def m_caller(ex, st, c): return st.g['caller']
@model('ic_cdk::api::time', 'bity_ic_canister_time::now_nanos', 'bity_ic_canister_time::timestamp_nanos')
def m_time(ex, st, c): return st.g['now']
@model('bity_ic_canister_time::now_millis', 'bity_ic_canister_time::timestamp_millis')
def m_timems(ex, st, c): return zint(st.g['now']) / 1000000
@model('bity_ic_canister_time::timestamp_seconds', 'bity_ic_canister_time::now_seconds')
def m_timesec(ex, st, c): return zint(st.g['now']) / 1000000000
@model('ic_cdk::api::canister_self', 'ic_cdk::id')
def m_self(ex, st, c): return z3.Const('SELF', Prin)
@model('ic_cdk::api::is_controller')
def m_isctl(ex, st, c): return z3.Function('is_controller', Prin, z3.BoolSort())(zleaf(deref(ex, st, c.args[0])))
@model('bity_ic_utils::env::Environment::caller')
def m_envcaller(ex, st, c): return st.g['caller']
@model('bity_ic_utils::env::Environment::now')
def m_envnow(ex, st, c): return zint(st.g['now']) / 1000000
@model('bity_ic_utils::env::Environment::now_nanos')
def m_envnown(ex, st, c): return st.g['now']
@model('bity_ic_utils::env::Environment::cycles_balance', 'bity_ic_utils::memory::MemorySize::used', 'ic_cdk::api::canister_cycle_balance')
def m_envmisc(ex, st, c): return ex.fresh(st, c.dt, 'env')
def envty(ex): return ex.P.tyn('bity_ic_utils::env::CanisterEnv')
def envget(ex, st, a, f):
    v = ex.force(st, deref(ex, st, a)); return v.f[ex.P.fidx(envty(ex), f)]
def envset(ex, st, a, f, x):
    r = deref_rf(ex, st, a); v = ex.force(st, ex.read(st, r)); k = ex.P.fidx(envty(ex), f)
    ex.write(st, r, St(v.ty, tuple(x if i == k else y for i, y in enumerate(v.f)))); return unit(ex)
@model('bity_ic_utils::env::CanisterEnv::new')
def m_envnew(ex, st, c):
    d = dict(test_mode=c.args[0], version=c.args[1], commit_hash=c.args[2])
    return St(c.dt, tuple(d[n] for n, _ in ex.P.fields(c.dt)))
@model('bity_ic_utils::env::CanisterEnv::is_test_mode')
def m_envtest(ex, st, c): return envget(ex, st, c.args[0], 'test_mode')
@model('bity_ic_utils::env::CanisterEnv::version')
def m_envver(ex, st, c): return envget(ex, st, c.args[0], 'version')
@model('bity_ic_utils::env::CanisterEnv::commit_hash')
def m_envhash(ex, st, c): return ex.tmp(st, envget(ex, st, c.args[0], 'commit_hash'))
@model('bity_ic_utils::env::CanisterEnv::set_commit_hash')
def m_envseth(ex, st, c): return envset(ex, st, c.args[0], 'commit_hash', c.args[1])
@model('bity_ic_utils::env::CanisterEnv::set_version')
def m_envsetv(ex, st, c): return envset(ex, st, c.args[0], 'version', c.args[1])
@model('candid::Principal::anonymous', 'ic_principal::Principal::anonymous')
def m_anon(ex, st, c): return ANON
@model('candid::Principal::management_canister')
def m_mgmt(ex, st, c): return z3.Const('MGMT', Prin)
@model('ic_cdk::api::msg_arg_data')
def m_arg(ex, st, c): return z3.Const('argdata', Bytes)
@model('ic_cdk::futures::in_executor_context', 'ic_cdk::futures::in_query_executor_context')
def m_inexec(ex, st, c): return ex.apply(st, c.args[0], [])
@model('ic_cdk::futures::spawn', 'ic_cdk::futures::spawn_017_compat', 'ic_cdk::spawn')
def m_spawn(ex, st, c):
    rs = run_future(ex, st, c.args[0])
    return [(s, unit(ex)) for s, _ in rs]
def run_future(ex, st, fut):
    """drive a future to completion (external awaits are completed in place after the world has been havocked)"""
    if isinstance(fut, Rf): ref = fut
    else: ref = ex.tmp(st, fut)
    co = deref(ex, st, ref)
    if not isinstance(co, Co): raise Unsupported('future %r' % (co,))
    ref = deref_rf(ex, st, ref)
    return [(s, v) for s, v in poll_co(ex, st, ref, co)]
def poll_co(ex, st, ref, co):
    P = ex.P; n = P.ty(co.ty)['inst']
    if n is None or P.I[n]['body'] is None: raise Unsupported('coroutine without body')
    body = P.I[n]['body']
    pinty = body['locals'][1]
    cx = Un(None, 'context')
    return ex.call_inst(st, n, [St(pinty, (ref,)), cx])
@model('std::future::Future::poll')
def m_poll(ex, st, c):
    a = c.args[0]
    ref = a.f[0] if isinstance(a, St) else a
    v = deref(ex, st, ref)
    if isinstance(v, Co):
        return poll_co(ex, st, deref_rf(ex, st, ref), v)
    if isinstance(v, Lib) and v.kind == 'ext':
        return ex.spec.await_(ex, st, v, c)
    raise Unsupported('poll of %r' % (v,))
@model('std::future::IntoFuture::into_future')
def m_intofut(ex, st, c): return c.args[0]
@model('std::pin::Pin::<Ptr>::new_unchecked', 'std::pin::Pin::<&mut T>::new_unchecked', 'std::pin::Pin::<Ptr>::new')
def m_pin(ex, st, c): return St(c.dt, (c.args[0],))
@model('std::pin::Pin::<Ptr>::as_mut', 'std::pin::Pin::<Ptr>::as_ref')
def m_pinas(ex, st, c):
    p = deref(ex, st, c.args[0])
    r = p.f[0]
    w = ex.read(st, r)
    return St(c.dt, (w if isinstance(w, Rf) else r,))
@model('std::pin::Pin::<&mut T>::get_unchecked_mut', 'std::pin::Pin::<&mut T>::get_mut')
def m_pinget(ex, st, c): return c.args[0].f[0]
@model('std::future::get_context')
def m_getctx(ex, st, c): return c.args[0]
@model('ic_cdk::api::msg_reply')
def m_reply(ex, st, c):
    st.g['replied'] = True; return unit(ex)
@model('ic_cdk::api::msg_reject')
def m_reject(ex, st, c):
    st.g['rejected'] = True; return unit(ex)
@model('ic_cdk::trap', 'ic_cdk::api::trap')
def m_trap(ex, st, c): ex.trap(st, 'ic_cdk::trap'); return []
@model('candid::decode_args', 'candid::utils::decode_args')
def m_decode(ex, st, c):
    ty = ex.P.fields(c.dt, 0)[0][1]
    v = ex.spec.decode(ex, st, ty)
    return ok(c.dt, v)
@model('candid::encode_one', 'candid::utils::encode_one')
def m_encode(ex, st, c):
    st.g['reply'] = c.args[0]
    st.g['replyty'] = c.at[0]
    return ok(c.dt, z3.Const('reply!%d' % uid(), Bytes))
@model('candid::DecoderConfig::new')
def m_decconf(ex, st, c): return Un(c.dt, 'decoder config')
@pmodel(r'^candid::de::IDLDeserialize::.*::new_with_config$')
def m_idlnew(ex, st, c): return ok(c.dt, Lib('idl'))
@pmodel(r'^candid::de::IDLDeserialize::.*::get_value$')
def m_idlget(ex, st, c):
    ty = ex.P.fields(c.dt, 0)[0][1]
    return ok(c.dt, ex.spec.decode(ex, st, ty))
@pmodel(r'^candid::de::IDLDeserialize::.*::done$')
def m_idldone(ex, st, c):
    return ok(c.dt, unit(ex))

# ------------------------------------------------------------ logging, tracing, certification: no effect on the specified state
@model('bity_ic_icrc3::utils::trace', 'ic0::debug_print', 'ic_cdk::api::debug_print', 'ic_cdk::api::certified_data_set', 'bity_ic_canister_logger::init_with_logs', 'bity_ic_canister_time::run_interval')
def m_noop(ex, st, c): return unit(ex)
@model('bity_ic_canister_time::run_now_then_interval', 'ic_cdk_timers::set_timer_interval', 'ic_cdk_timers::set_timer')
def m_noop2(ex, st, c): return Un(c.dt, 'timer')
@model('tracing::level_filters::LevelFilter::current', 'tracing::callsite::Callsite::metadata', 'tracing::callsite::DefaultCallsite::interest', 'tracing::subscriber::Interest::never', 'tracing::Span::new', 'tracing::__macro_support::__disabled_span')
def m_tracing(ex, st, c): return Un(c.dt, 'tracing')
@model('tracing::subscriber::Interest::is_never')
def m_never(ex, st, c): return True
@model('tracing::__macro_support::__is_enabled')
def m_isen(ex, st, c): return False
@pmodel(r'^tracing::')
def m_tracing2(ex, st, c):
    if c.dt is not None and ex.P.ty(c.dt)['k'] == 'bool': return False
    return Un(c.dt, 'tracing')
@pmodel(r'^(ic_http_certification|ic_asset_certification|ic_certification|canfund|serde_json|bity_ic_canister_logger|url)::')
def m_cert(ex, st, c):
    if c.dt is None: return Un(None, 'certification')
    k = ex.P.ty(c.dt)
    if k['k'] == 'tuple' and not k['e']: return unit(ex)
    try: return ex.fresh(st, c.dt, 'cert')
    except Exception: return Un(c.dt, 'certification')
@model('ic_cdk::api::data_certificate')
def m_datacert(ex, st, c): return ex.fresh(st, c.dt, 'cert')
@pmodel(r'^lazy_static::lazy::Lazy::<T>::get$')
def m_lazy(ex, st, c):
    root = ('static', 'icrc3')
    if root not in st.store:
        oty = ex.P.tyn('std::option::Option<bity_ic_icrc3::icrc3::ICRC3>')
        st.store[root] = some(oty, Lib('icrc3'))
    h = ('static', 'icrc3box')
    if h not in st.store: st.store[h] = Rf(root)
    return Rf(h)
@pmodel(r'^std::sync::(poison::)?(rwlock::)?(RwLock|Mutex)::<T>::(read|write|lock)$')
def m_lock(ex, st, c):
    return ok(c.dt, deref_rf(ex, st, c.args[0]))

# ------------------------------------------------------------ block log
@model('bity_ic_icrc3::transaction::ICRC7Transaction::new', 'bity_ic_icrc3::transaction::ICRC37Transaction::new')
def m_txnew(ex, st, c): return St(c.dt, c.args)
@model('bity_ic_icrc3::interface::ICRC3Interface::add_transaction')
def m_addtx(ex, st, c):
    """Assumed contract of the block log: either the transaction is appended as the next block and its index returned,
    or an error is returned and nothing is appended."""
    P = ex.P; tx = c.args[1]
    good = st.fork(); bad = st
    b = z3.Bool('logok!%d' % uid())
    good.add(b); bad.add(z3.Not(b))
    idx = z3.Int('blk!%d' % uid()); good.add(z3.And(idx >= 0, idx < 2**64))
    good.g['events'] = good.g['events'] + ((tx, c.at[1], idx),)
    good.g['nev'] = simp(zint(good.g['nev']) + 1)
    errty = P.fields(c.dt, 1)[0][1]
    return [(good, ok(c.dt, idx)), (bad, err(c.dt, ex.fresh(bad, errty, 'logerr')))]
@model('bity_ic_icrc3::icrc3::ICRC3::archive_job')
def m_archive(ex, st, c): return Lib('ext', name='archive_job', args=tuple(c.args), tys=tuple(c.at))
@model('bity_ic_icrc3::icrc3::ICRC3::cleanup_job')
def m_cleanup(ex, st, c):
    """Assumed contract: moving blocks to an archive, and clearing moved ones, does not change what the log answers"""
    return ex.fresh(st, c.dt, 'cleanup')
@pmodel(r'^bity_ic_icrc3::interface::ICRC3Interface::(icrc3_\w+)$')
def m_icrc3q(ex, st, c): return ex.fresh(st, c.dt, 'icrc3')
@pmodel(r'^bity_ic_icrc3::(icrc3::ICRC3|config::ICRC3Properties)::new$')
def m_icrc3n(ex, st, c): return Lib('icrc3')
@model('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
def m_fncall(ex, st, c):
    t = c.args[1]
    if not isinstance(t, St): raise Unsupported('call with argument tuple %r' % (t,))
    return ex.apply(st, c.args[0], list(t.f))
@pmodel(r'^serde_bytes::(bytebuf::)?ByteBuf::(from|into_vec|new)$')
def m_bytebuf(ex, st, c): return c.args[0] if c.args else CONSTS.byt(b'')

@model('core::str::<impl str>::as_ptr', 'core::slice::<impl [T]>::as_ptr', 'std::vec::Vec::<T, A>::as_ptr')
def m_asptr(ex, st, c): return Un(c.dt, 'raw pointer')
@pmodel(r'^ic_stable_structures::memory_manager::MemoryManager::.*::(get|init)$')
def m_mm(ex, st, c):
    if not c.defn.endswith('::get'): return Un(c.dt, 'stable memory')
    v = ex.force(st, c.args[1])
    while isinstance(v, St) and len(v.f) == 1: v = ex.force(st, v.f[0])
    return Lib('vm', id=v)

@model('std::ops::Drop::drop')
def m_dropdrop(ex, st, c):
    n = c.f.get('inst')
    if n is not None and ex.P.I[n]['crate'] == ex.P.crate: return NotImplemented
    return unit(ex)

# ------------------------------------------------------------ inter-canister calls
@pmodel(r'^bity_ic_storage_canister_c2c::(\w+::)*(\w+)$')
def m_c2c(ex, st, c): return Lib('ext', name=c.defn.split('::')[-1], args=tuple(c.args), tys=tuple(c.at))
@model('bity_ic_utils::retry_async::retry_async')
def m_retry(ex, st, c):
    return [(s, v) for s, v in ex.apply(st, c.args[0], [])]
@pmodel(r'^bity_ic_subcanister_manager::SubCanisterManager::.*::create_canister$')
def m_createcan(ex, st, c): return Lib('ext', name='create_canister', args=tuple(c.args), tys=tuple(c.at))
@pmodel(r'^bity_ic_subcanister_manager::SubCanisterManager::.*::new$')
def m_newmgr(ex, st, c):
    v = ex.force(st, ex.fresh(st, c.dt, 'subcan'))
    i = ex.P.fidx(c.dt, 'sub_canisters')
    f = list(v.f); f[i] = c.args[1]
    return St(v.ty, tuple(f))
@pmodel(r'^bity_ic_subcanister_manager::SubCanisterManager::.*::(list_canisters|list_canisters_ids)$')
def m_listcan(ex, st, c):
    return ex.fresh(st, c.dt, 'subcan')
@pmodel(r'^bity_ic_(stable_memory::(get_reader|get_writer)|serializer::serialize)$')
def m_stablew(ex, st, c):
    if c.defn.endswith('serialize'):
        st.g['saved'] = c.args[0]
        return ok(c.dt, unit(ex))
    m = deref(ex, st, c.args[0])
    if isinstance(m, Lib) and m.kind == 'vm': st.g['upmem'] = m.d['id']
    return Un(c.dt, 'stable io')
@model('bity_ic_serializer::deserialize')
def m_deser(ex, st, c):
    ty = ex.P.fields(c.dt, 0)[0][1]
    return ok(c.dt, ex.spec.restored(ex, st, ty))

@pmodel(r'downcast_ref')
def m_downcast(ex, st, c):
    """dyn Any carries the type of the value it refers to"""
    P = ex.P; want = strip(ex, P.fields(c.dt, 1)[0][1])
    r = deref_rf(ex, st, c.args[0]); v = ex.read(st, r)
    if not isinstance(v, (St, En, Op)): raise Unsupported('dynamic type of %r' % (v,))
    if v.ty == want or canon(P.name(v.ty)) == canon(P.name(want)): return some(c.dt, r)
    return none(c.dt)
