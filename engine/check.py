"""check.py PROPERTY TIER: decide one property of /repo's working tree.  Exit 0 held / 1 VIOLATION."""
import sys, os, time, json, subprocess, tempfile, shutil, threading, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import props as PR

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); cfg = PR.PROPS[pid]
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    rc = 1
    try: rc = Check(pid, tier, seed, cfg, scratch, t0).go()
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

class Search:
    """histories against the real wasm, in the background"""
    def __init__(s, c, secs, procs, props=None):
        s.c = c; s.hit = None; s.end = None; s.ps = []; s.secs = secs; s.n = s.steps = 0; s.args = (procs, props); s.done = None
        c.start_wasm(c.cfg.get('wasm', 'core_nft'))
    def begin(s):
        c = s.c; procs, props = s.args; c.need_wasm(c.cfg.get('wasm', 'core_nft')); s.end = time.time() + s.secs + 60
        for i in range(procs):
            out = os.path.join(c.dir, 'search%d-%d.json' % (c.seed, i))
            s.ps.append((out, subprocess.Popen(['node', '--no-warnings', os.path.join(V, 'replica', c.cfg.get('search', 'search.js')), c.wasm, out, str(s.secs), str(c.seed * 7919 + i * 131), ','.join(props or c.cfg.get('search_props') or [c.pid])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    def poll(s):
        """None: still running, 1: failing history found, 0: none found"""
        if s.done is not None: return s.done
        c = s.c
        if s.end is None:
            if c.wt.is_alive(): return None
            s.begin()
        for x in list(s.ps):
            out, p = x
            if p.poll() is None: continue
            s.ps.remove(x)
            if p.returncode == 1: s.hit = json.load(open(out)); break
            elif p.returncode == 0:
                d = json.load(open(out)); s.n += d.get('histories', 0); s.steps += d.get('steps', 0)
            else: c.log('search error', p.stdout.read()[-600:])
        if s.hit or not s.ps or time.time() > s.end:
            for _, q in s.ps: q.kill()
            s.done = 1 if s.hit else 0
            r = c.extra.setdefault('replica', dict(histories=0, steps=0)); r['histories'] += s.n; r['steps'] += s.steps
        return s.done
class Upload:
    """the real upload tool against a recording agent, over a fixed set of file lengths, chunk sizes, failing calls and read sizes"""
    def __init__(s, c, *a):
        s.c = c; s.hit = None; s.done = None; s.t = time.time(); s.stage = 'build'
        s.p = subprocess.Popen([os.path.join(V, 'replica', 'upload', 'build.sh'), os.path.join(c.dir, 'upload')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    def poll(s):
        if s.done is not None: return s.done
        if s.p.poll() is None:
            if time.time() > s.t + 300: s.p.kill(); s.done = 0
            return s.done
        if s.stage == 'build':
            if s.p.returncode: s.c.log('the upload harness does not build:', s.p.stdout.read()[-600:]); s.done = 0; return 0
            s.stage = 'run'; s.t = time.time(); s.out = open(os.path.join(s.c.dir, 'upload.json'), 'w+')
            s.p = subprocess.Popen([os.path.join(s.c.dir, 'upload', 'upload')], stdout=s.out, stderr=subprocess.DEVNULL, env=dict(os.environ, TMPDIR=s.c.dir))
            return None
        s.out.seek(0); t = s.out.read().strip()
        if s.p.returncode == 3:
            d = json.loads(t); s.hit = dict(kind='upload', property=s.c.pid, msg=d['what'], input=d, how='replica/upload/build.sh DIR; DIR/upload FILE_BYTES CHUNK_SIZE FAILING_CALL|- BYTES_PER_READ'); s.done = 1
        else:
            s.done = 0
            if s.p.returncode == 0: r = s.c.extra.setdefault('replica', dict(histories=0, steps=0)); r['histories'] += json.loads(t)['cases']
        return s.done
class Check:
    def __init__(s, pid, tier, seed, cfg, scratch, t0):
        s.pid = pid; s.tier = tier; s.seed = seed; s.cfg = cfg; s.dir = scratch; s.t0 = t0
        s.deadline = t0 + (800 if tier == 'quick' else 3300)
        s.wasm = None; s.wt = None
        s.obls = []; s.uns = []; s.fns = set(); s.models = set(); s.loops = set(); s.exports = []; s.solve_s = 0.0; s.exec_s = 0.0
        s.extra = {}; s.bg = None
        s.replaydir = os.path.join(V, 'replays'); os.makedirs(s.replaydir, exist_ok=True)
    def log(s, *a): print('[%6.1fs]' % (time.time() - s.t0), *a, flush=True)
    # ---------------------------------------------------------------- builds
    def build_wasm(s, crate='core_nft'):
        log = os.path.join(s.dir, 'wasm.log')
        r = subprocess.run([os.path.join(V, 'bin', 'wasm.sh'), crate, log], capture_output=True, text=True)
        if r.returncode: s.wasmerr = open(log).read()[-2000:]; return
        p = os.path.join(s.dir, crate + '.wasm'); shutil.copy(r.stdout.strip(), p); s.wasm = p
    def start_wasm(s, crate='core_nft'):
        if s.wt is None: s.wt = threading.Thread(target=s.build_wasm, args=(crate,)); s.wt.start()
    def need_wasm(s, crate='core_nft'):
        s.start_wasm(crate); s.wt.join()
        if s.wasm is None: raise SystemExit('wasm build failed: ' + getattr(s, 'wasmerr', ''))
        return s.wasm
    def dump(s, crates):
        r = subprocess.run([os.path.join(V, 'bin', 'dump.sh'), os.path.join(s.dir, 'mir'), ','.join(crates)], capture_output=True, text=True)
        if r.returncode: print(r.stdout[-2000:], r.stderr[-3000:]); raise SystemExit('MIR dump failed')
        return os.path.join(s.dir, 'mir')
    # ---------------------------------------------------------------- proof
    def prove(s):
        import par
        from core import Prog
        jobs = []
        crates = s.cfg['crates']
        mir = s.dump(crates); s.log('MIR extracted from /repo')
        for c in crates:
            path = os.path.join(mir, c + '.mir.json'); P = Prog(path)
            par._P[path] = P
            import run1
            gone = [x for x in s.cfg.get('needs', ()) if run1.contract_inst(P, 'contract.' + x) is None]
            for k in s.cfg['exports'](c, P):
                if gone: s.uns.append((k, 'no function ' + ', '.join(gone)))       # the contracts have lost their subject: nothing is claimed proved
                else: jobs.append((path, k, [s.pid]))
            for t in s.cfg.get('expect', ()):
                if 'codec.' + t not in [j[1] for j in jobs]: s.uns.append(('codec.' + t, 'no codec of this type'))
        # long ones first
        order = {k: i for i, k in enumerate(PR.SLOW)}
        jobs.sort(key=lambda j: order.get(j[1].split('.')[-1], 99))
        if not jobs and not s.uns: raise SystemExit('no entry points found')
        to = 8000 if s.tier == 'quick' else 30000
        mark = os.path.join(s.dir, 'undischarged')
        def poll():
            if s.bg is None:
                if os.path.exists(mark) or s.uns: s.bg = (Upload if s.cfg.get('search') == 'upload' else Search)(s, 70 if s.tier == 'quick' else 600, 4); s.log('searching for a failing history on the real canister')
                return False
            return s.bg.poll() == 1
        for r in par.run(jobs, 8, 300 if s.tier == 'quick' else 900, to, s.t0 + (480 if s.tier == 'quick' else 2400), mark, poll):
            s.exports.append(r['export']); s.exec_s += r['exec_s']; s.solve_s += r['solve_s']
            s.fns |= set(r['fns']); s.models |= set(r['models']); s.loops |= set(r['loops'])
            if r['uns']: s.uns.append((r['export'], r['uns'])); s.log('not within reach:', r['export'], r['uns'])
            for o in r['obls']: o['export'] = r['export']; s.obls.append(o)
        poll()
        bad = [o for o in s.obls if o['res'] != 'proved']
        s.log('%d obligations over %d entry points, %d not discharged, %d entry points out of reach' % (len(s.obls), len(s.exports), len(bad), len(s.uns)))
        for o in bad: s.log('  not discharged: [%s] %s @ %s (%s)' % (o['prop'], o['name'], o['where'], o['res']))
        return bad
    # ---------------------------------------------------------------- search on the real canister
    def search(s, secs, procs, props=None):
        x = (Upload if s.cfg.get('search') == 'upload' else Search)(s, secs, procs, props)
        while x.poll() is None: time.sleep(0.1)
        return x.hit
    # ---------------------------------------------------------------- verdict
    def violation(s, replay, nofail=False):
        p = os.path.join(s.replaydir, '%s-%s.json' % (s.pid, s.tier))
        json.dump(replay, open(p, 'w'), indent=1, default=str)
        s.evidence(1)
        print('VIOLATION property=%s replay=%s%s' % (s.pid, p, ' no-failing-input-found' if nofail else ''), flush=True)
        return 1
    def evidence(s, viol):
        lv = s.cfg.get('level', 'proof')
        cov = dict(obligations=len(s.obls), discharged=sum(o['res'] == 'proved' for o in s.obls), checker_cmd='bin/check %s %s' % (s.pid, s.tier),
                   trusted_base=PR.TRUSTED + ['contract of ' + m for m in sorted(s.models)],
                   entry_points=sorted(s.exports), out_of_reach=[dict(entry=k, reason=u) for k, u in s.uns], functions_under_contract=sorted(s.fns), loops_cut=sorted(s.loops),
                   back_ends=by([o.get('solver') for o in s.obls if o['res'] == 'proved']), solver_seconds=round(s.solve_s, 1), executor_seconds=round(s.exec_s, 1),
                   obligations_by_name=by(['%s: %s' % (o['prop'], o['name']) for o in s.obls]),
                   not_discharged=[dict(name=o['name'], where=o['where'], result=o['res']) for o in s.obls if o['res'] != 'proved'])
        if s.extra.get('replica'): cov['evaluations'] = s.extra['replica']['histories']; cov['bounded_histories'] = s.extra['replica']
        cov.update(s.extra.get('cov', {}))
        ev = dict(property=s.pid, tier=s.tier, seed=s.seed, level=lv, coverage=cov, assumptions=PR.ASSUMPTIONS + s.cfg.get('assumptions', []), wall_s=round(time.time() - s.t0, 1), violations=viol)
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', s.pid + '.json'), 'w'), indent=1)
    def go(s):
        cfg = s.cfg
        if cfg.get('special'): 
            import importlib
            return importlib.import_module(cfg['special']).go(s)
        smoke = cfg.get('smoke', 0) or (20 if s.tier == 'thorough' else 0)
        if (smoke or cfg.get('known')) and cfg.get('search') != 'upload': s.start_wasm()
        bad = s.prove()
        known(s)
        hit = None
        if s.bg is not None:
            while s.bg.poll() is None: time.sleep(0.1)
            hit = s.bg.hit
        if not hit and smoke and s.bg is None and cfg.get('search') != 'upload' or s.tier == 'thorough' and s.bg is None:
            hit = s.search(smoke if s.tier == 'quick' else 120, 8)
        elif not hit and (bad or s.uns) and s.tier == 'quick' and cfg.get('search') != 'upload' and time.time() < s.t0 + 600:
            s.seed += 1000; hit = s.search(40 if bad else 15, 8)
        if hit:
            s.log('failing history found on the real canister:', hit['msg'])
            hit['obligations'] = [dict(name=o['name'], where=o['where']) for o in bad]
            return s.violation(hit)
        if bad:
            return s.violation(dict(kind='obligations', property=s.pid, failed=[dict(name=o['name'], where=o['where'], result=o['res'], goal=o.get('goal'), loops=o.get('cut')) for o in bad]), True)
        s.evidence(0)
        s.log('property %s held' % s.pid)
        return 0
def known(s):
    """replay the recorded findings of this property; they are reported, not alarmed"""
    f = os.path.join(V, 'known-findings.json')
    for k in (json.load(open(f))['findings'] if os.path.exists(f) else []):
        if k['property'] != s.pid: continue
        if 'replay' in k:
            w = s.need_wasm(s.cfg.get('wasm', 'core_nft'))
            r = subprocess.run(['node', '--no-warnings', os.path.join(V, 'replica', 'replay.js'), w, os.path.join(V, k['replay'])], capture_output=True, text=True)
            s.log('known finding replayed:', r.stdout.strip()[-300:])
            if r.returncode != 1: continue
        print('KNOWN-FINDING: property=%s %s' % (s.pid, k['what']), flush=True)
def by(xs):
    d = {}
    for x in xs: d[x] = d.get(x, 0) + 1
    return d
if __name__ == '__main__': main()
