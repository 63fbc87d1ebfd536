"""Run exports in worker processes: engine + rules + solver, results as plain data."""
import sys, os, time, json, traceback, re, ctypes, signal, select, struct, pickle, mmap
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
_P = {}
def child(f):
    """run f(send) in a forked process that dies with its parent; returns (pid, read end of the pipe)"""
    r, w = os.pipe(); pid = os.fork()
    if pid: os.close(w); return pid, r
    rc = 1
    try:
        try: ctypes.CDLL(None).prctl(1, signal.SIGKILL)
        except Exception: pass
        os.close(r)
        def send(*m):
            d = pickle.dumps(m); d = struct.pack('<I', len(d)) + d
            while d: d = d[os.write(w, d):]
        f(send); rc = 0
    finally: os._exit(rc)
class Gone(Exception): pass
def recv(r, limit):
    """next message; None when it does not come in time"""
    end = time.time() + limit; buf = b''; need = 4; head = True
    while len(buf) < need:
        t = end - time.time()
        if t <= 0 or not select.select([r], [], [], t)[0]: return None
        d = os.read(r, need - len(buf))
        if not d: raise Gone()
        buf += d
        if head and len(buf) == 4: need = struct.unpack('<I', buf)[0]; buf = b''; head = False
    return pickle.loads(buf)
def stop(pid, r):
    os.close(r)
    try: os.kill(pid, signal.SIGKILL)
    except OSError: pass
    os.waitpid(pid, 0)
def work(path, k, props, budget, timeout, deadline=None, mark=None, lanes=1):
    """one entry point; the executor and the solver run in processes of their own, because a solver call does not always heed its time limit"""
    t0 = time.time(); skip = set()
    for again in range(6):
        out = dict(export=k, obls=[], uns=None, exec_s=0, solve_s=0, fns=[], models=[], loops=[])
        if deadline: budget = max(1, min(budget, deadline - time.time()))
        cell = mmap.mmap(-1, 24)
        pid, r = child(lambda send: work1(send, out, path, k, props, budget, timeout, deadline, mark, lanes, cell, frozenset(skip), max(0, again - 1)))
        end = time.time() + budget + 45; done = False; stuck = None
        try:
            while True:
                if not done and not select.select([r], [], [], 1)[0]:
                    t, n, lim = struct.unpack('<dqd', cell[0:24])
                    if t and again < 5 and time.time() > t + lim + 6: stuck = n; break
                    if time.time() > end: out['uns'] = 'out of time (executor)'; break
                    continue
                m = recv(r, 1e6 if done else 30)
                if m is None: out['uns'] = 'out of time (executor)'; break
                if m[0] == 'out': out = m[1]; done = True
                elif m[0] == 'obl': out['obls'].append(m[1]); out['solve_s'] = round(time.time() - t0 - out['exec_s'], 2)
                else: break
        except Gone: out['uns'] = 'engine: process ended'
        finally: stop(pid, r)
        out['again'] = again
        if stuck is None: break
        # a solver query of the executor that did not come back: from the start, without asking it (not knowing the answer is always sound)
        skip.add(stuck)
    return out
def work1(send, out, path, k, props, budget, timeout, deadline, mark, lanes, cell, skip, seed):
    import run1
    from core import Unsupported, Prog, Watch
    Watch.cell = cell; Watch.skip = skip; Watch.seed = seed; Watch.n = 0
    t0 = time.time()
    if path not in _P: _P[path] = Prog(path)
    P = _P[path]
    ex = None
    try:
        ex, sp = run1.run_export(P, k, props, budget)
    except Unsupported as u:
        out['uns'] = '%s @ %s' % (str(u)[:300], getattr(u, 'where', ''))
    except RecursionError as u: out['uns'] = 'recursion'
    except Exception as u: out['uns'] = 'engine: ' + ''.join(traceback.format_exception(u))[-800:]
    out['exec_s'] = round(time.time() - t0, 2)
    if out['uns'] is not None: send('out', out); send('end'); return
    out['fns'] = sorted({P.I[n]['name'] for n in ex.inlined}); out['models'] = sorted(ex.used_models); out['loops'] = sorted(getattr(ex, 'loopset', ()))
    send('out', out)
    obls = sp.obls; nbad = 0
    per = 90 if timeout <= 8000 else 400
    def solve(tell, todo, skip, nb):
        import solve as S
        for n, i in enumerate(todo):
            o = obls[i]; S.TICK[:] = [lambda t: tell('c', t, S.TICK[1]), 0, skip if n == 0 else ()]
            t = time.time(); end = min(deadline or t + 999, t + per if nb < 2 else t + 20 if nb < 8 else t + 3)
            try: res = 'out of time' if deadline and t > deadline else run1.discharge(o, timeout if nb < 2 else 1500 if nb < 8 else 300, end)
            except Exception as u: res = 'error ' + str(u)[:200]
            nb += res != 'proved'
            tell('r', i, res, round(time.time() - t, 2), o.get('solver'), str(o.get('part', o['goal']))[:1500] if res != 'proved' else None)
        tell('end')
    def report(i, res, dt, solver, goal):
        nonlocal nbad
        o = obls[i]; d = dict(prop=o['prop'], name=o['name'], where=o['where'], res=res, t=dt, solver=solver, npc=len(o['pc']))
        if res != 'proved':
            nbad += 1; d['goal'] = goal or str(o['goal'])[:1500]; d['cut'] = [str(c) for c in o['cut']]
            if mark: open(mark, 'w').close()
        send('obl', d)
    class Lane: pass
    def begin(l):
        sk = frozenset(l.skip); todo = list(l.todo); nb = nbad
        l.pid, l.r = child(lambda tell: solve(tell, todo, sk, nb)); l.due = time.time() + 60; l.last = None; l.t1 = time.time()
    nl = max(1, min(lanes, len(obls) // 3)); live = []
    for n in range(nl):
        l = Lane(); l.todo = list(range(n, len(obls), nl)); l.skip = set(); l.late = 0
        if l.todo: begin(l); live.append(l)
    while live:
        now = time.time(); rd = select.select([l.r for l in live], [], [], max(0.05, min(l.due for l in live) - now))[0]
        for l in list(live):
            over = False
            try:
                if l.r in rd:
                    m = recv(l.r, 30)
                    if m is None: over = True
                    elif m[0] == 'c': l.due = time.time() + m[1] / 1000 + 8; l.last = m[2]
                    elif m[0] == 'r': report(*m[1:]); l.todo.remove(m[1]); l.skip = set(); l.late = 0; l.last = None; l.due = l.t1 = time.time(); l.due += 60
                    else: stop(l.pid, l.r); live.remove(l); continue
                elif time.time() > l.due: over = True
            except Gone: over = True
            if over:
                # a solver call that did not come back: the same obligation again without it
                stop(l.pid, l.r); l.late += 1; i = l.todo[0]
                if l.last is None or l.late > 3 or deadline and time.time() > deadline:
                    report(i, 'out of time', round(time.time() - l.t1, 2), None, None); l.todo.pop(0); l.skip = set(); l.late = 0
                else: l.skip.add(l.last)
                if l.todo: begin(l)
                else: live.remove(l)
    send('end')
def run(jobs, nproc=8, budget=200, timeout=8000, deadline=None, mark=None, poll=None):
    """jobs: [(mir path, export, props or None)]; poll() is called regularly and ends the run when it answers true"""
    with ProcessPoolExecutor(nproc) as pool:
        fs = {pool.submit(work, p, k, props, budget, timeout, deadline, mark, 1 if len(jobs) > 12 else 2 if len(jobs) > 4 else 4 if len(jobs) > 2 else 7) for p, k, props in jobs}
        while fs:
            done, fs = wait(fs, timeout=0.5, return_when=FIRST_COMPLETED)
            for f in done: yield f.result()
            if poll is not None and poll():
                for f in fs: f.cancel()
                for p in list(pool._processes.values()): p.kill()
                return
if __name__ == '__main__':
    import os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from core import Prog
    path = '/tmp/mir/core_nft.mir.json'; P = Prog(path)
    ks = sorted(P.exports) if sys.argv[1] == 'all' else [e for e in P.exports if e.split('.')[-1] in sys.argv[1].split(',')]
    props = sys.argv[2].split(',') if len(sys.argv) > 2 else None
    t = time.time()
    for r in run([(path, k, props) for k in ks]):
        bad = [o for o in r['obls'] if o['res'] != 'proved']
        print('%-58s %4d obl %3d bad exec %6.1f solve %6.1f %s' % (r['export'], len(r['obls']), len(bad), r['exec_s'], r['solve_s'], ('UNS ' + r['uns']) if r['uns'] else ''), flush=True)
        for o in bad: print('      ', o['res'], o['t'], o['prop'], o['name'], '@', o['where'][-70:])
        for o in r['obls']:
            if o['res'] == 'proved' and o['t'] > 4: print('       slow', o['t'], o['solver'], o['prop'], o['name'])
    print('total', round(time.time() - t, 1))
