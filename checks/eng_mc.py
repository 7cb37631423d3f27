"""Engine 0: the properties are model checked on Sync.tla itself (SyncMC.tla), for the menus of operations below."""
import json, os, re, shutil, tempfile, time
import vtrace
A = [1, 2, 3]
def m(op, ts, o=0, mm=0, dl=-1, rel=False, pv=-1, need=0, v=0):
    return dict(op=op, ts=ts, o=o, m=mm, dl=dl, rel=rel, pv=pv, need=need, v=v)
def cf(n, objs, k, menu, maxnow=0, hb=False, tss=False, faults=0, mx=None):
    return dict(n=n, kind=[x for x, _ in objs], init=[i for _, i in objs], max=mx or [9] * len(objs), k=k, menu=menu, maxnow=maxnow, hb=hb, tss=tss, faults=faults)
def L(*ops, **kw):
    return [m(o, A, **kw) for o in ops]
CVO = [('mutex', 0), ('cv', 0), ('var', 0)]
SHV = [('sspin', 0), ('cva', 0), ('var', 0)]
def cv(n, k, maxnow, timed):
    w = [1, 2] if n > 2 else [1]
    r = [m('lock', A), m('unlock', A), m('setv', [n], o=2, v=1), m('notify1', [n], o=1), m('notifyN', [n], o=1)]
    if timed:
        r += [m('cvwait', w, o=1, dl=1, rel=True), m('cvwait', w, o=1, dl=1, pv=2, need=1)]
    else:
        r += [m('cvwait', w, o=1), m('cvwait', [1], o=1, pv=2, need=1)]
    return cf(n, CVO, k, r, maxnow=maxnow)
def configs(big):
    """name -> (configuration, properties)"""
    K = 1 if big else 0
    tw = [m('twait', A, dl=1, rel=True), m('twait', A, dl=2)]
    C = {}
    def add(name, props, c):
        C[name] = (c, set(props.split()))
    add('lock', 'C01 C02 C03', cf(3, [('mutex', 0)], 2 + K, L('lock', 'trylock', 'unlock'), hb=True))
    add('tlock', 'C01 C03 C13', cf(3, [('tmutex', 0)], 2, L('lock', 'trylock', 'unlock') + [m('tlock', A, dl=1, rel=True), m('tlock', A, dl=1)], maxnow=2 + K))
    add('shared', 'C02 C04', cf(3, [('sspin', 0)], 2 + K, L('lock', 'trylock', 'unlock', 'lock_sh', 'trylock_sh', 'unlock_sh'), hb=not K))
    add('cv', 'C05 C06 C07 C08', cv(3, 3 + K, 0, False))
    add('cvt', 'C05 C06 C07 C08 C13', cv(2 + K, 3, 3, True))
    add('cvsh', 'C06 C07', cf(3, SHV, 3, [m('lock_sh', A), m('unlock_sh', A), m('lock', [3]), m('unlock', [3]), m('cvwait', [1, 2], o=1), m('notifyN', [3], o=1)]))
    add('sem', 'C09 C12', cf(3, [('sem', 0)], 2 + K, L('post', 'wait', 'trywait'), hb=True))
    add('sem1', 'C09 C22', cf(3, [('sem', 1)], 2 + K, L('post', 'wait', 'trywait'), mx=[2]))
    add('semt', 'C09 C13', cf(3, [('sem', 0)], 2, (L('post', 'trywait') + tw if K else [m('post', [2, 3]), m('trywait', [1, 3]), m('twait', [1, 2], dl=1, rel=True), m('twait', [1], dl=2)]), maxnow=2))
    add('are', 'C10 C12', cf(3, [('are', 0)], 2 + K, L('post', 'wait', 'trywait'), hb=True))
    add('aret', 'C10 C13', cf(3, [('are', 0)], 2, (L('post', 'wait', 'trywait') + tw[:1] if K else [m('post', [2, 3]), m('wait', [2]), m('trywait', [3]), m('twait', [1, 2], dl=1, rel=True)]), maxnow=1 + K))
    add('mre', 'C11 C12', cf(3, [('mre', 0)], 2 + K, [m('set', [2, 3]), m('reset', [3]), m('wait', [1, 2]), m('trywait', [1, 3])], hb=True))
    add('mret', 'C11 C13', cf(3, [('mre', 0)], 2, (L('set', 'reset', 'trywait') + tw if K else [m('set', [2, 3]), m('reset', [3]), m('trywait', [3]), m('twait', [1, 2], dl=1, rel=True)]), maxnow=1 + K))
    add('flt', 'C07 C21 C22', cf(2, CVO, 3 + K, [m('lock', A), m('trylock', A), m('unlock', A), m('cvwait', A, o=1), m('notifyN', A, o=1)], faults=1 + K))
    add('flm', 'C21 C22', cf(2, [('tmutex', 0)], 3, L('lock', 'trylock', 'unlock') + [m('tlock', A, dl=1)], faults=1 + K, maxnow=1))
    add('fls', 'C21 C22', cf(2, [('sem', 0)], 2 + K, L('post', 'wait'), faults=1 + K, mx=[1]))
    add('tss', 'C17 C18', cf(2, [('tsp', 0), ('tsp', 1)], 3 + K, [m('pset', [1, 2]), m('pset', [1], o=1), m('preset', [1, 2]), m('prel', [1]), m('pget', [1, 2]), m('pdel', [2]), m('pnew', [2], v=3), m('exit', [1, 2])], tss=True))
    add('cb', 'C18 C19 C20', cf(3, [('mutex', 0), ('cv', 0), ('tsp', 0)], 3 + K, [m('atexit', [1]), m('pset', [1], o=2), m('lock', [1, 2]), m('unlock', [1, 2]), m('nate', [1], o=0, mm=1), m('cvwait', [2], o=1), m('exit', [1, 2, 3])], tss=True))
    return C
def run(prop, big, workers=2):
    """Model checks every configuration of the property; returns (states, transitions, part) or None. A failure is an error of the specification, not of the code."""
    cs = {n: c for n, (c, ps) in configs(big).items() if prop in ps}
    if not cs:
        return None
    t0 = time.time(); d = tempfile.mkdtemp(prefix='mc.')
    try:
        f = os.path.join(d, 'c.json'); json.dump(list(cs.values()), open(f, 'w'))
        rc, out = vtrace.run_tlc('SyncMC.tla', 'SyncMC.cfg', dict(CONF=f), d, workers, timeout=880, xmx='3g')
        g = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc != 0 or not g or 'Model checking completed. No error' not in out:
            raise RuntimeError('SyncMC failed (%d):\n%s' % (rc, out[-1500:]))
        return int(g.group(2)), int(g.group(1)), dict(engine='properties model checked on Sync.tla (SyncMC.tla)', configurations=sorted(cs), states=int(g.group(2)), transitions=int(g.group(1)), s=round(time.time() - t0, 1))
    finally:
        shutil.rmtree(d)
if __name__ == '__main__':
    import sys
    for n, (c, ps) in configs(len(sys.argv) > 1 and sys.argv[1] == 'big').items():
        if len(sys.argv) > 2 and n not in sys.argv[2:]:
            continue
        d = tempfile.mkdtemp(prefix='mc.')
        try:
            f = os.path.join(d, 'c.json'); json.dump([c], open(f, 'w')); t0 = time.time()
            try:
                rc, out = vtrace.run_tlc('SyncMC.tla', 'SyncMC.cfg', dict(CONF=f), d, 8, timeout=900, xmx='10g')
                print(n, rc, re.findall(r'(\d+) states generated, (\d+) distinct', out)[-1:], round(time.time() - t0, 1), flush=True)
                if rc:
                    print(out[-1500:])
            except Exception as e:
                print(n, 'timeout', flush=True)
        finally:
            shutil.rmtree(d)
