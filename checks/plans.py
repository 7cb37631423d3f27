"""Which programs, configurations and models decide which property."""
from concurrent.futures import ThreadPoolExecutor
import scen, eng_sync, eng_lock, eng_time, eng_mc
ASSUMPTIONS = [
    'operating system primitives (pthread mutex and condition variable, POSIX semaphore, futex, clocks, thread-specific keys) behave as specified; they are replaced by the simulator',
    'schedules are explored at every access to shared memory up to the stated number of deviations; weak memory effects are covered through happens-before tracking, not by reordering',
]
def uniq(ss):
    d = {}
    for s in ss:
        d.setdefault(s.name, s)
    return list(d.values())
LK = ('mutex', 'tmutex', 'spin', 'sspin')
def all_locks(deep, kinds=LK):
    return [s for k in kinds for s in scen.locks(k, deep)]
CVA = [('mutex', False), ('tmutex', False), ('spin', False), ('sspin', False), ('sspin', True)]
def cv_any(deep, which=CVA):
    return [s for k, sh in which for s in scen.cvs('cva', k, deep, sh)]
def cv_plain(deep, kinds=('mutex', 'tmutex')):
    return [s for k in kinds for s in scen.cvs('cv', k, deep)]
def names(ss, *pats):
    return [s for s in ss if any(p in s.name for p in pats)]
EV = ('futex', 'pthr', 'emul')
def p_locks(deep):
    a = all_locks(deep); t = scen.timed_locks(deep); s = scen.shared(deep)
    nd = names(all_locks(deep), '_ll', '_lt', '_via_3') + names(t, 'tl_', 'tlrace', 'tlpast')
    return [('ndebug', nd + names(s, 'ss_rrw', 'ss_tx')), ('ndemul', nd), ('futex', a + t + s + names(cv_plain(False) + cv_any(False), 'reacq', 'free', 'n1', 'twhold')), ('boolspin', scen.locks('spin', deep)), ('notmo', scen.locks('tmutex', deep) + t),
            ('oldcxx', names(all_locks(deep, ('mutex', 'tmutex')), '_ll', '_lt', '_via_3') + names(t, 'tl_', 'tlrace', 'tlpast'))]
def gen(deep, *kinds):
    """generated programs: few in the quick tier, many in the thorough one"""
    return [s for k in kinds for s in scen.rnd(k, 1 if deep < 2 else 2, 10 if deep < 2 else 120, deep > 1)]
def win_plan(prop, deep):
    """the Windows implementation: representative programs in the quick tier, the whole families in the thorough one"""
    few = deep < 2
    def pick(ss, *pats):
        return names(ss, *pats) if few else ss
    MT = ('mutex', 'tmutex')
    lk = lambda: pick(all_locks(False, MT), '_ll', '_lt', '_via_3') + pick(scen.timed_locks(False), 'tl_', 'tlrace', 'tlpast')
    ca = [('mutex', False), ('spin', False), ('sspin', True)][:2 if few else 3]
    ev = {'C09': scen.sems, 'C10': scen.ares, 'C11': scen.mres}
    if prop in ('C01', 'C02', 'C03'):
        return lk() + scen.beaten(1, ('tl',))
    if prop == 'C05':
        return pick(cv_plain(False, MT[:1] if few else MT), '_n1', '_n2', '_plain', '_tw_', 'reacq') + scen.beaten(1, ('cv',))
    if prop == 'C06':
        return pick(cv_any(False, ca), '_n1', '_plain', '_tw_') + scen.beaten(1, ('cv',))
    if prop == 'C07':
        return pick(cv_plain(False, MT[:1]) + cv_any(False, ca[:1]), '_n1', '_plain1', '_tw_', '_pthrow', 'reacq') + names(scen.faults_win(), 'fw_cv')
    if prop == 'C08':
        return pick(cv_plain(False, MT[:1]) + cv_any(False, ca[:1]), '_n1', '_twp', '_pthrow')
    if prop in ev:
        return pick(ev[prop](False), '_2w', '_try', '_pw', '_tw_', '_sr') + (scen.sem_limits(False) if prop == 'C09' else [])
    if prop == 'C12':
        return pick(scen.sems(False) + scen.ares(False) + scen.mres(False), '2w', '_pw', '_tw_', '_sr')
    if prop == 'C13':
        t = scen.timed_locks(False) + names(cv_plain(False, MT[:1]) + cv_any(False, ca[:1]), '_tw') + scen.clockset(False) + [s for f in ev.values() for s in f(False) if any(op[0] == 'twait' for th in s.threads for op in th)]
        return pick(t, '_0', '_2') + scen.beaten(1)
    if prop == 'C22':
        return scen.faults_win() + scen.sem_limits(False)
    return []
def mac_plan(prop, deep):
    """semaphores of OS X and the auto-reset events built on them"""
    d = deep > 1
    if prop == 'C09':
        return scen.sems(d)
    if prop == 'C10':
        return scen.ares(d) if d else names(scen.ares(False), '_2w', '_try', '_pw', '_tw_', '_sr')
    if prop == 'C12':
        return names(scen.sems(d) + scen.ares(d), '2w', '_pw', '_tw_', '_sr')
    if prop == 'C13':
        return scen.beaten(deep, ('ev',)) + scen.clockset(d, ('ev',)) + [s for s in scen.sems(d) + scen.ares(d) if any(op[0] == 'twait' for th in s.threads for op in th)]
    if prop == 'C22':
        return scen.faults_create(True, True, False)
    return []
def sync_plan(prop, deep):
    r = fixed_plan(prop, deep)
    w = win_plan(prop, deep)
    if w:
        r = r + [('win', w)]
    m = mac_plan(prop, deep)
    if m:
        r = r + [('mac', [x for x in m if not x.name.startswith(('sem_big', 'semmax'))])]   # its constructor posts the initial count one by one
    g = {'C01': {'futex': ('mutex', 'tmutex', 'spin', 'sspin'), 'notmo': ('tmutex',), 'boolspin': ('spin',)}, 'C04': {'futex': ('sspin',)}, 'C05': {'futex': ('cv:mutex', 'cv:tmutex')},
         'C06': {'futex': ('cva:mutex', 'cva:tmutex', 'cva:spin', 'cva:sspin', 'cva:sspin:s')}, 'C09': dict.fromkeys(EV, ('sem',)), 'C10': dict.fromkeys(EV, ('are',)), 'C11': dict.fromkeys(EV, ('mre',)),
         'C12': dict.fromkeys(EV, ('sem', 'are', 'mre')), 'C13': {**dict.fromkeys(EV, ('sem', 'are', 'mre')), 'notmo': ('tmutex',)}, 'C21': dict.fromkeys(EV, ('sem', 'are', 'mre'))}
    g['C02'] = g['C03'] = g['C01']
    g['C07'] = g['C08'] = {'futex': g['C05']['futex'] + g['C06']['futex']}
    return [(v, ss + gen(deep, *g.get(prop, {}).get(v, ()))) for v, ss in r]
def fixed_plan(prop, deep):
    if prop in ('C01', 'C02', 'C03'):
        return p_locks(deep)
    if prop == 'C04':
        return [('ndebug', names(scen.shared(deep), 'ss_rrw', 'ss_tx', 'ss_hold')), ('futex', scen.shared(deep) + scen.locks('sspin', deep) + names(scen.cvs('cva', 'sspin', False, True), 'n1', 'reacq', 'free'))]
    if prop == 'C05':
        return [('futex', cv_plain(deep) + names(scen.clockset(deep, ('cv',)), 'cs_cv_'))] + [(v, names(cv_plain(False, ('mutex',)), '_n1', '_plain', '_tw_')) for v in ('oldcxx', 'ndebug', 'ndemul')]
    if prop == 'C06':
        return [('futex', cv_any(deep) + names(scen.clockset(deep, ('cv',)), 'cs_cva_'))] + [(v, names(cv_any(False, [('mutex', False), ('spin', False)]), '_n1', '_plain', '_tw_')) for v in ('oldcxx', 'ndebug', 'ndemul')]
    if prop == 'C07':
        return [('futex', cv_plain(deep) + cv_any(deep) + scen.faults_cv()), ('eintr', scen.eintr_pthread()), ('ndebug', names(cv_plain(False, ('mutex',)) + cv_any(False, [('mutex', False)]), '_n1', '_plain1', '_tw_', '_pthrow') + scen.faults_cv())]
    if prop == 'C08':
        return [('futex', cv_plain(deep) + cv_any(deep) + names(scen.eintr(deep), 'sp_')), ('ndebug', names(cv_plain(False, ('mutex',)) + cv_any(False, [('mutex', False)]), '_n1', '_twp', '_pthrow'))]
    if prop in ('C09', 'C10', 'C11'):
        f = {'C09': scen.sems, 'C10': scen.ares, 'C11': scen.mres}[prop]
        k = {'C09': 'sem', 'C10': 'are', 'C11': 'mre'}[prop]
        extra = names(scen.eintr(deep), 'ei_' + k)
        r = [(v, f(deep) + extra) for v in EV] + [(v, names(f(False), '_2w', '_try', '_pw', '_tw_', '_sr')) for v in ('oldcxx', 'ndebug', 'ndemul')]
        if prop == 'C09':
            r = [(v, s + scen.sem_limits(v not in ('futex', 'pthr', 'ndebug'))) for v, s in r]
        return r
    if prop == 'C12':
        return [(v, scen.sems(deep) + scen.ares(deep) + scen.mres(deep)) for v in EV] + [(v, names(scen.sems(False) + scen.ares(False) + scen.mres(False), '2w', '_pw', '_tw_', '_sr')) for v in ('ndebug', 'ndemul')]
    if prop == 'C13':
        t = scen.timed_locks(deep)
        cv = names(cv_plain(deep) + cv_any(deep), '_tw') + scen.clockset(deep, ('cv',))
        tc, ec = scen.clockset(deep, ('tl',)), scen.clockset(deep, ('ev',))
        t = t + tc
        bl, bc, be = (scen.beaten(deep, (p,)) for p in ('tl', 'cv', 'ev'))
        ev = [s for s in scen.sems(deep) + scen.ares(deep) + scen.mres(deep) + names(scen.eintr(deep), 'ei_', 'sp_') if any(op[0] in ('twait', 'tlock', 'cvwait') for th in s.threads for op in th)]
        return [('futex', t + cv + ev + ec + bl + bc + be), ('notmo', t + bl), ('pthr', ev + ec + be), ('emul', ev + ec + be), ('ndebug', names(t + cv + ev, '_0')), ('ndemul', names(t + ev, '_0'))]
    if prop == 'C21':
        e = scen.eintr(deep)
        tl = names(e, 'sp_tl')
        return [(v, e) for v in EV] + [('notmo', tl), ('eintr', scen.eintr_pthread()), ('ndebug', names(e, 'ei_')), ('ndemul', names(e, 'ei_') + tl)]
    if prop == 'C22':
        A = scen.faults_lock(); nofl = [s for s in A if not s.name.startswith('fl_tmutex')]
        return [('futex', A + scen.faults_tlock(False) + scen.faults_cv() + scen.faults_create(True, True, False) + scen.sem_limits(False)),
                ('noinit', A + scen.faults_tlock(False) + scen.faults_create(False, True, False)),
                ('emulni', nofl + scen.faults_tlock(True) + scen.faults_create(False, False, True) + scen.sem_limits(True) + scen.faults_cv()),
                ('ndebug', nofl + scen.faults_tlock(False) + scen.faults_cv() + scen.faults_create(True, True, False) + scen.sem_limits(False)),
                ('ndemul', nofl + scen.faults_tlock(True) + scen.faults_create(False, False, True) + scen.sem_limits(True) + scen.faults_cv()),
                ('oldcxx', nofl + scen.faults_tlock(True) + scen.sem_limits(True) + scen.faults_cv())]
    if prop in TSS:
        deep_ = deep
        p = {'C17': scen.tss_values, 'C18': scen.tss_clean, 'C19': scen.tss_exit, 'C20': scen.tss_notify}
        ss = p[prop](deep)
        if prop != 'C20':
            ss = ss + scen.rnd_tss(1 + 10 * int(deep), 12 if deep < 2 else 150, deep > 1)
        ss = ss + names(scen.tss_oom(deep), *{'C17': ('om_set', 'om_new'), 'C18': ('om_set',), 'C19': ('om_exit',), 'C20': ('om_nate',)}[prop])
        if prop != 'C20':
            ss = ss + scen.tss_ext(deep)
        if prop in ('C17', 'C19'):
            ss = ss + scen.tss_clean(0)
        if prop in ('C17', 'C18', 'C19'):
            ss = ss + scen.tss_notify(0)
        return [('futex', ss), ('tls', ss), ('ndebug', [x for x in ss if not x.name.startswith('rnd')])] + [(v, [x for x in ss if not x.name.startswith('tx')]) for v in ('win', 'win6')]
    return []
TSS = ('C17', 'C18', 'C19', 'C20')
def TSS_TUS(v):
    return ['h_lock', 'h_cv', 'h_tss', 'src/tss_windows.cpp' if v.startswith('win') else 'src/tss_pthread.cpp']
def run(prop, deep, cov, seed):
    out = []
    deep = 2 if deep else 1
    pl = sync_plan(prop, deep)
    mc = ThreadPoolExecutor(1).submit(eng_mc.run, prop, deep > 1, 2 if deep < 2 else 4)
    if pl:
        out += eng_sync.run([(v, uniq(s)) for v, s in pl], cov, seed, budget=60 if deep > 1 else 15, tus=TSS_TUS if prop in TSS else eng_sync.TUS)
    if prop in ('C15', 'C16'):
        out += eng_lock.run(eng_lock.QUICK if deep < 2 else eng_lock.DEEP, cov, seed, 300 if deep < 2 else 5000, 40 if deep < 2 else 120)
    if prop == 'C14':
        T = ['tmutex', 'sem', 'are', 'mre', 'cv', 'cva', 'cv+1', 'cva+1']
        out += eng_time.run([('futex', T), ('pthr', ['are', 'mre']), ('emul', ['sem', 'are', 'mre']), ('notmo', ['tmutex']), ('mac', ['sem', 'are']), ('win', T if deep > 1 else ['tmutex', 'sem', 'are', 'cv', 'cva+1'])], cov, seed, 10 if deep < 2 else 40)
    r = mc.result()
    if r:
        cov.add(states=r[0], transitions=r[1], traces_validated_against_impl=0, executions=0, samples=[], part=r[2])
    return out
