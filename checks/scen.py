"""Scenario programs: small concurrent programs over the public API, per property."""
from vtrace import Scen
MS = 1000000
REL3 = (0, 1, 2)            # one relative form, one on the system clock, one on another clock
PATH6 = (0, 1, 2, 3, 4, 11)  # every timed function with each kind of timeout: wait_for, wait_until (system, other clock), timed_wait (relative, system, other clock)
SEC = 1000 * MS
LONG = ((SEC, 300 * MS), (100 * SEC, 30 * SEC), (900 * SEC, 400 * SEC))   # deadlines far away, and something that happens on the way
def nm(*a):
    return '_'.join(str(x) for x in a)
# ------------------------------------------------------------------ mutexes
def crit(o, v, val, how):
    """lock, touch shared data, unlock"""
    return [how, ('getv', v), ('setv', v, val), ('unlock', o)]
def locks(kind, deep):
    S = []
    L = lambda via=0: ('lock', 0, via)
    B = 2 + int(deep)
    ob = [(kind, 0), ('var', 0)]
    S.append(Scen(nm(kind, 'll'), ob, [crit(0, 1, 1, L()) + crit(0, 1, 2, L()), crit(0, 1, 3, L()) + crit(0, 1, 4, L())], bound=B + 1))
    S.append(Scen(nm(kind, 'lll'), ob, [crit(0, 1, i, L()) for i in (1, 2, 3)], bound=B))
    S.append(Scen(nm(kind, 'lt'), ob, [crit(0, 1, 1, L()), [('trylock', 0, 0), ('unlock', 0), ('trylock', 0, 0), ('unlock', 0)], crit(0, 1, 2, ('trylock', 0, 0))[0:1] + [('unlock', 0)]], bound=B))
    S.append(Scen(nm(kind, 'ttt'), ob, [[('trylock', 0, v), ('unlock', 0)] for v in (0, 1, 3)], bound=B))
    for a, b in ((1, 2), (3, 4), (5, 1), (2, 3)):
        S.append(Scen(nm(kind, 'via', a, b), ob, [crit(0, 1, 1, L(a)), crit(0, 1, 2, L(b)), [('trylock', 0, 3), ('unlock', 0)]], bound=B))
    # unlock and relock through the same lock object
    S.append(Scen(nm(kind, 'relock'), ob, [[('lock', 0, 3), ('setv', 1, 1), ('unlock', 0, 1), ('lock', 0, 3), ('getv', 1), ('unlock', 0)], crit(0, 1, 2, L())], bound=B))
    S.append(Scen(nm(kind, 'hold'), ob, [[L(), ('setv', 1, 1), ('settle',), ('unlock', 0)], crit(0, 1, 2, L()), [('settle',), ('trylock', 0, 0), ('unlock', 0)]], bound=B))
    S.append(Scen(nm(kind, 'four'), ob, [crit(0, 1, i, L()) for i in (1, 2, 3, 4)], bound=1, maxexec=6000))
    if deep:
        S.append(Scen(nm(kind, 'lll2'), ob, [crit(0, 1, i, L()) + crit(0, 1, i + 3, L()) for i in (1, 2, 3)], bound=2, maxexec=60000, rand=8000))
        S.append(Scen(nm(kind, 'five'), ob, [crit(0, 1, i, L()) for i in (1, 2, 3, 4, 5)], bound=1, maxexec=20000, rand=5000))
    return S
def timed_locks(deep):
    S = []
    ob = [('tmutex', 0), ('var', 0)]
    B = 2 + int(deep)
    for f in REL3:
        for via in (0, 1, 3):
            if via and f and not deep and (via, f) not in ((1, 1), (3, 2)):
                continue
            S.append(Scen(nm('tl', f, via), ob, [[('tlock', 0, via, f, 10 * MS), ('setv', 1, 1), ('unlock', 0)] if False else [('tlock', 0, via, f, 10 * MS), ('unlock', 0)],
                     [('lock', 0, 0), ('sleep', 5 * MS), ('setv', 1, 2), ('unlock', 0)]], bound=B, spurious=1))
            S.append(Scen(nm('tlto', f, via), ob, [[('tlock', 0, via, f, 10 * MS), ('unlock', 0)], [('lock', 0, 0), ('sleep', 15 * MS), ('unlock', 0)]], bound=B, spurious=1))
        S.append(Scen(nm('tl2', f), ob, [[('tlock', 0, 0, f, 10 * MS), ('unlock', 0)], [('tlock', 0, 0, f, 20 * MS), ('unlock', 0)], [('lock', 0, 0), ('sleep', 10 * MS), ('unlock', 0)]], bound=B - 1 if not deep else 2, maxexec=15000))
        S.append(Scen(nm('tlpast', f), ob, [[('tlock', 0, 0, f, 0), ('unlock', 0)], [('lock', 0, 0), ('unlock', 0)]], bound=B))
        S.append(Scen(nm('tlneg', f), ob, [[('tlock', 0, 0, f, -5 * MS), ('unlock', 0)], [('lock', 0, 0), ('sleep', 3 * MS), ('unlock', 0)]], bound=B))
    for f in PATH6:
        S.append(Scen(nm('tlr', f), ob, [[('tlock', 0, 0, f, 10 * MS), ('unlock', 0)], [('lock', 0, 0), ('setv', 1, 2), ('unlock', 0)], [('tlock', 0, 3, f, 10 * MS), ('unlock', 0)]], bound=2))
        for i, (a, b) in enumerate(LONG):
            S.append(Scen(nm('tllong', f, i), ob, [[('tlock', 0, 0, f, a), ('unlock', 0)], [('lock', 0, 0), ('sleep', b), ('setv', 1, 2), ('unlock', 0)]], bound=1, spurious=1))
            S.append(Scen(nm('tllongt', f, i), ob, [[('tlock', 0, 3, f, b), ('unlock', 0)], [('lock', 0, 0), ('sleep', a), ('setv', 1, 2), ('unlock', 0)]], bound=1, spurious=1))
    # handover between timed and untimed waiters
    S.append(Scen('tlmix', ob, [[('lock', 0, 0), ('sleep', 5 * MS), ('unlock', 0)], [('lock', 0, 0), ('setv', 1, 1), ('unlock', 0)], [('tlock', 0, 0, 0, 5 * MS), ('unlock', 0)]], bound=B, spurious=1))
    S.append(Scen('tlrace', ob, [[('lock', 0, 0), ('settle',), ('unlock', 0)], [('tlock', 0, 0, 0, 5 * MS), ('unlock', 0)], [('lock', 0, 0), ('unlock', 0)], [('trylock', 0, 0), ('unlock', 0)]], bound=B, maxexec=15000))
    return S
def shared(deep):
    S = []
    ob = [('sspin', 0), ('var', 0)]
    B = 2 + int(deep)
    R = lambda via=0: [('lock_sh', 0, via), ('getv', 1), ('unlock_sh', 0)]
    T = lambda via=0: [('trylock_sh', 0, via), ('unlock_sh', 0)]
    W = lambda i, via=0: [('lock', 0, via), ('setv', 1, i), ('unlock', 0)]
    X = lambda via=0: [('trylock', 0, via), ('unlock', 0)]
    S.append(Scen('ss_rrw', ob, [R(), R(), W(1)], bound=B))
    S.append(Scen('ss_rw', ob, [R() + R(), W(1) + W(2)], bound=B + 1))
    S.append(Scen('ss_ww_r', ob, [W(1), W(2), R(1)], bound=B))
    S.append(Scen('ss_tt', ob, [T(), T(1), R(3)], bound=B + (1 if deep else 0)))
    S.append(Scen('ss_t_rr', ob, [R() + R(), T() + T()], bound=B + 1))
    S.append(Scen('ss_tx', ob, [X(), T(), R(2)], bound=B))
    S.append(Scen('ss_xr', ob, [R(), X() + X(), R()], bound=B))
    S.append(Scen('ss_hold_r', ob, [[('lock_sh', 0, 0), ('settle',), ('unlock_sh', 0)], [('settle',), ('trylock_sh', 0, 0), ('unlock_sh', 0)], W(1), [('settle',), ('trylock', 0, 0), ('unlock', 0)]], bound=B if deep else 1))
    S.append(Scen('ss_hold_w', ob, [[('lock', 0, 0), ('settle',), ('unlock', 0)], [('settle',), ('trylock_sh', 0, 0), ('unlock_sh', 0)], R(), W(3)], bound=B if deep else 1))
    S.append(Scen('ss_5r', ob, [R(), R(), R(), R(), W(1)], bound=1, maxexec=8000))
    S.append(Scen('ss_rt_w', ob, [R() + T(), W(1), X(1)], bound=B))
    S.append(Scen('ss_readers_stay', ob, [[('lock_sh', 0, 0), ('settle',), ('settle',), ('unlock_sh', 0)], [('settle',), ('lock_sh', 0, 0), ('unlock_sh', 0), ('trylock_sh', 0, 0), ('unlock_sh', 0)], [('settle',), ('trylock', 0, 0), ('unlock', 0)]], bound=1))
    # many readers
    n = 300
    S.append(Scen('ss_many', ob, [[('lock_sh', 0, 0), ('settle',), ('unlock_sh', 0)] for _ in range(n)] + [[('settle',), ('trylock', 0, 0), ('unlock', 0)], W(1)], lazy=True, hb=0, bound=0, rand=2 if not deep else 10, maxexec=3))
    # counts of shared owners that need more than 8 or 16 bits
    for n in (300, 70000) if deep < 2 else (129, 257, 300, 33000, 65536, 70000):
        S.append(Scen(nm('ss_big', n), ob, [[('lock_sh', 0, 6, n), ('settle',), ('settle',), ('unlock_sh', 0)], [('settle',), ('trylock', 0, 0), ('unlock', 0), ('trylock_sh', 0, 0), ('unlock_sh', 0), ('settle',), ('settle',), ('trylock', 0, 0), ('setv', 1, 7), ('unlock', 0)]], bound=0, maxexec=2, rand=2, maxsteps=2000000))
    return S
# ------------------------------------------------------------------ condition variables
def cvs(cvk, mk, deep, sh=False):
    """cv kind, mutex kind"""
    S = []
    p = nm(cvk, mk) + ('s' if sh else '')
    ob = [(mk, 0), (cvk, 0), ('var', 0)]
    B = 2 + int(deep)
    via = 3
    LK = ('lock_sh', 0, 3) if sh else ('lock', 0, via)
    UL = ('unlock_sh', 0) if sh else ('unlock', 0)
    wt = lambda pred=-1, need=0, form=-1, v=0: [LK, ('cvwait', 1, 0, form, v, pred, need), UL]
    # waiter, notifier under the lock / outside
    S.append(Scen(nm(p, 'n1'), ob, [wt(2, 1), [('lock', 0, 0), ('setv', 2, 1), ('unlock', 0), ('notify1', 1)]], bound=B + 1))
    S.append(Scen(nm(p, 'n1in'), ob, [wt(2, 1), [('lock', 0, 0), ('setv', 2, 1), ('notify1', 1), ('unlock', 0)]], bound=B + 1, spurious=1))
    S.append(Scen(nm(p, 'nN'), ob, [wt(2, 1), wt(2, 1), [('lock', 0, 0), ('setv', 2, 1), ('unlock', 0), ('notifyN', 1)]], bound=B))
    S.append(Scen(nm(p, 'n1n1'), ob, [wt(2, 1), wt(2, 1), [('lock', 0, 0), ('setv', 2, 1), ('unlock', 0), ('notify1', 1), ('notify1', 1)]], bound=B))
    # plain waits with a settled start: every notification counts
    S.append(Scen(nm(p, 'plain1'), ob, [wt(), wt(), [('settle',), ('notify1', 1), ('settle',), ('notify1', 1)]], bound=B))
    S.append(Scen(nm(p, 'plainN'), ob, [wt(), wt(), [('settle',), ('notifyN', 1)]], bound=B))
    S.append(Scen(nm(p, 'late'), ob, [wt(), [('settle',), ('notify1', 1), ('open', 0)], [('await', 0)] + wt(), [('settle',), ('settle',), ('settle',), ('notifyN', 1)]], bound=1, maxexec=6000))
    S.append(Scen(nm(p, 'two_notifiers'), ob, [wt(), wt(), [('settle',), ('notify1', 1)], [('settle',), ('notify1', 1)]], bound=1, maxexec=8000))
    # the mutex is free while blocked
    S.append(Scen(nm(p, 'free'), ob, [wt(), [('settle',), ('trylock', 0, 0), ('unlock', 0), ('settle',), ('notifyN', 1)]], bound=B))
    # waiter must own the mutex again: notifier keeps it for a while
    S.append(Scen(nm(p, 'reacq'), ob, [wt(), [('settle',), ('lock', 0, 0), ('notifyN', 1), ('settle',), ('setv', 2, 5), ('unlock', 0)]], bound=B))
    # timed
    rich = mk == 'mutex' or (deep and not sh)
    for f in PATH6 if rich else REL3:
        # a timed wait without predicate, racing with the notification
        S.append(Scen(nm(p, 'twr', f), ob, [wt(-1, 0, f, 10 * MS), [('lock', 0, 0), ('setv', 2, 1), ('unlock', 0), (('notify1', 'notifyN')[f % 2], 1)]], bound=B))
        # far deadlines: the waiter's mutex is held for long, then it is notified
        for i, (a, b) in enumerate(LONG if rich else ()):
            N = [('sleep', b // 2), ('lock', 0, 0), ('sleep', b), ('setv', 2, 1), ('unlock', 0), ('notify1', 1)]
            S.append(Scen(nm(p, 'twlong', f, i), ob, [wt(-1, 0, f, a), N], bound=1))
            S.append(Scen(nm(p, 'twlongp', f, i), ob, [wt(2, 1, f, a), N], bound=1))
            S.append(Scen(nm(p, 'twlongt', f, i), ob, [wt(2, 1, f, a), [('sleep', b), ('notify1', 1), ('sleep', b), ('notifyN', 1)]], bound=1, spurious=1))
    for f in PATH6 if rich else REL3:
        S.append(Scen(nm(p, 'tw', f), ob, [wt(-1, 0, f, 10 * MS), [('sleep', 5 * MS), ('notify1', 1)]], bound=B, spurious=1))
        S.append(Scen(nm(p, 'twp', f), ob, [wt(2, 1, f, 10 * MS), [('sleep', 5 * MS), ('notify1', 1), ('sleep', 10 * MS), ('lock', 0, 0), ('setv', 2, 1), ('unlock', 0)]], bound=B, spurious=1))
        S.append(Scen(nm(p, 'twp2', f), ob, [wt(2, 1, f, 10 * MS), [('sleep', 10 * MS), ('lock', 0, 0), ('setv', 2, 1), ('notify1', 1), ('unlock', 0)]], bound=B))
        S.append(Scen(nm(p, 'twpast', f), ob, [wt(-1, 0, f, 0), wt(2, 1, f, -3 * MS)], bound=1))
        S.append(Scen(nm(p, 'twhold', f), ob, [wt(2, 1, f, 10 * MS), [('settle',), ('lock', 0, 0), ('sleep', 20 * MS), ('unlock', 0)]], bound=1, spurious=1))
    # predicate: already true, throwing, several steps
    S.append(Scen(nm(p, 'ptrue'), ob, [wt(2, 0), wt(2, 0, 0, 5 * MS)], bound=1))
    S.append(Scen(nm(p, 'pthrow'), ob, [[LK, ('cvwait', 1, 0, -1, 0, 2, 99), UL], [('trylock', 0, 0), ('unlock', 0)]], bound=B))
    S.append(Scen(nm(p, 'pthrow_t'), ob, [[LK, ('cvwait', 1, 0, 0, 5 * MS, 2, 99), UL], [('lock', 0, 0), ('unlock', 0)]], bound=B))
    S.append(Scen(nm(p, 'steps'), ob, [wt(2, 2), [('lock', 0, 0), ('setv', 2, 1), ('notify1', 1), ('unlock', 0), ('lock', 0, 0), ('setv', 2, 2), ('notify1', 1), ('unlock', 0)]], bound=B, spurious=1))
    S.append(Scen(nm(p, 'rewait'), ob, [[LK, ('cvwait', 1, 0, -1, 0, 2, 1), ('cvwait', 1, 0, -1, 0, 2, 2), UL], [('lock', 0, 0), ('setv', 2, 1), ('unlock', 0), ('notifyN', 1), ('settle',), ('lock', 0, 0), ('setv', 2, 2), ('unlock', 0), ('notifyN', 1)]], bound=B))
    if deep:
        S.append(Scen(nm(p, 'three'), ob, [wt(2, 1), wt(2, 1), wt(2, 1), [('lock', 0, 0), ('setv', 2, 1), ('unlock', 0), ('notify1', 1), ('notifyN', 1)]], bound=2, maxexec=40000, rand=5000))
        S.append(Scen(nm(p, 'mix'), ob, [wt(2, 1), wt(2, 1, 0, 10 * MS), [('lock', 0, 0), ('setv', 2, 1), ('unlock', 0), ('notify1', 1)]], bound=3, maxexec=40000, rand=3000))
    return S
# ------------------------------------------------------------------ semaphore and events
def sems(deep):
    S = []
    B = 2 + int(deep)
    s0, s1, s2 = [('sem', 0)], [('sem', 1)], [('sem', 2)]
    S.append(Scen('sem_pw', s0, [[('post', 0), ('post', 0)], [('wait', 0), ('wait', 0)]], bound=B + 1))
    S.append(Scen('sem_2w', s0, [[('wait', 0)], [('wait', 0)], [('post', 0), ('post', 0)]], bound=B + (1 if deep else 0)))
    S.append(Scen('sem_2w1', s1, [[('wait', 0)], [('wait', 0)], [('post', 0)]], bound=B))
    S.append(Scen('sem_2p', s0, [[('wait', 0), ('wait', 0)], [('post', 0)], [('post', 0)]], bound=B))
    S.append(Scen('sem_try', s1, [[('trywait', 0), ('trywait', 0)], [('trywait', 0), ('post', 0)], [('wait', 0), ('post', 0)]], bound=B))
    S.append(Scen('sem_init2', s2, [[('wait', 0), ('trywait', 0)], [('trywait', 0), ('trywait', 0)]], bound=B))
    S.append(Scen('sem_setl', s0, [[('wait', 0)], [('wait', 0)], [('settle',), ('post', 0), ('settle',), ('post', 0)], [('settle',), ('trywait', 0)]], bound=1))
    for f in REL3:
        S.append(Scen(nm('sem_tw', f), s0, [[('twait', 0, f, 10 * MS), ('trywait', 0)], [('sleep', 10 * MS), ('post', 0)]], bound=B))
        S.append(Scen(nm('sem_tw2', f), s0, [[('twait', 0, f, 10 * MS)], [('twait', 0, f, 20 * MS)], [('sleep', 5 * MS), ('post', 0), ('trywait', 0)]], bound=B))
        S.append(Scen(nm('sem_twpast', f), s1, [[('twait', 0, f, 0), ('twait', 0, f, -2 * MS)], [('trywait', 0), ('post', 0)]], bound=B))
        S.append(Scen(nm('sem_mixw', f), s0, [[('twait', 0, f, 5 * MS)], [('wait', 0)], [('sleep', 5 * MS), ('post', 0)], [('settle',), ('post', 0)]], bound=1, maxexec=10000))
    for f in PATH6:
        S.append(Scen(nm('sem_twr', f), s0, [[('twait', 0, f, 10 * MS), ('trywait', 0)], [('post', 0), ('trywait', 0), ('post', 0)], [('twait', 0, f, 10 * MS)]], bound=2))
        for i, (a, b) in enumerate(LONG):
            S.append(Scen(nm('sem_long', f, i), s0, [[('twait', 0, f, a), ('trywait', 0)], [('sleep', b), ('post', 0), ('trywait', 0)]], bound=1, eintr=1))
            S.append(Scen(nm('sem_longt', f, i), s0, [[('twait', 0, f, b), ('trywait', 0)], [('sleep', a), ('post', 0), ('trywait', 0)]], bound=1, eintr=1))
    if deep:
        S.append(Scen('sem_3w', s0, [[('wait', 0)], [('wait', 0)], [('wait', 0)], [('post', 0), ('post', 0), ('post', 0)]], bound=2, maxexec=40000, rand=4000))
        S.append(Scen('sem_ring', s1, [[('wait', 0), ('post', 0), ('wait', 0), ('post', 0)]] * 3, bound=2, maxexec=60000, rand=5000))
        S.append(Scen('sem_mix', s1, [[('twait', 0, 0, 5 * MS), ('post', 0)], [('trywait', 0), ('wait', 0)], [('post', 0), ('trywait', 0)]], bound=3, maxexec=60000, rand=5000))
    # values that need more than 8 or 16 bits
    for n in (255, 65535) if deep < 2 else (127, 255, 32767, 65535, 16777215, 2147483646):
        S.append(Scen(nm('sem_big', n), [('sem', n)], [[('post', 0), ('trywait', 0), ('trywait', 0), ('twait', 0, 0, 5 * MS)], [('wait', 0), ('post', 0)]], bound=1, maxexec=50, rand=10))
    S.append(Scen('sem_up', s0, [[('post', 0)] * 260 + [('trywait', 0)] * 261], bound=0, hb=0, maxexec=2, rand=0))
    n = 30
    S.append(Scen('sem_many', s0, [[('wait', 0)] for _ in range(n)] + [[('settle',)] + [('post', 0)] * n], lazy=True, hb=0, bound=0, rand=3, maxexec=3))
    return S
def ares(deep):
    S = []
    B = 2 + int(deep)
    o = [('are', 0)]
    S.append(Scen('are2w', o, [[('wait', 0)], [('wait', 0)], [('settle',), ('post', 0), ('post', 0)]], bound=B))
    S.append(Scen('are3w', o, [[('wait', 0)], [('wait', 0)], [('wait', 0)], [('settle',), ('post', 0), ('settle',), ('post', 0), ('post', 0)]], bound=1, maxexec=10000))
    S.append(Scen('are_pw', o, [[('wait', 0)], [('wait', 0)], [('post', 0)], [('settle',), ('post', 0), ('settle',), ('post', 0)]], bound=1, maxexec=10000))
    S.append(Scen('are_pp_w', o, [[('wait', 0), ('wait', 0)], [('post', 0), ('post', 0)], [('settle',), ('settle',), ('post', 0)]], bound=B))
    S.append(Scen('are_coal', o, [[('trywait', 0), ('trywait', 0), ('trywait', 0)], [('post', 0)], [('post', 0)]], bound=B))
    S.append(Scen('are_try', o, [[('trywait', 0)], [('post', 0), ('post', 0), ('trywait', 0), ('trywait', 0)]], bound=B + 1))
    S.append(Scen('are_pp', o, [[('post', 0)], [('post', 0), ('trywait', 0)]], bound=B + 1))
    S.append(Scen('are_wt', o, [[('wait', 0)], [('trywait', 0), ('trywait', 0)], [('post', 0), ('settle',), ('post', 0)]], bound=B))
    S.append(Scen('are_pwp', o, [[('post', 0), ('wait', 0)], [('post', 0), ('wait', 0)], [('settle',), ('post', 0), ('settle',), ('post', 0)]], bound=1, maxexec=10000))
    for f in REL3:
        S.append(Scen(nm('are_tw', f), o, [[('twait', 0, f, 1 * MS), ('trywait', 0)], [('post', 0), ('post', 0), ('trywait', 0), ('trywait', 0)]], bound=B))
        S.append(Scen(nm('are_to', f), o, [[('twait', 0, f, 10 * MS), ('trywait', 0)], [('sleep', 10 * MS), ('post', 0), ('settle',), ('trywait', 0)]], bound=B))
        S.append(Scen(nm('are_two', f), o, [[('twait', 0, f, 10 * MS)], [('wait', 0)], [('sleep', 10 * MS), ('post', 0), ('settle',), ('trywait', 0), ('post', 0)]], bound=B))
        S.append(Scen(nm('are_twpast', f), o, [[('twait', 0, f, 0), ('twait', 0, f, -2 * MS)], [('post', 0), ('post', 0), ('trywait', 0)]], bound=B))
        S.append(Scen(nm('are_2to', f), o, [[('twait', 0, f, 10 * MS)], [('twait', 0, f, 10 * MS)], [('sleep', 10 * MS), ('post', 0), ('trywait', 0), ('trywait', 0)]], bound=1, maxexec=10000))
    for f in PATH6:
        S.append(Scen(nm('are_twr', f), o, [[('twait', 0, f, 10 * MS), ('trywait', 0)], [('post', 0), ('trywait', 0), ('post', 0)], [('twait', 0, f, 10 * MS)]], bound=2))
        for i, (a, b) in enumerate(LONG):
            S.append(Scen(nm('are_long', f, i), o, [[('twait', 0, f, a), ('trywait', 0)], [('sleep', b), ('post', 0), ('trywait', 0)]], bound=1, eintr=1))
            S.append(Scen(nm('are_longt', f, i), o, [[('twait', 0, f, b), ('trywait', 0)], [('sleep', a), ('post', 0), ('trywait', 0)]], bound=1, eintr=1))
    if deep:
        S.append(Scen('are_3x', o, [[('wait', 0), ('wait', 0)], [('trywait', 0), ('trywait', 0)], [('post', 0), ('post', 0), ('settle',), ('post', 0), ('settle',), ('post', 0)]], bound=3, maxexec=60000, rand=5000))
        S.append(Scen('are_posters', o, [[('wait', 0)], [('wait', 0)], [('post', 0)], [('post', 0)], [('settle',), ('post', 0), ('settle',), ('post', 0)]], bound=2, maxexec=60000, rand=5000))
        S.append(Scen('are_twmix', o, [[('twait', 0, 0, 5 * MS)], [('wait', 0)], [('twait', 0, 0, 10 * MS)], [('post', 0), ('settle',), ('post', 0), ('settle',), ('post', 0)]], bound=2, maxexec=60000, rand=5000))
    n = 40
    S.append(Scen('are_many', o, [[('wait', 0)] for _ in range(n)] + [[('settle',)] + [('post', 0)] * n], lazy=True, hb=0, bound=0, rand=3, maxexec=3))
    S.append(Scen('are_300', o, [[('post', 0)] * 300 + [('trywait', 0), ('trywait', 0)]], bound=0, hb=0, maxexec=1, rand=0))     # posts are not counted
    n = 1060
    S.append(Scen('are_1060', o, [[('wait', 0)] for _ in range(n)] + [[('settle',)] + [('post', 0)] * n], lazy=True, hb=0, bound=0, rand=0, maxexec=1, maxsteps=4000000))
    return S
def mres(deep):
    S = []
    B = 2 + int(deep)
    o = [('mre', 0)]
    S.append(Scen('mre_2w', o, [[('wait', 0)], [('wait', 0)], [('set', 0)]], bound=B + 1))
    S.append(Scen('mre_setl', o, [[('wait', 0), ('trywait', 0)], [('wait', 0)], [('settle',), ('set', 0), ('settle',), ('reset', 0), ('trywait', 0)]], bound=B))
    S.append(Scen('mre_sr', o, [[('trywait', 0), ('trywait', 0)], [('set', 0), ('reset', 0), ('set', 0)], [('trywait', 0)]], bound=B))
    S.append(Scen('mre_ss', o, [[('set', 0)], [('set', 0), ('trywait', 0)], [('trywait', 0), ('trywait', 0)]], bound=B))
    S.append(Scen('mre_rr', o, [[('set', 0), ('reset', 0), ('trywait', 0)], [('reset', 0), ('trywait', 0)]], bound=B + 1))
    S.append(Scen('mre_again', o, [[('wait', 0), ('settle',), ('wait', 0)], [('set', 0), ('settle',), ('settle',), ('reset', 0), ('settle',), ('set', 0)]], bound=1))
    S.append(Scen('mre_wr', o, [[('wait', 0)], [('set', 0), ('reset', 0), ('settle',), ('set', 0)], [('wait', 0)]], bound=B))
    S.append(Scen('mre_later', o, [[('set', 0), ('open', 0)], [('await', 0), ('wait', 0), ('wait', 0), ('trywait', 0)], [('await', 0), ('twait', 0, 0, 5 * MS), ('reset', 0)]], bound=B))
    for f in REL3:
        S.append(Scen(nm('mre_tw', f), o, [[('twait', 0, f, 10 * MS)], [('sleep', 10 * MS), ('set', 0), ('trywait', 0), ('reset', 0)]], bound=B))
        S.append(Scen(nm('mre_tw2', f), o, [[('twait', 0, f, 10 * MS)], [('twait', 0, f, 20 * MS)], [('sleep', 5 * MS), ('set', 0), ('reset', 0)]], bound=B))
        S.append(Scen(nm('mre_past', f), o, [[('twait', 0, f, 0), ('twait', 0, f, -2 * MS)], [('set', 0), ('trywait', 0)]], bound=B))
    for f in PATH6:
        S.append(Scen(nm('mre_twr', f), o, [[('twait', 0, f, 10 * MS), ('trywait', 0)], [('set', 0), ('reset', 0), ('set', 0)], [('twait', 0, f, 10 * MS)]], bound=2))
        for i, (a, b) in enumerate(LONG):
            S.append(Scen(nm('mre_long', f, i), o, [[('twait', 0, f, a), ('trywait', 0)], [('sleep', b), ('set', 0), ('reset', 0)]], bound=1, eintr=1))
            S.append(Scen(nm('mre_longt', f, i), o, [[('twait', 0, f, b), ('trywait', 0)], [('sleep', a), ('set', 0), ('reset', 0)]], bound=1, eintr=1))
    if deep:
        S.append(Scen('mre_4', o, [[('wait', 0), ('trywait', 0)], [('wait', 0)], [('set', 0), ('reset', 0), ('settle',), ('set', 0)], [('set', 0), ('settle',), ('set', 0)]], bound=2, maxexec=60000, rand=5000))
    n = 300
    S.append(Scen('mre_many', o, [[('wait', 0)] for _ in range(n)] + [[('settle',), ('set', 0)]], lazy=True, hb=0, bound=0, rand=3, maxexec=3))
    return S
# ------------------------------------------------------------------ interruptions
def eintr(deep):
    S = []
    B = 2 + int(deep)
    for k, s, r in (('sem', 'post', 'trywait'), ('are', 'post', 'trywait'), ('mre', 'set', 'reset')):
        o = [(k, 0)]
        S.append(Scen(nm('ei', k, 'w'), o, [[('wait', 0)], [('settle',), (s, 0)]], eintr=2, spurious=2, bound=B + 1))
        S.append(Scen(nm('ei', k, '2w'), o, [[('wait', 0)], [('wait', 0)], [(s, 0), ('settle',), (s, 0)]], eintr=2, spurious=2, bound=B))
        for f in REL3:
            S.append(Scen(nm('ei', k, f), o, [[('twait', 0, f, 10 * MS)], [('sleep', 5 * MS), (s, 0), (r, 0)]], eintr=2, spurious=2, bound=B))
            S.append(Scen(nm('ei', k, 'to', f), o, [[('twait', 0, f, 10 * MS), ('trywait', 0)]], eintr=3, spurious=3, bound=4))
    for mk in ('cv', 'cva'):
        o = [('mutex', 0), (mk, 0), ('var', 0)]
        S.append(Scen(nm('sp', mk, 'w'), o, [[('lock', 0, 3), ('cvwait', 1, 0, -1, 0, 2, 1), ('unlock', 0)], [('settle',), ('lock', 0, 0), ('setv', 2, 1), ('unlock', 0), ('notify1', 1)]], spurious=2, bound=B + 1))
        for f in REL3 + (3,):
            S.append(Scen(nm('sp', mk, f), o, [[('lock', 0, 3), ('cvwait', 1, 0, f, 10 * MS, 2, 1), ('unlock', 0)], [('sleep', 5 * MS), ('notify1', 1)]], spurious=2, bound=B + 1))
    for f in REL3:
        S.append(Scen(nm('sp', 'tl', f), [('tmutex', 0)], [[('tlock', 0, 0, f, 10 * MS), ('unlock', 0)], [('lock', 0, 0), ('sleep', 15 * MS), ('unlock', 0)]], spurious=3, bound=B + 1))
    S.append(Scen('sp_tl_l', [('tmutex', 0)], [[('lock', 0, 0), ('unlock', 0)], [('lock', 0, 0), ('settle',), ('unlock', 0)]], spurious=2, bound=B + 1))
    return S
def beaten(deep, parts=('tl', 'ev', 'cv')):
    """a timed waiter is woken several times before its deadline and finds that another thread was faster"""
    S = []
    B = 1 + int(deep)
    for f in (0, 1, 2) + ((3, 4, 8) if deep > 1 else ()):
        if 'tl' in parts:
            hold = [('lock', 0, 0), ('sleep', 4 * MS), ('unlock', 0), ('lock', 0, 0), ('sleep', 4 * MS), ('unlock', 0), ('lock', 0, 0), ('sleep', 30 * MS), ('unlock', 0)]
            S.append(Scen(nm('bt_tl', f), [('tmutex', 0)], [[('tlock', 0, 0, f, 10 * MS), ('unlock', 0)], hold], bound=B, maxexec=4000, rand=50))
            S.append(Scen(nm('bt_tl2', f), [('tmutex', 0)], [[('tlock', 0, 0, f, 10 * MS), ('unlock', 0)], [('tlock', 0, 3, f, 12 * MS), ('unlock', 0)], hold], bound=1, maxexec=2000, rand=50))
        if 'ev' in parts:
            for k, s, r in (('sem', 'post', 'trywait'), ('are', 'post', 'trywait'), ('mre', 'set', 'reset')):
                S.append(Scen(nm('bt', k, f), [(k, 0)], [[('twait', 0, f, 10 * MS), ('trywait', 0)], [('sleep', 4 * MS), (s, 0), (r, 0), ('sleep', 4 * MS), (s, 0), (r, 0)], [('sleep', 30 * MS), (s, 0)]], bound=B, maxexec=4000, rand=50))
        if 'cv' in parts:   # a notification goes to a waiter that is just giving up, or to one that is not
            for ck in ('cv', 'cva'):
                o = [('mutex', 0), (ck, 0)]
                S.append(Scen(nm('bt', ck, f), o, [[('lock', 0, 3), ('cvwait', 1, 0, f, 10 * MS, -1), ('unlock', 0)], [('lock', 0, 3), ('cvwait', 1, 0, f, 5 * MS, -1), ('unlock', 0)],
                              [('sleep', 5 * MS), ('notify1', 1), ('sleep', 30 * MS), ('notify1', 1)]], bound=B, maxexec=4000, rand=50))
    return S
def clockset(deep, parts=('tl', 'cv', 'ev')):
    """the system clock is set forward while threads wait with deadlines on another clock"""
    S = []
    B = 2 + int(deep)
    D = 10 * MS
    for f in (2, 7, 11):
        for j, (w, J) in enumerate(((5 * MS, 6 * MS), (5 * MS, 2 * MS), (2 * MS, 100 * MS), (1 * MS, 8 * MS))):
            if not deep and f == 7 and j != 2:
                continue
            jmp = [('sleep', w), ('jump', J)]
            if 'tl' in parts:
                S.append(Scen(nm('cs_tl', f, j), [('tmutex', 0), ('var', 0)], [[('tlock', 0, 0, f, D), ('unlock', 0)], [('lock', 0, 0), ('setv', 1, 1)] + jmp + [('sleep', 3 * MS), ('unlock', 0)]], bound=B))
                S.append(Scen(nm('cs_tlt', f, j), [('tmutex', 0), ('var', 0)], [[('tlock', 0, 3, f, D), ('unlock', 0)], [('lock', 0, 0), ('setv', 1, 1)] + jmp + [('sleep', 20 * MS), ('unlock', 0)], jmp], bound=1, maxexec=6000))
            if 'cv' in parts:
                for ck in ('cv', 'cva'):
                    o = [('mutex', 0), (ck, 0), ('var', 0)]
                    for pv in (-1, 2):
                        p = 'p' if pv > 0 else 'n'
                        W = [('lock', 0, 3), ('cvwait', 1, 0, f, D, pv, 1), ('unlock', 0)]
                        S.append(Scen(nm('cs', ck, p, f, j), o, [W, jmp + [('lock', 0, 0), ('setv', 2, 1), ('notify1', 1), ('unlock', 0)]], bound=B))
                        S.append(Scen(nm('cs', ck, p, 'hold', f, j), o, [W, [('sleep', w), ('lock', 0, 0), ('jump', J), ('setv', 2, 1), ('unlock', 0), ('notifyN', 1)]], bound=B))
                        S.append(Scen(nm('cs', ck, p, 'to', f, j), o, [W, jmp + [('sleep', 1 * MS), ('jump', J)]], bound=1, spurious=1))
            if 'ev' in parts:
                for k, s, r in (('sem', 'post', 'trywait'), ('are', 'post', 'trywait'), ('mre', 'set', 'reset')):
                    o = [(k, 0)]
                    S.append(Scen(nm('cs', k, f, j), o, [[('twait', 0, f, D), ('trywait', 0)], jmp + [(s, 0), (r, 0)]], bound=B, eintr=1))
                    S.append(Scen(nm('cs', k, 'to', f, j), o, [[('twait', 0, f, D), ('trywait', 0)], jmp + [('sleep', 4 * MS), ('jump', J)], [('sleep', D), (s, 0)]], bound=1))
                    S.append(Scen(nm('cs', k, '2', f, j), o, [[('twait', 0, f, D)], [('wait', 0)], jmp + [(s, 0), ('settle',), (s, 0)]], bound=1, maxexec=6000))
    return S
FN = {n: i for i, n in enumerate("mutex_init mutex_lock mutex_trylock mutex_timedlock cond_init cond_wait cond_timedwait sem_init sem_post sem_wait sem_trywait sem_timedwait key_create futex_wait cond_signal mutex_unlock setspecific mutex_destroy cond_destroy create_event create_semaphore create_timer set_event reset_event release_semaphore set_timer wait tls_alloc tls_set dup_handle register_wait new".split())}
def inj(fn, err, skip=0):
    return ('inject', FN[fn], err, skip)
def eintr_pthread():
    """pthread functions returning EINTR (platforms with the bug)"""
    S = []
    for mk in ('mutex', 'tmutex'):
        o = [(mk, 0), ('var', 0)]
        S.append(Scen(nm('pe', mk, 'l'), o, [[inj('mutex_lock', 4), ('lock', 0, 0), ('unlock', 0), inj('mutex_trylock', 4), ('trylock', 0, 0), ('unlock', 0)], [('lock', 0, 1), ('unlock', 0)]], bound=2))
    S.append(Scen('pe_tl', [('tmutex', 0)], [[inj('mutex_timedlock', 4), ('tlock', 0, 0, 0, 10 * MS), ('unlock', 0)], [('lock', 0, 0), ('sleep', 5 * MS), ('unlock', 0)]], bound=2))
    for ck in ('cv', 'cva'):
        o = [('mutex', 0), (ck, 0), ('var', 0)]
        S.append(Scen(nm('pe', ck), o, [[('lock', 0, 3), inj('cond_wait', 4), ('cvwait', 1, 0, -1, 0, 2, 1), inj('cond_timedwait', 4), ('cvwait', 1, 0, 0, 5 * MS, 2, 2), ('unlock', 0)],
                 [('lock', 0, 0), ('setv', 2, 1), ('unlock', 0), ('notify1', 1)]], bound=2))
    return S
# ------------------------------------------------------------------ failures of the operating system
def faults_lock():
    S = []
    for k in ('mutex', 'tmutex'):
        o = [(k, 0), ('var', 0)]
        for via in (0, 1, 2, 3):
            S.append(Scen(nm('fl', k, via), o, [[inj('mutex_lock', 11), ('lock', 0, via), ('unlock', 0), ('lock', 0, via), ('unlock', 0)], [('lock', 0, 0), ('unlock', 0)]], bound=1))
        for via in (0, 1, 3):
            S.append(Scen(nm('ft', k, via), o, [[inj('mutex_trylock', 22), ('trylock', 0, via), ('unlock', 0), ('trylock', 0, via), ('unlock', 0)], [('trylock', 0, 0), ('unlock', 0)]], bound=1))
    return S
def faults_tlock(emul):
    S = []
    fn = 'cond_timedwait' if emul else 'mutex_timedlock'
    for f in REL3:
        for via in (0, 1, 3):
            S.append(Scen(nm('ftl', f, via, fn), [('tmutex', 0)], [[('await', 0), inj(fn, 22), ('tlock', 0, via, f, 10 * MS), ('unlock', 0), ('open', 1), ('tlock', 0, via, f, 10 * MS), ('unlock', 0)], [('lock', 0, 0), ('open', 0), ('await', 1), ('unlock', 0)]], bound=1))
    return S
def faults_cv():
    S = []
    for ck in ('cv', 'cva'):
        o = [('mutex', 0), (ck, 0), ('var', 0)]
        for pv in (-1, 2):
            S.append(Scen(nm('fcv', ck, 'p' if pv > 0 else 'n'), o, [[('lock', 0, 3), inj('cond_wait', 22), ('cvwait', 1, 0, -1, 0, pv, 1), ('getv', 2), ('unlock', 0), ('lock', 0, 3), ('cvwait', 1, 0, -1, 0, 2, 1), ('unlock', 0)],
                     [('lock', 0, 0), ('setv', 2, 1), ('unlock', 0), ('notifyN', 1)]], bound=2))
            for f in REL3:
                S.append(Scen(nm('fcv', ck, 't', f, 'p' if pv > 0 else 'n'), o, [[('lock', 0, 3), inj('cond_timedwait', 22), ('cvwait', 1, 0, f, 10 * MS, pv, 1), ('getv', 2), ('unlock', 0), ('lock', 0, 3), ('cvwait', 1, 0, 0, 10 * MS, 2, 1), ('unlock', 0)],
                         [('lock', 0, 0), ('setv', 2, 1), ('unlock', 0), ('notifyN', 1)]], bound=1))
    return S
def faults_create(static_init, sem_posix, emul_timed):
    """constructors: error 12 or 11, then a second attempt works"""
    S = []
    N = -999
    def mk(k, fn, skip=0, use=None, init=0):
        S.append(Scen(nm('fc', k, fn, skip), [(k, N)], [[inj(fn, 12, skip), ('create', 0, init), ('create', 0, init)] + (use or [])], bound=0, leak=1))
    if not static_init:
        mk('mutex', 'mutex_init', use=[('lock', 0, 0), ('unlock', 0)])
        mk('tmutex', 'mutex_init', use=[('lock', 0, 0), ('unlock', 0)])
        if emul_timed:
            mk('tmutex', 'cond_init', use=[('lock', 0, 0), ('unlock', 0)])
        mk('cv', 'cond_init')
        mk('cva', 'cond_init')
        mk('cva', 'mutex_init')
    if sem_posix:
        mk('sem', 'sem_init', use=[('post', 0), ('wait', 0)])
        mk('are', 'sem_init', use=[('post', 0), ('wait', 0)])
    elif not static_init:
        mk('sem', 'mutex_init', use=[('post', 0), ('wait', 0)])
        mk('sem', 'cond_init', use=[('post', 0), ('wait', 0)])
        for k in ('are', 'mre'):
            mk(k, 'mutex_init')
            mk(k, 'cond_init')
    return S
def faults_win():
    """calls of the Windows implementation that the system refuses"""
    S = []
    N = -999
    for k in ('mutex', 'tmutex'):
        o = [(k, 0), ('var', 0)]
        for via in (0, 1, 3):
            for fn in ('create_event', 'wait'):
                # the lock is refused while it is held; afterwards it is available as ever
                S.append(Scen(nm('fw', k, via, fn), o, [[('await', 0), inj(fn, 8), ('lock', 0, via), ('unlock', 0), ('open', 1), ('lock', 0, via), ('unlock', 0)], [('lock', 0, 0), ('open', 0), ('await', 1), ('unlock', 0), ('lock', 0, 0), ('unlock', 0)], [('lock', 0, 3), ('setv', 1, 1), ('unlock', 0)]][:3 if via == 0 else 2], bound=1 if via else 2))
    for f in REL3:
        for via in (0, 3):
            for fn in ('create_event', 'create_timer', 'set_timer', 'wait', 'dup_handle', 'register_wait', 'tls_set'):
                S.append(Scen(nm('fw_tl', f, via, fn), [('tmutex', 0)], [[('await', 0), inj(fn, 8), ('tlock', 0, via, f, 10 * MS), ('unlock', 0), ('open', 1), ('tlock', 0, via, f, 10 * MS), ('unlock', 0)], [('lock', 0, 0), ('open', 0), ('await', 1), ('unlock', 0)]], bound=1, leak=1))
    for ck in ('cv', 'cva'):
        o = [('mutex', 0), (ck, 0), ('var', 0)]
        for f in (-1,) + REL3:
            for fn in ('create_semaphore', 'wait') + (('create_timer', 'set_timer') if f >= 0 else ()):
                for pv in (-1, 2):
                    S.append(Scen(nm('fw', ck, f, fn, 'p' if pv > 0 else 'n'), o, [[('lock', 0, 3), inj(fn, 8, int(f >= 0 and fn == 'create_semaphore')), ('cvwait', 1, 0, f, 10 * MS, pv, 1), ('getv', 2), ('unlock', 0), ('lock', 0, 3), ('cvwait', 1, 0, -1, 0, 2, 1), ('unlock', 0)],
                             [('lock', 0, 0), ('setv', 2, 1), ('unlock', 0), ('notifyN', 1)]], bound=2 if f < 1 else 1, leak=1))
    for k, fn in (('sem', 'create_semaphore'), ('are', 'create_event'), ('mre', 'create_event')):
        s = 'set' if k == 'mre' else 'post'
        S.append(Scen(nm('fw_c', k), [(k, N)], [[inj(fn, 8), ('create', 0, 0), ('create', 0, 0), (s, 0), ('wait', 0)]], bound=0, leak=1))
    S.append(Scen('fw_post', [('sem', 0)], [[inj('release_semaphore', 8), ('post', 0), ('post', 0)], [('wait', 0)]], bound=2))
    for k, s in (('sem', 'post'), ('are', 'post'), ('mre', 'set')):
        S.append(Scen(nm('fw_w', k), [(k, 0)], [[inj('wait', 8), ('wait', 0), ('wait', 0)], [(s, 0)]], bound=2))
        S.append(Scen(nm('fw_y', k), [(k, 0)], [[inj('wait', 8), ('trywait', 0), ('wait', 0)], [(s, 0)]], bound=2))
        for f in REL3:
            for fn in ('wait', 'set_timer', 'create_timer'):
                S.append(Scen(nm('fw_t', k, f, fn), [(k, 0)], [[inj(fn, 8), ('twait', 0, f, 10 * MS), ('twait', 0, f, 10 * MS)], [(s, 0)]], bound=2, leak=1))
    return S
def sem_limits(emul):
    if emul:   # counter is unsigned: 2^32 - 1
        i = 4294967294
        return [Scen('semmax_e', [('sem', i)], [[('post', 0), ('post', 0), ('trywait', 0), ('post', 0), ('post', 0)], [('trywait', 0), ('post', 0)]], spec_init=[1000], spec_max=[1001], bound=2)]
    return [Scen('semmax', [('sem', 2147483646)], [[('post', 0), ('post', 0), ('trywait', 0), ('post', 0), ('post', 0)], [('trywait', 0), ('post', 0)]], spec_init=[1000], spec_max=[1001], bound=2)]
# ------------------------------------------------------------------ generated programs
import random
FORMS = tuple(range(12))
def rnd(kind, seed, count, big=False):
    """Random well-formed programs over one object (plus data); the same seed gives the same programs."""
    S = []
    for n in range(count):
        r = random.Random('%s/%s/%s' % (kind, seed, n))
        opt = dict(bound=3 if big else 2, maxexec=20000 if big else 2500, rand=2000 if big else 250)
        if r.random() < .4: opt['spurious'] = r.choice((1, 2))
        if r.random() < .3: opt['eintr'] = 1
        if r.random() < .3 and kind in ('spin', 'sspin', 'are', 'mre'): opt['weakcas'] = 1
        nt = r.choice((2, 3, 3, 4) if big else (2, 3, 3))
        pause = lambda: r.choice(([('settle',)], [('sleep', r.choice((5, 10)) * MS)], [], [], []))
        tval = lambda f: r.choice((0, 5, 10, 10, 15, -3)) * MS
        T = []
        if kind in ('mutex', 'tmutex', 'spin', 'sspin'):
            ob = [(kind, 0), ('var', 0)]
            for t in range(nt):
                p = []
                for k in range(r.choice((1, 2, 2, 3))):
                    c = r.random(); p += pause()
                    if kind == 'sspin' and c < .5:
                        if r.random() < .5: p += [('lock_sh', 0, r.choice((0, 1, 2, 3))), ('getv', 1)] + pause() + [('unlock_sh', 0)]
                        else: p += [('trylock_sh', 0, r.choice((0, 1, 3)))] + pause() + [('unlock_sh', 0)]
                    elif kind == 'tmutex' and c < .4:
                        f = r.choice(FORMS); p += [('tlock', 0, r.choice((0, 1, 3)), f, tval(f))] + pause() + [('unlock', 0)]
                    elif c < .7: p += [('lock', 0, r.choice((0, 1, 2, 3, 4, 5))), ('getv', 1), ('setv', 1, 10 * t + k + 1)] + pause() + [('unlock', 0)]
                    else: p += [('trylock', 0, r.choice((0, 1, 3)))] + pause() + [('unlock', 0)]
                T.append(p)
        elif kind in ('sem', 'are', 'mre'):
            ob = [(kind, r.choice((0, 0, 1, 2)) if kind == 'sem' else 0)]
            give = ('set', 0) if kind == 'mre' else ('post', 0)
            for t in range(nt):
                p = []
                for k in range(r.choice((1, 2, 2, 3))):
                    p += pause(); c = r.random()
                    if c < .42: p.append(give)
                    elif c < .5: p.append(('reset', 0) if kind == 'mre' else give)
                    elif c < .66: p.append(('wait', 0))
                    elif c < .8: p.append(('trywait', 0))
                    else: f = r.choice(FORMS); p.append(('twait', 0, f, tval(f)))
                T.append(p)
        else:   # cvk:mutex[:s]
            ck, mk, sh = (kind.split(':') + [''])[:3]
            ob = [(mk, 0), (ck, 0), ('var', 0)]
            for t in range(nt):
                p = []
                for k in range(r.choice((1, 1, 2))):
                    p += pause()
                    if r.random() < .5 or t == 0:
                        f = r.choice((-1, -1) + FORMS); v = tval(f) if f >= 0 else 0
                        pv, need = r.choice(((-1, 0), (2, 1), (2, 1), (2, 2), (2, 99)))
                        w = ('cvwait', 1, 0, f, v, pv, need)
                        p += [('lock_sh', 0, r.choice((1, 3))), w, ('unlock_sh', 0)] if sh else [('lock', 0, r.choice((1, 3, 4))), w, ('unlock', 0)]
                    else:
                        nf = (r.choice(('notify1', 'notifyN')), 1)
                        m = r.random()
                        if m < .25: p += [nf]
                        elif m < .6: p += [('lock', 0, 0), ('setv', 2, r.choice((1, 2, 2))), nf] + pause() + [('unlock', 0)]
                        else: p += [('lock', 0, 0), ('setv', 2, r.choice((1, 2, 2)))] + pause() + [('unlock', 0), nf]
                T.append(p)
        S.append(Scen(nm('rnd', kind.replace(':', '-'), seed, n), ob, T, **opt))
    return S
# ------------------------------------------------------------------ thread-specific pointers and thread exit
EX = ('exit',)
def tss_values(deep):
    """C17: isolation"""
    S = []
    B = 2 + int(deep)
    for m in (0, 1, 3):
        S.append(Scen(nm('tv_basic', m), [('tsp', m), ('tsp', 2)], [
            [('pget', 0), ('pset', 0, 11, 0), ('pget', 0), ('pget', 1), ('psame', 0), ('pset', 0, 12, 0), ('pget', 0), ('prel', 0), ('pget', 0), EX],
            [('pget', 0), ('pset', 1, 21, 0), ('pget', 0), ('pset', 0, 22, 0), ('preset', 0), ('pget', 0), ('pget', 1), EX]], bound=1))
    # a later pointer object never shows values of a destroyed one
    S.append(Scen('tv_reuse', [('tsp', 1), ('tsp', -999), ('tsp', 2)], [
        [('pset', 0, 11, 0), ('open', 32), ('await', 33), ('pget', 1), ('pset', 1, 12, 0), ('pget', 1), EX],
        [('await', 32), ('pset', 0, 21, 0), ('pdel', 0), ('pnew', 1, 2), ('pget', 1), ('open', 33), ('pset', 1, 22, 0), ('pget', 1), EX]], bound=1))
    S.append(Scen('tv_many', [('tsp', i % 4) for i in range(9)], [
        [x for i in range(9) for x in (('pset', i, 100 + i, 0), ('pget', (i * 4) % 9))] + [('pget', i) for i in range(9)] + [EX],
        [x for i in range(9) for x in (('pset', 8 - i, 200 + i, 0), ('pget', (i * 2) % 9))] + [('pget', i) for i in range(9)] + [EX]], bound=0, rand=5, maxexec=20))
    n = 70 if deep < 2 else 300
    S.append(Scen('tv_many2', [('tsp', i % 3) for i in range(n)], [
        [('pset', i, 1000 + i, 0) for i in range(n)] + [('pget', i) for i in range(n)] + [EX],
        [('pset', i, 2000 + i, 0) for i in (n - 1, 33, 0)] + [('pget', i) for i in range(n)] + [EX]], bound=0, maxexec=2, rand=3, maxsteps=1000000))
    S.append(Scen('tv_cycle', [('tsp', 1), ('tsp', -999), ('tsp', -999), ('tsp', 0)], [
        [('pset', 0, 11, 0), ('pset', 3, 12, 0), ('open', 32), ('await', 33), ('pget', 1), ('pget', 2), ('pget', 3), ('pset', 2, 13, 0), ('pset', 1, 14, 0), ('pget', 2), ('pget', 1), EX],
        [('await', 32), ('pdel', 0), ('pnew', 1, 2), ('pnew', 2, 0), ('open', 33), ('pget', 1), ('pget', 2), EX]], bound=1))
    # callbacks and cleanup functions see the values of their thread
    S.append(Scen('tv_atexit', [('tsp', 1), ('tsp', 2)], [[('pset', 0, 11, 401), ('pset', 1, 12, 400), ('atexit', 1, 400), ('atexit', 2, 401), EX], [('pset', 0, 21, 0), ('atexit', 3, 400), EX]], bound=1))
    S.append(Scen('tv_late', [('tsp', 1), ('tsp', 2)], [[('atexit', 1, 400), ('atexit', 2, 100), EX], [('pget', 0), EX]], bound=1))
    # first use of the library by several threads at once
    S.append(Scen('tv_first', [('tsp', -999), ('tsp', -999), ('tsp', -999)], [[('pnew', i, 1), ('pset', i, 10 * i + 1, 0), ('pget', i), EX] for i in range(3)], bound=B if deep else 1))
    S.append(Scen('tv_grow', [('tsp', 1), ('tsp', 2), ('tsp', 0)], [[('pset', 2, 11, 0), ('pget', 2), ('pget', 0), EX], [('pset', 0, 21, 0), ('pset', 2, 22, 0), ('pget', 0), EX], [('pset', 1, 31, 0), ('pset', 2, 32, 0), ('pget', 2), EX]], bound=1))
    return S
def tss_clean(deep):
    """C18: exactly once, right function"""
    S = []
    B = 2 + int(deep)
    for a, b in ((1, 2), (0, 1), (3, 1), (2, 0)):
        # a thread ends while another destroys the pointer (and creates another one)
        S.append(Scen(nm('tc_exit_del', a, b), [('tsp', a), ('tsp', b)], [[('pset', 0, 11, 0), ('pset', 1, 12, 0), ('open', 32), EX], [('await', 32), ('pdel', 0), EX]], bound=B))
        S.append(Scen(nm('tc_del_new', a, b), [('tsp', a), ('tsp', -999)], [[('pset', 0, 11, 0), ('open', 32), EX], [('await', 32), ('pdel', 0), ('pnew', 1, b), ('pset', 1, 21, 0), EX]], bound=B))
    S.append(Scen('tc_2exit_del', [('tsp', 1)], [[('pset', 0, 11, 0), ('open', 32), EX], [('pset', 0, 21, 0), ('open', 33), EX], [('pset', 0, 31, 0), ('await', 32), ('await', 33), ('pdel', 0), EX]], bound=B))
    S.append(Scen('tc_alive_del', [('tsp', 2), ('tsp', 1)], [[('pset', 0, 11, 0), ('open', 32), ('pset', 1, 12, 0), ('await', 34), EX], [('pset', 0, 21, 0), ('open', 33), ('pset', 1, 22, 0), EX], [('await', 32), ('await', 33), ('pdel', 0), ('open', 34), EX]], bound=B))
    S.append(Scen('tc_two_del', [('tsp', 1), ('tsp', 2)], [[('pset', 0, 11, 0), ('pset', 1, 12, 0), ('open', 32), EX], [('await', 32), ('pdel', 0), EX], [('await', 32), ('pdel', 1), EX]], bound=B))
    # cleanup functions that store further values
    for act in (100, 101, 301, 700):
        S.append(Scen(nm('tc_nest', act), [('tsp', 1), ('tsp', 2)], [[('pset', 0, 11, act), ('pset', 1, 12, 0), EX], [('pset', 1, 21, 100), EX]], bound=1))
    S.append(Scen('tc_nest_back', [('tsp', 1), ('tsp', 2), ('tsp', 0)], [[('pset', 2, 13, 100), ('pset', 1, 12, 102), ('pset', 0, 11, 101), EX]], bound=0))
    S.append(Scen('tc_nest_del', [('tsp', 1), ('tsp', 2)], [[('pset', 0, 11, 101), ('open', 32), EX], [('await', 32), ('pset', 0, 21, 101), ('pdel', 0), EX]], bound=B))
    # reset and release
    for m in (0, 1, 3):
        S.append(Scen(nm('tc_reset', m), [('tsp', m)], [[('pset', 0, 11, 0), ('pset', 0, 12, 0), ('psame', 0), ('preset', 0), ('preset', 0), ('pset', 0, 13, 0), ('prel', 0), ('prel', 0), ('pset', 0, 14, 0), EX]], bound=0))
    S.append(Scen('tc_first', [('tsp', -999), ('tsp', -999)], [[('pnew', 0, 1), ('pset', 0, 11, 0), ('pdel', 0), EX], [('pnew', 1, 2), ('pset', 1, 21, 0), EX]], bound=B))
    S.append(Scen('tc_recycle', [('tsp', 1), ('tsp', -999), ('tsp', -999)], [[('pset', 0, 11, 0), ('open', 32), ('await', 33), ('pset', 1, 12, 0), EX], [('await', 32), ('pdel', 0), ('pnew', 1, 2), ('open', 33), ('pnew', 2, 0), ('pset', 2, 21, 0), EX]], bound=B))
    S.append(Scen('tc_del_exit_new', [('tsp', 1), ('tsp', -999), ('tsp', 2)], [[('pset', 2, 11, 0), ('open', 32), EX], [('await', 32), ('pdel', 2), ('pnew', 1, 0), ('pset', 1, 21, 0), ('pset', 0, 22, 0), ('pdel', 1), EX]], bound=B))
    return S
def tss_exit(deep):
    """C19: exit callbacks"""
    S = []
    B = 2 + int(deep)
    S.append(Scen('te_order', [('tsp', 1)], [[('atexit', 1, 0), ('atexit', 2, 0), ('atexit', 3, 0), EX], [('atexit', 11, 0), ('atexit', 12, 0), EX]], bound=B))
    S.append(Scen('te_plain', [('tsp', 1)], [[('atexit', 99, 0), ('atexit', 2, 0), EX], [('atexit', 3, 0), EX]], bound=1))
    S.append(Scen('te_nest', [('tsp', 1)], [[('atexit', 1, 0), ('atexit', 2, 220), ('atexit', 3, 221), ('atexit', 4, 630), EX], [EX]], bound=0))
    S.append(Scen('te_nest2', [('tsp', 1), ('tsp', 2)], [[('atexit', 1, 100), ('pset', 1, 12, 240), ('atexit', 2, 220), EX], [('pset', 0, 21, 230), EX]], bound=1))
    S.append(Scen('te_valcb', [('tsp', 1), ('tsp', 0)], [[('pset', 0, 11, 640), ('pset', 1, 12, 700), EX], [('atexit', 5, 0), EX]], bound=1))
    S.append(Scen('te_reset', [('tsp', 1)], [[('pset', 0, 11, 250), ('preset', 0), ('atexit', 1, 300), ('pset', 0, 12, 0), EX]], bound=0))
    S.append(Scen('te_three', [('tsp', 1)], [[('atexit', 10 * i + 1, 0), ('atexit', 10 * i + 2, 0), EX] for i in (1, 2, 3)], bound=1 + int(deep)))
    S.append(Scen('te_many', [('tsp', 1)], [[('atexit', i, 0) for i in range(1, 60)] + [EX], [('atexit', 60 + i, 0) for i in range(1, 30)] + [EX]], bound=0, rand=3, maxexec=5))
    S.append(Scen('te_none', [('tsp', 1)], [[EX], [('atexit', 1, 0), EX]], bound=B))
    return S
def tss_ext(deep):
    """keys of the user's own, whose destructors use the library while the thread ends, before or after the library's own cleanup"""
    S = []
    B = 1 + int(deep)
    for act in (100, 101, 220, 300, 400, 610, 700):
        S.append(Scen(nm('tx_after', act), [('tsp', 1), ('tsp', 2)], [[('pset', 0, 11, 0), ('ext', 51, act), EX], [('ext', 52, act), EX]], bound=1))
        S.append(Scen(nm('tx_before', act), [('tsp', -999), ('tsp', -999)], [[('ext', 51, act), ('pnew', 0, 1), ('pnew', 1, 0), ('pset', 0, 11, 0), ('atexit', 1, 0), EX]], bound=0))
        S.append(Scen(nm('tx_cb', act), [('tsp', 0), ('tsp', 1)], [[('atexit', 1, 0), ('ext', 51, act), ('pset', 1, 12, 100), EX]], bound=0))
    S.append(Scen('tx_two', [('tsp', 1), ('tsp', 2)], [[('ext', 51, 100), ('ext', 52, 101), ('pset', 0, 11, 220), EX], [('pset', 1, 21, 0), ('ext', 53, 220), EX]], bound=1))
    S.append(Scen('tx_del', [('tsp', 1), ('tsp', 2)], [[('pset', 0, 11, 0), ('ext', 51, 101), ('open', 32), EX], [('await', 32), ('pset', 0, 21, 0), ('pdel', 0), EX]], bound=B))
    S.append(Scen('tx_only', [('tsp', 1)], [[('ext', 51, 100), EX], [('ext', 52, 220), EX], [('ext', 53, 400), EX]], bound=B))
    return S
def tss_oom(deep):
    """memory runs out inside the library: the operation reports it and changes nothing"""
    S = []
    for k in range(4 + 2 * int(deep)):
        i = inj('new', 12, k)
        S.append(Scen(nm('om_set', k), [('tsp', 1), ('tsp', 2)], [[i, ('pset', 0, 11, 0), ('pset', 1, 12, 0), ('pset', 0, 13, 0), ('pget', 0), ('pget', 1), EX], [('pset', 0, 21, 0), ('pget', 0), EX]], bound=1))
        S.append(Scen(nm('om_set2', k), [('tsp', 0), ('tsp', 1), ('tsp', 2)], [[('pset', 0, 11, 0), ('atexit', 1, 0), i, ('pset', 2, 12, 0), ('pset', 1, 13, 0), ('pget', 0), ('pget', 1), ('pget', 2), ('prel', 1), EX]], bound=0))
        S.append(Scen(nm('om_exit', k), [('tsp', 1)], [[i, ('atexit', 1, 0), ('atexit', 2, 0), ('atexit', 3, 0), ('pset', 0, 11, 0), EX], [('atexit', 4, 0), EX]], bound=1))
        S.append(Scen(nm('om_new', k), [('tsp', 1), ('tsp', -999), ('tsp', -999)], [[i, ('pnew', 1, 1), ('pset', 0, 11, 0), ('pget', 0), EX]], bound=0))
        S.append(Scen(nm('om_nate', k), [('mutex', 0), ('cv', 0), ('var', 0), ('tsp', 1)], [[('pset', 3, 11, 0)] * (k // 2 % 2) + [('lock', 0, 3), ('setv', 2, 1), i, ('nate', 0, 1), ('settle',), EX],
                       [('lock', 0, 3), ('cvwait', 1, 0, 0, 5 * MS, 2, 1), ('unlock', 0), EX], [('settle',), ('trylock', 0, 0), ('unlock', 0), EX]], bound=1))
    return S
def tss_notify(deep):
    """C20"""
    S = []
    B = 2 + int(deep)
    ob = [('mutex', 0), ('cv', 0), ('var', 0), ('tsp', 1), ('tsp', 2)]
    W = [('lock', 0, 3), ('cvwait', 1, 0, -1, 0, 2, 1), ('unlock', 0), EX]
    W0 = [('lock', 0, 3), ('cvwait', 1, 0, -1, 0, -1, 0), ('getv', 2), ('unlock', 0), EX]
    N = [('lock', 0, 3), ('setv', 2, 1), ('nate', 0, 1)]
    S.append(Scen('tn_basic', ob, [N + [EX], W], bound=B + 1))
    S.append(Scen('tn_two', ob, [N + [EX], W, W], bound=B))
    S.append(Scen('tn_plain', ob, [[('settle',)] + N + [EX], W0, W0], bound=B))
    S.append(Scen('tn_try', ob, [N + [('settle',), EX], [('trylock', 0, 0), ('unlock', 0), ('settle',), ('trylock', 0, 0), ('unlock', 0), EX]], bound=B))
    S.append(Scen('tn_held', ob, [N + [('settle',), ('settle',), EX], W, [('settle',), ('trylock', 0, 0), ('unlock', 0), EX]], bound=1))
    S.append(Scen('tn_last', ob, [[('settle',), ('pset', 3, 11, 0), ('atexit', 1, 0)] + N + [('pset', 4, 12, 0), ('atexit', 2, 0), EX], W0], bound=B))
    S.append(Scen('tn_last2', ob, [[('settle',)] + N + [('pset', 3, 11, 104), ('atexit', 1, 220), EX], W0, [('lock', 0, 0), ('unlock', 0), EX]], bound=1))
    S.append(Scen('tn_nested', ob, [[('lock', 0, 3), ('setv', 2, 1), ('atexit', 1, 500), ('pset', 3, 11, 0), EX], W], bound=B))
    S.append(Scen('tn_val', ob, [[('lock', 0, 3), ('setv', 2, 1), ('pset', 3, 11, 500), EX], W], bound=B))
    ob2 = [('mutex', 0), ('cv', 0), ('var', 0), ('mutex', 0), ('cv', 0)]
    S.append(Scen('tn_2cv', ob2, [[('lock', 0, 3), ('setv', 2, 1), ('nate', 0, 1), ('lock', 3, 3), ('nate', 3, 4), EX], W, [('lock', 3, 3), ('cvwait', 4, 3, 0, 5 * MS, -1, 0), ('unlock', 3), EX]], bound=1))
    S.append(Scen('tn_2thr', ob, [N + [EX], N + [EX], W], bound=1 + int(deep)))
    S.append(Scen('tn_timed', ob, [[('sleep', 5 * MS)] + N + [('sleep', 10 * MS), EX], [('lock', 0, 3), ('cvwait', 1, 0, 0, 10 * MS, 2, 1), ('unlock', 0), EX]], bound=B))
    return S
def rnd_tss(seed, count, big=False):
    S = []
    for n in range(count):
        r = random.Random('tss/%s/%s' % (seed, n)); np_ = r.choice((1, 2, 3)); vid = [10]
        nt = r.choice((2, 2, 3)); T = []
        def one(t):
            p = []
            for k in range(r.choice((1, 2, 3, 4))):
                c = r.random(); o = r.randrange(np_); vid[0] += 1
                act = r.choice((0, 0, 0, 0, 100 + r.randrange(np_), 300 + r.randrange(np_), 400 + r.randrange(np_), 200 + 40 + k, 650))
                if c < .4: p.append(('pset', o, vid[0], act if act // 100 != 1 else act))
                elif c < .5: p.append(('pget', o))
                elif c < .57: p.append(('preset', o))
                elif c < .62: p.append(('prel', o))
                elif c < .66: p.append(('psame', o))
                else: p.append(('atexit', vid[0] % 39 + 1 if False else k + 1 + 10 * t, act))
            return p
        dele = r.random() < .6
        for t in range(nt):
            T.append(one(t))
        ob = [('tsp', r.choice((0, 1, 2, 3))) for _ in range(np_)]
        if dele:   # one more pointer, destroyed by one thread after the others stored in it
            q = np_; ob += [('tsp', r.choice((0, 1, 2))), ('tsp', -999)]
            for t in range(nt):
                vid[0] += 1; pos = r.randrange(len(T[t]) + 1); T[t][pos:pos] = [('pset', q, vid[0], 0), ('open', 32 + t)]
            d = r.randrange(nt); T[d] += [('await', 32 + t) for t in range(nt)] + [('pdel', q), ('pnew', q + 1, r.choice((0, 1, 2))), ('pset', q + 1, 999, 0)]
        T = [t + [EX] for t in T]
        S.append(Scen(nm('rndtss', seed, n), ob, T, bound=2 if big else 1, maxexec=20000 if big else 3000, rand=1000 if big else 150))
    return S
