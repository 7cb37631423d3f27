"""Engine 3: Deadline.tla. Every time type, unit and clock with every timed operation, on virtual clocks; TLC judges when and how each ended."""
import json, os, random, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import vbuild, vtrace
from vtrace import Scen
from common import Violation
TUS = ['h_lock', 'h_cv', 'h_sem', 'h_time1', 'h_time2']
NS = dict(ns=1, hns=100, us=10**3, ms=10**6, s=10**9, third=None, min=60 * 10**9, h=3600 * 10**9)
# form -> (clock, unit, floating point, name)
F = {0: ('rel', 'ns', 0, 'std nanoseconds'), 1: ('rel', 'us', 0, 'std microseconds'), 2: ('rel', 'ms', 0, 'std milliseconds'), 3: ('rel', 's', 0, 'std seconds'), 4: ('rel', 'min', 0, 'std minutes'), 5: ('rel', 'h', 0, 'std hours'),
     6: ('rel', 'ns', 1, 'std duration<double>'), 7: ('rel', 'third', 0, 'std duration<ratio<1,3>>'), 8: ('rel', 'ms', 0, 'std duration<int, milli>'), 9: ('rel', 'hns', 0, 'std 100 ns ticks'), 10: ('rel', 'ms', 1, 'std duration<float, milli>'),
     12: ('rel', 'ns', 0, 'boost nanoseconds'), 13: ('rel', 'us', 0, 'boost microseconds'), 14: ('rel', 'ms', 0, 'boost milliseconds'), 15: ('rel', 's', 0, 'boost seconds'), 16: ('rel', 'min', 0, 'boost minutes'), 17: ('rel', 'h', 0, 'boost hours'),
     18: ('rel', 'ns', 1, 'boost duration<double>'), 19: ('rel', 'third', 0, 'boost duration<ratio<1,3>>'), 20: ('rel', 'us', 0, 'posix_time::time_duration'),
     30: ('sys', 'ns', 0, 'std system_clock ns'), 31: ('sys', 'us', 0, 'std system_clock us'), 32: ('sys', 'ms', 0, 'std system_clock ms'), 33: ('sys', 's', 0, 'std system_clock s'), 34: ('sys', 'min', 0, 'std system_clock min'), 35: ('sys', 'h', 0, 'std system_clock h'),
     36: ('sys', 'ns', 0, 'boost system_clock ns'), 37: ('sys', 'us', 0, 'boost system_clock us'), 38: ('sys', 'ms', 0, 'boost system_clock ms'), 39: ('sys', 's', 0, 'boost system_clock s'), 40: ('sys', 'us', 0, 'ptime'), 41: ('sys', 'ns', 0, 'timespec'), 42: ('sys', 'hns', 0, 'std system_clock 100 ns'),
     50: ('steady', 'ns', 0, 'std steady_clock ns'), 51: ('steady', 'ms', 0, 'std steady_clock ms'), 52: ('steady', 's', 0, 'std steady_clock s'), 53: ('steady', 'ns', 0, 'boost steady_clock ns'), 54: ('steady', 'ms', 0, 'boost steady_clock ms'),
     60: ('half', 'ns', 0, 'user clock at half speed'), 61: ('coarse', 'ms', 0, 'user clock with ms ticks'), 62: ('half', 'ns', 0, 'boost user clock at half speed'), 63: ('future', 'us', 0, 'user clock with a future epoch')}
S = 10**9
DELTAS = [0, 1, -1, 999, 1000, 10**6 - 1, 10**6, S - 1, S, S + 1, 1500 * 10**6, 60 * S - 1, 60 * S, 3600 * S, 86400 * S + 1, 400 * 86400 * S + 123456789, 40 * 365 * 86400 * S + 1, 100 * 365 * 86400 * S + 999999999,
          -999, -S + 1, -S, -S - 1, -1500 * 10**6, -3600 * S - 1, -30 * 365 * 86400 * S - 1, 2**31 * 10**6, 2**32 * 10**6 + 5 * 10**6, 2**31 * S + 7, 2**32 * S]
RB = [1700000000 * S + 900000000, 1700000000 * S, 1699999999 * S + 999999999, 1700000000 * S + 1, 946684799 * S + 999999500, 2147483647 * S + 999999999, 500000000]
SB = [5000 * S + 300000000, 1, 999999999, 4294967 * S + 295999999]
T0 = [0, 1, 700000000, 999999999, 12345 * S + 1]
def digits(v):
    a, d = abs(v), []
    while a:
        d.append(a % 1000); a //= 1000
    return [1 if v < 0 else 0, d]
def counts(form, rnd, n):
    """[(count, rb, sb, t0)] for one form"""
    clock, unit, fl, _ = F[form]
    out, seen = [], set()
    ds = DELTAS[:]; rnd.shuffle(ds)
    for d in ds:
        rb, sb, t0 = rnd.choice(RB), rnd.choice(SB), rnd.choice(T0)
        base = dict(rel=0, sys=rb + t0, steady=sb + t0, half=t0 // 2, coarse=t0, future=t0 - 5 * 10**12)[clock]
        v = base + d
        if clock == 'half':
            v = base + d // 2
        if unit == 'third':
            c = v * 3 // S
        else:
            u = NS[unit]
            c = v // u if d < 0 else -(-v // u)
        if unit == "third" and abs(c) > 9 * 10**9:
            continue         # the time library itself cannot convert it
        if form == 8 and abs(c) >= 2**31:
            continue
        if form == 10:
            c = 1 << max(0, min(20, abs(c).bit_length())); c = -c if d < 0 else c
        if fl and form != 10 and abs(c) > 10**15:
            continue
        if form in (40,) and c < -50000 * 10**9:
            continue
        ns = c * (NS[unit] or 333333333)
        if abs(ns) > 7 * 10**18 or abs(ns) > 2**63 - rb - t0 - 10**9:
            continue
        key = (c - base // (NS[unit] or 1)) if clock != 'rel' else c
        if key in seen:
            continue
        seen.add(key); out.append((c, rb, sb, t0))
        if len(out) >= n:
            break
    return out
# target -> (objects, how the resource is kept busy, operation suffix, how it becomes available)
def program(target, form, m, c, t0, act):
    pre = [('sleep', t0)] if t0 else []
    if target == 'tmutex':
        o = [('tmutex', 0)]; hold = [('lock', 0, 0), ('open', 40)]
        w = [('await', 40)] + pre + [('tt', 0, form, m, c)]
        h = hold + ([('sleep', act), ('unlock', 0)] if act is not None else [])
        return o, [w, h]
    if target in ('sem', 'are', 'mre'):
        o = [(target, 0)]; w = pre + [('tt', 0, form, m, c)]
        h = [[('sleep', act), ('set' if target == 'mre' else 'post', 0)]] if act is not None else []
        return o, [w] + h
    cv, p = target.split('+') if '+' in target else (target, '0')
    o = [(cv, 0), ('mutex', 0), ('var', 0)]; w = pre + [('tt', 0, form, m, c, 1, int(p))]
    h = [[('sleep', act), ('lock', 1, 0), ('setv', 2, 1), ('unlock', 1), ('notifyN', 0)]] if act is not None else []
    return o, [w] + h
def expected(clock, unit, c, rb, sb, t0):
    """a rough instant, only used to place the event that makes the resource available around it"""
    v = c * NS[unit] if NS[unit] else c * S // 3
    t = dict(rel=t0 + v, sys=v - rb, steady=v - sb, half=2 * v, coarse=v, future=v + 5 * 10**12)[clock]
    return max(t, t0)
F[70] = ('sys', 's', 0, 'timespec, seconds')
F[71] = ('sys', 's', 0, 'ptime, years')
import datetime
FAR = [(70, c, c) for c in (3 * 10**10, 10**12, 10**15, -10**9, -10**10, -10**12)] + [(71, y, (datetime.date(y, 1, 1) - datetime.date(1970, 1, 1)).days * 86400) for y in (1400, 1700, 1969, 2300, 2600, 9999)]
def cases(targets, seed, n):
    r = []
    for tg in targets:
        for k, (form, arg, c) in enumerate(FAR):
            for m in (0, 1):
                t0, rb, sb = 700000000, RB[0], SB[0]
                a = 10**16 if c > 0 else None
                o, th = program(tg, form, m, arg, t0, a)
                r.append((Scen('t_%s_%d_%d_%d_far' % (tg.replace('+', 'p'), form, m, k), o, th, bound=0, maxexec=1, hb=0, rbase=rb, sbase=sb, timejump=0, maxsteps=4000), dict(target=tg, form=form, method=m, count=c, rb=rb, sb=sb, t0=t0, act=a)))
        for form in F:
            if form >= 70:
                continue
            for m in (0, 1):
                rnd = random.Random('%s/%d/%d/%d' % (tg, form, m, seed))
                for k, (c, rb, sb, t0) in enumerate(counts(form, rnd, n)):
                    clock, unit, fl, _ = F[form]
                    acts = [None]
                    I = expected(clock, unit, c, rb, sb, t0)
                    if I > 39 * 10**17:
                        continue         # beyond the simulator's horizon
                    if k % 3 == 0 and I - t0 > 10 and I < 3 * 10**18:
                        acts += [I - 2, I + 2 * 10**6]
                    for j, a in enumerate(acts):
                        o, th = program(tg, form, m, c, t0, a)
                        sc = Scen('t_%s_%d_%d_%d_%d' % (tg.replace('+', 'p'), form, m, k, j), o, th, bound=0, maxexec=1, hb=0, rbase=rb, sbase=sb, timejump=0, maxsteps=4000)
                        r.append((sc, dict(target=tg, form=form, method=m, count=c, rb=rb, sb=sb, t0=t0, act=a)))
    return r
def observe(h, k):
    """when operation k of thread 1 returned, and its result"""
    now = 0
    for e in h.split(';'):
        f = e.split(' ')
        if f[0] == 'T':
            now = int(f[1])
        elif f[0] == 'R' and f[1] == '1' and int(f[2]) == k:
            return now, int(f[3])
    return None
def run(plan, cov, seed, n):
    """plan: [(variant, targets)]"""
    t0 = time.time()
    bins = vbuild.build({v: TUS for v, _ in plan})
    skipped = [v for v, _ in plan if v not in bins]
    plan = [(v, t) for v, t in plan if v in bins]
    tb = time.time()
    out, recs = [], []
    chunks = []
    for v, tg in plan:
        cs = cases(tg, seed, n)
        if v == 'win':   # waits of whole milliseconds; on other clocks it polls for the rest, while virtual time stands still
            cs = [c for c in cs if F[c[1]['form']][0] in ('rel', 'sys')]
        for i in range(0, len(cs), 500):
            chunks.append((v, cs[i:i + 500]))
    def go(ch):
        v, cs = ch
        return v, cs, vtrace.run_vsim(bins['vsim'], bins[v], [c[0] for c in cs], dict(seed=seed), timeout=300)
    with ThreadPoolExecutor(8) as ex:
        for v, cs, r in ex.map(go, chunks):
            for sc, info in cs:
                hs = r.get(sc.name, ([], {}))[0]
                k = len(sc.threads[0])
                ob = observe(hs[0][1], k) if hs else None
                recs.append((v, sc, info, ob, hs[0] if hs else None))
    ts = time.time()
    good = [x for x in recs if x[3] is not None]
    for v, sc, info, ob, h in [x for x in recs if x[3] is None][:2]:
        out.append(Violation('%s/%d/%s' % (info['target'], info['form'], v), 'a timed operation with %s, count %d, did not return (%s, configuration %s)' % (F[info['form']][3], info['count'], info['target'], v), sc.text() + '\nhistory: %s\n' % (h,)))
    acc, st = set(), dict(states=0, transitions=0)
    d = tempfile.mkdtemp(prefix='dl.')
    try:
        parts = [good[i::4] for i in range(4)]
        def judge(pi):
            p = parts[pi]
            if not p:
                return set(), 0, 0
            f = os.path.join(d, '%d.json' % pi); os.makedirs(os.path.join(d, 'm%d' % pi))
            with open(f, 'w') as o:
                for v, sc, info, ob, h in p:
                    clock, unit, fl, _ = F[info['form']]
                    o.write(json.dumps(dict(unit=unit, clock=clock, float=fl, count=digits(info['count']), rb=digits(info['rb']), sb=digits(info['sb']), t0=digits(info['t0']), act=0 if info['act'] is None else 1, grain=1000000 if v == 'win' else 0, a=digits(info['act'] or 0), t1=digits(ob[0]), res=ob[1])) + '\n')
            rc, o = vtrace.run_tlc('Deadline.tla', 'Deadline.cfg', dict(CASES=f), os.path.join(d, 'm%d' % pi), workers=2, xmx='4g')
            m = re.search(r'(\d+) states generated, (\d+) distinct states found', o)
            if rc != 0 or not m:
                raise RuntimeError('TLC failed on Deadline: ' + re.sub(r'<<"ACC.*\n', '', o)[-2000:])
            return set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', o)), int(m.group(1)), int(m.group(2))
        with ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(judge, range(4)))
    finally:
        shutil.rmtree(d)
    bad = []
    for p, (a, tr, s) in zip(parts, rs):
        st['transitions'] += tr; st['states'] += s
        bad += [x for i, x in enumerate(p) if i + 1 not in a]
    bad.sort(key=lambda x: (x[2]['act'] is not None, abs(x[2]['count'])))
    seen = set()
    if os.environ.get('V_DEBUG'):
        for x in bad: print(x[0], x[2], F[x[2]['form']], x[3])
    for v, sc, info, ob, h in bad:
        key = '%s/%d/%s' % (info['target'], info['form'], v)
        if (info['form'], v) in seen or len(out) >= 4:
            continue
        seen.add((info['form'], v))
        I = expected(F[info['form']][0], F[info['form']][1], info['count'], info['rb'], info['sb'], info['t0'])
        out.append(Violation(key, '%s with %s, count %d, called at %d ns: ended at %d ns with result %d; it denotes %d ns%s (configuration %s)' % (info['target'], F[info['form']][3], info['count'], info['t0'], ob[0], ob[1], I, '' if info['act'] is None else ', resource available at %d ns' % info['act'], v),
                             sc.text() + '\nhistory: %s\n' % (h,)))
    cov.add(states=st['states'], transitions=st['transitions'], traces_validated_against_impl=len(good), executions=len(recs), samples=[dict(configuration=x[0], case=x[2], ended=x[3]) for x in good[::max(1, len(good) // 3)][:3]],
            part=dict(engine='timed operations on virtual clocks judged by TLC (Deadline.tla)', configurations=[v for v, _ in plan], not_built=skipped, forms=len(F), cases=len(recs), rejected=len(bad), s=dict(build=round(tb - t0, 1), simulate=round(ts - tb, 1), judge=round(time.time() - ts, 1))))
    return out
