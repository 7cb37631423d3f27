"""Engine 1: programs over the public API run on the simulator, their histories judged by TLC against Sync.tla."""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import vbuild, vtrace
from common import Violation
TUS = ['h_lock', 'h_cv', 'h_sem']
def simulate(bins, plan, seed, pool, budget):
    """plan: [(variant, [Scen])] -> [(variant, scen, hists, stats | None, error)]"""
    def one(v, s):
        ex = dict(seed=seed)
        if 'maxsec' not in s.opts:
            ex['maxsec'] = budget
        for attempt in (1, 2):
            try:
                r = vtrace.run_vsim(bins['vsim'], bins[v], [s], ex, timeout=300)
                return (v, s, r[s.name][0], r[s.name][1], None)
            except (RuntimeError, subprocess.TimeoutExpired) as e:
                err = str(e)
        return (v, s, [], None, err)
    fs = [pool.submit(one, v, s) for v, ss in plan for s in ss]
    return [f.result() for f in fs]
def judge(items, njudges=4, workers=2, timeout=600):
    """items: [(scen, variant, picks, history, end)]; returns (rejected leaves, stats)"""
    by = {}
    for it in items:
        by.setdefault(it[0].name, []).append(it)
    js = [vtrace.Judge() for _ in range(njudges)]
    for n, its in sorted(by.items(), key=lambda x: -sum(len(i[3]) for i in x[1])):
        j = min(js, key=lambda j: len(j.nodes))
        for it in its:
            j.add(*it)
    js = [j for j in js if j.leaf]
    tot = dict(states=0, transitions=0, histories=0, nodes=0); rej = []
    def one(j):
        try:
            return j.run(workers=workers, timeout=timeout)
        except (RuntimeError, subprocess.TimeoutExpired) as e:
            return e
    err = None
    with ThreadPoolExecutor(max(1, len(js))) as ex:
        for x in ex.map(one, js):
            if isinstance(x, Exception):
                err = x; continue
            rej += x[0]
            for k in tot:
                tot[k] += x[1][k]
    if err is not None and not rej:
        raise err
    return rej, tot
def describe(scen, variant, picks, h):
    rej, k, evs = vtrace.explain(scen, h)
    lines = ['scenario %s, configuration %s (%s)' % (scen.name, variant, vbuild.VARIANTS[variant][1]), '', scen.text(), 'schedule: ' + (picks or '-'), '', 'history (>>> the first event the specification cannot explain):']
    for i, ev in enumerate([x for x in h.split(';') if x]):
        lines.append(('>>> ' if i == k else '    ') + ev)
    return rej, '\n'.join(lines) + '\n'
def run(plan, cov, seed=1, budget=20, tus=TUS):
    t0 = time.time()
    bins = vbuild.build({v: tus(v) if callable(tus) else tus for v, _ in plan})
    skipped = [v for v, _ in plan if v not in bins]
    plan = [(v, s) for v, s in plan if v in bins]
    tb = time.time()
    out = []
    with ThreadPoolExecutor(8) as pool:
        res = simulate(bins, plan, seed, pool, budget)
    ts = time.time()
    items, execs, incomplete = [], 0, []
    for v, s, hs, st, err in res:
        if err is not None:
            out.append(Violation('%s/%s/crash' % (s.name, v), 'the program crashed or hung outside the simulator: ' + err[-300:], 'scenario %s, configuration %s\n\n%s\n%s\n' % (s.name, v, s.text(), err)))
            continue
        execs += int(st.get('execs', 0))
        if st.get('complete') != '1':
            incomplete.append(s.name)
        for p, h, e in hs:
            items.append((s, v, p, h, e))
    rej, st = judge(items)
    tj = time.time()
    # confirm each rejected history by running its schedule again, smallest first, one per scenario
    seen = {}
    for leaf in rej:
        it = leaf[0]
        k = it[0].name
        if k not in seen or len(it[3]) < len(seen[k][3]):
            seen[k] = it
    for k, (s, v, p, h, e) in sorted(seen.items(), key=lambda x: len(x[1][3]))[:3]:
        again = None
        try:
            r = vtrace.run_vsim(bins['vsim'], bins[v], [s], dict(seed=seed), replay=p or '-')
            hs = r[s.name][0]
            again = hs[0][1] if hs else None
        except RuntimeError as ex:
            again = None
        hh = again if again is not None else h
        bad, txt = describe(s, v, p, hh)
        if bad:
            out.append(Violation('%s/%s' % (s.name, v), '%s in configuration %s: history not explained by the specification' % (s.name, v), txt))
        elif again is not None and again != h:
            # the schedule does not reproduce: explore the scenario again
            r2 = simulate(bins, [(v, [s])], seed, ThreadPoolExecutor(1), budget)
            rj, _ = judge([(x[1], x[0], *y) for x in r2 for y in x[2]])
            if rj:
                it = rj[0][0]; bad, txt = describe(it[0], it[1], it[2], it[3])
                out.append(Violation('%s/%s' % (s.name, v), '%s in configuration %s: history not explained by the specification' % (s.name, v), txt))
    nsc = len({s.name for _, ss in plan for s in ss})
    smp = []
    for it in items[::max(1, len(items) // 3)][:3]:
        smp.append(dict(scenario=it[0].name, configuration=it[1], history=it[3][:1500]))
    cov.add(states=st['states'], transitions=st['transitions'], traces_validated_against_impl=st['histories'], executions=execs, samples=smp,
            part=dict(engine='traces of the real code judged by TLC (Sync.tla, SyncTrace.tla)', scenarios=nsc, configurations=sorted({v for v, _ in plan}), not_built=skipped, executions=execs, distinct_histories=st['histories'], rejected=len(rej), exhaustive_within_bound=len({s.name for _, ss in plan for s in ss}) - len(set(incomplete)), s=dict(build=round(tb - t0, 1), simulate=round(ts - tb, 1), judge=round(tj - ts, 1))))
    return out
