#!/usr/bin/env python3
"""check.py --property C01 --tier quick|thorough: decides one property on /repo's working tree."""
import argparse, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, plans
from common import Cov, EVID
KNOWN = os.path.join(vbuild.VERIF, 'known-findings.txt')
def known(prop):
    r = []
    for l in open(KNOWN) if os.path.exists(KNOWN) else []:
        if l.startswith('known: property=%s ' % prop):
            key, _, what = l.strip().split(' ', 2)[2].partition(' ')
            r.append((key, what))
    return r
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('--property', required=True); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args(); prop = a.property
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    rd = os.path.join(EVID, 'replay'); os.makedirs(rd, exist_ok=True)
    cov = Cov(); vs, n = [], 0
    def report(key, summary, text):
        nonlocal n
        n += 1
        f = os.path.join(rd, '%s-%d.txt' % (prop, n)); open(f, 'w').write(summary + '\n\n' + text)
        print('VIOLATION property=%s replay=%s' % (prop, f)); print('  ' + summary.replace('\n', ' ')[:400])
    kf = known(prop)
    try:
        for v in plans.run(prop, a.tier == 'thorough', cov, seed):
            hit = [k for k in kf if k[0] == v.key]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][1])); continue
            vs.append(v)
    except vbuild.BuildError as e:
        # the tree does not compile with the programs of the harness
        vbuild._th = None
        try:
            for v in plans.run(prop, a.tier == 'thorough', cov, seed):
                vs.append(v)
        except vbuild.BuildError as e:
            if 'vsim.cpp' in str(e):
                print(e); sys.exit(2)
            report('build', 'a program that uses the public API does not compile', str(e)); vs = []
    for v in vs:
        report(v.key, v.summary, v.replay)
    ev = dict(property=prop, tier=a.tier, seed=seed, level='model_checking', coverage=cov.d, assumptions=plans.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=n)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d executions, %d histories/behaviours checked against the code, %d model states, %d violations, %.1f s' % (prop, a.tier, cov.d['executions'], cov.d['traces_validated_against_impl'], cov.d['states'], n, time.time() - t0))
    vbuild.clean_old()
    sys.exit(1 if n else 0)
if __name__ == '__main__':
    main()
