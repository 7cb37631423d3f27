"""Engine 2: LockObj.tla. TLC checks the invariants and lists every transition; each is replayed on the real lock objects."""
import json, os, random, re, subprocess, tempfile, shutil, time
from collections import deque
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
import vbuild, vtrace
from common import Violation
INC = ['-DBOOST_ALL_NO_LIB=1', '-DBOOST_DATE_TIME_HEADER_ONLY', '-DBOOST_CHRONO_HEADER_ONLY', '-DBOOST_ERROR_CODE_HEADER_ONLY']
STD = {'cxx17': ['-std=c++17'], 'cxx98': ['-std=c++98']}     # the latter: emulated move semantics
QUICK = [('xx', 2, 1, 1), ('ss', 2, 1, 1), ('pp', 2, 1, 1), ('xssp', 1, 0, 1), ('xsp', 2, 0, 1), ('xsp', 1, 1, 1)]
DEEP = QUICK + [('xxsp', 2, 0, 0), ('xsspp', 1, 0, 1), ('xsp', 2, 1, 1), ('xxss', 1, 1, 1), ('xx', 3, 0, 1), ('ssp', 2, 0, 1), ('xpp', 2, 0, 1)]
def js(x):
    return json.dumps(x, separators=(',', ':'))
def graph(conf):
    """-> (edges: state -> {(op, args): [(result, calls, state')]}, stats)"""
    k, nm, g, mo = conf
    d = tempfile.mkdtemp(prefix='lo.')
    try:
        f = os.path.join(d, 'c.json'); json.dump(dict(kinds=list(k), nm=nm, guards=bool(g), orphan=mo, dump=True), open(f, 'w'))
        rc, out = vtrace.run_tlc('LockObjMC.tla', 'LockObj.cfg', dict(CONF=f), d, workers=2, xmx='4g')
    finally:
        shutil.rmtree(d)
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    if rc != 0 or not m:
        raise RuntimeError('TLC failed on LockObj %s:\n%s' % (conf, out[-2000:]))
    E = {}
    for line in out.split('\n'):
        if line.startswith('"['):
            _, s, op, args, r, calls, t = json.loads(line[1:-1].replace('\\"', '"'))
            a = (op, tuple(args)); t = js(t)
            l = E.setdefault(js(s), {}).setdefault(a, [])
            o = ('["%s",%s,%s,0,0]' % (r, js(calls), t), t)      # what the driver must print, and the state reached
            if o not in l:
                l.append(o)
    return E, dict(transitions=int(m.group(1)), states=int(m.group(2)))
def binary(std):
    out = os.path.join(vbuild.BUILD, vbuild.tree_hash()); os.makedirs(out, exist_ok=True)
    b = os.path.join(out, 'lockobj-' + std)
    if not os.path.exists(b):
        vbuild._run([vbuild.CXX, '-O1', '-g', '-w', *STD[std], *INC, '-I', os.path.join(vbuild.REPO, 'include'), os.path.join(vbuild.VERIF, 'harness', 'lockobj.cpp'), '-o', b + '.tmp'])
        os.rename(b + '.tmp', b)
    return b
def text(seq):
    return ';'.join('%s %s' % (op, ' '.join(map(str, a))) for op, a in seq)
def execute(b, conf, seqs, last, timeout=300):
    """runs the sequences -> list of output lines, up to and including the first that crashed (marked CRASH)"""
    inp = '%s %d\n' % (conf[0], conf[1]) + '\n'.join(('!' if last else '') + text(s) for s in seqs) + '\n'
    try:
        o = subprocess.run([b], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout).stdout
    except subprocess.TimeoutExpired as e:
        o = (e.stdout or b'').decode() + '\nCRASH\n'
    if o.endswith('DONE\n'):
        return o.split('\n')[:-2]
    return (o.rsplit('\nCRASH', 1)[0] + 'CRASH').split('\n')
def ok(E, s, a, o):
    """the state reached, or None if the observation o is not permitted"""
    for txt, st in E[s][a]:
        if txt == o:
            return st
    return None
def init_of(conf):
    return js([[[-1, 0]] * len(conf[0]), [[0, 0, 0]] * conf[1], [[0, 0, 0]] * conf[1], ['none', 0]])
def check_conf(conf, std, E, seed, walks, length):
    b = binary(std)
    init = init_of(conf)
    # shortest paths over transitions with one outcome
    path = {init: ()}; q = deque([init])
    while q:
        s = q.popleft()
        for a, os_ in E[s].items():
            if len(os_) == 1 and os_[0][1] not in path:
                path[os_[0][1]] = path[s] + (a,); q.append(os_[0][1])
    where = [(s, a) for s in path for a in E[s]]
    seqs = [path[s] + (a,) for s, a in where]
    learned, bad, n, ws = {}, [], 0, []
    for (s, a), sq, line in zip(where, seqs, execute(b, conf, seqs, True)):
        o = line[:-1] if line.endswith(';') else None
        t = ok(E, s, a, o)
        if t is None:
            bad.append((len(sq), sq, s, a, o))
        else:
            learned[(s, a)] = t
    if not bad:
        rnd = random.Random(seed)
        for _ in range(walks):
            s, sq = init, []
            for _ in range(length):
                c = list(E[s])
                a = rnd.choice(c)
                if a[0] in ('destroy', 'unwind', 'unlock') and rnd.random() < 0.5:
                    a = rnd.choice(c)
                sq.append(a); s = learned.get((s, a))
                if s is None or s not in E:
                    break
            ws.append(tuple(sq))
        for sq, line in zip(ws, execute(b, conf, ws, False)):
            s = init
            o = line.split(';')
            for i, a in enumerate(sq):
                x = o[i] if i < len(o) - 1 else None
                t = ok(E, s, a, x); n += 1
                if t is None:
                    bad.append((i + 1, sq[:i + 1], s, a, x)); break
                s = t
    bad.sort(key=lambda x: x[0])
    return bad[:1], dict(edges=len(seqs), states=len(path), unreached=len(E) - len(path), walks=len(ws), steps=n + sum(len(s) for s in seqs))
def fmt(o):
    o = o and json.loads(o)
    return 'crashed (signal or std::terminate)' if o is None else 'result %s, mutex calls (acquired, released, converted) %s, lock objects [mutex, owns] %s, mutex grants [x,p,s] %s%s%s' % (o[0], o[1], o[2][0], o[2][1], ', mutex misused (not held, or wrong timeout)' if o[3] else '', ', ownership queries disagree' if o[4] else '')
def job(conf, stds, seed, walks, length):
    E, st = graph(conf)
    r = []
    for s in stds:
        bad, c = check_conf(conf, s, E, seed, walks, length)
        r.append((s, [(b, [x[0] for x in E[b[2]][b[3]]]) for b in bad], c))
    rnd = random.Random(seed); sx = init_of(conf); smp = []
    for _ in range(12):
        a = rnd.choice(list(E[sx])); smp.append(a); sx = E[sx][a][0][1]
    return conf, st, r, text(smp)
def run(confs, cov, seed, walks, length, stds=('cxx17', 'cxx98')):
    t0 = time.time()
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(binary, s) for s in stds]:
            f.result()
    with ProcessPoolExecutor(4) as ex:
        rs = [f.result() for f in [ex.submit(job, c, stds, seed, walks, length) for c in confs]]
    out, tot = [], dict(edges=0, walks=0, steps=0, unreached=0)
    for c, st, r, smp in rs:
        for s, bad, cnt in r:
            for k in tot:
                tot[k] += cnt[k]
            for (n, sq, st_, a, o), allowed in bad:
                txt = ['lock object kinds %s (x unique_lock, p upgrade_lock, s shared_lock), %d mutexes, build %s' % (c[0], c[1], s), '', 'operations (slot, slot or mutex numbers):'] + ['  %s %s' % (x[0], list(x[1])) for x in sq]
                txt += ['', 'state before the last operation: ' + st_, 'observed: ' + fmt(o)] + ['permitted: ' + fmt(x) for x in allowed]
                out.append(Violation('%s/%s' % (a[0], c[0]), 'after %s the lock objects or mutexes are not as specified: %s' % (text(sq), fmt(o)), '\n'.join(txt) + '\n'))
    cov.add(states=sum(x[1]['states'] for x in rs), transitions=sum(x[1]['transitions'] for x in rs), traces_validated_against_impl=tot['edges'] + tot['walks'], executions=tot['edges'] + tot['walks'],
            samples=[dict(configuration=list(rs[0][0]), sequence=rs[0][3])],
            part=dict(engine='transitions of LockObj.tla replayed on the real lock objects', configurations=[list(c) for c in confs], builds=list(stds), transitions_replayed=tot['edges'], states_not_reached=tot['unreached'], random_walks=tot['walks'], operations_executed=tot['steps'], s=round(time.time() - t0, 1)))
    return out[:4]
