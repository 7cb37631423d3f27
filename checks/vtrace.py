"""Scenarios, simulator runs, and judgement of the recorded histories by TLC against spec/SyncTrace.tla."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import vbuild
SPEC = os.path.join(vbuild.VERIF, 'spec')
REL = {0, 3, 5, 8, 13, 15, 16, 17, 20, 21}
STEADY = {2, 7, 11}   # other clocks: converted to a relative timeout, so the deadline may shift while threads are still running
LAST = 2000000000
SEMMAX = 2147483647
class Scen:
    """threads: list of lists of (op, args...)."""
    def __init__(self, name, objs, threads, lazy=False, spec_init=None, spec_max=None, **opts):
        self.spec_init, self.spec_max = spec_init, spec_max
        self.name, self.objs, self.threads, self.opts, self.lazy = name, objs, threads, opts, lazy
        self.hb = opts.get('hb', 1) and len(threads) < 12
    def text(self, extra=None):
        o = dict(self.opts); o.update(extra or {})
        l = ['scenario %s %s' % (self.name, ' '.join('%s=%s' % kv for kv in o.items()))]
        l += ['obj %s %d' % (k, i) for k, i in self.objs]
        for t in self.threads:
            l.append('thread')
            l += [' '.join(str(x) for x in op) for op in t]
        return '\n'.join(l) + '\n'
    def call(self, t, k, now):
        op = self.threads[t - 1][k - 1]; n = op[0]; a = op[1:]
        e = dict(k='C', t=t, i=k, op=n, o=a[0] if a else 0, m=0, dl=-1, rel=False, pv=-1, need=0, via=0, v=0)
        def dl(form, v):
            e['rel'] = form in REL or form in STEADY
            d = (now + v if form in REL else v)
            e['dl'] = min(max(0, d // 1000), LAST + 100000000)
        if n in ('lock', 'trylock', 'lock_sh', 'trylock_sh'):
            e['via'] = a[1] if len(a) > 1 else 0
        elif n == 'tlock':
            e['via'] = a[1]; dl(a[2], a[3])
        elif n in ('pnew', 'pset'):
            e['v'] = a[1]
        elif n == 'atexit':
            e['o'] = 0; e['v'] = a[0]
        elif n == 'nate':
            e['m'] = a[1]
        elif n == 'twait':
            dl(a[1], a[2])
        elif n == 'cvwait':
            e['m'] = a[1]
            if a[2] >= 0:
                dl(a[2], a[3])
            e['pv'] = a[4]; e['need'] = a[5] if len(a) > 5 else 0
        return e
    def events(self, h):
        out, now, prevq = [], 0, False
        for s in h.split(';'):
            if not s:
                continue
            f = s.split(' ')
            if f[0] == 'C':
                out.append(self.call(int(f[1]), int(f[2]), now))
            elif f[0] == 'R':
                out.append(dict(k='R', t=int(f[1]), res=int(f[3]), aux={298: 75}.get(int(f[4]), int(f[4])),   # too many posts, in the words of Windows
                                 hb=[int(x) for x in f[5].split(',')] if f[5] != '-' else []))
            elif f[0] == 'Q':
                out.append(dict(k='Q', t=0))
            elif f[0] == 'T':
                now = int(f[1])
                if now // 1000 >= LAST:
                    break   # beyond TLC's integers: only what came before is judged
                out.append(dict(k='T', v=now // 1000, busy=not prevq, blocked=sorted(int(x) for x in f[2].split(',')) if len(f) > 2 and f[2] != '-' else []))
            elif f[0] == 'N':
                t, w = int(f[1]), int(f[2])
                if w == 95:
                    out.append(dict(k='F', t=t, fn=f[3], err=int(f[4]))); prevq = False; continue
                a, b = int(f[3]), int(f[4])
                if w == 1: out.append(dict(k='V', o=a, v=b, t=t))
                elif w == 2: out.append(dict(k='P', t=t, v=a, w=b))
                elif w == 3: out.append(dict(k='G', t=t, o=a, v=b))
                elif w in (11, 12): out.append(dict(k='KA'[w - 11], t=t, id=a, v=b))
                elif w == 13: out.append(dict(k='S', t=t, o=a, v=b))
                elif w == 14: out.append(dict(k='X', t=t, id=a))
                elif w == 15: out.append(dict(k='Y', t=t, o=a, v=b))
                elif w == 16: out.append(dict(k='Z', t=t, o=a, v=b))
                elif w == 90: pass
                else: raise RuntimeError('unknown note ' + s)
            elif f[0] == 'B':
                out.append(dict(k='B', t=int(f[1]), what=' '.join(f[2:])))
            prevq = f[0] == 'Q'
        for e in out:   # TLC's integers end at 2^31
            for k, v in e.items():
                if type(v) is int and abs(v) > LAST + 100000000:
                    e[k] = (LAST + 147483647) * (1 if v > 0 else -1)
        return out
def run_vsim(vsim, lib, scens, extra=None, replay=None, timeout=600):
    """Returns {scenario name: ([(picks, history, end)], stats)}"""
    d = tempfile.mkdtemp(prefix='vs.')
    try:
        sf, of = os.path.join(d, 's'), os.path.join(d, 'o')
        open(sf, 'w').write(''.join(s.text(extra) for s in scens))
        cmd = [vsim, '--lib', lib, '--scen', sf, '--out', of] + (['--replay', replay] if replay else [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if r.returncode != 0:
            raise RuntimeError('vsim failed (%d): %s\n%s' % (r.returncode, r.stdout[-2000:], ' '.join(cmd)))
        res, cur = {}, None
        for line in open(of):
            line = line.rstrip('\n')
            if line.startswith('S '):
                cur = line[2:]; res[cur] = ([], {})
            elif line.startswith('H '):
                p, h, e = line[2:].split(' | ')
                res[cur][0].append((p.strip(), h.strip(), e.strip()))
            elif line.startswith('E '):
                res[cur][1].update(kv.split('=') for kv in line[2:].split())
        return res
    finally:
        shutil.rmtree(d)
def run_tlc(module, cfg, env, workdir, workers=8, timeout=850, xmx='4g', extra=()):
    cmd = ['java', '-Djava.io.tmpdir=' + workdir, '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss16m', '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC',
           '-config', cfg, '-workers', str(workers), '-metadir', os.path.join(workdir, 'md'), '-noGenerateSpecTE', '-nowarning', *extra, module]
    e = dict(os.environ); e.update(env)
    r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout
class Judge:
    def __init__(self):
        self.scens, self.nodes, self.roots, self.leaf = [], [], {}, []
        self.index = []
    def _new(self, e):
        self.nodes.append(dict(e=e, ch=[], acc=0)); self.index.append({}); return len(self.nodes)
    def add(self, scen, variant, picks, h, end, maxes=None):
        if scen.name not in self.roots:
            r = self._new(dict(k='root'))
            self.roots[scen.name] = r
            mx = scen.spec_max or [SEMMAX if k == 'sem' else 0 for k, _ in scen.objs]
            ini = scen.spec_init or [i if k == 'tsp' and i >= 0 else -1 if k == 'tsp' else max(i, 0) for k, i in scen.objs]
            self.scens.append(dict(n=len(scen.threads), kind=[k for k, _ in scen.objs], init=ini, max=mx, hb=bool(scen.hb), lazy=scen.lazy, tss=any(op[0] == 'exit' for th in scen.threads for op in th), root=r))
        n = self.roots[scen.name]
        key = None
        for e in scen.events(h):
            key = json.dumps(e, sort_keys=True)
            c = self.index[n - 1].get(key)
            if c is None:
                c = self._new(e); self.index[n - 1][key] = c; self.nodes[n - 1]['ch'].append(c)
            n = c
        if not self.nodes[n - 1]['acc']:
            self.leaf.append([]); self.nodes[n - 1]['acc'] = len(self.leaf)
        self.leaf[self.nodes[n - 1]['acc'] - 1].append((scen, variant, picks, h, end))
    def run(self, workers=8, verbose=False, timeout=850):
        """Returns (rejected leaves, tlc statistics)."""
        d = tempfile.mkdtemp(prefix='tlc.')
        try:
            f = os.path.join(d, 't.json'); json.dump(dict(scens=self.scens, nodes=self.nodes), open(f, 'w'))
            rc, out = run_tlc('SyncTrace.tla', 'SyncTrace.cfg', dict(TRACES=f, VERBOSE='1' if verbose else '0'), d, workers, timeout)
            acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out))
            m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
            if rc != 0 or not m or 'Model checking completed. No error' not in out:
                raise RuntimeError('TLC failed (%d):\n%s' % (rc, re.sub(r'<<"A[CT].*\n', '', out)[-1500:]))
            st = dict(transitions=int(m.group(1)), states=int(m.group(2)), nodes=len(self.nodes), histories=len(self.leaf))
            rej = [self.leaf[i] for i in range(len(self.leaf)) if i + 1 not in acc]
            at = set(int(x) for x in re.findall(r'<<"AT", (\d+)>>', out)) if verbose else None
            return rej, st, at
        finally:
            shutil.rmtree(d)
def explain(scen, h):
    """How far the specification can follow one history."""
    j = Judge(); j.add(scen, 'x', '-', h, '')
    rej, st, at = j.run(workers=1, verbose=True)
    evs = [n['e'] for n in j.nodes[1:]]
    k = max([i - 1 for i in at] or [0])
    return bool(rej), k, evs
