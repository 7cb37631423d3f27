"""Builds the simulator and the harness libraries from /repo's working tree (nothing is built inside /repo)."""
import hashlib, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
CXX = '/usr/bin/g++'
CFLAGS = ['-O1', '-g', '-fPIC', '-w', '-fsanitize=thread', '-DBOOST_ENABLE_ASSERT_HANDLER', '-DBOOST_SYNC_BUILDING=1', '-DBOOST_ALL_NO_LIB=1', '-DBOOST_DATE_TIME_HEADER_ONLY', '-DBOOST_CHRONO_HEADER_ONLY', '-DBOOST_ERROR_CODE_HEADER_ONLY']
# name -> (extra flags, note)
VARIANTS = {
    'futex': ([], 'default Linux configuration (futex events, POSIX semaphores)'),
    'pthr': (['-DBOOST_SYNC_USE_PTHREAD'], 'events without futex'),
    'emul': (['-DBOOST_SYNC_USE_PTHREAD', '-DV_NO_SEM'], 'semaphore and events emulated with mutex and condition variable'),
    'notmo': (['-DV_NO_TIMEOUTS'], 'timed_mutex without pthread_mutex_timedlock'),
    'boolspin': (['-DATOMIC_BOOL_LOCKFREE=2'], 'spin mutex over atomic<bool>'),
    'noinit': (['-DV_NO_STATIC_INIT'], 'pthread objects created by init functions'),
    'emulni': (['-DBOOST_SYNC_USE_PTHREAD', '-DV_NO_SEM', '-DV_NO_STATIC_INIT', '-DV_NO_TIMEOUTS'], 'all emulations, init functions'),
    'oldcxx': (['-DBOOST_SYNC_USE_PTHREAD', '-DV_NO_SEM', '-DV_NO_TIMEOUTS', '-DBOOST_NO_CXX11_UNIFIED_INITIALIZATION_SYNTAX', '-DBOOST_NO_CXX11_VARIADIC_TEMPLATES'], 'all emulations, older compiler (assignment of static initializers, no variadic templates)'),
    'ndebug': (['-DNDEBUG', '-DBOOST_DISABLE_ASSERTS'], 'default configuration, assertions compiled out'),
    'ndemul': (['-DNDEBUG', '-DBOOST_DISABLE_ASSERTS', '-DBOOST_SYNC_USE_PTHREAD', '-DV_NO_SEM', '-DV_NO_STATIC_INIT', '-DV_NO_TIMEOUTS'], 'all emulations, init functions, assertions compiled out'),
    'eintr': (['-DBOOST_SYNC_HAS_PTHREAD_EINTR_BUG'], 'platform whose pthread functions may return EINTR'),
    'tls': (['-DBOOST_SYNC_USE_COMPILER_TLS'], 'compiler TLS for the thread context'),
    'win': (['-include', os.path.join(VERIF, 'harness', 'win', 'prelude.hpp'), '-DV_WIN'], 'Windows implementation over stand-ins for the kernel objects of Windows'),
    'win6': (['-include', os.path.join(VERIF, 'harness', 'win', 'prelude.hpp'), '-DV_WIN', '-DBOOST_USE_WINAPI_VERSION=0x0600'], 'Windows implementation for Vista and later over the same stand-ins: compiler TLS, InitOnce'),
    'mac': (['-include', os.path.join(VERIF, 'harness', 'mac', 'prelude.hpp'), '-I', os.path.join(VERIF, 'harness', 'mac')], 'OS X implementation: semaphores of libdispatch (stand-in), events on top of them'),
    'all': (['-DV_ALLFORMS'], 'default configuration, every time unit'),
    'allp': (['-DBOOST_SYNC_USE_PTHREAD', '-DV_ALLFORMS'], 'no futex, every time unit'),
    'alle': (['-DBOOST_SYNC_USE_PTHREAD', '-DV_NO_SEM', '-DV_NO_TIMEOUTS', '-DV_ALLFORMS'], 'emulations, every time unit'),
}
class BuildError(Exception):
    pass
def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])
def shim():
    d = os.path.join(BUILD, 'shim', 'boost', 'atomic', 'detail')
    f = os.path.join(d, 'platform.hpp')
    os.makedirs(d, exist_ok=True)
    s = open('/usr/include/boost/atomic/detail/platform.hpp').read()
    s = '\n'.join(l for l in s.split('\n') if not (l.startswith('#define') and 'gcc_x86' in l)) + '\n'
    if not os.path.exists(f) or open(f).read() != s:
        open(f, 'w').write(s)
    return os.path.join(BUILD, 'shim')
WINH = ['apc', 'condition_variable', 'config', 'dll', 'event', 'get_current_process', 'get_current_process_id', 'get_last_error', 'handles', 'semaphore', 'thread', 'thread_pool', 'time', 'tls', 'wait', 'waitable_timer']
def win_shim():
    d = os.path.join(BUILD, 'winshim'); w = os.path.join(VERIF, 'harness', 'win')
    for f, to in [('boost/winapi/%s.hpp' % h, 'winstub.hpp') for h in WINH] + [('boost/detail/interlocked.hpp', 'winstub.hpp'), ('windows.h', 'windows.h'), ('winerror.h', 'winstub.hpp')]:
        p = os.path.join(d, f); os.makedirs(os.path.dirname(p), exist_ok=True); c = '#include "%s"\n' % os.path.join(w, to)
        if not os.path.exists(p) or open(p).read() != c:
            open(p, 'w').write(c)
    return d
def _tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'sim')]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(repr((CFLAGS, VARIANTS)).encode())
    return h.hexdigest()[:16]
_th = None
def tree_hash():
    global _th
    if _th is None:
        _th = _tree_hash()
    return _th
def build(wanted, jobs=8):
    """wanted: {variant: [translation units]}; returns {variant: path of .so}, plus the simulator under 'vsim'."""
    inc = shim()
    out = os.path.join(BUILD, tree_hash())
    os.makedirs(out, exist_ok=True)
    tasks, res = [], {}
    def obj(src, o, flags):
        if not os.path.exists(o):
            _run([CXX, *flags, '-c', src, '-o', o + '.tmp.o']); os.rename(o + '.tmp.o', o)
    def simjob():
        b = os.path.join(out, 'vsim')
        if not os.path.exists(b):
            _run([CXX, '-O2', '-g', '-w', '-std=c++17', '-rdynamic', os.path.join(VERIF, 'sim', 'vsim.cpp'), '-o', b + '.tmp', '-ldl']); os.rename(b + '.tmp', b)
    with ThreadPoolExecutor(jobs) as ex:
        fs = [('', ex.submit(simjob))]
        links = []
        for v, tus in wanted.items():
            vf = CFLAGS + VARIANTS[v][0] + (['-I', win_shim()] if v.startswith('win') else []) + ['-I', inc, '-I', os.path.join(REPO, 'include')]
            objs = []
            for tu in ['h_main'] + list(tus):
                o = os.path.join(out, '%s-%s.o' % (v, tu))
                src = os.path.join(VERIF, 'harness', tu + '.cpp') if tu.startswith('h_') else os.path.join(REPO, tu)
                o = o.replace('src/', 'src_')
                objs.append(o); fs.append((v, ex.submit(obj, src, o, vf)))
            links.append((v, objs))
        failed = set()
        for v, f in fs:
            try:
                f.result()
            except BuildError:
                if not v.startswith(('win', 'mac')):
                    raise
                failed.add(v)   # the stand-ins for the Windows headers are mine and may lack what the code needs: no verdict on that configuration
        links = [(v, objs) for v, objs in links if v not in failed]
        for v, objs in links:
            so = os.path.join(out, '%s-%s.so' % (v, hashlib.sha256(' '.join(objs).encode()).hexdigest()[:8]))
            if not os.path.exists(so):
                _run([CXX, '-shared', '-Wl,-z,norelro', '-Wl,-z,now', *objs, '-o', so + '.tmp']); os.rename(so + '.tmp', so)
            res[v] = so
    res['vsim'] = os.path.join(out, 'vsim')
    return res
def clean_old(keep=3):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d not in ('shim', 'winshim')] if os.path.isdir(BUILD) else []
    ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime)
    for d in ds[:-keep]:
        subprocess.run(['rm', '-rf', d])
if __name__ == '__main__':
    import time
    t = time.time(); r = build({v: ['h_lock', 'h_cv', 'h_sem'] for v in ([a for a in sys.argv[1:] if a != '--setup'] or ['futex'])}); print(r, time.time() - t)
