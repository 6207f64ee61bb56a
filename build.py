#!/usr/bin/env python3
"""Builds the library variants and harnesses from /repo's working tree. Results are cached by content in build/."""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, sys, threading

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(V, 'build')
CXX = 'clang++'

WRAPS = '''pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE _ZNSt18condition_variable10notify_oneEv _ZNSt18condition_variable10notify_allEv
_ZNSt18condition_variableC1Ev _ZNSt18condition_variableD1Ev
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock
pthread_barrier_init pthread_barrier_destroy pthread_barrier_wait pthread_once pthread_key_create pthread_key_delete
pthread_create pthread_join pthread_detach pthread_setaffinity_np sched_getcpu numa_node_of_cpu numa_available numa_max_node numa_num_configured_nodes
_ZNSt6thread20hardware_concurrencyEv sysconf get_nprocs get_nprocs_conf sched_yield usleep nanosleep clock_nanosleep rand
nc_open nc_close nc_inq_varid nc_inq_varndims nc_inq_vardimid nc_inq_dim nc_inq_dimlen nc_inq_dimname nc_inq_vartype nc_inq_type nc_inq_var'''.split()
for k in ('var1', 'var', 'vara', 'vars', 'varm'):
    for t in ('_uchar', '_schar', '_short', '_int', '_long', '_longlong', '_float', '_double', ''):
        WRAPS.append('nc_get_%s%s' % (k, t))

BASE = ['MAX_DIMENSIONS=4', 'OMPI_SKIP_MPICXX']
FULL = BASE + ['THREADSAFE', 'THREADSAFE_COUNTER', 'USE_MPI3', 'USE_PTHREAD', 'ROUND_ROBIN']

def variant(defs, small=True, tsan=False, trace=True):
    return dict(defs=defs, small=small, tsan=tsan, trace=trace)

def without(d, *names):
    return [x for x in d if x not in names]

VARIANTS = {
    'full': variant(FULL),
    'all': variant(FULL, small=False, trace=False),
    'linear': variant(without(FULL, 'ROUND_ROBIN')),
    'tsan': variant(FULL, tsan=True),
    'serial': variant(FULL + ['THREADSAFE_MPI']),
    'serial-linear': variant(without(FULL, 'ROUND_ROBIN') + ['THREADSAFE_MPI']),
    'nompi3': variant(without(FULL, 'USE_MPI3'), trace=False),
    'nompi': variant(without(FULL, 'USE_MPI3') + ['ASAGI_NOMPI'], trace=False),
    'nonuma': variant(FULL + ['ASAGI_NONUMA'], trace=False),
    'nopthread': variant(without(FULL, 'USE_PTHREAD') + ['ASAGI_NONUMA'], trace=False),
    'nothreads': variant(without(FULL, 'THREADSAFE', 'THREADSAFE_COUNTER'), trace=False),
    'plaincounter': variant(without(FULL, 'THREADSAFE_COUNTER'), trace=False),
    'release': variant(FULL + ['NDEBUG', 'VERIF_OPT'], trace=False),
    'debugnuma': variant(FULL + ['DEBUG_NUMA'], trace=False),
    'dims6': variant(without(FULL, 'MAX_DIMENSIONS=4') + ['MAX_DIMENSIONS=6'], trace=False),
    'minimal': variant(BASE + ['ASAGI_NOMPI', 'ASAGI_NONUMA'], trace=False),
}
# harness name -> sources, default library variant
HARNESS = {}

def sh(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode()); h.update(b'\0')
    return h.hexdigest()[:20]

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.relpath(p, '/').encode()); h.update(b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()

SKIP = {'tests', 'examples', 'documentation', 'preprocess', '_build', 'build', '.git', 'CMake', 'submodules', 'tools'}
def repo_files():
    res = []
    for d, dirs, files in os.walk(REPO):
        if d == REPO:
            dirs[:] = [x for x in dirs if x not in SKIP and not x.startswith('.')]
        for f in files:
            if f.endswith(('.h', '.cpp', '.hpp', '.hh', '.c', '.cc', '.f90', '.inc', '.ipp')):
                res.append(os.path.join(d, f))
    return res

def repo_sources(defs):
    src = []
    for p in repo_files():
        if not p.endswith(('.cpp', '.cc')):
            continue
        r = os.path.relpath(p, REPO)
        b = os.path.basename(p)
        if b == 'nonuma.cpp' and 'USE_PTHREAD' in defs: continue
        if b == 'numa.cpp' and 'USE_PTHREAD' not in defs: continue
        if 'ASAGI_NOMPI' in defs and r.startswith('mpi/'): continue
        src.append(p)
    return sorted(src)

def own_files(*dirs):
    res = []
    for d in dirs:
        for r, dd, ff in os.walk(os.path.join(V, d)):
            res += [os.path.join(r, f) for f in ff if f.endswith(('.h', '.cpp', '.c', '.f90'))]
    return res

UB = 'signed-integer-overflow,shift,integer-divide-by-zero,bounds,float-cast-overflow,vla-bound'

def lib_flags(v):
    f = ['-std=c++11', '-g1', '-O0', '-fPIC', '-pthread', '-fno-omit-frame-pointer', '-w', '-DVERIF_HARNESS']
    f += ['-D' + d for d in v['defs']]
    if 'VERIF_OPT' in v['defs']:
        f[f.index('-O0')] = '-O1'
    if v['tsan']:
        f += ['-fsanitize=thread']
    else:
        f += ['-fsanitize=address', '-fsanitize=' + UB, '-fno-sanitize-recover=' + UB]
        if v['trace']:
            f += ['-fsanitize-coverage=func,trace-loads,trace-stores']
    if v['small']:
        f += ['-I' + os.path.join(V, 'stubs/small')]
    f += ['-I' + REPO, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(V, 'stubs'), '-I' + os.path.join(V, 'fakempi')]
    return f

pool = concurrent.futures.ThreadPoolExecutor(max_workers=10)

REDEF = [x for w in WRAPS for x in ('--redefine-sym', w + '=vwrap_' + w)]

def compiler(src, flags, tmp):
    if src.endswith('.f90'):
        os.makedirs(tmp + '.mod', exist_ok=True)
        return ['gfortran', '-O1', '-g', '-fPIC', '-w', '-J' + tmp + '.mod', '-I' + os.path.join(REPO, 'include')]
    if src.endswith('.c'):
        return ['clang'] + [f for f in flags if not f.startswith(('-std=', '-fsanitize-coverage'))]
    return [CXX] + flags

def compile_one(src, flags, key, wrap=False):
    obj = os.path.join(OUT, 'obj', key + '.o')
    if not os.path.exists(obj):
        tmp = obj + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        sh(compiler(src, flags, tmp) + ['-c', src, '-o', tmp], None)
        if os.path.isdir(tmp + '.mod'):
            shutil.rmtree(tmp + '.mod')
        if wrap:
            # (not ld --wrap: libgcc defines __wrap_pthread_create)
            sh(['objcopy'] + REDEF + [tmp], None)
        os.rename(tmp, obj)
    else:
        os.utime(obj)
    return obj

futures = {}
def submit(src, flags, key, wrap=False):
    """every object is compiled once"""
    if key not in futures:
        futures[key] = pool.submit(compile_one, src, flags, key, wrap)
    return futures[key]

def link_lib(name, objs, tsan, key, fortran=False):
    lib = os.path.join(OUT, 'lib', '%s-%s.so' % (name, key))
    if not os.path.exists(lib):
        tmp = lib + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
        sh([CXX, '-shared', '-o', tmp, '-Wl,-Bsymbolic', '-fsanitize=' + ('thread' if tsan else 'address'), '-pthread']
           + objs + (['-lgfortran'] if fortran else []), None)
        os.rename(tmp, lib)
    return lib

def prepare():
    for d in ('obj', 'lib', 'bin'):
        os.makedirs(os.path.join(OUT, d), exist_ok=True)
    # drop old results
    files = sorted(glob.glob(os.path.join(OUT, '*/*')), key=os.path.getmtime, reverse=True)
    total = 0
    for f in files:
        try:
            total += os.path.getsize(f)
            if total > 3 << 30:
                os.unlink(f)
        except OSError:
            pass

def start_lib(name, adapters=False):
    """returns a function that waits for the library; adapters: with tables of the C++, C and Fortran interfaces"""
    v = VARIANTS[name]
    base = tree_hash(repo_files() + own_files('stubs', 'fakempi'))
    flags = lib_flags(v)
    jobs, keys = [], []
    for s in repo_sources(v['defs']):
        k = digest(base, s, flags, REDEF)
        keys.append(k)
        jobs.append(submit(s, flags, k, True))
    if adapters:
        flags = [f for f in flags if not f.startswith('-fsanitize-coverage')] + ['-I' + V]
        for a in ('cpp.cpp', 'c.c', 'f.c', 'f.f90'):
            s = os.path.join(V, 'adapt', a)
            k = digest(base, tree_hash(own_files('adapt')), s, flags, REDEF)
            keys.append(k)
            jobs.append(submit(s, flags, k, True))
    return lambda: link_lib(('api-' if adapters else 'lib-') + name, [j.result() for j in jobs], v['tsan'], digest(keys), adapters)

def start_shim(src, name):
    """component shim: one source that includes internal headers of the library, plus the library's sources it needs"""
    v = VARIANTS[name]
    base = tree_hash(repo_files() + own_files('stubs', 'fakempi', 'harness', 'engine'))
    flags = lib_flags(v) + ['-I' + V]
    jobs, keys = [], []
    path = os.path.join(V, 'harness', src)
    for s in [path] + [x for x in repo_sources(v['defs']) if not x.endswith(('grid/grid.cpp', 'asagi.cpp', 'asagi_f90.cpp'))]:
        k = digest(base, s, flags, REDEF)
        keys.append(k)
        jobs.append(submit(s, flags, k, True))
    return lambda: link_lib('shim-' + src.replace('.cpp', '') + '-' + name, [j.result() for j in jobs], v['tsan'], digest(keys))

def start_exe(name, sources, tsan=False):
    base = tree_hash(own_files('engine', 'fakempi', 'harness') + [os.path.join(REPO, 'include/asagi.h')])
    san = 'thread' if tsan else 'address'
    flags = ['-std=c++17', '-O1', '-g', '-Wall', '-fno-omit-frame-pointer', '-pthread',
             '-I' + V, '-I' + os.path.join(V, 'fakempi'), '-I' + os.path.join(REPO, 'include')]
    flags += ['-DVERIF_TSAN'] if tsan else ['-fsanitize=address']
    jobs, keys = [], []
    for s in ['engine/engine.cpp', 'engine/sched.cpp', 'fakempi/fakempi.cpp'] + sources:
        p = os.path.join(V, s)
        k = digest(base, s, flags)
        keys.append(k)
        jobs.append(submit(p, flags, k))
    def wait():
        exe = os.path.join(OUT, 'bin', '%s%s-%s' % (name, '-tsan' if tsan else '', digest(keys)))
        objs = [j.result() for j in jobs]
        if not os.path.exists(exe):
            tmp = exe + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
            sh([CXX, '-o', tmp, '-fsanitize=' + san, '-pthread', '-rdynamic'] + objs + ['-lnetcdf', '-ldl'], None)
            os.rename(tmp, exe)
        return exe
    return wait
