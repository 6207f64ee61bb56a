#!/usr/bin/env python3
"""check.py <ID> [engine arguments]: builds what is needed from /repo and runs the check of one property.
Tier: VERIF_TIER (quick, thorough) or --thorough; seed: VERIF_SEED. --replay FILE runs one replay file."""
import json, os, re, subprocess, sys, time
import build

V = build.V
H = lambda *names: ['harness/%s.cpp' % x for x in names]
EXES = {
    'grid': H('lib', 'model', 'world', 'sim', 'g_single', 'g_threads', 'g_mpi', 'g_comm', 'g_res', 'g_lang', 'grid_main'),
    'comp': H('lib', 'model', 'world', 'g_comp', 'comp_main'),
}

def stage(check, lib, exe='grid', tsan=False, **env):
    """one run of an executable: name of the check, library variant, further variants by environment variable"""
    return dict(check=check, lib=lib, exe=exe, tsan=tsan, env=env)

STAGES = {
    'C01': [stage('C01', 'all'), stage('C01-many', 'full')],
    'C02': [stage('C02', 'full'), stage('C02-many', 'full')],
    'C03': [stage('C03', 'all'), stage('C03-many', 'full')],
    'C04': [stage('C04', 'full'), stage('C04-many', 'full')],
    'C05': [stage('C05', 'full'), stage('C05-many', 'full')],
    'C06': [stage('C06', 'full'), stage('C06-partial', 'full')],
    'C07': [stage('C07', 'full'), stage('C07-many', 'full')],
    'C08': [stage('C08', 'full')],
    'C09': [stage('C09', 'full', 'comp', VERIF_SHIM='shim:shim_cache.cpp:full'), stage('C09-api', 'full')],
    'C10': [stage('C10', 'full', 'comp', VERIF_SHIM='shim:shim_cache.cpp:full'), stage('C10-api', 'full')],
    'C11': [stage('C11', 'full')],
    'C12': [stage('C12', 'full')],
    'C13': [stage('C13', 'full'), stage('C13-types', 'full', 'comp', VERIF_SHIM='shim:shim_mpi.cpp:full')],
    'C14': [stage('C14', 'full')],
    'C15': [stage('C15', 'full'), stage('C15-history', 'full')],
    'C16': [stage('C16', 'full', 'comp', VERIF_SHIM='shim:shim_mutex.cpp:full'), stage('C16-api', 'full')],
    'C17': [stage('C17', 'full', 'comp', VERIF_SHIM='shim:shim_threads.cpp:full'), stage('C17-api', 'full')],
    'C18': [stage('C18', 'full', 'comp', VERIF_SHIM='shim:shim_threads.cpp:full'), stage('C18-api', 'full')],
    'C19': [stage('C19', 'api:all')],
    'C20': [stage('C20', 'full')],
    'C21': [stage('C21', 'full')],
    'C22': [stage('C22', 'tsan', tsan=True)],
    'C23': [stage('C23', 'full'), stage('C23-serial', 'serial', VERIF_SERIALISED='=1'), stage('C23-serial', 'serial-linear', VERIF_SERIALISED='=1'), stage('C23-parts', 'serial', 'comp', VERIF_SHIM='shim:shim_mpi.cpp:serial', VERIF_SERIALISED='=1')],
    'C25': [stage('C25-' + v, 'api:' + v, VERIF_VARIANT='=' + v, VERIF_SMALL='=1') for v in ('release', 'linear', 'serial', 'nompi3', 'nompi', 'nonuma', 'debugnuma', 'nopthread', 'nothreads', 'plaincounter', 'dims6', 'minimal')],
    'C24': [stage('C24', 'full'), stage('C24-linear', 'linear')],
    'C26': [],	# run_preproc
}

ASAN = ('detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=512:'
        'handle_segv=1:abort_on_error=0:exitcode=99:detect_odr_violation=0:quarantine_size_mb=16')
TSAN = 'exitcode=98:halt_on_error=1:report_signal_unsafe=0:detect_deadlocks=0:history_size=4:second_deadlock_stack=0'

def start(st):
    w = {}
    for k, n in [('VERIF_LIB', st['lib'])] + list(st['env'].items()):
        if n.startswith('='):
            w[k] = lambda n=n: n[1:]
            continue
        if n.startswith('api:'):
            w[k] = build.start_lib(n[4:], True)
            continue
        w[k] = build.start_shim(n.split(':')[1], n.split(':')[2]) if n.startswith('shim:') else build.start_lib(n)
    return w, build.start_exe(st['exe'], EXES[st['exe']], st['tsan'])

def merge(files, pid, out):
    docs = [json.load(open(f)) for f in files]
    d = docs[0]
    d['check'] = d['property'] = pid
    for e in docs[1:]:
        a, b = d['coverage'], e['coverage']
        for k, v in b.items():
            if isinstance(v, bool): continue
            if isinstance(v, (int, float)): a[k] = a.get(k, 0) + v
            elif isinstance(v, dict):
                for x, y in v.items(): a.setdefault(k, {})[x] = a.get(k, {}).get(x, 0) + y
            elif isinstance(v, list): a.setdefault(k, []).extend(v)
            elif k == 'rule' and v != a['rule']: a['rule'] += ' | ' + v
        d['assumptions'] += [x for x in e['assumptions'] if x not in d['assumptions']]
        d['wall_s'] += e['wall_s']
        d['violations'] += e['violations']
    with open(out, 'w') as f:
        json.dump(d, f)

def run_preproc(args):
    """the scripts in preprocess/ (Python, hypothesis)"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    build.prepare()
    out = os.path.join(build.OUT, 'C26.%d.json' % os.getpid())
    cmd = ['python3-vt', os.path.join(V, 'preproc/check_preproc.py')]
    if '--replay' not in args:
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        cmd += ['--seed', os.environ.get('VERIF_SEED', '1') or '1', '--out', out, '--replay-dir', os.path.join(V, 'replay')]
        if os.environ.get('VERIF_TIER', 'quick') == 'thorough':
            cmd.append('--thorough')
    rc = subprocess.call(cmd + args, env=env)
    if os.path.exists(out):
        d = json.load(open(out))
        with open(os.path.join(V, 'evidence', 'C26.json'), 'w') as f:
            json.dump(d, f)
        os.unlink(out)
    return rc

def run(pid, args):
    if pid == 'C26':
        return run_preproc(args)
    stages = STAGES[pid]
    if '--replay' in args:
        # the replay file names its check
        name = open(args[args.index('--replay') + 1]).readline().split()
        stages = [s for s in stages if s['check'] in name] or stages[:1]
    build.prepare()
    started = [start(s) for s in stages]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for d in ('evidence', 'replay'):
        os.makedirs(os.path.join(V, d), exist_ok=True)
    rc, ev = 0, []
    for n, (st, (waits, exe)) in enumerate(zip(stages, started)):
        env = dict(os.environ)
        try:
            for k, x in waits.items():
                env[k] = x()
        except RuntimeError as e:
            # internal interfaces may change: what is left is the behaviour of the grids
            if not any(v.startswith('shim:') for v in st['env'].values()) or len(stages) == 1:
                raise
            waits['VERIF_LIB']()
            print('%s: left out, the component cannot be built on its own any more\n%s' % (st['check'], str(e)[-1500:]))
            continue
        env['ASAN_OPTIONS'] = ASAN
        env['TSAN_OPTIONS'] = TSAN
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
        cmd = [exe(), '--check', st['check'], '--known', os.path.join(V, 'known-findings')]
        if '--replay' not in args:
            ev.append(os.path.join(build.OUT, '%s.%d.json' % (st['check'], os.getpid())))
            cmd += ['--seed', os.environ.get('VERIF_SEED', '1') or '1', '--evidence', ev[-1], '--replay-dir', os.path.join(V, 'replay')]
            if tier == 'thorough':
                cmd.append('--thorough')
                if '--budget' not in args:
                    cmd += ['--budget', str(3000 // len(stages))]
            elif '--budget' not in args:
                cmd += ['--budget', str(90 // len(stages))]
        sys.stdout.flush()
        r = subprocess.call(cmd + args, env=env)
        if r != 0:
            rc = r
            break
    if ev and rc in (0, 1):
        merge([f for f in ev if os.path.exists(f)], pid, os.path.join(V, 'evidence', pid + '.json'))
    for f in ev:
        if os.path.exists(f): os.unlink(f)
    return rc

if __name__ == '__main__':
    a = sys.argv[1:]
    if '--thorough' in a:
        os.environ['VERIF_TIER'] = 'thorough'
        a.remove('--thorough')
    try:
        rc = run(a[0], a[1:])
    except RuntimeError as e:
        print(e)
        print('build failed')
        rc = 2
    sys.exit(rc)
