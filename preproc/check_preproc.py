#!/usr/bin/env python3
"""C26: the scripts that prepare grids (preprocess/), run on generated inputs. Search and shrinking: hypothesis."""
import argparse, collections, contextlib, io, json, math, os, runpy, shutil, struct, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'stub'))
sys.dont_write_bytecode = True
import numpy
import netCDF4
import hypothesis
from hypothesis import given, settings, strategies as st, HealthCheck, Phase

REPO = os.environ.get('VERIF_REPO', '/repo')
NOISE = os.path.join(REPO, 'preprocess/gen_noise')
GRID = os.path.join(NOISE, 'create_noise_grid.py')
TIME = os.path.join(REPO, 'preprocess/interpol_time/interpol_time.py')
stats = collections.Counter()
labels = collections.Counter()

class Violation(Exception):
    def __init__(self, key, text):
        Exception.__init__(self, '[%s] %s' % (key, text))
        self.key = key
def fail(key, text, *a):
    raise Violation(key, text % a)

# ---------------------------------------------------------------- reference: improved noise (Perlin, 2002)
PERM = [151,160,137,91,90,15,131,13,201,95,96,53,194,233,7,225,140,36,103,30,69,142,8,99,37,240,21,10,23,190,6,148,247,120,234,75,0,26,197,62,94,252,219,203,117,35,11,32,57,177,33,88,237,149,56,87,174,20,125,136,171,168,68,175,74,165,71,134,139,48,27,166,77,146,158,231,83,111,229,122,60,211,133,230,220,105,92,41,55,46,245,40,244,102,143,54,65,25,63,161,1,216,80,73,209,76,132,187,208,89,18,169,200,196,135,130,116,188,159,86,164,100,109,198,173,186,3,64,52,217,226,250,124,123,5,202,38,147,118,126,255,82,85,212,207,206,59,227,47,16,58,17,182,189,28,42,223,183,170,213,119,248,152,2,44,154,163,70,221,153,101,155,167,43,172,9,129,22,39,253,19,98,108,110,79,113,224,232,178,185,112,104,218,246,97,228,251,34,242,193,238,210,144,12,191,179,162,241,81,51,145,235,249,14,239,107,49,192,214,31,181,199,106,157,184,84,204,176,115,121,50,45,127,4,150,254,138,236,205,93,222,114,67,29,24,72,243,141,128,195,78,66,215,61,156,180]
assert sorted(PERM) == list(range(256))
def gradient(h):
    """the 16 directions: component index pairs (first, second) with signs"""
    h &= 15
    a = 0 if h < 8 else 1
    b = 1 if h < 4 else (0 if h in (12, 14) else 2)
    v = [0.0, 0.0, 0.0]
    v[a] += -1.0 if h & 1 else 1.0
    v[b] += -1.0 if h & 2 else 1.0
    return v
def reference(pos):
    """noise at a position of one to three dimensions: sum over the corners of the cell"""
    n = len(pos)
    cell = [math.floor(x) for x in pos]
    f = [x - c for x, c in zip(pos, cell)]
    s = [t * t * t * (t * (t * 6 - 15) + 10) for t in f]
    total = 0.0
    for corner in range(1 << n):
        h, w, d = 0, 1.0, 0.0
        bits = [(corner >> k) & 1 for k in range(n)]
        for k in range(n):
            h = PERM[((int(cell[k]) + bits[k]) + h) & 255]
            w *= s[k] if bits[k] else 1 - s[k]
        g = gradient(h)
        for k in range(n):
            d += g[k] * (f[k] - bits[k])
        total += w * d
    return total

# ---------------------------------------------------------------- running the scripts
def load_noise():
    sys.modules.pop('pnoise', None)
    sys.path.insert(0, NOISE)
    try:
        import pnoise
    finally:
        sys.path.remove(NOISE)
    return pnoise
def script(path, *args):
    sys.modules.pop('pnoise', None)
    argv, sys.argv = sys.argv, [path] + list(args)
    out = io.StringIO()
    del netCDF4.OPEN[:]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), numpy.errstate(all='ignore'):
            sys.path.insert(0, os.path.dirname(path))
            runpy.run_path(path, run_name='__main__')
    except Violation: raise
    except SystemExit as e:
        if e.code: fail('exit', '%s ends with %s\n%s', os.path.basename(path), e.code, out.getvalue()[-500:])
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt): raise
        fail('error', '%s %s: %s\n%s', os.path.basename(path), ' '.join(args), e, traceback.format_exc(limit=-3))
    finally:
        sys.argv = argv
        while os.path.dirname(path) in sys.path: sys.path.remove(os.path.dirname(path))
    for d in netCDF4.OPEN:
        if d._open: fail('open', 'a netCDF file is not closed')

# ---------------------------------------------------------------- oracles
def check_noise(c):
    """noise functions: known values, zero at the lattice, bounds, period, continuity, octaves"""
    p = load_noise()
    n, x, k = c['dims'], c['x'][:c['dims']], c['shift'][:c['dims']]
    one = {1: lambda q: p.noise1D(q[0], 0, 0.5), 2: lambda q: p.pnoise2D(*q), 3: lambda q: p.pnoise3D(*q)}[n]
    octaves = {1: p.noise1D, 2: p.noise2D, 3: p.noise3D}[n]
    try:
        v = one(x)
        want = reference(x)
        if abs(v - want) > 1e-9: fail('noise', '%dD noise at %s is %.17g, expected %.17g', n, x, v, want)
        if not abs(v) <= 1.1: fail('range', '%dD noise at %s is %.17g', n, x, v)
        lattice = [math.floor(t) for t in x]
        z = one([float(t) for t in lattice])
        if abs(z) > 1e-12: fail('lattice', '%dD noise at the lattice point %s is %.17g', n, lattice, z)
        moved = [t + 256 * s for t, s in zip(x, k)]
        if abs(one(moved) - v) > 1e-6: fail('period', '%dD noise at %s is %.17g, at %s %.17g', n, x, v, moved, one(moved))
        for i in range(n):
            for e in (-1e-7, 1e-7):
                y = list(x); y[i] += e
                if abs(one(y) - v) > 1e-5: fail('jump', '%dD noise jumps from %.17g to %.17g at %s', n, v, one(y), x)
                b = [float(t) if j == i else x[j] for j, t in enumerate(lattice)]
                y = list(b); y[i] += e
                if abs(one(y) - one(b)) > 1e-5: fail('jump', '%dD noise jumps from %.17g to %.17g at %s', n, one(b), one(y), b)
        total = weight = 0.0
        f, q = 1.0, list(x)
        for i in range(c['depth'] + 1):
            total += f * reference(q); weight += f
            f *= c['roughness']; q = [2.0 * t for t in q]
        v = octaves(*(list(x) + [c['depth'], c['roughness']]))
        if abs(v - total / weight) > 1e-7: fail('octaves', 'noise%dD(%s, depth %d, roughness %g) is %.17g, expected %.17g', n, x, c['depth'], c['roughness'], v, total / weight)
    except Violation: raise
    except Exception as e:
        fail('error', 'noise of %d dimension(s) at %s: %s: %s\n%s', n, x, type(e).__name__, e, traceback.format_exc(limit=-2))
    stats['noise positions'] += 1
    labels['noise in %d dimension(s)' % n] += 1
    if any(t < 0 for t in x): labels['negative positions'] += 1
    return any(t != math.floor(t) for t in x)

def expected_depth(x, y, depth, r):
    total = weight = 0.0
    f, q = 1.0, [10.0 * x - 2.0, 10.0 * y]
    for i in range(depth + 1):
        total += f * reference(q); weight += f
        f *= r; q = [2.0 * t for t in q]
    out = -7.0e-8 * (total / weight + 0.7 - 4.0 * y * (1.0 - y)) + 0.5e-8
    return max(0.0, min(1.0e-8, out))

def check_grid(c):
    """create_noise_grid: coordinates, values and the place of every value, in both formats"""
    w, h = c['width'], c['height']
    tmp = tempfile.mkdtemp(prefix='verif-noise-')
    try:
        nc, vtk = os.path.join(tmp, 'a.nc'), os.path.join(tmp, 'a.vtk')
        args = ['-width', str(w), '-height', str(h), '-roughness', repr(c['roughness'])]
        if c['nc']: args += ['-nc_file', nc]
        if c['vtk']: args += ['-vtk_file', vtk]
        netCDF4.FILES.clear()
        script(GRID, *args)
        depth = int(math.log(h))
        xs = [(i + 0.5) / h for i in range(w)]
        ys = [(j + 0.5) / h for j in range(h)]
        if c['nc']:
            if nc not in netCDF4.FILES: fail('file', 'no netCDF file')
            f = netCDF4.FILES[nc]
            for n, want in (('x', xs), ('y', ys)):
                if n not in f.variables or f.variables[n].dimensions != (n,): fail('coordinates', 'there is no coordinate variable %s', n)
                v = f.variables[n].data
                if len(v) != len(want): fail('coordinates', 'dimension %s has %d points, expected %d', n, len(v), len(want))
                for i in range(len(want)):
                    if not abs(v[i] - want[i]) <= 1e-6 * max(1.0, want[-1]): fail('coordinates', '%s[%d] is %g, expected %g', n, i, v[i], want[i])
            if 'z' not in f.variables: fail('values', 'there is no variable z')
            z = f.variables['z']
            # x is the first dimension of the grid in ASAGI: the last one of the variable
            if z.dimensions != ('y', 'x'): fail('order', 'the dimensions of z are %s, x has to be the fastest one', z.dimensions)
            if not z.written.all(): fail('values', '%d values are not set', (~z.written).sum())
            px, py = f.variables['x'].data, f.variables['y'].data
            for j in range(h):
                for i in range(w):
                    want = expected_depth(float(px[i]), float(py[j]), depth, c['roughness'])
                    if not abs(z.data[j, i] - want) <= 2e-13 + 1e-14 * w: fail('values', 'value at x=%g y=%g is %.9g, expected %.9g', px[i], py[j], z.data[j, i], want)
        elif netCDF4.FILES: fail('file', 'a netCDF file is written that was not asked for')
        if c['vtk']:
            lines = open(vtk).read().split('\n')
            if not lines[0].startswith('# vtk DataFile'): fail('vtk', 'no VTK file')
            head = {}
            for i, l in enumerate(lines):
                t = l.split()
                if t: head[t[0]] = (i, t[1:])
                if t and t[0] == 'LOOKUP_TABLE': break
            else: fail('vtk', 'incomplete VTK header')
            if [int(t) for t in head['DIMENSIONS'][1]] != [w, h, 1]: fail('vtk', 'DIMENSIONS %s', head['DIMENSIONS'][1])
            if int(head['POINT_DATA'][1][0]) != w * h: fail('vtk', 'POINT_DATA %s', head['POINT_DATA'][1])
            v = [float(t) for t in ' '.join(lines[head['LOOKUP_TABLE'][0] + 1:]).split()]
            if len(v) != w * h: fail('vtk', '%d values, expected %d', len(v), w * h)
            for j in range(h):
                for i in range(w):
                    want = expected_depth(xs[i], ys[j], depth, c['roughness'])
                    # coordinates may be rounded to float (also in the netCDF file)
                    if not abs(v[j * w + i] - want) <= 2e-12 + 1e-13 * w: fail('vtk', 'value of point (%d, %d) is %.9g, expected %.9g', i, j, v[j * w + i], want)
        elif os.path.exists(vtk): fail('file', 'a VTK file is written that was not asked for')
        stats['grid values'] += w * h
        labels['netCDF' if c['nc'] and not c['vtk'] else 'VTK' if not c['nc'] else 'netCDF and VTK'] += 1
        if w != h: labels['not square'] += 1
        return w * h > 1
    finally:
        for n in ('a.nc', 'a.vtk'):
            if os.path.exists(os.path.join(tmp, n)): os.unlink(os.path.join(tmp, n))
        os.rmdir(tmp)

def check_time(c):
    """interpol_time: the new file has the old one as leading time series that grows linearly"""
    netCDF4.FILES.clear()
    old = netCDF4.Dataset('old.nc', 'w', format=c['format'])
    for n, s in c['dims']: old.createDimension(n, s)
    for a, v in c['attrs']: old.setncattr(a, v)
    for name, dtype, dims, values, attrs in c['vars']:
        v = old.createVariable(name, dtype, dims)
        v[:] = numpy.array(values, dtype).reshape(v.shape)
        for a, b in attrs: v.setncattr(a, b)
    old.close()
    before = {n: v.data.copy() for n, v in old.variables.items()}
    script(TIME, 'old.nc', 'new.nc')
    new = netCDF4.FILES.get('new.nc')
    if new is None: fail('file', 'no new file')
    if new.file_format != c['format']: fail('format', 'format %s, expected %s', new.file_format, c['format'])
    T = len(new.dimensions['time']) if 'time' in new.dimensions else fail('time', 'no dimension time')
    for n, s in c['dims']:
        if n not in new.dimensions or len(new.dimensions[n]) != s: fail('dimensions', 'dimension %s is not copied', n)
    if set(new.dimensions) != set(n for n, _ in c['dims']) | {'time'}: fail('dimensions', 'dimensions %s', sorted(new.dimensions))
    def attributes(a, b, what, more=()):
        want = {k: v for k, v in a if k != '_FillValue'}
        for k in want:
            if k not in b._attrs or b._attrs[k] != want[k]: fail('attributes', 'attribute %s of %s is %r, expected %r', k, what, b._attrs.get(k), want[k])
        for k in b._attrs:
            if k not in want and k not in more: fail('attributes', '%s has a new attribute %s', what, k)
    attributes(c['attrs'], new, 'the file')
    if set(new.variables) != set(x[0] for x in c['vars']) | {'time'}: fail('variables', 'variables %s', sorted(new.variables))
    t = new.variables['time']
    if t.dimensions != ('time',): fail('time', 'time has dimensions %s', t.dimensions)
    if T != 600: fail('time', '%d time steps', T)
    for i in range(T):
        if abs(t.data[i] - i * 300.0 / T) > 1e-4: fail('time', 'time[%d] is %g', i, t.data[i])
    dims = set(n for n, _ in c['dims'])
    for name, dtype, d, values, attrs in c['vars']:
        v, o = new.variables[name], before[name]
        if v.dtype != o.dtype: fail('type', 'variable %s has type %s, expected %s', name, v.dtype, o.dtype)
        attributes(attrs, v, name)
        if not v.written.all(): fail('values', 'values of %s are not set', name)
        if (old.variables[name].data != o).any(): fail('source', 'the old file is changed')
        if name in dims:
            if v.dimensions != tuple(d) or (v.data != o).any(): fail('coordinates', 'coordinate variable %s is not copied', name)
            continue
        if v.dimensions != ('time',) + tuple(d): fail('order', 'variable %s has dimensions %s', name, v.dimensions)
        scale = numpy.arange(T, dtype=float).reshape((T,) + (1,) * o.ndim) / T
        want = scale * o[numpy.newaxis].astype(float)
        tol = (1.0 if o.dtype.kind in 'iu' else 0) + 4 * (numpy.finfo(o.dtype).eps if o.dtype.kind == 'f' else 0) * numpy.abs(want) + 1e-30
        bad = numpy.abs(v.data.astype(float) - want) > tol
        if o.dtype.kind in 'iu':
            # towards zero, exact for whole numbers
            bad |= numpy.abs(v.data.astype(float)) > numpy.abs(want) + 1e-9 * (1 + numpy.abs(want))
        if bad.any():
            i = tuple(int(q[0]) for q in numpy.nonzero(bad))
            fail('values', '%s%s is %r, expected %.9g', name, list(i), v.data[i], want[i])
        stats['time series'] += o.size
    labels['time series'] += 1
    return any(x[0] not in dims for x in c['vars'])

# ---------------------------------------------------------------- generators
real = st.one_of(st.floats(-300, 300, allow_nan=False), st.integers(-520, 520).map(lambda i: i / 2.0), st.floats(-3, 3, allow_nan=False))
noise_case = st.fixed_dictionaries(dict(kind=st.just('noise'), dims=st.sampled_from([2, 3, 1]), x=st.lists(real, min_size=3, max_size=3),
    shift=st.lists(st.integers(-2, 2), min_size=3, max_size=3), depth=st.integers(0, 5), roughness=st.floats(0, 1)))
small = st.one_of(st.integers(1, 7), st.integers(1, 14))
grid_case = st.fixed_dictionaries(dict(kind=st.just('grid'), width=small, height=st.one_of(small, st.sampled_from([20, 21])), roughness=st.floats(0, 1),
    out=st.sampled_from([(True, False), (True, True), (False, True), (False, False)]))).map(lambda c: dict(kind='grid', width=c['width'], height=c['height'], roughness=c['roughness'], nc=c['out'][0], vtk=c['out'][1]))
@st.composite
def time_case(draw):
    names = draw(st.lists(st.sampled_from(['x', 'y', 'lat', 'lon', 'side']), min_size=1, max_size=3, unique=True))
    dims = [[n, draw(st.integers(1, 4))] for n in names]
    size = dict(dims)
    text = st.sampled_from(['m', '', 'height', 'depth of water', 'metres since 0'])
    attr = st.lists(st.tuples(st.sampled_from(['units', 'long_name', 'title', 'history', '_FillValue', 'source']), text), max_size=3, unique_by=lambda t: t[0]).map(lambda l: [list(t) for t in l])
    vs = []
    def values(n, dtype):
        if dtype[0] == 'f':
            return draw(st.lists(st.floats(-1e6, 1e6, width=32, allow_nan=False), min_size=n, max_size=n))
        m = 100 if dtype == 'i1' else 30000
        return draw(st.lists(st.integers(-m, m), min_size=n, max_size=n))
    dt = st.sampled_from(['f4', 'f8', 'i4', 'i2', 'i1'])
    for n in names:
        if draw(st.booleans()):
            t = draw(dt); vs.append([n, t, [n], values(size[n], t), draw(attr)])
    for n in draw(st.lists(st.sampled_from(['z', 'b', 'u', 'hu']), max_size=2, unique=True)):
        t = draw(dt)
        d = draw(st.permutations(names))[:draw(st.integers(1, len(names)))]
        vs.append([n, t, list(d), values(int(numpy.prod([size[x] for x in d])), t), draw(attr)])
    return dict(kind='time', format=draw(st.sampled_from(['NETCDF3_CLASSIC', 'NETCDF4', 'NETCDF3_64BIT_OFFSET'])), dims=dims, attrs=draw(attr), vars=draw(st.permutations(vs)))

CHECKS = dict(noise=check_noise, grid=check_grid, time=check_time)
PLAN = dict(noise=(noise_case, 1500, 60000), grid=(grid_case, 260, 9000), time=(time_case(), 160, 5000))
RULE = ('a case is a position of the noise, the options of the grid generator or a file for the time series; non-trivial: the position is not a lattice '
        'point, the grid has several cells, the file has a variable that is no coordinate')

def known(file):
    r = []
    if os.path.exists(file):
        for l in open(file):
            if l.startswith('known: property=C26 '): r.append(l.split(None, 2)[2].strip())
    return r

def main():
    a = argparse.ArgumentParser()
    a.add_argument('--thorough', action='store_true'); a.add_argument('--cases', type=int); a.add_argument('--budget', type=float, default=0)
    a.add_argument('--replay'); a.add_argument('--seed', type=int, default=1); a.add_argument('--out'); a.add_argument('--replay-dir')
    a, _ = a.parse_known_args()
    if a.replay:
        c = json.load(open(a.replay))['case']
        try:
            CHECKS[c['kind']](c)
        except Violation as e:
            print('%s\n%s' % (e, json.dumps(c)))
            print('VIOLATION property=C26 replay=%s' % a.replay)
            return 1
        print('the case passes')
        return 0
    start = time.time()
    evaluations, seen, samples, violations = 0, set(), [], 0
    for kind, (strategy, quick, thorough) in PLAN.items():
        count = a.cases or (thorough if a.thorough else quick)
        last = {}
        per = []
        def body(c):
            nonlocal evaluations
            if a.budget and time.time() - start > a.budget: return
            evaluations += 1
            last['case'] = c
            s = json.dumps(c, sort_keys=True)
            try:
                nontrivial = CHECKS[kind](c)
            except Violation as e:
                last['failing'], last['what'] = c, e
                raise
            if nontrivial:
                if s not in seen and len(per) < 2 and evaluations % 37 == 5: per.append(s)
                seen.add(s)
        # random generation, then shrinking; no database: runs are reproducible
        test = hypothesis.seed(a.seed)(settings(max_examples=count, deadline=None, database=None, derandomize=False, print_blob=False, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))(given(strategy)(body)))
        try:
            test()
        except Violation as e:
            c = last['failing']
            os.makedirs(a.replay_dir, exist_ok=True)
            path = os.path.join(a.replay_dir, 'C26-%s-seed%d.replay' % (kind, a.seed))
            json.dump(dict(check='C26', case=c), open(path, 'w'))
            print('%s\n--- case ---\n%s' % (last['what'], json.dumps(c)))
            print('VIOLATION property=C26 replay=%s' % path)
            violations = 1
        samples += per
        if violations: break
    doc = dict(property='C26', tier='thorough' if a.thorough else 'quick', seed=a.seed, level='exploration', wall_s=time.time() - start, violations=violations,
        coverage=dict(evaluations=evaluations, distinct_nontrivial=len(seen), rule=RULE, samples=samples[:6], classes=dict(labels), stats=dict(stats)),
        assumptions=['the module netCDF4 is replaced by a stand-in that keeps files in memory', 'the scripts run under Python 3'])
    json.dump(doc, open(a.out, 'w'))
    print('C26: %d cases, %d distinct non-trivial, %.1f s' % (evaluations, len(seen), doc['wall_s']))
    for k, v in sorted(labels.items()): print('  class %-40s %d' % (k, v))
    return 1 if violations else 0

if __name__ == '__main__':
    sys.exit(main())
