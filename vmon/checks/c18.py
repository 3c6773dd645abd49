"""C18: configuration and data files are read back as written."""
import os, sys, copy
import numpy as np
from .. import gen, par

RULE = ('random configuration files (1-40 parameters of every yaml type in random order, one or several per list item, with, without or with empty optional part, through the argument or the command line) and data files '
        '(npy of many types, shapes and layouts; netCDF and MATLAB 7.3/HDF5 files with several arrays) named with extensions in any letter case, wrong extensions with explicit format, serially and with 1-3 processes, some of them again after the result was modified and after the file was rewritten: '
        'returned values, shapes and types against what was written; distinct: (format, explicit or not, types, dimensions, processes)')
ASSUMPTIONS = ['numbers are written in a form that yaml itself reads as numbers', 'packed netCDF variables up to the resolution of the packing']
BUDGET = {'quick': 90, 'thorough': 900}

DT = ['f8', 'f8', 'f4', 'i4', 'i8', 'i2', 'u1', 'c16', 'c8', '>f8', '?']
REFUSED = ['.txt', '.csv', '.npz', '.h5', '', '.hdf', '.dat', '.nc4', '.matx', '.np', '.npyy', '.ncdf', '.m', '.n']


def value(rng, depth=0):
    r = rng.randrange(10 if depth == 0 else 7)
    return [rng.randint(-10 ** 6, 10 ** 6), round(rng.uniform(-5, 5), rng.randint(1, 8)), rng.random() < 0.5, rng.choice(['longtime', 'a b', 'true', '12', '3.5', 'null', 'x: y', '#c', '', './results/dir', 'é']), None,
            float(rng.randint(-9, 9)), rng.choice([1e-12, 2.5e10, 1e300, 0.1]), [value(rng, 1) for _ in range(rng.randint(0, 4))] if depth == 0 else 0, {f'k{i}': value(rng, 1) for i in range(rng.randint(0, 3))} if depth == 0 else 0,
            rng.choice([0, 1, -1])][r]


def conf_case(rng):
    req = {'time_step': rng.choice([1, 0.5, 12.0, 3600]), 'n_space_dims': rng.randint(1, 3), 'n_variables': rng.randint(1, 9), 'n_dft': rng.randint(4, 999)}
    ks = list(req); rng.shuffle(ks)
    names = ['overlap', 'mean_type', 'n_modes_save', 'normalize_weights', 'normalize_data', 'conf_level', 'savefft', 'reuse_blocks', 'savedir', 'dtype', 'fullspectrum', 'savefreq_disk'] + [f'user_{i}' for i in range(28)]
    rng.shuffle(names)
    n = rng.choice([0, 1, 2, 5, 12, 40])
    extra = rng.random() < 0.3
    req2 = [(k, req[k]) for k in ks] + ([('more', value(rng))] if extra else [])
    return dict(k='conf', req=req2, opt=None if rng.random() < 0.2 else [(k, value(rng)) for k in names[:n]], group=rng.choice([1, 1, 1, 1, 2, 3]), first=rng.random() < 0.5, argv=rng.random() < 0.3, flow=rng.random() < 0.3,
                emptynone=rng.random() < 0.5, pad=rng.random() < 0.3,
                again=[(k, v if k == 'time_step' else v + rng.randint(0, 3)) for k, v in req.items()] if rng.random() < 0.3 else None)


def rand_array(rng):
    return dict(seed=rng.getrandbits(30), dt=rng.choice(DT), sh=[rng.choice([0, 1, 2, 3, 5]) if rng.random() < 0.3 else rng.randint(1, 5) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))], f=rng.random() < 0.3)


def data_case(rng):
    fmt = rng.choice(['npy', 'nc', 'mat'])
    ext = '.' + ''.join(ch.upper() if rng.random() < 0.35 else ch for ch in fmt)
    explicit = rng.random() < 0.4
    f = None
    if explicit:
        ext = rng.choice(['.dat', '.bin', '', '.npy', '.nc', '.mat', ext])
        f = rng.choice(['', '.']) + ''.join(ch.upper() if rng.random() < 0.3 else ch for ch in fmt)
    name = rng.choice(['data', 'a.b.c', 'x y', 'DATA_1', 'npy', 'file.mat', 'file.nc', 'd.npy', '.hidden'])
    return dict(k='data', fmt=fmt, ext=ext, format=f, name=name, arrays=[rand_array(rng) for _ in range(1 if fmt == 'npy' else rng.randint(1, 4))],
                again=[rand_array(rng) for _ in range(1 if fmt == 'npy' else rng.randint(1, 4))] if rng.random() < 0.4 else None)


def bad_case(rng):
    return dict(k='bad', ext=rng.choice(REFUSED), format=rng.choice([None, None, 'txt', 'hdf5', 'csv', '.npz', 'h5', 'numpy', 'matlab']), seed=rng.getrandbits(30))


def make_jobs(rng, tier):
    q = tier == 'quick'
    pick = lambda: (conf_case, data_case, data_case, bad_case)[rng.choice([0, 0, 1, 2, 2, 3])](rng)
    jobs = [dict(cases=[pick() for _ in range(25)]) for _ in range(90 if q else 1200)]
    for _ in range(6 if q else 60):
        k = rng.choice([1, 2, 3]); jobs.append(dict(np=k, cases=[data_case(rng) for _ in range(10)] + [bad_case(rng)], delay=par.rand_delay(rng, k)))
    return jobs


def arr(a, fmt):
    g = gen.rs(a['seed'])
    dt = np.dtype(a['dt'])
    if fmt == 'nc' and dt.kind in 'cb': dt = np.dtype('f8')
    sh = tuple(a['sh'])
    if dt.kind == 'c': x = (g.standard_normal(sh) + 1j * g.standard_normal(sh))
    elif dt.kind == 'f': x = g.standard_normal(sh) * 10.0 ** g.integers(-3, 4)
    elif dt.kind == 'b': x = g.random(sh) < 0.5
    else: x = g.integers(0, 100, sh)
    x = np.asarray(x).astype(dt)
    if a['f'] and x.ndim > 1: x = np.asfortranarray(x)
    if dt.kind == 'f' and x.size > 2 and g.random() < 0.2: x.flat[1] = np.nan
    return x


PACK = dict(dtype='i4', scale_factor=0.0078125, add_offset=-2.0, _FillValue=-2147483648)


def packed(a, x):
    return x.dtype == np.float64 and a['seed'] % 3 == 0


def times(c):
    s = c['arrays'][0]['seed']
    return np.datetime64('1979-01-01T00', 'ns') + np.arange(5) * np.timedelta64([6, 24, 744][s % 3], 'h')


def write(c, fn):
    xs = [arr(a, c['fmt']) for a in c['arrays']]
    if c['fmt'] == 'npy':
        with open(fn, 'wb') as f: np.save(f, xs[0])
    elif c['fmt'] == 'mat':
        import h5py
        with h5py.File(fn, 'w') as f:
            for i, x in enumerate(xs): f.create_dataset(f'v{i}', data=x)
    else:
        import xarray as xr
        xr.Dataset({f'v{i}': ([f'd{i}_{j}' for j in range(x.ndim)], x) for i, x in enumerate(xs)}, coords={'lat': np.linspace(-3, 3, 4), 'time': times(c)}).to_netcdf(fn, encoding={f'v{i}': PACK for i, x in enumerate(xs) if packed(c['arrays'][i], x)})


def write_conf(c, fn):
    import yaml
    def items(l):
        out = []
        for i in range(0, len(l), c['group']): out.append(dict(l[i:i + c['group']]))
        return out
    parts = [('required', items(c['req']))]
    if c['opt'] is not None: parts.append(('optional', items(c['opt']) or (None if c['emptynone'] else [])))
    if not c['first']: parts = parts[::-1]
    with open(fn, 'w', encoding='utf8') as f:
        for k, l in parts:
            if c['pad']: f.write('# a comment\n\n')
            if l is None: f.write(f'{k}:\n')
            elif c['flow']: f.write(f'{k}: ' + yaml.dump(l, sort_keys=False, default_flow_style=True, allow_unicode=True, width=10 ** 6).strip() + '\n')
            else: f.write(yaml.dump({k: l}, sort_keys=False, default_flow_style=False, allow_unicode=True))


def run(job, ctx):
    from .. import ops
    from pyspod.utils import io
    res = []
    for i, c in enumerate(job['cases']):
        o = {}
        try:
            if c['k'] == 'conf':
                fn = ctx.path(f'c{i}.yaml'); write_conf(c, fn)
                def read():
                    if not c['argv']: return io.read_config(fn)
                    keep = sys.argv; sys.argv = ['prog', '--config_file', fn]
                    try: return io.read_config()
                    finally: sys.argv = keep
                o['r'] = read()
                if c['again']:
                    keep = copy.deepcopy(o['r'])
                    for k, v in list(o['r'].items()):
                        if isinstance(v, list): v.append('more')
                    o['r']['added'] = 1; del o['r']['n_dft']
                    o['same'] = read()
                    o['r'] = keep
                    write_conf({**c, 'req': c['again']}, fn)
                    o['other'] = read()
            elif c['k'] == 'data':
                fn = ctx.path(f'd{i}_' + c['name'] + c['ext'])
                if ctx.rank == 0: write(c, fn)
                ctx.sync()
                kw = {} if ctx.comm is None else {'comm': ctx.comm}

                def read(o):
                    r = io.read_data(fn, **kw) if c['format'] is None else io.read_data(fn, format=c['format'], **kw) if i % 2 else io.read_data(fn, c['format'], **kw)
                    if c['fmt'] == 'npy': o['r'] = {'': np.array(r)}; live = [r]
                    elif c['fmt'] == 'mat': o['r'] = {k: np.array(v) for k, v in r.items()}; live = list(r.values())
                    else:
                        live = [r[k].values for k in r.data_vars]
                        o['r'] = {k: np.array(r[k].values) for k in r.data_vars}
                        o['dims'] = {k: list(r[k].dims) for k in r.data_vars}; o['lat'] = np.array(r['lat'].values); o['time'] = np.array(r['time'].values)
                        r.close()
                    for a in live:          # what a caller may do with arrays that were read
                        try: a[...] = 1
                        except (ValueError, TypeError): pass
                    return o
                read(o)
                if c['again']:
                    # the same name again, with the same and then with other contents
                    o['same'] = read({})
                    ctx.sync()
                    if ctx.rank == 0: os.remove(fn); write({**c, 'arrays': c['again']}, fn)
                    ctx.sync()
                    o['other'] = read({})
            else:
                fn = ctx.path(f'b{i}' + c['ext'])
                if ctx.rank == 0:
                    with open(fn, 'wb') as f: np.save(f, np.arange(3.0))
                ctx.sync()
                try: o['r'] = str(io.read_data(fn, **({} if c['format'] is None else {'format': c['format']})))[:80]
                except Exception as e: o['refused'] = type(e).__name__
        except Exception as e: o = ops.exc_info(e)
        res.append(o)
    return {'res': res}


def same(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, dict): return list(sorted(a)) == list(sorted(b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def judge(job, obs):
    viol, ev, sig = par.failures(obs, job), {}, []
    par.traces(obs, ev)
    if viol: return {'viol': viol[:4], 'events': ev, 'sig': []}
    np_ = job.get('np', 0)
    for r, ob in enumerate(obs):
        for i, (c, o) in enumerate(zip(job['cases'], ob['res'])):
            tag = f'case {i} ({c["k"]}): '
            if 'exc' in o: viol.append(f'{tag}raised {o["exc"]}: {o["msg"]} {o["tb"][-300:]} {c}'); continue
            if c['k'] == 'conf':
                for got, req, how in [(o['r'], c['req'], '')] + ([(o['same'], c['req'], ' read a second time'), (o['other'], c['again'], ' read after it was rewritten')] if c['again'] else []):
                    want = dict(req); want.update(dict(c['opt'] or []))
                    ev['parameters'] = ev.get('parameters', 0) + len(want)
                    if not isinstance(got, dict) or set(got) != set(want): viol.append(f'{tag}parameters {sorted(set(want) ^ set(got))[:6]} differ (file with {len(c["req"])} required, {len(c["opt"] or [])} optional, {c["group"]} per item{how})')
                    else:
                        for k in want:
                            if not same(want[k], got[k]): viol.append(f'{tag}{k} written as {want[k]!r} is read as {got[k]!r}{how}'); break
                sig.append(('conf', c['opt'] is None, len(c['opt'] or []), c['group'], c['argv'], c['flow'], c['first']))
            elif c['k'] == 'data':
                for q, arrays, how in [(o, c['arrays'], '')] + ([(o['same'], c['arrays'], ', read a second time,'), (o['other'], c['again'], ', read after it was rewritten,')] if c['again'] else []):
                    xs = [arr(a, c['fmt']) for a in arrays]
                    want = {'': xs[0]} if c['fmt'] == 'npy' else {f'v{k}': x for k, x in enumerate(xs)}
                    if set(q['r']) != set(want): viol.append(f'{tag}arrays {sorted(q["r"])} of a {c["fmt"]} file with {sorted(want)}{how}'); continue
                    for k, x in want.items():
                        y = q['r'][k]
                        ev['arrays'] = ev.get('arrays', 0) + 1
                        if y.shape != x.shape or y.dtype.newbyteorder('=') != x.dtype.newbyteorder('='): viol.append(f'{tag}array {k} of a {c["fmt"]} file ({x.dtype}, {x.shape}){how} is read as {y.dtype}, {y.shape}')
                        elif c['fmt'] == 'nc' and packed(arrays[int(k[1:])], x):
                            ev['packed'] = ev.get('packed', 0) + 1
                            if not np.allclose(x, y, rtol=0, atol=0.004, equal_nan=True): viol.append(f'{tag}packed array {k} of a {c["fmt"]} file ({x.dtype}, {x.shape}){how} is read with other values')
                        elif not np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc'): viol.append(f'{tag}array {k} of a {c["fmt"]} file ({x.dtype}, {x.shape}){how} is read with other values')
                    if c['fmt'] == 'nc' and not np.array_equal(q['lat'], np.linspace(-3, 3, 4)): viol.append(f'{tag}coordinates {q["lat"]}')
                    if c['fmt'] == 'nc' and not (q['time'].dtype.kind == 'M' and np.array_equal(q['time'].astype('M8[s]'), times({'arrays': arrays}).astype('M8[s]'))): viol.append(f'{tag}times {q["time"]}{how}')
                sig.append((c['fmt'], c['format'] is None, c['ext'].lower(), tuple(sorted(a['dt'] for a in c['arrays']))[:2], np_))
            else:
                ev['refusals'] = ev.get('refusals', 0) + 1
                if 'refused' not in o: viol.append(f'{tag}a file with extension {c["ext"]!r} and format {c["format"]!r} is not refused: {o.get("r")}')
                sig.append(('bad', c['ext'], c['format']))
            if len(viol) > 5: break
    return {'viol': viol[:6], 'events': ev, 'sig': sig, 'evals': len(job['cases']) * len(obs), 'sample': str(job['cases'][0])[:400]}
