"""C05: the same snapshots in different forms give the same decomposition."""
import os
import numpy as np
from .. import gen, ref, par
from .c03 import compare_fits

RULE = ('random data supplied as one array and in 1-3 other forms: lists split at random points (also one snapshot long), labelled arrays, without the axis of a single '
        'variable, other memory layouts and number types holding the same values (batch and streaming, 0-4 processes), netCDF files split at random points with '
        'permuted and surplus variables, packed numbers and unlimited times, and one MATLAB file per snapshot, read by 1-5 processes; energies, modes, mean and weights are compared with the serial fit of '
        'the plain array; the readers\' branches for large data (padded messages, several chunks) are forced on some, and on some the files are rewritten after a first fit of other data from files of the same names; distinct: (form, processes, dimensions, variables, pieces, options)')
ASSUMPTIONS = ['netCDF and MATLAB sources are fitted with the batch algorithm, per-mode storage and without weight normalization (the combinations the readers support); nt >= 9 for netCDF']
BUDGET = {'quick': 200, 'thorough': 3000}

FORMS = ['splits', 'splits', 'xarray', 'xarray_list', 'dropv', 'fortran', 'strided', 'dtype', 'float32', 'single_nolist']


def make_jobs(rng, tier):
    jobs = []
    for _ in range(70 if tier == 'quick' else 1400):          # serial, arrays
        cs = []
        for _ in range(3):
            kind = 'streaming' if rng.random() < 0.3 else 'standard'
            cs.append(array_case(rng, kind))
        jobs.append(dict(src='array', cases=cs))
    for _ in range(20 if tier == 'quick' else 400):           # parallel, arrays
        k = rng.choice([1, 2, 3, 4])
        jobs.append(dict(np=k, src='array', cases=[array_case(rng, 'streaming' if rng.random() < 0.25 else 'standard')], delay=par.rand_delay(rng, k)))
    for _ in range(80 if tier == 'quick' else 1500):          # files
        k = rng.choice([1, 2, 2, 3, 4, 5])
        jobs.append(dict(np=k, src=rng.choice(['nc', 'nc', 'mat']), case=None, delay=par.rand_delay(rng, k)))
        jobs[-1]['case'] = file_case(rng, jobs[-1]['src'])
        # what the readers do with data too large to generate here
        jobs[-1]['case'].update(chunks=rng.choice([None, None, None, 2, 3, 4, 7]), pad=rng.random() < 0.2)
    return jobs


def clean_streaming(rng, c):
    p = c['params']
    for k in ('normalize_data', 'normalize_weights', 'mean_type'): p.pop(k, None)
    p['dtype'] = 'double'
    if c['data']['kind'] == 'masked': c['data']['kind'] = 'noise'
    if c['weights'] and c['weights']['kind'] == 'zeros': c['weights']['kind'] = 'smooth'
    p['n_modes_save'] = rng.choice([1, 2, 3])


def array_case(rng, kind):
    c = gen.rand_case(rng, maxpts=36, ndft=(4, 12))
    if kind == 'streaming': clean_streaming(rng, c)
    c['kind'] = kind
    c['forms'] = rng.sample(FORMS, 2)
    if rng.random() < 0.3: c['data']['kind'] = 'int'
    nt = c['data']['nt']
    k = rng.choice([2, 2, 3, 4, 6])
    c['splits'] = sorted(rng.sample(range(1, nt), min(k - 1, nt - 1)))
    if rng.random() < 0.3: c['splits'] = sorted(set(c['splits'] + [1]))
    if rng.random() < 0.3: c['splits'] = sorted(set(c['splits'] + [nt - 1]))
    c['fseed'] = rng.getrandbits(30)
    if c['data']['cplx'] and rng.random() < 0.4 and nt - c['splits'][0] > 2:
        c['data']['real_until'] = c['splits'][0]; c['forms'][0] = 'mixed'
        if rng.random() < 0.3:          # the imaginary part appears only after many numbers
            c['data']['xshape'] = [rng.randint(120000, 140000) // (nt * c['data']['nv'])]; c['params']['n_space_dims'] = 1
            c['splits'] = [nt - 1]; c['data']['real_until'] = nt - 1; c['params'].pop('normalize_data', None)
    return c


def file_case(rng, src):
    c = gen.rand_case(rng, cplx=False, maxpts=60, ndft=(4, 10), xdims=(3,) if src == 'mat' else (1, 2, 3))
    p = c['params']
    d = c['data']
    if rng.random() < 0.2: d['xshape'] = rng.choice([[1, 1, 2], [2, 1, 1], [1, 1, 1], [1, 2, 3]]) if src == 'mat' else rng.choice([[1], [2], [3], [1, 2], [2, 2]])
    p['n_space_dims'] = len(d['xshape'])
    d['nt'] = max(d['nt'], 9)
    p['savefreq_disk'] = False; p['savefreq_disk2'] = True
    p.setdefault('n_modes_save', 2)
    if rng.random() < 0.15:       # more than ten modes
        n = p['n_dft']; dn = n - int(np.ceil(n * p.get('overlap', 0) / 100))
        d['nt'] = (n - dn) + rng.randint(11, 14) * dn; p['n_modes_save'] = rng.choice([11, 12, 100])
    nt = d['nt']
    k = rng.choice([1, 2, 2, 3, 5])
    c['splits'] = sorted(rng.sample(range(1, nt), k - 1))
    c['fseed'] = rng.getrandbits(30)
    if rng.random() < 0.2: d['kind'] = 'int'
    c['f32'] = rng.random() < 0.3
    c['packed'] = src == 'nc' and rng.random() < 0.2 and d['kind'] not in ('tiny', 'small')
    c['again'] = rng.choice(['same', 'other']) if rng.random() < 0.35 else None        # files of these names held other data when they were read before
    c['dropv'] = False
    return c


def stored_as(x, c, k):
    """Number type of a file, among those that hold its values."""
    whole = bool(np.all(x == np.round(x))) and np.max(np.abs(x)) < 30000
    ts = ['<i2', '<i4', '>i4', '<f8', '>f4'] if whole else ['<f4', '<f4', '>f4', '<f8'] if c['f32'] else ['<f8', '<f8', '>f8']
    return np.dtype(ts[int(gen.rs(c['fseed'] + 1 + k).integers(len(ts)))])


def data_of(c):
    """The snapshots every form holds exactly."""
    d, w = gen.case_arrays(c)
    if c.get('packed') and np.max(np.abs(d)) < 500: d = np.round(d * 2.0 ** 20) / 2.0 ** 20
    elif 'float32' in c.get('forms', []) or c.get('f32'):
        d = d.astype(np.complex64 if np.iscomplexobj(d) else np.float32).astype(d.dtype)
    return d, w


def pieces(d, splits):
    e = [0] + list(splits) + [d.shape[0]]
    return [d[a:b] for a, b in zip(e[:-1], e[1:])]


def to_xr(d, g, t0=0):
    import xarray as xr
    dims = ['time'] + [f'x{i}' for i in range(d.ndim - 1)]
    co = {'time': np.arange(t0, t0 + d.shape[0]) * 1.5}
    for i in range(d.ndim - 1):
        v = np.sort(g.standard_normal(d.shape[i + 1]))
        co[f'x{i}'] = v[::-1] if g.random() < 0.4 else v
    return xr.DataArray(d, dims=dims, coords=co)


def supply(d, form, c):
    g = gen.rs(c['fseed'])
    nv = d.shape[-1]
    s = d
    if form == 'dropv' or (c.get('dropv') and form != 'fortran'):
        if nv == 1: s = d[..., 0]
    if form == 'mixed':
        ps = pieces(s, c['splits']); ps[0] = ps[0].real.copy()
        return ps
    if form == 'splits': return pieces(s, c['splits'])
    if form == 'xarray': return [to_xr(s, g)]
    if form == 'xarray_list':
        out, t = [], 0
        for x in pieces(s, c['splits']): out.append(to_xr(x, gen.rs(c['fseed']), t)); t += x.shape[0]
        return out
    if form == 'fortran': return [np.asfortranarray(s)]
    if form == 'strided':
        b = np.zeros((2 * s.shape[0],) + s.shape[1:-1] + (3 * s.shape[-1],) if s.ndim > 1 else (2 * s.shape[0],), dtype=s.dtype)
        b[::2, ..., 1::3][:] = s
        return [b[::2, ..., 1::3]]
    if form == 'dtype':
        if c['data']['kind'] == 'int' and not np.iscomplexobj(s): return [s.astype(g.choice(['int16', 'int32', 'int64', 'float32']))]
        return [s.astype(s.dtype.newbyteorder('>'))]
    if form == 'float32': return [s.astype(np.complex64 if np.iscomplexobj(s) else np.float32)]
    if form == 'single_nolist': return s
    return [s]


def large_data(c):
    """Make the file readers believe that the data have as many values as the branches for large data need: a smaller limit of counts, more chunks."""
    import pyspod.utils.reader as rd
    saved = {}
    if c.get('pad'):
        class Info:
            def __init__(self, t): self.max = 7

        class Np:
            iinfo = Info
            def __getattr__(self, k): return getattr(np, k)
        saved['np'] = rd.np
        rd.np = Np()
    if c.get('chunks'):
        for n in ('reader_2stage', 'reader_mat'):
            k = getattr(rd, n, None)
            if k is None: continue
            init = k.__init__

            def new(self, *a, _init=init, **kw):
                _init(self, *a, **kw)
                if hasattr(self, '_nchunks'): self._nchunks = c['chunks']
            saved[n] = init
            k.__init__ = new

    def undo():
        for n, v in saved.items():
            if n == 'np': rd.np = v
            else: getattr(rd, n).__init__ = v
    return undo


def names_of(c, nv):
    """Names of the variables, in the order in which they are asked for."""
    k = c.get('nseed', c['fseed'])
    return [f'v{j}' for j in gen.rs(k + 99).permutation(nv)] if k % 3 else ['z', 'Y', 'u10', 'a', 'T', 'b', 'tp', 'lat0', 'v', 'w'][:nv]


def write_files(job, ctx, c, d):
    """Write the snapshots into files; their names in the order in which they are handed over."""
    import xarray as xr, h5py
    def fresh(fn):
        if os.path.exists(fn): os.remove(fn)
        return fn
    g = gen.rs(c['fseed'])
    nv = d.shape[-1]
    files = []
    if job['src'] == 'nc':
        dims = ['time'] + [f'x{i}' for i in range(d.ndim - 2)]
        order = g.permutation(nv); nm = names_of(c, nv)
        timekind = int(g.integers(3))
        first, unlim = bool(g.random() < 0.5), bool(g.random() < 0.3)     # a variable without times comes first; times are unlimited
        t = 0
        for k, x in enumerate(pieces(d, c['splits'])):
            fn = ctx.path(f'data_{(7 * k) % 11:02d}_{k}.nc')
            files.append(fn)
            if ctx.rank == 0:
                dt = stored_as(x, c, k)
                pack = c.get('packed') and np.max(np.abs(d)) < 500
                ds = {nm[j]: (dims, x[..., j].astype(np.float64 if pack else dt)) for j in order}
                ds['extra'] = (dims, g.standard_normal(x.shape[:-1]))
                mask = {'mask': (dims[:0:-1] if first else dims[1:], np.ones(x.shape[1:-1][::-1] if first else x.shape[1:-1]))}
                ds = {**mask, **ds} if first else {**ds, **mask}
                enc = {nm[j]: dict(dtype='int32', scale_factor=2.0 ** -20, _FillValue=-2 ** 31) for j in range(nv)} if pack else None
                co = {}
                if timekind == 1: co['time'] = ('time', np.arange(t, t + x.shape[0]) * 6.0, {'units': 'hours since 2001-01-01'})
                if timekind == 2: co['time'] = ('time', np.arange(x.shape[0]) * 0.5)      # starts anew in every file
                xr.Dataset(ds, coords=co).to_netcdf(fresh(fn), encoding=enc, unlimited_dims=['time'] if unlim else None)
            t += x.shape[0]
    else:
        for k in range(d.shape[0]):
            fn = ctx.path(f'snap_{k:05d}.mat')
            files.append(fn)
            if ctx.rank == 0:
                with h5py.File(fresh(fn), 'w') as f: f.create_dataset('qq', data=np.ascontiguousarray(np.moveaxis(d[k], -1, 0)).astype(stored_as(d[k], c, k)))
        if c['data']['seed'] % 3 == 0: gen.rs(c['data']['seed']).shuffle(files)      # the order is that of the names
    return files


def run(job, ctx):
    from .. import ops, tracecomm
    if job['src'] == 'array':
        res = []
        for i, c in enumerate(job['cases']):
            try:
                d, w = data_of(c)
                o = {'forms': {}}
                for form in c['forms']:
                    ds = supply(d, form, c)
                    # a single data set not in a list is accepted by the streaming class
                    if form == 'single_nolist' and c['kind'] != 'streaming': ds = [ds]
                    _, q = ops.fit(c['kind'], ds, c['params'], gen.weights_arg(w, c['wform']), ctx.comm, ctx.path(f'r{i}_{form}'))
                    q['disk'] = ops.read_folder(q['folder'])
                    o['forms'][form] = q
                if ctx.rank == 0:
                    if ctx.comm is not None: tracecomm.perturb_off()
                    _, q = ops.fit(c['kind'], [d], c['params'], gen.weights_arg(w, c['wform']), None, ctx.path(f'r{i}_base'))
                    q['disk'] = ops.read_folder(q['folder'])
                    o['base'] = q
            except Exception as e:
                if ctx.comm is not None: raise
                o = ops.exc_info(e)
            res.append(o)
        return {'res': res}
    from pyspod.utils import postproc as post
    c = job['case']
    d, w = data_of(c)
    nv = d.shape[-1]
    kw = dict(variables=names_of(c, nv)) if job['src'] == 'nc' else {}
    if c.get('again'):
        c0 = {**c, 'data': {**c['data'], 'seed': c['data']['seed'] ^ 0x33333}, 'fseed': c['fseed'] ^ 0x1111, 'nseed': c['fseed']}
        files = write_files(job, ctx, c0, data_of(c0)[0])
        ctx.sync()
        undo = large_data(c)
        try: ops.fit('standard', files, c['params'], gen.weights_arg(w, c['wform']), ctx.comm, ctx.path('par' if c['again'] == 'same' else 'before'), **kw)
        finally: undo()
        ctx.sync()
    files = write_files(job, ctx, c, d)
    ctx.sync()
    undo = large_data(c)
    try: obj, o = ops.fit('standard', files, c['params'], gen.weights_arg(w, c['wform']), ctx.comm, ctx.path('par'), **kw)
    finally: undo()
    o['disk'] = ops.read_folder(o['folder'])
    o['api'] = [np.array(post.get_modes_at_freq(o['folder'], f)) for f in range(o['n_freq'])] if ctx.rank == 0 else None
    o['all'] = np.array(post.get_all_modes(o['folder'])) if ctx.rank == 0 else None
    tracecomm.perturb_off()
    if ctx.rank == 0:
        p2 = {k: v for k, v in c['params'].items() if k not in ('savefreq_disk', 'savefreq_disk2')}
        _, q = ops.fit('standard', [d], p2, gen.weights_arg(w, c['wform']), None, ctx.path('ser'))
        q['disk'] = ops.read_folder(q['folder'])
        o['base'] = q
    return o

def judge(job, obs):
    viol, ev, sigs = par.failures(obs, job, expect_exc=not job.get('np')), {}, []
    par.traces(obs, ev)
    k = len(obs) if job.get('np') else 0
    if viol: return {'viol': viol, 'events': ev, 'sig': []}
    if job['src'] == 'array':
        if 'res' not in obs[0]: return {'viol': [f'worker: {obs[0].get("exc")} {obs[0].get("msg")}']}
        n = 0
        for i, c in enumerate(job['cases']):
            o0 = obs[0]['res'][i]
            tag = f'case {i} {c["kind"]} {c["params"]} {c["data"]} splits {c["splits"]}: '
            if 'exc' in o0: viol.append(f'{tag}raised {o0["exc"]} {o0["msg"]} {o0["tb"][-300:]}'); continue
            for r, ob in enumerate(obs):
                for form, q in ob['res'][i]['forms'].items():
                    n += 1
                    compare_fits(c, q, o0['base'], f'{tag}form {form}, process {r} of {k}', viol, ev, streaming=c['kind'] == 'streaming', modes=True)
                    ev[f'form_{form}'] = ev.get(f'form_{form}', 0) + 1
                    if len(viol) > 4: break
            sigs.append((c['kind'], tuple(c['forms']), k, len(c['data']['xshape']), c['data']['nv'], len(c['splits']), c['data']['cplx'], c['data']['kind']))
        return {'viol': viol[:5], 'events': ev, 'sig': sigs, 'evals': n, 'sample': str(job['cases'][0])}
    c = job['case']
    tag = f'{job["src"]} files {c["params"]} {c["data"]} splits {c["splits"]}: '
    base = obs[0]['base']
    for r, o in enumerate(obs):
        compare_fits(c, {**o, 'n_modes': base['n_modes']}, base, f'{tag}process {r} of {k}', viol, ev, layout=False)
        if len(viol) > 3: break
    for f, m in enumerate(obs[0]['api']):
        raw = obs[0]['disk']['modes'][f]
        if raw is not None and not np.array_equal(m, raw, equal_nan=True): viol.append(f'{tag}modes of frequency {f} read through the library differ from the files'); break
    al = obs[0]['all']
    if len(al) != len(obs[0]['api']) or any(not np.array_equal(a, b, equal_nan=True) for a, b in zip(al, obs[0]['api'])): viol.append(f'{tag}all modes read together ({al.shape}) differ from those read by frequency')
    nf = obs[0]['n_freq']; nms = obs[0]['n_modes_save']
    want = sorted(f'modes/freq_idx_f{f:08d}_m{m:08d}.npy' for f in range(nf) for m in range(nms))
    got = [f for f in obs[0]['disk']['files'] if f.startswith('modes/')]
    if got != want: viol.append(f'{tag}mode files {sorted(set(got) ^ set(want))[:5]}')
    ev[f'form_{job["src"]}'] = 1
    if c.get('pad'): ev['padded'] = 1
    if c.get('again'): ev['rewritten'] = 1
    if c.get('chunks'): ev['chunked'] = 1
    sigs.append((job['src'], k, len(c['data']['xshape']), c['data']['nv'], len(c['splits']), c['f32'], c['params'].get('dtype'), c['params'].get('mean_type'), c['params'].get('normalize_data'), c['params']['n_dft'] % 2, c.get('chunks'), c.get('pad')))
    return {'viol': viol[:5], 'events': ev, 'sig': sigs, 'sample': f'{job["src"]} np={k} {c}'}
