"""C15: meaningless requests are refused everywhere, limiting valid ones are computed."""
import os
import numpy as np
from .. import gen, ref, par

RULE = ('random valid requests made meaningless in one respect (block length, number of blocks, overlap, size of the weights, mean type, spatial shapes, storage options, missing files, order of calls, time selections, '
        'norms, formats, coordinates) for batch and streaming SPOD, POD, post-processing and utilities, serially and on 1-4 processes with perturbed speed: an error on every process and no stored energies or modes; '
        'limiting valid requests against the definition; distinct: (kind of request, what is wrong or at its limit, processes)')
ASSUMPTIONS = ['MATLAB files beyond the first are only inspected by the process that reads them: differing shapes there are not part of the workload', 'any exception counts as a refusal']
BUDGET = {'quick': 220, 'thorough': 2400}

FIT = ['ndft', 'short', 'overlap', 'wsize', 'mean', 'shape', 'both', 'flatopt']
POD = ['wsize', 'mean', 'shape']
NC = ['missing', 'shape', 'short9', 'opt', 'novars', 'varstr', 'wsize', 'mean', 'ndft', 'short', 'unknownvar']
MAT = ['missing', 'opt', 'wsize', 'mean', 'ndft']
POST = ['recon_before', 'recon_before_pod', 'times', 'times_pod', 'times_conv', 'nocoeffs', 'nofit', 'cdim', 'dtype', 'nofit_conv', 'nofit_pod', 'nofit_orth']
UTIL = ['lnorm', 'hnorm', 'format', 'fileformat', 'coords', 'coordtype', 'xaxes', 'modestype']
LIMIT = ['ndft4', 'two', 'onenew', 'onemode', 'tiny', 'all']
MEANS = ['foo', '', 'longtimes', 'long_time', 'block', 'mean', 'none', 'zeros', 'long time', 'LONG']


def fit_req(rng, np_, bad=None, src='array'):
    c = gen.rand_case(rng, maxpts=30, ndft=(4, 9), cplx=False if src != 'array' else None, xdims=(3,) if src == 'mat' else (1, 2, 3))
    p, d = c['params'], c['data']
    if d['kind'] == 'masked': d['kind'] = 'noise'
    if c['weights'] and c['weights']['kind'] == 'zeros': c['weights']['kind'] = 'smooth'
    kind = 'streaming' if rng.random() < 0.25 and src == 'array' else 'standard'
    if kind == 'streaming':
        for k in ('normalize_data', 'normalize_weights'): p.pop(k, None)
    if kind == 'streaming': p['dtype'] = 'double'; p['n_modes_save'] = rng.choice([1, 2]); p.pop('mean_type', None)
    if src != 'array':
        p['savefreq_disk'] = False; p['savefreq_disk2'] = True; c['dropv'] = False
        d['nt'] = max(d['nt'], 9)
    c.update(req='fit', kind=kind, bad=bad, src=src, cuts=[], seed=rng.getrandbits(30), xr=rng.random() < 0.2 and src == 'array')
    n, nt = p['n_dft'], d['nt']
    novl = int(np.ceil(n * p.get('overlap', 0) / 100))
    xs, nv = d['xshape'], d['nv']
    if bad == 'ndft':
        p['n_dft'] = rng.choice([3, 3, 2, 1, 0]); p['overlap'] = rng.choice([0, 0, 30, 50])
        if p['n_dft'] == 3: d['nt'] = max(9, d['nt'])
    elif bad == 'short':
        hi = novl + 2 * (n - novl) - 1
        d['nt'] = rng.choice([hi, hi, rng.randint(max(1, novl), hi), rng.randint(1, hi)])
        if src == 'nc':    # enough for the reader, too short for the blocks
            p['overlap'] = 0; p['n_dft'] = rng.choice([5, 6, 8, 9]); d['nt'] = max(9, rng.randint(p['n_dft'], 2 * p['n_dft'] - 1))
            if d['nt'] >= 2 * p['n_dft']: p['n_dft'] = 9
    elif bad == 'overlap':
        k = rng.choice([0, 0, 1]); p['overlap'] = rng.choice([100, 101, 150]) if k == 0 else rng.uniform(100 * (n - 1) / n + 0.01, 100)
    elif bad == 'wsize':
        N = int(np.prod(xs)) * nv
        s = rng.choice([N + 1, N - 1, 2 * N, N // nv, N * 3, 1, 0, N // xs[0], N + nv])
        if s == N: s = N + 1
        c['wbad'] = s
    elif bad == 'mean':
        if kind == 'streaming': c['kind'] = kind = 'standard'
        p['mean_type'] = rng.choice(MEANS)
    elif bad == 'shape':
        c['cuts'] = sorted(rng.sample(range(1, nt), min(nt - 1, rng.choice([1, 2, 3]))))
        if c['wform'] == 'flat': c['wform'] = 'shaped'
        c['which'] = rng.randrange(0, len(c['cuts']) + 1) if src == 'array' else rng.randrange(1, len(c['cuts']) + 1)
        c['how'] = rng.choice(['plus', 'minus', 'transpose', 'nv', 'ndim'])
    elif bad == 'both': p['savefreq_disk'] = True; p['savefreq_disk2'] = True
    elif bad == 'flatopt':
        # per-mode files without processes, or of data that are not flattened
        p['savefreq_disk'] = False; p['savefreq_disk2'] = True; c['kind'] = 'standard'
    elif bad == 'missing':
        c['cuts'] = sorted(rng.sample(range(1, nt), min(nt - 1, rng.choice([0, 1, 2])))); c['which'] = rng.randrange(nt if src == 'mat' else len(c['cuts']) + 1)
    elif bad == 'short9':
        d['nt'] = rng.randint(8, 8); p['n_dft'] = 4; p.pop('overlap', None)
    elif bad == 'serialfile': p.pop('savefreq_disk2', None); p.pop('savefreq_disk', None)
    elif bad == 'opt':
        p['savefreq_disk'] = True; p.pop('savefreq_disk2')
    return c


def pod_req(rng, np_, bad):
    c = fit_req(rng, np_, bad)
    p = {k: v for k, v in c['params'].items() if k in ('time_step', 'n_space_dims', 'n_variables', 'mean_type', 'n_modes_save')}
    if bad != 'mean': p['mean_type'] = rng.choice(['longtime', 'zero'])
    elif rng.random() < 0.3: p['mean_type'] = 'blockwise'
    c['data']['cplx'] = False
    c.update(req='pod', kind='pod', params=p)
    return c


def limit_req(rng, np_):
    what = rng.choice(LIMIT)
    c = fit_req(rng, np_)
    p, d = c['params'], c['data']
    c.update(req='limit', what=what, kind='standard' if rng.random() < 0.8 else 'streaming', src='array', xr=False, dropv=False)
    if c['kind'] == 'streaming':
        for k in ('normalize_data', 'normalize_weights', 'mean_type'): p.pop(k, None)
        p['dtype'] = 'double'; p['n_modes_save'] = rng.choice([1, 2])
    if what in ('ndft4', 'all'): p['n_dft'] = 4
    n = p['n_dft']
    if what in ('onenew', 'all'): p['overlap'] = 100 * (n - 1) / n - rng.choice([0, 1e-9, 0.3 * 100 / n])
    if what in ('onemode', 'all'): p['n_modes_save'] = 1
    if what in ('tiny', 'all'):
        d['xshape'] = rng.choice([[1], [2], [1, 1], [1, 2], [1, 1, 1], [3]]); p['n_space_dims'] = len(d['xshape']); d['nv'] = p['n_variables'] = rng.choice([1, 1, 2])
        p.pop('normalize_data', None)
        if c['weights'] and c['weights']['kind'] in ('zeros', 'wide'): c['weights']['kind'] = 'smooth'
    novl = int(np.ceil(n * p.get('overlap', 0) / 100))
    if novl > n - 1: p['overlap'] = 100 * (n - 1) / n - 0.5; novl = n - 1
    nb = 2 if what in ('two', 'all') else rng.randint(2, 5)
    d['nt'] = novl + nb * (n - novl) + (rng.randint(0, n - novl - 1))
    return c


def post_req(rng, np_):
    c = fit_req(rng, np_)
    c['params'].pop('dtype', None); c['params'].pop('normalize_data', None)
    for k in ('savefreq_disk', 'savefreq_disk2'): c['params'].pop(k, None)
    c.update(req='post', bad=rng.choice(POST), kind='standard', cuts=[], src='array', xr=False)
    nt = c['data']['nt']
    c['times'] = rng.choice(['foo', '', 'al', 'every', 'halff', 3, 2.5, {'a': 1}, [nt], [0, nt + 3], [-nt - 1], ['all'], [0.5]])
    return c


def util_req(rng):
    return dict(req='util', bad=rng.choice(UTIL), seed=rng.getrandbits(30), name=rng.choice(['l3', 'foo', '', 'h1', 'l', 'inf', 'L9']), hname=rng.choice(['h2', 'foo', 'l2', '', 'h0']),
                ext=rng.choice(['.txt', '.csv', '.npz', '.np', '.h5', '', '.hdf', '.npy.gz', '.dat', '.matt', '.n']))


def one(rng, np_):
    r = rng.random()
    if r < 0.38: return fit_req(rng, np_, rng.choice(FIT))
    if r < 0.50: return pod_req(rng, np_, rng.choice(POD))
    if r < 0.66: return limit_req(rng, np_)
    if r < 0.82 and np_:
        s = rng.choice(['nc', 'nc', 'mat'])
        return fit_req(rng, np_, rng.choice(NC if s == 'nc' else MAT), s)
    if r < 0.74 and not np_: return util_req(rng)
    if r < 0.78 and not np_: return fit_req(rng, 0, 'serialfile', rng.choice(['nc', 'mat']))
    return post_req(rng, np_)


def make_jobs(rng, tier):
    jobs = []
    for _ in range(60 if tier == 'quick' else 1000): jobs.append(dict(cases=[one(rng, 0) for _ in range(8)]))
    for _ in range(70 if tier == 'quick' else 1000):
        k = rng.choice([1, 2, 2, 3, 3, 4])
        jobs.append(dict(np=k, cases=[one(rng, k) for _ in range(4)], delay=par.rand_delay(rng, k)))
    return jobs


def alter(x, how):
    """A data set of another spatial shape."""
    if how == 'minus' and x.shape[1] > 1: return x[:, :-1]
    if how == 'transpose' and x.ndim > 3 and x.shape[1] != x.shape[2]: return np.ascontiguousarray(np.swapaxes(x, 1, 2))
    if how == 'nv': return np.concatenate([x, x], axis=-1)
    if how == 'ndim': return np.stack([x, x], axis=1)
    return np.concatenate([x, x[:, :1]], axis=1)


def arrays(c):
    d, w = gen.case_arrays(c)
    x = gen.supplied(d, c)
    e = [0] + c['cuts'] + [x.shape[0]]
    ps = [x[a:b] for a, b in zip(e, e[1:])]
    if c.get('bad') == 'shape' and c['src'] == 'array': ps[c['which']] = alter(ps[c['which']], c['how'])
    if c['xr']:
        import xarray as xr
        ps = [xr.DataArray(q, dims=['t'] + [f'x{i}' for i in range(q.ndim - 1)]) for q in ps]
    wa = gen.weights_arg(w, c['wform'])
    if 'wbad' in c:
        v = np.ones(c['wbad']); wa = {'weights': v, 'weights_name': 'w'}
        if c['seed'] % 3 == 0: wa['weights'] = v.reshape(-1, 1)
    return d, ps, wa


def files(c, ctx, i):
    import xarray as xr, h5py
    d, ps, wa = arrays(c)
    out = []
    nv = d.shape[-1]
    if c['src'] == 'nc':
        dims = ['time'] + [f'x{k}' for k in range(d.ndim - 2)]
        for k, x in enumerate(ps):
            fn = ctx.path(f'c{i}_{k}.nc'); out.append(fn)
            if c['bad'] == 'missing' and k == c['which']: continue
            if c['bad'] == 'shape' and k == c['which']: x = np.concatenate([x, x[:, :1]], axis=1)
            if ctx.rank == 0: xr.Dataset({f'v{j}': (dims, x[..., j]) for j in range(nv)}).to_netcdf(fn)
    else:
        for k in range(d.shape[0]):
            fn = ctx.path(f'c{i}_{k:03d}.mat'); out.append(fn)
            if c['bad'] == 'missing' and k == c['which']: continue
            if ctx.rank == 0:
                with h5py.File(fn, 'w') as f: f.create_dataset('q', data=np.ascontiguousarray(np.moveaxis(d[k], -1, 0)))
    ctx.sync()
    return out, wa, [f'v{j}' for j in range(nv)]


def stored(folder):
    out = []
    for dp, _, fs in os.walk(folder):
        for f in fs:
            if f in ('eigs_freq.npz', 'eigs.npz', 'modes.npy') or f.startswith('freq_idx_'): out.append(os.path.relpath(os.path.join(dp, f), folder))
    return sorted(out)


def do(c, ctx, i):
    """Perform one request; returns what it returned (any exception is the caller's)."""
    from .. import ops
    out = ctx.path(f'r{i}')
    if c['req'] == 'util': return util(c, ctx, i)
    if c['req'] == 'post': return None
    if c['req'] == 'pod':
        from pyspod.pod.standard import Standard
        d, ps, wa = arrays(c)
        return Standard(params={**c['params'], 'savedir': out}, weights=wa, comm=ctx.comm).fit(data_list=ps)
    if c['src'] != 'array':
        fl, wa, vs = files(c, ctx, i)
        kw = {}
        if c['src'] == 'nc': kw = dict(variables=None if c['bad'] == 'novars' else vs[0] if c['bad'] == 'varstr' else (vs[:-1] + ['nothere']) if c['bad'] == 'unknownvar' else vs)
        return ops.fit('standard', fl, c['params'], wa, ctx.comm, out, **kw)[1]
    d, ps, wa = arrays(c)
    return ops.fit(c['kind'], ps, c['params'], wa, ctx.comm, out)[1]


def util(c, ctx, i):
    from pyspod.utils import errors, io, postproc as post
    g = gen.rs(c['seed'])
    a, b = g.standard_normal((4, 3)), g.standard_normal((4, 3))
    k = c['bad']
    if k == 'lnorm': return errors.compute_l_errors(a, b, norm_type=c['name'])
    if k == 'hnorm': return errors.compute_h_errors(a, b, dt=0.1, norm_type=c['hname'])
    if k in ('format', 'fileformat'):
        fn = ctx.path(f'u{i}{c["ext"]}')
        with open(fn, 'wb') as f: np.save(f, a)
        if k == 'fileformat': return post.get_data_from_file(fn)
        return io.read_data(fn) if c['seed'] % 2 or not c['ext'] else io.read_data(fn, format=c['ext'])
    x = [np.arange(4.0), np.arange(3.0)]
    if k == 'coords': return post.find_nearest_coords((1, 1), [x[0], np.arange(4.0)] if c['seed'] % 2 else [x[0], x[1], x[0]], (4, 3))
    if k == 'coordtype': return post.find_nearest_coords((1, 1), tuple(x) if c['seed'] % 2 else a, (4, 3))
    if k == 'modestype': return (post.get_modes_at_freq(a, 0) if c['seed'] % 2 else post.get_all_modes(a))
    if k == 'xaxes':
        X = g.standard_normal((5, 4, 3, 1))
        if c['seed'] % 2: return post.plot_2d_data(X, x1=np.arange(5), x2=np.arange(3), path=ctx.dir, filename=f'p{i}.png')
        return post.plot_2d_data(X[..., 0], path=ctx.dir, filename=f'p{i}.png')


def post_request(c, ctx, i):
    """Prepares a state and returns the request as a function."""
    from .. import ops
    from pyspod.pod.standard import Standard as Pod
    import pyspod.spod.utils as su, pyspod.pod.utils as pu
    d, ps, wa = arrays(c)
    k = c['bad']
    P = {kk: v for kk, v in c['params'].items() if kk in ('time_step', 'n_space_dims', 'n_variables', 'n_modes_save')}
    emp = ctx.path(f'e{i}')
    if ctx.rank == 0: os.makedirs(emp, exist_ok=True)
    ctx.sync()
    if k == 'nofit': return lambda: su.compute_coeffs_op(d, results_dir=emp, comm=ctx.comm)
    if k == 'nofit_conv': return lambda: su.compute_coeffs_conv(d, results_dir=emp, comm=ctx.comm)
    if k == 'nofit_orth': return lambda: su.check_orthogonality(emp, [0], [0], [0], comm=ctx.comm)
    if k == 'nofit_pod': return lambda: pu.compute_coeffs_op(d, results_dir=emp, comm=ctx.comm)
    pod = k in ('recon_before_pod', 'times_pod')
    if pod:
        d = np.real(d)
        obj = Pod(params={**P, 'savedir': ctx.path(f'r{i}')}, weights=wa, comm=ctx.comm).fit(data_list=[d])
        m = pu
    else:
        obj, _ = ops.fit('standard', [d], c['params'], wa, ctx.comm, ctx.path(f'r{i}'))
        m = su
    if k.startswith('recon_before'): return lambda: obj.compute_reconstruction(coeffs_dir=emp, time_idx='all')
    f = su.compute_coeffs_conv if k == 'times_conv' else m.compute_coeffs_op
    if k == 'times_conv' and 'dtype' in c['params']: f = m.compute_coeffs_op
    res = ops.pod_folder(obj) if pod else obj.savedir_sim
    _, cd = f(d, results_dir=res, comm=ctx.comm)
    if k == 'nocoeffs':
        ctx.sync()
        if ctx.rank == 0: os.remove(os.path.join(cd, 'coeffs.npy'))
        ctx.sync()
        return lambda: m.compute_reconstruction(cd, time_idx='all', comm=ctx.comm)
    co = np.load(os.path.join(cd, 'coeffs.npy'))
    if k == 'cdim': return lambda: su.compute_reconstruction(cd, time_idx=[0], coeffs=co[None, None] if c['seed'] % 2 else co[:, :, None, None], comm=ctx.comm)
    if k == 'dtype': return lambda: m.compute_reconstruction(cd, time_idx=[0], dtype=['half', 'quad', 'float128', 'int'][c['seed'] % 4], comm=ctx.comm)
    t = c['times']
    if c['seed'] % 2 and k != 'times_conv':
        obj.compute_coeffs_op(d, results_dir=res)
        return lambda: obj.compute_reconstruction(coeffs_dir=None, time_idx=t)
    return lambda: m.compute_reconstruction(cd, time_idx=t, comm=ctx.comm)


def run(job, ctx):
    from .. import ops
    res = []
    for i, c in enumerate(job['cases']):
        o = {}
        fn = (lambda: do(c, ctx, i)) if c['req'] != 'post' else post_request(c, ctx, i)
        try:
            r = fn()
            o['ok'] = True
            if c['req'] == 'limit':
                o['fit'] = r
                if ctx.rank == 0: r['disk'] = ops.read_folder(r['folder'])
        except Exception as e:
            o['ok'] = False; o['err'] = f'{type(e).__name__}: {str(e)[:160]}'
            if c['req'] == 'limit': o.update(ops.exc_info(e))
        ctx.sync()
        if ctx.rank == 0 and c['req'] in ('fit', 'pod'): o['stored'] = stored(ctx.path(f'r{i}'))
        ctx.sync()
        res.append(o)
    return {'res': res}


def applies(c, np_):
    """Whether the alteration really makes the request meaningless."""
    return True


def judge(job, obs):
    from . import c01
    viol, ev, sig = par.failures(obs, job), {}, []
    par.traces(obs, ev)
    k = job.get('np', 0)
    if viol:
        return {'viol': [v + f' in one of the requests {[(c["req"], c.get("bad") or c.get("what"), c.get("src"), c.get("kind")) for c in job["cases"]]}' for v in viol[:3]], 'events': ev, 'sig': []}
    for i, c in enumerate(job['cases']):
        what = c.get('bad') or c.get('what')
        tag = f'request {i} ({c["req"]}, {what}, {c.get("kind")}, {c.get("src")}): '
        for r, ob in enumerate(obs):
            o = ob['res'][i]
            if c['req'] == 'limit':
                ev['limits'] = ev.get('limits', 0) + 1
                if not o['ok']: viol.append(f'{tag}process {r} raised {o["err"]} {o.get("tb", "")[-300:]}'); continue
                f = o['fit']
                p, d = c['params'], c['data']
                novl, nb, _ = ref.segments(d['nt'], p['n_dft'], p.get('overlap', 0))
                if f['n_blocks'] != nb: viol.append(f'{tag}{f["n_blocks"]} blocks instead of {nb}'); continue
                if c['kind'] == 'streaming':
                    if not np.all(np.isfinite(f['eigs'])): viol.append(f'{tag}energies are not finite')
                elif r == 0: c01.judge_fit(c, f, viol, ev, f'{tag}{p} {d} ')
                else:
                    g = np.asarray(obs[0]['res'][i]['fit']['eigs'])
                    ref.close(np.asarray(f['eigs']), g, 1e-12 * np.max(np.abs(g), initial=0), f'{tag}energies of process {r}', viol)
                continue
            ev['refusals'] = ev.get('refusals', 0) + 1
            if o['ok']: viol.append(f'{tag}not refused by process {r} of {len(obs)}')
            if o.get('stored'): viol.append(f'{tag}stored {o["stored"][:4]}')
        sig.append((c['req'], what, c.get('kind'), c.get('src'), k))
        if len(viol) > 5: break
    return {'viol': viol[:6], 'events': ev, 'sig': sig, 'evals': len(job['cases']), 'sample': str(job['cases'][0])[:400]}
