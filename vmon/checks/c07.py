"""C07: oblique-projection coefficients and reconstruction."""
import os
import numpy as np
from .. import gen, ref, coef

RULE = ('random fits, then 2 coefficient computations each on other data of the same shape (noise, data in the span of the selected modes, labelled or without variable axis), '
        'bands by list, by period or none, cutoffs, both pseudo-inverses, through the functions and through the object (also after another fit into the same folder, from a copy of the result folder, and with other coefficients computed in between), and reconstructions at random snapshot selections, also '
        'from user-given coefficients; oracle: eigendecomposition of the weighted Gram matrix, direct sums, files re-read with plain numpy; distinct: (band kind, data kind, options)')
ASSUMPTIONS = ['coefficients are not judged when a singular value lies at the cutoff or the Gram matrix is too ill-conditioned for the precision']
BUDGET = {'quick': 150, 'thorough': 2400}


def make_jobs(rng, tier):
    jobs = []
    for _ in range(700 if tier == 'quick' else 2500):
        cs = []
        for _ in range(2):
            c = coef.rand_fit(rng) if not cs or rng.random() < 0.65 else dict(gen.sibling(rng, cs[0]), at=0)     # (another fit into the folder of the first)
            p = c['params']
            n = p['n_dft']
            nf = n // 2 + 1 if not c['data']['cplx'] and not p.get('fullspectrum') else n
            c['ops'] = []
            for _ in range(2):
                dk = rng.choice(['noise', 'noise', 'offset', 'span', 'span', 'fit', 'cnoise', 'trend'])
                nt = c['data']['nt'] if dk == 'fit' else rng.choice([1, 2, 5, 11, 30, rng.choice([51, 101, 201, 250]), c['data']['nt']])
                band = coef.rand_band(rng, nf, p['time_step'], n)
                if dk == 'span' and rng.random() < 0.7: band = {'freq_idx': [rng.randrange(nf)]}
                c['ops'].append(dict(band=band, nt=nt, dkind=dk,
                                     dseed=rng.getrandbits(30), tol=rng.choice([None, None, 1e-10, 1e-8, 1e-3, 0.1]), svd=rng.choice([None, False, True]), api=rng.random() < 0.25,
                                     savedir=rng.choice([None, None, 'sub', 'a/b']), copy=rng.random() < 0.4, later=rng.random() < 0.4, none=rng.random() < 0.3, times=coef.rand_times(rng, nt), own=rng.random() < 0.3, rname=rng.choice([None, 'rec2']), rdir=rng.choice([None, 'recs']),
                                     form=rng.choice(['array', 'array', 'dropv', 'xarray', 'fortran', 'strided', 'reversed', 'readonly', 'int']), rel=rng.random() < 0.3, ids=rng.choice(['list', 'list', 'array', 'tuple']), single=rng.random() < 0.1))
            cs.append(c)
        jobs.append(dict(cases=cs))
    return jobs


def op_data(c, q, modes, ids):
    """Data for a coefficient computation (nt, *xshape, nv)."""
    g = gen.rs(q['dseed'])
    xs, nv = tuple(c['data']['xshape']), c['data']['nv']
    if q.get('form') == 'int' and q['dkind'] in ('noise', 'offset', 'trend', 'fit'): return np.round(5 * op_data(c, dict(q, form=''), modes, ids))
    sh = (q['nt'],) + xs + (nv,)
    k = q['dkind']
    if k == 'fit': return gen.make_data(c['data'])
    if k == 'span':
        phi = np.concatenate([modes[f].reshape(-1, modes[f].shape[-1]) for f in ids], axis=1)
        a = g.standard_normal((q['nt'], phi.shape[1])) + 1j * g.standard_normal((q['nt'], phi.shape[1]))
        m = g.standard_normal(phi.shape[0]) * 2
        return ((a @ phi.T) + m).reshape(sh)
    d = g.standard_normal(sh) * 2
    if k == 'offset': d = d + 10
    if k == 'trend': d = d + np.linspace(0, 5, q['nt']).reshape((-1,) + (1,) * (d.ndim - 1))
    if k == 'cnoise': d = d + 1j * g.standard_normal(sh)
    return d


def run(job, ctx):
    from .. import ops
    import pyspod.spod.utils as su
    res = []
    for i, c in enumerate(job['cases']):
        try:
            d, w = gen.case_arrays(c)
            obj, o = ops.fit('standard', [gen.supplied(d, c)], c['params'], gen.weights_arg(w, c['wform']), None, ctx.path(f'r{c.get("at", i)}'))
            o['disk'] = ops.read_folder(o['folder'])
            o['ops'] = []
            for q in c['ops']:
                o['ops'].append(one(ops, su, c, obj, o, q))
        except Exception as e:
            o = ops.exc_info(e)
        res.append(o)
    return {'res': res}


def form_of(x, form, nv):
    if form == 'dropv' and nv == 1: return x[..., 0]
    if form == 'fortran': return np.asfortranarray(x)
    if form == 'strided': return np.repeat(np.repeat(x, 2, axis=0), 2, axis=-1)[::2, ..., ::2]
    if form == 'reversed': return np.ascontiguousarray(x[::-1, ..., ::-1])[::-1, ..., ::-1]
    if form == 'readonly': x = x.copy(); x.setflags(write=False); return x
    if form == 'int' and x.dtype.kind == 'f': return x.astype(np.int64)
    if form == 'xarray':
        import xarray as xr
        return xr.DataArray(x, dims=['t'] + [f'x{i}' for i in range(x.ndim - 1)])
    return x


def scaled(q, modes):
    """The modes of the folder that is handed over: a copy of the result folder holds them doubled."""
    return [2 * m for m in modes] if modes is not None and by_object(q) and q['copy'] else modes


def band_arg(q):
    """The requested band, with the list of frequencies in one of several forms."""
    kw = dict(q['band'])
    if 'freq_idx' in kw and q.get('ids') == 'array': kw['freq_idx'] = np.array(kw['freq_idx'])
    if 'freq_idx' in kw and q.get('ids') == 'tuple': kw['freq_idx'] = tuple(kw['freq_idx'])
    return kw


def by_object(q): return q['api'] and 'freq_idx' not in q['band']


def one(ops, su, c, obj, o, q, comm=None):
    ids = coef.band_ids(q['band'], o['freq'])
    x = op_data(c, q, scaled(q, o['disk']['modes']), ids)
    base = o['folder']
    if by_object(q) and q['copy']:
        import shutil, glob
        base = o['folder'] + f'_copy{q["dseed"]}'
        if comm is None or comm.rank == 0:
            shutil.copytree(o['folder'], base)
            for m in glob.glob(os.path.join(base, 'modes', '*.npy')): np.save(m, 2 * np.load(m))
        if comm is not None: comm.Barrier()
    xin = form_of(x, q['form'], c['data']['nv'])
    keep = np.array(xin)
    r = {}
    kw = band_arg(q)
    if q['tol'] is not None: kw['tol'] = q['tol']
    if q['svd'] is not None: kw['svd'] = q['svd']
    if by_object(q):
        f, cd = obj.compute_coeffs_op(xin, results_dir=None if q['none'] and base == o['folder'] else base, **kw)
        r['api'] = True
        r['attr'] = (obj.file_coeffs, )
    else:
        if q['savedir']: kw['savedir'] = q['savedir']
        if q['single']: kw['dtype'] = 'single'
        f, cd = su.compute_coeffs_op(xin, os.path.relpath(o['folder']) if q.get('rel') else o['folder'], comm=comm, **kw)
        r['api'] = False
    r['data_same'] = bool(np.array_equal(np.array(xin), keep))
    r['paths'] = (os.path.relpath(f, base), os.path.relpath(cd, base))
    r['coeffs'], r['modes_r'], r['ltm'] = np.load(f), np.load(os.path.join(cd, 'modes_r.npy')), np.load(os.path.join(cd, 'ltm.npy'))
    import yaml
    with open(os.path.join(cd, 'params_coeffs.yaml')) as fh: r['params'] = yaml.load(fh, Loader=yaml.FullLoader)
    kw = {}
    if r['api']:
        if q['later']:
            # coefficients of other frequencies computed in between do not matter
            T = c['params']['n_dft'] * c['params']['time_step']
            for k in (1, 2):
                if len(o['freq']) > k and ids != [k]:
                    f2, cd2 = obj.compute_coeffs_op(3 * xin + 1, results_dir=o['folder'], T_lb=T / k, T_ub=T / k)
                    if cd2 != cd: r['between'] = True; break
        fr, rd = obj.compute_reconstruction(None if q['none'] and 'between' not in r else cd, time_idx=q['times'])
    else:
        if q['own']:
            g = gen.rs(q['dseed'] + 1)
            r['own'] = g.standard_normal((r['coeffs'].shape[0], q['nt'])) + 1j * g.standard_normal((r['coeffs'].shape[0], q['nt']))
            kw['coeffs'] = r['own'].copy()
        if q['rname']: kw['filename'] = q['rname']
        if q['rdir']: kw['savedir'] = q['rdir']
        if q['single']: kw['dtype'] = 'single'
        fr, rd = su.compute_reconstruction(cd, q['times'], comm=comm, **kw)
    r['rpaths'] = (os.path.relpath(fr, cd), os.path.relpath(rd, cd))
    r['rec'] = np.load(fr)
    r['after'] = bool(np.array_equal(np.load(f), r['coeffs'])) and bool(np.array_equal(np.load(os.path.join(cd, 'modes_r.npy')), r['modes_r']))
    return r


def judge_op(c, o, q, r, tag, viol, ev):
    nv, xs = c['data']['nv'], tuple(c['data']['xshape'])
    modes = scaled(q, o['disk']['modes']); W1 = o['disk']['weights'].reshape(-1).astype(float)
    freq = np.asarray(o['freq'])
    if 'T_lb' in q['band'] and 'T_ub' in q['band']:
        for T in (q['band']['T_lb'], q['band']['T_ub']):
            s = np.sort(np.abs(freq - 1 / T))
            if len(s) > 1 and s[1] - s[0] < 1e-9 * max(abs(s[1]), 1e-300): return
    ids = coef.band_ids(q['band'], freq)
    x = op_data(c, q, modes, ids)
    nt = x.shape[0]
    eps = ref.EPS['single'] if q['single'] and not r['api'] else ref.EPS['double']
    nms = o['n_modes_save']
    phi = np.concatenate([modes[f].reshape(-1, nms) for f in ids], axis=1) if ids else np.zeros((W1.size, 0))
    xf = x.reshape(nt, -1); mean = xf.mean(axis=0); x0 = xf - mean
    folder = f'coeffs_{min(ids)}_{max(ids)}' if ids else None
    sd = q['savedir'] if not r['api'] else None
    if folder is None: return
    wantdir = os.path.join(folder, sd) if sd else folder
    if r['paths'] != (os.path.join(wantdir, 'coeffs.npy'), wantdir): viol.append(f'{tag}coefficients stored as {r["paths"]} instead of under {wantdir}')
    if not r['data_same']: viol.append(f'{tag}the data passed in were modified')
    want = xs + (nv, len(ids) * nms)
    ev['computations'] = ev.get('computations', 0) + 1
    ev['between'] = ev.get('between', 0) + int('between' in r)
    if r['modes_r'].shape != want: viol.append(f'{tag}stored modes have shape {r["modes_r"].shape} instead of {want}'); return
    rt = (0 if eps < 1e-10 else 3e-7) * np.max(np.abs(phi), initial=0)
    if np.max(np.abs(r['modes_r'].reshape(-1, phi.shape[1]) - phi), initial=0) > rt: viol.append(f'{tag}stored modes are not the selected modes in order of frequency and mode'); return
    ref.close(r['ltm'], mean.reshape(xs + (nv,)), 50 * eps * (np.max(np.abs(xf)) + 1e-300), f'{tag}stored mean', viol)
    pr = r['params']
    for k, v in (('n_freq_r', len(ids)), ('freq_idx_lb', min(ids)), ('freq_idx_ub', max(ids)), ('freq_lb', float(freq[min(ids)])), ('freq_ub', float(freq[max(ids)])), ('n_dft', c['params']['n_dft'])):
        if pr.get(k) != v: viol.append(f'{tag}stored parameter {k} is {pr.get(k)} instead of {v}')
    for k in ('T_lb', 'T_ub'):
        if k in q['band'] and pr.get(k) != float(q['band'][k]): viol.append(f'{tag}stored parameter {k} is {pr.get(k)}')
    tol = q['tol'] if q['tol'] is not None else 1e-10
    e2 = max(eps, ref.EPS['double'])
    cond = coef.check_op(r['coeffs'].astype(complex), phi.astype(complex), W1, x0.astype(complex), tol, e2, f'{tag}band {q["band"]}', viol, ev, raw=xf)
    # reconstruction: from the stored coefficients
    ti = coef.time_ids(q['times'], nt)
    a = r['own'] if 'own' in r else r['coeffs'].astype(complex)
    rec = (r['ltm'].reshape(-1)[None] + (phi @ a[:, ti]).T).reshape((len(ti),) + xs + (nv,))
    mag = np.max(np.abs(phi) @ np.abs(a), initial=0) + np.max(np.abs(mean), initial=0)
    if ref.close(r['rec'], rec, 300 * max(eps, 2.3e-16) * (mag + 1e-300), f'{tag}reconstruction at {q["times"]}', viol): ev['snapshots'] = ev.get('snapshots', 0) + len(ti)
    wd = (os.path.join(q['rdir'], '') if (q['rdir'] and not r['api']) else '') + ((q['rname'] if q['rname'] and not r['api'] else 'reconstructed') + '.npy')
    if os.path.normpath(r['rpaths'][0]) != os.path.normpath(wd): viol.append(f'{tag}reconstruction stored as {r["rpaths"][0]} instead of {wd}')
    if not r['after']: viol.append(f'{tag}the reconstruction changed the stored coefficients or modes')
    if q['dkind'] == 'span' and 'own' not in r and cond is not None and tol < 1e-9 and eps < 1e-10:
        # exact recovery
        dev = np.max(np.abs(rec.reshape(len(ti), -1) - xf[ti]))
        sg = np.linalg.eigvalsh(phi.conj().T @ (W1[:, None] * phi))
        lost = np.sqrt(np.sum(np.where(sg > tol * sg[-1], 0, np.abs(sg)))) if len(sg) else 0
        wm = np.sqrt(np.min(W1[W1 > 0], initial=1))
        t = (1e-7 * (1 + cond * 1e-6) + 0) * (np.max(np.abs(xf)) + 1e-300) + 30 * lost * 10 / wm
        if cond < 1e6:
            ev['exact'] = ev.get('exact', 0) + 1
            if dev > t: viol.append(f'{tag}data in the span of the selected modes are reproduced only to {dev:.3g}')


def judge(job, obs):
    o = obs[0]
    if 'res' not in o: return {'viol': [f'worker: {o.get("exc")} {o.get("msg")}']}
    viol, ev, sigs = [], {}, []
    for i, (c, r) in enumerate(zip(job['cases'], o['res'])):
        tag = f'case {i} {c["params"]} {c["data"]}: '
        if 'exc' in r: viol.append(f'{tag}raised {r["exc"]} {r["msg"]} {r["tb"][-400:]}'); continue
        for q, u in zip(c['ops'], r['ops']):
            judge_op(c, r, q, u, f'{tag}{q}: ', viol, ev)
            sigs.append((tuple(sorted(q['band'])), q['dkind'], q['tol'], q['svd'], u['api'], u['api'] and q['copy'], 'between' in u, q['own'], isinstance(q['times'], str), q['form'], c['data']['nv'], len(c['data']['xshape']), c['data']['cplx']))
        if len(viol) > 5: break
    return {'viol': viol[:5], 'events': ev, 'sig': sigs, 'evals': 2 * len(o['res']), 'sample': str(job['cases'][0]['ops'][0])}
