"""C08: convolution coefficients and reconstruction from them."""
import os
import numpy as np
from .. import gen, ref, coef
from .c07 import op_data, form_of, band_arg

RULE = ('random fits (odd and even block lengths, real and complex, several variables), then 2 convolution computations each on other data of the same shape (noise, offset, complex, '
        'records shorter and longer than the block), bands by list, period or none, and reconstructions at random snapshot selections, also from user-given coefficients; '
        'oracle: direct sums of window, phase and weights at every instant, files re-read with plain numpy; distinct: (band kind, data kind, options)')
ASSUMPTIONS = ['the amplitude correction at the ends is that of the reference implementation: the square root of block length times mean window over the sum of the window inside the record']
BUDGET = {'quick': 150, 'thorough': 2400}


def make_jobs(rng, tier):
    jobs = []
    for _ in range(700 if tier == 'quick' else 2500):
        cs = []
        for _ in range(2):
            c = coef.rand_fit(rng, ndft=(4, 11)) if not cs or rng.random() < 0.65 else dict(gen.sibling(rng, cs[0]), at=0)     # (another fit into the folder of the first)
            p = c['params']
            n = p['n_dft']
            nf = n // 2 + 1 if not c['data']['cplx'] and not p.get('fullspectrum') else n
            c['ops'] = []
            for _ in range(2):
                dk = rng.choice(['noise', 'noise', 'offset', 'span', 'fit', 'cnoise', 'coffset', 'trend'])
                nt = c['data']['nt'] if dk == 'fit' else rng.choice([1, 2, 3, 5, 11, 30, rng.choice([51, 101, 201, 250]), n, n // 2 + 1, c['data']['nt']])
                c['ops'].append(dict(band=coef.rand_band(rng, nf, p['time_step'], n), nt=nt, dkind=dk,
                                     dseed=rng.getrandbits(30), savedir=rng.choice([None, None, 'sub', 'a/b']), times=coef.rand_times(rng, nt), own=rng.random() < 0.3,
                                     rname=rng.choice([None, 'rec2']), rdir=rng.choice([None, 'recs']),
                                     form=rng.choice(['array', 'array', 'dropv', 'xarray', 'fortran', 'strided', 'reversed', 'readonly', 'int']), rel=rng.random() < 0.3, ids=rng.choice(['list', 'list', 'array', 'tuple']), single=rng.random() < 0.1))
            cs.append(c)
        jobs.append(dict(cases=cs))
    return jobs


def data_of(c, q, modes, ids):
    if q['dkind'] == 'coffset':
        return op_data(c, dict(q, dkind='cnoise'), modes, ids) + (3 - 7j)
    return op_data(c, q, modes, ids)


def run(job, ctx):
    from .. import ops
    import pyspod.spod.utils as su
    res = []
    for i, c in enumerate(job['cases']):
        try:
            d, w = gen.case_arrays(c)
            obj, o = ops.fit('standard', [gen.supplied(d, c)], c['params'], gen.weights_arg(w, c['wform']), None, ctx.path(f'r{c.get("at", i)}'))
            o['disk'] = ops.read_folder(o['folder'])
            o['ops'] = [one(su, c, obj, o, q) for q in c['ops']]
        except Exception as e:
            o = ops.exc_info(e)
        res.append(o)
    return {'res': res}


def one(su, c, obj, o, q, comm=None):
    import yaml
    ids = coef.band_ids(q['band'], o['freq'])
    x = data_of(c, q, o['disk']['modes'], ids)
    xin = form_of(x, q['form'], c['data']['nv'])
    keep = np.array(xin)
    r = {}
    kw = band_arg(q)
    if q['savedir']: kw['savedir'] = q['savedir']
    if q['single']: kw['dtype'] = 'single'
    f, cd = su.compute_coeffs_conv(xin, os.path.relpath(o['folder']) if q.get('rel') else o['folder'], comm=comm, **kw)
    r['data_same'] = bool(np.array_equal(np.array(xin), keep))
    r['paths'] = (os.path.relpath(f, o['folder']), os.path.relpath(cd, o['folder']))
    r['coeffs'], r['modes_r'], r['ltm'] = np.load(f), np.load(os.path.join(cd, 'modes_r.npy')), np.load(os.path.join(cd, 'ltm.npy'))
    with open(os.path.join(cd, 'params_coeffs.yaml')) as fh: r['params'] = yaml.load(fh, Loader=yaml.FullLoader)
    kw = {}
    if q['own']:
        g = gen.rs(q['dseed'] + 1)
        r['own'] = g.standard_normal(r['coeffs'].shape) + 1j * g.standard_normal(r['coeffs'].shape)
        kw['coeffs'] = r['own'].copy()
    if q['rname']: kw['filename'] = q['rname']
    if q['rdir']: kw['savedir'] = q['rdir']
    if q['single']: kw['dtype'] = 'single'
    fr, rd = su.compute_reconstruction(cd, q['times'], comm=comm, **kw)
    r['rpaths'] = (os.path.relpath(fr, cd), os.path.relpath(rd, cd))
    r['rec'] = np.load(fr)
    r['after'] = bool(np.array_equal(np.load(f), r['coeffs'])) and bool(np.array_equal(np.load(os.path.join(cd, 'modes_r.npy')), r['modes_r']))
    return r


def judge_op(c, o, q, r, tag, viol, ev):
    nv, xs = c['data']['nv'], tuple(c['data']['xshape'])
    modes = o['disk']['modes']; W1 = o['disk']['weights'].reshape(-1).astype(float)
    freq = np.asarray(o['freq'])
    if 'T_lb' in q['band'] and 'T_ub' in q['band']:
        for T in (q['band']['T_lb'], q['band']['T_ub']):
            s = np.sort(np.abs(freq - 1 / T))
            if len(s) > 1 and s[1] - s[0] < 1e-9 * max(abs(s[1]), 1e-300): return
    ids = coef.band_ids(q['band'], freq)
    if not ids: return
    x = data_of(c, q, modes, ids)
    nt = x.shape[0]; n = c['params']['n_dft']
    eps = ref.EPS['single'] if q['single'] else ref.EPS['double']
    nms = o['n_modes_save']
    phi = [modes[f].reshape(-1, nms) for f in ids]
    xf = x.reshape(nt, -1); mean = xf.mean(axis=0); x0 = xf - mean
    folder = f'coeffs_{min(ids)}_{max(ids)}'
    wantdir = os.path.join(folder, q['savedir']) if q['savedir'] else folder
    if r['paths'] != (os.path.join(wantdir, 'coeffs.npy'), wantdir): viol.append(f'{tag}coefficients stored as {r["paths"]} instead of under {wantdir}')
    if not r['data_same']: viol.append(f'{tag}the data passed in were modified')
    want = xs + (nv, len(ids), nms)
    ev['computations'] = ev.get('computations', 0) + 1
    if r['modes_r'].shape != want: viol.append(f'{tag}stored modes have shape {r["modes_r"].shape} instead of {want}'); return
    P = np.stack(phi, axis=1)
    rt = (0 if eps < 1e-10 else 3e-7) * np.max(np.abs(P), initial=0)
    if np.max(np.abs(r['modes_r'].reshape(P.shape) - P), initial=0) > rt: viol.append(f'{tag}stored modes are not the selected modes by frequency and mode'); return
    xm = np.max(np.abs(xf)) + 1e-300
    ref.close(r['ltm'], mean.reshape(xs + (nv,)), 50 * eps * xm, f'{tag}stored mean', viol)
    pr = r['params']
    for k, v in (('n_freq_r', len(ids)), ('freq_idx_lb', min(ids)), ('freq_idx_ub', max(ids)), ('freq_lb', float(freq[min(ids)])), ('freq_ub', float(freq[max(ids)])), ('n_dft', n)):
        if pr.get(k) != v: viol.append(f'{tag}stored parameter {k} is {pr.get(k)} instead of {v}')
    for k in ('T_lb', 'T_ub'):
        if k in q['band'] and pr.get(k) != float(q['band'][k]): viol.append(f'{tag}stored parameter {k} is {pr.get(k)}')
    a = coef.conv_coeffs(phi, W1, x0, n, ids)
    wsum = np.sum(ref.window(n))
    t = 300 * eps * wsum * xm * 2 * np.max(np.sum(np.abs(P) * W1[:, None, None], axis=0), initial=0)
    if ref.close(r['coeffs'], a, t + 1e-300, f'{tag}band {q["band"]}: coefficients (frequency, time, mode)', viol): ev['coefficients'] = ev.get('coefficients', 0) + a.size
    if r['coeffs'].shape != a.shape: return
    ti = coef.time_ids(q['times'], nt)
    u = r['own'] if 'own' in r else r['coeffs'].astype(complex)
    rec = np.einsum('pjm,jtm->tp', P, u[:, ti]) + r['ltm'].reshape(-1)[None]
    mag = np.max(np.einsum('pjm,jtm->tp', np.abs(P), np.abs(u)), initial=0) + np.max(np.abs(mean), initial=0)
    if ref.close(r['rec'], rec.reshape((len(ti),) + xs + (nv,)), 300 * max(eps, 2.3e-16) * (mag + 1e-300), f'{tag}reconstruction at {q["times"]}', viol): ev['snapshots'] = ev.get('snapshots', 0) + len(ti)
    wd = os.path.join(q['rdir'] or '', (q['rname'] or 'reconstructed') + '.npy')
    if os.path.normpath(r['rpaths'][0]) != os.path.normpath(wd): viol.append(f'{tag}reconstruction stored as {r["rpaths"][0]} instead of {wd}')
    if not r['after']: viol.append(f'{tag}the reconstruction changed the stored coefficients or modes')


def judge(job, obs):
    o = obs[0]
    if 'res' not in o: return {'viol': [f'worker: {o.get("exc")} {o.get("msg")}']}
    viol, ev, sigs = [], {}, []
    for i, (c, r) in enumerate(zip(job['cases'], o['res'])):
        tag = f'case {i} {c["params"]} {c["data"]}: '
        if 'exc' in r: viol.append(f'{tag}raised {r["exc"]} {r["msg"]} {r["tb"][-400:]}'); continue
        for q, u in zip(c['ops'], r['ops']):
            judge_op(c, r, q, u, f'{tag}{q}: ', viol, ev)
            sigs.append((tuple(sorted(q['band'])), q['dkind'], q['own'], isinstance(q['times'], str), q['form'], c['data']['nv'], len(c['data']['xshape']), c['data']['cplx'], c['params']['n_dft'] % 2, q['nt'] < c['params']['n_dft']))
        if len(viol) > 5: break
    return {'viol': viol[:5], 'events': ev, 'sig': sigs, 'evals': 2 * len(o['res']), 'sample': str(job['cases'][0]['ops'][0])}
