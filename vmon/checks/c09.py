"""C09: proper orthogonal decomposition."""
import os
import numpy as np
from .. import gen, ref, par, coef

RULE = ('random real data (1-3 dimensions, 1-3 variables, offsets, masked points, equal and constant energies, more or fewer snapshots than points), in one or several data sets, plain or labelled, with random weights, '
        'mean types and mode counts, decomposed serially and by 1-5 processes; coefficients and reconstructions of the same and of other data; '
        'oracle: symmetric eigenproblem of the weighted Gram matrix, weighted least squares; distinct: (processes, shape class, options)')
ASSUMPTIONS = ['energies are those of the sum over snapshots (no division by their number), as the code documents', 'modes whose energy is at rounding level are only required to be finite and not to disturb reconstructions']
BUDGET = {'quick': 150, 'thorough': 2400}


def rand_case(rng, np_=0):
    xd = rng.choice([1, 2, 3])
    while True:
        xs = [rng.randint(1, {1: 20, 2: 6, 3: 4}[xd]) for _ in range(xd)]
        nv = rng.choice([1, 1, 2, 3])
        if int(np.prod(xs)) * nv <= 50: break
    nt = rng.randint(2, 25)
    r = rng.random()            # beyond the usual sizes
    if r < 0.06: nt = rng.randint(60, 500); xs = [rng.randint(1, 4) for _ in xs]
    elif r < 0.12: xs = {1: [rng.randint(200, 3000)], 2: [rng.randint(10, 60), rng.randint(10, 60)], 3: [rng.randint(3, 16) for _ in range(3)]}[xd]
    elif r < 0.15: nv = rng.randint(4, 9); xs = [rng.randint(1, 4) for _ in xs]
    p = dict(time_step=rng.choice([1.0, 0.1, 12]), n_space_dims=xd, n_variables=nv)
    if rng.random() < 0.8: p['mean_type'] = rng.choice(['longtime', 'zero', 'Longtime', 'ZERO'])
    if rng.random() < 0.7: p['n_modes_save'] = rng.choice([1, 2, 3, 5, nt, 1000])
    if rng.random() < 0.12: p['dtype'] = 'single'
    kind = rng.choice(['noise', 'waves', 'offset', 'scales', 'trend', 'large', 'small', 'masked', 'int', 'tiny', 'huge', 'decay', 'rolled', 'periodic', 'still'])
    if kind == 'rolled': xs = [rng.randint(2, 20)] + [rng.randint(1, 2) for _ in xs[1:]]; nt = xs[0] * rng.choice([1, 1, 2])
    if rng.random() < 0.2 and kind not in ('masked', 'still'): p['normalize_weights'] = True
    cuts = sorted(rng.sample(range(1, nt), min(nt - 1, rng.choice([1, 2, 3, 3, 9])))) if rng.random() < 0.4 and nt > 1 else []
    wk = rng.choice([None, None, 'ones', 'const', 'smooth', 'wide', 'zeros', 'percol', rng.choice(['faint', 'strong'])])
    if kind == 'rolled': wk = rng.choice([None, 'ones', 'const', wk])
    ops = [dict(dkind=rng.choice(['fit', 'fit', 'noise', 'offset', 'span']), dseed=rng.getrandbits(30), api=rng.random() < 0.5, savedir=rng.choice([None, 'sub']),
                copy=rng.random() < 0.3, later=rng.random() < 0.3, none=rng.random() < 0.3, f32=rng.random() < 0.15, rname=rng.choice([None, 'rec2']), rdir=rng.choice([None, 'recs']), own=rng.random() < 0.2) for _ in range(2)]
    for q in ops:
        q['nt'] = nt if q['dkind'] == 'fit' else rng.choice([1, 2, 7, nt])
        q['times'] = coef.rand_times(rng, q['nt'])
    return dict(data=dict(seed=rng.getrandbits(32), nt=nt, xshape=xs, nv=nv, kind=kind, cplx=False, period=nt // xs[0]), params=p, cuts=cuts,
                weights=None if wk is None else dict(seed=rng.getrandbits(32), kind=wk), wform=rng.choice(['shaped', 'flat', 'flat', 'fortran', 'strided', 'reversed', 'readonly']), dropv=(nv == 1 and rng.random() < 0.5), dform=rng.choice(['c', 'c', 'c', 'fortran', 'strided', 'reversed', 'readonly']), rel=rng.random() < 0.3,
                xr=rng.random() < 0.25, types=[rng.choice([None, 'i8', 'i4', 'f4', 'i2']) for _ in range(4)] if kind == 'int' or rng.random() < 0.2 else [], bare=(not cuts and rng.random() < 0.3), ops=ops)


def make_jobs(rng, tier):
    jobs = []
    for i in range(250 if tier == 'quick' else 3000):
        np_ = 0 if i % 5 else rng.choice([1, 2, 2, 3, 4, 5])
        j = dict(cases=[rand_case(rng, np_) for _ in range(2)])
        if np_: j.update(np=np_, delay=par.rand_delay(rng, np_))
        jobs.append(j)
    return jobs


def as_type(x, t):
    """The same values in another type, where it holds them."""
    if t is None: return x
    y = x.astype(t)
    return y if np.all(np.asarray(y) == np.asarray(x)) else x


def pieces(d, c):
    x = gen.supplied(d, c)
    if c['xr']:
        import xarray as xr
        x = xr.DataArray(x, dims=['t'] + [f'x{i}' for i in range(x.ndim - 1)])
    b = [0] + c['cuts'] + [d.shape[0]]
    dl = [as_type(x[a:e], t) for a, e, t in zip(b, b[1:], c['types'] + [None] * len(b))]
    return dl[0] if c['bare'] else dl


def op_data(c, q, modes):
    if q['dkind'] == 'fit': return gen.make_data(c['data'])
    g = gen.rs(q['dseed'])
    sh = (q['nt'],) + tuple(c['data']['xshape']) + (c['data']['nv'],)
    if q['dkind'] == 'span':
        phi = np.real(modes).reshape(-1, modes.shape[-1])
        m = phi[:, :max(1, min(2, phi.shape[1]))]
        return ((g.standard_normal((q['nt'], m.shape[1])) @ m.T) + g.standard_normal(phi.shape[0])).reshape(sh)
    x = g.standard_normal(sh) + (10 if q['dkind'] == 'offset' else 0)
    return x.astype('f4').astype(float) if q['f32'] else x


def fit_part(c, sd, comm):
    from .. import ops
    from pyspod.pod.standard import Standard
    o = {}
    d, w = gen.case_arrays(c)
    keep = d.copy()
    p = dict(c['params']); p['savedir'] = os.path.relpath(sd) if c.get('rel') else sd
    wa = gen.weights_arg(w, c['wform'])
    pod = Standard(params=p, weights=wa, comm=comm)
    r = pod.fit(pieces(d, c))
    f = os.path.join(p['savedir'], f'modes{int(pod.n_modes_save)}')
    o['files'] = sorted(x for x in os.listdir(f) if not x.startswith('coeffs'))       # processes ahead may be at the next computation
    o['modes'], o['weights'] = np.load(os.path.join(f, 'modes.npy')), np.load(os.path.join(f, 'weights.npy'))
    o['eigs'], o['eigs_disk'] = np.array(pod.eigs), ops.load_npz(os.path.join(f, 'eigs.npz'))['eigs']
    o['at'] = dict(nt=int(pod.nt), nx=int(pod.nx), nv=int(pod.nv), xdim=int(pod.xdim), xshape=tuple(int(v) for v in pod.xshape), dt=float(pod.dt), n_modes_save=int(pod.n_modes_save), self_=r is pod)
    o['in_same'] = bool(np.array_equal(d, keep)) and (w is None or bool(np.array_equal(np.reshape(wa['weights'], -1), w.reshape(-1))))
    o['folder'] = f
    o['ops'] = []
    return pod, o


def op_part(c, o, q, pod, comm):
    import pyspod.pod.utils as pu
    f = o['folder']
    x = op_data(c, q, o['modes'])
    xin = gen.supplied(x, c)
    if q['f32'] and q['dkind'] in ('noise', 'offset'): xin = xin.astype('f4')
    x0 = np.array(xin)
    if q['api'] and q['copy']:
        import shutil
        f2 = f + f'_copy{q["dseed"]}'
        if comm is None or comm.rank == 0:
            shutil.copytree(f, f2)
            if os.path.isdir(os.path.join(f2, 'coeffs')): shutil.rmtree(os.path.join(f2, 'coeffs'))
        if comm is not None: comm.Barrier()
        f = f2
    if c['xr']:
        import xarray as xr
        xin = xr.DataArray(xin, dims=['t'] + [f'x{k}' for k in range(xin.ndim - 1)])
    u = {}
    if q['api']: cf, cd = pod.compute_coeffs_op(xin, None if q['none'] and not q['copy'] else f)
    else: cf, cd = pu.compute_coeffs_op(xin, f, comm=comm, **({'savedir': q['savedir']} if q['savedir'] else {}))
    u['cpaths'] = (os.path.relpath(cf, f), os.path.relpath(cd, f))
    u['coeffs'], u['modes_r'], u['ltm'] = np.load(cf), np.load(os.path.join(cd, 'modes_r.npy')), np.load(os.path.join(cd, 'ltm.npy'))
    kw = {}
    if q['own']:
        g = gen.rs(q['dseed'] + 5)
        u['own'] = g.standard_normal(u['coeffs'].shape); kw['coeffs'] = u['own'].copy()
    if q['api']:
        other = None
        if q['later'] and q['copy']: other = pod.compute_coeffs_op(2 * xin + 1, o['folder'])
        rf, rd = pod.compute_reconstruction(None if q['none'] and not other else cd, time_idx=q['times'], **kw)
    else:
        if q['rname']: kw['filename'] = q['rname']
        if q['rdir']: kw['savedir'] = q['rdir']
        rf, rd = pu.compute_reconstruction(cd, q['times'], comm=comm, **kw)
    u['rpaths'] = (os.path.relpath(rf, cd), os.path.relpath(rd, cd))
    u['rec'] = np.load(rf)
    u['same'] = bool(np.array_equal(np.array(xin), x0))
    return u


def run(job, ctx):
    from .. import ops
    res = []
    for i, c in enumerate(job['cases']):
        try:
            pod, o = fit_part(c, ctx.path(f'r{i}'), ctx.comm)
            for q in c['ops']:
                o['ops'].append(op_part(c, o, q, pod, ctx.comm))
                ctx.sync()      # the next computation overwrites the files just read
        except Exception as e:
            o = ops.exc_info(e)
            if ctx.world is not None: res.append(o); break
        res.append(o)
    return {'res': res}


def judge_case(c, o, tag, viol, ev):
    d, w = gen.case_arrays(c)
    p, nv, xs = c['params'], c['data']['nv'], tuple(c['data']['xshape'])
    nt = d.shape[0]
    eps = ref.EPS['single' if p.get('dtype') == 'single' else 'double']
    W = ref.final_weights(d, w, p); W1 = W.reshape(-1)
    X = d.reshape(nt, -1)
    longt = p.get('mean_type', 'longtime').lower() == 'longtime'
    X0 = X - X.mean(axis=0) if longt else X
    lam, V = np.linalg.eigh((X0 * W1) @ X0.T); lam, V = lam[::-1], V[:, ::-1]
    E = float(np.sum(np.max(np.abs(X) ** 2, axis=0) * W1)) * nt
    l1 = max(lam[0], 0)
    C = 2e3 * np.sqrt(nt)
    tol = C * eps * (l1 + np.sqrt(E * l1) + C * eps * E)
    nms = int(min(p.get('n_modes_save', nt), nt))
    a = o['at']
    for k, v in (('nt', nt), ('nx', int(np.prod(xs))), ('nv', nv), ('xdim', len(xs)), ('xshape', xs), ('dt', float(p['time_step'])), ('n_modes_save', nms), ('self_', True)):
        if a[k] != v: viol.append(f'{tag}{k} is {a[k]} instead of {v}')
    if not o['in_same']: viol.append(f'{tag}data or weights passed in were modified')
    if set(o['files']) < {'modes.npy', 'weights.npy', 'eigs.npz', 'params_modes.yaml'}: viol.append(f'{tag}files {o["files"]}')
    ref.close(o['weights'].reshape(-1).astype(float), W1, 30 * eps * (W1 + (E / nt if p.get('normalize_weights') else 0) * W1), f'{tag}saved weights', viol)
    if o['weights'].shape != xs + (nv,): viol.append(f'{tag}saved weights have shape {o["weights"].shape}')
    e = o['eigs']
    ref.close(e.real, lam, tol + 1e-300, f'{tag}energies', viol)
    if np.max(np.abs(e.imag), initial=0) > tol + 1e-300: viol.append(f'{tag}energies are not real')
    if np.any(np.diff(e.real) > 0): viol.append(f'{tag}energies are not in descending order')
    ref.close(o['eigs_disk'], e, 0, f'{tag}saved energies', viol)
    ev['energies'] = ev.get('energies', 0) + nt
    if o['modes'].shape != xs + (nv, nms): viol.append(f'{tag}modes have shape {o["modes"].shape} instead of {xs + (nv, nms)}'); return
    phi = o['modes'].reshape(-1, nms)
    if not np.all(np.isfinite(phi)): viol.append(f'{tag}modes are not finite'); return
    en = lam[:nms] > 1e-6 * l1
    if np.max(np.abs(phi[:, en].imag), initial=0) > 1e-6 * np.max(np.abs(phi), initial=0): viol.append(f'{tag}modes of real data are not real')
    n = ref.check_modes(phi.astype(complex), X0.T.astype(complex) * np.sqrt(nt), W1, lam, nt, eps, tol, nms, tag, viol, C=C)
    ev['modes'] = ev.get('modes', 0) + n
    phid = phi.astype(float) if phi.dtype.kind != 'c' else phi
    for k, (q, u) in enumerate(zip(c['ops'], o['ops'])):
        t2 = f'{tag}op {k} {q}: '
        x = op_data(c, q, o['modes']); xf = x.reshape(x.shape[0], -1); m = xf.mean(axis=0); x0 = xf - m
        if not u['same']: viol.append(f'{t2}the data passed in were modified')
        api = q['api']
        wd = 'coeffs' if api or not q['savedir'] else 'coeffs/' + q['savedir']
        if u['cpaths'] != (wd + '/coeffs.npy', wd): viol.append(f'{t2}coefficients stored as {u["cpaths"]}')
        wr = ('' if api or not q['rdir'] else q['rdir'] + '/') + ('reconstructed' if api or not q['rname'] else q['rname']) + '.npy'
        if os.path.normpath(u['rpaths'][0]) != wr: viol.append(f'{t2}reconstruction stored as {u["rpaths"][0]} instead of {wr}')
        co = phid.T @ (W1[:, None] * x0.T)
        e4 = 1.2e-7 if q['f32'] else eps        # single-precision data may be averaged in single precision
        t = 300 * max(eps, e4) * np.max(np.sum(np.abs(phi) * W1[:, None], axis=0)) * (np.max(np.abs(xf)) + 1e-300)
        if ref.close(u['coeffs'], co, t, f'{t2}coefficients', viol): ev['coefficients'] = ev.get('coefficients', 0) + co.size
        if u['coeffs'].shape != co.shape: continue
        ref.close(u['modes_r'].reshape(phi.shape), phi, 3e-7 * np.max(np.abs(phi)) if eps > 1e-10 else 0, f'{t2}stored modes', viol)
        ref.close(u['ltm'], m.reshape(xs + (nv,)), 50 * max(eps, e4) * (np.max(np.abs(xf)) + 1e-300), f'{t2}stored mean', viol)
        ti = coef.time_ids(q['times'], x.shape[0])
        aa = u['own'] if 'own' in u else u['coeffs']
        rec = (phid @ aa[:, ti]).T + m
        mag = np.max(np.abs(phi) @ np.abs(aa), initial=0) + np.max(np.abs(xf))
        if ref.close(u['rec'], rec.reshape((len(ti),) + xs + (nv,)), 300 * max(eps, e4) * mag + 1e-300, f'{t2}reconstruction at {q["times"]}', viol): ev['snapshots'] = ev.get('snapshots', 0) + len(ti)
        if 'own' in u or q['dkind'] not in ('fit', 'span') or not np.all(np.isfinite(u['rec'])): continue
        r = np.real(u['rec'].reshape(len(ti), -1)) - xf[ti]
        if q['dkind'] == 'fit' and longt:
            # error of the best approximation of this rank, snapshot by snapshot
            lost = np.sqrt(np.maximum(np.sum(np.where(np.arange(nt) >= nms, np.maximum(lam, 0), 0)[None] * V[ti] ** 2, axis=1), 0))
            got = np.sqrt(np.sum(W1 * r ** 2, axis=1))
            keepgap = nms >= nt or lam[nms - 1] - lam[nms] > 1e-3 * l1 or lam[nms] < 1e-9 * l1
            if keepgap and l1 > 1e-8 * E:
                tt = 1e3 * np.sqrt(eps * nt * l1) * (np.sqrt(eps) * 1e4 if eps < 1e-10 else 1) + 1e-5 * lost + 1e-4 * np.sqrt(l1) * (eps > 1e-10) + 3e-7 * np.sqrt(l1)
                ev['approximations'] = ev.get('approximations', 0) + 1
                if np.any(np.abs(got - lost) > tt): viol.append(f'{t2}error of the approximation by {nms} modes is {got} instead of {lost}')
        if q['dkind'] == 'span' and len(en) and np.all(en[:min(2, nms)]):
            sc = np.max(np.abs(xf)) + 1e-300
            wm = np.sqrt(np.min(W1[W1 > 0], initial=1e300))
            t = 1e-6 * sc * np.sqrt(np.max(W1) ) if eps < 1e-10 else 3e-3 * sc * np.sqrt(np.max(W1))
            en_err = np.sqrt(np.sum(W1 * r ** 2, axis=1) / len(W1))
            ev['exact'] = ev.get('exact', 0) + 1
            if l1 > 1e-8 * E and np.any(en_err > t): viol.append(f'{t2}data in the span of the modes are reproduced only to {np.max(en_err):.3g} (magnitude {sc:.3g})')


def judge(job, obs):
    np_ = job.get('np', 0)
    viol, ev, sigs = par.failures(obs, job), {}, []
    if viol: return {'viol': viol}
    for r, o in enumerate(obs):
        for i, (c, u) in enumerate(zip(job['cases'], o['res'])):
            tag = f'process {r} of {np_ or 1}, case {i} {c["params"]} {c["data"]} weights {c["weights"]}: '
            if 'exc' in u: viol.append(f'{tag}raised {u["exc"]} {u["msg"]} {u["tb"][-500:]}'); continue
            judge_case(c, u, tag, viol, ev)
            sigs.append((np_, len(c['data']['xshape']), c['data']['nv'], len(c['cuts']), c['xr'], c['params'].get('mean_type', '').lower(), (c['weights'] or {}).get('kind'), 'normalize_weights' in c['params'],
                         c['data']['kind'], c['params'].get('n_modes_save', 0) >= c['data']['nt'], c['ops'][0]['dkind'], c['dropv']))
        if len(viol) > 5: break
    par.traces(obs, ev)
    return {'viol': viol[:5], 'events': ev, 'sig': sigs, 'evals': len(job['cases']) * len(obs), 'sample': str(job['cases'][0])[:500]}
