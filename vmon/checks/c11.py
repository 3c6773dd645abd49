"""C11: variance normalization and geographic weights."""
import os
import numpy as np
from .. import gen, ref, par

RULE = ('variance normalization of random weights (serial and by 1-5 processes holding uneven, also empty, slices), batch SPOD and POD fits of data and of the same data with one variable '
        'rescaled, serial and parallel, and geographic weights of random grids and radii; oracle: variances computed directly, quadrature of the sphere; '
        'distinct: (operation, processes, variables, dimensions, data kind)')
ASSUMPTIONS = ['no variable is constant (its weights would be infinite)', 'geographic grids have at least four latitudes']
BUDGET = {'quick': 150, 'thorough': 2400}


def rand_norm(rng, np_):
    nd = rng.randint(1, 3); sh = [rng.randint(1, 6) for _ in range(nd)]; nv = rng.randint(1, 3)
    q = dict(k='norm', nt=rng.randint(2, 12) if rng.random() < 0.9 else rng.randint(200, 700), xshape=sh, nv=nv, seed=rng.getrandbits(30), kind=rng.choice(['noise', 'offset', 'scales', 'c', 'int', 'small']),
             wint=rng.random() < 0.1, method=rng.choice(['variance', 'variance', 'Variance', None, None]), other=rng.random() < 0.1, single=rng.random() < 0.1)
    if np_:
        q['axis'] = int(np.argmax(sh))
        n = sh[q['axis']]
        c = sorted(rng.randint(0, n) for _ in range(np_ - 1)); q['cuts'] = [0] + c + [n]
        if np_ > 1 and rng.random() < 0.25:      # whole variables on each process
            q['nv'] = n = rng.randint(2, 5); q['axis'] = nd
            while True:
                c = sorted(rng.randint(0, n) for _ in range(np_ - 1)); q['cuts'] = [0] + c + [n]
                if max(b - a for a, b in zip(q['cuts'], q['cuts'][1:])) < n: break
    return q


def rand_inv(rng, np_):
    pod = rng.random() < 0.35
    c = gen.rand_case(rng, maxpts=40, ndft=(4, 10), cplx=False if pod else None, nvs=(1, 2, 2, 3, 3))
    if rng.random() < 0.2:      # more variables than points along any dimension: the variables are distributed
        c['data']['nv'] = rng.choice([3, 4]); c['data']['xshape'] = rng.choice([[2], [1, 2], [2, 2], [1]]); c['params']['n_space_dims'] = len(c['data']['xshape'])
        c['params']['n_variables'] = c['data']['nv']; c['dropv'] = False
    if c['data']['kind'] in ('masked', 'still'): c['data']['kind'] = 'noise'
    p = c['params']
    p['normalize_weights'] = True; p.pop('dtype', None)
    c['pod'] = pod
    if pod:
        for k in ('n_dft', 'overlap', 'fullspectrum', 'conf_level', 'normalize_data', 'reuse_blocks'): p.pop(k, None)
        if p.get('mean_type', '').lower() == 'blockwise': p['mean_type'] = 'longtime'
    p['n_modes_save'] = 2
    c['var'] = rng.randrange(c['data']['nv']); c['factor'] = rng.choice([2.0, 1024.0, 1 / 64., -4.0, 1e3])
    return dict(k='inv', case=c)


def rand_stream(rng, np_):
    q = rand_inv(rng, np_)
    while q['case']['pod'] or np.prod(q['case']['data']['xshape']) < 4: q = rand_inv(rng, np_)
    q['k'] = 'stream'; q['case']['data']['kind'] = rng.choice(['noise', 'waves', 'offset', 'trend'])
    for k in ('normalize_data', 'mean_type'): q['case']['params'].pop(k, None)
    if q['case']['weights'] and q['case']['weights']['kind'] == 'zeros': q['case']['weights']['kind'] = 'smooth'
    return q


def rand_geo(rng):
    d3 = rng.random() < 0.4
    return dict(k='geo', n=[rng.randint(4, 40), rng.randint(2, 40)] + ([rng.randint(1, 5)] if d3 else []), nv=rng.randint(1, 3), R=rng.choice([None, 1, 2.5, 6371.0]))


def make_jobs(rng, tier):
    jobs = []
    m = 1 if tier == 'quick' else 15
    for _ in range(60 * m): jobs.append(dict(ops=[rand_norm(rng, 0), rand_norm(rng, 0), rand_inv(rng, 0), rand_inv(rng, 0), rand_geo(rng), rand_geo(rng)] + ([rand_stream(rng, 0)] if rng.random() < 0.25 else [])))
    for _ in range(36 * m):
        k = rng.choice([1, 2, 2, 3, 3, 4, 5])
        jobs.append(dict(np=k, ops=[rand_norm(rng, k), rand_norm(rng, k), rand_inv(rng, k)] + ([rand_stream(rng, k)] if rng.random() < 0.25 else []), delay=par.rand_delay(rng, k)))
    return jobs


def norm_data(q):
    g = gen.rs(q['seed'])
    sh = [q['nt']] + q['xshape'] + [q['nv']]
    x = g.standard_normal(sh)
    k = q['kind']
    if k == 'offset': x = x + 30 * g.standard_normal(q['nv']) + 10
    if k == 'scales': x = x * 10.0 ** g.uniform(-3, 3, q['nv'])
    if k == 'c': x = x + 1j * g.standard_normal(sh) + (1 + 2j)
    if k == 'int': x = np.round(9 * x)
    if k == 'small': x = x * 1e-8
    w = 0.2 + g.random(sh[1:])
    if q['wint']: w = g.integers(1, 9, sh[1:])
    elif q['single']: w = w.astype(np.float32)
    return x, w


def scaled(d, c):
    e = d.copy(); e[..., c['var']] *= c['factor']; return e


def run(job, ctx):
    from .. import ops
    import pyspod.utils.weights as uw
    out = []
    for i, q in enumerate(job['ops']):
        try:
            if q['k'] == 'norm':
                x, w = norm_data(q)
                if ctx.comm is not None:
                    a = q['axis']; s = np.s_[q['cuts'][ctx.rank]:q['cuts'][ctx.rank + 1]]
                    x = x[(np.s_[:],) * (a + 1) + (s,)]; w = w[(np.s_[:],) * a + (s,)]
                x0, w0 = x.copy(), w.copy()
                kw = {} if q['method'] is None else {'method': 'none' if q['other'] else q['method']}
                r = uw.apply_normalization(data=x, weights=w, n_vars=q['nv'], comm=ctx.comm, **kw)
                out.append(dict(r=np.array(r), same=bool(np.array_equal(x, x0) and np.array_equal(w, w0) and w.dtype == w0.dtype)))
            elif q['k'] == 'geo':
                n = q['n']; kw = {} if q['R'] is None else {'R': q['R']}
                f = uw.geo_trapz_3D if len(n) == 3 else uw.geo_trapz_2D
                out.append(dict(w=f(**{f'x{j + 1}_dim': v for j, v in enumerate(n)}, n_vars=q['nv'], **kw)))
            elif q['k'] == 'stream':
                d, w = gen.case_arrays(q['case'])
                _, a = ops.fit('streaming', [gen.supplied(d, q['case'])], q['case']['params'], gen.weights_arg(w, q['case']['wform']), ctx.comm, ctx.path(f's{i}'))
                out.append(dict(weights=ops.read_folder(a['folder'])['weights']))
            else:
                c = q['case']
                d, w = gen.case_arrays(c)
                o = {}
                for name, x in (('a', d), ('b', scaled(d, c))):
                    wa = gen.weights_arg(w, c['wform'])
                    k0 = x.copy(); sup = gen.supplied(x, c)
                    sd = ctx.path(f'{name}{i}')
                    if c['pod']:
                        from pyspod.pod.standard import Standard
                        p = Standard(params={**c['params'], 'savedir': sd}, weights=wa, comm=ctx.comm); p.fit([sup])
                        f = os.path.join(sd, f'modes{int(p.n_modes_save)}')
                        u = dict(eigs=np.array(p.eigs), weights=np.load(f + '/weights.npy'), modes=[np.load(f + '/modes.npy')])
                    else:
                        _, a = ops.fit('standard', [sup], c['params'], wa, ctx.comm, sd)
                        k = ops.read_folder(a['folder'])
                        u = dict(eigs=a['eigs'], weights=k['weights'], modes=k['modes'])
                    u['same'] = bool(np.array_equal(x, k0)) and (w is None or bool(np.array_equal(wa['weights'].reshape(-1), w.reshape(-1))))
                    o[name] = u
                out.append(o)
        except Exception as e:
            if ctx.comm is not None: raise
            out.append(ops.exc_info(e))
    return {'out': out}


def judge_geo(q, o, tag, viol, known, ev):
    n, nv, R = q['n'], q['nv'], q['R'] or 1
    w = o['w']
    if set(w) != {'weights_name', 'weights'}: viol.append(f'{tag}returns {set(w)}')
    W = np.asarray(w['weights'])
    want = tuple(n) + (nv,)
    if len(n) == 3 and W.shape == (nv * n[0], n[1], n[2]):
        known.append(('geo3d', f'{tag}layout {W.shape} instead of {want}'))
        W = np.moveaxis(W.reshape(nv, *n), 0, -1)
    if W.shape != want: viol.append(f'{tag}weights have layout {W.shape} instead of {want}'); return
    if not np.all(np.isfinite(W)) or np.any(W < 0): viol.append(f'{tag}negative or invalid weights'); return
    if np.all(W[:, 0] == 0): known.append(('first_column', f'{tag}weights of the first longitude are zero')); V = W[:, 1:]
    else: V = W
    dl = np.pi / (n[0] - 1); lat = np.linspace(-90, 90, n[0]) / 180 * np.pi
    h = np.full(n[0], dl); h[0] = h[-1] = dl / 2
    e = (R ** 2 * np.cos(lat) * h * 2 * np.pi / n[1]).reshape((-1,) + (1,) * (W.ndim - 1)) * np.ones(V.shape)
    ref.close(V, e, 1e-12 * R ** 2, f'{tag}quadrature weights', viol)
    ref.close(W, W[::-1], 1e-12 * R ** 2, f'{tag}symmetry about the equator', viol)
    ev['grids'] = ev.get('grids', 0) + 1


def judge(job, obs):
    np_ = job.get('np', 0)
    viol, known, ev, sigs = par.failures(obs, job), [], {}, []
    if viol: return {'viol': viol}
    for i, q in enumerate(job['ops']):
        O = [o['out'][i] for o in obs]
        tag = f'op {i} {q} on {np_} processes: '
        bad = [o for o in O if 'exc' in o]
        if bad: viol.append(f'{tag}raised {bad[0]["exc"]} {bad[0]["msg"]} {bad[0]["tb"][-400:]}'); continue
        if q['k'] == 'geo': judge_geo(q, O[0], tag, viol, known, ev); sigs.append(('geo', len(q['n']), q['nv'], q['n'][0] % 2, q['R'])); continue
        if q['k'] == 'norm':
            x, w = norm_data(q)
            e = np.array(w, float)
            if not q['other']  or q['method'] is None:
                for v in range(q['nv']): e[..., v] /= np.mean(np.abs(x[..., v] - np.mean(x[..., v])) ** 2)
            r = O[0]['r'] if not np_ else np.concatenate([o['r'] for o in O], axis=q['axis'])
            amp = 1.0
            if any(not o['same'] for o in O): viol.append(f'{tag}data or weights passed in were modified')
            t = (1e-9 if not q['single'] else 1e-5) * np.abs(e)
            if ref.close(r.astype(float), e, t, f'{tag}normalized weights', viol): ev['normalized'] = ev.get('normalized', 0) + e.size
            sigs.append(('norm', np_, q['nv'], len(q['xshape']), q['kind'], q['method'], q['wint'], q['single'], bool(np_) and any(a == b for a, b in zip(q['cuts'], q['cuts'][1:]))))
            continue
        c = q['case']; p = c['params']
        d, w = gen.case_arrays(c)
        if q['k'] == 'stream':
            W = ref.final_weights(d, w, p); W0 = ref.final_weights(d[:1], w, p)
            for r, o in enumerate(O):
                e = np.asarray(o['weights']).reshape(W.shape)
                if np.allclose(e, W, rtol=1e-9, atol=0): ev['streams'] = ev.get('streams', 0) + 1
                elif np.allclose(e, W0, rtol=1e-9, atol=0): known.append(('streaming_first', f'{tag}process {r}: saved weights are normalized by the variance of the first snapshot')); ev['streams'] = ev.get('streams', 0) + 1
                else: viol.append(f'{tag}process {r}: weights saved by the streaming fit are normalized neither by the variance of the data nor by that of the first snapshot')
            sigs.append(('stream', np_, c['data']['nv'], len(c['data']['xshape']), c['data']['kind']))
            continue
        W = ref.final_weights(d, w, p)
        d2 = scaled(d, c)
        W2 = ref.final_weights(d2, w, p)
        for r, o in enumerate(O):
            t2 = f'{tag}process {r}: '
            a, b = o['a'], o['b']
            if not (a['same'] and b['same']): viol.append(f'{t2}data or weights passed in were modified')
            ref.close(a['weights'].reshape(W.shape), W, 1e-9 * W, f'{t2}saved weights', viol)
            ref.close(b['weights'].reshape(W.shape), W2, 1e-9 * W2, f'{t2}saved weights after rescaling', viol)
            ea, eb = np.abs(np.asarray(a['eigs'])), np.abs(np.asarray(b['eigs']))
            if ea.shape != eb.shape: viol.append(f'{t2}energies {ea.shape} and {eb.shape}'); continue
            if p.get('normalize_data'): continue        # dividing by the variance is not a rescaling
            if c['pod']: E = float(np.sum(np.max(np.abs(d.reshape(d.shape[0], -1)) ** 2, axis=0) * W.reshape(-1))) * d.shape[0]
            else: E = float(np.sum(np.max(np.abs(d.reshape(d.shape[0], -1)) ** 2, axis=0) * W.reshape(-1)))
            l1 = np.max(ea, axis=-1, keepdims=True)
            t = 1e-9 * (l1 + np.sqrt(E * l1)) * np.sqrt(1e-4) + 1e-10 * l1 + 1e-18 * E
            if ref.close(eb, ea, np.broadcast_to(t, ea.shape), f'{t2}energies after variable {c["var"]} was multiplied by {c["factor"]}', viol): ev['energies'] = ev.get('energies', 0) + ea.size
            f = np.ones(d.shape[-1]); f[c['var']] = c['factor']
            W1 = W2.reshape(-1)
            ev['modes'] = ev.get('modes', 0)
            for k, (x, y) in enumerate(zip(a['modes'], b['modes'])):
                lam = ea if c['pod'] else ea[k]
                x = (x * f[:, None]).reshape(-1, x.shape[-1]); y = y.reshape(-1, y.shape[-1])
                l = lam.max()
                if l <= 0: continue
                ev['modes'] += ref.same_modes(y, x, W1, lam, 1e-10 + 1e-9 * np.sqrt(E / l) * 1e-1 + 1e-18 * E / l, f'{t2}frequency {k} modes after rescaling', viol)
        sigs.append(('inv', np_, c['pod'], c['data']['nv'], len(c['data']['xshape']), c['data']['kind'], c['data']['cplx'], c['factor']))
        if len(viol) > 5: break
    par.traces(obs, ev)
    return {'viol': viol[:5], 'known': known, 'events': ev, 'sig': sigs, 'evals': len(obs) * len(job['ops']), 'sample': str(job['ops'][0])}
