"""C01: eigenvalues and modes of the batch SPOD against a direct computation of the definition."""
import os
import numpy as np
from .. import gen, ref

RULE = ('random data sets (real/complex, 1-3 space dimensions, 1-3 variables, 9 kinds of content) and parameters; every eigenvalue and every '
        'saved mode with energy is compared with the direct (no FFT, no repository code) cross-spectral density; distinct: parameter '
        'signature (parity of block length, overlap, mean, spectrum, normalizations, precision, dimensions, variables, weights, content)')
ASSUMPTIONS = ['data are finite; modes whose energy is below 1e-6 of the largest are judged by finiteness of nothing (rounding only)',
               'tolerances are 2e4 machine epsilons of the chosen precision scaled by the energy of the data']
BUDGET = {'quick': 150, 'thorough': 2400}


def make_jobs(rng, tier):
    n = 450 if tier == 'quick' else 2500
    jobs = []
    for _ in range(n):
        jobs.append(dict(cases=[gen.rand_case(rng, ranges=0.1) for _ in range(6)]))
    # systematic corner: every combination of the discrete options once
    grid = []
    for n_dft in (4, 5, 8, 9):
        for mt in ('longtime', 'blockwise', 'zero'):
            for ov in (0, 50):
                for cp in (False, True):
                    for fs in (False, True):
                        c = gen.rand_case(rng, cplx=cp, maxpts=24)
                        p = c['params']
                        p.update(n_dft=n_dft, mean_type=mt, overlap=ov, n_modes_save=3); p.pop('dtype', None)
                        p['fullspectrum'] = fs
                        novl = int(np.ceil(n_dft * ov / 100))
                        c['data']['nt'] = novl + rng.randint(2, 5) * (n_dft - novl) + rng.randint(0, n_dft - novl - 1)
                        grid.append(c)
    for i in range(0, len(grid), 6): jobs.append(dict(cases=grid[i:i + 6]))
    rng.shuffle(jobs)
    return jobs


def run(job, ctx):
    from .. import ops
    res = []
    for i, c in enumerate(job['cases']):
        try:
            d, w = gen.case_arrays(c)
            obj, o = ops.fit('standard', [gen.supplied(d, c)], c['params'], gen.weights_arg(w, c['wform']), None, ctx.path(f'r{i}'))
            o['disk'] = ops.read_folder(o['folder'])
        except Exception as e:
            o = ops.exc_info(e)
        res.append(o)
    return {'res': res}


def sig(c):
    p, d = c['params'], c['data']
    return (p['n_dft'] % 2, p.get('overlap', 0) > 0, p.get('mean_type', 'd').lower(), d['cplx'], p.get('fullspectrum', False), p.get('normalize_data', False),
            p.get('normalize_weights', False), p.get('dtype', 'double'), len(d['xshape']), d['nv'], (c['weights'] or {}).get('kind'), d['kind'], c['wform'], c['dropv'])


def judge_fit(c, o, viol, ev, tag=''):
    d, w = gen.case_arrays(c)
    p = c['params']
    if 'exc' in o: viol.append(f'{tag}fit raised {o["exc"]}: {o["msg"]}\n{o.get("tb", "")[-400:]}'); return
    R = ref.Spod(d, w, p, cplx=d.dtype.kind == 'c')
    eps = ref.EPS['single' if p.get('dtype') == 'single' else 'double']
    e = np.asarray(o['eigs'])
    if e.shape != (R.nf, R.nb): viol.append(f'{tag}energies have shape {e.shape}, expected {(R.nf, R.nb)}'); return
    nms = min(int(p.get('n_modes_save', 10 ** 9)), R.nb)
    npts = R.Q.shape[1]
    modes = o['disk'].get('modes')
    if modes is None: viol.append(f'{tag}no saved energies/modes'); return
    ev['fits'] = ev.get('fits', 0) + 1
    for f in range(R.nf):
        t = R.tol(f, eps)
        if not np.all(np.isfinite(e[f])): viol.append(f'{tag}energies of frequency {f} are not finite'); continue
        if modes[f] is not None and not np.all(np.isfinite(modes[f])): viol.append(f'{tag}modes of frequency {f} are not finite'); continue
        if np.max(R.lam[f]) <= 1e-250: continue
        dd = np.max(np.abs(np.abs(e[f]) - R.eigs[f]))
        ev['energies'] = ev.get('energies', 0) + R.nb
        if not dd <= 2 * t:
            k = int(np.argmax(np.abs(np.abs(e[f]) - R.eigs[f])))
            viol.append(f'{tag}energy ({f},{k}) is {e[f][k]:.12g}, by definition {R.eigs[f][k]:.12g} (tolerance {2 * t:.2g})')
            continue
        m = modes[f]
        if m is None: viol.append(f'{tag}no modes for frequency {f}'); continue
        want = tuple(c['data']['xshape']) + (c['data']['nv'], nms)
        if m.shape != want: viol.append(f'{tag}modes of frequency {f} have shape {m.shape}, expected {want}'); continue
        if not np.all(np.isfinite(m)): viol.append(f'{tag}modes of frequency {f} are not finite'); continue
        out = []
        ev['modes'] = ev.get('modes', 0) + ref.check_modes(m.reshape(npts, nms), R.Q[f], R.W1, R.lam[f], R.nb, eps, t, nms, f'{tag}frequency {f}', out)
        viol.extend(out[:2])
        if len(viol) > 4: break


def judge(job, obs):
    o = obs[0]
    if 'res' not in o: return {'viol': [f'worker: {o.get("exc")} {o.get("msg")}']}
    viol, ev, sigs = [], {}, []
    for i, (c, r) in enumerate(zip(job['cases'], o['res'])):
        judge_fit(c, r, viol, ev, tag=f'case {i} {c["params"]} {c["data"]}: ')
        sigs.append(sig(c))
    return {'viol': viol, 'events': ev, 'sig': sigs, 'evals': len(o['res']), 'sample': str(job['cases'][0])}
