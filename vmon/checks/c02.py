"""C02: orthonormality, ranking, total energy, scaling and symmetry laws, confidence bounds of the batch SPOD."""
import numpy as np
import scipy.special as sc
from .. import gen, ref

RULE = ('random SPOD cases; each is fitted as given and again after a transformation with a known effect (data scaled, weights scaled, points and variables '
        'reordered, constant field added, other confidence level, fewer blocks kept); traces of the cross-spectral density, weighted Gram matrices of all saved modes '
        'and chi-square bounds are evaluated directly; the orthogonality check is called on fitted and on tampered modes; distinct: (options, transformations)')
ASSUMPTIONS = ['scaling laws are judged without data normalization by variance, which is not homogeneous', 'confidence levels of at least one half']
BUDGET = {'quick': 150, 'thorough': 2400}

LAWS = ['scale', 'wscale', 'perm', 'const', 'conf', 'same']


def make_jobs(rng, tier):
    n = 330 if tier == 'quick' else 2200
    jobs = []
    for _ in range(n):
        cs = []
        for _ in range(4):
            c = gen.rand_case(rng, maxpts=40, ndft=(4, 13), ranges=0.1)
            c['params'].setdefault('conf_level', rng.choice([0.5, 0.8, 0.95]))
            if rng.random() < 0.7: c['params'].pop('normalize_data', None)
            c['laws'] = rng.sample(LAWS, 2)
            c['lseed'] = rng.getrandbits(30)
            c['tamper'] = rng.random() < 0.3
            cs.append(c)
        jobs.append(dict(cases=cs))
    return jobs


def variant(c, law, d, w):
    """(data, weights, params, factor on the energies)"""
    g = gen.rs(c['lseed'] + LAWS.index(law))
    p = dict(c['params'])
    W = np.ones(d.shape[1:]) if w is None else w
    nv = d.shape[-1]
    if law == 'scale':
        k = g.choice([2.0, -3.0, 0.25, 100.0, 1 / 3.0])
        if np.iscomplexobj(d) and g.random() < 0.6: k = k * np.exp(1j * g.uniform(0, 6))
        f = 1.0 if p.get('normalize_weights') else abs(k) ** 2
        if p.get('normalize_data'): return None
        return d * k, w, p, f
    if law == 'wscale':
        k = float(g.choice([2.0, 0.1, 37.0]))
        return d, W * k, p, k
    if law == 'perm':
        nt = d.shape[0]
        pi, pv = g.permutation(int(np.prod(d.shape[1:-1]))), g.permutation(nv)
        x = d.reshape(nt, -1, nv)[:, pi][:, :, pv].reshape(d.shape)
        return x, W.reshape(-1, nv)[pi][:, pv].reshape(W.shape), p, 1.0
    if law == 'const':
        if p.get('mean_type', 'longtime').lower() == 'zero' or p.get('normalize_data'): return None
        return d + 3 * g.standard_normal(d.shape[1:]) * np.std(d), (None if p.get('normalize_weights') else w) if False else w, {**p}, None if p.get('normalize_weights') else 1.0
    if law == 'conf':
        p['conf_level'] = 0.5 + 0.5 * (0.2 + 0.7 * g.random())
        return d, w, p, 1.0
    return d.copy(), w, p, 1.0


def run(job, ctx):
    from .. import ops
    from pyspod.spod.utils import check_orthogonality
    res = []
    for i, c in enumerate(job['cases']):
        try:
            d, w = gen.case_arrays(c)
            obj, o = ops.fit('standard', [gen.supplied(d, c)], c['params'], gen.weights_arg(w, c['wform']), None, ctx.path(f'r{i}'))
            o['disk'] = ops.read_folder(o['folder'])
            o['laws'] = {}
            for law in c['laws']:
                v = variant(c, law, d, w)
                if v is None or v[3] is None: continue
                ob, q = ops.fit('standard', [gen.supplied(v[0], c)], v[2], gen.weights_arg(v[1], c['wform']), None, ctx.path(f'r{i}_{law}'))
                o['laws'][law] = dict(eigs=q['eigs'], npz=ops.load_npz(q['folder'] + '/eigs_freq.npz'))
            # the orthogonality check
            import os
            g = gen.rs(c['lseed'] + 99)
            nf, nms = o['eigs'].shape[0], o['n_modes_save']
            o['orth'] = []
            tam = {}
            for k in range(4):
                f = int(g.integers(nf)); m1 = int(g.integers(nms)); m2 = m1 if k == 0 else int(g.integers(nms))
                if c['tamper'] and k >= 2:
                    fn = os.path.join(o['folder'], 'modes', f'freq_idx_{f:08d}.npy')
                    m = np.load(fn)
                    m[..., m1] = m[..., m1] * (1 + 10.0 ** g.uniform(-5, 0)) + (0.1 * g.standard_normal(m.shape[:-1]) if g.random() < 0.5 else 0)
                    np.save(fn, m); tam[f] = m
                form = int(g.integers(3))
                a1, a2 = (m1, m2) if form == 0 else ([m1], [m2]) if form == 1 else (np.int64(m1), np.int64(m2))
                af = f if g.random() < 0.6 else [f]
                ok, O = check_orthogonality(o['folder'], a1, a2, af)
                o['orth'].append((f, m1, m2, bool(np.all(ok)), np.array(O).ravel(), tam.get(f)))
        except Exception as e:
            o = ops.exc_info(e)
        res.append(o)
    return {'res': res}


def judge_one(c, o, viol, ev, tag):
    if 'exc' in o: viol.append(f'{tag}raised {o["exc"]} {o["msg"]} {o["tb"][-300:]}'); return
    d, w = gen.case_arrays(c)
    p = c['params']
    R = ref.Spod(d, w, p, cplx=d.dtype.kind == 'c')
    eps = ref.EPS['single' if p.get('dtype') == 'single' else 'double']
    e = np.asarray(o['eigs'])
    nms = o['n_modes_save']; W1 = R.W1
    if e.shape != (R.nf, R.nb): viol.append(f'{tag}energies {e.shape} instead of {(R.nf, R.nb)}'); return
    if np.iscomplexobj(e) and np.any(e.imag != 0): viol.append(f'{tag}energies are not real')
    e = e.real
    if np.any(e < 0): viol.append(f'{tag}negative energy {e.min():.3g}')
    npz = o['disk']['npz']
    cl = p['conf_level']
    lo, hi = 2 * R.nb / (2 * sc.gammaincinv(R.nb, cl)), 2 * R.nb / (2 * sc.gammaincinv(R.nb, 1 - cl))
    for f in range(R.nf):
        if R.lam[f, 0] <= 1e-250: continue
        t = R.tol(f, eps) * R.mult[f]
        ev['energies'] = ev.get('energies', 0) + R.nb
        if np.any(np.diff(e[f]) > 2 * t): viol.append(f'{tag}energies of frequency {f} not in descending order: {e[f]}')
        tr = np.real(np.trace(R.M[f])) * R.mult[f]
        if not abs(np.sum(e[f]) - tr) <= 2 * R.nb * t: viol.append(f'{tag}energies of frequency {f} sum to {np.sum(e[f]):.12g}, total weighted spectral energy is {tr:.12g}')
        ca, cb = np.abs(npz['eigs_c_l'][f]), np.abs(npz['eigs_c_u'][f])
        rt = 1e-6 * e[f] * hi
        if not (np.all(np.abs(ca - e[f] * lo) <= rt) and np.all(np.abs(cb - e[f] * hi) <= rt)): viol.append(f'{tag}confidence bounds at frequency {f}: {ca[:3]} {cb[:3]}, expected {(e[f] * lo)[:3]} {(e[f] * hi)[:3]} (level {cl}, {R.nb} blocks)')
        m = o['disk']['modes'][f]
        if m is None or m.size != W1.size * nms: viol.append(f'{tag}modes of frequency {f} missing or of the wrong size'); continue
        m = m.reshape(-1, nms)
        good = [i for i in range(nms) if R.lam[f, i] > max(1e-5 * R.lam[f, 0], 100 * R.tol(f, eps))]
        if good:
            G = m[:, good].conj().T @ (W1[:, None] * m[:, good])
            # orthogonality degrades with the ratio of energies only, also between modes of equal energy
            for a in range(len(good)):
                for b in range(a + 1):
                    la, lb = R.lam[f, good[a]], R.lam[f, good[b]]
                    t1 = 3 * (R.tol(f, eps) + 2e4 * eps * R.lam[f, 0])
                    tt = t1 / la if a == b else 2 * t1 / np.sqrt(la * lb)
                    if tt > 0.3: continue
                    ev['inner_products'] = ev.get('inner_products', 0) + 1
                    if not abs(G[a, b] - (a == b)) <= tt: viol.append(f'{tag}modes {good[a]},{good[b]} of frequency {f}: inner product {G[a, b]:.9g} (tolerance {tt:.2g})')
        if len(viol) > 3: return
    for law, q in o['laws'].items():
        v = variant(c, law, d, w)
        R2 = ref.Spod(v[0], v[1], v[2], cplx=d.dtype.kind == 'c')
        e2 = np.abs(np.asarray(q['eigs']))
        if e2.shape != e.shape: viol.append(f'{tag}{law}: energies {e2.shape} instead of {e.shape}'); continue
        for f in range(R.nf):
            if R.lam[f, 0] <= 1e-250: continue
            t = (R.tol(f, eps) * v[3] + R2.tol(f, eps)) * R.mult[f]
            ev[f'law_{law}'] = ev.get(f'law_{law}', 0) + R.nb
            if not np.all(np.abs(e2[f] - v[3] * e[f]) <= 2 * t):
                k = int(np.argmax(np.abs(e2[f] - v[3] * e[f])))
                viol.append(f'{tag}law {law}: energy ({f},{k}) is {e2[f][k]:.10g}, expected {v[3]:.6g} x {e[f][k]:.10g}'); break
        if law == 'conf':
            z, c2 = q['npz'], v[2]['conf_level']
            big = e > 1e-6 * np.max(e)
            wa = np.abs(npz['eigs_c_u']) - np.abs(npz['eigs_c_l']); wb = np.abs(z['eigs_c_u']) - np.abs(z['eigs_c_l'])
            if abs(c2 - cl) > 1e-3 and np.any(big) and not np.all(((wb > wa) if c2 > cl else (wb < wa))[big]): viol.append(f'{tag}confidence interval does not widen from level {min(cl, c2)} to {max(cl, c2)}')
    for f, m1, m2, ok, O, tm in o['orth']:
        mm = (tm if tm is not None else o['disk']['modes'][f]).reshape(-1, nms)
        # tampering accumulates in the order of the calls; the recorded copy is the state at the time of the call
        want = np.sum(mm[:, m1].conj() * W1 * mm[:, m2])
        ev['orthogonality_checks'] = ev.get('orthogonality_checks', 0) + 1
        if O.size != 1: viol.append(f'{tag}orthogonality check returned {O.size} values for one pair'); continue
        # plain sums of products: only rounding
        mag = np.sqrt(np.sum(np.abs(mm[:, m1]) ** 2 * W1) * np.sum(np.abs(mm[:, m2]) ** 2 * W1))
        rt = 1e3 * max(eps, 1e-15) * mag
        if not abs(O[0] - want) <= rt: viol.append(f'{tag}orthogonality check of modes {m1},{m2} of frequency {f} returned {O[0]:.9g}, inner product is {want:.9g}'); continue
        dist = abs(want - (m1 == m2))
        if abs(dist - 2e-6) > rt + 1e-9 and ok != (dist < 2e-6): viol.append(f'{tag}orthogonality check of modes {m1},{m2} of frequency {f} said {ok} although the inner product is {want:.9g}')


def judge(job, obs):
    o = obs[0]
    if 'res' not in o: return {'viol': [f'worker: {o.get("exc")} {o.get("msg")}']}
    viol, ev, sigs = [], {}, []
    for i, (c, r) in enumerate(zip(job['cases'], o['res'])):
        judge_one(c, r, viol, ev, f'case {i} {c["params"]} {c["data"]} {c["weights"]}: ')
        p = c['params']
        sigs.append((tuple(sorted(c['laws'])), p['n_dft'] % 2, p.get('overlap', 0) > 0, p.get('mean_type', 'd').lower(), c['data']['cplx'], p.get('fullspectrum', False), p.get('normalize_weights', False), c['data']['nv'], (c['weights'] or {}).get('kind'), c['tamper']))
    return {'viol': viol[:6], 'events': ev, 'sig': sigs, 'evals': len(o['res']), 'sample': str(job['cases'][0])}
