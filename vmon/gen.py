"""Workload generators: data sets, weights and SPOD parameters from small seeded descriptions.
Used by the workers (to feed the code under test) and by the oracles (to compute what to expect)."""
import numpy as np


def rs(seed):
    return np.random.default_rng(seed)


KINDS = ['noise', 'waves', 'offset', 'scales', 'trend', 'large', 'small', 'masked', 'int', 'tiny', 'huge', 'decay', 'rolled', 'periodic', 'still']


def make_data(s):
    """s: seed, nt, xshape, nv, kind, cplx, [dt] -> array (nt, *xshape, nv) of float64/complex128"""
    g = rs(s['seed'])
    nt, xs, nv = s['nt'], tuple(s['xshape']), s['nv']
    sh = (nt,) + xs + (nv,)
    kind = s.get('kind', 'noise')
    d = g.standard_normal(sh)
    if s.get('cplx'): d = d + 1j * g.standard_normal(sh)
    if kind == 'waves':
        t = np.arange(nt)
        d = 0.3 * d
        for k in range(3):
            w = 2 * np.pi * g.uniform(0.02, 0.48); ph = g.uniform(0, 6.28)
            pat = g.standard_normal(xs + (nv,)); pat2 = g.standard_normal(xs + (nv,))
            sg = 1 if g.random() < 0.5 else -1
            if s.get('cplx'): d = d + (2.0 / (k + 1)) * np.exp(1j * (sg * w * t + ph)).reshape((nt,) + (1,) * (len(xs) + 1)) * (pat + 1j * pat2)
            else:
                c = np.cos(w * t + ph).reshape((nt,) + (1,) * (len(xs) + 1)); q = np.sin(w * t + ph).reshape(c.shape)
                d = d + (2.0 / (k + 1)) * (c * pat + q * pat2)
    elif kind == 'offset':
        d = d + 20 * g.standard_normal(xs + (nv,)) + 5
    elif kind == 'scales':
        d = d * 10.0 ** g.uniform(-2, 2, size=nv)
    elif kind == 'trend':
        d = d + np.linspace(-3, 4, nt).reshape((nt,) + (1,) * (len(xs) + 1)) * g.standard_normal(xs + (nv,))
    elif kind == 'large':
        d = d * 1e4
    elif kind == 'small':
        d = d * 1e-5
    elif kind == 'tiny':
        d = d * 1e-9
    elif kind == 'huge':
        d = d * 1e7
    elif kind == 'decay':           # energies over many decades
        u, q, v = np.linalg.svd(d.reshape(nt, -1), full_matrices=False)
        d = ((u * (q[0] * 10.0 ** -g.uniform(0, 1.5, size=len(q)).cumsum())) @ v).reshape(sh)
    elif kind == 'rolled':          # one period after the other, each shifted along the first axis: energies coincide exactly (symmetric flows, travelling waves)
        n = s.get('period', 1)
        d = np.stack([np.roll(d[t % n], t // n, axis=0) for t in range(nt)])
    elif kind == 'periodic':        # the same block again and again: a single mode
        d = d[np.arange(nt) % s.get('period', 5)]
    elif kind == 'range':           # one strong oscillation on the axis, faint noise: some frequencies carry ten or more decades less than others
        n = s.get('period', 5); k = g.integers(0, n // 2 + 1) * (-1 if s.get('cplx') and g.random() < 0.5 else 1)
        e = np.exp(2j * np.pi * (k * np.arange(nt) % n) / n + 1j * g.uniform(0, 6.28)).reshape((nt,) + (1,) * (len(xs) + 1))
        d = d * 10.0 ** -g.uniform(3, 6.5) + (e if s.get('cplx') else e.real) * g.standard_normal(xs + (nv,))
    elif kind == 'still':           # nothing but a constant field (a round-off-free one), nothing happens
        d = np.broadcast_to(np.round(4 * d[0]), sh) * 1.0
    elif kind == 'masked':
        m = g.random(xs + (nv,)) < 0.3
        m[(0,) * len(xs)] = False
        d = d * np.where(m, 0.0, 1.0) + np.where(m, g.integers(0, 2) * 2.0, 0.0)
    elif kind == 'int':
        d = np.round(5 * d)
    if s.get('cplx') and not np.any(d.imag): d = d + 1j         # complex by value, not only by type
    if s.get('real_until') and s.get('cplx'): d[:s['real_until']] = d[:s['real_until']].real
    return d


def make_weights(s, xshape, nv):
    """s: None | dict(seed, kind) -> array (*xshape, nv) or None (uniform default)"""
    if s is None: return None
    g = rs(s['seed'])
    sh = tuple(xshape) + (nv,)
    k = s['kind']
    if k == 'ones': return np.ones(sh)
    if k == 'const': return np.full(sh, 10.0 ** g.uniform(-3, 3))
    if k == 'smooth': return 0.1 + g.random(sh)
    if k == 'wide': return 10.0 ** g.uniform(-3, 2, size=sh)
    if k == 'faint': return 1e-11 * (0.1 + g.random(sh))
    if k == 'strong': return 1e9 * (0.1 + g.random(sh))
    if k == 'zeros':
        w = 0.1 + g.random(sh); m = g.random(sh) < 0.25; m.flat[0] = False; w[m] = 0; return w
    if k == 'percol':
        return np.ones(sh) * (0.2 + g.random(nv))
    raise ValueError(k)


def weights_arg(w, form):
    """The `weights` argument in one of the accepted forms."""
    if w is None: return None
    if form == 'flat': return {'weights': w.reshape(-1).copy(), 'weights_name': 'flat'}
    a = w.copy()
    if form == 'fortran': a = np.asfortranarray(a)
    if form == 'strided': a = np.repeat(np.repeat(a, 2, axis=0), 2, axis=-1)[::2, ..., ::2]
    if form == 'reversed': a = np.ascontiguousarray(a[::-1, ..., ::-1])[::-1, ..., ::-1]
    if form == 'readonly': a.setflags(write=False)
    return {'weights': a, 'weights_name': form}


def rand_case(rng, cplx=None, small=False, maxpts=60, xdims=(1, 2, 3), nvs=(1, 1, 2, 3), ndft=(4, 17), bigs=0.1, ranges=0.0):
    """A random standard SPOD case (all entries plain data)."""
    xd = rng.choice(xdims)
    while True:
        xs = [rng.randint(1, {1: 30, 2: 8, 3: 5}[xd]) for _ in range(xd)]
        nv = rng.choice(nvs)
        if int(np.prod(xs)) * nv <= maxpts: break
    n = rng.randint(*ndft)
    big = rng.choice(['points', 'points', 'block', 'blocks', 'vars', 'dims', 'long']) if rng.random() < bigs else None     # beyond the usual sizes
    if big == 'dims' and len(xdims) == 1: big = 'points'        # (MATLAB files have three)
    if big == 'points':
        xs = {1: [rng.randint(200, 3000)], 2: [rng.randint(10, 60), rng.randint(10, 60)], 3: [rng.randint(3, 16) for _ in range(3)]}[xd]
    elif big == 'block': n = rng.choice([32, 33, 64, 100, 127, 128, 200, 257])
    elif big == 'long': n = rng.randint(4, 9); xs = [rng.randint(1, 4) for _ in xs]; nv = min(nv, 2)
    elif big == 'vars': xs = [rng.randint(1, 4) for _ in xs]; nv = rng.randint(4, 9)
    elif big == 'dims': xd = 4; xs = [rng.randint(1, 3) for _ in range(4)]
    overlap = rng.choice([0, 0, 25, 50, 50, 75, rng.randint(1, 90), round(rng.uniform(0, 90), 1)])
    novl = int(np.ceil(n * overlap / 100))
    if novl > n - 1: overlap, novl = 50, int(np.ceil(n * 50 / 100))
    dn = n - novl
    nb = rng.randint(2, 9) if big not in ('blocks', 'long') else rng.randint(10, 40) if big == 'blocks' else rng.randint(60, 160)
    nt = novl + nb * dn + rng.randint(0, dn - 1)
    c = rng.random() < 0.3 if cplx is None else cplx
    p = dict(time_step=rng.choice([1.0, 0.5, 0.1, 12, 3.7, 1e-3]), n_space_dims=xd, n_variables=nv, n_dft=n, overlap=overlap,
             mean_type=rng.choice(['longtime', 'longtime', 'blockwise', 'zero', 'Longtime', 'BLOCKWISE']),
             n_modes_save=rng.choice([1, 2, 3, nb, nb, 100]) if big not in ('blocks', 'long') else rng.choice([2, 12, 100]))
    if rng.random() < 0.2: del p['n_modes_save']
    if rng.random() < 0.25: p['fullspectrum'] = True
    if rng.random() < 0.2: p['normalize_data'] = True
    if rng.random() < 0.25: p['normalize_weights'] = True
    if rng.random() < 0.15: p['dtype'] = 'single'
    if rng.random() < 0.5: p['conf_level'] = rng.choice([0.5, 0.9, 0.95, 0.99])
    if rng.random() < 0.15: del p['mean_type']
    if overlap == 0 and rng.random() < 0.5: del p['overlap']
    kind = rng.choice(KINDS)
    if ranges and rng.random() < ranges: kind = 'range'
    if p.get('normalize_weights') and kind in ('masked', 'still'): kind = 'noise'
    if kind == 'rolled':
        if big: kind = 'waves'
        else: p.pop('overlap', None); xs = [rng.randint(2, 9)] + [rng.randint(1, 2) for _ in xs[1:]]; nt = n * xs[0]
    wk = rng.choice([None, 'ones', 'const', 'smooth', 'smooth', 'wide', 'zeros', 'percol', rng.choice(['faint', 'strong'])])
    if kind == 'rolled': wk = rng.choice([None, 'ones', 'const', wk])
    return dict(data=dict(seed=rng.getrandbits(32), nt=nt, xshape=xs, nv=nv, kind=kind, cplx=c, **({'period': n} if kind in ('rolled', 'periodic', 'range') else {})), params=p,
                weights=None if wk is None else dict(seed=rng.getrandbits(32), kind=wk), wform=rng.choice(['shaped', 'shaped', 'shaped', 'flat', 'flat', 'fortran', 'strided', 'reversed', 'readonly']),
                dform=('int' if kind == 'int' and not c and rng.random() < 0.5 else rng.choice(['c', 'c', 'c', 'c', 'fortran', 'strided', 'reversed', 'readonly'])),
                dropv=(nv == 1 and rng.random() < 0.5))


def sibling(rng, c):
    """Another case whose results belong into the same folder: same segmentation and precision, other data, weights, sizes and options."""
    import copy
    o = copy.deepcopy(c)
    p, d = o['params'], o['data']
    n = p['n_dft']; dn = n - int(np.ceil(n * p.get('overlap', 0) / 100))
    nb = (d['nt'] - (n - dn)) // dn
    d.update(seed=rng.getrandbits(32), nt=(n - dn) + nb * dn + rng.randint(0, dn - 1))
    if rng.random() < 0.4:
        d['xshape'] = [max(1, x + rng.randint(-2, 3)) for x in d['xshape']]
    if rng.random() < 0.5: p['time_step'] = rng.choice([1.0, 0.5, 0.1, 12, 3.7, 1e-3])
    if 'n_modes_save' in p and rng.random() < 0.6: p['n_modes_save'] = rng.choice([1, 2, 3, 100])
    if rng.random() < 0.5: o['weights'] = dict(seed=rng.getrandbits(32), kind=rng.choice(['ones', 'const', 'smooth', 'wide', 'percol', 'faint', 'strong']))
    return o


def case_arrays(c):
    d = make_data(c['data'])
    w = make_weights(c['weights'], c['data']['xshape'], c['data']['nv'])
    return d, w


def supplied(d, c):
    """The data array as handed to the code: optionally without the axis of a single variable, in one of several memory layouts
    and, where the values allow it, as integers."""
    d = d[..., 0] if c.get('dropv') else d
    f = c.get('dform')
    if f == 'fortran': return np.asfortranarray(d)
    if f == 'strided': return np.repeat(np.repeat(d, 2, axis=0), 2, axis=-1)[::2, ..., ::2]
    if f == 'reversed': return np.ascontiguousarray(d[::-1, ..., ::-1])[::-1, ..., ::-1]
    if f == 'readonly': d = d.copy(); d.setflags(write=False); return d
    if f == 'int' and d.dtype.kind == 'f' and np.all(d == np.round(d)): return d.astype(np.int64)
    return d
