"""C14: frequencies, and where the energy of oscillations appears."""
import numpy as np
from .. import gen, ref

RULE = ('1-3 standing or travelling oscillations at random frequencies of the axis (zero, positive, negative for complex data, Nyquist), random amplitudes, phases, patterns, constant offsets and weights, with random block '
        'lengths, overlaps, time steps and mean removal, decomposed by batch and streaming fits; axis against the definition; energy, place, sign and pattern of the leading mode at every frequency against bounds from the '
        'transform of the window; nearest-frequency requests through the object; distinct: (kind, real or complex, parity, full spectrum, positions of the oscillations)')
ASSUMPTIONS = ['interference between oscillations is bounded by the transform of the window, patterns are compared when the bound separates them', 'streaming values are only compared in position and pattern']
BUDGET = {'quick': 100, 'thorough': 1500}


def rand_case(rng):
    n = rng.randint(4, 40)
    xd = rng.choice([1, 1, 2, 3])
    xs = [rng.randint(1, {1: 20, 2: 5, 3: 3}[xd]) for _ in range(xd)]
    nv = rng.choice([1, 1, 2])
    overlap = rng.choice([0, 0, 50, 75, 25, rng.randint(1, 80)])
    novl = int(np.ceil(n * overlap / 100))
    if novl > n - 1: overlap, novl = 0, 0
    cplx = rng.random() < 0.4
    kind = 'streaming' if rng.random() < 0.15 else 'standard'
    mean = rng.choice(['zero', 'longtime', 'blockwise'])
    nb = rng.randint(2, 6)
    nt = novl + nb * (n - novl) + rng.randint(0, n - novl - 1)
    off = mean != 'zero' and rng.random() < 0.6
    if mean == 'longtime': nt = n * rng.randint(2, 5)     # whole periods: the mean is the offset
    if kind == 'streaming': overlap = 0; mean = 'longtime'; nt = 2 * n + rng.randint(0, n); off = False
    p = dict(time_step=rng.choice([1.0, 0.5, 12, 3.7, 1e-3, 86400, 1e-9, 7]), n_space_dims=xd, n_variables=nv, n_dft=n, overlap=overlap)
    if kind == 'standard': p['mean_type'] = mean
    else: p['n_modes_save'] = rng.choice([1, 2])
    if rng.random() < 0.3: p['fullspectrum'] = True
    lo = 1 if mean != 'zero' and kind == 'standard' else 0
    waves = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if cplx: k = rng.randrange(-(n // 2) + (1 - n % 2), n // 2 + 1)
        else: k = rng.randint(lo, n // 2)
        if rng.random() < 0.1: k = n // 2
        if k == 0 and lo: k = 1
        waves.append(dict(k=k, a=rng.choice([1, 1, 5, 0.3, 20]), kind=rng.choice(['standing', 'travelling', 'random']), seed=rng.getrandbits(30)))
    if kind == 'streaming': waves = [w for w in waves if w['k'] != 0] or [dict(k=1, a=1, kind='random', seed=1)]
    return dict(kind=kind, n=n, nt=nt, xs=xs, nv=nv, cplx=cplx, p=p, waves=waves, off=off, seed=rng.getrandbits(30), wk=rng.choice([None, 'smooth', 'wide', 'const']), dropv=nv == 1 and rng.random() < 0.5,
                req=[rng.uniform(-1.2, 1.2) for _ in range(4)])


def make_jobs(rng, tier):
    return [dict(cases=[rand_case(rng) for _ in range(6)]) for _ in range(220 if tier == 'quick' else 1500)]


def fields(c):
    """The data and its complex amplitude at every integer frequency."""
    sh = tuple(c['xs']) + (c['nv'],)
    n, t = c['n'], np.arange(c['nt'])
    d = np.zeros((c['nt'],) + sh, complex)
    F = {}

    def add(k, f): F[k % n] = F.get(k % n, 0) + f
    for w in c['waves']:
        g = gen.rs(w['seed'])
        if w['kind'] == 'standing': u = g.standard_normal(sh) * np.exp(1j * g.uniform(0, 6.28))
        elif w['kind'] == 'travelling': u = np.exp(1j * np.cumsum(np.full(sh, g.uniform(0.3, 1.5)) , axis=0)) * np.exp(1j * g.uniform(0, 6.28))
        else: u = g.standard_normal(sh) + 1j * g.standard_normal(sh)
        u = w['a'] * u
        e = np.exp(2j * np.pi * ((w['k'] * t) % n) / n).reshape((-1,) + (1,) * len(sh))
        if c['cplx']: d += e * u; add(w['k'], u)
        else: d += np.real(e * u); add(w['k'], u / 2); add(-w['k'], u.conj() / 2)
    if c['off']: d += 5 * gen.rs(c['seed']).standard_normal(sh)
    return (d if c['cplx'] else d.real.copy()), F


def run(job, ctx):
    from .. import ops
    res = []
    for i, c in enumerate(job['cases']):
        try:
            d, _ = fields(c)
            w = gen.make_weights(None if c['wk'] is None else dict(seed=c['seed'], kind=c['wk']), c['xs'], c['nv'])
            obj, o = ops.fit(c['kind'], [d[..., 0] if c['dropv'] else d], c['p'], gen.weights_arg(w, 'shaped'), None, ctx.path(f'r{i}'))
            o['modes'] = ops.read_modes(o['folder'], o['n_freq'])
            fs = np.asarray(obj.freq); o['near'] = []
            for r in c['req']:
                q = r / c['p']['time_step']
                a, k = obj.find_nearest_freq(q)
                b, k2 = obj.find_nearest_freq(q, list(fs[::-1]))
                o['near'].append((float(a), int(k), float(b), int(k2)))
            ch = ops.load_npz(o['folder'] + '/eigs_freq.npz'); o['disk_freq'] = ch['freq']
        except Exception as e: o = ops.exc_info(e)
        res.append(o)
    return {'res': res}


def judge(job, obs):
    o0 = obs[0]
    if 'exc' in o0: return {'viol': [f'{o0["exc"]}: {o0["msg"]} {o0.get("tb", "")[-400:]}']}
    viol, ev, sig = [], {}, []
    for i, (c, o) in enumerate(zip(job['cases'], o0['res'])):
        tag = f'case {i} ({c["kind"]}, block {c["n"]}, dt {c["p"]["time_step"]}): '
        if 'exc' in o: viol.append(f'{tag}raised {o["exc"]}: {o["msg"]} {o["tb"][-400:]}'); continue
        n, p = c['n'], c['p']
        d, F = fields(c)
        W = np.ones(tuple(c['xs']) + (c['nv'],)) if c['wk'] is None else gen.make_weights(dict(seed=c['seed'], kind=c['wk']), c['xs'], c['nv'])
        W1 = W.reshape(-1)
        fa = ref.freq_axis(c['cplx'], p)
        if not ref.close(o['freq'], fa, 1e-12 / p['time_step'], f'{tag}frequencies', viol): continue
        ref.close(o['disk_freq'], o['freq'], 0, f'{tag}saved frequencies', viol)
        nf = len(fa)
        for r, (a, k, b, k2) in zip(c['req'], o['near']):
            q = r / p['time_step']; dd = np.abs(fa - q)
            for v, kk, ax in ((a, k, o['freq']), (b, k2, o['freq'][::-1])):
                if v != ax[kk] or abs(v - q) > dd.min() * (1 + 1e-9) + 1e-12 / p['time_step']: viol.append(f'{tag}nearest frequency to {q} is given as {v} with index {kk}')
        win = ref.window(n); Wh = np.array([abs(np.sum(win * np.exp(-2j * np.pi * q * np.arange(n) / n))) / np.sum(win) for q in range(n)])
        nrm = {k: float(np.sqrt(np.sum(W * np.abs(f) ** 2))) for k, f in F.items()}
        tot = sum(nrm.values()) + (0 if not c['off'] else 5 * float(np.sqrt(np.sum(W))) * 4)
        one = ref.is_one_sided(c['cplx'], p)
        e = np.abs(np.asarray(o['eigs']))
        bins = [k % n for k in range(nf)]
        ups = []
        for k in bins:
            up = sum(nrm[m] * Wh[(k - m) % n] for m in nrm) + 1e-10 * tot
            ups.append(up ** 2 * (2 if one and k != 0 and 2 * k != n else 1))
            if c['kind'] == 'standard' and e[k, 0] > ups[-1] * (1 + 1e-6): viol.append(f'{tag}energy {e[k, 0]:.6g} at frequency {k} exceeds the most {ups[-1]:.6g} that oscillations {[(w["k"], w["a"]) for w in c["waves"]]} can leave there')
        for m, f in F.items():
            if m >= nf: continue
            L = sum(nrm[q] * Wh[(m - q) % n] for q in nrm if q != m) + 1e-10 * tot
            N = nrm[m]; mult = 2 if one and m != 0 and 2 * m != n else 1
            if N <= 2 * L: continue
            ev['peaks'] = ev.get('peaks', 0) + 1
            lo, hi = mult * (N - L) ** 2, mult * (N + L) ** 2
            if c['kind'] == 'standard' and not (lo * (1 - 1e-6) <= e[m, 0] <= hi * (1 + 1e-6)): viol.append(f'{tag}energy {e[m, 0]:.8g} at frequency {m}, between {lo:.8g} and {hi:.8g} expected')
            # nothing elsewhere can be larger than the peak of the strongest
            t = (2 * N * L + L * L) / max((N - L) ** 2 - L * L, 1e-300)
            if t < 0.3:
                phi = o['modes'][m].reshape(W1.size, -1)[:, 0]
                pn = np.sqrt(np.sum(W1 * np.abs(phi) ** 2))
                ip = abs(np.sum(phi.conj() * W1 * f.reshape(-1))) / N
                if c['kind'] == 'standard' and abs(pn - 1) > 1e-6: viol.append(f'{tag}leading mode at frequency {m} has norm {pn}')
                if c['kind'] == 'streaming':     # the running mean of an unfinished period leaks into low frequencies
                    if t > 0.1 or min(m, n - m) < 3 or 2 * m == n: continue
                    if not ip >= 0.9 * pn: viol.append(f'{tag}leading mode at frequency {m} overlaps with the oscillation by {ip:.4g} only')
                elif not ip >= pn * np.sqrt(1 - t * t) - 1e-6: viol.append(f'{tag}leading mode at frequency {m} overlaps with the oscillation by {ip:.6g} only (at least {np.sqrt(1 - t * t):.4g} expected)')
                ev['patterns'] = ev.get('patterns', 0) + 1
        # position of the maximum
        st = [(m, nrm[m] ** 2 * (2 if one and m != 0 and 2 * m != n else 1)) for m in F if m < nf]
        if st:
            m, v = max(st, key=lambda x: x[1])
            L = sum(nrm[q] * Wh[(m - q) % n] for q in nrm if q != m) + 1e-10 * tot
            low = max(nrm[m] - L, 0) ** 2 * (2 if one and m != 0 and 2 * m != n else 1)
            if c['kind'] == 'streaming' and (min(m, n - m) < 3 or 2 * m == n): low = 0
            if all(u < low * (0.98 if c['kind'] == 'standard' else 0.1) for k, u in enumerate(ups) if k != m):
                ev['maxima'] = ev.get('maxima', 0) + 1
                if int(np.argmax(e[:, 0])) != m: viol.append(f'{tag}the largest energy is at frequency {int(np.argmax(e[:, 0]))} instead of {m}')
        sig.append((c['kind'], c['cplx'], n % 2, bool(p.get('fullspectrum')), tuple(sorted('z' if w['k'] == 0 else 'n' if 2 * w['k'] == n else '-' if w['k'] < 0 else '+' for w in c['waves'])), c['off'], p['overlap'] > 0))
        if len(viol) > 5: break
    return {'viol': viol[:6], 'events': ev, 'sig': sig, 'evals': len(job['cases']), 'sample': str(job['cases'][0])[:400]}
