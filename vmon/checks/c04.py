"""C04: streaming SPOD against an independent implementation of the recursion."""
import numpy as np
from .. import gen, ref, par

RULE = ('random streams (real/complex, 1-3 dimensions, 1-3 variables), block lengths, overlaps, weights, kept modes (fewer than, equal to and more than the '
        'number of completed blocks), also long decaying streams, and splits into data sets, in serial and on several processes; oracle: direct Fourier sums of each block with the running '
        'mean at its completion, followed by the exact eigendecomposition of the weighted sum (all blocks kept) or the rank-limited recursion; '
        'distinct: option signature')
ASSUMPTIONS = ['data are finite; weights positive', 'energies below 1e-14 of the block energy are rounding']
BUDGET = {'quick': 150, 'thorough': 2400}


def schedule_ideal(nt, n, novl):
    dn = n - novl
    return [s for s in range(0, nt - n + 1, dn)]


def schedule_code(nt, n, novl):
    """The start times of blocks if an overlap counter is reset relative to the most advanced-behind counter of the
    same instant (the recorded known finding)."""
    dn = n - novl
    nb = int(np.ceil(n / dn))
    t = [-j * dn for j in range(nb)]
    st = [None] * nb
    out = []
    for ti in range(nt):
        fin = None
        for j in range(nb):
            if t[j] == 0: st[j] = ti
            if t[j] == n - 1:
                fin = st[j]
                t[j] = min(t) - dn
            else: t[j] += 1
        if fin is not None: out.append(fin)
    return out


def reference(d, w, p, starts, nms):
    """energies (nf, nms) [square roots], modes list (npts, nms), per-frequency accumulated exact matrix factors"""
    n = p['n_dft']; nt = d.shape[0]
    x = d.reshape(nt, -1); W1 = w.reshape(-1)
    cplx = np.iscomplexobj(d)
    freq = ref.freq_axis(cplx, p); nf = len(freq)
    win = ref.window(n); ww = 1 / np.mean(win)
    one = ref.is_one_sided(cplx, p)
    k = np.arange(nf)[:, None]
    F = np.exp(-2j * np.pi * ((k * np.arange(n)[None]) % n) / n) * win[None] * ww / n
    sq = np.sqrt(W1)
    N = len(starts)
    X = np.zeros((nf, x.shape[1], N), complex)
    for b, s in enumerate(starts):
        te = s + n
        mu = x[:te].mean(axis=0)
        X[:, :, b] = F @ (x[s:te] - mu[None])
    if one:
        for f in range(nf):
            if f != 0 and 2 * f != n: X[f] *= 2
    X *= sq[None, :, None]
    c = np.array([(b + 1) / ((b + 2.0) * (N + 2)) for b in range(1, N + 1)])
    S = np.zeros((nf, nms)); U = []
    for f in range(nf):
        if nms >= N:
            u, s, _ = np.linalg.svd(X[f] * np.sqrt(c)[None], full_matrices=False)
            m = min(nms, len(s)); S[f, :m] = s[:m]
            uu = np.zeros((x.shape[1], nms), complex); uu[:, :m] = u[:, :m]
        else:
            # best rank-limited approximation of the accumulated factors, block by block
            A = np.zeros((x.shape[1], 0), complex)
            for b in range(1, N + 1):
                B = np.hstack([A * np.sqrt((b + 1) / (b + 2.0)), X[f][:, [b - 1]] * np.sqrt((b + 1) / (b + 2.0) ** 2)])
                u, s, _ = np.linalg.svd(B, full_matrices=False)
                A = u[:, :nms] * s[:nms][None]
            m = A.shape[1]
            s = np.linalg.norm(A, axis=0); S[f, :m] = s
            uu = np.zeros((x.shape[1], nms), complex)
            for i in range(m):
                if s[i] > 0: uu[:, i] = A[:, i] / s[i]
        U.append(uu / sq[:, None])
    return S, U, freq, X


def rand_stream(rng, long=True):
    c = gen.rand_case(rng, maxpts=40, ndft=(4, 14))
    p = c['params']
    for k in ('normalize_data', 'normalize_weights', 'mean_type'): p.pop(k, None)
    p['dtype'] = 'double'
    if c['data']['kind'] == 'masked': c['data']['kind'] = 'noise'
    if c['weights'] and c['weights']['kind'] == 'zeros': c['weights']['kind'] = 'smooth'
    if c['weights'] and c['weights']['kind'] == 'wide' and rng.random() < 0.5: c['weights']['kind'] = 'smooth'
    if rng.random() < 0.35:
        p['overlap'] = 0
        c['data']['nt'] = max(c['data']['nt'], 2 * p['n_dft'] + rng.randint(0, p['n_dft']))
    p['n_modes_save'] = rng.choice([1, 2, 3, 4, 8, 50])
    r = rng.random() if long else 1           # long records and long blocks
    if r < 0.05 and p['n_dft'] <= 14: c['data'].update(nt=rng.randint(1000, 1500), xshape=[rng.randint(1, 3) for _ in c['data']['xshape']])
    elif r < 0.09 and p['n_dft'] <= 14:           # modes far apart in energy, through hundreds of updates
        c['data'].update(nt=rng.randint(500, 900), kind='decay', xshape=[rng.randint(2, 3) for _ in c['data']['xshape']]); p['overlap'] = 75; p['n_modes_save'] = rng.choice([4, 8])
    elif r < 0.11:
        p['n_dft'] = rng.choice([256, 257, 260, 300]); p['overlap'] = rng.choice([0, 50, rng.randint(1, 80)])
        c['data'].update(nt=rng.randint(2, 4) * p['n_dft'] + rng.randint(0, 50), xshape=[rng.randint(1, 2) for _ in c['data']['xshape']])
    # splits of the stream into data sets
    nt = c['data']['nt']
    k = rng.choice([1, 1, 2, 3])
    c['splits'] = sorted(rng.sample(range(1, nt), min(k - 1, nt - 1))) if k > 1 else []
    return c


def make_jobs(rng, tier):
    n = 120 if tier == 'quick' else 2400
    jobs = [dict(cases=[rand_stream(rng) for _ in range(4)]) for _ in range(n)]
    m = 24 if tier == 'quick' else 500
    for _ in range(m):
        k = rng.choice([1, 2, 3, 4])
        delay = par.rand_delay(rng, k)
        jobs.append(dict(np=k, cases=[rand_stream(rng, not delay) for _ in range(2)], delay=delay))
    return jobs


def pieces(d, splits):
    e = [0] + list(splits) + [d.shape[0]]
    return [d[a:b] for a, b in zip(e[:-1], e[1:])]


def run(job, ctx):
    from .. import ops
    res = []
    for i, c in enumerate(job['cases']):
        try:
            d, w = gen.case_arrays(c)
            dl = pieces(gen.supplied(d, c), c['splits'])
            if len(dl) == 1 and c['data']['seed'] % 2: dl = dl[0]
            obj, o = ops.fit('streaming', dl, c['params'], gen.weights_arg(w, c['wform']), ctx.comm, ctx.path(f'r{i}'))
            o['disk'] = ops.read_folder(o['folder'])
        except Exception as e:
            if ctx.comm is not None: raise
            o = ops.exc_info(e)
        res.append(o)
    return {'res': res}


def compare(c, o, starts, viol, ev, tag):
    d, w = gen.case_arrays(c)
    p = c['params']
    W = np.ones(d.shape[1:]) if w is None else w
    nms = o['n_modes_save']
    S, U, freq, X = reference(d, W, p, starts, nms)
    W1 = W.reshape(-1)
    e = np.asarray(o['eigs'])
    E = np.sqrt(float(np.sum(np.max(np.abs(d.reshape(d.shape[0], -1)) ** 2, axis=0) * W1)))
    eps = ref.EPS['double']
    if not np.array_equal(o['freq'], freq) and not np.allclose(o['freq'], freq, rtol=1e-12, atol=0): viol.append(f'{tag}frequencies {o["freq"][:3]}.. instead of {freq[:3]}..')
    if e.shape != S.shape: viol.append(f'{tag}values have shape {e.shape} instead of {S.shape}'); return
    modes = o['disk'].get('modes')
    for f in range(S.shape[0]):
        s1 = S[f, 0]
        tol = 1e6 * eps * (s1 + E) + 5e-7 * s1 * (c['data']['kind'] == 'decay' or min(nms, d[0].size) > min(len(starts), d[0].size) or d[0].size < len(starts))
        ev['values'] = ev.get('values', 0) + nms
        dd = np.abs(np.abs(e[f]) - S[f])
        if not np.all(dd <= tol):
            k = int(np.argmax(np.where(np.isfinite(dd), dd, np.inf)))
            viol.append(f'{tag}value ({f},{k}) is {e[f][k]:.12g}, by the recursion {S[f][k]:.12g} ({len(starts)} blocks)'); return
        if np.any(np.diff(np.abs(e[f])) > tol): viol.append(f'{tag}values of frequency {f} not in descending order: {np.abs(e[f])}'); return
        if s1 < 1e-7 * E: continue
        if modes is None or modes[f] is None: viol.append(f'{tag}modes of frequency {f} missing'); return
        want = tuple(c['data']['xshape']) + (c['data']['nv'], nms)
        if modes[f].shape != want: viol.append(f'{tag}modes have shape {modes[f].shape} instead of {want}'); return
        m = modes[f].reshape(-1, nms)
        out = []
        ev['modes'] = ev.get('modes', 0) + ref.same_modes(m, U[f], W1, S[f] ** 2, 1e6 * eps * (1 + E / s1) ** 2, f'{tag}frequency {f}', out, floor=1e-5)
        # orthonormality of everything that carries energy
        good = [i for i in range(nms) if S[f, i] > 1e-6 * s1]
        G = m[:, good].conj().T @ (W1[:, None] * m[:, good])
        ev['orthonormality'] = ev.get('orthonormality', 0) + len(good)
        if good and not np.max(np.abs(G - np.eye(len(good)))) < 1e-8: out.append(f'{tag}modes of frequency {f} are not orthonormal ({np.max(np.abs(G - np.eye(len(good)))):.3g})')
        if out: viol.extend(out[:2]); return
    z = o['disk'].get('npz')
    if z is None or not np.array_equal(np.abs(z['eigs']), np.abs(e)): viol.append(f'{tag}saved values differ from the reported ones')
    ltm = o['disk'].get('ltm_modes')
    mean = d.mean(axis=0)
    if ltm is None: viol.append(f'{tag}saved mean missing')
    else: ref.close(ltm, mean, 1e-11 * (np.max(np.abs(d)) + 1e-300), f'{tag}saved mean', viol)
    ev['streams'] = ev.get('streams', 0) + 1


def judge(job, obs):
    viol, ev, sigs, known = par.failures(obs, job, expect_exc=not job.get('np')), {}, [], []
    par.traces(obs, ev)
    if viol: return {'viol': viol, 'events': ev, 'sig': []}
    for r, ob in enumerate(obs):
        if 'res' not in ob: viol.append(f'{ob.get("exc")} {ob.get("msg")}'); continue
        for i, (c, o) in enumerate(zip(job['cases'], ob['res'])):
            tag = f'process {r} of {len(obs)} case {i} {c["params"]} {c["data"]} splits {c["splits"]}: '
            if 'exc' in o: viol.append(f'{tag}raised {o["exc"]} {o["msg"]} {o["tb"][-300:]}'); continue
            p, d = c['params'], c['data']
            nt, n = d['nt'], p['n_dft']
            novl = int(np.ceil(n * p.get('overlap', 0) / 100))
            a, b = schedule_ideal(nt, n, novl), schedule_code(nt, n, novl)
            out = []
            compare(c, o, a, out, ev, tag)
            if out and a != b:
                out2 = []
                compare(c, o, b, out2, ev, tag)
                if not out2:
                    known.append(('drift', f'n_dft={n} overlap={novl} nt={nt}: blocks start at {b[:5]} instead of {a[:5]}'))
                    out = []
                    ev['drifted_schedules'] = ev.get('drifted_schedules', 0) + 1
                else: out = [out2[0] + '   [neither the regular nor the recorded block schedule explains the values]']
            elif not out: ev['regular_schedules'] = ev.get('regular_schedules', 0) + 1
            viol.extend(out)
            sigs.append((len(obs) if job.get('np') else 0, n % 2, novl, len(d['xshape']), d['nv'], d['cplx'], p.get('fullspectrum', False), p['n_modes_save'], len(c['splits']), d['kind'], (c['weights'] or {}).get('kind'), len(b)))
            if len(viol) > 4: break
    return {'viol': viol, 'known': known, 'events': ev, 'sig': sigs, 'evals': len(job['cases']), 'sample': str(job['cases'][0])}
