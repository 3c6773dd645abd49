"""Direct computation of projection and convolution coefficients; workloads shared by C07, C08 and C20."""
import numpy as np
from . import gen, ref


def rand_fit(rng, maxpts=30, ndft=(4, 10), cplx=None):
    c = gen.rand_case(rng, maxpts=maxpts, ndft=ndft, cplx=cplx)
    p = c['params']
    if c['data']['kind'] in ('masked',): c['data']['kind'] = 'noise'
    if c['weights'] and c['weights']['kind'] == 'zeros': c['weights']['kind'] = 'smooth'
    p['n_modes_save'] = rng.choice([1, 1, 2, 3, 100])
    p.pop('normalize_data', None)
    if rng.random() < 0.85: p.pop('dtype', None)
    return c


def rand_band(rng, nf, dt, n_dft):
    """Arguments selecting frequencies."""
    r = rng.random()
    if r < 0.25: return {}
    if r < 0.5:
        k = rng.randint(1, nf)
        a = rng.randint(0, nf - k)
        return {'freq_idx': list(range(a, a + k))}
    if r < 0.62: return {'freq_idx': sorted(rng.sample(range(nf), rng.randint(1, nf)))}
    if r < 0.65: return {'freq_idx': rng.sample(range(nf), rng.randint(1, nf))}
    if r < 0.72: return {'T_lb': n_dft * dt / 2.0}                   # one bound alone selects everything
    hi = max(1, nf // 2 if nf > n_dft // 2 + 1 else nf - 1)          # positive frequencies
    a = rng.randint(0, hi); b = rng.randint(a, hi)
    fa, fb = max(a, 0.02) / (n_dft * dt), max(b, 0.02) / (n_dft * dt)
    j = lambda: 1 + rng.uniform(-0.04, 0.04) / max(1, n_dft / 4)
    return {'T_lb': 1 / (fb * j()), 'T_ub': 1 / (fa * j())}


def band_ids(args, freq):
    if args.get('freq_idx') is not None: return list(args['freq_idx'])
    if args.get('T_lb') is None or args.get('T_ub') is None: return list(range(len(freq)))
    lo = int(np.argmin(np.abs(freq - 1 / args['T_ub']))); hi = int(np.argmin(np.abs(freq - 1 / args['T_lb'])))
    return list(range(lo, hi + 1))


def time_ids(t, nt):
    if isinstance(t, str): return list(range(0, nt, {'all': 1, 'half': 2, 'quarter': 4, 'tenth': 10, 'hundredth': 100}[t.lower()]))
    return [i % nt for i in t]


def rand_times(rng, nt):
    r = rng.random()
    if r < 0.3: return rng.choice(['all', 'ALL', 'half', 'quarter', 'tenth', 'hundredth', 'Half'])
    if r < 0.6: return sorted(rng.sample(range(nt), rng.randint(1, min(nt, 6))))
    return [rng.randrange(-nt, nt) if rng.random() < 0.3 else rng.randrange(nt) for _ in range(rng.randint(1, 6))]


def check_op(a, phi, W1, x, tol, eps, what, out, ev, raw=None):
    """a: computed coefficients; phi (npts, m) selected modes; x (nt, npts) mean-free data, raw: with their mean (whose rounding is part of the tolerance)."""
    M = phi.conj().T @ (W1[:, None] * phi)
    Q = phi.conj().T @ (W1[:, None] * x.T)
    if a.shape != Q.shape: out.append(f'{what}: coefficients have shape {a.shape} instead of {Q.shape}'); return
    if not np.all(np.isfinite(a)): out.append(f'{what}: coefficients are not finite'); return
    s, V = np.linalg.eigh((M + M.conj().T) / 2)
    sm = s[-1] if len(s) else 0
    if sm <= 0:
        if np.max(np.abs(a), initial=0) > 0 and np.max(np.abs(Q), initial=0) == 0: out.append(f'{what}: nonzero coefficients of zero modes')
        return
    keep = s > tol * sm
    # the cutoff must separate
    noise = 1e3 * eps * sm
    if np.any(np.abs(s - tol * sm) < 0.02 * tol * sm + noise):
        ev['cutoff_ambiguous'] = ev.get('cutoff_ambiguous', 0) + 1
        return
    Vk, sk = V[:, keep], s[keep]
    want = Vk @ ((Vk.conj().T @ Q) / sk[:, None])
    cond = sm / sk[0]
    scale = np.linalg.norm(Q, axis=0) / sm
    t = 2e3 * eps * cond * (np.linalg.norm(want, axis=0) + cond ** 0 * scale) + 1e-300
    # rounding of Q itself is relative to the product of norms
    if raw is not None: x = np.maximum(np.abs(x), np.max(np.abs(raw), axis=0)[None])
    qn = np.sqrt(np.sum(W1 * np.abs(x) ** 2, axis=1)) * np.sqrt(sm)
    t = t + 2e3 * eps * qn / sk[0]
    if np.all(t > 0.05 * np.linalg.norm(want, axis=0)): ev['ill_conditioned'] = ev.get('ill_conditioned', 0) + 1; return
    dev = np.linalg.norm(a - want, axis=0)
    ev['coefficients'] = ev.get('coefficients', 0) + a.size
    if not np.all(dev <= t):
        k = int(np.argmax(dev - t)); out.append(f'{what}: coefficients at time {k} differ by {dev[k]:.3g} (magnitude {np.linalg.norm(want[:, k]):.3g}, tolerance {t[k]:.2g}) from the weighted least-squares ones')
    return cond


def conv_coeffs(phi, W1, x, n_dft, ids, n_fft_axis=None):
    """Definition: phi: list per frequency of (npts, nms); x (nt, npts) mean-free."""
    nt = x.shape[0]; n = n_dft
    h = int(np.ceil(n / 2))
    w = ref.window(n); ww = 1 / np.mean(w)
    pad = np.concatenate([np.zeros((h, x.shape[1])), x, np.zeros((h, x.shape[1]))], axis=0)
    nms = phi[0].shape[1]
    out = np.zeros((len(ids), nt, nms), complex)
    E = np.exp(-2j * np.pi * (np.outer(ids, np.arange(n)) % n) / n) * w[None]
    P = [(p.conj().T * W1[None]) for p in phi]
    for i in range(nt):
        F = E @ pad[i:i + n]
        if i < h - 2: lb, ub = h - i - 1, n
        elif i >= nt - h: lb, ub = 0, nt + h - i - 1
        else: lb = None
        corr = 1.0 if lb is None else np.sqrt((n / ww) / np.sum(w[lb:ub]))
        for j in range(len(ids)): out[j, i] = corr * (P[j] @ F[j])
    return out
