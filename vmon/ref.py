"""Definitions, computed directly and slowly, against which observed results are compared."""
import numpy as np
import scipy.special as sc

EPS = {'double': 2.3e-16, 'single': 1.2e-7}


def window(n):
    x = np.arange(n)
    return 0.54 - 0.46 * np.cos(2 * np.pi * x / (n - 1))


def segments(nt, n_dft, overlap):
    novl = int(np.ceil(n_dft * overlap / 100))
    nb = (nt - novl) // (n_dft - novl)
    return novl, nb, [i * (n_dft - novl) for i in range(nb)]


def is_one_sided(cplx, p):
    return (not cplx) and not p.get('fullspectrum', False)


def freq_axis(cplx, p):
    n, dt = p['n_dft'], p['time_step']
    k = np.arange(n)
    if is_one_sided(cplx, p): k = np.arange(n // 2 + 1)
    elif not p.get('fullspectrum', False): k = np.where(k > n // 2, k - n, k)
    return k / (n * dt)


def final_weights(d, w, p):
    xs, nv = d.shape[1:-1], d.shape[-1]
    W = np.ones(xs + (nv,)) if w is None else np.array(w, float)
    if p.get('normalize_weights'):
        for i in range(nv): W[..., i] = W[..., i] / np.mean(np.abs(d[..., i] - np.mean(d[..., i])) ** 2)
    return W


def blocks(d, p):
    """Q[b, t, :] prepared blocks before the window, (nb, n_dft, npts)"""
    nt = d.shape[0]; x = d.reshape(nt, -1)
    n = p['n_dft']
    novl, nb, offs = segments(nt, n, p.get('overlap', 0))
    mt = p.get('mean_type', 'longtime').lower()
    out = []
    for o in offs:
        b = x[o:o + n].copy()
        if mt == 'longtime': b = b - x.mean(axis=0)
        if mt == 'blockwise': b = b - b.mean(axis=0)
        if p.get('normalize_data'):
            v = np.sum(np.abs(b - b.mean(axis=0)) ** 2, axis=0) / (n - 1)
            v[v < 4 * np.finfo(float).eps] = 1
            b = b / v
        out.append(b)
    return np.array(out)


def qhat(d, p, cplx):
    """Fourier coefficients (nf, npts, nb)"""
    n = p['n_dft']
    B = blocks(d, p)
    w = window(n)
    nf = len(freq_axis(cplx, p))
    k = np.arange(nf)[:, None]
    F = np.exp(-2j * np.pi * ((k * np.arange(n)[None, :]) % n) / n)   # direct transform, no FFT
    out = np.einsum('ft,btx->fxb', F * w[None, :], B)
    return out / np.mean(w) / n


class Spod:
    def __init__(self, d, w, p, cplx=None):
        cplx = np.iscomplexobj(d) if cplx is None else cplx
        self.p, self.cplx = p, cplx
        self.W = final_weights(d, w, p)
        self.W1 = self.W.reshape(-1)
        self.Q = qhat(d, p, cplx)
        self.nf, _, self.nb = self.Q.shape
        self.freq = freq_axis(cplx, p)
        self.mult = np.ones(self.nf)
        if is_one_sided(cplx, p):
            n = p['n_dft']
            for f in range(self.nf):
                if f != 0 and 2 * f != n: self.mult[f] = 2
        self.M = np.einsum('fxb,x,fxc->fbc', self.Q.conj(), self.W1, self.Q) / self.nb
        self.lam = np.linalg.eigvalsh(self.M)[:, ::-1]          # unfolded
        self.eigs = np.abs(self.lam) * self.mult[:, None]
        self.mean = d.mean(axis=0)
        # energy of the raw blocks: the scale of rounding errors
        novl, nb, offs = segments(d.shape[0], p['n_dft'], p.get('overlap', 0))
        x = np.abs(d.reshape(d.shape[0], -1)) ** 2
        B = blocks(d, p)
        self.E = float(np.sum(x.max(axis=0) * self.W1)) if not p.get('normalize_data') else float(max(np.sum(np.max(np.abs(b) ** 2, axis=0) * self.W1) for b in B)) * 1.0
        if p.get('normalize_data'):
            # dividing by a small variance amplifies the rounding of the mean removal
            raw = blocks(d, {**p, 'normalize_data': False})
            amp = np.max(np.abs(d.reshape(d.shape[0], -1)), axis=0)
            v = np.sum(np.abs(raw - raw.mean(axis=1, keepdims=True)) ** 2, axis=1) / (p['n_dft'] - 1)
            v[v < 4 * np.finfo(float).eps] = 1
            self.E = max(self.E, float(np.max(np.sum((amp ** 2)[None] / v ** 2 * self.W1, axis=1))))

    def tol(self, f, eps, C=2e4):
        l1 = max(self.lam[f, 0], 0)
        return C * eps * (l1 + np.sqrt(self.E * l1) + C * eps * self.E)

    def eig_bounds(self, c):
        nb = self.nb
        xl = 2 * sc.gammaincinv(nb, 1 - c); xu = 2 * sc.gammaincinv(nb, c)
        return xl, xu


def check_modes(phi, M_Q, M_W, lam, nb, eps, tolM, nms, tag, out, C=2e4):
    """phi: (npts, nms) saved modes; M_Q: (npts, nb) Fourier coefficients. Appends complaints."""
    l1 = max(lam[0], 0)
    n = 0
    if l1 <= 0: return 0
    for i in range(min(nms, len(lam))):
        if lam[i] < max(1e-6 * l1, 10 * tolM): continue
        v = phi[:, i]
        if not np.all(np.isfinite(v)): out.append(f'{tag} mode {i} is not finite although its energy is {lam[i]:.3g} of {l1:.3g}'); continue
        amp = np.sqrt(l1 / lam[i])
        r = M_Q @ (M_Q.conj().T @ (M_W * v)) / nb - lam[i] * v
        res = np.sqrt(np.sum(M_W * np.abs(r) ** 2))
        if res > 3 * tolM * amp + C * eps * l1 * amp: out.append(f'{tag} mode {i}: not an eigenvector of the cross-spectral density (residual {res:.3g}, eigenvalue {lam[i]:.6g}, largest {l1:.6g})')
        nn = np.sum(M_W * np.abs(v) ** 2)
        if abs(nn - 1) > 3 * (tolM + C * eps * l1) / lam[i]: out.append(f'{tag} mode {i}: weighted norm {nn:.9g}')
        # zero-weight points: the mode is still the same combination of Fourier coefficients
        r0 = M_Q @ (M_Q.conj().T @ (M_W * v)) / nb
        sc0 = np.sqrt(np.max(np.abs(M_Q) ** 2, axis=1).sum() * l1) / lam[i]
        dev = np.max(np.abs(r0 / lam[i] - v)) if v.size else 0
        if dev > (C * eps + 3 * tolM / l1) * 3 * amp * amp * (1 + sc0) * max(1.0, np.max(np.abs(v)) if v.size else 1): out.append(f'{tag} mode {i}: differs from its own projection by {dev:.3g}')
        for j in range(i):
            if lam[j] < max(1e-6 * l1, 10 * tolM): continue
            ip = np.sum(phi[:, j].conj() * M_W * v)
            t = 3 * (tolM + C * eps * l1) / np.sqrt(lam[i] * lam[j])
            if t < 0.3 and abs(ip) > t: out.append(f'{tag} modes {j} and {i}: inner product {abs(ip):.3g}')
        n += 1
    return n


def same_modes(a, b, W1, lam, relM, tag, out, floor=1e-6):
    """Two sets of modes (npts, nms) of the same energies `lam` agree up to a phase.
    relM: rounding of the energies relative to the largest."""
    n = 0
    if a.shape != b.shape: out.append(f'{tag}: shapes {a.shape} and {b.shape}'); return 0
    l1 = lam[0] if len(lam) else 0
    if l1 <= 0: return 0
    for i in range(min(a.shape[1], len(lam))):
        if lam[i] < max(floor, 100 * relM) * l1: continue
        gaps = [abs(lam[i] - lam[j]) / l1 for j in range(len(lam)) if j != i]
        gap = min(gaps) if gaps else 1.0
        t = 30 * relM / max(gap, 1e-300) * np.sqrt(l1 / lam[i]) + 30 * relM * l1 / lam[i]
        if t > 0.05: continue
        x, y = a[:, i], b[:, i]
        if not (np.all(np.isfinite(x)) and np.all(np.isfinite(y))):
            out.append(f'{tag} mode {i} (energy {lam[i]:.3g} of {l1:.3g}): not finite'); continue
        ip = np.sum(y.conj() * W1 * x)
        if abs(abs(ip) - np.sum(W1 * np.abs(y) ** 2)) > t: out.append(f'{tag} mode {i}: overlap {abs(ip):.6g} instead of {np.sum(W1 * np.abs(y) ** 2):.6g}'); continue
        ph = ip / abs(ip) if abs(ip) > 0 else 1.0
        dev = np.max(np.abs(x - ph * y)) if x.size else 0
        if dev > (t + 1e-12) * 30 * max(1e-300, np.max(np.abs(y)) if y.size else 1): out.append(f'{tag} mode {i}: values differ by {dev:.3g} (largest {np.max(np.abs(y)):.3g})')
        n += 1
    return n


def close(a, b, tol, what, out):
    """Arrays agree in shape and within an absolute tolerance."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: out.append(f'{what}: shape {a.shape} instead of {b.shape}'); return False
    if a.size == 0: return True
    with np.errstate(all='ignore'):
        d = np.abs(a - b)
        bad = ~(d <= tol) & ~(np.isnan(a) & np.isnan(b)) & ~(a == b)
    if bad.any():
        k = np.unravel_index(int(np.argmax(np.where(bad, np.where(np.isnan(d), np.inf, d), -1))), d.shape)
        out.append(f'{what}: {a[k]!r} instead of {b[k]!r} at {tuple(int(x) for x in k)} ({int(bad.sum())} of {a.size} values differ)'); return False
    return True
