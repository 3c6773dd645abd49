"""C16: error norms, nearest lookups, energy spectra."""
import math
import numpy as np
from .. import gen, ref

RULE = ('error norms of random pairs of arrays (1-5 dimensions, sizes from 1 to 2000, real and complex, mixed precisions, memory layouts, signs and magnitudes, labelled), nearest coordinates on random 1-3 dimensional grids '
        '(uniform, irregular, descending, with equidistant requests and requests outside), nearest frequencies of random axes, energy spectra of random signals; oracle: exact sums (math.fsum) of the definitions; '
        'distinct: (function, dimensions, element types, layout)')
ASSUMPTIONS = ['references without zeros for relative errors', 'of equally near coordinates any may be returned']
BUDGET = {'quick': 60, 'thorough': 900}
NORMS = ['l1', 'l2', 'linf', 'l1_rel', 'l2_rel', 'linf_rel']


def make_jobs(rng, tier):
    jobs = []
    for _ in range(120 if tier == 'quick' else 1500):
        q = []
        for _ in range(60):
            fn = rng.choice(['l', 'l', 'l', 'h', 'coords', 'coords', 'freq', 'espec'])
            r = dict(fn=fn, seed=rng.getrandbits(32))
            if fn in ('l', 'h'):
                nd = rng.randint(1, 5)
                sh = [rng.randint(1, {1: 50, 2: 12, 3: 7, 4: 4, 5: 3}[nd]) for _ in range(nd)]
                r.update(shape=sh, dt=rng.choice(['f8', 'f8', 'c16', 'f4', 'i8', 'c8']), dtr=rng.choice(['f8', 'f8', 'c16', 'f4', 'i8']), layout=rng.choice(['C', 'F', 'strided', 'rev', 'xarray']),
                         mag=rng.choice([0, 0, -8, 6]), near=rng.choice([None, None, 'equal', 'close', 'one']), step=rng.choice([1.0, 0.1, 12, 1e-3]), scale=rng.choice([-3, 2, 0.5, 1e4]))
            elif fn == 'coords':
                r.update(shape=[rng.randint(1, 9) for _ in range(rng.randint(1, 3))], grid=rng.choice(['uniform', 'irregular', 'desc', 'int', 'dup']), req=rng.choice(['near', 'on', 'mid', 'out', 'int']), bad=rng.random() < 0.08, viaobj=False)
            elif fn == 'freq':
                r.update(n=rng.randint(1, 30), axis=rng.choice(['one', 'two', 'full', 'list', 'desc']), req=rng.choice(['near', 'on', 'mid', 'out']))
            else: r.update(n=rng.randint(2, 40), cplx=rng.random() < 0.3, dt=rng.choice(['f8', 'f4', 'i8']), kind=rng.choice(['noise', 'sin', 'cos', 'const']))
            q.append(r)
        jobs.append(dict(q=q))
    return jobs


def arr(g, sh, dt, mag):
    a = g.standard_normal(sh) * 10.0 ** mag
    if dt[0] == 'c': a = a + 1j * g.standard_normal(sh) * 10.0 ** mag
    if dt == 'i8': a = np.round(a * 20 / 10.0 ** mag)
    return a.astype(dt)


def pair(r):
    g = gen.rs(r['seed'])
    a, b = arr(g, r['shape'], r['dt'], r['mag']), arr(g, r['shape'], r['dtr'], r['mag'])
    if r['near'] == 'equal': a = b.copy()
    elif r['near'] == 'close' and b.dtype.kind in 'fc': a = (b * (1 + 1e-5 * g.standard_normal(r['shape']))).astype(b.dtype)
    elif r['near'] == 'one': a = b.copy(); a.flat[int(g.integers(0, a.size))] += 3
    return a, b, g


def lay(a, l):
    if l == 'F': return np.asfortranarray(a)
    if l == 'strided': return np.repeat(a, 2, axis=0)[::2]
    if l == 'rev': return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if l == 'xarray':
        import xarray as xr
        return xr.DataArray(a)
    return a


def grid(r):
    g = gen.rs(r['seed'])
    xs = []
    for n in r['shape']:
        if r['grid'] == 'uniform': x = np.linspace(g.uniform(-5, 0), g.uniform(0.1, 5), n)
        elif r['grid'] == 'int': x = np.arange(n) * int(g.integers(1, 4)) - int(g.integers(0, 5))
        else:
            x = np.sort(g.standard_normal(n) * 3)
            if r['grid'] == 'desc': x = x[::-1].copy()
            if r['grid'] == 'dup' and n > 1: x[n // 2] = x[n // 2 - 1]
        xs.append(x)
    co = []
    for x in xs:
        i = int(g.integers(0, len(x)))
        if r['req'] == 'on': co.append(float(x[i]))
        elif r['req'] == 'mid': co.append(float((x[i] + x[(i + 1) % len(x)]) / 2))
        elif r['req'] == 'out': co.append(float(x.max() + 10 if g.random() < 0.5 else x.min() - 10))
        elif r['req'] == 'int': co.append(int(round(float(x[i]))))
        else: co.append(float(g.uniform(x.min() - 1, x.max() + 1)))
    return xs, (tuple(co) if g.random() < 0.5 else np.array(co))


def freqs(r):
    g = gen.rs(r['seed']); n = r['n']; dt = 10.0 ** g.uniform(-3, 2)
    k = np.arange(n)
    if r['axis'] == 'one': k = np.arange(n // 2 + 1)
    if r['axis'] == 'two': k = np.where(k > n // 2, k - n, k)
    f = k / (n * dt)
    if r['axis'] == 'desc': f = f[::-1].copy()
    i = int(g.integers(0, len(f)))
    q = {'on': f[i], 'mid': (f[i] + f[(i + 1) % len(f)]) / 2, 'out': f.max() * 3 + 1, 'near': g.uniform(f.min() - 0.1 / dt, f.max() + 0.1 / dt)}[r['req']]
    if r['req'] == 'mid' and r['seed'] % 2: q += 1e-9 * (f[i] - f[(i + 1) % len(f)])          # just off the middle
    return (f.tolist() if r['axis'] == 'list' else f), float(q)


def signal(r):
    g = gen.rs(r['seed']); n = r['n']
    j = np.arange(n); k = int(g.integers(0, n))
    u = {'noise': g.standard_normal(n), 'sin': np.sin(2 * np.pi * k * j / n) * 3, 'cos': np.cos(2 * np.pi * k * j / n) * 2, 'const': np.full(n, 2.5)}[r['kind']]
    if r['cplx']: return u + 1j * g.standard_normal(n)
    if r['dt'] == 'i8': return np.round(5 * u).astype('i8')
    return u.astype(r['dt'])


def run(job, ctx):
    import pyspod.utils.errors as er, pyspod.utils.postproc as post
    out = []
    for r in job['q']:
        o = {}
        try:
            if r['fn'] in ('l', 'h'):
                a, b, g = pair(r); A, B = lay(a, r['layout']), lay(b, r['layout']); a0, b0 = a.copy(), b.copy()
                if r['layout'] == 'xarray' and r['fn'] == 'l': A, B = a, b
                call = (lambda x, y, t: er.compute_l_errors(x, y, norm_type=t)) if r['fn'] == 'l' else (lambda x, y, t: er.compute_h_errors(x, y, dt=r['step']))
                norms = NORMS if r['fn'] == 'l' else ['h1']
                o['v'] = {t: complex(call(A, B, t)) for t in norms}
                o['sw'] = {t: complex(call(B, A, t)) for t in norms if not t.endswith('rel')}
                o['same'] = bool(np.array_equal(a, a0) and np.array_equal(b, b0))
                if r['fn'] == 'l': o['default'] = complex(er.compute_l_errors(A, B))
                if a.dtype.kind != 'i' and b.dtype.kind != 'i': o['sc'] = {t: complex(call(A * r['scale'], B * r['scale'], t)) for t in norms}
            elif r['fn'] == 'coords':
                xs, co = grid(r); keep = [x.copy() for x in xs]
                sh = tuple(len(x) for x in xs)
                if r['bad']: sh = sh[:-1] + (sh[-1] + 1,)
                try:
                    v, i = post.find_nearest_coords(coords=co, x=xs, data_space_dim=sh)
                    o['v'], o['i'] = [float(y) for y in v], [int(y) for y in i]
                except ValueError: o['refused'] = True
                o['same'] = all(np.array_equal(x, k) for x, k in zip(xs, keep))
            elif r['fn'] == 'freq':
                f, q = freqs(r); keep = np.array(f)
                v, i = post.find_nearest_freq(freq_req=q, freq=f)
                o['v'], o['i'] = float(v), int(i); o['same'] = bool(np.array_equal(np.array(f), keep))
            else:
                u = signal(r); keep = u.copy()
                o['v'] = np.array(post.compute_energy_spectrum(u)); o['same'] = bool(np.array_equal(u, keep))
        except Exception as e:
            import traceback
            o = {'exc': type(e).__name__, 'tb': traceback.format_exc()[-700:]}
        out.append(o)
    return {'out': out}


def norm_def(a, b, t, step, sums=math.fsum):
    a, b = a.astype(complex), b.astype(complex)
    if t == 'h1':
        s = []
        for i in range(1, a.shape[0]):
            d = ((a[i] - a[i - 1]) - (b[i] - b[i - 1])) / step
            s.extend((step * np.abs(d) ** 2).reshape(-1).tolist())
        return math.sqrt(math.fsum(s))
    e = np.abs(a - b).reshape(-1)
    if t.endswith('rel'): e = e / np.abs(b).reshape(-1)
    t = t.split('_')[0]
    if t == 'l1': return math.fsum(e.tolist()) / e.size
    if t == 'l2': return math.sqrt(math.fsum((e ** 2).tolist())) / e.size
    return float(e.max())


def judge(job, obs):
    o = obs[0]
    if 'exc' in o: return {'viol': [f'{o["exc"]}: {o["msg"]} {o.get("tb", "")[-400:]}']}
    viol, ev, sig = [], {}, []
    for n, (r, q) in enumerate(zip(job['q'], o['out'])):
        tag = f'query {n} {r}: '
        if 'exc' in q: viol.append(f'{tag}raised {q["tb"]}'); continue
        if not q['same']: viol.append(f'{tag}changed its input')
        ev[r['fn']] = ev.get(r['fn'], 0) + 1
        if r['fn'] in ('l', 'h'):
            a, b, _ = pair(r)
            eps = 1e-3 if 'f4' in (r['dt'], r['dtr']) or r['dt'] == 'c8' else 1e-9
            low = eps > 1e-6
            m = float(max(np.max(np.abs(a)), np.max(np.abs(b)))) + 1e-300
            zero = np.any(b == 0)
            for t, v in q['v'].items():
                if t.endswith('rel') and zero: continue
                w = norm_def(a, b, t, r['step'])
                # rounding: relative to the errors, plus cancellation of nearly equal values
                base = m * (1e-6 if low else 1e-14)
                if t == 'h1': base = base * math.sqrt(a.size) / math.sqrt(r['step'])
                if t.endswith('rel'): base = base / float(np.min(np.abs(b)))
                ev['norms'] = ev.get('norms', 0) + 1
                if not (abs(v - w) <= (1e-5 if low else 1e-9) * w + base): viol.append(f'{tag}{t} error {v} instead of {w}')
                if r['near'] == 'equal' and v != 0: viol.append(f'{tag}{t} error of equal arrays is {v}')
                if 'sc' in q and not (abs(q['sc'][t] - v * (1 if t.endswith('rel') else abs(r['scale']))) <= (1e-4 if low else 1e-8) * abs(v) * abs(r['scale'] if not t.endswith('rel') else 1) + 10 * base * abs(r['scale'])):
                    viol.append(f'{tag}{t} error of arrays scaled by {r["scale"]} is {q["sc"][t]}, unscaled {v}')
            for t, v in q['sw'].items():
                if not (abs(v - q['v'][t]) <= 1e-5 * abs(v) * (1 if low else 1e-4)): viol.append(f'{tag}{t} error is {q["v"][t]}, with arguments exchanged {v}')
            if 'default' in q and abs(q['default'] - q['v']['l2']) > 0: viol.append(f'{tag}default norm is {q["default"]} instead of l2 {q["v"]["l2"]}')
            sig.append((r['fn'], len(r['shape']), r['dt'], r['dtr'], r['layout'], r['near']))
        elif r['fn'] == 'coords':
            xs, co = grid(r)
            if r['bad']:
                if not q.get('refused'): viol.append(f'{tag}coordinates that do not match the data accepted')
                continue
            if q.get('refused'): viol.append(f'{tag}refused'); continue
            for k, x in enumerate(xs):
                d = np.abs(x - co[k])
                if not (0 <= q['i'][k] < len(x)) or q['v'][k] != float(x[q['i'][k]]) or d[q['i'][k]] > d.min() + 1e-12 * (1 + d.min()):
                    viol.append(f'{tag}direction {k}: coordinate {q["v"][k]} at {q["i"][k]} for {co[k]} among {x.tolist()}')
            if len(q['i']) != len(xs): viol.append(f'{tag}{len(q["i"])} indices')
            sig.append(('coords', len(xs), r['grid'], r['req']))
        elif r['fn'] == 'freq':
            f, qq = freqs(r); f = np.array(f); d = np.abs(f - qq)
            if q['v'] != f[q['i']] or d[q['i']] > d.min() * (1 + 1e-12): viol.append(f'{tag}frequency {q["v"]} at {q["i"]} for {qq} among {f.tolist()}')
            sig.append(('freq', r['axis'], r['req']))
        else:
            u = signal(r); N = len(u)
            j = np.arange(N)
            c = np.array([np.sum(u * np.exp(-2j * np.pi * ((k * j) % N) / N)) / N for k in range(N)])
            e = 0.5 * np.abs(c) ** 2
            w = np.zeros(N // 2)
            for i in range(1, N // 2): w[i] = 0.5 * (e[i] + e[N - i])
            ref.close(q['v'], w, (1e-6 if r['dt'] == 'f4' else 1e-12) * (np.sum(e) + 1e-300), f'{tag}energy spectrum', viol)
            sig.append(('espec', N % 2, r['cplx'], r['kind'], r['dt']))
        if len(viol) > 5: break
    return {'viol': [v[:900] for v in viol[:6]], 'events': ev, 'sig': sig, 'evals': len(job['q']), 'sample': str(job['q'][0])[:300]}
