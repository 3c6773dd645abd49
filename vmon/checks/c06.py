"""C06: saving and reusing Fourier blocks."""
import os, glob
import numpy as np
from .. import gen, ref, par
from .c03 import compare_fits

RULE = ('random batch cases: a fit that saves its Fourier blocks (by 0-4 processes, arrays or netCDF files), optionally after an earlier fit into the same folder without blocks, with blocks of other data or of another number of frequencies, or with blocks of other data and a fit interrupted while it saved its blocks, optionally followed by the loss of some block files, then one or two fits told to '
        'reuse the blocks by another number of processes and with other weights, kept modes or saving options; results are compared with plain serial fits, the block files '
        'with directly computed Fourier coefficients, and must not change when reused; distinct: (processes of each step, loss, variables, dimensions, options)')
ASSUMPTIONS = ['block files are complete or absent, as left by an interrupted run between two files (a half-written block file is not considered)']
BUDGET = {'quick': 200, 'thorough': 3000}


def make_case(rng, k):
    src = 'nc' if k and rng.random() < 0.25 else 'array'
    c = gen.rand_case(rng, maxpts=36, ndft=(4, 11), cplx=False if src == 'nc' else None, nvs=(1, 2, 2, 3))
    p = c['params']
    if src == 'nc':
        c['dropv'] = False
        c['data']['nt'] = max(9, c['data']['nt'])
        p.setdefault('n_modes_save', 3)
    if rng.random() < 0.5: p['savedir_deep'] = True
    c['src'] = src
    c['k1'] = rng.choice(range(0 if src == 'array' else 1, k + 1)) if k else 0
    c['k2'] = rng.choice(range(0 if src == 'array' else 1, k + 1)) if k else 0
    c['loss'] = rng.choice([None, None, None, 'one', 'block', 'freq', 'last', 'some', 'all', 'first'])
    c['save2'] = rng.random() < 0.4
    c['reuse1'] = rng.random() < 0.3            # asking for reuse when there is nothing yet
    c['w2'] = None if rng.random() < 0.5 else dict(seed=rng.getrandbits(30), kind=rng.choice(['smooth', 'const', 'wide']))
    c['nms2'] = rng.choice([None, 1, 2, 100])
    # results of an earlier fit of the same layout: without blocks, with blocks of other data, with blocks of another number of frequencies,
    # with blocks of other data and then an interrupted fit of this data (after which the blocks are asked for)
    c['stale'] = rng.choice([None, None, 'plain', 'blocks', 'full', 'crash'])
    if c['stale'] == 'blocks': c['reuse1'] = False
    if c['stale'] == 'crash': c['k1'] = 0 if src == 'array' else 1; c['reuse1'] = True; c['crash_at'] = rng.choice([0, 1, 2, 3, 5, 8, 13, 20])
    c['full2'] = rng.random() < 0.15        # the fit that reuses wants the other number of frequencies
    c['lseed'] = rng.getrandbits(30)
    p.pop('savedir_deep', None)
    return c


def make_jobs(rng, tier):
    jobs = []
    for _ in range(70 if tier == 'quick' else 1500): jobs.append(dict(cases=[make_case(rng, 0) for _ in range(3)]))
    for _ in range(60 if tier == 'quick' else 1200):
        k = rng.choice([1, 2, 2, 3, 3, 4])
        jobs.append(dict(np=k, cases=[make_case(rng, k) for _ in range(2)], delay=par.rand_delay(rng, k)))
    return jobs


def params2(c):
    p = dict(c['params'])
    if c['nms2'] is not None: p['n_modes_save'] = c['nms2']
    if c['full2']: p['fullspectrum'] = not p.get('fullspectrum', False)
    return p


class Interrupt(Exception): pass


def interrupted(f, j):
    """Runs f with the (j+1)-th saving of a block failing; True if it came to that."""
    import pyspod.utils.parallel as up
    orig, n = up.npy_save, [0]
    def save(comm, path, *a, **k):
        if 'fft_block' in str(path):
            n[0] += 1
            if n[0] > j: raise Interrupt
        return orig(comm, path, *a, **k)
    up.npy_save = save
    try: f()
    except Interrupt: return True
    finally: up.npy_save = orig
    return False


def case2(c):
    return dict(c, params=params2(c), weights=c['w2'] if c['w2'] else c['weights'])


def run(job, ctx):
    from .. import ops, tracecomm
    res = []
    for i, c in enumerate(job['cases']):
        try: res.append(one(ops, tracecomm, c, ctx, ctx.path(f'c{i}'), i))
        except Exception as e:
            if ctx.comm is not None: raise
            res.append(ops.exc_info(e))
    return {'res': res}


def stage(ctx, k, f):
    """Run f(comm) on the first k processes (serially on process 0 if k is 0)."""
    out = None
    if ctx.comm is None: return f(None)
    ctx.sync()
    if k == 0:
        if ctx.rank == 0: out = f(None)
    elif k == ctx.size: out = f(ctx.comm)
    else:
        from mpi4py import MPI
        sub = ctx.comm.Split(0 if ctx.rank < k else MPI.UNDEFINED, ctx.rank)
        if ctx.rank < k:
            out = f(sub); sub.Free()
    ctx.sync()
    return out


def read_blocks(folder):
    return {os.path.basename(f): np.load(f) for f in sorted(glob.glob(os.path.join(folder, 'blocks', '*.npy')))}


def stamp(folder):
    return {os.path.basename(f): os.stat(f).st_mtime_ns for f in sorted(glob.glob(os.path.join(folder, 'blocks', '*')))}


def one(ops, tracecomm, c, ctx, base, i):
    d, w = gen.case_arrays(c)
    c2 = case2(c)
    d2, w2 = gen.case_arrays(c2)
    o = {}
    if c['src'] == 'nc':
        nv = d.shape[-1]
        fn = [base + '_a.nc', base + '_b.nc']
        if ctx.rank == 0:
            import xarray as xr
            h = d.shape[0] // 2
            for f, x in zip(fn, (d[:h], d[h:])): xr.Dataset({f'v{j}': (['t'] + [f'x{a}' for a in range(d.ndim - 2)], x[..., j]) for j in range(nv)}).to_netcdf(f)
        src, kw, px = fn, dict(variables=[f'v{j}' for j in range(nv)]), dict(savefreq_disk=False, savefreq_disk2=True)
    else: src, kw, px = [gen.supplied(d, c)], {}, {}
    out = os.path.join(base)
    if c['stale'] == 'blocks':
        other = [gen.supplied(d[::-1] * -2 + np.max(np.abs(d)), c)] if c['src'] == 'array' else src[::-1]
        stage(ctx, c['k2'], lambda cm: ops.fit('standard', other, {**c['params'], **px, 'savefft': True}, gen.weights_arg(w, c['wform']), cm, out, **kw) and None)
    if c['stale'] == 'plain':
        stage(ctx, c['k2'], lambda cm: ops.fit('standard', [x * 1.0 for x in src] if c['src'] == 'array' else src, {**params2(c), **px}, gen.weights_arg(w2, c['wform']), cm, out, **kw) and None)
    if c['stale'] == 'full':
        stage(ctx, c['k2'], lambda cm: ops.fit('standard', [x * 1.0 for x in src] if c['src'] == 'array' else src, {**c['params'], **px, 'savefft': True, 'fullspectrum': not c['params'].get('fullspectrum', False)}, gen.weights_arg(w2, c['wform']), cm, out, **kw) and None)
    if c['stale'] == 'crash':
        other = [gen.supplied(d[::-1] * -2 + np.max(np.abs(d)), c)] if c['src'] == 'array' else src[::-1]
        stage(ctx, c['k2'], lambda cm: ops.fit('standard', other, {**c['params'], **px, 'savefft': True}, gen.weights_arg(w, c['wform']), cm, out, **kw) and None)
        o['crashed'] = stage(ctx, c['k1'], lambda cm: interrupted(lambda: ops.fit('standard', [x * 1.0 for x in src] if c['src'] == 'array' else src, {**c['params'], **px, 'savefft': True}, gen.weights_arg(w, c['wform']), cm, out, **kw), c['crash_at']))
    def first(cm):
        obj, q = ops.fit('standard', src, {**c['params'], **px, 'savefft': True, **({'reuse_blocks': True} if c['reuse1'] else {})}, gen.weights_arg(w, c['wform']), cm, out, **kw)
        q['disk'] = ops.read_folder(q['folder']); q['blocks'] = read_blocks(q['folder'])
        return q
    o['first'] = stage(ctx, c['k1'], first)
    if ctx.rank == 0 and c['loss']:
        q = o['first']; names = sorted(q['blocks']); g = gen.rs(c['lseed'])
        nb, nf = q['n_blocks'], q['n_freq']
        name = lambda b, f: f'fft_block{b:08d}_freq{f:08d}.npy'
        b, f = int(g.integers(nb)), int(g.integers(nf))
        dele = {'one': [name(b, f)], 'block': [name(b, x) for x in range(nf)], 'freq': [name(x, f) for x in range(nb)], 'last': [name(nb - 1, nf - 1)], 'first': [name(0, 0)],
                'some': [n for n in names if g.random() < 0.4], 'all': names}[c['loss']]
        for n in dele:
            p = os.path.join(q['folder'], 'blocks', n)
            if os.path.exists(p): os.remove(p)
    ctx.sync()
    if ctx.rank == 0: o['stamp0'] = stamp(o['first']['folder'])
    def second(cm):
        obj, q = ops.fit('standard', src, {**params2(c), **px, 'reuse_blocks': True, **({'savefft': True} if c['save2'] else {})}, gen.weights_arg(w2, c['wform']), cm, out, **kw)
        q['disk'] = ops.read_folder(q['folder']); q['blocks'] = read_blocks(q['folder'])
        return q
    o['second'] = stage(ctx, c['k2'], second)
    if ctx.rank == 0:
        o['stamp1'] = stamp(o['first']['folder'])
        if ctx.comm is not None: tracecomm.perturb_off()
        _, q = ops.fit('standard', [d], c['params'], gen.weights_arg(w, c['wform']), None, base + 'p1'); q['disk'] = ops.read_folder(q['folder']); o['plain1'] = q
        _, q = ops.fit('standard', [d], c2['params'], gen.weights_arg(w2, c['wform']), None, base + 'p2'); q['disk'] = ops.read_folder(q['folder']); o['plain2'] = q
    return o


def check_blocks(c, blocks, n_blocks, xs, nv, viol, ev, what, flat, extra=False):
    d, w = gen.case_arrays(c)
    R = ref.Spod(d, w, c['params'], cplx=d.dtype.kind == 'c')
    eps = ref.EPS['single' if c['params'].get('dtype') == 'single' else 'double']
    want = {f'fft_block{b:08d}_freq{f:08d}.npy' for b in range(R.nb) for f in range(R.nf)}
    if not want <= set(blocks) or not extra and set(blocks) != want: viol.append(f'{what}: block files {sorted(set(blocks) ^ want)[:4]} missing or superfluous'); return
    if c['params'].get('normalize_data'):
        amp = np.max(np.abs(d.reshape(d.shape[0], -1)), axis=0)
        raw = ref.blocks(d, {**c['params'], 'normalize_data': False})
        v = np.sum(np.abs(raw - raw.mean(axis=1, keepdims=True)) ** 2, axis=1) / (c['params']['n_dft'] - 1)
        v[v < 4 * np.finfo(float).eps] = 1
        tol = 1e4 * eps * np.max(amp[None] / np.minimum(v, v ** 1.5), axis=0)
    else: tol = 1e4 * eps * np.max(np.abs(d.reshape(d.shape[0], -1)), axis=0)
    for b in range(R.nb):
        for f in range(R.nf):
            a = blocks[f'fft_block{b:08d}_freq{f:08d}.npy']
            ev['blocks'] = ev.get('blocks', 0) + 1
            if a.size != R.Q.shape[1]: viol.append(f'{what}: block {b} frequency {f} holds {a.shape}'); return
            if not flat and a.shape != tuple(xs) + (nv,): viol.append(f'{what}: block {b} frequency {f} has shape {a.shape}'); return
            dev = np.abs(a.reshape(-1) - R.Q[f][:, b])
            if not np.all(dev <= tol + 1e-300): viol.append(f'{what}: block {b} frequency {f} differs from the windowed Fourier coefficients by {dev.max():.3g}'); return


def judge(job, obs):
    viol, ev, sigs = par.failures(obs, job, expect_exc=not job.get('np')), {}, []
    par.traces(obs, ev)
    if viol: return {'viol': viol, 'events': ev, 'sig': []}
    if 'res' not in obs[0]: return {'viol': [f'worker: {obs[0].get("exc")} {obs[0].get("msg")}']}
    for i, c in enumerate(job['cases']):
        o0 = obs[0]['res'][i]
        tag = f'case {i} {c["params"]} {c["data"]} {c["src"]} k1={c["k1"]} k2={c["k2"]} loss={c["loss"]} stale={c["stale"]} nms2={c["nms2"]} full2={c["full2"]}: '
        if 'exc' in o0: viol.append(f'{tag}raised {o0["exc"]} {o0["msg"]} {o0["tb"][-400:]}'); continue
        flat = c['src'] == 'nc'
        for r, ob in enumerate(obs):
            o = ob['res'][i]
            for step, cc, pl in (('first', c, 'plain1'), ('second', case2(c), 'plain2')):
                q = o.get(step)
                if q is None: continue
                q = {**q, 'n_modes': o0[pl]['n_modes']}
                compare_fits(cc, q, o0[pl], f'{tag}{step} fit, process {r}', viol, ev, layout=False)
                ev[step] = ev.get(step, 0) + 1
                if step == 'first' or c['save2'] or not (c['loss'] or c['full2']): check_blocks(cc, q['blocks'], q['n_blocks'], c['data']['xshape'], c['data']['nv'], viol, ev, f'{tag}{step} fit, process {r}', flat, extra=(c['reuse1'] and c['stale'] == 'full') if step == 'first' else (c['full2'] or c['stale'] == 'full'))
                if len(viol) > 3: break
        if o0.get('crashed'): ev['interruptions'] = ev.get('interruptions', 0) + 1
        if not c['loss'] and not c['save2'] and o0['stamp0'] != o0['stamp1']: viol.append(f'{tag}a fit that reuses the blocks rewrote them')
        if c['loss']: ev['losses'] = ev.get('losses', 0) + 1
        sigs.append((c['src'], c['k1'], c['k2'], c['loss'], c['save2'], c['reuse1'], c['stale'], c['full2'], c['w2'] is None, len(c['data']['xshape']), c['data']['nv'], c['data']['cplx']))
        if len(viol) > 4: break
    return {'viol': viol[:5], 'events': ev, 'sig': sigs, 'evals': len(job['cases']), 'sample': str(job['cases'][0])}
