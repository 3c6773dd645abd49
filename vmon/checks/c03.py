"""C03: parallel batch and streaming fits against the serial fit."""
import os
import numpy as np
from .. import gen, ref, par

RULE = ('random SPOD cases (batch 75%, streaming 25%) fitted by 1-7 processes (arrays, or netCDF files read by all processes with one file per mode) with and without delays of communication and file operations; every '
        'process reports its attributes and reads all result files with plain numpy directly after fit returns; process 0 repeats the fit serially; '
        'distinct: (processes, dimensions, variables, parity, options, delay kind, points fewer than processes)')
ASSUMPTIONS = ['all processes on one host, Open MPI', 'delays only slow processes down; a stall is confirmed by running the job again alone']
BUDGET = {'quick': 200, 'thorough': 3000}


def make_case(rng, streaming):
    c = gen.rand_case(rng, maxpts=40, ndft=(4, 12))
    c['nc'] = 0
    if not streaming and not c['data']['cplx'] and rng.random() < 0.3:      # read from files by all processes, modes stored one file each
        c['nc'] = rng.choice([1, 2, 3])
        c['dropv'] = False; c['dform'] = 'c'
        c['data']['nt'] = max(9, c['data']['nt'])
        c['params'].setdefault('n_modes_save', 3)
    p = c['params']
    if rng.random() < 0.3:  # few points
        c['data']['xshape'] = rng.choice([[1], [2], [3], [2, 1], [1, 3], [2, 2], [1, 1, 2]])
        p['n_space_dims'] = len(c['data']['xshape'])
    if streaming:
        for k in ('normalize_data', 'normalize_weights', 'mean_type'): p.pop(k, None)
        if c['data']['kind'] in ('masked',): c['data']['kind'] = 'noise'
        if c['weights'] and c['weights']['kind'] == 'zeros': c['weights']['kind'] = 'smooth'
        p['n_modes_save'] = rng.choice([1, 2, 3])
        p['dtype'] = 'double'
    return c


def make_jobs(rng, tier):
    n = 170 if tier == 'quick' else 3000
    jobs = []
    for i in range(n):
        k = par.rand_np(rng)
        if tier != 'quick' and rng.random() < 0.06: k = rng.choice([9, 12])      # more processes than cores
        st = rng.random() < 0.25
        jobs.append(dict(np=k, kind='streaming' if st else 'standard', case=make_case(rng, st), delay=par.rand_delay(rng, k)))
    return jobs


def run(job, ctx):
    from .. import ops, tracecomm
    c = job['case']
    d, w = gen.case_arrays(c)
    sup = gen.supplied(d, c)
    half = d.shape[0] // 2
    dl = [sup] if job['id'] % 3 else [sup[:half], sup[half:]]
    kw, px, src = {}, {}, dl
    if c['nc']:
        nv, nt = d.shape[-1], d.shape[0]
        e = [nt * j // c['nc'] for j in range(c['nc'] + 1)]
        src = [ctx.path(f'd{j}.nc') for j in range(c['nc'])]
        kw, px = dict(variables=[f'v{j}' for j in range(nv)]), dict(savefreq_disk=False, savefreq_disk2=True)
        if ctx.rank == 0:
            import xarray as xr
            for f, a, b in zip(src, e, e[1:]): xr.Dataset({f'v{j}': (['t'] + [f'x{k}' for k in range(d.ndim - 2)], d[a:b, ..., j]) for j in range(nv)}).to_netcdf(f)
        ctx.sync()
    obj, o = ops.fit(job['kind'], src, {**c['params'], **px}, gen.weights_arg(w, c['wform']), ctx.comm, ctx.path('par'), **kw)
    o['disk'] = ops.read_folder(o['folder'])        # read at once, no synchronization
    o['is_me'] = ctx.rank
    tracecomm.perturb_off()
    if ctx.rank == 0:
        obj, s = ops.fit(job['kind'], dl, c['params'], gen.weights_arg(w, c['wform']), None, ctx.path('ser'))
        s['disk'] = ops.read_folder(s['folder'])
        o['serial'] = s
    return o


def compare_fits(c, a, b, what, viol, ev, streaming=False, relM=None, weights_exact=False, modes=True, layout=True):
    """a: observation to be judged, b: observation to compare with."""
    d, w = gen.case_arrays(c)
    p = c['params']
    eps = ref.EPS['single' if p.get('dtype') == 'single' else 'double']
    if streaming:
        W = np.ones(d.shape[1:]) if w is None else w
        x2 = np.abs(d.reshape(d.shape[0], -1)) ** 2
        E = float(np.sum(x2.max(axis=0) * W.reshape(-1)))
        R = None
    else:
        R = ref.Spod(d, w, p, cplx=d.dtype.kind == 'c'); W = R.W
    W1 = W.reshape(-1)
    for k in ('n_freq', 'n_blocks', 'n_modes', 'n_modes_save', 'nt', 'nx', 'nv', 'xdim', 'xshape', 'n_dft', 'dt', 'dim', 'shape'):
        if k == 'shape' and not layout: continue
        if a.get(k) != b.get(k): viol.append(f'{what}: {k} is {a.get(k)}, expected {b.get(k)}')
    ref.close(a['freq'], b['freq'], 0, f'{what}: frequencies', viol)
    ea, eb = np.abs(np.asarray(a['eigs'])), np.abs(np.asarray(b['eigs']))
    if ea.shape != eb.shape: viol.append(f'{what}: energies {ea.shape} instead of {eb.shape}'); return
    nf = eb.shape[0]
    if 'disk' in a:
        A, B = a['disk'], b['disk']
        if os.path.basename(a['folder']) != os.path.basename(b['folder']): viol.append(f'{what}: folder {os.path.basename(a["folder"])} instead of {os.path.basename(b["folder"])}')
        if layout and A.get('files') != B.get('files'): viol.append(f'{what}: files {sorted(set(A["files"]) ^ set(B["files"]))[:6]} differ')
        za, zb = A.get('npz'), B.get('npz')
        if za is None: viol.append(f'{what}: saved energies missing'); return
        if sorted(za) != sorted(zb): viol.append(f'{what}: saved arrays {sorted(za)} instead of {sorted(zb)}')
        ref.close(za['freq'], b['freq'], 0, f'{what}: saved frequencies', viol)
        ref.close(np.abs(za['eigs']), ea, 0, f'{what}: saved energies differ from reported ones', viol)
        wscale = np.max(np.abs(B['weights'])) if B['weights'].size else 1
        if A.get('weights') is None or A.get('ltm_modes') is None or A.get('params') is None: viol.append(f'{what}: saved files incomplete: {A["files"][:6]}'); return
        if A['weights'].shape != B['weights'].shape: viol.append(f'{what}: saved weights {A["weights"].shape} instead of {B["weights"].shape}')
        elif np.any(np.abs(A['weights'] - B['weights']) > 1e4 * eps * np.abs(B['weights'])): viol.append(f'{what}: saved weights differ by {np.max(np.abs(A["weights"] - B["weights"])):.3g}')
        ref.close(A['ltm_modes'], B['ltm_modes'], 1e3 * eps * (np.max(np.abs(d)) + 1e-300), f'{what}: saved mean', viol)
        pa = {k: v for k, v in A['params'].items() if k not in ('savedir', 'results_folder')}; pb = {k: v for k, v in B['params'].items() if k not in ('savedir', 'results_folder')}
        if layout and pa != pb: viol.append(f'{what}: saved parameters differ: {[(k, pa.get(k), pb.get(k)) for k in sorted(set(pa) | set(pb)) if pa.get(k) != pb.get(k)][:4]}')
    for f in range(nf):
        if streaming:
            l1 = np.max(eb[f]) ** 2; tolE = 1e6 * eps * (np.sqrt(l1) + np.sqrt(E)); lam = np.sort(eb[f])[::-1] ** 2
            if np.sqrt(l1) < 1e-7 * np.sqrt(E): continue
            tl = 1e5 * eps * (1 + np.sqrt(E / l1))
        else:
            l1 = R.lam[f, 0]; lam = R.lam[f]
            if l1 <= 1e-250: continue
            tolE = 4 * R.tol(f, eps); tl = tolE / l1
        ev['energies'] = ev.get('energies', 0) + ea.shape[1]
        dd = np.abs(ea[f] - eb[f])
        if not np.all(dd <= tolE):
            k = int(np.argmax(np.where(np.isfinite(dd), dd, np.inf))); viol.append(f'{what}: energy ({f},{k}) {ea[f][k]:.12g} instead of {eb[f][k]:.12g}'); continue
        if 'disk' in a and not streaming:
            for nme in ('eigs_c_u', 'eigs_c_l'):
                if nme in zb and nme in za and not np.all(np.abs(za[nme][f] - zb[nme][f]) <= 10 * tolE * (1 + np.max(np.abs(zb[nme][f])) / max(np.max(eb[f]), 1e-300))): viol.append(f'{what}: saved {nme} of frequency {f} differ')
        if modes and 'disk' in a:
            ma, mb = a['disk']['modes'][f], b['disk']['modes'][f]
            if ma is None or ma.shape != mb.shape: viol.append(f'{what}: modes of frequency {f} have shape {None if ma is None else ma.shape} instead of {mb.shape}'); continue
            n = ma.shape[-1]
            out = []
            relM = min(tl, 1.0)
            lam_full = lam if not streaming else lam
            ev['modes'] = ev.get('modes', 0) + ref.same_modes(ma.reshape(-1, n), mb.reshape(-1, n), W1, lam_full, relM, f'{what}: frequency {f}', out, floor=1e-6 if not streaming else 1e-4)
            viol.extend(out[:2])
        if len(viol) > 6: break


def judge(job, obs):
    c = job['case']
    viol, ev = par.failures(obs, job), {}
    par.traces(obs, ev)
    if not viol:
        s = obs[0]['serial']
        for r, o in enumerate(obs):
            if c['nc']:
                want = {f'modes/freq_idx_f{f:08d}_m{m:08d}.npy' for f in range(s['n_freq']) for m in range(s['n_modes_save'])}
                got = {f for f in o['disk']['files'] if f.startswith('modes/')}
                if got != want: viol.append(f'process {r} of {len(obs)}: files {sorted(got ^ want)[:4]} missing or unexpected'); break
                ev['mode_files'] = ev.get('mode_files', 0) + len(got)
                o = {**o, 'n_modes': s['n_modes']}
            compare_fits(c, o, s, f'process {r} of {len(obs)}', viol, ev, streaming=job['kind'] == 'streaming', layout=not c['nc'])
            ev['process_results'] = ev.get('process_results', 0) + 1
            if len(viol) > 3: break
    p, dd = c['params'], c['data']
    sg = (len(obs), job['kind'], c['nc'], tuple(dd['xshape']) if np.prod(dd['xshape']) < 5 else len(dd['xshape']), dd['nv'], p['n_dft'] % 2, p.get('overlap', 0) > 0, p.get('fullspectrum'), dd['cplx'], p.get('normalize_weights'),
          p.get('normalize_data'), p.get('dtype'), (job['delay'] or {}).get('fs') is not None, (job['delay'] or {}).get('slow') is not None)
    return {'viol': viol, 'events': ev, 'sig': [sg], 'sample': f'{job["kind"]} np={len(obs)} delay={job["delay"]} {p} {dd}'}
