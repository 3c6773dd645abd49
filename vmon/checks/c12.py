"""C12: computations leave their inputs, earlier results and each other alone."""
import os, hashlib
import numpy as np
from .. import gen, ref, coef, par

RULE = ('random histories of 5-10 calls (fits by new and by the same objects, coefficients, reconstructions, orthogonality checks, loading and then overwriting loaded arrays, plots) over 2-3 contexts '
        'in different folders, serially and by 2-3 processes; after every call all inputs, the working directory and a digest of every file below the scratch folder are compared with their '
        'state before the call, changed files must belong to the call, and every repeated fit is compared with the first; a fit over results of other data is compared with a fit into an empty folder; '
        'distinct: (kinds of calls in order pairs, processes)')
ASSUMPTIONS = ['a call may write in the result folder of its fit (fit), the coefficient folder it returns (coefficients), the file it returns (reconstruction), the named figure (plots)',
               'results of deterministic repetition agree within rounding (threads of the linear algebra library)']
BUDGET = {'quick': 150, 'thorough': 2400}
PLOTS = ['eigs', 'freq', 'period', '2dmode', 'tracer', '2ddata', 'datatracer']


def make_ctx(rng, k, np_):
    kind = rng.choice(['standard', 'standard', 'streaming', 'pod'])
    c = gen.rand_case(rng, maxpts=24, ndft=(4, 9), xdims=(1, 2, 2))
    p = c['params']
    if c['weights'] and c['weights']['kind'] == 'zeros': c['weights']['kind'] = 'smooth'
    if c['data']['kind'] in ('masked', 'small', 'large', 'tiny', 'huge'): c['data']['kind'] = 'waves'
    p.pop('dtype', None)
    if kind == 'streaming':
        for q in ('normalize_data', 'normalize_weights', 'mean_type'): p.pop(q, None)
        p['n_modes_save'] = rng.choice([1, 2, 3])
    if kind == 'pod':
        c['data']['cplx'] = False
        for q in ('normalize_data', 'n_dft', 'overlap', 'fullspectrum', 'conf_level'): p.pop(q, None)
        if p.get('mean_type', '').lower() == 'blockwise': p['mean_type'] = 'longtime'
        p['n_modes_save'] = rng.choice([1, 2, 3, 4, 100])
    if kind == 'standard':
        if rng.random() < 0.3: p['savefft'] = True
        if not p.get('savefft') and rng.random() < 0.2: p['reuse_blocks'] = True
    c.update(kind=kind, folder=f'ctx{k}', form=rng.choice(['array', 'list', 'list2', 'xarray']))
    return c


def make_jobs(rng, tier):
    jobs = []
    for i in range(200 if tier == 'quick' else 2500):
        np_ = 0 if i % 7 else rng.choice([2, 3])
        ctxs = [make_ctx(rng, k, np_) for k in range(rng.choice([2, 2, 3]))]
        steps = []
        for _ in range(rng.randint(5, 10)):
            k = rng.randrange(len(ctxs)); c = ctxs[k]
            acts = ['fit', 'fit', 'refit_same', 'other_same', 'other_same', 'overwrite']
            if c['kind'] != 'pod': acts += ['coeffs', 'conv', 'orth', 'getmodes', 'getall', 'plot', 'recon', 'attrs']
            else: acts += ['podcoeffs', 'podcoeffs', 'plot', 'recon', 'attrs']
            if np_: acts = [a for a in acts if a != 'plot']
            steps.append(dict(k=k, act=rng.choice(acts), seed=rng.getrandbits(30), plot=rng.choice(PLOTS), band=None, f=rng.random()))
        j = dict(ctxs=ctxs, steps=steps)
        if np_: j.update(np=np_, delay=par.rand_delay(rng, np_))
        jobs.append(j)
    return jobs


def dig(a):
    a = np.asarray(a)
    return (a.shape, str(a.dtype), a.flags.writeable, hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest())


def tree(root):
    out = {}
    for dp, dn, fs in os.walk(root):
        for x in fs:
            p = os.path.join(dp, x)
            with open(p, 'rb') as f: out[os.path.relpath(p, root)] = hashlib.sha1(f.read()).hexdigest()
        for x in dn: out[os.path.relpath(os.path.join(dp, x), root) + '/'] = ''
    return out


def pieces(d, c):
    x = gen.supplied(d, c)
    if c['form'] == 'xarray':
        import xarray as xr
        x = xr.DataArray(x, dims=['t'] + [f'x{i}' for i in range(x.ndim - 1)])
    if c['form'] == 'array': return x
    if c['form'] == 'list2': h = max(1, len(d) // 2); return [x[:h], x[h:]]
    return [x]


def digest_list(l):
    if isinstance(l, list): return [(id(a), dig(a)) for a in l]
    return dig(l)


def other(c, kind):
    """The case with other data: same size ('same') or longer ('longer')."""
    o = dict(c); o['data'] = dict(c['data'], seed=c['data']['seed'] ^ 0x5a5a5a)
    if kind == 'longer': o['data']['nt'] = c['data']['nt'] * 2 + 3
    if kind == 'shorter' and c['kind'] == 'pod': o['data']['nt'] = 2
    elif kind == 'shorter':
        n = c['params']['n_dft']; novl = int(np.ceil(n * c['params'].get('overlap', 0) / 100))
        o['data']['nt'] = novl + 2 * (n - novl)
    return o


def run(job, ctx):
    from .. import ops
    import copy, yaml, shutil
    from pyspod.spod.standard import Standard
    from pyspod.spod.streaming import Streaming
    from pyspod.pod.standard import Standard as PodStandard
    import pyspod.spod.utils as su, pyspod.pod.utils as pu, pyspod.utils.postproc as post
    import matplotlib.pyplot as plt
    cwd = ctx.path('cwd'); root = ctx.path('w')
    if ctx.rank == 0: os.makedirs(cwd, exist_ok=True); os.makedirs(root, exist_ok=True)
    ctx.sync(); os.chdir(cwd)
    cls = dict(standard=Standard, streaming=Streaming, pod=PodStandard)
    st = []
    for c in job['ctxs']:
        d, w = gen.case_arrays(c)
        s = dict(c=c, d=d, w=gen.weights_arg(w, c['wform']), obj=None, fits=[], coeffs=None, last=None, params={**c['params'], 'savedir': os.path.join(root, c['folder'])})
        s['list'] = pieces(d, c)
        st.append(s)
    extra = {}       # other data: kept alive and watched as well

    def inputs():
        o = {}
        for i, s in enumerate(st):
            o[f'data {i}'] = (dig(s['d']), digest_list(s['list']))
            o[f'weights {i}'] = None if s['w'] is None else (sorted(s['w']), dig(s['w']['weights']), s['w']['weights_name'])
            o[f'params {i}'] = repr(s['params'])
        for k, v in extra.items(): o[k] = dig(v)
        return o

    def make(s, folder=None):
        p = s['params'] if folder is None else {**s['params'], 'savedir': folder}
        return cls[s['c']['kind']](params=p, weights=s['w'], comm=ctx.comm)

    def observe(obj, s):
        f = ops.pod_folder(obj) if s['c']['kind'] == 'pod' else obj.savedir_sim
        ctx.sync()
        if s['c']['kind'] == 'pod':
            r = dict(eigs=np.array(obj.eigs), folder=f, nms=int(obj.n_modes_save), files=sorted(x for x in os.listdir(f) if x not in ('coeffs', 'figures')))
            for n in ('modes', 'weights'): r[n] = np.load(os.path.join(f, n + '.npy'))
            r['eigs_disk'] = ops.load_npz(os.path.join(f, 'eigs.npz'))['eigs']
        else:
            r = {**ops.attrs(obj), 'disk': ops.read_folder(f)}
            r['disk']['files'] = [x for x in r['disk']['files'] if not x.startswith(('coeffs', 'fig'))]
        ctx.sync()
        return f, r

    log = []
    plots = 0
    for n, q in enumerate(job['steps']):
        s = st[q['k']]; c = s['c']; g = gen.rs(q['seed'])
        act = q['act']
        if act not in ('fit', 'overwrite', 'refit_same', 'other_same') and s['last'] is None: act = 'fit'
        if act in ('refit_same', 'other_same') and s['obj'] is None: act = 'fit'
        if act == 'recon' and not s['coeffs']: act = 'podcoeffs' if c['kind'] == 'pod' else 'coeffs'
        if act == 'plot' and (plots >= 2): act = 'orth' if c['kind'] != 'pod' else 'attrs'
        how = 'longer' if q['f'] < 0.3 else 'shorter' if q['f'] < 0.65 else 'same'
        if act == 'other_same': extra[f'other {n}'] = gen.supplied(gen.make_data(other(c, how)['data']), c)
        if act == 'overwrite': extra[f'other {n}'] = gen.supplied(gen.make_data(other(c, 'same')['data']), c)
        if act in ('coeffs', 'conv', 'podcoeffs'):
            x = g.standard_normal((int(g.integers(1, 9)) + (c['kind'] == 'pod'),) + s['d'].shape[1:]) * 3 + 1
            if q['f'] < 0.4: x = x.astype(['f4', 'i8', 'f4', 'c16'][int(q['f'] * 10)])
            extra[f'x {n}'] = gen.supplied(x, c)
        ctx.sync()
        before, files = inputs(), tree(ctx.dir)
        ctx.sync()
        r = dict(act=act, k=q['k'], allow=[])
        loaded = None
        if act == 'fit':
            s['obj'] = make(s)
            s['obj'].fit(s['list'])
            s['last'], o = observe(s['obj'], s)
            s['fits'].append(('a new object', o)); r['allow'] = [s['last']]
        elif act == 'refit_same':
            s['obj'].fit(s['list'])
            s['last'], o = observe(s['obj'], s)
            s['fits'].append(('the same object', o)); r['allow'] = [s['last']]
        elif act == 'other_same':
            # other data of another length by the same object, in the folder of another number of blocks; then the first data again
            x = extra[f'other {n}']
            s['obj'].fit([x])
            f1, o1 = observe(s['obj'], s)
            s['fits'].append(('other' , o1, how))
            if q['seed'] % 2:           # results of the other data are used before those of the first replace them
                y = g.standard_normal((4,) + s['d'].shape[1:])
                _, cd = pu.compute_coeffs_op(y, f1, comm=ctx.comm) if c['kind'] == 'pod' else su.compute_coeffs_op(y, f1, freq_idx=[0], comm=ctx.comm) if q['seed'] % 4 == 1 else su.compute_coeffs_conv(y, f1, freq_idx=[0], comm=ctx.comm)
                r['allow'].append(cd)
                if s['coeffs'] and s['coeffs'][0] == cd: s['coeffs'] = (cd, 4)
                if c['kind'] != 'pod' and ctx.rank == 0: post.get_modes_at_freq(f1, 0); post.get_all_modes(f1)
                ctx.sync()
            s['obj'].fit(s['list'])
            s['last'], o = observe(s['obj'], s)
            s['fits'].append(('the same object after other data', o)); r['allow'] += [s['last'], f1]
        elif act == 'overwrite':
            fd = os.path.join(root, f'over{n}')
            make(s, fd).fit([extra[f'other {n}']])
            ob = make(s, fd)
            ob.fit(s['list'])
            _, o = observe(ob, s)
            s['fits'].append(('a fit over results of other data', o)); r['allow'] = [fd]
        elif act in ('coeffs', 'conv', 'podcoeffs'):
            x = extra[f'x {n}']
            xin = x

            def coeffs(at):
                if act == 'podcoeffs':
                    return s['obj'].compute_coeffs_op(xin, at) if q['f'] < 0.5 else pu.compute_coeffs_op(xin, at, comm=ctx.comm)
                if act == 'coeffs':
                    nf = int(s['obj'].n_freq)
                    return (s['obj'].compute_coeffs_op(xin, at) if q['f'] < 0.5 else
                            su.compute_coeffs_op(xin, at, freq_idx=[int(q['f'] * nf) % nf], comm=ctx.comm))
                return su.compute_coeffs_conv(xin, at, freq_idx=[0], comm=ctx.comm)
            if q['seed'] % 2:
                # the same from a copy of the results under a name that was never used
                cp = os.path.join(root, f'copy{n}')
                if ctx.rank == 0: shutil.copytree(s['last'], cp, ignore=shutil.ignore_patterns('coeffs*', 'fig*'))
                ctx.sync()
                f, _ = coeffs(cp); r['allow'] = [cp]
                ctx.sync()
                r['fresh'] = [np.load(f)]
                ctx.sync()
            f, cd = coeffs(s['last'])
            s['coeffs'] = (cd, x.shape[0]); r['allow'].append(cd)
            ctx.sync()
            if 'fresh' in r: r['fresh'].append(np.load(f))
        elif act == 'recon':
            cd, nt = s['coeffs']
            fn = None
            if c['kind'] == 'pod': f, _ = pu.compute_reconstruction(cd, [0, nt - 1], comm=ctx.comm)
            else: f, _ = su.compute_reconstruction(cd, 'all', comm=ctx.comm, **({'filename': 'again'} if q['f'] < 0.5 else {}))
            r['allow'] = [f]
            ctx.sync()
        elif act == 'orth':
            su.check_orthogonality(s['last'], 0, 0, 0, comm=ctx.comm)
        elif act in ('getmodes', 'getall', 'attrs') and (ctx.rank == 0 or ctx.world is None):
            fi = int(q['f'] * getattr(s['obj'], 'n_freq', 1))
            if act == 'getmodes': rd = lambda: (s['obj'].get_modes_at_freq(fi) if q['f'] < 0.7 else post.get_modes_at_freq(s['last'], fi))
            elif act == 'getall': rd = lambda: post.get_all_modes(s['last'])
            elif c['kind'] == 'pod': rd = lambda: post.get_data_from_file(os.path.join(s['last'], 'modes.npy'))
            else: rd = lambda: post.get_data_from_file(os.path.join(s['last'], 'weights.npy'))
            a = rd(); keep = np.array(a)
            ref_ = np.load(os.path.join(s['last'], 'modes.npy' if c['kind'] == 'pod' else 'weights.npy')) if act == 'attrs' else None
            if c['kind'] != 'pod' and act != 'attrs':
                al = [x for x in ops.read_modes(s['last'], int(s['obj'].n_freq))]
                ref_ = al[fi] if act == 'getmodes' else np.array(al)
            r['loaded'] = bool(np.array_equal(np.array(keep), np.array(ref_), equal_nan=True))
            try:
                a[...] = a * 3 + 7; r['modified'] = True
                if hasattr(a, 'flush'): a.flush()
            except ValueError as e: r['modified'] = 'refused'
            del a
            r['reload'] = bool(np.array_equal(keep, np.array(rd()), equal_nan=True))
        elif act == 'plot':
            plots += 1
            fd = os.path.join(s['last'], 'figures'); os.makedirs(fd, exist_ok=True)
            files = tree(ctx.dir)
            ob, kind = s['obj'], q['plot']
            if c['kind'] == 'pod': post.plot_eigs(np.array(ob.eigs), path=fd, filename='fig.png')
            else:
                fr = np.array(ob.freq); extra[f'freq {n}'] = fr; extra[f'eigs {n}'] = eg = np.array(ob.eigs)
                xs = s['d'].shape[1:-1]
                if kind in ('2dmode', '2ddata') and (len(xs) != 2 or min(xs) < 2): kind = 'tracer'
                if kind in ('tracer', 'datatracer') and min(xs) < 2: kind = 'eigs'
                co = [np.linspace(0, 1, v) for v in xs]
                for i, v in enumerate(co): extra[f'coord {n} {i}'] = v
                before = inputs()
                pt = [tuple(v[-1] for v in co)]
                if kind == 'eigs': post.plot_eigs(eg, path=fd, filename='fig.png')
                elif kind == 'freq': post.plot_eigs_vs_frequency(eg, freq=fr, path=fd, filename='fig.png')
                elif kind == 'period': post.plot_eigs_vs_period(eg, freq=fr, path=fd, filename='fig.png')
                elif kind == '2dmode': post.plot_2d_modes_at_frequency(s['last'], freq_req=fr[1], freq=fr, x1=co[1], x2=co[0], imaginary=q['f'] < 0.5, path=fd, filename='fig.png')
                elif kind == 'tracer': post.plot_mode_tracers(s['last'], freq_req=fr[1], freq=fr, coords_list=pt, x=co, path=fd, filename='fig.png')
                elif kind == '2ddata': post.plot_2d_data(s['d'].real, time_idx=[0], x1=co[1], x2=co[0], path=fd, filename='fig.png')
                else: post.plot_data_tracers(s['d'], coords_list=pt, x=co, time_limits=[0, len(s['d'])], path=fd, filename='fig.png')
            plt.close('all')
            r['allow'] = [fd]; r['plot'] = kind
        ctx.sync()
        after = inputs(); now = tree(ctx.dir)
        ctx.sync()
        r['inputs'] = [k for k in before if after.get(k) != before[k]]
        r['cwd'] = os.getcwd() == os.path.realpath(cwd)
        ch = [k for k in set(files) | set(now) if files.get(k) != now.get(k)]
        allow = [os.path.relpath(a, ctx.dir) for a in r['allow']]
        # folders above a result folder may be created with it
        bad = []
        for k in ch:
            if any(k == a or k.startswith(a + '/') or (k.endswith('/') and (a + '/').startswith(k)) for a in allow): continue
            bad.append(k)
        r['changed'] = sorted(bad); r['nchanged'] = len(ch); r['nfiles'] = len(now)
        del r['allow']
        log.append(r)
    fits = [s['fits'] for s in st]
    return {'log': log, 'fits': fits}


def same_pod(c, a, b, what, viol, ev):
    for k in ('nms', 'files'):
        if a[k] != b[k]: viol.append(f'{what}: {k} is {a[k]} instead of {b[k]}')
    eps = 2.3e-16
    d, w = gen.case_arrays(c)
    W1 = b['weights'].reshape(-1)
    lam = np.sort(b['eigs'].real)[::-1]
    X = d.reshape(d.shape[0], -1)
    E = float(np.sum(np.max(np.abs(X) ** 2, axis=0) * W1)) * d.shape[0]
    tol = 1e5 * eps * (lam[0] + np.sqrt(E * max(lam[0], 0))) + 1e-300
    ref.close(a['eigs'], b['eigs'], tol, f'{what}: energies', viol)
    ref.close(a['eigs_disk'], a['eigs'], 0, f'{what}: saved energies', viol)
    ref.close(a['weights'], b['weights'], 1e-12 * np.max(np.abs(b['weights'])), f'{what}: weights', viol)
    if a['modes'].shape != b['modes'].shape: viol.append(f'{what}: modes have shape {a["modes"].shape} instead of {b["modes"].shape}'); return
    n = a['modes'].shape[-1]
    ev['modes'] = ev.get('modes', 0) + ref.same_modes(a['modes'].reshape(-1, n), b['modes'].reshape(-1, n), W1, lam, min(1, tol / max(lam[0], 1e-300)), what, viol, floor=1e-4)


def judge(job, obs):
    from .c03 import compare_fits
    viol, ev = par.failures(obs, job), {}
    par.traces(obs, ev)
    sig = []
    if viol: return {'viol': viol[:6], 'events': ev, 'sig': []}
    for rk, o in enumerate(obs):
        tag = f'process {rk}: ' if len(obs) > 1 else ''
        prev = ''
        for n, r in enumerate(o['log']):
            t = f'{tag}step {n} ({r["act"]}{" " + r["plot"] if "plot" in r else ""} in context {r["k"]} [{job["ctxs"][r["k"]]["kind"]}])'
            if r['inputs']: viol.append(f'{t}: changed what was passed in: {r["inputs"]}')
            if not r['cwd']: viol.append(f'{t}: changed the working directory')
            if r['changed']: viol.append(f'{t}: changed or created files it does not document: {r["changed"][:6]}')
            if r.get('loaded') is False: viol.append(f'{t}: the loaded array differs from the file')
            if 'fresh' in r:
                x, y = r['fresh']
                ev['copies'] = ev.get('copies', 0) + 1
                if x.shape != y.shape or not np.allclose(x, y, rtol=1e-6, atol=1e-6 * np.max(np.abs(x), initial=0)): viol.append(f'{t}: coefficients computed from a copy of the results differ: shapes {x.shape} {y.shape}, values {x.flat[:2]} {y.flat[:2]}')
            if r.get('reload') is False: viol.append(f'{t}: after changing a loaded array, loading again gives other values')
            ev['calls'] = ev.get('calls', 0) + 1
            ev['file_digests'] = ev.get('file_digests', 0) + r['nfiles']
            if rk == 0:
                sig.append((prev, r['act'], job['ctxs'][r['k']]['kind'], job.get('np', 0)))
            prev = r['act']
        for c, fits in zip(job['ctxs'], o['fits']):
            first = next((f for f in fits if f[0] != 'other'), None)
            if first is None: continue
            for f in fits:
                if f is first: continue
                cc, base = c, first
                if f[0] == 'other':
                    cc = other(c, f[2])
                    # same data before, if any
                    base = next((x for x in fits if x[0] == 'other' and x[2] == f[2]), f)
                    # a fit by the same object of longer data keeps as many modes as asked for
                    nb = cc['data']['nt'] if c['kind'] == 'pod' else ref.segments(cc['data']['nt'], c['params']['n_dft'], c['params'].get('overlap', 0))[1]
                    want = min(c['params'].get('n_modes_save', nb), nb)
                    got = f[1]['nms'] if c['kind'] == 'pod' else f[1]['n_modes_save']
                    if got != want: viol.append(f'{tag}{c["kind"]} fit of {f[2]} data by the same object keeps {got} modes instead of {want}')
                    check_energies(cc, f[1], f'{tag}{c["kind"]} fit of {f[2]} data by the same object', viol, ev)
                    if base is f: continue
                out = []
                what = f'{tag}{c["kind"]} fit by {f[0]} compared with the first fit'
                if c['kind'] == 'pod': same_pod(cc, f[1], base[1], what, out, ev)
                else: compare_fits(cc, f[1], base[1], what, out, ev, streaming=c['kind'] == 'streaming')
                viol.extend(out[:3]); ev['repeated_fits'] = ev.get('repeated_fits', 0) + 1
            check_energies(c, first[1], f'{tag}{c["kind"]} fit', viol, ev)
        if len(viol) > 5: break
    return {'viol': viol[:8], 'events': ev, 'sig': sig, 'sample': f'np={job.get("np", 0)}: ' + ' '.join(f'{r["act"]}@{r["k"]}' for r in obs[0]['log'])}


def check_energies(c, o, what, viol, ev):
    """Energies against their definition (streaming: only their sum rules are left to C04)."""
    if c['kind'] == 'streaming': return
    d, w = gen.case_arrays(c)
    ev['defined_energies'] = ev.get('defined_energies', 0) + 1
    if c['kind'] == 'pod':
        W1 = ref.final_weights(d, w, c['params']).reshape(-1)
        X = d.reshape(d.shape[0], -1)
        if c['params'].get('mean_type', 'longtime').lower() == 'longtime': X0 = X - X.mean(axis=0)
        else: X0 = X
        lam = np.linalg.eigvalsh((X0 * W1) @ X0.T)[::-1]
        E = float(np.sum(np.max(np.abs(X) ** 2, axis=0) * W1)) * len(d)
        ref.close(o['eigs'].real, lam, 1e-9 * (lam[0] + np.sqrt(E * max(lam[0], 0))) + 1e-20 * E, f'{what}: energies', viol)
        return
    R = ref.Spod(d, w, c['params'], cplx=d.dtype.kind == 'c')
    for f in range(R.nf):
        dd = np.abs(np.abs(o['eigs'][f]) - R.eigs[f])
        if not np.all(dd <= 4 * R.tol(f, 2.3e-16)): viol.append(f'{what}: energies of frequency {f} {np.abs(o["eigs"][f])[:3]} instead of {R.eigs[f][:3]}'); break
