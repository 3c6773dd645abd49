"""C13: what a fit saves is what it computed, and can be reloaded in another process."""
import os, sys, pickle, shutil, subprocess
import numpy as np
from .. import gen, ref, coef, par

RULE = ('random batch, streaming and POD fits (serial, and by 2-4 processes), with plain and numpy-typed parameters, also into a folder of an earlier fit; every saved file is read with plain numpy and yaml and compared with what the object reports and '
        'with the definition of segmentation; then coefficients, reconstructions, orthogonality checks and modes are computed through the object and, after the result folder was moved elsewhere, '
        'by a new process from the folder alone; distinct: (kind, options, storage, processes)')
ASSUMPTIONS = ['confidence bounds of streaming fits are not compared (it saves zeros)']
BUDGET = {'quick': 150, 'thorough': 2400}


def make_case(rng, np_):
    kind = rng.choice(['standard', 'standard', 'standard', 'streaming', 'pod'])
    c = gen.rand_case(rng, maxpts=30, ndft=(4, 10))
    p = c['params']
    if c['data']['kind'] == 'masked': c['data']['kind'] = 'noise'
    if c['weights'] and c['weights']['kind'] == 'zeros': c['weights']['kind'] = 'smooth'
    if kind != 'standard':
        for q in ('normalize_data', 'normalize_weights', 'mean_type', 'dtype'): p.pop(q, None)
        p['n_modes_save'] = rng.choice([1, 2, 3])
    if kind == 'pod':
        c['data']['cplx'] = False
        for q in ('n_dft', 'overlap', 'fullspectrum', 'conf_level'): p.pop(q, None)
        if rng.random() < 0.5: p['mean_type'] = rng.choice(['longtime', 'zero'])
        if rng.random() < 0.2: p.pop('n_modes_save')
    if kind == 'standard' and rng.random() < 0.25: p['savefft'] = True
    c['earlier'] = None
    if kind != 'pod' and rng.random() < 0.4:        # an earlier fit into the same folder
        c['earlier'] = {'params': rng.choice([{'n_modes_save': rng.choice([1, 2, 4, 100])}, {'fullspectrum': not p.get('fullspectrum', False)}, {'mean_type': 'zero', 'fullspectrum': True, 'n_modes_save': 100}, {'time_step': p['time_step'] * 2}, {}]),
                        'kind': kind if p.get('savefft') or rng.random() < 0.7 else 'streaming' if kind == 'standard' else 'standard', 'scale': rng.choice([1, 3]), 'used': rng.random() < 0.6, 'plain': rng.random() < 0.4}
    if rng.random() < 0.5: p['note'] = rng.choice(['text', 'x: y', 'été', [1, 2], None, 1e-30, True])
    c.update(kind=kind, npscalars=rng.random() < 0.3, seed=rng.getrandbits(30), f=rng.random(), f2=rng.random(),
             times=coef.rand_times(rng, 7), conv=rng.random() < 0.4, band=rng.random() < 0.4)
    return c


def make_jobs(rng, tier):
    jobs = []
    for i in range(28 if tier == 'quick' else 700):
        np_ = 0 if i % 4 else rng.choice([2, 3, 4])
        j = dict(cases=[make_case(rng, np_) for _ in range(5)])
        if np_: j.update(np=np_, delay=par.rand_delay(rng, np_))
        jobs.append(j)
    return jobs


def np_typed(p):
    o = {}
    for k, v in p.items():
        if isinstance(v, bool): o[k] = np.bool_(v)
        elif isinstance(v, int) and k != 'n_dft': o[k] = np.int64(v)
        elif isinstance(v, float): o[k] = np.float64(v)
        else: o[k] = v
    return o


def requests(c, folder, x):
    """What is asked of the object's folder, by functions only."""
    return dict(kind=c['kind'], folder=folder, x=x, times=c['times'], f=c['f'], f2=c['f2'], conv=c['conv'])


def answer(q, comm=None):
    """Post-processing from a result folder alone."""
    import pyspod.spod.utils as su, pyspod.pod.utils as pu, pyspod.utils.postproc as post
    o = {}
    f = q['folder']
    if q['kind'] == 'pod':
        cf, cd = pu.compute_coeffs_op(q['x'], f, comm=comm)
        rf, _ = pu.compute_reconstruction(cd, q['times'], comm=comm)
        o['coeffs'], o['rec'] = np.load(cf), np.load(rf)
        return o
    nf = len(np.load(os.path.join(f, 'eigs_freq.npz'))['freq'])
    fi = int(q['f'] * nf)
    cf, cd = su.compute_coeffs_op(q['x'], f, freq_idx=[fi], comm=comm)
    rf, _ = su.compute_reconstruction(cd, q['times'], comm=comm)
    o['coeffs'], o['rec'] = np.load(cf), np.load(rf)
    if q['conv']:
        cf, cd = su.compute_coeffs_conv(q['x'], f, freq_idx=[fi], savedir='conv', comm=comm)
        rf, _ = su.compute_reconstruction(cd, q['times'], comm=comm)
        o['convc'], o['convr'] = np.load(cf), np.load(rf)
    ok, O = su.check_orthogonality(f, 0, 0, fi, comm=comm)
    o['orth'] = np.array(O)
    o['modes'] = np.array(post.get_modes_at_freq(f, fi)); o['all'] = np.array(post.get_all_modes(f))
    return o


def child():
    """A process of its own that knows the folders only."""
    with open(sys.argv[1], 'rb') as fh: reqs = pickle.load(fh)
    sys.path.insert(0, os.environ['VM_REPO'])
    out = []
    for q in reqs:
        try: out.append(answer(q))
        except Exception as e:
            import traceback
            out.append({'exc': type(e).__name__, 'tb': traceback.format_exc()[-1200:]})
    with open(sys.argv[2], 'wb') as fh: pickle.dump(out, fh)


def run(job, ctx):
    from .. import ops, envs, tracecomm
    from pyspod.pod.standard import Standard as PodStandard
    import yaml
    res, reqs = [], []
    for i, c in enumerate(job['cases']):
        o = {}
        try:
            d, w = gen.case_arrays(c)
            g = gen.rs(c['seed'])
            x = g.standard_normal((7,) + d.shape[1:]) + 1
            p = np_typed(c['params']) if c['npscalars'] else dict(c['params'])
            sd = ctx.path(f'r{i}')
            if c['kind'] == 'pod':
                obj = PodStandard(params={**p, 'savedir': sd}, weights=gen.weights_arg(w, c['wform']), comm=ctx.comm)
                obj.fit([gen.supplied(d, c)])
                f = ops.pod_folder(obj)
                o['at'] = dict(nt=int(obj.nt), nx=int(obj.nx), nv=int(obj.nv), xdim=int(obj.xdim), xshape=tuple(int(v) for v in obj.xshape), dt=float(obj.dt), n_modes_save=int(obj.n_modes_save))
                o['eigs'] = np.array(obj.eigs)
                o['weights_obj'] = np.array(obj.weights)
                ctx.sync()
                o['files'] = sorted(os.listdir(f))
                o['eigs_disk'] = ops.load_npz(os.path.join(f, 'eigs.npz'))['eigs']
                o['weights'], o['modes'] = np.load(os.path.join(f, 'weights.npy')), np.load(os.path.join(f, 'modes.npy'))
                with open(os.path.join(f, 'params_modes.yaml')) as fh: o['params'] = yaml.load(fh, Loader=yaml.FullLoader)
            else:
                if c['earlier']:
                    e = c['earlier']; pe = {**p, **e['params']}
                    if e['kind'] == 'streaming': pe.pop('dtype', None); pe.setdefault('n_modes_save', 3)
                    w0 = None if e['plain'] else gen.weights_arg(w, c['wform'])
                    _, a0 = ops.fit(e['kind'], [gen.supplied(d * e['scale'], c)], pe, w0, ctx.comm, sd)
                    o['earlier'] = True
                    if e['used']:       # post-processing of the earlier results in the same process
                        ctx.sync()
                        answer(requests(c, a0['folder'], gen.supplied(x, c)), ctx.comm)
                        ctx.sync()
                        for q in os.listdir(a0['folder']) if ctx.rank == 0 else []:
                            if q.startswith('coeffs'): shutil.rmtree(os.path.join(a0['folder'], q))
                        ctx.sync()
                obj, at = ops.fit(c['kind'], [gen.supplied(d, c)], p, gen.weights_arg(w, c['wform']), ctx.comm, sd)
                o['at'] = at; f = obj.savedir_sim
                ctx.sync()
                o['disk'] = ops.read_folder(f)
                o['modes_dir'] = os.path.relpath(str(obj.modes_dir), f)
                if ctx.rank == 0:
                    nf = int(obj.n_freq); fi = int(c['f'] * nf)
                    o['get'] = np.array(obj.get_modes_at_freq(fi))
                    o['near'] = tuple(float(v) for v in obj.find_nearest_freq(float(obj.freq[fi])))
            o['folder'] = os.path.relpath(f, sd)
            o['folder_abs'] = f
            ctx.sync()      # the next computations write into the folders just listed
            # through the object
            if c['kind'] == 'pod': cf, cd = obj.compute_coeffs_op(gen.supplied(x, c), f)
            else: cf, cd = obj.compute_coeffs_op(gen.supplied(x, c), f)
            rf, rd = obj.compute_reconstruction(cd, time_idx=c['times'])
            ctx.sync()
            o['api'] = dict(coeffs=np.load(cf), rec=np.load(rf), names=(os.path.relpath(cf, f), os.path.relpath(cd, f), os.path.relpath(rf, cd), os.path.relpath(rd, cd)))
            if hasattr(obj, 'file_coeffs'): o['api']['props'] = (obj.file_coeffs == cf, obj.file_dynamics == rf if hasattr(obj, '_file_dynamics') else None)
            ctx.sync()
            o['here'] = answer(requests(c, f, gen.supplied(x, c)), ctx.comm)
            ctx.sync()
            if ctx.rank == 0:
                moved = ctx.path(f'moved{i}')
                for q in ('coeffs',):
                    shutil.rmtree(os.path.join(f, q), ignore_errors=True)
                for q in os.listdir(f):
                    if q.startswith('coeffs'): shutil.rmtree(os.path.join(f, q))
                shutil.move(f, moved); shutil.rmtree(sd, ignore_errors=True)
                reqs.append(requests(c, moved, gen.supplied(x, c)))
            o['rank'] = ctx.rank
        except Exception as e:
            o = ops.exc_info(e)
            reqs.append(dict(kind='pod', folder='none', x=None, times=[0], f=0, f2=0, conv=False))
            if ctx.world is not None: res.append(o); break
        res.append(o)
    out = None
    if ctx.rank == 0:
        rq, an = ctx.path('req.pkl'), ctx.path('ans.pkl')
        with open(rq, 'wb') as fh: pickle.dump(reqs, fh)
        env = {k: v for k, v in os.environ.items() if not k.startswith(('OMPI_', 'PMIX_', 'PMI_', 'OPAL_', 'PRTE_'))}
        env['VM_REPO'] = envs.REPO
        env['PYTHONPATH'] = envs.VERIF
        os.makedirs(ctx.path('elsewhere'), exist_ok=True)
        r = subprocess.run([sys.executable, '-c', 'from vmon.checks import c13; c13.child()', rq, an], cwd=ctx.path('elsewhere'), env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
        if os.path.exists(an):
            with open(an, 'rb') as fh: out = pickle.load(fh)
        else: out = [{'exc': 'child', 'tb': r.stderr.decode(errors='replace')[-800:]}] * len(reqs)
        out.append(sorted(os.listdir(ctx.path('elsewhere'))))
    ctx.sync()
    return {'res': res, 'child': out}


def judge_case(c, o, tag, viol, ev):
    d, w = gen.case_arrays(c)
    p, nv, xs = c['params'], c['data']['nv'], tuple(c['data']['xshape'])
    nt = d.shape[0]; npts = int(np.prod(xs))
    eps = ref.EPS['single' if p.get('dtype') == 'single' else 'double']
    W = ref.final_weights(d, w, p)
    at = o['at']
    want = dict(nt=nt, nx=npts, nv=nv, xdim=len(xs), xshape=xs, dt=float(p['time_step']))
    par_ = dict(p)
    if c['kind'] == 'pod':
        nms = int(min(p.get('n_modes_save', nt), nt))
        want['n_modes_save'] = nms
        folder = f'modes{nms}'
        files = {'eigs.npz', 'modes.npy', 'weights.npy', 'params_modes.yaml'}
        if set(o['files']) != files: viol.append(f'{tag}files {o["files"]}')
        ref.close(o['eigs_disk'], o['eigs'], 0, f'{tag}saved energies against reported', viol)
        if o['modes'].shape != xs + (nv, nms): viol.append(f'{tag}modes have shape {o["modes"].shape}')
        pr = o['params']
        par_.pop('n_modes_save', None)
        par_.update(time_step=float(p['time_step']))
        wd = o['weights']
    else:
        n = p['n_dft']
        novl, nb, _ = ref.segments(nt, n, p.get('overlap', 0))
        fa = ref.freq_axis(d.dtype.kind == 'c', p)
        nms = int(min(p.get('n_modes_save', nb), nb))
        want.update(n_dft=n, n_blocks=nb, n_freq=len(fa), n_modes_save=nms, dim=2 + len(xs), n_modes=nb if c['kind'] == 'standard' else nms)
        folder = f'nfft{n}_novlp{novl}_nblks{nb}'
        D = o['disk']
        mf = [f'modes/freq_idx_{f:08d}.npy' for f in range(len(fa))]
        files = {'eigs_freq.npz', 'weights.npy', 'ltm_modes.npy', 'params_modes.yaml'} | set(mf)
        if p.get('savefft'): files |= {f'blocks/fft_block{b:08d}_freq{f:08d}.npy' for b in range(nb) for f in range(len(fa))}
        if set(D['files']) != files: viol.append(f'{tag}files {sorted(set(D["files"]) ^ files)[:5]} missing or unexpected')
        z = D.get('npz') or {}
        if 'eigs' not in z or 'freq' not in z: viol.append(f'{tag}energies or frequencies not saved'); return
        ref.close(z['eigs'], at['eigs'], 0, f'{tag}saved energies against reported', viol)
        ref.close(z['freq'], at['freq'], 0, f'{tag}saved frequencies against reported', viol)
        if at['eigs'].shape != (len(fa), want['n_modes']): viol.append(f'{tag}energies have shape {at["eigs"].shape} instead of {(len(fa), want["n_modes"])}')
        ref.close(at['freq'], fa, 1e-12 / p['time_step'], f'{tag}frequencies', viol)
        if c['kind'] == 'standard' and not viol:
            import scipy.special as sc
            cl = p.get('conf_level', 0.95)
            e = np.abs(z['eigs'])
            up, lo = 2 * nb * e / (2 * sc.gammaincinv(nb, 1 - cl)), 2 * nb * e / (2 * sc.gammaincinv(nb, cl))
            ref.close(np.real(z['eigs_c_u']), up, 1e-5 * up + 1e-300, f'{tag}saved upper confidence bounds', viol)
            ref.close(np.real(z['eigs_c_l']), lo, 1e-5 * lo + 1e-300, f'{tag}saved lower confidence bounds', viol)
        for f, m in enumerate(D['modes']):
            if m is None or m.shape != xs + (nv, nms): viol.append(f'{tag}modes of frequency {f} have shape {None if m is None else m.shape} instead of {xs + (nv, nms)}'); break
        for k, q in (('all', D['modes']), ('modes', D['modes'][int(c['f'] * len(fa))])):
            if not viol: ref.close(o['here'][k], np.array(q), 0, f'{tag}{k} modes loaded from the folder', viol)
        if o['modes_dir'] != 'modes': viol.append(f'{tag}modes_dir is {o["modes_dir"]}')
        xm = np.max(np.abs(d)) + 1e-300
        ref.close(D.get('ltm_modes'), d.mean(axis=0), 100 * eps * xm, f'{tag}saved mean', viol)
        pr, wd = D['params'], D['weights']
        par_.update(n_freq=len(fa), n_blocks=nb, n_overlap=novl, n_modes_save=nms, time_step=float(p['time_step']), n_dft=n)
        if 'get' in o:
            fi = int(c['f'] * len(fa))
            if viol: return
            ref.close(o['get'], D['modes'][fi], 0, f'{tag}modes loaded through the object', viol)
            if o['near'] != (float(at['freq'][fi]), float(fi)): viol.append(f'{tag}nearest frequency {o["near"]} instead of {(at["freq"][fi], fi)}')
    ref.close(np.reshape(wd, -1).astype(float), W.reshape(-1), 1e3 * eps * W.reshape(-1) * (1 + (1e6 if p.get('normalize_weights') and eps > 1e-10 else 0)), f'{tag}saved weights', viol)
    if wd.shape != xs + (nv,): viol.append(f'{tag}saved weights have shape {wd.shape}')
    for k, v in want.items():
        if at.get(k) != v: viol.append(f'{tag}{k} is reported as {at.get(k)} instead of {v}')
    if o['folder'] != folder: viol.append(f'{tag}results are in {o["folder"]} instead of {folder}')
    if pr.get('results_folder') != o['folder_abs'] or pr.get('savedir') != os.path.dirname(o['folder_abs']): viol.append(f'{tag}saved parameters name {pr.get("results_folder")} and {pr.get("savedir")} instead of {o["folder_abs"]}')
    for k, v in par_.items():
        if k not in pr or pr[k] != v or (isinstance(v, bool) != isinstance(pr[k], bool)): viol.append(f'{tag}saved parameter {k} is {pr.get(k)!r} instead of {v!r}')
    ev['earlier_fits'] = ev.get('earlier_fits', 0) + int('earlier' in o); ev['fits'] = ev.get('fits', 0) + 1; ev['files'] = ev.get('files', 0) + len(files)


def judge(job, obs):
    viol, ev, sig = par.failures(obs, job), {}, []
    par.traces(obs, ev)
    if viol: return {'viol': viol[:6], 'events': ev, 'sig': []}
    ch = obs[0]['child']
    if ch and ch[-1]: viol.append(f'post-processing by another process left {ch[-1][:4]} in its working directory')
    for i, c in enumerate(job['cases']):
        for r, ob in enumerate(obs):
            tag = f'case {i}' + (f' process {r} of {len(obs)}' if len(obs) > 1 else '') + f' ({c["kind"]}): '
            if i >= len(ob['res']): continue
            o = ob['res'][i]
            if 'exc' in o: viol.append(f'{tag}raised {o["exc"]}: {o["msg"]} {o["tb"][-500:]}'); continue
            judge_case(c, o, tag, viol, ev)
            if r == 0 and i < len(ch) - 1:
                a, b = ch[i], o['here']
                if 'exc' in a: viol.append(f'{tag}post-processing from the saved folder by another process: {a["exc"]} {a["tb"][-700:]}'); continue
                eps = 1e-9
                for k in b:
                    sc = np.max(np.abs(b[k]), initial=0)
                    # coefficients of an ill-conditioned projection repeat exactly in serial only
                    if len(obs) > 1 and k in ('coeffs', 'rec'): continue
                    ref.close(a[k], b[k], eps * sc, f'{tag}{k} computed by another process from the folder alone', viol)
                    ev['answers'] = ev.get('answers', 0) + 1
                # through the object: everything selected
                if c['kind'] == 'pod':
                    ref.close(o['api']['coeffs'], b['coeffs'], eps * np.max(np.abs(b['coeffs']), initial=0), f'{tag}coefficients through the object', viol)
                    ref.close(o['api']['rec'], b['rec'], eps * np.max(np.abs(b['rec']), initial=0), f'{tag}reconstruction through the object', viol)
                else:
                    nf = len(o['at']['freq'])
                    if o['api']['names'][1] != f'coeffs_0_{nf - 1}': viol.append(f'{tag}coefficients through the object are in {o["api"]["names"][1]}')
                    if o['api']['coeffs'].shape != (nf * o['at']['n_modes_save'], 7): viol.append(f'{tag}coefficients through the object have shape {o["api"]["coeffs"].shape}')
        p = c['params']
        sig.append((c['kind'], len(c['data']['xshape']), c['data']['nv'], c['data']['cplx'], p.get('fullspectrum'), p.get('dtype'), c['npscalars'], c['conv'], c['earlier'] is not None, job.get('np', 0)))
        if len(viol) > 6: break
    return {'viol': viol[:8], 'events': ev, 'sig': sig, 'evals': len(job['cases']), 'sample': str({k: v for k, v in job['cases'][0].items() if k != 'times'})[:400]}
