"""C19: plots show the requested quantity and are saved where requested."""
import os, hashlib
import numpy as np
from .. import gen, ref, par

RULE = ('every plotting function and plotting method of fitted objects on random data (non-square domains, both orders of the space axes, dimensions of equal size for 3D slices, complex data, descending and irregular coordinates, '
        'int/tuple/list selections, several variables, modes, snapshots, points, per-frequency and per-mode storage, shown, saved or sent to a pdf, with shifts, limits, coastlines, ticks, maxima); the drawing primitives of matplotlib are recorded '
        '(axes, contours, meshes, lines, frames of animations, saved names) and compared with the data; distinct: (function, dimensions, options)')
ASSUMPTIONS = ['2D domains with different numbers of points along the two axes (the library matches axes by size)', 'video encoding itself is replaced by a recorder (no ffmpeg here)', 'axis limits, colours, fonts and titles are not judged', 'modes beyond the stored ones are skipped by 2D plots']
BUDGET = {'quick': 200, 'thorough': 900}


def pick(rng, n, k=None):
    ids = [rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 3]))]
    ids = list(dict.fromkeys(ids))
    r = rng.random()
    return ids[0] if r < 0.15 else tuple(ids) if r < 0.3 else ids


def axis(rng, n):
    return dict(n=n, seed=rng.getrandbits(30), kind=rng.choice(['default', 'uniform', 'irregular', 'desc', 'int', 'lon']))


def common(rng):
    name = rng.choice(['fig.png', 'a.b.png', 'fig.pdf', 'x y.jpg', 'noext'])
    return dict(seed=rng.getrandbits(30), name=name, save=rng.choice(['save'] * 6 + ['show', 'cwd']), real=rng.random() < 0.06, title=rng.choice(['', '', 'T', 'Title here']), eq=rng.random() < 0.15,
                size=rng.choice([[4, 3], [3, 5], [6, 2]]), ticks=rng.random() < 0.15, coast=rng.choice(['', '', '', '', 'regular', 'centred', 'Centred']))


def case(rng, fn=None):
    fn = fn or rng.choice(['m2'] * 5 + ['m3'] * 5 + ['mt'] * 4 + ['d2'] * 4 + ['dt'] * 3 + ['co', 'sub', 'cmp', 'hist', 'eig', 'eigf', 'eigp', 'video', 'video'])
    c = dict(fn=fn, **common(rng))
    c['obj'] = fn in ('m2', 'm3', 'mt', 'd2', 'dt', 'eig', 'eigf', 'eigp', 'video') and rng.random() < 0.2
    if fn in ('m2', 'd2', 'video'):
        a, b = rng.sample(range(2, 10), 2); c['xs'] = [a, b]
    elif fn == 'm3':
        c['xs'] = [rng.randint(2, 6) for _ in range(3)]
        if rng.random() < 0.5: c['xs'][rng.randrange(3)] = c['xs'][rng.randrange(3)]
    elif fn in ('mt', 'dt'): c['xs'] = [rng.randint(1, 6) for _ in range(rng.choice([1, 2, 2, 3]))]
    c['nv'] = rng.choice([1, 1, 2, 3]); c['nm'] = rng.choice([1, 2, 4]); c['nf'] = rng.randint(2, 12); c['nt'] = rng.randint(3, 25)
    c['vars'] = pick(rng, c['nv']); c['cplx'] = rng.random() < 0.3
    if fn in ('m2', 'm3', 'mt'):
        c['modes'] = pick(rng, c['nm'])
        if fn == 'm2' and rng.random() < 0.2 and not isinstance(c['modes'], int): c['modes'] = list(c['modes']) + [c['nm'] + 2]
        c['fftshift'] = rng.random() < 0.2 and not (fn == 'mt' and len(c['xs']) == 1); c['imag'] = rng.random() < 0.35; c['max'] = rng.random() < 0.35
        c['freq'] = rng.choice([0, 1, 1, 2, 2, 3]); c['off'] = rng.choice([0, 0.3, -0.4]); c['one'] = rng.random() < 0.4; c['ff'] = rng.choice(['axis', 'axis', 'list', 'full'])
        if c['ff'] == 'list' and fn != 'm2' and rng.random() < 2: c['ff'] = 'axis'
        c['arg'] = fn == 'm2' and rng.random() < 0.2; c['pdf'] = fn == 'm2' and rng.random() < 0.1
    if fn in ('m2', 'd2', 'video'):
        c['order'] = rng.choice(['yx', 'xy']); c['noaxes'] = rng.random() < 0.15
        c['x1'] = axis(rng, c['xs'][1] if c['order'] == 'yx' else c['xs'][0]); c['x2'] = axis(rng, c['xs'][0] if c['order'] == 'yx' else c['xs'][1])
        if c['noaxes']: c['order'] = 'xy'
    if fn == 'm2':
        c['shift'] = rng.random() < 0.3
        if c['shift']: c['x1']['kind'] = 'lon'
        c['lim'] = None if rng.random() < 0.75 or c['obj'] else [lim(rng, c['x1']['n']), lim(rng, c['x2']['n'])]
        if c['shift'] and c['lim']: c['lim'] = None
        if c['noaxes']: c['lim'] = None; c['shift'] = False
    if fn == 'm3':
        c['axs'] = [axis(rng, n) for n in c['xs']]; c['noaxes'] = rng.random() < 0.2; c['dim'] = rng.randrange(3); c['sid'] = rng.choice([None, rng.randrange(c['xs'][c['dim']]), rng.randrange(c['xs'][c['dim']])])
    if fn in ('mt', 'dt'):
        c['axs'] = [axis(rng, n) for n in c['xs']]; c['noaxes'] = rng.random() < 0.3; c['pts'] = [[rng.random() for _ in c['xs']] for _ in range(rng.choice([1, 1, 2, 3]))]
    if fn == 'd2': c['times'] = pick(rng, c['nt'])
    if fn in ('dt', 'video'):
        t0 = rng.choice([0, 0, rng.randrange(c['nt'])]); c['tl'] = [t0, rng.randint(t0 + 1, c['nt'])]; c['samp'] = rng.choice([1, 1, 2, 3])
    if fn == 'sub': c['n'] = rng.randint(1, 3); c['xs'] = [rng.randint(2, 8), rng.randint(2, 8)]; c['round'] = rng.choice([6, 2, 4])
    if fn == 'co': c['ids'] = list(dict.fromkeys(rng.randrange(6) for _ in range(rng.choice([1, 2, 3]))))
    if c['obj']:
        c.setdefault('xs', [3, 2]); c['nt'] = max(12, c['nt'] + 6); c['n_dft'] = rng.choice([4, 5, 6]); c['nm'] = 2; c['cplx'] = False; c['arg'] = False
        if fn in ('m2', 'm3', 'mt'):
            c['modes'] = pick(rng, 2)
        if fn in ('dt', 'video'): t0 = rng.randrange(0, c['nt'] - 1); c['tl'] = [t0, rng.randint(t0 + 1, c['nt'])]
    return c


def lim(rng, n):
    if n < 4: return [None]
    a = rng.randrange(0, n - 2)
    return rng.choice([[a, rng.randint(a + 2, n)], [a, None], [rng.randint(2, n)], [None]])


def make_jobs(rng, tier):
    q = tier == 'quick'
    fns = ['m2'] * 6 + ['m3'] * 5 + ['mt'] * 4 + ['d2'] * 4 + ['dt'] * 3 + ['video'] * 2 + ['eigf', 'eigp', 'co', 'sub', 'cmp', 'hist', 'eig']
    jobs = []
    for _ in range(40 if q else 600): jobs.append(dict(cases=[case(rng, f) for f in rng.sample(fns, len(fns))[:14]], cpu=300))
    for _ in range(8 if q else 100): jobs.append(dict(cases=[report(rng)], cpu=300))
    for _ in range(4 if q else 40):
        cs = []
        for _ in range(2):
            c = case(rng, 'm2'); c['obj'] = True; c['nt'] = 20; c['n_dft'] = 5; c['nm'] = 2; c['cplx'] = False; c['arg'] = False; c['save'] = 'save'; c['pdf'] = False; c['lim'] = None
            c['modes'] = pick(rng, 2); cs.append(c)
        k = rng.choice([2, 3]); jobs.append(dict(np=k, cases=cs, delay=par.rand_delay(rng, k)))
    return jobs


def report(rng):
    c = case(rng, 'm2')
    c.update(fn='report', obj=True, xs=[rng.randint(2, 4), rng.randint(5, 8)], nt=rng.choice([64, 90]), n_dft=rng.choice([16, 24, 31]), nm=2, nv=rng.choice([1, 2]), cplx=False, order='yx', save='save', pdf=False, unit=rng.choice(['hours', 'days']), name='report.pdf',
             dt=rng.choice([1.0, 0.1, 12, 300, 6000]))
    c['x1'] = dict(n=c['xs'][1], seed=c['seed'], kind='lon'); c['x2'] = dict(n=c['xs'][0], seed=c['seed'] + 1, kind='uniform')
    return c


def make_axis(a):
    g = gen.rs(a['seed']); n = a['n']; k = a['kind']
    if k == 'default': return np.arange(n)
    if k == 'int': return np.arange(n) * 3 - 4
    if k == 'lon': return np.linspace(0, 360, n, endpoint=False) + 0.1
    if k == 'irregular': return np.cumsum(0.1 + g.random(n)) - 1.0
    x = np.linspace(-1, 2, n) * (1 + g.random())
    return x[::-1].copy() if k == 'desc' else x


def freqs(c):
    f = np.arange(c['nf']) * 0.25
    if c.get('ff') == 'full': f = np.fft.fftfreq(c['nf'], 0.5)
    return f


def mode_arrays(c):
    g = gen.rs(c['seed'] + 5)
    sh = (c['nf'],) + tuple(c['xs']) + (c['nv'], c['nm'])
    return g.standard_normal(sh) + 1j * g.standard_normal(sh)


def data_array(c):
    g = gen.rs(c['seed'] + 6)
    x = g.standard_normal((c['nt'],) + tuple(c['xs']) + (c['nv'],))
    if c['cplx']: x = x + 1j * g.standard_normal(x.shape)
    if c['fn'] == 'report':
        t = np.arange(c['nt'])[:, None, None, None]
        for k in (3, 7): x = 0.5 * x + 3 * np.cos(2 * np.pi * k / c['n_dft'] * t) * g.standard_normal(x.shape[1:]) + 3 * np.sin(2 * np.pi * k / c['n_dft'] * t) * g.standard_normal(x.shape[1:])
    return x


def points(c):
    xs = [np.arange(n) for n in c['xs']] if c['noaxes'] else [make_axis(a) for a in c['axs']]
    return xs, [tuple(float(np.min(x) + p * (np.max(x) - np.min(x))) for x, p in zip(xs, pt)) for pt in c['pts']]


class Rec:
    """Records what is drawn and saved."""
    def __init__(self, real):
        self.real, self.out = real, []

    def __enter__(self):
        import shutil
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        from matplotlib.figure import Figure
        from matplotlib.animation import Animation
        self.plt, self.saved = plt, []
        rec = self

        def patch(o, n, f): self.saved.append((o, n, getattr(o, n))); setattr(o, n, f)

        def drawing(n):
            orig = getattr(Axes, n)
            def f(ax, *a, **k):
                p = [np.array(v) for v in a if not isinstance(v, (str, list, tuple)) or not isinstance(v, str)]
                r = orig(ax, *a, **k)
                ax.__dict__.setdefault('_vm', []).append(p)
                return r
            patch(Axes, n, f)
        drawing('contourf'); drawing('contour'); drawing('pcolormesh')
        osave = Figure.savefig

        def savefig(fig, fname, **k):
            pdf = hasattr(fname, 'savefig') or hasattr(fname, 'infodict')
            rec.out.append(dict(rec.snap(fig), how='pdf' if pdf else 'save', name='' if pdf else os.fspath(fname)))
            if rec.real and not pdf: osave(fig, fname, **k); rec.out[-1]['exists'] = os.path.getsize(fname) if os.path.exists(fname) else 0
        patch(Figure, 'savefig', savefig)
        patch(plt, 'show', lambda *a, **k: rec.out.append(dict(rec.snap(plt.gcf()), how='show', name='')))
        ow = shutil.which
        patch(shutil, 'which', lambda cmd, *a, **k: '/usr/bin/ffmpeg' if str(cmd).startswith('ffmpeg') else ow(cmd, *a, **k))

        def asave(an, filename, *a, **k):
            fr = []
            for arts in an._framedata:
                m = [q for q in arts if hasattr(q, 'get_coordinates')]
                s = [np.array(q.get_offsets()) for q in arts if not hasattr(q, 'get_coordinates')]
                fr.append(dict(n=len(m), z=np.array(m[0].get_array()), xy=np.array(m[0].get_coordinates()), sc=s))
            an._draw_was_started = True
            rec.out.append(dict(how='video', name=os.fspath(filename), frames=fr))
        patch(Animation, 'save', asave)
        return self

    def __exit__(self, *a):
        for o, n, f in reversed(self.saved): setattr(o, n, f)
        self.plt.close('all')

    def snap(self, fig):
        axes = []
        for ax in fig.axes:
            if hasattr(ax, '_colorbar'): continue
            o = dict(mesh=ax.__dict__.get('_vm', []), h=[], v=[], lines=[], sc=[], xt=[], yt=[])
            for l in ax.lines:
                bx, by = l.get_transform().contains_branch_seperately(ax.transData)
                x, y = np.ravel(np.asarray(l.get_xdata())), np.ravel(np.asarray(l.get_ydata()))
                if bx and by: o['lines'].append((np.array(x), np.array(y), str(l.get_marker())))
                elif by: o['h'].append(float(y[0]))
                elif bx: o['v'].append(float(x[0]))
            for q in ax.collections:
                if type(q).__name__ == 'PathCollection': o['sc'].append(np.array(q.get_offsets()))
            o['xt'] = [float(t) for t in ax.get_xticks()]; o['yt'] = [float(t) for t in ax.get_yticks()]
            if o['mesh'] or o['lines'] or o['h'] or o['v']: axes.append(o)
        return dict(axes=axes, size=[float(s) for s in fig.get_size_inches()])


def digest(folder):
    o = {}
    for dp, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(dp, f); o[os.path.relpath(p, folder)] = hashlib.md5(open(p, 'rb').read()).hexdigest()
    return o


def run(job, ctx):
    import matplotlib; matplotlib.use('Agg')
    from pyspod.utils import postproc as post
    from .. import ops
    res = []
    for i, c in enumerate(job['cases']):
        o = {}
        try:
            o = one(c, ctx, i, post, ops)
        except Exception as e:
            o = ops.exc_info(e); o['err'] = f'{type(e).__name__}: {str(e)[:200]}'
        ctx.sync()
        res.append(o)
    return {'res': res}


def one(c, ctx, i, post, ops):
    fn = c['fn']
    rs = ctx.path(f'r{i}'); outdir = ctx.path(f'o{i}')
    if ctx.rank == 0:
        os.makedirs(rs, exist_ok=True); os.makedirs(outdir, exist_ok=True)
    ctx.sync()
    o = {}
    obj, keep = None, []
    if c['obj']:
        obj, _ = ops.fit('standard', [data_array(c)], dict(time_step=c.get('dt', 1.0), n_space_dims=len(c['xs']), n_variables=c['nv'], n_dft=c['n_dft'], overlap=0, n_modes_save=2, mean_type='longtime'), None, ctx.comm, rs)
        rs = outdir = obj.savedir_sim
        o['modes'] = ops.read_modes(rs, obj.n_freq); o['freq'] = np.array(obj.freq); o['eigs'] = np.array(obj.eigs)
        freq = np.array(obj.freq)
    elif fn in ('m2', 'm3', 'mt'):
        m = mode_arrays(c); freq = freqs(c)
        os.makedirs(os.path.join(rs, 'modes'))
        for f in range(c['nf']):
            if c['one']:
                for k in range(c['nm']): np.save(os.path.join(rs, 'modes', f'freq_idx_f{f:08d}_m{k:08d}.npy'), m[f, ..., k])
            else: np.save(os.path.join(rs, 'modes', f'freq_idx_{f:08d}.npy'), m[f])
    name = None if c['save'] == 'show' else c['name']
    path = {} if c['save'] == 'cwd' else dict(path=os.path.relpath(outdir) if c['seed'] % 3 == 0 else outdir)
    if c['obj']: path = {}
    kw = dict(path, filename=name)
    if fn not in ('sub', 'report'): kw['figsize'] = tuple(c['size'])
    if fn in ('m2', 'm3'):
        if c['ticks']: kw.update(xticks=[0.0, 0.5, 1.0], yticks=(0.25, 0.75))
        kw.update(equal_axes=c['eq'], coastlines=c['coast'])
    if fn in ('m2', 'm3', 'mt', 'd2', 'dt'): kw['title'] = c['title']
    if fn in ('m2', 'd2', 'video') and not c['noaxes']: kw.update(x1=make_axis(c['x1']), x2=make_axis(c['x2']))
    if fn in ('d2', 'video'): kw['coastlines'] = c['coast']
    if fn in ('m2', 'm3', 'mt', 'd2', 'dt', 'video'): kw['vars_idx'] = c['vars']
    lead = ()
    if fn in ('m2', 'm3', 'mt'):
        k = min(c['freq'], len(freq) - 1)
        df = np.min(np.diff(np.sort(freq)))
        fr = float(freq[k] + c['off'] * df)
        if fn == 'mt' and fr == 0: fr = float(freq[1]); k = 1
        o['fk'], o['freq_req'] = k, fr
        kw.update(freq_req=fr, freq=list(freq) if c['ff'] == 'list' else freq, modes_idx=c['modes'], fftshift=c['fftshift'])
        if fn != 'mt': kw.update(imaginary=c['imag'], plot_max=c['max'])
        if not c['obj']: lead = (rs,)
    if fn == 'm2':
        kw['shift180'] = c['shift']
        if c['lim']: kw.update(limits_x1=tuple(c['lim'][0]), limits_x2=tuple(c['lim'][1]))
        if c['arg']: kw['modes'] = mode_arrays(c)[o['fk']]
    if fn == 'm3':
        if not c['noaxes']: kw.update(zip(('x1', 'x2', 'x3'), [make_axis(a) for a in c['axs']]))
        kw.update(slice_dim=c['dim'], slice_id=c['sid'])
    if fn in ('mt', 'dt'):
        xs, pts = points(c)
        kw['coords_list'] = pts
        if not c['noaxes']: kw['x'] = xs
    if fn in ('d2', 'dt', 'video'): lead = (data_array(c),)
    if fn == 'd2': kw['time_idx'] = c['times']
    if fn in ('dt', 'video'): kw['time_limits'] = c['tl']
    if fn == 'video': kw['sampling'] = c['samp']; kw['filename'] = c['name']
    if fn == 'd2' and not c['obj']:
        kw['equal_axes'] = c['eq']
        if c['ticks']: kw.update(xticks=[0.0, 0.5, 1.0], yticks=(0.25, 0.75))
    g = gen.rs(c['seed'] + 7)
    if fn == 'co':
        a = g.standard_normal((6, c['nt'])); a = a + 1j * 0 if False else a
        lead = (a,); kw['coeffs_idx'] = c['ids']; kw['equal_axes'] = c['eq']
    if fn == 'sub':
        vs = [g.standard_normal(c['xs']) for _ in range(c['n'])]; lead = (vs[0], 't1')
        for k, v in enumerate(vs[1:]): kw[f'var{k + 2}'] = v; kw[f'title{k + 2}'] = f't{k + 2}'
        kw['N_round'] = c['round']
    if fn in ('cmp', 'hist'): lead = tuple(g.standard_normal(c['nt']) for _ in range(2)); kw.update(dict(label1='a', label2='b') if fn == 'cmp' else {})
    if fn in ('eig', 'eigf', 'eigp') and not c['obj']:
        e = np.abs(g.standard_normal((c['nf'], c['nm']))) + 0.1
        if fn == 'eig': e = g.standard_normal((c['nf'],)) + 1j * g.standard_normal((c['nf'],)); lead = (e,)
        else: lead = (e, np.arange(c['nf']) * 0.3)
    meth = dict(m2='plot_2d_modes_at_frequency', m3='plot_3d_modes_slice_at_frequency', mt='plot_mode_tracers', d2='plot_2d_data', dt='plot_data_tracers', co='plot_coeffs', sub='generate_2d_subplot', cmp='plot_compare_time_series',
                hist='plot_training_histories', eig='plot_eigs', eigf='plot_eigs_vs_frequency', eigp='plot_eigs_vs_period', video='generate_2d_data_video', report='plot_report')[fn]
    if fn == 'report': kw = dict(x1=make_axis(c['x1']), x2=make_axis(c['x2']), unit=c['unit'], path=outdir, filename=c['name'], shift180=c['shift'])
    def arrays(v): return [np.array(q) for q in (v if isinstance(v, list) and v and isinstance(v[0], np.ndarray) else [v])] if isinstance(v, (np.ndarray, list, tuple)) else []
    before = digest(rs); copy = [arrays(v) for v in list(lead) + list(kw.values())]
    ctx.sync()
    f = getattr(obj if c['obj'] else post, meth)
    pdf = None
    with Rec(c['real'] and c['save'] != 'cwd' and c['name'] != 'noext') as r:
        if c.get('pdf') and fn == 'm2':
            from matplotlib.backends.backend_pdf import PdfPages
            pdf = kw['pdf'] = PdfPages(os.path.join(outdir, 'q.pdf')); copy.append([])
        f(*lead, **kw)
        o['figs'] = r.out
        if pdf is not None: pdf.close(); kw.pop('pdf'); copy.pop()
    ctx.sync()
    o['same'] = all(all(np.array_equal(p, q) for p, q in zip(x, arrays(v))) for x, v in zip(copy, list(lead) + list(kw.values())))
    after = digest(rs)
    o['changed'] = [k for k in before if after.get(k) != before[k]]
    o['outdir'] = outdir; o['at'] = os.getcwd(); o['cwd'] = post.CWD
    return o


def lst(v): return [v] if isinstance(v, int) else list(v)


def coast(c):
    import scipy.io
    from .. import envs
    n = {'regular': 'coast.mat', 'centred': 'coast_centred.mat'}[c.lower()]
    z = scipy.io.loadmat(os.path.join(envs.REPO, 'pyspod', 'utils', 'plotting_support', n))
    return np.column_stack([z['coastlon'].ravel(), z['coastlat'].ravel()])


def same_arr(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if np.iscomplexobj(a): a = a.real
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0))))


def check_mesh(m, x, y, z, tag, viol):
    if len(m) != 1: viol.append(f'{tag}{len(m)} contours in one axes'); return
    p = m[0]
    if len(p) >= 3: gx, gy, gz = p[:3]
    else: gz = p[0]; gx, gy = np.arange(gz.shape[1]), np.arange(gz.shape[0])
    if gx.ndim == 2: gx, gy = gx[0], gy[:, 0]
    if not same_arr(gx, x): viol.append(f'{tag}drawn against the horizontal axis {gx[:5]}.. instead of {np.asarray(x)[:5]}..')
    elif not same_arr(gy, y): viol.append(f'{tag}drawn against the vertical axis {gy[:5]}.. instead of {np.asarray(y)[:5]}..')
    elif not same_arr(gz, z): viol.append(f'{tag}other values drawn (largest difference {np.max(np.abs(np.real(gz) - z)) if gz.shape == z.shape else (gz.shape, z.shape)})')


def check_lines(ls, want, tag, viol):
    if len(ls) != len(want): viol.append(f'{tag}{len(ls)} curves instead of {len(want)}'); return
    for k, (l, w) in enumerate(zip(ls, want)):
        ok = np.isfinite(w[0]) & np.isfinite(w[1])
        if l[0].shape != np.shape(w[0]) or not same_arr(l[0][ok], np.asarray(w[0])[ok]): viol.append(f'{tag}abscissae of curve {k} are {l[0][:4]}.. instead of {np.asarray(w[0])[:4]}..')
        elif l[1].shape != np.shape(w[1]) or not same_arr(l[1][ok], np.asarray(w[1])[ok]): viol.append(f'{tag}ordinates of curve {k} are {l[1][:4]}.. instead of {np.asarray(w[1])[:4]}..')


def check_name(c, o, f, parts, tag, viol):
    """parts: list of strings in order that follow the base name"""
    how = 'pdf' if c.get('pdf') and c['fn'] == 'm2' else 'show' if c['save'] == 'show' and c['fn'] != 'video' else 'video' if c['fn'] == 'video' else 'save'
    if f['how'] != how: viol.append(f'{tag}{f["how"]} instead of {how}'); return
    if how in ('pdf', 'show'): return
    d = o['cwd'] if c['save'] == 'cwd' and not c['obj'] else o['outdir']
    base, ext = os.path.splitext(c['name'])
    g = f['name']
    if os.path.normpath(os.path.join(o['at'], os.path.dirname(g))) != os.path.normpath(os.path.join(o['at'], d)): viol.append(f'{tag}saved in {os.path.dirname(g)} instead of {d}'); return
    g = os.path.basename(g)
    if isinstance(parts, str): ok = g == base + parts + ext
    else: ok = g.startswith(base + parts[0]) and g.endswith(parts[1] + ext) and all(str(v) in g for v in parts[2])
    if not ok: viol.append(f'{tag}saved as {g}; base name {base}, requested {parts}, {ext}')
    if f.get('exists', 1) == 0: viol.append(f'{tag}file {g} was not written')


def maxima(z):
    j, i = np.where(np.abs(z) == np.max(np.abs(z)))
    return j, i


def judge_case(c, o, tag, viol, ev):
    fn = c['fn']; figs = o['figs']
    if not o['same']: viol.append(f'{tag}arguments were modified')
    if o['changed']: viol.append(f'{tag}files {o["changed"][:3]} were modified')
    ev['figures'] = ev.get('figures', 0) + len(figs)
    V = lst(c['vars'])
    exp = []    # (description, name parts, checker)
    if c['obj']: M = [np.asarray(m) for m in o['modes']]; nm = M[0].shape[-1]
    elif fn in ('m2', 'm3', 'mt'): M = mode_arrays(c); nm = c['nm']
    X = data_array(c) if fn in ('d2', 'dt', 'video') else None

    def mesh_fig(x, y, zs, mx, sc):
        def f(fig, t):
            ax = [a for a in fig['axes'] if a['mesh']]
            if len(ax) != len(zs): viol.append(f'{t}{len(ax)} panels instead of {len(zs)}'); return
            for a, z in zip(ax, zs):
                check_mesh(a['mesh'], x, y, z, t, viol)
                if mx is not None:
                    if sorted(a['h']) != sorted(float(y[j]) for j in mx[0]) or sorted(a['v']) != sorted(float(x[i]) for i in mx[1]): viol.append(f'{t}maximum marked at {a["v"]}, {a["h"]} instead of {[float(x[i]) for i in mx[1]]}, {[float(y[j]) for j in mx[0]]}')
                elif a['h'] or a['v']: viol.append(f'{t}maximum marked without request')
                if sc and (len(a['sc']) != 1 or not np.array_equal(a['sc'][0], coast(sc), equal_nan=True)): viol.append(f'{t}coastlines {sc} not drawn')
                if not sc and a['sc']: viol.append(f'{t}coastlines drawn without request')
                if c['ticks'] and (fn in ('m2', 'm3') or fn == 'd2' and not c['obj']) and (a['xt'] != [0.0, 0.5, 1.0] or a['yt'] != [0.25, 0.75]): viol.append(f'{t}ticks {a["xt"]}, {a["yt"]}')
                ev['panels'] = ev.get('panels', 0) + 1
        return f

    def line_fig(axes):
        def f(fig, t):
            ax = [a for a in fig['axes'] if a['lines']]
            if len(ax) != len(axes): viol.append(f'{t}{len(ax)} panels instead of {len(axes)}'); return
            for a, w in zip(ax, axes):
                w(a, t) if callable(w) else check_lines(a['lines'], w, t, viol)
                ev['curves'] = ev.get('curves', 0) + len(a['lines'])
        return f

    if fn == 'm2':
        for v in V:
            for m in lst(c['modes']):
                if m >= nm: continue
                z = M[o['fk']][..., v, m]
                if c['fftshift']: z = np.fft.fftshift(z, axes=1)
                if c['noaxes']: x, y, z = np.arange(c['xs'][0]), np.arange(c['xs'][1]), z.T
                else:
                    x, y = make_axis(c['x1']), make_axis(c['x2'])
                    if c['order'] == 'xy': z = z.T
                if c['shift']: z = np.roll(z, -(z.shape[1] // 2), axis=1); x = x - 180
                if c['lim']: lx, ly = slice(*c['lim'][0]), slice(*c['lim'][1]); x, y, z = x[lx], y[ly], z[ly, lx]
                exp.append((f'mode {m} of variable {v}: ', f'_var{v}_mode{m}', mesh_fig(x, y, [z.real, z.imag] if c['imag'] else [z.real], maxima(z) if c['max'] else None, c['coast'])))
    elif fn == 'm3':
        xs = [np.arange(n) for n in c['xs']] if c['noaxes'] else [make_axis(a) for a in c['axs']]
        for v in V:
            for m in lst(c['modes']):
                z = np.take(M[o['fk']][..., v, m], c['sid'] or 0, axis=c['dim'])
                if c['fftshift']: z = np.fft.fftshift(z, axes=1)
                q = [x for k, x in enumerate(xs) if k != c['dim']]
                z = z.T
                exp.append((f'slice {c["sid"]} along {c["dim"]} of mode {m} of variable {v}: ', f'_var{v}_mode{m}', mesh_fig(q[0], q[1], [z.real, z.imag] if c['imag'] else [z.real], maxima(z) if c['max'] else None, c['coast'])))
    elif fn == 'mt':
        xs, pts = points(c)
        fk = [float(o['freq_req']), float((o['freq'] if c['obj'] else freqs(c))[o['fk']])]
        for p in pts:
            idx = tuple(int(np.argmin(np.abs(x - q))) for x, q in zip(xs, p)); co = [xs[k][j] for k, j in enumerate(idx)]
            for v in V:
                ws = []
                for m in lst(c['modes']):
                    z = M[o['fk']][..., v, m]
                    if c['fftshift']: z = np.fft.fftshift(z, axes=1)
                    a = z[idx]
                    def w(ax, t, a=a, m=m):
                        if len(ax['lines']) != 1: viol.append(f'{t}{len(ax["lines"])} curves'); return
                        x, y, _ = ax['lines'][0]
                        if not any(np.max(np.abs(y - np.real(a * np.exp(-2j * np.pi * f * x)))) <= 1e-6 * (1 + abs(a)) for f in fk): viol.append(f'{t}mode {m} is not the oscillation of the mode at the point')
                        if x.size < 50 or x[0] != 0: viol.append(f'{t}time axis of {x.size} points from {x[0]}')
                    ws.append(w)
                exp.append((f'point {p} variable {v}: ', ('_coords', f'_var{v}_mode{lst(c["modes"])[-1]}', co), line_fig(ws)))
    elif fn == 'd2':
        for v in V:
            for t in lst(c['times']):
                z = X[t, ..., v].real
                if c['noaxes']: x, y, z = np.arange(c['xs'][0]), np.arange(c['xs'][1]), z.T
                else:
                    x, y = make_axis(c['x1']), make_axis(c['x2'])
                    if c['order'] == 'xy': z = z.T
                exp.append((f'snapshot {t} of variable {v}: ', f'_var{v}_time{t}', mesh_fig(x, y, [z], None, c['coast'])))
    elif fn == 'dt':
        xs, pts = points(c)
        for p in pts:
            idx = tuple(int(np.argmin(np.abs(x - q))) for x, q in zip(xs, p)); co = [xs[k][j] for k, j in enumerate(idx)]
            for v in V:
                t = np.arange(*c['tl'])
                exp.append((f'point {p} variable {v}: ', ('_coords', f'_var{v}', co), line_fig([[(t, X[(t,) + idx + (v,)].real)]])))
    elif fn == 'video':
        for v in V:
            t = np.arange(*c['tl'])[::c['samp']]
            def f(fig, tg, v=v, t=t):
                if len(fig['frames']) != len(t): viol.append(f'{tg}{len(fig["frames"])} frames instead of {len(t)}'); return
                for k, fr in zip(t, fig['frames']):
                    z = X[k, ..., v].real
                    if c['noaxes']: x, y, z = np.arange(c['xs'][0]), np.arange(c['xs'][1]), z.T
                    else:
                        x, y = make_axis(c['x1']), make_axis(c['x2'])
                        if c['order'] == 'xy': z = z.T
                    ev['frames'] = ev.get('frames', 0) + 1
                    if fr['n'] != 1 or not same_arr(np.reshape(fr['z'], z.shape) if np.size(fr['z']) == z.size else fr['z'], z): viol.append(f'{tg}frame of snapshot {k} shows other values'); return
                    if not same_arr(fr['xy'][..., 0], np.broadcast_to(x, z.shape)) or not same_arr(fr['xy'][..., 1], np.broadcast_to(np.asarray(y)[:, None], z.shape)): viol.append(f'{tg}frame of snapshot {k} on other axes'); return
                    if c['coast'] and (len(fr['sc']) != 1 or not np.array_equal(fr['sc'][0], coast(c['coast']), equal_nan=True)): viol.append(f'{tg}coastlines missing'); return
            exp.append((f'variable {v}: ', f'_var{v}', f))
    elif fn == 'co':
        a = gen.rs(c['seed'] + 7).standard_normal((6, c['nt']))
        for k in c['ids']: exp.append((f'coefficient {k}: ', f'_coeff_id{k}', line_fig([[(np.arange(c['nt']), a[k])]])))
    elif fn in ('cmp', 'hist'):
        g = gen.rs(c['seed'] + 7); a, b = g.standard_normal(c['nt']), g.standard_normal(c['nt'])
        exp.append(('', '', line_fig([[(np.arange(c['nt']), a), (np.arange(c['nt']), b)]])))
    elif fn == 'sub':
        g = gen.rs(c['seed'] + 7); vs = [g.standard_normal(c['xs']) for _ in range(c['n'])]
        def f(fig, t):
            ax = [a for a in fig['axes'] if a['mesh']]
            if len(ax) != len(vs): viol.append(f'{t}{len(ax)} panels instead of {len(vs)}'); return
            for a, z in zip(ax, vs): check_mesh(a['mesh'], np.arange(z.shape[1]), np.arange(z.shape[0]), z, t, viol)
        exp.append(('', '', f))
    elif fn in ('eig', 'eigf', 'eigp'):
        g = gen.rs(c['seed'] + 7); e = np.abs(g.standard_normal((c['nf'], c['nm']))) + 0.1; fr = np.arange(c['nf']) * 0.3
        if c['obj']: e, fr = o['eigs'], o['freq']
        if fn == 'eig':
            if not c['obj']: g = gen.rs(c['seed'] + 7); g.standard_normal((c['nf'], c['nm'])); e = g.standard_normal((c['nf'],)) + 1j * g.standard_normal((c['nf'],))
            def w(a, t):
                x = np.concatenate([l[0] for l in a['lines']]); y = np.concatenate([l[1] for l in a['lines']]) if not c['obj'] else np.concatenate([l[1] for l in a['lines']])
                if sorted(np.round(x, 9)) != sorted(np.round(np.real(e).ravel(), 9)) or sorted(np.round(y, 9)) != sorted(np.round(np.imag(e).ravel(), 9)) : viol.append(f'{t}eigenvalues drawn at {x[:3]}, {y[:3]} instead of {e.ravel()[:3]}')
            exp.append(('', '', line_fig([w])))
        else:
            with np.errstate(divide='ignore'): xx = fr if fn == 'eigf' else 1.0 / fr
            exp.append(('', '', line_fig([[(xx, e[:, k].real) for k in range(e.shape[1])]])))
    elif fn == 'report': return judge_report(c, o, M, tag, viol, ev)
    if len(figs) != len(exp): viol.append(f'{tag}{len(figs)} figures instead of {len(exp)}: {[f["name"] for f in figs][:4]}'); return
    for f, (d, parts, chk) in zip(figs, exp):
        check_name(c, o, f, parts, tag + d, viol)
        if fn != 'sub' and f.get('size') and fn not in ('mt',) and not same_arr(f['size'], c['size']): viol.append(f'{tag}{d}figure of size {f["size"]} instead of {c["size"]}')
        n = len(viol); chk(f, tag + d)
        if len(viol) > n: viol[-1] += f' {c}'


def judge_report(c, o, M, tag, viol, ev):
    freq, eigs = o['freq'], np.real(o['eigs'])
    x, y = make_axis(c['x1']), make_axis(c['x2'])
    seen, last = set(), None
    for f in o['figs']:
        if f['how'] != 'pdf': viol.append(f'{tag}page {f["how"]}'); return
        ms = [a for a in f['axes'] if a['mesh']]
        if ms:
            if last is None: viol.append(f'{tag}page of a mode without its frequency'); return
            k, m = last; last = None
            z = M[k][..., 0, m]; xx = x
            if c['shift']: z = np.roll(z, -(z.shape[1] // 2), axis=1); xx = x - 180
            check_mesh(ms[0]['mesh'], xx, y, z.real, f'{tag}mode {m} at frequency {k}: ', viol)
            ev['panels'] = ev.get('panels', 0) + 1
        else:
            if last is not None and last[1] < M[0].shape[-1]: viol.append(f'{tag}no mode page for {last}'); return
            a = f['axes'][0]
            mk = [l for l in a['lines'] if l[0].size == 1]
            check_lines([l for l in a['lines'] if l[0].size > 1], [(freq[1:], eigs[1:, q]) for q in range(eigs.shape[1])], tag, viol)
            if len(mk) != 1: viol.append(f'{tag}{len(mk)} markers'); return
            k = int(np.argmin(np.abs(freq - mk[0][0][0]))); m = int(np.argmin(np.abs(eigs[k] - mk[0][1][0])))
            if abs(freq[k] - mk[0][0][0]) > 1e-9 * abs(freq[k]) or abs(eigs[k, m] - mk[0][1][0]) > 1e-9 * eigs[k, m]: viol.append(f'{tag}marker at {mk[0][:2]} is no energy'); return
            if (k > 1 and eigs[k, m] <= eigs[k - 1, m]) or (k < len(freq) - 1 and eigs[k, m] <= eigs[k + 1, m]): viol.append(f'{tag}marker at frequency {k} of mode {m} is no peak'); return
            if (k, m) in seen: viol.append(f'{tag}peak {k} of mode {m} reported twice'); return
            seen.add((k, m)); last = (k, m)
            ev['peaks'] = ev.get('peaks', 0) + 1
    for m in range(eigs.shape[1]):
        v = eigs[1:, m]; k = int(np.argmax(v))
        if v[k] > 1.5 * np.mean(v[max(k - 5, 0):k + 5]) * 1.001 and v[k] > 1.5 * np.mean(v[max(k - 5, 0):k + 6]) * 1.001 and (k + 1, m) not in seen: viol.append(f'{tag}largest peak ({k + 1}) of mode {m} not reported {c}')


def judge(job, obs):
    viol, ev, sig = par.failures(obs, job), {}, []
    if viol: return {'viol': viol[:3], 'events': ev, 'sig': []}
    for i, c in enumerate(job['cases']):
        tag = f'case {i} ({c["fn"]}{", object" if c["obj"] else ""}): '
        for r, ob in enumerate(obs):
            o = ob['res'][i]
            if 'err' in o: viol.append(f'{tag}process {r} raised {o["err"]} {o.get("tb", "")[-400:]} {c}'); continue
            if r > 0:
                if o['figs']: viol.append(f'{tag}process {r} draws {len(o["figs"])} figures as well')
                continue
            judge_case(c, o, tag, viol, ev)
        sig.append((c['fn'], c['obj'], len(c.get('xs', [])), c.get('order'), c.get('imag'), c.get('max'), c.get('shift'), bool(c.get('lim')), c.get('dim'), c['save'], job.get('np', 0)))
        if len(viol) > 5: break
    return {'viol': viol[:6], 'events': ev, 'sig': sig, 'evals': len(job['cases']), 'sample': str(job['cases'][0])[:400]}
