"""C17: emulation: scaling, training windows, inference."""
import os
import numpy as np
from .. import gen

RULE = ('random coefficients (real, complex, complex without imaginary part, zero and constant rows, single precision, integers, read-only) through scaling and back with every normalization; random window lengths, horizons and '
        'record lengths through the training (the arrays handed to the network are recorded; in a few cases the network is really trained) and the inference, whose every value is recomputed from the stored weights with an '
        'independent network evaluation; distinct: (kind, data, normalization, window lengths, remainder of the record, networks)')
ASSUMPTIONS = ['predictions of networks whose training itself diverged to non-finite weights are not judged', 'the last admissible training window may be left out (the library does)', 'the network is the LSTM the library builds; its arithmetic is single precision, tolerance 1e-4']
BUDGET = {'quick': 200, 'thorough': 1500}
WORKERS = 4
MIN_DISTINCT = 20


def scale_case(rng):
    return dict(k='scale', seed=rng.getrandbits(30), nf=rng.randint(1, 6), nt=rng.choice([1, 2, 7, 30]), cplx=rng.random() < 0.5, norm=rng.choice(['localmax', 'globalmax', 'none', 'LocalMax', 'GLOBALMAX', None]),
                dt=rng.choice(['d', 'd', 'd', 'f', 'i']), zero=rng.random() < 0.3, sign=rng.choice([0, 0, 1, -1]), mag=10.0 ** rng.uniform(-8, 8), caps=rng.random() < 0.2, ro=rng.random() < 0.3, other=rng.random() < 0.4)


def net_case(rng, real=False):
    a, b, nf = rng.randint(1, 6), rng.randint(1, 5), rng.randint(1, 4)
    nt = a + b + rng.randint(2, 14)
    return dict(k='net', seed=rng.getrandbits(30), a=a, b=b, nf=nf, nt=nt, nv=a + b + rng.randint(1, 6), ni=rng.choice([a, a + 1, a + b, a + 2 * b, a + rng.randint(0, 20)]), neurons=rng.randint(1, 4),
                cplx=rng.random() < 0.6, inf_real=rng.choice([0, 0, 0, 0, 'all', 'start', 'start', 'window', 'end', 'row']), train_real=rng.choice([0, 0, 0, 'start', 'end', 'row']), name=rng.choice(['lstm', 'lstm', 'LSTM', 'Lstm', None]), real=real, idx=rng.sample([0, 1, 2, 7, 12], rng.choice([1, 1, 2])), drop=rng.choice([0, 0.15]), fh=[rng.randint(1, 5) for _ in range(3)],
                epochs=rng.choice([1, 2]), batch=rng.choice([1, 4, 32]), layout=rng.choice(['C', 'F', 'T', 'ro']))


def bad_case(rng):
    return dict(k='bad', what=rng.choice(['network', 'fh', 'short', 'dtype', 'dtype2', 'dtype3']), seed=rng.getrandbits(30), a=rng.randint(2, 6), nf=rng.randint(1, 3), val=rng.choice([0, -1, -5]))


def make_jobs(rng, tier):
    q = tier == 'quick'
    jobs = [dict(cases=[scale_case(rng) for _ in range(25)], cpu=200) for _ in range(30 if q else 300)]
    jobs += [dict(cases=[net_case(rng) for _ in range(3)] + [bad_case(rng) for _ in range(2)], cpu=400) for _ in range(36 if q else 500)]
    jobs += [dict(cases=[net_case(rng, True)], cpu=400) for _ in range(6 if q else 80)]
    rng.shuffle(jobs)
    return jobs


def scale_data_of(c):
    g = gen.rs(c['seed'])
    x = g.standard_normal((c['nf'], c['nt'])) * c['mag'] * 10.0 ** g.uniform(-1, 1, (c['nf'], 1))
    if c['cplx']: x = x + 1j * g.standard_normal(x.shape) * c['mag'] * g.choice([1e-3, 1, 50])
    if c['sign']: x = c['sign'] * (np.abs(x.real) + (1j * np.abs(x.imag) if c['cplx'] else 0))
    if c['zero']:
        x[g.integers(c['nf'])] = 0
        if c['cplx'] and c['nf'] > 1: x[g.integers(c['nf'])] = x[g.integers(c['nf'])].real
    if c['dt'] == 'f': x = x.astype(np.complex64 if c['cplx'] else np.float32)
    if c['dt'] == 'i' and not c['cplx']: x = g.integers(-50, 51, x.shape)
    return x


def net_data(c):
    g = gen.rs(c['seed'])
    out = []
    for n in (c['nt'], c['nv'], c['ni']):
        x = np.cumsum(g.standard_normal((c['nf'], n)), axis=1) * 0.3
        if c['cplx']: x = x + 1j * g.standard_normal(x.shape)
        out.append(x)
    if c['cplx']:       # parts of the record without imaginary part
        k, a = c['inf_real'], c['a']
        if k == 'all': out[2].imag = 0
        if k == 'start': out[2][:, :a].imag = 0
        if k == 'window': out[2][:, :a + c['b']].imag = 0
        if k == 'end': out[2][:, -1:].imag = 0
        if k == 'row': out[2][:1].imag = 0
        for x in out[:2]:
            k = c['train_real']
            if k == 'start': x[:, :a + 1].imag = 0
            if k == 'end': x[:, -a - 1:].imag = 0
            if k == 'row' and c['nf'] > 1: x[:1].imag = 0
    return out


def lay(x, k):
    if k == 'F': return np.asfortranarray(x)
    if k == 'T': return np.ascontiguousarray(x.T).T
    x = x.copy()
    if k == 'ro': x.flags.writeable = False
    return x


class Hooks:
    """Records what is handed to the network; in fast mode the weights become random ones instead of trained ones."""
    def __init__(self, tf, fast, seed):
        self.tf, self.fast, self.seed, self.fits, self.n = tf, fast, seed, [], 0

    def __enter__(self):
        M = self.tf.keras.Model
        self.orig = (M.fit, M.predict)
        me = self
        of, op = self.orig

        def fit(self, x=None, y=None, *a, **k):
            vd = k.get('validation_data')
            me.fits.append(dict(x=np.array(x), y=np.array(y), vx=None if vd is None else np.array(vd[0]), vy=None if vd is None else np.array(vd[1]), epochs=k.get('epochs'), batch=k.get('batch_size')))
            if not me.fast: k['verbose'] = 0; return of(self, x, y, *a, **k)
            me.n += 1
            g = gen.rs(me.seed + me.n)
            self.set_weights([g.standard_normal(w.shape).astype('f') for w in self.get_weights()])
            for cb in k.get('callbacks') or []:
                cb.set_model(self)
                if hasattr(cb, 'filepath'): cb.on_epoch_end(0, {'loss': 1.0, 'val_loss': 1.0})
            class H: history = {'loss': [1.0], 'val_loss': [1.0]}
            return H()

        def predict(self, x, *a, **k):
            me.n_pred = getattr(me, 'n_pred', 0) + 1
            return np.asarray(self(np.asarray(x, 'f'), training=False))
        M.fit, M.predict = fit, predict
        return self

    def __exit__(self, *a):
        self.tf.keras.Model.fit, self.tf.keras.Model.predict = self.orig


def run(job, ctx):
    from .. import ops
    import tensorflow as tf
    from pyspod.emulation.neural_nets import Neural_Nets
    res = []
    for i, c in enumerate(job['cases']):
        o = {}
        try:
            if c['k'] == 'scale':
                x = scale_data_of(c)
                P = dict(data_type=('Complex' if c['caps'] else 'complex') if c['cplx'] else ('REAL' if c['caps'] else 'real'))
                if c['norm'] is not None: P['normalization'] = c['norm']
                e = Neural_Nets(P)
                y = x.copy()
                if c['ro']: y.flags.writeable = False
                v = e.scaler(y)
                s = e.scale_data(y, vec=v); s0 = np.array(s)
                r = e.descale_data(s, vec=v)
                o.update(vec=np.array(v), scaled=s0, back=np.array(r), same=bool(np.array_equal(x, y) and np.array_equal(s0, s)))
                if c['other']:
                    z = x[:, ::-1] * 3
                    o['back2'] = np.array(e.descale_data(e.scale_data(z, v), v))
            elif c['k'] == 'net':
                d = [lay(x, c['layout']) for x in net_data(c)]
                sd = ctx.path(f'n{i}'); os.makedirs(sd)
                e = Neural_Nets(dict(**({'network': c['name']} if c['name'] else {}), data_type='complex' if c['cplx'] else 'real', epochs=c['epochs'], batch_size=c['batch'], n_seq_in=c['a'], n_seq_out=c['b'], n_neurons=c['neurons'], dropout=c['drop'], savedir=sd))
                e.model_initialize(data=d[0])
                o['seq'] = []
                for fh in c['fh']:
                    try: xs, ys = e.extract_sequences(d[0], fh=fh); o['seq'].append((fh, np.array(xs), np.array(ys)))
                    except Exception as ex: o['seq'].append((fh, type(ex).__name__, str(ex)[:200]))
                with Hooks(tf, not c['real'], c['seed']) as H:
                    for ix in c['idx']: e.model_train(d[0], d[1], **({} if ix == 0 else {'idx': ix}))
                    o['fits'] = H.fits
                    o['files'] = sorted(os.listdir(sd))
                    o['w'] = {}
                    for fn in o['files']:
                        e.model.load_weights(os.path.join(sd, fn)); o['w'][fn] = [np.array(q) for q in e.model.get_weights()]
                    o['inf'] = [np.array(e.model_inference(d[2], **({} if ix == 0 else {'idx': ix}))) for ix in c['idx']]
                    o['predictions'] = getattr(H, 'n_pred', 0)
                o['same'] = all(np.array_equal(a, b) for a, b in zip(d, net_data(c)))
            else:
                g = gen.rs(c['seed'])
                x = g.standard_normal((c['nf'], c['a'] + 12))
                sd = ctx.path(f'n{i}')
                P = dict(data_type='real', n_seq_in=c['a'], n_seq_out=1, savedir=sd)
                w = c['what']
                o['refused'] = ''
                try:
                    if w == 'network': Neural_Nets({**P, 'network': ['rnn', 'gru', '', 'lstm2'][c['seed'] % 4]}).model_initialize(x)
                    elif w == 'fh': e = Neural_Nets(P); e._n_features = c['nf']; e.extract_sequences(x, fh=c['val'])
                    elif w == 'short': e = Neural_Nets(P); e.model_initialize(x); e.model_inference(x[:, :c['a'] - 1])
                    else:
                        e = Neural_Nets({**P, 'data_type': ['int', '', 'cmplx', 'double'][c['seed'] % 4]})
                        if w == 'dtype': e.scaler(x)
                        elif w == 'dtype2': e.scale_data(x, vec=np.ones(c['nf']))
                        else: e.descale_data(x, vec=np.ones(c['nf']))
                except Exception as ex: o['refused'] = f'{type(ex).__name__}: {ex}'[:200]
        except Exception as ex: o = ops.exc_info(ex)
        res.append(o)
    return {'res': res}


def sg(x): return 0.5 * (1 + np.tanh(0.5 * x))


def lstm(w, x):
    """Independent evaluation: x (n_seq_in, n_features)."""
    K, R, B, D, b = [q.astype(np.float64) for q in w]
    u = R.shape[0]
    h = np.zeros(u); cc = np.zeros(u)
    for t in range(x.shape[0]):
        z = x[t] @ K + h @ R + B
        i, f, g, o = z[:u], z[u:2 * u], z[2 * u:3 * u], z[3 * u:]
        cc = sg(f) * cc + sg(i) * np.tanh(g); h = sg(o) * np.tanh(cc)
    return h @ D + b


def windows(x, a, b, fh):
    nt = x.shape[1]
    n = nt - a - b - fh + 2
    X = np.array([x[:, t:t + a].T for t in range(n)])
    Y = np.array([x[:, t + a - 1 + fh:t + a - 1 + fh + b].T.reshape(-1) for t in range(n)])
    return n, X, Y


def check_windows(x, a, b, fh, X, Y, tag, viol, ev):
    n, X0, Y0 = windows(np.real(x), a, b, fh)
    m = X.shape[0]
    if m not in (n, n - 1) or Y.shape[0] != m: viol.append(f'{tag}{m} and {Y.shape[0]} sequences of {x.shape[1]} snapshots (windows {a}, {b}, horizon {fh})'); return
    if X.shape[1:] != X0.shape[1:] or Y.shape[1:] != Y0.shape[1:]: viol.append(f'{tag}sequences of shape {X.shape}, {Y.shape}'); return
    ev['windows'] = ev.get('windows', 0) + m
    for nm, A, A0 in (('input', X, X0[:m]), ('output', Y, Y0[:m])):
        e = np.abs(A - A0)
        if e.size and not np.max(e) <= 1e-6 * (1 + np.max(np.abs(A0))): viol.append(f'{tag}{nm} sequence {int(np.argmax(e.reshape(m, -1).max(axis=1)))} is not the data of its window (windows {a}, {b}, horizon {fh})'); return


def judge(job, obs):
    o0 = obs[0]
    if 'exc' in o0: return {'viol': [f'{o0["exc"]}: {o0["msg"]} {o0.get("tb", "")[-500:]}']}
    viol, ev, sig = [], {}, []
    for i, (c, o) in enumerate(zip(job['cases'], o0['res'])):
        tag = f'case {i} ({c["k"]}): '
        if 'exc' in o: viol.append(f'{tag}raised {o["exc"]}: {o["msg"]} {o["tb"][-500:]} {c}'); continue
        if c['k'] == 'bad':
            ev['refusals'] = ev.get('refusals', 0) + 1
            if not o['refused']: viol.append(f'{tag}{c["what"]} accepted {c}')
            sig.append(('bad', c['what']))
        elif c['k'] == 'scale': judge_scale(c, o, tag, viol, ev); sig.append(('scale', c['cplx'], c['norm'], c['dt'], c['zero'], c['sign'], c['nt'] == 1))
        else: judge_net(c, o, tag, viol, ev); sig.append(('net', c['cplx'], c['inf_real'], c['train_real'], c['a'], c['b'], (c['ni'] - c['a']) % c['b'], len(c['idx']), c['real']))
        if len(viol) > 5: break
    return {'viol': viol[:6], 'events': ev, 'sig': sig, 'evals': len(job['cases']), 'sample': str(job['cases'][0])[:400]}


def judge_scale(c, o, tag, viol, ev):
    x = scale_data_of(c)
    eps = 1e-5 if c['dt'] == 'f' else 1e-11
    ev['scalings'] = ev.get('scalings', 0) + 1
    if not o['same']: viol.append(f'{tag}the data were modified {c}')
    tol = eps * np.max(np.abs(x))
    pairs = [('back', x)] + ([('back2', x[:, ::-1] * 3)] if c['other'] else [])
    for k, want in pairs:
        if o[k].shape != want.shape or not np.all(np.abs(o[k] - want) <= 3 * tol): viol.append(f'{tag}scaling and undoing it changes the data by {np.max(np.abs(o[k] - want)) if o[k].shape == want.shape else o[k].shape} {c}'); return
    n = (c['norm'] or 'localmax').lower()
    s = o['scaled']
    if n != 'none':
        for nm, q in (('real', s.real), ('imaginary', s.imag)):
            if not np.all(np.abs(q) <= 1 + 1e-5): viol.append(f'{tag}scaled {nm} part reaches {np.max(np.abs(q)):.6g} {c}')
    # a fixed factor per row (the same for all rows for the global maximum)
    for nm, q, xx in (('real', s.real, x.real), ('imaginary', s.imag, np.imag(x))):
        m = np.abs(xx) > 1e-3 * np.max(np.abs(xx), axis=1, keepdims=True)
        r = np.where(m, q / np.where(m, xx, 1), np.nan)
        for row in (r if n == 'localmax' else [r]):
            v = row[np.isfinite(row)]
            if v.size and not (np.max(v) - np.min(v) <= 2e-4 * abs(np.max(v)) and np.min(v) > 0): viol.append(f'{tag}the {nm} part is not scaled by one positive factor ({np.min(v):.6g} to {np.max(v):.6g}) {c}'); break


def judge_net(c, o, tag, viol, ev):
    d = net_data(c)
    a, b = c['a'], c['b']
    if not o['same']: viol.append(f'{tag}the data were modified')
    for q in o['seq']:
        fh = q[0]
        n = c['nt'] - a - b - fh + 2
        if isinstance(q[1], str):
            if n > 1: viol.append(f'{tag}extraction with horizon {fh} raised {q[1]}: {q[2]} {c}')
            continue
        if n >= 1: check_windows(d[0], a, b, fh, q[1], q[2], f'{tag}horizon {fh}: ', viol, ev)
    parts = ['real', 'imag'] if np.iscomplexobj(d[0]) and not np.isreal(d[0]).all() else ['real']
    want = sorted(f'{p}{ix}.weights.h5' for p in parts for ix in c['idx'])
    if o['files'] != want: viol.append(f'{tag}weights stored as {o["files"]}, expected {want}'); return
    if len(o['fits']) != len(want): viol.append(f'{tag}{len(o["fits"])} trainings instead of {len(want)}'); return
    for k, f in enumerate(o['fits']):
        p = parts[k % len(parts)]
        pick = (lambda z: z.real) if p == 'real' else (lambda z: z.imag)
        check_windows(pick(d[0]), a, b, 1, f['x'], f['y'], f'{tag}training of the {p} part: ', viol, ev)
        if f['vx'] is not None: check_windows(pick(d[1]), a, b, 1, f['vx'], f['vy'], f'{tag}validation of the {p} part: ', viol, ev)
        if f['epochs'] != c['epochs'] or f['batch'] != c['batch']: viol.append(f'{tag}trained with {f["epochs"]} epochs of batches of {f["batch"]}')
        ev['trainings'] = ev.get('trainings', 0) + 1
    x = d[2]
    hasim = not np.isreal(x).all()
    for ix, got in zip(c['idx'], o['inf']):
        if not all(np.isfinite(v).all() for p in (parts if hasim else ['real']) for v in o['w'][f'{p}{ix}.weights.h5']): ev['diverged'] = ev.get('diverged', 0) + 1; continue
        if got.shape != x.shape: viol.append(f'{tag}inference of shape {got.shape} for data {x.shape}'); continue
        ref = np.zeros(x.shape, complex)
        ref[:, :a] = x[:, :a]
        for t in range(a, c['ni'], b):
            y = lstm(o['w'][f'real{ix}.weights.h5'], x[:, t - a:t].T.real).astype(complex)
            if hasim: y = y + 1j * lstm(o['w'][f'imag{ix}.weights.h5'], x[:, t - a:t].T.imag)
            y = y.reshape(b, c['nf']).T
            e = min(t + b, c['ni'])
            ref[:, t:e] = y[:, :e - t]
            ev['predictions'] = ev.get('predictions', 0) + 1
        if not np.array_equal(got[:, :a], x[:, :a]): viol.append(f'{tag}the initial snapshots are not copied {c}')
        dv = np.abs(got - ref)
        if not np.all(dv <= 1e-4 * (1 + np.max(np.abs(ref)))):
            k = int(np.argmax(dv.max(axis=0))); viol.append(f'{tag}network {ix}: prediction at snapshot {k} of {c["ni"]} (windows {a}, {b}) differs by {dv.max():.3g} {c}')
