"""C10: distributing, reducing and storing arrays in parallel."""
import os
import numpy as np
from .. import gen, ref, par

RULE = ('sequences of 14 operations per session on 1-8 processes: distribution of arrays (three routines), sums, moments, collective writes of random consecutive slices (1-4 dimensions, any axis, 13 element types, '
        '7 memory layouts, empty slices, over longer files) and collective reads of files in both storage orders with given or default counts, process grids; with and without delays; '
        'every process reports what it got and reads written files with plain numpy at once; distinct: (processes, operation, type, layout, axis, empties)')
ASSUMPTIONS = ['arrays without elements in a dimension other than the distributed one are not stored', 'sums are of contiguous arrays']
BUDGET = {'quick': 120, 'thorough': 2400}
TYPES = ['f8', 'f8', 'f8', 'f4', 'c16', 'c8', 'i8', 'i4', 'i2', 'u1', 'u8', '?', '>f8', '>c16', '>i4']


def rand_counts(rng, np_, total=None):
    k = rng.random()
    if k < 0.35: c = [rng.randint(0, 5) for _ in range(np_)]
    elif k < 0.5: c = [0] * np_; c[rng.randrange(np_)] = rng.randint(1, 9)
    elif k < 0.65:
        n = rng.randint(0, 12); c = [n // np_ + (n % np_ > r) for r in range(np_)]
    elif k < 0.8: c = [rng.randint(1, 6) for _ in range(np_)]; c[0] = 0
    else: c = [rng.randint(1, 6) for _ in range(np_)]; c[-1] = 0
    if sum(c) == 0: c[rng.randrange(np_)] = 1
    return c


def rand_op(rng, np_):
    k = rng.choice(['save', 'save', 'save', 'save', 'load', 'load', 'load', 'dist', 'dist', 'ddata', 'ddim', 'sum', 'sum', 'pvar', 'pvar', 'grid'])
    nd = rng.randint(1, 4)
    q = dict(k=k, seed=rng.getrandbits(30))
    if k == 'save':
        sh = [rng.randint(1, 5) for _ in range(nd)]; ax = rng.randrange(nd)
        counts = rand_counts(rng, np_)
        if rng.random() < 0.06:         # extents beyond what short integers hold
            sh = [1] * nd; counts[rng.randrange(np_)] = rng.choice([33000, 40000, 70000])
        q.update(shape=sh, axis=ax, counts=counts, dtype=rng.choice(TYPES), layout=rng.choice(['C', 'C', 'F', 'strided', 'T', 'neg', 'ro']),
                 over=rng.choice([0, 0, 10, 5000]), neg_axis=rng.random() < 0.1, name=f's{rng.getrandbits(40)}.npy', default_axis=(ax == 0 and rng.random() < 0.4))
    elif k == 'load':
        sh = [rng.randint(1, 6) for _ in range(nd)]; ax = rng.randrange(nd)
        counts = None
        if rng.random() < 0.55:
            counts = rand_counts(rng, np_); sh[ax] = sum(counts) + rng.choice([0, 0, 0, 2])
        else: sh[ax] = rng.randint(1, 20)
        q.update(shape=sh, axis=ax, counts=counts, dtype=rng.choice(TYPES[:-3]), order=rng.choice('CCF'), name=f'l{rng.getrandbits(40)}.npy', version=None)
    elif k in ('dist', 'ddata', 'ddim'):
        sh = [rng.randint(1, 12) for _ in range(nd + (k == 'ddata'))]
        if rng.random() < 0.3: sh = [rng.choice([3, 5]) for _ in sh]      # ties
        q.update(shape=sh, axis=rng.randrange(len(sh)), form=rng.choice(['np', 'np', 'xr']))
    elif k == 'sum':
        q.update(shape=[rng.randint(0, 6) for _ in range(nd)], dtype=rng.choice(['f8', 'f8', 'c16', 'f4', 'c8', 'i8', 'i4', '>f8', '>c16']), order=rng.choice('CF'))
    elif k == 'pvar':
        q.update(counts=rand_counts(rng, np_), kind=rng.choice(['noise', 'offset', 'int', 'c', 'const', 'scale', 'far']), two_d=rng.random() < 0.4)
    return q


def make_jobs(rng, tier):
    jobs = []
    for i in range(70 if tier == 'quick' else 1500):
        np_ = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8])
        if tier != 'quick' and rng.random() < 0.08: np_ = rng.choice([11, 12])      # more processes than cores
        jobs.append(dict(np=np_, ops=[rand_op(rng, np_) for _ in range(14)], delay=par.rand_delay(rng, np_) if i % 2 else None))
    return jobs


def values(seed, shape, dtype):
    g = gen.rs(seed)
    t = np.dtype(dtype)
    if t.kind == 'c': x = g.standard_normal(shape) + 1j * g.standard_normal(shape)
    elif t.kind == 'f': x = g.standard_normal(shape)
    elif t.kind == 'b': x = g.integers(0, 2, shape)
    elif t.kind == 'u': x = g.integers(0, 200, shape)
    else: x = g.integers(-100, 100, shape)
    return np.asarray(x).astype(t)


def whole(q):
    sh = list(q['shape'])
    if q['k'] == 'save': sh[q['axis']] = sum(q['counts'])
    return values(q['seed'], sh, q['dtype'])


def laid_out(x, layout):
    if layout == 'F': return np.asfortranarray(x)
    if layout == 'strided':
        b = np.empty([2 * n for n in x.shape], x.dtype); v = b[tuple(np.s_[::2] for _ in x.shape)]; v[...] = x; return v
    if layout == 'T': return np.ascontiguousarray(np.moveaxis(x, -1, 0)).transpose(*range(1, x.ndim), 0) if x.ndim > 1 else x.copy()
    if layout == 'neg': return np.ascontiguousarray(x[::-1])[::-1]
    if layout == 'ro': x = x.copy(); x.flags.writeable = False; return x
    return x.copy()


def cut(x, axis, a, b):
    i = [np.s_[:]] * x.ndim; i[axis] = np.s_[a:b]
    return x[tuple(i)]


def pvar_data(q):
    g = gen.rs(q['seed']); n = sum(q['counts'])
    sh = (n, 2) if q['two_d'] else (n,)
    x = g.standard_normal(sh)
    k = q['kind']
    if k == 'offset': x = x + 50
    if k == 'far': x = x * 0.1 + 1e7
    if k == 'int': x = g.integers(-20, 20, sh)
    if k == 'c': x = x + 1j * g.standard_normal(sh) + (2 - 3j)
    if k == 'const': x = np.full(sh, 3.5)
    if k == 'scale': x = x * 1e-6
    return x


def run(job, ctx):
    from .. import ops
    import pyspod.utils.parallel as up
    comm = ctx.comm; r = ctx.rank
    out = []
    for q in job['ops']:
        o = {}
        k = q['k']
        if k == 'save':
            s = int(np.sum(q['counts'][:r])); x = laid_out(cut(whole(q), q['axis'], s, s + q['counts'][r]), q['layout'])
            f = ctx.path(q['name'])
            if r == 0 and q['over']:
                with open(f, 'wb') as fh: fh.write(b'\x93' * q['over'])
            ctx.sync()
            if q['layout'] == 'xr':
                import xarray as xr
                x = xr.DataArray(x, dims=[f'd{j}' for j in range(x.ndim)])
            k0 = x.copy()
            kw = {} if q['default_axis'] else {'axis': q['axis'] - (x.ndim if q['neg_axis'] else 0)}
            up.npy_save(comm, f, x, **kw)
            try:
                y = np.load(f); o['y'], o['size'] = y, os.path.getsize(f)
            except Exception as e: o['err'] = repr(e)
            o['same'] = bool(np.array_equal(x, k0))
        elif k == 'load':
            f = ctx.path(q['name'])
            if r == 0:
                x = np.asarray(whole(q), order=q['order'])
                if q['version']:
                    with open(f, 'wb') as fh: np.lib.format.write_array(fh, x, version=q['version'])
                else: np.save(f, x)
            ctx.sync()
            kw = {} if q['counts'] is None else {'count': q['counts'][r]}
            y = up.npy_load(comm, f, axis=q['axis'], **kw)
            o['y'] = np.array(y); o['dt'] = np.asarray(y).dtype.str
        elif k in ('dist', 'ddata', 'ddim'):
            x = values(q['seed'], q['shape'], 'f8')
            if q['form'] == 'xr':
                import xarray as xr
                x = xr.DataArray(x, dims=[f'd{i}' for i in range(x.ndim)])
            if k == 'dist': y, ax, gs = up.distribute(x, comm)
            elif k == 'ddata': y, ax, gs = up.distribute_data(x, comm)
            else: y, ax, gs = up.distribute_dimension(x, q['axis'], comm), q['axis'], x.shape
            o.update(y=np.array(y), ax=int(ax), gs=tuple(int(v) for v in gs))
        elif k == 'sum':
            x = np.asarray(values(q['seed'] + r, q['shape'], q['dtype']), order=q['order']); k0 = x.copy()
            o['y'] = np.array(up.allreduce(x, comm)); o['same'] = bool(np.array_equal(x, k0))
        elif k == 'pvar':
            x = pvar_data(q); s = int(np.sum(q['counts'][:r]))
            x = x[s:s + q['counts'][r]]; k0 = x.copy()
            v, m, n = up.pvar(x, comm)
            o.update(v=complex(v), m=complex(m), n=int(n), same=bool(np.array_equal(x, k0)))
        elif k == 'grid':
            n, i, sub = up.create_subcomm(comm)
            members = sub.allgather(r)
            o.update(n=int(n), i=int(i), size=sub.Get_size(), rank=sub.Get_rank(), members=members)
            f = ctx.path(f'g{q["seed"]}_{i}.npy')
            x = np.full((sub.Get_rank() + 1, 2), float(r))
            up.npy_save(sub, f, x, axis=0)
            o['y'] = np.load(f)
            o['sum'] = float(np.asarray(up.allreduce(np.array([1.0 + r]), sub))[0])
            sub.Free()
        out.append(o)
    return {'out': out}


def judge(job, obs):
    np_ = job['np']
    viol, ev, sigs = par.failures(obs, job), {}, []
    if viol: return {'viol': [f'{v} ops {[(q["k"], q.get("dtype"), q.get("layout")) for q in job["ops"]]}' for v in viol]}
    for i, q in enumerate(job['ops']):
        O = [o['out'][i] for o in obs]
        tag = f'op {i} on {np_} processes {q}: '
        k = q['k']
        ev[k] = ev.get(k, 0) + np_
        if k == 'save':
            x = whole(q)
            for r, o in enumerate(O):
                if 'err' in o: viol.append(f'{tag}process {r} cannot read the file: {o["err"]}'); break
                y = o['y']
                if y.shape != x.shape or y.dtype.newbyteorder('=') != x.dtype.newbyteorder('=') or not np.array_equal(y, x):
                    viol.append(f'{tag}process {r} reads {y.dtype} {y.shape} {y.reshape(-1)[:4]} instead of {x.dtype} {x.shape} {x.reshape(-1)[:4]}'); break
                if not o['same']: viol.append(f'{tag}the array written was modified'); break
                if o['size'] > x.nbytes + 256: viol.append(f'{tag}the file has {o["size"]} bytes for {x.nbytes} bytes of data'); break
            sigs.append((np_, k, q['dtype'], q['layout'], q['axis'] - len(q['shape']), min(q['counts']) == 0, q['over'] > 0))
        elif k == 'load':
            x = whole(q); n = x.shape[q['axis']]
            c = q['counts'] or [len(v) for v in np.array_split(np.arange(n), np_)]
            got = [o['y'].shape[q['axis']] if o['y'].ndim == x.ndim else -1 for o in O]
            if q['counts'] is None:
                if sum(got) != n or max(got) - min(got) > 1: viol.append(f'{tag}default slices of {n} are {got}'); continue
                c = got
            s = 0
            for r, o in enumerate(O):
                e = cut(x, q['axis'], s, s + c[r]); s += c[r]
                if o['y'].shape != e.shape or np.dtype(o['dt']) != e.dtype or not np.array_equal(o['y'], e): viol.append(f'{tag}process {r} gets {o["dt"]} {o["y"].shape} {o["y"].reshape(-1)[:4]} instead of {e.dtype} {e.shape} {e.reshape(-1)[:4]}'); break
            sigs.append((np_, k, q['dtype'], q['order'], q['axis'] - len(q['shape']), q['counts'] is None, min(c) == 0))
        elif k in ('dist', 'ddata', 'ddim'):
            x = values(q['seed'], q['shape'], 'f8')
            off = 1 if k == 'ddata' else 0
            gs = x.shape[off:]
            ax = O[0]['ax']
            if any(o['ax'] != ax or o['gs'] != gs for o in O): viol.append(f'{tag}axis or global shape {[(o["ax"], o["gs"]) for o in O]}'); continue
            if k != 'ddim' and gs[ax] != max(gs): viol.append(f'{tag}axis {ax} is not the largest of {gs}')
            y = [o['y'] for o in O]
            if any(v.ndim != x.ndim for v in y): viol.append(f'{tag}dimensions {[v.shape for v in y]}'); continue
            n = [v.shape[ax + off] for v in y]
            if max(n) - min(n) > 1: viol.append(f'{tag}slices of sizes {n}')
            z = np.concatenate(y, axis=ax + off)
            if z.shape != x.shape or not np.array_equal(z, x): viol.append(f'{tag}slices do not make up the array')
            sigs.append((np_, k, len(q['shape']), q['form'], min(n) == 0))
        elif k == 'sum':
            xs = [values(q['seed'] + r, q['shape'], q['dtype']) for r in range(np_)]
            w = sum(v.astype(v.dtype.newbyteorder('=')) for v in xs)
            if w.dtype.kind in 'iu': t = 0
            else: t = 40 * np_ * np.finfo(w.dtype).eps * (np.max([np.max(np.abs(v), initial=0) for v in xs]) + 1e-300)
            for r, o in enumerate(O):
                if not ref.close(o['y'], w, t, f'{tag}sum on process {r}', viol): break
                if not o['same']: viol.append(f'{tag}summand modified'); break
                if not np.array_equal(o['y'], O[0]['y']): viol.append(f'{tag}processes 0 and {r} got different sums'); break
            sigs.append((np_, k, q['dtype'], q['order'], len(q['shape']), w.size == 0))
        elif k == 'pvar':
            x = pvar_data(q); v = np.mean(np.abs(x - np.mean(x)) ** 2); m = np.mean(x)
            t = 1e-12 * np.max(np.abs(x)) + 1e-300
            for r, o in enumerate(O):
                if o['n'] != x.size or abs(o['m'] - m) > t or abs(o['v'] - v) > 1e-11 * (v + np.max(np.abs(x)) * np.sqrt(v) + 1e-13 * np.max(np.abs(x)) ** 2): viol.append(f'{tag}process {r}: count {o["n"]}, mean {o["m"]}, variance {o["v"]} instead of {x.size}, {m}, {v}'); break
                if not o['same']: viol.append(f'{tag}data modified'); break
            sigs.append((np_, k, q['kind'], min(q['counts']) == 0, q['two_d']))
        elif k == 'grid':
            n = O[0]['n']
            groups = {}
            for r, o in enumerate(O):
                groups.setdefault(o['i'], []).append(r)
                if o['n'] != n or not 0 <= o['i'] < n or o['members'].count(r) != 1 or o['members'][o['rank']] != r or len(o['members']) != o['size']: viol.append(f'{tag}process {r}: {o}'); break
            if len(groups) != n or any(sorted(O[g[0]]['members']) != g for g in groups.values()) or len({len(g) for g in groups.values()}) != 1: viol.append(f'{tag}groups {groups} of {n}')
            else:
                for g in groups.values():
                    mem = O[g[0]]['members']
                    e = np.concatenate([np.full((j + 1, 2), float(m)) for j, m in enumerate(mem)])
                    for r in g:
                        if not np.array_equal(O[r]['y'], e) or O[r]['sum'] != float(sum(1 + m for m in mem)): viol.append(f'{tag}group {g}: file or sum wrong on process {r}'); break
            sigs.append((np_, k, n))
        if len(viol) > 5: break
    par.traces(obs, ev)
    return {'viol': viol[:5], 'events': ev, 'sig': sigs, 'evals': np_ * len(job['ops']), 'sample': str(job['ops'][:2])}
