"""C20: post-processing on any number of processes."""
import numpy as np
from .. import gen, ref, coef, par
from . import c07, c08, c09

RULE = ('random fits (batch, streaming, POD) by the first k of 1-7 processes (or serially), then 3 post-processing calls each by another number of them (projection, convolution, reconstruction, orthogonality, through '
        'functions and objects), often with no synchronisation between fit and post-processing, under random per-call delays, one slow process, or slow file creation on one process; every process reads every '
        'file at once after the call; oracle: the direct sums of C07, C08 and C09, and equality between processes; distinct: (kind of fit, processes of fit and of each call, kind of call, layout)')
ASSUMPTIONS = ['calls that write the same file are separated by a synchronisation of the caller']
BUDGET = {'quick': 240, 'thorough': 3000}


def rand_op(rng, c, k, kf):
    p = c['params']; n = p['n_dft']
    nf = n // 2 + 1 if not c['data']['cplx'] and not p.get('fullspectrum') else n
    kind = rng.choice(['op', 'op', 'conv', 'orth'])
    dk = rng.choice(['noise', 'noise', 'offset', 'span', 'fit', 'cnoise', 'trend'])
    nt = c['data']['nt'] if dk == 'fit' else rng.choice([1, 2, 5, 11, c['data']['nt']])
    q = dict(kind=kind, k=rng.randrange(k + 1), band=coef.rand_band(rng, nf, p['time_step'], n), nt=nt, dkind=dk, dseed=rng.getrandbits(30), tol=rng.choice([None, None, 1e-8, 1e-3]),
             svd=rng.choice([None, False, True]), api=rng.random() < 0.3, savedir=rng.choice([None, None, 'sub', 'a/b']), times=coef.rand_times(rng, nt), own=rng.random() < 0.2,
             rname=rng.choice([None, 'rec2']), rdir=rng.choice([None, 'recs']), form=rng.choice(['array', 'array', 'dropv', 'xarray', 'fortran', 'strided', 'reversed', 'readonly', 'int']), rel=rng.random() < 0.3, ids=rng.choice(['list', 'list', 'array', 'tuple']), single=rng.random() < 0.08,
             f=rng.random(), m=[rng.random(), rng.random()], copy=rng.random() < 0.4, later=rng.random() < 0.4, none=rng.random() < 0.3)
    if rng.random() < 0.5: q['k'] = k
    if dk == 'span' and rng.random() < 0.7: q['band'] = {'freq_idx': [rng.randrange(nf)]}
    if q['api']: q['k'] = kf
    return q


def make_case(rng, k):
    kf = k if rng.random() < 0.6 else rng.randrange(k + 1)
    kind = rng.choice(['standard', 'standard', 'standard', 'streaming', 'pod', 'pod'])
    if kind == 'pod':
        c = c09.rand_case(rng, k)
        if rng.random() < 0.3: c['data']['xshape'] = [rng.randint(1, 2) for _ in c['data']['xshape']]
        for q in c['ops']: q['k'] = kf if q['api'] else k if rng.random() < 0.5 else rng.randrange(k + 1)
    else:
        c = coef.rand_fit(rng)
        if rng.random() < 0.3: c['data']['xshape'] = [rng.randint(1, 2) for _ in c['data']['xshape']]
        if kind == 'streaming':
            for q in ('normalize_data', 'normalize_weights', 'mean_type', 'dtype'): c['params'].pop(q, None)
            c['params']['n_modes_save'] = rng.choice([1, 2, 3])
        c['ops'] = [rand_op(rng, c, k, kf) for _ in range(2)]
    c.update(kind=kind, kf=kf, at_once=rng.random() < 0.6)
    return c


def make_jobs(rng, tier):
    jobs = []
    for _ in range(130 if tier == 'quick' else 2500):
        k = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 7])
        cs = [make_case(rng, k) for _ in range(2)]
        if cs[0]['kind'] != 'pod' and rng.random() < 0.3:           # another fit into the folder of the first
            c = gen.sibling(rng, cs[0]); c.update(kf=k if rng.random() < 0.6 else rng.randrange(k + 1), at_once=rng.random() < 0.6, at=0)
            c['ops'] = [rand_op(rng, c, k, c['kf']) for _ in range(2)]
            cs[1] = c
        jobs.append(dict(np=k, cases=cs, delay=par.rand_delay(rng, k)))
    return jobs


def run(job, ctx):
    from .. import ops
    import pyspod.spod.utils as su
    from mpi4py import MPI
    subs = {0: None, ctx.size: ctx.comm}
    for k in range(1, ctx.size):
        s = ctx.comm.Split(0 if ctx.rank < k else MPI.UNDEFINED, ctx.rank)
        subs[k] = s if ctx.rank < k else None
    member = lambda k: ctx.rank < max(k, 1)
    res = []
    for i, c in enumerate(job['cases']):
        o, obj = {}, None
        d, w = gen.case_arrays(c)
        kf = c['kf']
        if member(kf):
            if c['kind'] == 'pod': obj, o = c09.fit_part(c, ctx.path(f'r{c.get("at", i)}'), subs[kf])
            else:
                obj, o = ops.fit(c['kind'], [gen.supplied(d, c)], c['params'], gen.weights_arg(w, c['wform']), subs[kf], ctx.path(f'r{c.get("at", i)}'))
                if not c['at_once']: o['disk'] = ops.read_folder(o['folder'])
        prev = kf
        o['ops'] = []
        for j, q in enumerate(c['ops']):
            # with fewer processes than before nobody has to wait, unless files are written again
            if not (j == 0 and c['at_once'] and max(q['k'], 1) <= max(prev, 1)): ctx.sync()
            if j == 0:      # processes that did not take part learn where the results are
                info = {x: o[x] for x in ('folder', 'freq', 'n_modes_save') if x in o}
                if max(q['k'], 1) > max(kf, 1): info = ctx.comm.bcast(info, root=0)
                o.update({x: v for x, v in info.items() if x not in o})
            else:
                info = ctx.comm.bcast({x: o[x] for x in ('folder', 'freq', 'n_modes_save') if x in o}, root=0)
                o.update({x: v for x, v in info.items() if x not in o})
            u = None
            if member(q['k']):
                cm = subs[q['k']]
                if c['kind'] == 'pod':
                    if 'modes' not in o: o['modes'] = np.load(o['folder'] + '/modes.npy')
                    u = c09.op_part(c, o, q, obj, cm)
                else:
                    if c['at_once'] and j == 0 and q['kind'] == 'orth': pass
                    elif 'disk' not in o and not (c['at_once'] and j == 0 and q['dkind'] != 'span'): o['disk'] = ops.read_folder(o['folder'])
                    o.setdefault('disk', None)
                    oo = o if o['disk'] is not None else {**o, 'disk': {'modes': None}}
                    if q['kind'] == 'op': u = c07.one(ops, su, c, obj, oo, q, comm=cm)
                    elif q['kind'] == 'conv': u = c08.one(su, c, obj, oo, q, comm=cm)
                    else:
                        nf, nm = len(o['freq']), o['n_modes_save']
                        ok, O = su.check_orthogonality(o['folder'], int(q['m'][0] * nm), int(q['m'][1] * nm), int(q['f'] * nf), comm=cm)
                        u = {'ok': np.array(ok), 'O': np.array(O)}
                    if o['disk'] is None: o.pop('disk')
            prev = q['k']
            o['ops'].append(u)
        ctx.sync()
        if c['kind'] != 'pod' and ctx.rank == 0: o['disk'] = ops.read_folder(o['folder'])
        res.append(o)
    return {'res': res}


def differ(a, b):
    """Where two observations differ (exact comparison)."""
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b: return k
            x = differ(a[k], b[k])
            if x is not None: return f'{k}.{x}' if x else k
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return None if a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc') else ''
    return None if a == b else ''


def judge(job, obs):
    viol, ev, sigs = par.failures(obs, job), {}, []
    par.traces(obs, ev)
    if viol: return {'viol': viol, 'events': ev, 'sig': []}
    for i, c in enumerate(job['cases']):
        o0 = obs[0]['res'][i]
        base = f'{job["np"]} processes, {c["kind"]} fit by {c["kf"]}, case {i} {c["params"]} {c["data"]}: '
        if c['kind'] == 'pod': c09.judge_case(c, o0, base + f'calls by {[q["k"] for q in c["ops"]]}: ', viol, ev)
        for j, q in enumerate(c['ops']):
            tag = base + f'call {j} by {q["k"]} {q}: '
            u0 = o0['ops'][j]
            if c['kind'] != 'pod':
                if q['kind'] == 'op': c07.judge_op(c, o0, q, u0, tag, viol, ev)
                elif q['kind'] == 'conv': c08.judge_op(c, o0, q, u0, tag, viol, ev)
                else:
                    nf, nm = len(o0['freq']), o0['n_modes_save']
                    P = o0['disk']['modes'][int(q['f'] * nf)].reshape(-1, nm)
                    W1 = o0['disk']['weights'].reshape(-1).astype(float)
                    a, b = P[:, int(q['m'][0] * nm)], P[:, int(q['m'][1] * nm)]
                    want = np.sum(a.conj() * W1 * b)
                    t = 1e-11 * np.sqrt(np.sum(W1 * np.abs(a) ** 2) * np.sum(W1 * np.abs(b) ** 2)) + 1e-300
                    ev['orthogonality'] = ev.get('orthogonality', 0) + 1
                    if u0['O'].size != 1 or not abs(u0['O'].reshape(-1)[0] - want) <= t: viol.append(f'{tag}inner product {u0["O"]} instead of {want}')
                    else:
                        dist = abs(want - 1) if int(q['m'][0] * nm) == int(q['m'][1] * nm) else abs(want)
                        if abs(dist - 2e-6) > t + 1e-9 and bool(np.all(u0['ok'])) != (dist < 2e-6): viol.append(f'{tag}orthogonality check said {u0["ok"]}, inner product is {want}')
            for r in range(1, max(q['k'], 1)):
                ur = obs[r]['res'][i]['ops'][j]
                ev['process_results'] = ev.get('process_results', 0) + 1
                x = differ(u0, ur)
                if x is not None: viol.append(f'{tag}process {r} sees another {x} than process 0')
            sigs.append((c['kind'], c['kf'], q['k'], q.get('kind'), len(c['data']['xshape']), c['data']['nv'], c['at_once']))
        for r in range(1, max(c['kf'], 1)):
            a, b = o0, obs[r]['res'][i]
            x = differ({k: a[k] for k in ('eigs', 'freq', 'modes', 'weights', 'files') if k in a and k in b}, {k: b[k] for k in ('eigs', 'freq', 'modes', 'weights', 'files') if k in b and k in a})
            if x is not None and c['kind'] == 'pod': viol.append(f'{base}process {r} sees another {x} of the fit than process 0')
        if c['kf'] != c['ops'][0]['k']: ev['other_count'] = ev.get('other_count', 0) + 1
        if len(viol) > 4: break
    return {'viol': viol[:5], 'events': ev, 'sig': sigs, 'evals': sum(len(c['ops']) for c in job['cases']), 'sample': str(job['cases'][0])[:500]}
