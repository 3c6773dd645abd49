"""Common parts of the checks that run on several processes."""
import numpy as np
from . import gen, ref


def rand_delay(rng, np_):
    """A perturbation of the relative speed of processes (or none)."""
    r = rng.random()
    d = dict(seed=rng.getrandbits(30))
    if r < 0.3: return None
    if r < 0.5: d['max'] = 0.003
    elif r < 0.7: d['max'] = 0.004; d['slow'] = rng.randrange(np_)
    else:
        d['fs'] = 0 if rng.random() < 0.7 else rng.randrange(np_)
        d['fs_s'] = rng.choice([0.02, 0.05, 0.1]); d['fs_n'] = 30
        if rng.random() < 0.3: d['max'] = 0.002
    return d


def rand_np(rng, big=True):
    return rng.choice([2, 2, 3, 3, 4, 5] if not big else [1, 2, 2, 3, 3, 4, 4, 5, 5, 7])


def failures(obs, job, expect_exc=False):
    """Complaints about processes that did not finish or raised."""
    out = []
    for r, o in enumerate(obs):
        if o is None: out.append(f'process {r} of {len(obs)} did not finish')
        elif o.get('nocomp'): out.append(f'process {r} of {len(obs)} does not complete: {o["msg"]}')
        elif 'exc' in o and not expect_exc: out.append(f'process {r} of {len(obs)} raised {o["exc"]}: {o["msg"]} {o.get("tb", "")[-300:]}')
    return out


def traces(obs, ev):
    for o in obs:
        t = (o or {}).get('_trace')
        if t:
            ev['comm_calls'] = ev.get('comm_calls', 0) + t['n']
            ev['delays'] = ev.get('delays', 0) + t['delays']


def lockstep(obs):
    """Every process made the same sequence of collective calls (recorded on the communicator)."""
    return None
