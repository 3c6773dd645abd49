"""A communicator that records the calls made on it and perturbs their timing, and perturbations of
file-system operations of single processes.  Both only slow processes down; neither changes what an
operation does.
"""
import os, time, random, zlib
from mpi4py import MPI

_TRACED = ['Barrier', 'Allreduce', 'allreduce', 'bcast', 'Bcast', 'Scan', 'Allgather', 'allgather', 'gather',
           'reduce', 'Reduce', 'Isend', 'Irecv', 'Send', 'Recv', 'Igatherv', 'Gather', 'Gatherv', 'scatter',
           'Exscan', 'scan', 'Alltoall', 'Alltoallv', 'Create_cart', 'Iallreduce', 'Ibarrier', 'Ibcast']


class _State:
    def __init__(self): self.log = []; self.rng = None; self.dmax = 0; self.beat = None; self.slow = False; self.n = 0


class TracedComm(MPI.Intracomm):
    vm = None

    def vm_trace(self):
        names = [x for x in self.vm.log]
        return {'n': len(names), 'crc': zlib.crc32('|'.join(names).encode()), 'tail': names[-6:],
                'kinds': sorted(set(names)), 'delays': self.vm.n}


def _wrap(name):
    base = getattr(MPI.Intracomm, name, None)
    if base is None: return
    def f(self, *a, **k):
        vm = self.vm
        if vm is None: return base(self, *a, **k)
        vm.log.append(name)
        if vm.beat: vm.beat()
        if vm.dmax:
            r = vm.rng.random()
            if vm.slow or r < 0.5:
                vm.n += 1; time.sleep(vm.dmax * vm.rng.random())
        return base(self, *a, **k)
    f.__name__ = name
    setattr(TracedComm, name, f)


for _n in _TRACED: _wrap(_n)
# the code under test finds the MPI module through the module of the communicator's class
TracedComm.__module__ = 'mpi4py.MPI'


def make(world, job, beat):
    c = TracedComm(world.Dup())
    vm = _State(); vm.beat = beat
    d = job.get('delay') or {}
    vm.rng = random.Random(d.get('seed', 0) * 1009 + world.rank)
    vm.dmax = d.get('max', 0.0)
    vm.slow = d.get('slow') == world.rank
    c.vm = vm
    return c


_saved = {}


def perturb_on(job, rank, beat):
    """Slow down file operations of one process (job['delay']['fs'] = rank, 'fs_s' seconds)."""
    d = job.get('delay') or {}
    if d.get('fs') is None or d['fs'] != rank: return
    import numpy as np, yaml
    s = d.get('fs_s', 0.02)
    rng = random.Random(d.get('seed', 0) + 77)
    budget = [d.get('fs_n', 60)]

    def nap(p=1.0):
        if budget[0] > 0 and rng.random() < p:
            budget[0] -= 1; beat(); time.sleep(s)

    def pre(mod, name, both=False):
        f = getattr(mod, name); _saved[(mod, name)] = f
        def g(*a, **k):
            nap()
            r = f(*a, **k)
            if both: nap(0.3)
            return r
        setattr(mod, name, g)
    for mod, name in ((os, 'makedirs'), (os, 'mkdir'), (np, 'save'), (np, 'savez'), (np, 'load'), (yaml, 'dump'), (yaml, 'load'), (np.lib.format, 'open_memmap')):
        pre(mod, name, both=True)


def perturb_off():
    for (mod, name), f in list(_saved.items()): setattr(mod, name, f)
    _saved.clear()
