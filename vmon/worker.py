"""Runs a list of jobs against the code under test, serially or as one MPI process.

usage: python -m vmon.worker JOBS.pkl OUTDIR [--mpi]
Every job calls one registered operation in a scratch directory of its own and pickles what it
observed to OUTDIR/obs_<id>_<rank>.pkl.  Nothing is judged here.
"""
import os, sys, time, pickle, struct, signal, traceback, importlib, shutil, mmap, warnings

from . import envs
sys.path.insert(0, envs.REPO)


class CpuLimit(BaseException):
    pass


class Ctx:
    def __init__(self, job, comm, scratch, rank, size, world):
        self.job, self.comm, self.dir, self.rank, self.size = job, comm, scratch, rank, size
        self.world = world              # plain communicator for the harness's own use (None if serial)

    def sync(self):
        if self.world is not None: self.world.Barrier()

    def path(self, *a):
        return os.path.join(self.dir, *a)


def main():
    jobs_file, out = sys.argv[1], sys.argv[2]
    mpi = '--mpi' in sys.argv
    with open(jobs_file, 'rb') as f: jobs = pickle.load(f)
    warnings.simplefilter('ignore')
    world = None; rank, size = 0, 1
    if mpi:
        from mpi4py import MPI
        world = MPI.COMM_WORLD; rank, size = world.rank, world.size
        idle = int(os.environ.get('VMON_IDLE', '0'))        # processes of the world that take no part in any job
        if idle:
            n = size - idle
            world = world.Split(0 if rank < n else 1, rank)
            if rank >= n:
                while not all(os.path.exists(os.path.join(out, f'done_{r}')) for r in range(n)): time.sleep(0.03)
                return
            size = n
    devnull = os.open(os.devnull, os.O_WRONLY)
    log = os.open(os.path.join(out, f'log_{rank}.txt'), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.dup2(devnull, 1); os.dup2(log, 2)
    import pyspod
    assert os.path.realpath(pyspod.__file__).startswith(envs.REPO + os.sep), pyspod.__file__
    # progress board: (job, counter) per rank
    bpath = os.path.join(out, 'board')
    with open(bpath, 'r+b') as f: board = mmap.mmap(f.fileno(), 0)
    cnt = [0]

    def beat(jobid):
        cnt[0] += 1
        board[wrank * 16: wrank * 16 + 16] = struct.pack('qq', jobid, cnt[0])

    first, wrank = world, rank
    mods = {}
    home = os.getcwd()

    def on_cpu(sig, frm): raise CpuLimit('CPU budget of the job exhausted')
    signal.signal(signal.SIGPROF, on_cpu)

    for job in jobs:
        jid = job['id']
        if mpi and size > 1:            # the order of the processes in the communicator changes from job to job
            if world is not first: world.Free()
            world = first if jid % 2 else first.Split(0, size - wrank)
            rank = world.rank
        obsf = os.path.join(out, f'obs_{jid}_{rank}.pkl')
        if os.path.exists(obsf): continue
        beat(jid)
        with open(os.path.join(out, f'cur_{wrank}'), 'w') as f: f.write(str(jid))
        scratch = os.path.join(out, f'j{jid}')
        comm = None
        if rank == 0: os.makedirs(scratch, exist_ok=True)
        if mpi:
            world.Barrier()
            from . import tracecomm
            comm = tracecomm.make(world, job, lambda: beat(jid))
        ctx = Ctx(job, comm, scratch, rank, size, world)
        obs = None
        t0 = time.time()
        try:
            mod = mods.get(job['mod'])
            if mod is None: mod = mods[job['mod']] = importlib.import_module(job['mod'])
            if not mpi: signal.setitimer(signal.ITIMER_PROF, job.get('cpu', 120))
            if mpi: tracecomm.perturb_on(job, rank, lambda: beat(jid))
            try:
                obs = mod.run(job, ctx)
            finally:
                if mpi: tracecomm.perturb_off()
                if not mpi: signal.setitimer(signal.ITIMER_PROF, 0)
        except BaseException as e:
            obs = {'exc': type(e).__name__, 'msg': str(e)[:600], 'tb': traceback.format_exc()[-3000:]}
            if isinstance(e, (SystemExit, KeyboardInterrupt)): obs['exc'] = type(e).__name__
        obs['_t'] = time.time() - t0
        obs['_cwd_ok'] = os.getcwd() == home
        os.chdir(home)
        if comm is not None: obs['_trace'] = comm.vm_trace()
        tmp = obsf + '.tmp'
        with open(tmp, 'wb') as f: pickle.dump(obs, f, protocol=4)
        os.rename(tmp, obsf)
        beat(jid)
        if mpi:
            # wait for the others through the file system: they may be stuck in a collective call
            dead = time.time() + 12
            while True:
                if all(os.path.exists(os.path.join(out, f'obs_{jid}_{r}.pkl')) for r in range(size)): break
                if 'exc' in obs and time.time() > dead:
                    first.Abort(3)
                time.sleep(0.0005)
            world.Barrier()
            comm.Free()
        if rank == 0 and not job.get('keep'): shutil.rmtree(scratch, ignore_errors=True)
    with open(os.path.join(out, f'done_{wrank}'), 'w') as f: f.write('1')
    if not mpi: os._exit(0)


if __name__ == '__main__':
    main()
