"""Runs jobs in worker processes (serial) and MPI sessions, watches their progress, collects
what they observed.  A job that makes no progress is run again alone before it is reported."""
import os, sys, time, pickle, signal, subprocess, shutil, threading, queue

from . import envs

STALL_S = float(os.environ.get('VMON_STALL', '45'))   # no progress of any process for this long: the job is stuck


class Session:
    """One worker process or one mpiexec with `np` processes running a list of jobs in order."""
    def __init__(self, jobs, np_, base, tag):
        self.jobs, self.np, self.dir = jobs, np_, os.path.join(base, tag)
        self.out = {}          # jid -> list of obs per rank (None: no observation)
        self.verdict = None    # 'done' | 'stall' | 'died'
        self.cur = None

    def run(self, runner):
        os.makedirs(self.dir, exist_ok=True)
        jf = os.path.join(self.dir, 'jobs.pkl')
        with open(jf, 'wb') as f: pickle.dump(self.jobs, f, protocol=4)
        n = max(1, self.np)
        board = os.path.join(self.dir, 'board')
        with open(board, 'wb') as f: f.write(b'\0' * 16 * n)
        # a short path for the session files of MPI
        env = envs.child_env(self.dir)
        cmd = [envs.PY, '-m', 'vmon.worker', jf, self.dir]
        if self.np:
            idle = 1 if self.np % 3 else 0          # a process outside the communicator
            env['VMON_IDLE'] = str(idle)
            cmd = [envs.MPIEXEC, '-n', str(self.np + idle)] + cmd + ['--mpi']
        env['TMPDIR'] = tmp = os.path.join(self.dir, 't'); os.makedirs(tmp, exist_ok=True)
        with open(os.path.join(self.dir, 'stdio.txt'), 'ab') as lg:
            p = subprocess.Popen(cmd, env=env, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=lg, stderr=lg, start_new_session=True)
        last, t_last, over = None, time.time(), False
        while True:
            rc = p.poll()
            if rc is not None: break
            with open(board, 'rb') as f: b = f.read()
            now = time.time()
            if b != last: last, t_last = b, now
            limit = STALL_S if any(b) else 90
            if now - t_last > limit: self.verdict = 'stall'; break
            if now > runner.deadline: over = True; break
            time.sleep(0.05)
        kill_group(p)
        for j in self.jobs:
            obs = []
            for r in range(n):
                fn = os.path.join(self.dir, f'obs_{j["id"]}_{r}.pkl')
                o = None
                if os.path.exists(fn):
                    try:
                        with open(fn, 'rb') as f: o = pickle.load(f)
                    except Exception: o = None
                obs.append(o)
            if any(o is not None for o in obs): self.out[j['id']] = obs
        done = all(os.path.exists(os.path.join(self.dir, f'done_{r}')) for r in range(n))
        curs = []
        for r in range(n):
            try: curs.append(int(open(os.path.join(self.dir, f'cur_{r}')).read()))
            except Exception: pass
        # the job in progress: the first one in order that somebody started and not everybody finished
        started = set(curs)
        self.cur = None
        for j in self.jobs:
            full = j['id'] in self.out and all(o is not None for o in self.out[j['id']])
            if not full and (j['id'] in started or j['id'] in self.out):
                self.cur = j['id']; break
        self.started = bool(curs)
        if over: self.verdict = 'over'
        elif self.verdict is None: self.verdict = 'done' if done else 'died'
        self.rc = p.returncode
        try: self.tail = open(os.path.join(self.dir, 'stdio.txt'), errors='replace').read()[-1500:]
        except Exception: self.tail = ''
        return self


def kill_group(p):
    try: os.killpg(p.pid, signal.SIGTERM)
    except Exception: pass
    if p.poll() is None:
        t = time.time()
        while p.poll() is None and time.time() - t < 2: time.sleep(0.02)
    try: os.killpg(p.pid, signal.SIGKILL)
    except Exception: pass
    # processes started by mpiexec may be in groups of their own: find them by their scratch directory
    try:
        out = subprocess.run(['pgrep', '-f', 'vmon.worker ' + p.args[-3 if p.args[-1] == '--mpi' else -2]], capture_output=True, text=True).stdout.split()
        for x in out:
            try: os.kill(int(x), signal.SIGKILL)
            except Exception: pass
    except Exception: pass
    p.wait()


class Runner:
    def __init__(self, scratch, deadline, tokens=8, stop=None):
        self.scratch, self.deadline = scratch, deadline
        self.obs = {}           # jid -> list of obs per rank or [{'stall':..}] ...
        self.lock = threading.Condition()
        self.tokens = tokens
        self.total = tokens
        self.notes = []
        self.seq = 0
        self.restarts = {}
        self.abort = False      # a stuck job was confirmed: no need to look for more
        self.q = queue.Queue()  # (jid, obs) as they become available

    def _take(self, n):
        n = min(n, self.total)
        with self.lock:
            while self.tokens < n: self.lock.wait(1.0)
            self.tokens -= n
        return n

    def _give(self, n):
        with self.lock:
            self.tokens += n; self.lock.notify_all()

    def _session(self, jobs, np_):
        with self.lock: self.seq += 1; tag = f's{self.seq}'
        n = self._take(max(1, np_))
        try:
            s = Session(jobs, np_, self.scratch, tag).run(self)
        finally: self._give(n)
        if not os.environ.get('VMON_KEEP'): shutil.rmtree(s.dir, ignore_errors=True)
        return s

    def _emit(self, jid, obs):
        with self.lock:
            if jid in self.obs: return
            self.obs[jid] = obs
        self.q.put((jid, obs))

    def lane(self, jobs, np_):
        """Run jobs in one lane, restarting sessions that end early."""
        todo = list(jobs)
        restarts, launch_fail = 0, 0
        while todo and not self.abort and time.time() < self.deadline:
            s = self._session(todo, np_)
            n = max(1, np_)
            for jid, o in s.out.items():
                if all(x is not None for x in o): self._emit(jid, o)
            rest = [j for j in todo if j['id'] not in self.obs]
            if s.verdict in ('done', 'over') or not rest: break
            if s.cur is None:
                launch_fail += 1
                self.notes.append(f'session of {n} ended ({s.verdict}, rc {s.rc}) before any job: {s.tail[-300:]}')
                if launch_fail >= 3: break
                time.sleep(1.0)
                continue
            restarts += 1
            bad = next(j for j in rest if j['id'] == s.cur)
            part = s.out.get(s.cur)
            if part is not None and any(x is not None and 'exc' in x for x in part):
                # some process raised, others never finished
                self._emit(s.cur, part)
            elif s.verdict in ('stall', 'died'):
                again = self._session([bad], np_)
                o = again.out.get(bad['id'])
                if o is not None and all(x is not None for x in o): 
                    self.notes.append(f'job {bad["id"]} on {n} ({s.verdict}) completed when repeated')
                    self._emit(bad['id'], o)
                elif o is not None and any(x is not None and 'exc' in x for x in o): self._emit(bad['id'], o)
                elif again.verdict == 'over': break
                elif again.cur is None: self.notes.append(f'job {bad["id"]}: repeat did not start')
                else:
                    o = o or [None] * n
                    self._emit(bad['id'], [x if x is not None else {'exc': 'NoCompletion', 'msg': f'{again.verdict} twice (rc {again.rc}) {again.tail[-200:]}', 'nocomp': again.verdict} for x in o])
                    if again.verdict == 'stall': self.abort = True
            todo = [j for j in rest if j['id'] not in self.obs and j['id'] != bad['id']]
            if restarts >= 8: self.notes.append(f'lane of {n}: too many restarts, {len(todo)} jobs left'); break

    def run(self, jobs, serial_workers=7):
        by = {}
        for j in jobs: by.setdefault(j.get('np', 0), []).append(j)
        th = []
        ser = by.pop(0, [])
        if ser:
            k = max(1, min(serial_workers, (len(ser) + 3) // 4))
            for i in range(k):
                th.append(threading.Thread(target=self.lane, args=(ser[i::k], 0), daemon=True))
        for n in sorted(by, reverse=True):
            js = by[n]
            k = 2 if len(js) >= 40 and n <= 3 else 1
            for i in range(k): th.append(threading.Thread(target=self.lane, args=(js[i::k], n), daemon=True))
        for t in th: t.start()
        self.threads = th

    def alive(self):
        return any(t.is_alive() for t in self.threads)
