"""Development tool: build and try planted bugs (never used by a check).
seed.py make SPEC.py   SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source; run with PYTHONPATH=cwd), optional NP
seed.py try ID [checks ...]"""
import sys, os, subprocess, json, shutil, re, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
BASE = '1609719'
ENV = dict(os.environ, LC_ALL='C.UTF-8', MPLBACKEND='Agg', TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='', MPI4PY_MPIABI='openmpi', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm_rsh_agent='/bin/false',
           OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none')
HEAD_SH = '''#!/bin/bash
# Run in the repository: exit 0 if it behaves as the property says, nonzero otherwise. Everything is written to a scratch directory that is removed.
D=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 MPLBACKEND=Agg TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= MPI4PY_MPIABI=openmpi PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=/bin/false
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export PYTHONPATH="$PWD" SCRATCH
SCRATCH=$(mktemp -d) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
export TMPDIR="$SCRATCH"
PY=/opt/venv/bin/python
cd "$SCRATCH" || exit 2
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy(i):
    w = f'/tmp/sw/{i}'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w])
    return w


def make_all(f):
    q = runpy.run_path(f)
    return [make(x) for x in q.get('SPECS', [q])]


def make(q):
    i = q['ID']; d = os.path.join(S, i)
    w = copy(i)
    for f, a, b in q['EDITS']:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(a) == 1, (i, f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.check_output(['git', '-C', w, 'diff']).decode()
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(q['DEMO'].lstrip('\n'))
    np_ = q.get('NP', 0)
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(HEAD_SH + (f'timeout -k 5 {q.get("TIMEOUT", 120)} /usr/bin/mpiexec.openmpi -n {np_} $PY "$D/demo.py" </dev/null\n' if np_ else f'timeout -k 5 {q.get("TIMEOUT", 120)} $PY "$D/demo.py"\n'))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': q['PROPERTY'], 'needs': q['NEEDS'], 'what_it_breaks': q['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    # changed lines must be original ones
    orig = 0
    for f in {e[0] for e in q['EDITS']}:
        bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '-l', 'HEAD', '--', f]).decode().splitlines()
        cur = None
        for l in subprocess.check_output(['git', '-C', w, 'diff', '-U0', '--', f]).decode().splitlines():
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m:
                a, n = int(m[1]), int(m[2] or 1)
                for k in range(a, a + n):
                    h = bl[k - 1].split()[0].lstrip('^')
                    ok = subprocess.call(['git', '-C', '/repo', 'merge-base', '--is-ancestor', h[:39], BASE]) == 0
                    orig += ok
                    if not ok: print(f'  NOTE {f}:{k} was added by own commit: {bl[k-1][60:120]}')
    if not orig: print(f'  WARNING: {i}: no original line changed')
    shutil.rmtree(w, ignore_errors=True)
    return i


def stable(w):
    e = dict(ENV, PYTHONPATH=w, TMPDIR='/tmp/sw', PYTHONHASHSEED='0')
    py = '/opt/venv/bin/python'
    r = sh([py, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests/test_utils_serial.py', '-k', 'postproc_3d or weights_2d or weights_3d'], cwd=w, env=e)
    ok = '3 passed' in r.stdout
    if not ok: print(r.stdout[-1500:])
    for t in ('test_parallel_npy', 'test_parallel_pr0'):
        r = sh(['timeout', '60', '/usr/bin/mpiexec.openmpi', '-n', '2', py, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--only-mpi', f'tests/test_utils_parallel.py::{t}'], cwd=w, env=e, stdin=subprocess.DEVNULL)
        if r.returncode or '1 passed' not in r.stdout: ok = False; print(r.stdout[-1500:])
    return ok


def trial(i, checks):
    d = os.path.join(S, i); w = copy(i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    r = sh([os.path.join(d, 'demo.sh')], cwd=w, env=ENV)
    print(f'{i}: demo clean rc={r.returncode}' + ('' if r.returncode == 0 else '  <<<<< BAD\n' + r.stdout[-1500:]))
    subprocess.check_call(['git', '-C', w, 'apply', os.path.join(d, 'patch.diff')])
    r = sh([os.path.join(d, 'demo.sh')], cwd=w, env=ENV)
    print(f'{i}: demo patched rc={r.returncode} {r.stdout.strip().splitlines()[-1][:200] if r.stdout.strip() else ""}' + ('  <<<<< BAD' if r.returncode == 0 else ''))
    if '-n' not in checks: print(f'{i}: stable tests {"pass" if stable(w) else "FAIL <<<<< BAD"}')
    for c in [x for x in checks if x != '-n'] or [prop]:
        r = sh([os.path.join(V, 'check'), c], cwd=V, env=dict(os.environ, VMON_REPO=w, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick', VMON_NOEVIDENCE='1'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        n = [l.strip()[:260] for l in r.stdout.splitlines() if l.startswith('   ') and not l.strip().startswith('job')]
        print(f'{i}: {c} rc={r.returncode} {"caught" if v else "MISSED <<<<<"} {len(v)} violations; {n[:1]}')
        if not v: print(r.stdout[-600:])
    shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for s in sys.argv[2:]: print('made', make_all(s))
    else:
        for i in sys.argv[2].split(','): trial(i, sys.argv[3:])
