"""Environment shared by all processes of a check."""
import os, sys

REPO = os.path.realpath(os.environ.get('VMON_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
MPIEXEC = '/usr/bin/mpiexec.openmpi'


def child_env(scratch):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('OMPI_', 'PMIX_', 'PRTE_', 'MPI4PY'))}
    e.update(
        PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', HOME='/root', LC_ALL='C.UTF-8',
        MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch, 'mpl'), TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='',
        MPI4PY_MPIABI='openmpi', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
        PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'),
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', HDF5_USE_FILE_LOCKING='FALSE',
        OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader',
        OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_plm_rsh_agent='/bin/false',
        OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none',
        OMPI_MCA_mpi_yield_when_idle='1', TMPDIR=scratch, VMON_REPO=REPO,
        PYTHONPATH=VERIF)
    return e
