"""Operations on the code under test, run inside workers. Everything observed is returned as plain data."""
import os, glob, zlib
import numpy as np
import yaml


def load_npz(path):
    with np.load(path) as z: return {k: np.array(z[k]) for k in z.files}


def read_modes(folder, nf, nms=None):
    """Modes as saved, read with plain numpy: list over frequencies."""
    out = []
    for f in range(nf):
        p = os.path.join(folder, 'modes', f'freq_idx_{f:08d}.npy')
        if os.path.exists(p): out.append(np.load(p))
        else:
            fl = sorted(glob.glob(os.path.join(folder, 'modes', f'freq_idx_f{f:08d}_m*.npy')))
            out.append(np.stack([np.load(x) for x in fl], axis=-1) if fl else None)
    return out


def read_folder(folder):
    """All result files of a fit, read with plain numpy/yaml."""
    o = {'files': sorted(os.path.relpath(os.path.join(dp, f), folder) for dp, _, fs in os.walk(folder) for f in fs)}
    e = os.path.join(folder, 'eigs_freq.npz')
    if os.path.exists(e): o['npz'] = load_npz(e)
    for n in ('weights', 'ltm_modes'):
        p = os.path.join(folder, n + '.npy')
        if os.path.exists(p): o[n] = np.load(p)
    p = os.path.join(folder, 'params_modes.yaml')
    if os.path.exists(p):
        with open(p) as f: o['params'] = yaml.load(f, Loader=yaml.FullLoader)
    if 'npz' in o: o['modes'] = read_modes(folder, len(o['npz']['freq']))
    o['folder'] = os.path.basename(folder)
    return o


def spod_class(kind):
    if kind == 'streaming':
        from pyspod.spod.streaming import Streaming as S
    else:
        from pyspod.spod.standard import Standard as S
    return S


def maybe_rel(path):
    """The same folder, for some names given relative to the working directory."""
    return os.path.relpath(path) if zlib.crc32(os.path.basename(path).encode()) % 3 == 0 else path


def fit(kind, data_list, params, weights, comm, savedir, variables=None):
    """Fit and return (object, observation)."""
    p = dict(params); p['savedir'] = maybe_rel(savedir)
    S = spod_class(kind)
    obj = S(params=p, weights=weights, comm=comm)
    r = obj.fit(data_list=data_list, variables=variables) if variables is not None else obj.fit(data_list=data_list)
    return obj, {'returned_self': r is obj, **attrs(obj)}


def pod_folder(obj):
    """Where a POD is saved (its documented place; the object has no public name for it)."""
    return os.path.join(str(obj.savedir), f'modes{int(obj.n_modes_save)}')


def attrs(s):
    o = {'eigs': np.array(s.eigs), 'freq': np.array(s.freq), 'n_freq': int(s.n_freq), 'n_blocks': int(s.n_blocks), 'n_modes': int(s.n_modes),
         'n_modes_save': int(s.n_modes_save), 'nt': int(s.nt), 'nx': int(s.nx), 'nv': int(s.nv), 'xdim': int(s.xdim), 'xshape': tuple(int(x) for x in s.xshape),
         'n_dft': int(s.n_dft), 'dt': float(s.dt), 'folder': str(s.savedir_sim), 'dim': int(s.dim), 'shape': tuple(int(x) for x in s.shape),
         'weights_local': np.array(s.weights)}
    return o


def exc_info(e):
    import traceback
    return {'exc': type(e).__name__, 'msg': str(e)[:300], 'tb': traceback.format_exc()[-1500:]}
