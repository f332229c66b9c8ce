"""Small analyzers on fixed trajectories, and their uniform use."""
import numpy as np
from . import traj as T
from . import ref

_CACHE = {}


def walk(F=12, mobile=2, framework=1, cell='ortho', salt=0, scale=0.7):
    """A trajectory whose mean-squared quantities grow with time (all atoms share a steady drift component)."""
    n = mobile + framework
    pos = T.irregular(F, n, scale=scale, salt=salt) + 5
    # a steady, atom-dependent drift of the mobile atoms makes the gradient positive
    step = np.array([0.35, 0.28, 0.31])
    for a in range(mobile):
        pos[:, a] += np.arange(F)[:, None] * step * (1 + 0.1 * a)
    return T.Traj(pos, T.CELLS[cell], ['Li'] * mobile + ['O'] * framework)


def build(kind, F=12, mobile=2, framework=1, cell='ortho', salt=0, charge=1, parser=None, factor=1.0, **up):
    from . import kin
    key = (F, mobile, framework, cell, salt, factor)
    if key not in _CACHE:
        t = walk(*key[:-1])
        _CACHE[key] = T.Traj(5 + (t.pos - 5) * factor, t.cells, t.species).ase()
    pp = dict(specie='Li', time_step=0.2, step_skip=1, progress=False)
    pp.update(parser or {})
    up.setdefault('progress', False)
    return kin.ANALYZERS[kind].from_ase(_CACHE[key], pp, uncertainty_params=up,
                                        **({'ionic_charge': charge} if kind == 'S' else {}))


def fit(kind, a, start, temperature=300.0, **kw):
    kw.setdefault('progress', False)
    if kind == 'D':
        return a.diffusion(start, kw)
    if kind == 'J':
        return a.jump_diffusion(start, kw)
    return a.conductivity(start, temperature, kw)


def coefficient(kind, a):
    return {'D': lambda: a.D, 'J': lambda: a.D_J, 'S': lambda: a.sigma}[kind]()


def samples(d):
    return None if d is None else np.array(d.samples, dtype=float)


def report(kind, a):
    """Everything an analyzer reports, as plain data."""
    out = {
        'dt': np.array(a.dt, dtype=float),
        'mean': np.array(getattr(a, ref.MEAN[kind]), dtype=float),
        'std': np.array(getattr(a, ref.MEAN[kind] + '_std'), dtype=float),
        'dr': [np.array(d.samples, dtype=float) for d in a.dr],
        'ngp_max': float(a.ngp_max),
        'volume': float(a.volume),
        'intercept': samples(a.intercept),
        'coefficient': samples(coefficient(kind, a)),
        'flatchain': None,
        'distribution': None,
    }
    if out['coefficient'] is not None:
        out['flatchain'] = np.array(a.flatchain, dtype=float)
        out['distribution'] = np.array(a.distribution, dtype=float)
    d = a.to_dict()
    out['delta_t'] = np.array(d['delta_t'], dtype=float)
    out['disp_3d'] = [np.array(x, dtype=float) for x in d['disp_3d']]
    out['n_o'] = np.array(d['n_o'], dtype=float)
    c = d['diff']['covariance_matrix']
    out['covariance'] = None if c is None else np.array(c, dtype=float)
    for k in ('n_bootstrap', 's_bootstrap', 'v_bootstrap', 'v', 'ngp', 'n_o'):
        out['diff_' + k] = np.array(d['diff'][k], dtype=float)
    x = d['diff']['distributions']
    out['distributions'] = None if x is None else [np.array(i['samples'], dtype=float) for i in x]
    x = d['diff']['gradient']
    out['gradient'] = None if x is None else np.array(x['samples'], dtype=float)
    return out


def plain(x):
    """A dictionary description with the representations that a file may change (bytes, numpy scalars, tuples) made equal."""
    if isinstance(x, dict):
        return {(k.decode() if isinstance(k, bytes) else k): plain(v) for k, v in x.items()}
    if isinstance(x, bytes):
        return x.decode()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (str, bool, type(None))):
        return x
    if isinstance(x, np.ndarray) and x.dtype.kind in 'SO' and x.ndim == 0:
        return plain(x.item())
    if isinstance(x, (int, float, np.generic, np.ndarray)):
        return np.array(x)
    return repr(type(x))


def same_plain(x, y, path=''):
    """None, or where two such descriptions differ."""
    if isinstance(x, dict) and isinstance(y, dict):
        for k in sorted(set(x) | set(y), key=str):
            if (k in x) != (k in y):
                if x.get(k) is None and y.get(k) is None:
                    continue
                return f'{path}/{k} is {"missing" if k in x else "new"}'
            r = same_plain(x[k], y[k], f'{path}/{k}')
            if r:
                return r
        return None
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y):
            return f'{path}: {len(x)} entries vs {len(y)}'
        for i, (p, q) in enumerate(zip(x, y)):
            r = same_plain(p, q, f'{path}[{i}]')
            if r:
                return r
        return None
    if isinstance(x, (list, np.ndarray)) and isinstance(y, (list, np.ndarray)):
        try:
            x, y = np.array(x), np.array(y)
        except ValueError:
            return f'{path}: {_short(x)} vs {_short(y)}'
        if x.shape != y.shape:
            return f'{path}: shape {x.shape} vs {y.shape}'
        eq = np.array_equal(x, y, equal_nan=True) if x.dtype.kind in 'fc' and y.dtype.kind in 'fciu' else np.array_equal(x, y)
        return None if eq else f'{path}: {_short(x)} vs {_short(y)}'
    if isinstance(x, (bool, np.ndarray)) and isinstance(y, (bool, np.ndarray)):
        return None if np.array_equal(np.asarray(x), np.asarray(y)) else f'{path}: {x} vs {y}'
    return None if type(x) is type(y) and x == y else f'{path}: {x!r} vs {y!r}'


def same(a, b, tol=0.0):
    """None, or the first name in which two reports differ."""
    for k in a:
        if k not in b:
            return f'{k} missing'
        r = _diff(a[k], b[k], tol)
        if r:
            return f'{k}: {r}'
    for k in b:
        if k not in a:
            return f'{k} is new'
    return None


def _diff(x, y, tol):
    if isinstance(x, list) or isinstance(y, list):
        if not (isinstance(x, list) and isinstance(y, list)) or len(x) != len(y):
            return f'{_short(x)} vs {_short(y)}'
        for i, (p, q) in enumerate(zip(x, y)):
            r = _diff(p, q, tol)
            if r:
                return f'[{i}] {r}'
        return None
    if x is None or y is None:
        return None if x is None and y is None else f'{_short(x)} vs {_short(y)}'
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return f'shape {x.shape} vs {y.shape}'
    if tol == 0:
        if not np.array_equal(x, y, equal_nan=True):
            return f'{_short(x)} vs {_short(y)}'
    elif not ref.rclose(x, y, tol):
        return f'{_short(x)} vs {_short(y)}'
    return None


def _short(x):
    if isinstance(x, list):
        return f'list of {len(x)}'
    if x is None:
        return 'None'
    return str(np.ravel(x)[:6].tolist()) + f' shape {np.shape(x)}'
