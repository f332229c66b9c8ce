"""Small displacement arrays, enumerated completely, and the three estimators on them."""
import itertools
import numpy as np


def fast_distributions():
    """uravu summarises every distribution with a KDE and a normality test: not under test here, switch both off."""
    import uravu.distribution as d

    class NoKDE:

        def __init__(self, *a):
            pass

    d.gaussian_kde = NoKDE
    d.Distribution.check_normality = lambda self: None


def words(alphabet, length):
    return np.array(list(itertools.product(alphabet, repeat=length)), dtype=float)


def all_arrays(N, M, axes, alphabet):
    """All arrays [N, M, 3] whose entries along `axes` range over the alphabet (other axes irregular but fixed)."""
    w = words(alphabet, N * M * len(axes)).reshape(-1, N, M, len(axes))
    base = np.modf(np.sin(np.arange(N * M * 3) * 12.9898 + 1.7) * 43758.5453)[0].reshape(N, M, 3) * 3
    out = np.repeat(base[None], len(w), axis=0)
    for i, a in enumerate(axes):
        out[..., a] = w[..., i]
    return out


def irregular_list(n_int, N, start, salt=0, step=1):
    """A list of n_int arrays with decreasing numbers of observations, as a parser produces."""
    out = []
    for i in range(n_int):
        m = max(1, start - i * step)
        k = np.arange(N * m * 3, dtype=float) + 17 * i + 1001.3 * salt
        out.append((np.modf(np.sin(k * 12.9898 + 4.1414) * 43758.5453)[0] * 2.5).reshape(N, m, 3))
    return out


def estimator(kind, delta_t, disp, n_o, charge=1, **kw):
    from . import kin
    kw.setdefault('progress', False)
    if kind == 'D':
        return kin.MSDBootstrap(delta_t, disp, n_o, **kw)
    if kind == 'J':
        return kin.MSTDBootstrap(delta_t, disp, n_o, **kw)
    return kin.MSCDBootstrap(delta_t, disp, charge, n_o, **kw)


def with_statistics(dt, n, v, n_o, atoms=2, dimension='xyz'):
    """An estimator that holds exactly the given intervals, means, variances and independent observations."""
    from . import kin
    L = len(dt)
    d = kin.Bootstrap(np.array(dt, dtype=float), irregular_list(L, atoms, L + 2), np.array(n_o, dtype=float),
                      dimension=dimension).to_dict()
    d.update(dt=np.array(dt, dtype=float), n=np.array(n, dtype=float), v=np.array(v, dtype=float),
             s=np.sqrt(np.array(v, dtype=float)), n_o=np.array(n_o, dtype=float))
    return kin.Bootstrap.from_dict(d)


def fit(kind, b, start, volume=500.0, temperature=300.0, **kw):
    kw.setdefault('progress', False)
    if kind == 'D':
        b.diffusion(start, **kw)
        return b.D
    if kind == 'J':
        b.jump_diffusion(start, **kw)
        return b.D_J
    b.conductivity(start, temperature, volume, **kw)
    return b.sigma


TINY = dict(n_samples=2, n_walkers=4, n_burn=0, thin=1)
