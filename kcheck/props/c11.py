"""C11: fits sample the generalised-least-squares posterior of the diffusive regime only."""
import itertools
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import ref

DT = np.array([0.1, 0.3, 0.7, 1.9, 2.0, 4.5])
N_WORDS = (0.4, 2.0, 7.0)


class Captured(BaseException):
    pass


def capture(b, start, **kw):
    """
    Run the real fit up to its sampler and return (log-probability function, number of dimensions, initial walkers).
    The sampler class is replaced wherever the code may look it up; it records what it is given.
    """
    import emcee
    import emcee.ensemble
    from .. import kin
    box = {}

    class Recorder:

        def __init__(self, nwalkers, ndim, log_prob_fn=None, *a, **k):
            box.update(nwalkers=nwalkers, ndim=ndim, fn=log_prob_fn, args=k.get('args') or (), kwargs=k.get('kwargs') or {},
                       vectorize=k.get('vectorize', False))

        def run_mcmc(self, initial_state, nsteps, *a, **k):
            box['initial'] = np.array(getattr(initial_state, 'coords', initial_state))
            box['nsteps'] = nsteps
            raise Captured()

        def sample(self, initial_state, *a, **k):
            box['initial'] = np.array(getattr(initial_state, 'coords', initial_state))
            raise Captured()

    olds = []
    for mod in (emcee, emcee.ensemble, kin.diffusion):
        if hasattr(mod, 'EnsembleSampler'):
            olds.append((mod, mod.EnsembleSampler))
            mod.EnsembleSampler = Recorder
    try:
        b.diffusion(start, progress=False, **kw)
    except Captured:
        pass
    finally:
        for mod, o in olds:
            mod.EnsembleSampler = o
    return box


def logp(box, theta):
    theta = np.array(theta, dtype=float)
    if box['vectorize']:
        r = box['fn'](theta[None], *box['args'], **box['kwargs'])[0]
    else:
        r = box['fn'](theta, *box['args'], **box['kwargs'])
    return float(np.ravel(r)[0])


def posterior_moments(dt, n, C, intercept):
    """Mean and covariance of the untruncated Gaussian posterior (flat prior)."""
    X = np.stack([dt, np.ones_like(dt)], axis=1) if intercept else dt[:, None]
    P = np.linalg.inv(C)
    S = np.linalg.inv(X.T @ P @ X)
    return S @ X.T @ P @ n, S


def truncated(mu, S, k=400):
    """Moments of the gradient and intercept under the posterior restricted to non-negative gradients (quadrature)."""
    from scipy.special import erfc
    m, s = mu[0], np.sqrt(S[0, 0])
    # gradient: truncated normal by quadrature on quantiles
    lo = max(0.0, m - 9 * s)
    hi = max(m + 9 * s, lo + 9 * s)
    x = np.linspace(lo, hi, 20001)
    w = np.exp(-0.5 * ((x - m) / s)**2 + 0.5 * (max(0.0, -m) / s)**2)
    w /= w.sum()
    g1 = np.sum(w * x)
    g2 = np.sum(w * (x - g1)**2)
    if len(mu) == 1:
        return np.array([g1]), np.array([np.sqrt(g2)])
    # intercept given gradient is normal
    r = S[0, 1] / S[0, 0]
    c = S[1, 1] - S[0, 1]**2 / S[0, 0]
    i1 = mu[1] + r * (g1 - m)
    i2 = c + r * r * g2
    return np.array([g1, i1]), np.array([np.sqrt(g2), np.sqrt(i2)])


class C11(Check):
    id = 'C11'
    technique = ('exhaustive evaluation of the captured log-probability on a grid of lines for every small data set and start; '
                 'moments of seeded chains against quadrature of the restricted posterior')
    rule = ('every word of mean-squared values over a 3-letter alphabet x variances x start x model x intercept: log-probability '
            'on a gradient/intercept grid; every perturbation of values before the start; long seeded chains for a set of '
            'data sets; a state is one (data, start, option) with its log-probabilities')
    bounds = {'quick': '3 and 4 intervals with all value words, 11x9 grid of lines; 24 chains',
              'thorough': '3 to 5 intervals with all value words, 11x9 grid of lines; 96 chains'}
    assumptions = ['emcee samples the log-probability it is given (checked on the chains by their moments)',
                   'chain moments are compared within 0.2 posterior standard deviations']

    def setup(self):
        from .. import kin  # noqa: F401
        A.fast_distributions()

    def cases(self, tier):
        full = tier == 'thorough'
        for L in ((3, 4, 5) if full else (3, 4)):
            words = list(itertools.product(range(3), repeat=L))
            for w in words[::1 if (full or L == 3) else 2]:
                yield dict(what='grid', w=w)
        for L in (4, 6):
            for k in range(1, L - 1):
                yield dict(what='before', L=L, k=k)
        for L in (20, 60, 101, 130):
            yield dict(what='long', L=L)
        for L in (4, 6):
            for sn in (1e-8, 1e-4, 1e3, 1e7):
                yield dict(what='scale', L=L, sn=sn)
        for L in (2, 3, 5):
            for power in (4, 8, 10, 12):
                yield dict(what='stiff', L=L, power=power)
        i = 0
        for slope in (6.0, 0.05, 0.0, -0.5):
            for icpt in (True, False):
                for off in (0.0, 1.5, -0.8):
                    for model in ((False, True) if full else (i % 2 == 1, )):
                        for st in ((0, 1) if full else ((i // 2) % 2, )):
                            yield dict(what='chain', slope=slope, icpt=icpt, off=off, model=model, start=st)
                    i += 1
        # slow and fast diffusers, short and long times
        for i, (sn, sd) in enumerate(((1e-6, 1.0), (1e-4, 1e3), (1e4, 1e-3), (1e7, 1.0), (1.0, 1e3), (1e-2, 1e-3))):
            for icpt in ((True, False) if full else (i % 2 == 0, )):
                yield dict(what='chain', slope=4.0, icpt=icpt, off=0.7, model=i % 3 == 0, start=i % 2, sn=sn, sd=sd)
        for kind in 'DJS':
            yield dict(what='real', kind=kind)

    def run(self, case, ctx):
        getattr(self, case['what'])(case, ctx)

    def matrix(self, dt, v, n_o, model, cond):
        if model:
            g = dt**2 / n_o
            v = np.dot(g, v) / np.dot(g, g) * g
        return ref.recondition(ref.covariance(v, n_o), cond)

    def compare(self, ctx, b, dt, n, C, start, kw, desc, scale=1.0, tol=1e-6):
        """Log-probability on the grid, up to one additive constant; minus infinity exactly for negative gradients."""
        box = capture(b, start, **kw)
        ctx.op()
        if 'initial' not in box:
            raise Violation(f'{desc}: the fit ended without sampling')
        icpt = kw.get('fit_intercept', True)
        ndim = 2 if icpt else 1
        if box['ndim'] != ndim or box['initial'].shape[1] != ndim:
            raise Violation(f'{desc}: the sampler explores {box["ndim"]} parameters')
        P = np.linalg.inv(C)
        ref0 = None
        sl = max(1.0, float(np.max(np.abs(n / dt))))
        obs = []
        for g in (0.0, 0.01, 0.1, 0.5, 1.0, 2.0, 3.3, 5.0, 7.0, 11.0, 20.0):
            g *= scale
            for c in (-3.0, -1.0, -0.2, 0.0, 0.01, 0.5, 1.0, 2.5, 6.0) if icpt else (0.0, ):
                c *= scale
                got = logp(box, [g, c] if icpt else [g])
                r = n - g * dt - c
                want = -0.5 * float(r @ P @ r)
                obs.append(round(got, 6))
                if ref0 is None:
                    ref0 = got - want
                if not abs(got - want - ref0) <= tol * (1 + abs(want) + abs(ref0)):
                    raise Violation(f'{desc}: log-probability of gradient {g}, intercept {c} relative to the first is '
                                    f'{got - ref0}, expected {want}')
                ctx.trace()
        for g in (-1e-9, -0.1, -1.0, -5.0):
            g *= scale
            for c in (-1.0 * scale, 0.0, 2.0 * scale) if icpt else (0.0, ):
                got = logp(box, [g, c] if icpt else [g])
                if not (got == -np.inf):
                    raise Violation(f'{desc}: negative gradient {g} has log-probability {got}')
        ctx.state(desc, obs)

    def stiff(self, case, ctx):
        """Variances that differ by many orders of magnitude: the precise intervals count for what they are worth."""
        L, power = case['L'], case['power']
        dt = DT[:L]
        n = 3.0 * dt + 0.4 * np.sin(np.arange(L) + 1.0)
        n_o = 30.0 / dt
        v = 10.0**np.linspace(-power / 2, power / 2, L)
        b = A.with_statistics(dt, n, v, n_o)
        for k in range(L - 1):
            for icpt in (True, False):
                C = ref.covariance(v[k:], n_o[k:])
                kw = dict(fit_intercept=icpt, n_walkers=6, n_samples=3, n_burn=1)
                self.compare(ctx, b, dt[k:], n[k:], C, dt[k], kw, f'v={v.tolist()} start_dt={dt[k]} {kw}',
                             tol={4: 1e-8, 8: 1e-6, 10: 1e-4, 12: 1e-2}[power])

    def grid(self, case, ctx):
        w = case['w']
        L = len(w)
        dt = DT[:L]
        n = np.array([N_WORDS[i] for i in w]) * (1 + 0.3 * np.arange(L))
        for v, n_o, conds in ((dt**2 * (0.5 + 0.2 * np.arange(L)), 24.0 / dt, (1e10, 20.0)),
                              (0.8 * (1 + np.arange(L))**1.5 * (60 / (60 - 11.0 * np.arange(L)))**2, 60 - 11.0 * np.arange(L), (1e10, 20.0)),
                              (np.array([0.3, 0.5, 0.9, 2.0, 2.5])[:L], 24.0 / dt, (20.0, ))):
            b = A.with_statistics(dt, n, v, n_o)
            for st in [0.0] + list(dt[:L - 1]) + [0.25, dt[0] * (1 + 1e-6)]:
                k = int(np.argmax(dt >= st))
                for model in (False, True):
                    for cond in conds:
                        for icpt in (True, False):
                            if cond == 20.0 and not icpt:
                                continue
                            C = self.matrix(dt[k:], v[k:], n_o[k:], model, cond)
                            kw = dict(model=model, cond_max=cond, fit_intercept=icpt, n_walkers=6, n_samples=3, n_burn=1)
                            self.compare(ctx, b, dt[k:], n[k:], C, st, kw,
                                         f'n={n.tolist()} v={v.tolist()} n_o={n_o.tolist()} start_dt={st} {kw}')

    def long(self, case, ctx):
        """As many intervals as real trajectories have (moderate condition limits, so that the inverse is decided)."""
        L = case['L']
        i = np.arange(L)
        dt = 0.05 * (1 + i)
        n_o = 3 * L / (1.0 + i)
        v = 0.2 * dt**2 * (1 + 0.4 * np.sin(i)**2)
        for n in (6 * dt + 0.4 + 0.3 * np.sin(i * 2.3), 0.1 * dt + 2 + np.cos(i)):
            b = A.with_statistics(dt, n, v, n_o)
            for k in (0, 1, L // 3, L - 10, L - 3):
                for model, icpt, cond in ((False, True, 1e3), (True, True, 1e3), (False, False, 50.0)):
                    C = self.matrix(dt[k:], v[k:], n_o[k:], model, cond)
                    kw = dict(model=model, cond_max=cond, fit_intercept=icpt, n_walkers=32)
                    self.compare(ctx, b, dt[k:], n[k:], C, dt[k], kw, f'{case} n[0]={n[0]} k={k} {kw}')

    def scale(self, case, ctx):
        """Values and variances in other orders of magnitude (slow ions, long times, large charges)."""
        L, sn = case['L'], case['sn']
        for st_ in (1e-3, 1.0, 1e3):
            dt = DT[:L] * st_
            n = (6 * DT[:L] + 0.4 + 0.3 * np.sin(np.arange(L))) * sn
            v = (0.1 * DT[:L]**2 * (0.5 + 0.2 * np.arange(L))) * sn**2
            n_o = 24.0 / DT[:L]
            b = A.with_statistics(dt, n, v, n_o)
            for k in (0, 1):
                for model, icpt, cond in ((False, True, 1e10), (True, True, 50.0), (False, False, 1e10)):
                    C = self.matrix(dt[k:], v[k:], n_o[k:], model, cond)
                    kw = dict(model=model, cond_max=cond, fit_intercept=icpt, n_walkers=8)
                    self.compare(ctx, b, dt[k:], n[k:], C, dt[k], kw, f'{case} times {st_} k={k} {kw}', scale=sn)

    def before(self, case, ctx):
        """Perturb everything before the start: the seeded fit is bit for bit the same."""
        L, k = case['L'], case['k']
        dt = DT[:L]
        base = [6 * dt + 0.4 + 0.1 * np.sin(np.arange(L)), np.full(L, 0.05) * (1 + np.arange(L)), 24.0 / dt]
        first = None
        for which in range(-1, 3):
            for f in (0.0, 0.2, 50.0, -1.0):
                if which == -1 and f:
                    continue
                if which == 2 and f <= 0:
                    continue
                if which == 1 and f < 0:
                    continue
                st = [x.copy() for x in base]
                if which >= 0:
                    st[which][:k] *= f
                b = A.with_statistics(dt, *st)
                for model in (False, True):
                    for icpt in (True, False):
                        b.diffusion(dt[k], model=model, fit_intercept=icpt, n_walkers=8, n_samples=12, n_burn=3, thin=2,
                                    progress=False, random_state=np.random.RandomState(5))
                        ctx.op()
                        ctx.trace()
                        got = np.array(b.gradient.samples)
                        key = (model, icpt)
                        if first is None:
                            first = {}
                        if key not in first:
                            first[key] = got
                            ctx.state(L, k, key, got)
                        elif got.shape != first[key].shape or np.max(np.abs(got - first[key])) > 1e-9 * np.max(np.abs(got)):
                            raise Violation(f'{case} model={model} fit_intercept={icpt}: multiplying '
                                            f'{["values", "variances", "counts"][which]} before the start by {f} changes the '
                                            f'fit: {got[:4].tolist()} instead of {first[key][:4].tolist()}')

    def chain(self, case, ctx):
        """Moments of a real chain against the posterior by quadrature."""
        dt = DT
        n = case['slope'] * dt + case['off'] + 0.05 * np.sin(np.arange(6) * 2.0)
        v = 0.1 * dt**2 * (1 + 0.4 * np.arange(6))
        n_o = 30.0 / dt
        sn, sd = case.get('sn', 1.0), case.get('sd', 1.0)
        dt, n, v = dt * sd, n * sn, v * sn**2
        k = case['start']
        b = A.with_statistics(dt, n, v, n_o)
        C = self.matrix(dt[k:], v[k:], n_o[k:], case['model'], 1e16)
        mu, S = posterior_moments(dt[k:], n[k:], C, case['icpt'])
        m, s = truncated(mu, S)
        b.diffusion(dt[k], model=case['model'], fit_intercept=case['icpt'], n_walkers=24, n_samples=2500, n_burn=800, thin=5,
                    progress=False, random_state=np.random.RandomState(11))
        ctx.op()
        ctx.trace()
        got = [np.ravel(b.gradient.samples)]
        if case['icpt']:
            got.append(np.ravel(b.intercept.samples))
        elif b.intercept is not None:
            raise Violation(f'{case}: an intercept is reported for a fit without one')
        if got[0].min() < 0:
            raise Violation(f'{case}: negative gradient {got[0].min()} sampled')
        ctx.state(case, m, s)
        for i, name in enumerate(('gradient', 'intercept')[:len(got)]):
            gm, gs = got[i].mean(), got[i].std()
            if abs(gm - m[i]) > 0.2 * s[i] or not 0.85 < gs / s[i] < 1.18:
                raise Violation(f'{case}: {name} samples have mean {gm}, sd {gs}; the posterior has {m[i]}, {s[i]}')
        if case['icpt']:
            want = S[0, 1] / np.sqrt(S[0, 0] * S[1, 1])
            if mu[0] > 4 * np.sqrt(S[0, 0]):
                r = np.corrcoef(got[0], got[1])[0, 1]
                if abs(r - want) > 0.25:
                    raise Violation(f'{case}: correlation of gradient and intercept {r}, expected {want}')

    def real(self, case, ctx):
        """On estimators built from displacements (not restored)."""
        kind = case['kind']
        L = 6 if kind == 'D' else 12
        arr = [0.3 * a + 0.4 * np.sqrt(i + 1.0) for i, a in enumerate(A.irregular_list(L, 2, L + 8, salt=1))]
        dtt = np.cumsum(0.2 + 0.1 * (np.arange(L) % 3))
        n_o = 2 * (L + 3.0) / (np.arange(L) + 1)
        for dim in ('xyz', 'xz', 'y'):
            for sub in (1, 2):
                st = ref.statistics(kind, dtt, arr, n_o, dim, sub, 1)
                no = n_o[::sub][:len(st['dt'])]
                b = A.estimator(kind, dtt, arr, n_o, sub_sample_dt=sub, dimension=dim)
                for k in range(0, len(st['dt']) - 2):
                    for model in (False, True):
                        C = self.matrix(st['dt'][k:], st['v'][k:], no[k:], model, 50.0)
                        kw = dict(model=model, cond_max=50.0, n_walkers=6)
                        self.compare(ctx, b, st['dt'][k:], st['n'][k:], C, st['dt'][k], kw, f'{case} {dim} sub={sub} k={k} {kw}')


CHECK = C11()
