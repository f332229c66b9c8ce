"""C12: transport coefficients are the documented conversions of every posterior sample."""
import itertools
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import analyzers as Z
from .. import ref
from .. import traj as T

DIMS = ['x', 'y', 'z', 'xy', 'xz', 'yz', 'xyz']
E, KB = 1.602176634e-19, 1.380649e-23
SETTINGS = [(w, n, b, t) for w in (4, 7) for n in (3, 10, 11) for b in (0, 5) for t in (1, 2, 3)]


def factor(kind, d, N, volume, temperature):
    """Coefficient per unit of gradient (angstrom^2/ps)."""
    D = 1e-16 / 1e-12 / (2 * d)  # cm^2/s
    if kind == 'D':
        return D
    if kind == 'J':
        return D / N
    # D in m^2/s, S/m to mS/cm
    return (D * 1e-4) * E**2 / (volume * 1e-30 * KB * temperature) * 10.0


class Spy:
    """Records the raw chain of every ensemble run, whatever the code does with it."""

    def __enter__(self):
        import emcee
        self.cls = emcee.EnsembleSampler
        self.old = self.cls.run_mcmc
        self.samplers = []
        spy = self

        def run_mcmc(s, *a, **k):
            spy.samplers.append(s)
            return spy.old(s, *a, **k)

        self.cls.run_mcmc = run_mcmc
        return self

    def __exit__(self, *a):
        self.cls.run_mcmc = self.old

    def chain(self):
        if not self.samplers:
            return None
        return self.samplers[-1].get_chain()


class C12(Check):
    id = 'C12'
    technique = ('exhaustive product of analyzers, axes, atom counts, cells, temperatures and sampler settings on real chains; '
                 'conversions from first principles and membership of every sample in the raw chain')
    rule = ('analyzer x axes x mobile atoms x cell x temperature x intercept; analyzer x every (walkers, steps, burn-in, '
            'thinning); a state is one configuration with its first samples')
    bounds = {'quick': '3 analyzers, 7 axis choices, 1..4 atoms, 3 cells, 2 temperatures, intercept on/off; 36 sampler settings',
              'thorough': '3 analyzers, 7 axis choices, 1..5 atoms, 5 cells, 4 temperatures; 36 sampler settings x 7 axes'}
    assumptions = ['CODATA values of e and k to 1e-8', 'emcee keeps the raw chain of a run']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase  # noqa: F401
        A.fast_distributions()

    def cases(self, tier):
        full = tier == 'thorough'
        for kind in 'DJS':
            for dim in DIMS:
                for mobile in range(1, 6 if full else 5):
                    for cell in (('ortho', 'cubic', 'mono', 'tric', 'hex') if full else ('ortho', 'tric', 'hex')):
                        yield dict(what='convert', kind=kind, dim=dim, mobile=mobile, cell=cell,
                                   temps=[250.0, 298.15, 573.5, 1000.0] if full else [298.15, 871.54])
            for s in SETTINGS:
                for dim in (DIMS if full else ['xy']):
                    yield dict(what='settings', kind=kind, s=s, dim=dim)
        for kind in 'DJS':
            yield dict(what='default', kind=kind)
            for mobile in (9, 33, 101, 130):
                for dim in ('z', 'xz', 'xyz'):
                    yield dict(what='convert', kind=kind, dim=dim, mobile=mobile, cell='ortho', temps=[12.0, 2500])
            yield dict(what='object', kind=kind)
            for mobile in (2, 3):
                for dim in DIMS:
                    yield dict(what='resting', kind=kind, mobile=mobile, dim=dim)
            for copies in (2, 3):
                for mobile in (1, 3):
                    for dim in ('x', 'yz', 'xyz'):
                        yield dict(what='pooled', kind=kind, copies=copies, mobile=mobile, dim=dim)
            yield dict(what='settings', kind=kind, s=(48, 300, 10, 1), dim='xyz')
            yield dict(what='settings', kind=kind, s=(4, 2600, 3, 1), dim='yz')
            yield dict(what='settings', kind=kind, s=(400, 85, 2, 1), dim='y')

    def run(self, case, ctx):
        getattr(self, case['what'])(case, ctx)

    def verify(self, ctx, kind, a, spy, d, N, temperature, icpt, kw, desc, cells=1):
        ctx.trace()
        diff = a.to_dict()['diff']
        grad = np.array(diff['gradient']['samples'], dtype=float)
        coef = Z.samples(Z.coefficient(kind, a))
        count = kw['n_walkers'] * (kw['n_samples'] // kw['thin'])
        if grad.shape != (count, ) or coef.shape != (count, ):
            raise Violation(f'{desc}: {coef.shape} coefficient and {grad.shape} gradient samples, expected {count}')
        f = factor(kind, d, N, a.volume * cells, temperature)
        if cells > 1 and kind == 'S' and np.all(np.abs(coef - grad * f * cells) <= 1e-6 * np.abs(coef)):
            ctx.known.add('C12-pooled-volume')
            f = f * cells
        if not np.all(np.abs(coef - grad * f) <= 1e-6 * np.abs(grad * f)):
            i = int(np.argmax(np.abs(coef / f - grad)))
            raise Violation(f'{desc}: sample {i} of the coefficient is {coef[i]}, gradient {grad[i]} converts to {grad[i] * f}')
        ic = Z.samples(a.intercept)
        if icpt != (ic is not None):
            raise Violation(f'{desc}: intercept {"missing" if icpt else "reported"}')
        table = np.array(a.flatchain, dtype=float)
        want = np.stack([coef, ic], axis=1) if icpt else coef[:, None]
        if table.shape != want.shape or not ref.rclose(table, want, 1e-12):
            raise Violation(f'{desc}: the sample table is not coefficient and intercept: {table[:2].tolist()} vs '
                            f'{want[:2].tolist()}')
        lines = np.array(a.distribution, dtype=float)
        dt = np.asarray(a.dt, dtype=float)
        wl = dt[:, None] * grad[None] + (ic[None] if icpt else 0)
        if lines.shape != wl.shape or not ref.close(lines, wl, 1e-10):
            raise Violation(f'{desc}: the plotted lines are not gradient*dt + intercept of the samples')
        chain = spy.chain()
        if chain is not None:
            kept = chain[kw['n_burn']:]
            if len(kept) != kw['n_samples']:
                raise Violation(f'{desc}: {len(chain)} steps sampled for {kw["n_samples"]} after {kw["n_burn"]} burn-in')
            flat = kept.reshape(-1, kept.shape[-1])
            seen = {tuple(r) for r in flat.tolist()}
            pairs = np.stack([grad, ic], axis=1) if icpt else grad[:, None]
            for i, r in enumerate(pairs.tolist()):
                if tuple(r) not in seen:
                    raise Violation(f'{desc}: sample {i} {r} is no (gradient, intercept) of the chain after burn-in')
            if len(kept) * len(pairs) > 10**5:
                ctx.state(desc, np.round(coef[:3], 12))
                return
            # one whole step of all walkers for each kept step, evenly spaced
            steps = np.array([[np.any(np.all(kept[s] == p, axis=-1)) for s in range(len(kept))] for p in pairs])
            blocks = steps.reshape(-1, kw['n_walkers'], len(kept)).all(axis=1)
            pos = [set(np.nonzero(b)[0].tolist()) for b in blocks]
            if any(not p for p in pos):
                raise Violation(f'{desc}: samples of different steps are mixed')
            offs = [{p - i * kw['thin'] for p in ps} for i, ps in enumerate(pos)]
            if not set.intersection(*offs):
                raise Violation(f'{desc}: kept steps {pos} are not every {kw["thin"]}-th')
        ctx.state(desc, np.round(coef[:3], 12))

    def convert(self, case, ctx):
        kind, dim, N = case['kind'], case['dim'], case['mobile']
        for icpt in (True, False):
            for temp in (case['temps'] if kind == 'S' else case['temps'][:1]):
                a = Z.build(kind, F=14, mobile=N, framework=2, cell=case['cell'], charge=2, dimension=dim)
                kw = dict(n_walkers=6, n_samples=7, n_burn=2, thin=2, fit_intercept=icpt)
                v = abs(np.linalg.det(np.array(__import__('kcheck.traj').traj.CELLS[case['cell']])))
                if abs(a.volume - v) > 1e-6 * v:
                    raise Violation(f'{case}: volume {a.volume}, the cell has {v}')
                np.random.seed(2)
                with Spy() as spy:
                    Z.fit(kind, a, a.dt[1], temp, **kw)
                ctx.op()
                self.verify(ctx, kind, a, spy, len(dim), N, temp, icpt, kw, f'{case} fit_intercept={icpt} T={temp}')

    def resting(self, case, ctx):
        """Ions that never move are mobile particles like the others."""
        from .. import kin
        kind, N = case['kind'], case['mobile']
        t = Z.walk(F=14, mobile=N, framework=1)
        pos = np.array(t.pos)
        pos[:, [0] + list(range(N, pos.shape[1]))] = pos[:1, [0] + list(range(N, pos.shape[1]))]
        fr = T.Traj(pos, t.cells, t.species).ase()
        for par in ({}, dict(framework_indices=[])):
            a = kin.ANALYZERS[kind].from_ase(fr, dict(specie='Li', time_step=0.2, step_skip=1, progress=False, **par),
                                             uncertainty_params=dict(progress=False, dimension=case['dim']),
                                             **({'ionic_charge': 1} if kind == 'S' else {}))
            kw = dict(n_walkers=6, n_samples=7, n_burn=2, thin=2)
            np.random.seed(2)
            with Spy() as spy:
                Z.fit(kind, a, a.dt[1], 298.15, **kw)
            ctx.op()
            self.verify(ctx, kind, a, spy, len(case['dim']), N, 298.15, True, kw, f'{case} {par}')

    def pooled(self, case, ctx):
        """Trajectories declared identical: all their ions are mobile particles, in as many cells."""
        from .. import kin
        kind, N = case['kind'], case['mobile']
        trajs = [Z.walk(F=14, mobile=N, framework=2, salt=k).ase() for k in range(case['copies'])]
        for icpt in (True, False):
            a = kin.ANALYZERS[kind].from_ase(trajs, dict(specie='Li', time_step=0.2, step_skip=1, progress=False), dtype='identical',
                                             uncertainty_params=dict(progress=False, dimension=case['dim']),
                                             **({'ionic_charge': -1} if kind == 'S' else {}))
            kw = dict(n_walkers=6, n_samples=7, n_burn=2, thin=2, fit_intercept=icpt)
            np.random.seed(2)
            with Spy() as spy:
                Z.fit(kind, a, a.dt[1], 298.15, **kw)
            ctx.op()
            self.verify(ctx, kind, a, spy, len(case['dim']), N * case['copies'], 298.15, icpt, kw, f'{case} fit_intercept={icpt}',
                        cells=case['copies'])

    def settings(self, case, ctx):
        kind = case['kind']
        w, n, b, t = case['s']
        a = Z.build(kind, F=14, mobile=3, framework=1, dimension=case['dim'])
        for icpt in (True, False):
            for rs in (None, 4):
                kw = dict(n_walkers=w, n_samples=n, n_burn=b, thin=t, fit_intercept=icpt)
                np.random.seed(2)
                with Spy() as spy:
                    Z.fit(kind, a, a.dt[0], 400.0, **kw, **({} if rs is None else {'random_state': np.random.RandomState(rs)}))
                ctx.op()
                self.verify(ctx, kind, a, spy, len(case['dim']), 3, 400.0, icpt, kw, f'{case} fit_intercept={icpt}')

    def default(self, case, ctx):
        """The documented defaults: 32 walkers, 1000 samples, 500 burn-in, thinning 10, intercept fitted."""
        kind = case['kind']
        a = Z.build(kind, F=14, mobile=3, framework=1)
        with Spy() as spy:
            if kind == 'D':
                a.diffusion(a.dt[0], {'progress': False})
            elif kind == 'J':
                a.jump_diffusion(a.dt[0], {'progress': False})
            else:
                a.conductivity(a.dt[0], 500, {'progress': False})
        ctx.op()
        self.verify(ctx, kind, a, spy, 3, 3, 500, True, dict(n_walkers=32, n_samples=1000, n_burn=500, thin=10), f'{kind} defaults')
        n = len(Z.samples(Z.coefficient(kind, a)))
        if n != 3200 or a.intercept is None:
            raise Violation(f'{kind}: {n} samples by default, expected 3200 with an intercept')
        ch = spy.chain()
        if ch is not None and ch.shape[0] != 1500:
            raise Violation(f'{kind}: {ch.shape[0]} steps by default, expected 1500')
        ctx.trace()

    def object(self, case, ctx):
        """The estimators themselves (as the analyzers use them), every coefficient from every estimator."""
        kind = case['kind']
        for N in (1, 2, 5):
            for dim in DIMS:
                L = 10
                arr = [0.3 * x + 0.5 * np.sqrt(i + 1.0) for i, x in enumerate(A.irregular_list(L, N, L + 4, salt=N))]
                dt = 0.3 * (1 + np.arange(L))
                b = A.estimator(kind, dt, arr, N * L / (1.0 + np.arange(L)), dimension=dim)
                for k in 'DJS':
                    np.random.seed(1)
                    c = np.array(A.fit(k, b, dt[1], volume=731.0, temperature=412.0, **A.TINY).samples)
                    g = np.array(b.gradient.samples)
                    ctx.op()
                    ctx.trace()
                    f = factor(k, len(dim), N, 731.0, 412.0)
                    ctx.state(kind, k, N, dim, c)
                    if c.shape != g.shape or not np.all(np.abs(c - f * g) <= 1e-6 * np.abs(f * g)):
                        raise Violation(f'{k} of the {kind} estimator, {N} atoms, {dim}: {c[:3].tolist()} for gradients '
                                        f'{g[:3].tolist()}, expected {(f * g)[:3].tolist()}')


CHECK = C12()
