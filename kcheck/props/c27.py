"""C27: different analyses of one trajectory agree where they must."""
import itertools
import tempfile
import numpy as np
from ..runtime import Check, Violation
from .. import analyzers as AN
from .. import ref
from .. import traj as T

SPECIES = ['Li', 'Li', 'Na', 'O', 'Li', 'O']
DIMS = ('x', 'y', 'z', 'xy', 'xz', 'yz', 'xyz')
RELATIONS = ('axes', 'charges', 'single', 'species', 'intervals', 'fits')


class C27(Check):
    id = 'C27'
    technique = ('exhaustive enumeration of motions, selections, axes, charges and grids of intervals; pairs of analyses of the same '
                 'trajectory are compared with each other')
    rule = ('every sequence of step letters of one ion x route x relation (axes add up, charges combine, one ion alone, ions average, '
            'intervals do not influence each other, fits of the same data) x sampling; a state is one pair of analyses')
    bounds = {'quick': '16 motions of 6 frames, 2 cells, all 7 sets of axes, 27 charge vectors of 3 ions, 12 windows of intervals',
              'thorough': '81 motions of 7 frames, 5 cells, 125 charge vectors, 40 windows of intervals'}
    assumptions = ['steps that are not within rounding of half a lattice vector',
                   'uncertainties depend on the longest interval by definition and are compared within one window only']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase, pymatgen.core, MDAnalysis, pymatgen.io.vasp  # noqa: F401

    def cases(self, tier):
        full = tier == 'thorough'
        for n, word in enumerate(itertools.product((1, -1, 0) if full else (1, -1), repeat=4)):
            for route in T.ROUTES:
                for what in RELATIONS:
                    for sampling in ('multi-origin', 'single-origin'):
                        if what in ('charges', 'fits') and sampling == 'single-origin':  # one observation per interval
                            continue
                        if what == 'fits' and route != T.ROUTES[n % 4]:  # a universe has single precision, which the walkers amplify
                            continue
                        if not full and route != 'ase' and n % 4:
                            continue
                        cells = ('ortho', 'tric', 'cubic', 'hex', 'mono') if full else ('ortho', 'tric')
                        yield dict(word=list(word), route=route, what=what, sampling=sampling, cell=cells[n % len(cells)], full=full)

    def run(self, case, ctx):
        from .. import kin
        F = 8 if case['full'] else 7
        route = case['route']
        pos = T.irregular(F, 6, scale=0.8, salt=5) + 4.0
        tagged = np.cumsum(np.concatenate([[0], case['word'], np.ones(F - 1 - len(case['word']))]))
        pos[:, 0] += tagged[:, None] * np.array([0.9, 0.5, 1.2])
        t = T.Traj(pos, T.CELLS[case['cell']], SPECIES)
        self.tol = 2e-3 if route == 'universe' else 1e-8
        u = T.unit(route)
        with tempfile.TemporaryDirectory() as d:
            def analyse(kind, ions=(0, 1, 4), dim='xyz', charge=1, specie=None, **pp):
                for k in ('min_dt', 'max_dt'):
                    if k in pp:
                        pp[k] = pp[k] * u
                p = dict(time_step=0.5 * u, step_skip=2, progress=False, sampling=case['sampling'], specie=specie)
                if specie is None:
                    p.update(specie_indices=list(ions), framework_indices=[3, 5])
                p.update(pp)
                ctx.op()
                return T.constructor(kin.ANALYZERS[kind], route)(T.make(route, t, d), p,
                                                                uncertainty_params=dict(progress=False, dimension=dim),
                                                                **({'ionic_charge': charge} if kind == 'S' else {}))
            getattr(self, case['what'])(case, ctx, analyse)

    def same(self, ctx, case, text, got, want):
        ctx.trace()
        ctx.state(case, text)
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got.shape != want.shape or not np.allclose(got, want, rtol=self.tol, atol=self.tol * np.max(np.abs(want), initial=0)):
            raise Violation(f'{case} {text}: {got.tolist()} and {want.tolist()}'[:3000])

    @staticmethod
    def mean(kind, a):
        return np.array(getattr(a, ref.MEAN[kind]), dtype=float)

    @staticmethod
    def std(kind, a):
        return np.array(getattr(a, ref.MEAN[kind] + '_std'), dtype=float)

    def axes(self, case, ctx, analyse):
        for kind in 'D' if case['sampling'] == 'single-origin' else 'DJS':
            by = {dim: analyse(kind, dim=dim, charge=[1, -2, 0.5]) for dim in DIMS}
            for dim in DIMS[3:]:
                self.same(ctx, case, f'{kind} {dim} is the sum over its axes', self.mean(kind, by[dim]),
                          sum(self.mean(kind, by[c]) for c in dim))
                self.same(ctx, case, f'{kind} {dim} intervals', by[dim].dt, by['x'].dt)
                for i in range(len(by[dim].dr)):
                    self.same(ctx, case, f'{kind} {dim} squared displacements {i}', np.ravel(by[dim].dr[i].samples)**2,
                              sum(np.ravel(by[c].dr[i].samples)**2 for c in dim))

    def charges(self, case, ctx, analyse):
        total = analyse('J')
        one = analyse('S', charge=1)
        self.same(ctx, case, 'total and charge displacement of unit charges', self.mean('S', one), self.mean('J', total))
        self.same(ctx, case, 'their uncertainties', self.std('S', one), self.std('J', total))
        self.same(ctx, case, 'their intervals', one.dt, total.dt)
        self.same(ctx, case, 'given as an array', self.mean('S', analyse('S', charge=np.ones(3))), self.mean('J', total))
        letters = (-1, 0, 1, 0.5, 2) if case['full'] else (-1, 0, 1)
        # the mean-squared charge displacement is a quadratic form of the charges
        unit = [self.mean('S', analyse('S', charge=[float(i == j) for j in range(3)])) for i in range(3)]
        pair = {}
        for i, j in ((0, 1), (0, 2), (1, 2)):
            q = [float(k in (i, j)) for k in range(3)]
            pair[i, j] = self.mean('S', analyse('S', charge=q)) - unit[i] - unit[j]
        for q in itertools.product(letters, repeat=3):
            want = sum(q[i]**2 * unit[i] for i in range(3)) + sum(q[i] * q[j] * x for (i, j), x in pair.items())
            got = self.mean('S', analyse('S', charge=list(q)))
            ctx.trace()
            ctx.state(case, q)
            if not np.allclose(got, want, rtol=max(self.tol, 1e-8), atol=max(self.tol, 1e-8) * np.max(sum(unit))):
                raise Violation(f'{case} charges {q}: {got.tolist()}, but {want.tolist()} from unit charges and pairs')

    def single(self, case, ctx, analyse):
        """One ion alone: its own, the total and the (unit) charge displacement are the same."""
        if case['sampling'] == 'single-origin':
            return
        for ion in (0, 1, 2, 4):
            a, b, c = (analyse(kind, ions=[ion]) for kind in 'DJS')
            n = len(b.dt)
            for what, x, y in (('dt', a.dt, b.dt), ('mean', self.mean('D', a), self.mean('J', b)), ('std', self.std('D', a), self.std('J', b))):
                self.same(ctx, case, f'ion {ion} {what}', np.asarray(y), np.asarray(x)[:n])
            self.same(ctx, case, f'ion {ion} charge', self.mean('S', c), self.mean('J', b))

    def species(self, case, ctx, analyse):
        """By name or by index, alone or together."""
        sets = [(0, ), (1, ), (4, )]
        if case['sampling'] == 'single-origin':
            sets = [(0, 1), (1, 4), (0, 4)]  # every ion twice
        alone = [analyse('D', ions=s) for s in sets]
        m = min(len(a.dt) for a in alone)
        together = analyse('D', ions=(0, 1, 4))
        self.same(ctx, case, 'the mean over the ions', self.mean('D', together)[:m], sum(self.mean('D', a)[:m] for a in alone) / 3)
        for order in itertools.permutations((0, 1, 4)):
            self.same(ctx, case, f'ions {order}', self.mean('D', analyse('D', ions=order)), self.mean('D', together))
        for kind in 'D' if case['sampling'] == 'single-origin' else 'DJS':
            name = analyse(kind, specie='Li', framework_indices=[3, 5])
            index = analyse(kind)
            for what in (self.mean, self.std):
                self.same(ctx, case, f'{kind} by name and by index', what(kind, name), what(kind, index))
            default = analyse(kind, specie='Li')  # all others
            index = analyse(kind, framework_indices=[2, 3, 5])
            self.same(ctx, case, f'{kind} by name and by index, all other atoms as framework', self.mean(kind, default), self.mean(kind, index))
            unset = analyse(kind, framework_indices=None)
            self.same(ctx, case, f'{kind} by index, framework left out', self.mean(kind, unset), self.mean(kind, index))

    def intervals(self, case, ctx, analyse):
        """What is reported for an interval does not depend on the other intervals."""
        F = 8 if case['full'] else 7
        whole = analyse('D')
        at = {round(float(x), 6): i for i, x in enumerate(whole.dt)}
        windows = [dict(min_dt=float(a), max_dt=float(b), n_steps=b - a + 1) for a, b in itertools.combinations(range(1, F), 2)]
        windows += [dict(n_steps=k) for k in range(1, F)] + [dict(n_steps=k, spacing='logarithmic') for k in range(2, F + 2)]
        for w in windows if case['full'] else windows[::2] + windows[-2:]:
            part = analyse('D', **w)
            if not len(part.dt):
                raise Violation(f'{case} {w}: no intervals')
            for j, x in enumerate(part.dt):
                i = at.get(round(float(x), 6))
                if i is None:
                    raise Violation(f'{case} {w}: interval {x} is none of {list(at)}')
                self.same(ctx, case, f'{w} mean at {x}', part.msd[j], whole.msd[i])
                self.same(ctx, case, f'{w} lengths at {x}', np.sort(np.ravel(part.dr[j].samples)), np.sort(np.ravel(whole.dr[i].samples)))

    def fits(self, case, ctx, analyse):
        """The same data and seed through the three analyzers."""
        kw = dict(n_samples=6, n_walkers=6, n_burn=1, thin=1, progress=False)
        self.tol = 1e-3  # rounding, amplified by the optimiser
        for start in (1.0, 2.0):
            a, b = analyse('J', max_dt=6.0), analyse('S', charge=1, max_dt=6.0)
            AN.fit('J', a, start, random_state=np.random.RandomState(3), **kw)
            for temperature in (300.0, 1000.0):
                AN.fit('S', b, start, temperature, random_state=np.random.RandomState(3), **kw)
                # Nernst-Einstein: sigma = N e^2 D_J / (V k T), in mS/cm from cm^2/s and cubic angstrom
                e, k = 1.602176634e-19, 1.380649e-23
                want = np.asarray(a.D_J.samples) * 3 * e**2 / (float(b.volume) * 1e-24 * k * temperature) * 1e3
                self.same(ctx, case, f'conductivity and jump diffusion coefficient at {temperature} K from {start}', b.sigma.samples, want)


CHECK = C27()
