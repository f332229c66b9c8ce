"""C21: Arrhenius models evaluate their formula and start from their own bounds."""
import copy
import itertools
import math
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import ref

KB = 8.617333262e-5  # eV/K
TEMPS = [np.array([300.0, 400, 500, 600]), np.array([450.5, 500, 800, 1000]), np.array([900.0, 700, 500]),
         np.array([250, 300]), np.array([333.3, 298.15, 410.7])]
BOUNDS = {
    'default': None,
    'tuple': ((0.1, 0.9), (1e-5, 1e-1), (5.0, 200.0)),
    'list': [(0.05, 2.0), (0, 10), (0, 100)],
    'open': [(0.2, 0.4), (0, 50), (0, None)],
    'wide': [(0.0, 3.0), (1e-3, 1e30), (-50.0, 950.0)],  # T0 above the data
}


def formula(t, ea, a, t0=0.0):
    return a * math.exp(-ea / (KB * (t - t0)))


def bounds_for(model, name):
    b = copy.deepcopy(BOUNDS[name])
    if b is None or model == 'super':
        return b
    return b[:2]


def expected(model, name, temps):
    b = BOUNDS[name]
    if b is None:
        b = ((0, 1), (0, 1e20), (0, None))
    out = [tuple(x) for x in b]
    if model == 'standard':
        return out[:2]
    if out[2][1] is None:
        out[2] = (0, temps[0])
    return out


class C21(Check):
    id = 'C21'
    technique = ('exhaustive grids of temperatures and parameters for the formulae; every construction history up to a depth for '
                 'bounds and variables')
    rule = ('every (temperature, activation energy, prefactor, T0) on a grid, scalar and array; every sequence of model constructions '
            'over model x bounds x temperatures up to the depth; a state is one model with its bounds, or one formula value')
    bounds = {'quick': 'grid 12x9x7x6; histories of length 2 over 50 constructions (length 3 over 8)',
              'thorough': 'grid 25x19x11x9; histories of length 3 over 50 constructions (stride 3 on the last)'}
    assumptions = ['kB to 1e-8 relative', 'uravu.Relationship keeps bounds and variables in the order of the function arguments']

    def setup(self):
        from .. import kin  # noqa: F401
        A.fast_distributions()
        from uravu.distribution import Distribution
        self.D = Distribution
        self.con = [(m, b, t) for m in ('super', 'standard') for b in BOUNDS for t in range(len(TEMPS))]

    def cases(self, tier):
        full = tier == 'thorough'
        nt, ne = (25, 19) if full else (12, 9)
        for i in range(nt):
            yield dict(what='formula', t=float(np.round(np.geomspace(60.3, 1701.0, nt)[i], 3)), ne=ne, full=full)
        for c in self.con:
            for d in self.con:
                yield dict(what='history', h=[c, d], rest=3 if full else 0)
        small = [('super', 'default', 0), ('super', 'default', 1), ('super', 'open', 2), ('super', 'list', 0),
                 ('standard', 'default', 1), ('standard', 'tuple', 0), ('super', 'default', 3), ('super', 'tuple', 3)]
        for h in itertools.product(small, repeat=3):
            yield dict(what='history', h=list(h), rest=0)
        for m in ('standard', 'super'):
            for t in range(len(TEMPS)):
                for n in (1, 2, 5, 40) + ((12000, ) if t == 1 else ()):
                    yield dict(what='samples', model=m, t=t, n=n)
            yield dict(what='mcmc', model=m)

    def run(self, case, ctx):
        getattr(self, case['what'])(case, ctx)

    def formula(self, case, ctx):
        from .. import kin
        t = case['t']
        eas = np.linspace(0.0, 1.2, case['ne'])
        pres = [0.0, 1e-8, 1e-3, 0.5, 1.0, 37.5, 1e6] + ([1e12, 1e20, 2.0, 1e-20] if case['full'] else [])
        t0s = [0.0, 1.0, 50.0, 100.5, 180.0, 205.0, t - 4.5, t + 31.0, 2 * t, 1900.0] + ([10.0, 150.25, 209.0] if case['full'] else [])
        for ea in eas:
            for a in pres:
                ctx.op(2)
                got = float(kin.arrhenius.arrhenius(t, float(ea), a))
                want = formula(t, ea, a)
                ctx.trace()
                ctx.states.add(hash((t, ea, a, round(want, 12))) & (2**64 - 1))
                if not abs(got - want) <= 2e-6 * abs(want) + 1e-300:
                    raise Violation(f'arrhenius({t}, {ea}, {a}) = {got}, expected {want}')
                for t0 in t0s:
                    if ea / (KB * (t - t0)) < -600:
                        continue  # beyond the range of doubles
                    got = float(kin.arrhenius.super_arrhenius(t, float(ea), a, t0))
                    want = formula(t, ea, a, t0)
                    ctx.op()
                    ctx.trace()
                    if not abs(got - want) <= 2e-5 * abs(want) + 1e-300:
                        raise Violation(f'super_arrhenius({t}, {ea}, {a}, {t0}) = {got}, expected {want}')
        # arrays, in every combination of shapes the models use
        T_ = np.array([t, t + 100, t + 300.5])
        E_, A_, Z_ = np.array([0.1, 0.3, 0.7, 0.2]), np.array([1.0, 2.0, 5.0, 1e-3]), np.array([0.0, 0.05, 0.57, 0.3]) * t
        got = np.asarray(kin.arrhenius.arrhenius(T_[:, None], E_, A_))
        want = [[formula(x, E_[j], A_[j]) for j in range(4)] for x in T_]
        if not ref.rclose(got, want, 2e-6):
            raise Violation(f'arrhenius on arrays at {t}')
        got = np.asarray(kin.arrhenius.super_arrhenius(T_[:, None], E_, A_, Z_))
        want = [[formula(x, E_[j], A_[j], Z_[j]) for j in range(4)] for x in T_]
        if not ref.rclose(got, want, 2e-5):
            raise Violation(f'super_arrhenius on arrays at {t}')

    def ordinate(self, temps):
        return [self.D(np.linspace(0.9, 1.1, 9) * (i + 1)) for i in range(len(temps))]

    def construct(self, c):
        from .. import kin
        m, b, t = c
        cls = kin.arrhenius.SuperArrhenius if m == 'super' else kin.arrhenius.StandardArrhenius
        temps = TEMPS[t].copy()
        given = bounds_for(m, b)
        keep = copy.deepcopy(given)
        y = self.ordinate(temps)
        obj = cls(temps, y) if given is None else cls(temps, y, given)
        return obj, temps, given, keep

    def inspect(self, obj, c, temps, given, keep, desc):
        m, b, t = c
        if given != keep or type(given) is not type(keep):
            raise Violation(f'{desc}: the bounds passed in changed from {keep} to {given}')
        if not np.array_equal(temps, TEMPS[t]):
            raise Violation(f'{desc}: the temperatures passed in changed')
        want = expected(m, b, TEMPS[t])
        got = [tuple(float(y) for y in x) for x in obj.bounds]
        if got != [tuple(float(y) for y in x) for x in want]:
            raise Violation(f'{desc}: bounds {got}, expected {want}')
        if len(obj.variables) != len(want):
            raise Violation(f'{desc}: {len(obj.variables)} variables')
        for v, (lo, hi) in zip(obj.variables, want):
            s = np.asarray(v.samples, dtype=float)
            if s.min() < lo or s.max() > hi or (s.size > 50 and (s.max() - s.min()) < 0.5 * (hi - lo)):
                raise Violation(f'{desc}: initial variable between {s.min()} and {s.max()} for bounds {(lo, hi)}')
        named = [obj.activation_energy, obj.preexponential_factor] + ([obj.T0] if m == 'super' else [])
        for i, v in enumerate(named):
            if v is not obj.variables[i]:
                if not np.array_equal(v.samples, obj.variables[i].samples):
                    raise Violation(f'{desc}: named variable {i} is not the model variable {i}')

    def history(self, case, ctx):
        tails = [[]] if not case['rest'] else [[]] + [[c] for c in self.con[::case['rest']]]
        for tail in tails:
            made = []
            for c in list(case['h']) + tail:
                made.append((c, ) + self.construct(c))
                ctx.op()
            for i, (c, obj, temps, given, keep) in enumerate(made):
                ctx.trace()
                ctx.state(c, [tuple(x) for x in obj.bounds])
                self.inspect(obj, c, temps, given, keep, f'model {i} of the history {[m[0] for m in made]}')

    def samples(self, case, ctx):
        """Lines and extrapolations are the formula of every sample."""
        m, t, n = case['model'], case['t'], case['n']
        for b in BOUNDS:
            obj, temps, given, keep = self.construct((m, b, t))
            k = np.arange(n)
            cols = [0.05 + 0.011 * ((k * 7) % 13), 0.3 + 1.7 * ((k * 5) % 11), 3.0 + 9.0 * ((k * 3) % 17)][:3 if m == 'super' else 2]
            obj.variables = [self.D(c) for c in cols]
            want = np.array([[formula(x, *[c[j] for c in cols]) for j in range(n)] for x in temps])
            got = np.asarray(obj.distribution, dtype=float)
            ctx.op()
            ctx.trace()
            if got.shape != want.shape or not ref.rclose(got, want, 2e-5):
                raise Violation(f'{case} {b}: the lines are not the formula of the samples at the temperatures')
            for x in (220.0, 298, 350.5, 1200.0, 70.5):
                got = obj.extrapolate(x)
                got = np.asarray(getattr(got, 'samples', got), dtype=float)
                want = np.array([formula(x, *[c[j] for c in cols]) for j in range(n)])
                ctx.op()
                ctx.trace()
                ctx.state(case, b, x, want)
                if got.shape != want.shape or not ref.rclose(got, want, 2e-5):
                    raise Violation(f'{case} {b}: extrapolation to {x} K gives {got[:4].tolist()}, expected {want[:4].tolist()}')
            for i, c in enumerate(cols):
                v = [obj.activation_energy, obj.preexponential_factor, getattr(obj, 'T0', None)][i]
                if not np.array_equal(np.asarray(v.samples), c):
                    raise Violation(f'{case} {b}: named variable {i} does not hold its samples')
            self.inspect_given(given, keep, case)

    @staticmethod
    def inspect_given(given, keep, desc):
        if given != keep:
            raise Violation(f'{desc}: the bounds passed in changed from {keep} to {given}')

    def mcmc(self, case, ctx):
        """After sampling, the variables stay inside the bounds and lines are those of the chain."""
        from .. import kin
        from scipy.stats import norm
        m = case['model']
        temps = np.array([400.0, 500, 600, 700])
        true = (0.12, 0.8, 60.0)
        vals = [formula(x, *true[:3 if m == 'super' else 2]) for x in temps]
        y = [self.D(norm.rvs(loc=v, scale=0.03 * v, size=400, random_state=np.random.RandomState(1))) for v in vals]
        import uravu.distribution as ud
        from scipy.stats import gaussian_kde
        old = ud.gaussian_kde
        ud.gaussian_kde = gaussian_kde  # the likelihood needs the real density here
        try:
            y = [self.D(norm.rvs(loc=v, scale=0.03 * v, size=400, random_state=np.random.RandomState(1))) for v in vals]
            bounds = ((0.01, 0.5), (0.01, 10.0), (0.0, 150.0))[:3 if m == 'super' else 2]
            cls = kin.arrhenius.SuperArrhenius if m == 'super' else kin.arrhenius.StandardArrhenius
            obj = cls(temps, y, bounds)
            np.random.seed(1)
            obj.max_likelihood('mini', x0=list(true[:len(bounds)]))
            obj.mcmc(walkers=12, n_samples=20, n_burn=40, progress=False)
        finally:
            ud.gaussian_kde = old
        ctx.op()
        ctx.trace()
        ch = np.stack([np.asarray(v.samples) for v in obj.variables], axis=1)
        ctx.state(m, ch[:3])
        for i, (lo, hi) in enumerate(bounds):
            if ch[:, i].min() < lo or ch[:, i].max() > hi:
                raise Violation(f'{m}: sampled variable {i} outside {(lo, hi)}')
        got = np.asarray(obj.distribution)
        want = np.array([[formula(x, *r) for r in ch] for x in temps])
        if got.shape != want.shape or not ref.rclose(got, want, 2e-5):
            raise Violation(f'{m}: lines after sampling are not the formula of the samples')


CHECK = C21()
