"""C19: inputs are left untouched and progress bars change nothing."""
import copy
import itertools
import os
import tempfile
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import analyzers as Z
from .. import traj as T

FIT = dict(n_walkers=4, n_samples=4, n_burn=1, thin=1)


def freeze(o, depth=0):
    """Everything observable of an input object, as nested plain data with exact (bitwise) numbers."""
    if depth > 12:
        raise RuntimeError('too deep')
    f = lambda x: freeze(x, depth + 1)  # noqa: E731
    if o is None or isinstance(o, (bool, int, float, complex, str, bytes, slice)):
        return (type(o).__name__, repr(o))
    if isinstance(o, np.generic):
        return ('np', o.dtype.str, o.tobytes())
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('array', o.shape, [f(x) for x in o.ravel()])
        return ('array', o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, dict):
        return ('dict', [(f(k), f(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [f(x) for x in o], [id(x) for x in o])
    name = type(o).__name__
    if name == 'Atoms':
        return ('Atoms', {k: f(v) for k, v in o.arrays.items()}, f(o.cell.array), f(o.pbc), repr(sorted(o.info)))
    if name == 'Structure':
        return ('Structure', f(o.lattice.matrix), f(o.frac_coords), [str(s.specie) for s in o], [tuple(s.coords) for s in o])
    if name == 'Xdatcar':
        return ('Xdatcar', [f(s) for s in o.structures])
    if name == 'Universe':
        now = o.trajectory.frame
        out = ('Universe', [(f(ts.positions), f(ts.dimensions)) for ts in o.trajectory], f(o.atoms.types), o.atoms.n_atoms)
        o.trajectory[now]
        return out
    if name == 'Distribution':
        return ('Distribution', f(o.samples), o.name)
    if isinstance(o, np.random.RandomState):
        return 'state'
    raise RuntimeError(f'cannot freeze {type(o)}')


def where(a, b, path='input'):
    """The place at which two frozen objects differ."""
    if type(a) is not type(b):
        return path
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{path} (length {len(a)} became {len(b)})'
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                if isinstance(a, list) and i < len(a) and isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple):
                    return where(x, y, f'{path}[{x[0][-1]}]')
                return where(x, y, f'{path}.{i}')
        return path
    return f'{path}: {str(a)[:80]} became {str(b)[:80]}'


class Guard:
    """Named inputs that have to come out as they went in."""

    def __init__(self, **inputs):
        self.inputs = inputs
        self.before = {k: freeze(v) for k, v in inputs.items()}

    def check(self, desc):
        for k, v in self.inputs.items():
            now = freeze(v)
            if now != self.before[k]:
                raise Violation(f'{desc}: {k} was modified ({where(self.before[k], now)})')


def trajectory(salt=0, F=10, cell='ortho'):
    """6 atoms: four Li in two molecules, two O."""
    cellm = np.array(T.CELLS[cell])
    com = T.irregular(F, 2, scale=0.9, salt=40 + salt) + np.array([[2.0, 3, 4], [5, 6, 7]])
    com += np.arange(F)[:, None, None] * np.array([0.3, 0.25, 0.35])
    inner = T.irregular(F, 4, scale=0.1, salt=60 + salt)
    li = np.repeat(com, 2, axis=1) + inner + np.array([[0, 0, 0], [0.8, 0.3, 0.2], [0, 0, 0], [0.5, 0.9, 0.1]])
    o = T.irregular(F, 2, scale=0.2, salt=80 + salt) + 1.0
    pos = np.concatenate([li, o], axis=1)
    frac = (pos @ np.linalg.inv(cellm)) % 1.0
    return T.Traj(frac @ cellm, cellm, ['Li'] * 4 + ['O'] * 2)


def parser_options(route):
    """Parameter dictionaries with every kind of mutable content."""
    out = {
        'specie': dict(specie='Li'),
        'species': dict(specie=['Li', 'O'], framework_indices=[]),
        'speciesback': dict(specie=['O', 'Li'], framework_indices=[]),
        'framework': dict(specie='Li', framework_indices=[5, 4]),
        'frameworktuple': dict(specie='Li', framework_indices=(4, )),
        'indices': dict(specie=None, specie_indices=[2, 0, 3]),
        'indicesframework': dict(specie=None, specie_indices=[3, 1], framework_indices=[4, 5]),
        'molecules': dict(specie=None, specie_indices=[[1, 2], [3, 4]]),
        'masses': dict(specie=None, specie_indices=[[3, 4], [1, 2]], masses=[1.0, 16.0]),
        'moleculesframework': dict(specie=None, specie_indices=[[1, 2], [4, 3]], masses=[2.0, 3.0], framework_indices=[6, 5]),
        'moleculestuple': dict(specie=None, specie_indices=((1, 2), (3, 4)), masses=(1.0, 2.0)),
        'arrays': dict(specie=None, specie_indices=[[1, 2], [4, 3]], masses=np.array([2.0, 3.0]), framework_indices=np.array([6, 5])),
        'frameworkarray': dict(specie='Li', framework_indices=np.array([5, 4])),
        'indicesarray': dict(specie=None, specie_indices=[3, 1], framework_indices=np.array([4, 5])),
        'thin': dict(specie='Li', sub_sample_traj=2),
        'grid': dict(specie='Li', min_dt=0.4 * T.unit(route), max_dt=1.6 * T.unit(route), n_steps=4, spacing='logarithmic'),
        'single': dict(specie='Li', sampling='single-origin', memory_limit=1.0),
    }
    if route == 'universe':
        out['atoms'] = dict(specie='Li', sub_sample_atoms=2)
    return out


UNCERTAINTY = {
    'plain': {},
    'boot': dict(bootstrap=True, n_resamples=12, max_resamples=12, n='state'),
    'block': dict(block=True),
    'axes': dict(dimension='yz', sub_sample_dt=1),
}


def unc(name):
    p = dict(UNCERTAINTY[name])
    if p.pop('n', None):
        p['random_state'] = np.random.RandomState(4)
    return p


class C19(Check):
    id = 'C19'
    technique = ('exhaustive exploration of uses of the same input objects: every route, option and analyzer, every order of uses up to '
                 'a depth; bitwise comparison of frozen inputs and of the results with those from fresh inputs')
    rule = ('route x option x analyzer x multiplicity; every sequence over the uses of shared inputs up to the depth; progress on/off; a '
            'state is one (use, report)')
    bounds = {'quick': '5 routes x 18 options x 3 analyzers, 3 multiplicities; all sequences of 2 of 12 uses per route (3 of 5)',
              'thorough': 'all option x uncertainty x analyzer combinations; all sequences of 3 of 12 uses per route'}
    assumptions = ['the random generator handed in is consumed, that is its use']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase, pymatgen.core, MDAnalysis, pymatgen.io.vasp  # noqa: F401
        A.fast_distributions()

    def cases(self, tier):
        full = tier == 'thorough'
        for route in T.ROUTES:
            for name in parser_options(route):
                for kind in ('D' if name == 'single' else 'DJS'):  # one observation is no collective average
                    for u in (UNCERTAINTY if full else ['plain']):
                        for cell in (('ortho', 'tric') if full else ('ortho', )):
                            yield dict(what='construct', route=route, opt=name, kind=kind, unc=u, cell=cell)
            for kind in 'DJS':
                for u in UNCERTAINTY:
                    yield dict(what='construct', route=route, opt='framework', kind=kind, unc=u, cell='tric')
                for dtype in ('identical', 'consecutive'):
                    if route == 'universe' and dtype == 'consecutive':
                        continue
                    for name in ('specie', 'framework', 'masses'):
                        yield dict(what='several', route=route, opt=name, kind=kind, dtype=dtype)
            uses = list(range(12))
            for kind in 'DJS':
                yield dict(what='omitted', route=route, kind=kind)
            for a in uses if route == 'universe' else []:
                yield dict(what='parked', use=a)
            for a in uses:
                yield dict(what='reuse', route=route, first=a, depth=3 if full else 2, uses=uses)
            for a in range(5):
                yield dict(what='reuse', route=route, first=[0, 3, 5, 8, 10][a], depth=3, uses=[0, 3, 5, 8, 10])
            for name in ('specie', 'indices', 'masses'):
                for cell in ('ortho', 'tric'):
                    yield dict(what='construct', route=route, opt=name, kind='D', unc='plain', cell=cell, outside=True)
        for kind in 'DJS':
            yield dict(what='large', kind=kind)
            for u in range(7):
                yield dict(what='estimator', kind=kind, u=u)
            yield dict(what='restored', kind=kind)
            yield dict(what='fitparams', kind=kind)
        yield dict(what='raw')
        yield dict(what='matrix')
        for m in ('standard', 'super'):
            yield dict(what='arrhenius', model=m)

    def run(self, case, ctx):
        with tempfile.TemporaryDirectory() as d:
            self.dir = d
            getattr(self, case['what'])(case, ctx)

    @staticmethod
    def params(route, name, progress=False):
        f = T.unit(route)
        p = dict(time_step=0.1 * f, step_skip=2, progress=progress)
        p.update(copy.deepcopy(parser_options(route)[name]))
        return p

    def analyzer(self, route, kind, obj, pp, up, dtype=None, charge=1):
        from .. import kin
        extra = {'ionic_charge': charge} if kind == 'S' else {}
        if dtype:
            extra['dtype'] = dtype
        np.random.seed(17)
        return T.constructor(kin.ANALYZERS[kind], route)(obj, pp, uncertainty_params=up, **extra)

    def exercise(self, kind, a, progress=False, params=None):
        """Fit, draw, read: the ordinary life of an analyzer.  Returns what it reported."""
        from ..runtime import Violation as V  # noqa: F401
        out = [Z.report(kind, a)]
        if len(a.dt) < 3:
            return out
        fp = params if params is not None else dict(progress=progress, random_state=np.random.RandomState(3), **FIT)
        start = float(a.dt[0])
        if kind == 'D':
            a.diffusion(start, fp)
        elif kind == 'J':
            a.jump_diffusion(start, fp)
        else:
            a.conductivity(start, 300.0, fp)
        out.append(Z.report(kind, a))
        np.random.seed(23)
        pp = dict(n_posterior_samples=2, n_predictive_samples=3, progress=progress)
        out.append({'ppd': np.array(a.posterior_predictive(pp))})
        return out

    def compare(self, x, y, desc):
        if len(x) != len(y):
            raise Violation(f'{desc}: {len(x)} reports and {len(y)}')
        for p, q in zip(x, y):
            bad = Z.same(p, q)
            if bad:
                raise Violation(f'{desc}: {bad}')

    # --- one construction and its use, with and without progress bars

    def construct(self, case, ctx):
        route, kind = case['route'], case['kind']
        tr = trajectory(cell=case['cell'])
        if case.get('outside'):  # positions recorded outside the cell stay there
            k = np.arange(tr.pos.shape[0] * tr.pos.shape[1]).reshape(tr.pos.shape[:2])
            tr = T.Traj(tr.pos + np.stack([k % 3 - 1, (k // 3) % 3 - 1, -(k % 2)], axis=-1) @ np.array(T.CELLS[case['cell']]), tr.cells,
                        tr.species)
        results = []
        for progress in (False, True):
            obj = T.make(route, tr, self.dir, f'_{progress}')
            pp = self.params(route, case['opt'], progress)
            up = dict(unc(case['unc']), progress=progress)
            n = len(pp.get('specie_indices') or []) or 4
            n = n // 2 if case['opt'] == 'atoms' else n + (2 if case['opt'] .startswith('species') else 0)
            charge = np.linspace(1, 2, n)
            g = Guard(trajectory=obj, parser_params=pp, uncertainty_params=up, ionic_charge=charge)
            if route == 'file':
                g.inputs['content'] = None
                before = open(obj, 'rb').read()
            a = self.analyzer(route, kind, obj, pp, up, charge=charge)
            ctx.op()
            g.inputs.pop('content', None)
            g.check(f'constructing {case}')
            fp = dict(progress=progress, random_state=np.random.RandomState(3), **FIT)
            h = Guard(fit_params=fp)
            results.append(self.exercise(kind, a, progress, fp))
            ctx.op(3)
            ctx.trace()
            ctx.state(case, results[-1])
            g.check(f'using {case}')
            h.check(f'fitting {case}')
            if route == 'file' and open(obj, 'rb').read() != before:
                raise Violation(f'{case}: the trajectory file was changed')
        self.compare(results[0], results[1], f'{case}: progress bars change the result')

    def large(self, case, ctx):
        """Progress bars with as many observations and atoms as real trajectories have."""
        kind = case['kind']
        for size in (dict(F=40, mobile=120), dict(F=400, mobile=8), dict(F=2300, mobile=2)):
            for up in (dict(), dict(bootstrap=True, n_resamples=20, max_resamples=20), dict(dimension='xz')):
                res = []
                for progress in (False, True):
                    pp = dict(progress=progress, n_steps=12)
                    kw = dict(up, progress=progress)
                    if 'bootstrap' in up:
                        kw['random_state'] = np.random.RandomState(6)
                    g = Guard(parser=pp, uncertainty={k: v for k, v in kw.items() if k != 'random_state'})
                    a = Z.build(kind, parser=pp, **size, **kw)
                    res.append(self.exercise(kind, a, progress))
                    ctx.op(4)
                    ctx.trace()
                    g.check(f'{kind} {size} {up}')
                self.compare(res[0], res[1], f'{kind} {size} {up}: progress bars change the result')
                ctx.state(kind, size, up, res[0][0]['mean'])

    def several(self, case, ctx):
        route, kind = case['route'], case['kind']
        results = []
        for progress in (False, True):
            objs = [T.make(route, trajectory(k), self.dir, f'_{k}') for k in range(3)]
            pp = self.params(route, case['opt'], progress)
            up = dict(progress=progress)
            g = Guard(trajectory=objs, parser_params=pp, uncertainty_params=up)
            a = self.analyzer(route, kind, objs, pp, up, case['dtype'])
            ctx.op(3)
            g.check(f'constructing {case}')
            results.append(self.exercise(kind, a, progress))
            g.check(f'using {case}')
            ctx.trace()
            ctx.state(case, results[-1])
        self.compare(results[0], results[1], f'{case}: progress bars change the result')

    def omitted(self, case, ctx):
        """Optional dictionaries left out: the same as empty ones, and what is given stays as it was."""
        from .. import kin
        route, kind = case['route'], case['kind']
        f = T.unit(route)
        res = []
        for left_out in (True, False):
            obj = T.make(route, trajectory(), self.dir)
            pp = dict(specie='Li', time_step=0.1 * f, step_skip=2)
            g = Guard(trajectory=obj, parser_params=pp)
            con = T.constructor(kin.ANALYZERS[kind], route)
            a = con(obj, pp) if left_out else con(obj, pp, uncertainty_params={})
            g.check(f'{case}: construction without uncertainty_params' if left_out else f'{case}: construction')
            fit = {'D': 'diffusion', 'J': 'jump_diffusion', 'S': 'conductivity'}[kind]
            args = (float(a.dt[0]), ) + ((300.0, ) if kind == 'S' else ())
            np.random.seed(12)
            getattr(a, fit)(*args) if left_out else getattr(a, fit)(*args, {})
            np.random.seed(13)
            p = a.posterior_predictive() if left_out else a.posterior_predictive({})
            ctx.op(3)
            ctx.trace()
            g.check(f'{case}: use')
            res.append([Z.report(kind, a), {'ppd': np.array(p)}])
        ctx.state(case, res[0][0]['mean'])
        self.compare(res[0], res[1], f'{case}: leaving out a parameter dictionary differs from an empty one')

    def parked(self, case, ctx):
        """A universe that the user (or another analysis) left at any of its frames."""
        use = self.uses('universe')[case['use']]
        first = None
        for k in [None] + list(range(10)):
            pool = self.pool('universe')
            if k is not None:
                pool[0].trajectory[k]
            g = Guard(trajectory=pool[0])
            if k is not None:
                pool[0].trajectory[k]
            r = self.one('universe', use, pool)
            ctx.op(4)
            ctx.trace()
            ctx.state(use, k)
            g.check(f'{use} on a universe at frame {k}')
            first = first or r
            self.compare(first, r, f'{use} on a universe that is at frame {k}')

    # --- the same inputs again and again

    def uses(self, route):
        """Uses of one shared trajectory object and of shared parameter dictionaries: (analyzer, parser options, uncertainty)."""
        return [('D', 'specie', 'plain'), ('J', 'specie', 'plain'), ('S', 'specie', 'axes'), ('D', 'masses', 'plain'),
                ('J', 'masses', 'block'), ('D', 'framework', 'plain'), ('D', 'indices', 'plain'), ('S', 'moleculesframework', 'plain'),
                ('D', 'thin', 'plain'), ('D', 'grid', 'axes'), ('J', 'species', 'plain'), ('D', 'single', 'plain')]

    def pool(self, route):
        obj = T.make(route, trajectory(), self.dir)
        pps = {n: self.params(route, n) for n in parser_options(route)}
        ups = {n: dict(unc(n), progress=False) for n in ('plain', 'block', 'axes')}
        fp = dict(progress=False, **FIT)
        return obj, pps, ups, fp

    def one(self, route, use, pool):
        kind, opt, u = use
        obj, pps, ups, fp = pool
        a = self.analyzer(route, kind, obj, pps[opt], ups[u], charge=2)
        np.random.seed(9)
        return self.exercise(kind, a, params=fp)

    def reuse(self, case, ctx):
        route = case['route']
        us = self.uses(route)
        fresh = {}
        for i in case['uses']:
            fresh[i] = self.one(route, us[i], self.pool(route))
            ctx.op()
        for rest in itertools.product(case['uses'], repeat=case['depth'] - 1):
            pool = self.pool(route)
            seq = (case['first'], ) + rest
            for k, i in enumerate(seq):
                got = self.one(route, us[i], pool)
                ctx.op()
                ctx.trace()
                ctx.state(route, i, got)
                self.compare(fresh[i], got, f'{route}: {us[i]} after {[us[j] for j in seq[:k]]} on the same inputs')

    # --- the lower-level interfaces

    def estimator(self, case, ctx):
        kind = case['kind']
        ups = [{}, dict(sub_sample_dt=2), dict(block=True), dict(bootstrap=True, n_resamples=12, max_resamples=12), dict(dimension='x'),
               dict(bootstrap=True, block=True, dimension='yz', n_resamples=9, max_resamples=9), dict(sub_sample_dt=3)]
        for container in (np.array, list):
            res = []
            for progress in (False, True):
                L, N = (14 if case['u'] == 6 else 8), 3
                dt = np.arange(1, L + 1) * 0.5
                disp = A.irregular_list(L, N, 10)
                n_o = np.array([N * L / (i + 1) for i in range(L)])
                charge = container([1.0, -1.0, 2.0])
                kw = dict(ups[case['u']])
                if 'bootstrap' in kw:
                    kw['random_state'] = np.random.RandomState(1)
                g = Guard(delta_t=dt, disp_3d=disp, n_o=n_o, ionic_charge=charge)
                b = A.estimator(kind, dt, disp, n_o, charge=charge, progress=progress, **kw)
                ctx.op()
                g.check(f'{kind} estimator {ups[case["u"]]}')
                np.random.seed(2)
                s = A.fit(kind, b, float(b.dt[0]), progress=progress, **FIT)
                g.check(f'fit of the {kind} estimator {ups[case["u"]]}')
                np.random.seed(6)
                p = b.posterior_predictive(n_posterior_samples=2, n_predictive_samples=2, progress=progress)
                g.check(f'posterior predictive of the {kind} estimator')
                res.append({'n': np.array(b.n), 'v': np.array(b.v), 's': np.array(s.samples), 'ppd': np.array(p), 'dt': np.array(b.dt),
                            'cov': np.array(b.covariance_matrix), 'ngp': np.array(b.ngp),
                            'nb': np.array(b.to_dict()['n_bootstrap'], dtype=float)})
                ctx.trace()
                ctx.state(kind, case['u'], res[-1])
            self.compare([res[0]], [res[1]], f'{case}: progress bars change the result')

    def restored(self, case, ctx):
        """The dictionary that an analyzer or estimator is restored from, and the original, survive everything done to the copy."""
        kind = case['kind']
        for up in ({}, dict(bootstrap=True, n_resamples=9, max_resamples=9), dict(dimension='xz'), dict(sub_sample_dt=2)):
            for fitted in (False, True):
                a = Z.build(kind, F=14, **up)
                if fitted:
                    Z.fit(kind, a, a.dt[1], **FIT)
                d = a.to_dict()
                d.pop('ignore', None)
                before = Z.report(kind, a)
                g = Guard(dictionary={k: v for k, v in d.items()})
                copies = [type(a).from_dict(d) for _ in range(2)]
                ctx.op(2)
                g.check(f'{kind}.from_dict {up}')
                for c, kw in zip(copies, (dict(model=True), dict(fit_intercept=False))):
                    Z.fit(kind, c, c.dt[0], **FIT, **kw)
                    c.posterior_predictive(dict(n_posterior_samples=2, n_predictive_samples=2, progress=False))
                    Z.report(kind, c)
                    c.save(os.path.join(self.dir, f'x{kind}{fitted}{len(os.listdir(self.dir))}'))
                    ctx.op(4)
                    g.check(f'{kind}: using an analyzer restored from it')
                bad = Z.same(before, Z.report(kind, a))
                ctx.trace()
                ctx.state(kind, fitted, before)
                if bad:
                    raise Violation(f'{kind}: using a restored copy changed the original: {bad}')

    def fitparams(self, case, ctx):
        """One fit dictionary for several fits, in every order of analyzers."""
        for walkers, kw in itertools.product((4, 12, 20, 32), ({}, dict(model=True), dict(fit_intercept=False), dict(n_samples=120, n_burn=101))):
            res = []
            for progress in (False, True):
                a = Z.build(case['kind'], F=12)
                np.random.seed(31)
                res.append(self.exercise(case['kind'], a, progress,
                                         dict(dict(n_walkers=walkers, n_samples=5, n_burn=2, thin=1, random_state=np.random.RandomState(8),
                                                   progress=progress), **kw)))
                np.random.seed(31)
                res[-1] += self.exercise(case['kind'], a, progress,
                                         dict(dict(n_walkers=walkers, n_samples=5, n_burn=2, thin=1, progress=progress), **kw))
                ctx.op(4)
                ctx.trace()
            self.compare(res[0], res[1], f'{case["kind"]} {walkers} walkers {kw}: progress bars change the result')
        options = [dict(FIT), dict(FIT, model=True, cond_max=1e4), dict(FIT, fit_intercept=False), dict(FIT, progress=True)]
        for i, j in itertools.product(range(len(options)), repeat=2):
            p, q = dict(options[i]), dict(options[j])
            g = Guard(first=p, second=q)
            a = Z.build(case['kind'], F=12)
            for fp in (p, q, p):
                np.random.seed(4)
                r = self.exercise(case['kind'], a, params=fp)
                fresh = Z.build(case['kind'], F=12)
                np.random.seed(4)
                s = self.exercise(case['kind'], fresh, params=dict(options[i] if fp is p else options[j]))
                ctx.op(2)
                ctx.trace()
                ctx.state(case, i, j, r[1])
                self.compare(s[1:], r[1:], f'{case["kind"]}: fit with parameters used before ({i}, {j})')
                g.check(f'{case["kind"]} fits with {options[i]} and {options[j]}')
            np.random.seed(4)
            ppd = dict(n_posterior_samples=3, n_predictive_samples=2, progress=False)
            h = Guard(posterior_predictive_params=ppd)
            a.posterior_predictive(ppd)
            a.posterior_predictive(ppd)
            h.check('posterior predictive')

    def raw(self, case, ctx):
        """Parser on raw displacements, and its static parts."""
        from .. import kin
        for sampling in ('multi-origin', 'single-origin'):
            for drift in ([], [3], [2, 3]):
                for conv in (list, np.array, tuple):
                    res = []
                    for progress in (False, True):
                        disp = np.cumsum(np.swapaxes(T.irregular(9, 4, salt=3), 0, 1), axis=1)
                        ind, dr = conv([0, 1]), conv(drift)
                        if conv is np.array:
                            dr = dr.astype(int)
                        if conv is tuple:
                            ind = [0, 1]
                        g = Guard(disp=disp, indices=ind, drift_indices=dr)
                        p = kin.Parser(disp, ind, dr, 0.1, 2, sampling=sampling, progress=progress)
                        ctx.op()
                        g.check(f'Parser {sampling} {drift}')
                        n_o = getattr(p, '_n_o', None)
                        if n_o is None:
                            n_o = 2.0 * p.delta_t[-1] / np.asarray(p.delta_t)
                        for kind in 'DJS':
                            up = dict(progress=progress)
                            h = Guard(delta_t=p.delta_t, disp_3d=p.disp_3d, n_o=n_o)
                            if sampling == 'multi-origin':
                                b = A.estimator(kind, p.delta_t, p.disp_3d, n_o, **up)
                                A.fit(kind, b, float(b.dt[0]), **FIT)
                                ctx.op(2)
                            h.check(f'{kind} estimator on the output of a parser')
                            g.check(f'{kind} estimator on a parser')
                        res.append({'dt': np.array(p.delta_t), 'd': [np.array(x) for x in p.disp_3d], 'n': np.array(n_o)})
                        ctx.trace()
                        ctx.state(sampling, drift, res[-1])
                    self.compare([res[0]], [res[1]], f'Parser {sampling}: progress bars change the result')
        coords = [np.modf(np.abs(T.irregular(1, 4, salt=k)))[0].reshape(4, 1, 3) for k in range(5)]
        latt = [np.array(T.CELLS['tric']) for _ in range(5)]
        g = Guard(coords=coords, latt=latt)
        kin.Parser.get_disp(coords, latt, progress=False)
        g.check('get_disp')

    def matrix(self, case, ctx):
        from .. import kin
        for n in (1, 2, 3, 5):
            for cond in (1e2, 1e10, 1e16):
                v = np.arange(1, n + 1)**2.0
                k = 12.0 / np.arange(1, n + 1)
                g = Guard(variances=v, observations=k)
                m = kin.diffusion._populate_covariance_matrix(v, k) if hasattr(kin.diffusion, '_populate_covariance_matrix') \
                    else np.diag(v)
                g.check('covariance matrix')
                m = np.array(m)
                h = Guard(matrix=m)
                kin.diffusion.minimum_eigenvalue_method(m, cond)
                h.check(f'minimum_eigenvalue_method for {n} intervals and {cond}')
                ctx.op()
                ctx.trace()
                ctx.state(n, cond)

    def arrhenius(self, case, ctx):
        from .. import kin
        from uravu.distribution import Distribution
        from scipy.stats import gaussian_kde
        import uravu.distribution as ud
        cls = kin.arrhenius.SuperArrhenius if case['model'] == 'super' else kin.arrhenius.StandardArrhenius
        old = ud.gaussian_kde
        ud.gaussian_kde = gaussian_kde
        try:
            t = np.array([400.0, 500, 600, 700])
            vals = 0.8 * np.exp(-0.12 / (8.617e-5 * t))
            y = [Distribution(np.linspace(0.9, 1.1, 40)**3 * v) for v in vals]
            err = 0.1 * vals
            for bounds in ([(0.01, 0.5), (0.01, 10.0), (0.0, 150.0)], [(0.01, 0.5), (0.01, 10.0), (0.0, None)]):
                b = bounds[:3 if case['model'] == 'super' else 2]
                for ordinate, error in ((y, None), (vals, err)):
                    g = Guard(temperature=t, diffusion=ordinate, bounds=b, error=error)
                    kw = {} if error is None else dict(diffusion_error=error)
                    res = []
                    for progress in (False, True):
                        np.random.seed(1)
                        o = cls(t, ordinate, b, **kw)
                        ctx.op()
                        g.check(f'{case["model"]} model')
                        o.max_likelihood('mini', x0=[0.1, 0.7, 20.0][:len(b)])
                        np.random.seed(2)
                        o.mcmc(walkers=8, n_samples=4, n_burn=4, progress=progress)
                        o.extrapolate(350.0)
                        d = np.array(o.distribution)
                        g.check(f'{case["model"]} model after sampling')
                        res.append({'d': d, 'ea': np.array(o.activation_energy.samples), 'a': np.array(o.preexponential_factor.samples)})
                        ctx.trace()
                        ctx.state(case, res[-1])
                    self.compare([res[0]], [res[1]], f'{case}: progress bars change the result')
        finally:
            ud.gaussian_kde = old


CHECK = C19()
