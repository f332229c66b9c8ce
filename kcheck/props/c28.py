"""C28: requests that cannot be answered are refused with an error, alone and in combination, and never change what comes after."""
import itertools
import tempfile
import warnings
import numpy as np
from ..runtime import Check, Violation
from .. import analyzers as AN
from .. import traj as T

SPECIES = ['Li', 'Li', 'O', 'Li', 'O', 'Cl']
ANY = Exception


def put(**kw):
    return lambda r: r['parser'].update(kw)


def unc(**kw):
    return lambda r: r['uncertainty'].update(kw)


# name: (change to the request, error that has to be raised, applicable)
FAULTS = {
    'specie absent': (put(specie='Xx'), ValueError, lambda c: c['mode'] == 'specie'),
    'specie empty': (put(specie=''), ValueError, lambda c: c['mode'] == 'specie'),
    'specie other case': (put(specie='LI'), ValueError, lambda c: c['mode'] == 'specie'),
    'nothing selected': (put(specie=None, specie_indices=None), TypeError, lambda c: True),
    'indices a number': (put(specie=None, specie_indices=3), TypeError, lambda c: c['mode'] == 'indices'),
    'indices a name': (put(specie=None, specie_indices='Li'), TypeError, lambda c: c['mode'] == 'indices'),
    'indices beyond the atoms': (put(specie_indices=[0, 6]), ANY, lambda c: c['mode'] == 'indices'),
    'framework beyond the atoms': (put(framework_indices=[2, 6]), ANY, lambda c: c['mode'] == 'indices'),
    'molecules of other lengths': (put(specie_indices=[[1, 2], [3, 4, 5]]), ValueError, lambda c: c['mode'] == 'molecules'),
    'one molecule shorter': (put(specie_indices=[[1, 2], [3]]), ValueError, lambda c: c['mode'] == 'molecules'),
    'molecule beyond the atoms': (put(specie_indices=[[1, 2], [3, 7]]), ANY, lambda c: c['mode'] == 'molecules'),
    'too few masses': (put(masses=[1.0]), ValueError, lambda c: c['mode'] == 'molecules'),
    'too many masses': (put(masses=[1.0, 2.0, 3.0]), ValueError, lambda c: c['mode'] == 'molecules'),
    'masses of all atoms': (put(masses=[1.0, 2.0, 1.0, 2.0]), ValueError, lambda c: c['mode'] == 'molecules'),
    'spacing unknown': (put(spacing='cubic'), ValueError, lambda c: True),
    'spacing empty': (put(spacing=''), ValueError, lambda c: True),
    'spacing none': (put(spacing=None), ValueError, lambda c: True),
    'sampling unknown': (put(sampling='all-origin'), ValueError, lambda c: True),
    'sampling empty': (put(sampling=''), ValueError, lambda c: True),
    'sampling none': (put(sampling=None), ValueError, lambda c: True),
    'min_dt the length': (lambda r: r['parser'].update(min_dt=r['length']), ValueError, lambda c: True),
    'min_dt beyond the length': (lambda r: r['parser'].update(min_dt=2.5 * r['length']), ValueError, lambda c: True),
    'memory': (put(memory_limit=1e-9), MemoryError, lambda c: True),
    'no memory': (put(memory_limit=0), MemoryError, lambda c: True),
    'parameter unknown': (put(timestep=1.0), TypeError, lambda c: True),
    'time step missing': (lambda r: r['parser'].pop('time_step'), TypeError, lambda c: True),
    'step skip missing': (lambda r: r['parser'].pop('step_skip'), TypeError, lambda c: True),
    'atoms thinned and chosen': (put(sub_sample_atoms=2), ValueError, lambda c: c['route'] == 'universe' and c['mode'] != 'specie'),
    'atoms thinned elsewhere': (put(sub_sample_atoms=2), TypeError, lambda c: c['route'] != 'universe'),
    'axes unknown': (unc(dimension='w'), ANY, lambda c: True),
    'axis twice': (unc(dimension='xx'), ANY, lambda c: True),
    'one axis unknown': (unc(dimension='xw'), ANY, lambda c: True),
    'no axis': (unc(dimension=''), ANY, lambda c: True),
    'uncertainty parameter unknown': (unc(bootstraps=True), TypeError, lambda c: True),
    'dtype unknown': (lambda r: r.update(dtype='equal'), ValueError, lambda c: True),
    'dtype empty': (lambda r: r.update(dtype=''), ValueError, lambda c: True),
    'dtype other case': (lambda r: r.update(dtype='Identical'), ValueError, lambda c: True),
    'dtype not for universes': (lambda r: r.update(dtype='consecutive'), ValueError, lambda c: c['route'] == 'universe'),
    'too few charges': (lambda r: r['extra'].update(ionic_charge=[1.0] * (r['ions'] + 1)), ANY, lambda c: c['kind'] == 'S'),
    'too many charges': (lambda r: r['extra'].update(ionic_charge=np.ones(r['ions'] + 2)), ANY, lambda c: c['kind'] == 'S'),
    'analyzer parameter unknown': (lambda r: r['extra'].update(charges=1), TypeError, lambda c: True),
}
FITS = {
    'start beyond the intervals': dict(start=1e6),
    'start none': dict(start=None),
    'start not a number': dict(start=float('nan')),
    'walkers too few': dict(n_walkers=2),
    'walkers odd number of none': dict(n_walkers=0),
    'option unknown': dict(samples=5),
    'thin of nothing': dict(thin=0),
}


class C28(Check):
    id = 'C28'
    technique = 'exhaustive enumeration of single faults and of all pairs of faults in requests, for every route, analyzer and selection'
    rule = ('every fault, and every pair of faults, x route x analyzer x selection x single or several trajectories, followed by the '
            'request without fault; every unsuitable fit in every order; a state is one (request, set of faults)')
    bounds = {'quick': f'{len(FAULTS)} faults of requests (pairs for one selection of each route), {len(FITS)} of fits, sequences of 2',
              'thorough': 'pairs for all selections and analyzers, sequences of 3 fits'}
    assumptions = ['which of two faults is reported is not decided']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase, pymatgen.core, MDAnalysis, pymatgen.io.vasp  # noqa: F401

    def cases(self, tier):
        full = tier == 'thorough'
        for i, route in enumerate(T.ROUTES):
            for kind in 'DJS':
                for mode in ('specie', 'indices', 'molecules'):
                    for several in (None, 'identical', 'consecutive'):
                        if several == 'consecutive' and route == 'universe':
                            continue
                        yield dict(what='requests', route=route, kind=kind, mode=mode, several=several, pairs=False)
                        if full or several is None and 'DJS'[i % 3] == kind:
                            yield dict(what='requests', route=route, kind=kind, mode=mode, several=several, pairs=True)
        for kind in 'DJS':
            for seq in itertools.product(FITS, repeat=3 if full else 2):
                yield dict(what='fits', kind=kind, seq=list(seq))

    def run(self, case, ctx):
        getattr(self, case['what'])(case, ctx)

    def requests(self, case, ctx):
        from .. import kin
        route, kind, mode, several = case['route'], case['kind'], case['mode'], case['several']
        u = T.unit(route)
        pos = T.irregular(6, 6, scale=0.4, salt=2) + np.array([[1., 2, 3], [1.6, 2.5, 3.5], [5, 5, 5], [5.5, 5.8, 5.3], [2, 7, 1], [7, 1, 6]])
        tr = T.Traj(pos, T.CELLS['ortho'], SPECIES)
        make = T.constructor(kin.ANALYZERS[kind], route)
        with tempfile.TemporaryDirectory() as d:
            obj = T.make(route, tr, d) if several is None else [T.make(route, tr, d, tag=str(k + 1)) for k in range(2)]

            def request():
                p = dict(time_step=0.5 * u, step_skip=1, progress=False)
                if mode == 'specie':
                    p['specie'] = 'Li'
                elif mode == 'indices':
                    p.update(specie=None, specie_indices=[0, 1, 3], framework_indices=[2, 4])
                else:
                    p.update(specie=None, specie_indices=[[1, 2], [3, 4]], masses=[1.0, 2.0], framework_indices=[])
                ions = (2 if mode == 'molecules' else 3) * (2 if several == 'identical' else 1)
                frames = 12 if several == 'consecutive' else 6
                return dict(parser=p, uncertainty=dict(progress=False), extra={'ionic_charge': 1} if kind == 'S' else {}, dtype=several,
                            ions=ions, length=frames * 0.5 * u)

            def answer(r):
                kw = dict(r['extra'])
                if r['dtype'] is not None:
                    kw['dtype'] = r['dtype']
                return AN.report(kind, make(obj, r['parser'], uncertainty_params=r['uncertainty'], **kw))

            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                first = answer(request())
                names = [n for n, f in FAULTS.items() if f[2](case)]
                sets = [(n, ) for n in names] if not case['pairs'] else list(itertools.combinations(names, 2))
                for faults in sets:
                    r = request()
                    try:
                        for n in faults:
                            FAULTS[n][0](r)
                    except KeyError:  # both remove the same thing
                        continue
                    ctx.op()
                    ctx.state(case, faults)
                    try:
                        got = answer(r)
                    except Exception as e:
                        want = FAULTS[faults[0]][1] if len(faults) == 1 else Exception
                        if not isinstance(e, want):
                            raise Violation(f'{case} {faults}: {type(e).__name__} ({e}) instead of {want.__name__}'[:2000])
                    else:
                        if not _undone(r, request()):
                            raise Violation(f'{case} {faults}: answered with intervals {got["dt"].tolist()} and means {got["mean"].tolist()} '
                                            'instead of an error'[:2000])
                    ctx.trace()
                last = answer(request())
                if AN.same(first, last):
                    raise Violation(f'{case}: after {len(sets)} refused requests the same request is answered differently: {AN.same(first, last)}')

    def fits(self, case, ctx):
        kind = case['kind']
        a = AN.build(kind)
        good = dict(n_samples=4, n_walkers=6, n_burn=1, thin=1)
        start = float(a.dt[1])
        before = None
        for k, name in enumerate(case['seq']):
            if k == 1:
                AN.fit(kind, a, start, random_state=np.random.RandomState(1), **good)
                before = AN.coefficient(kind, a).samples.copy()
            kw = dict(good)
            kw.update(FITS[name])
            s = kw.pop('start', start)
            ctx.op()
            ctx.state(kind, case['seq'][:k + 1])
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    AN.fit(kind, a, s, random_state=np.random.RandomState(2), **kw)
            except Exception:
                pass
            else:
                raise Violation(f'{case}: a fit with {FITS[name]} was answered')
            ctx.trace()
            c = AN.coefficient(kind, a)
            if (c is None) != (before is None) or c is not None and not np.array_equal(c.samples, before):
                raise Violation(f'{case}: after the refused fit the coefficient is another one')


def _undone(r, plain):
    """The two faults cancelled each other."""
    return all(str(r[k]) == str(plain[k]) for k in ('parser', 'uncertainty', 'extra', 'dtype'))


CHECK = C28()
