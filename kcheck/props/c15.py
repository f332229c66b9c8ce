"""C15: saving and restoring an analyzer preserves everything it reports."""
import itertools
import os
import tempfile
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import analyzers as Z
from .. import traj as T

BASE = dict(n_walkers=6, n_samples=4, n_burn=1, thin=1)
STAGES = {
    'new': None,
    'fit': dict(),
    'noicpt': dict(fit_intercept=False),
    'model': dict(model=True, cond_max=1e5),
    'late': dict(start=2),
    'zero': dict(start=None, n_samples=5),
    'big': dict(n_walkers=32, n_samples=80),
    'bignoicpt': dict(n_walkers=32, n_samples=160, fit_intercept=False),
}
DIMS = ['x', 'y', 'z', 'xy', 'xz', 'yz', 'xyz']
OPTIONS = {'sub2': dict(sub_sample_dt=2), 'sub3': dict(sub_sample_dt=3, dimension='xz'), 'boot': dict(bootstrap=True),
           'bootsub': dict(bootstrap=True, sub_sample_dt=2, dimension='y'), 'block': dict(block=True),
           'upper': dict(dimension='XY'), 'large': dict(), 'largeboot': dict(bootstrap=True, dimension='yz'),
           'huge': dict(dimension='x'), 'big': dict(sub_sample_dt=4), 'bigboot': dict(bootstrap=True, sub_sample_dt=5)}
OPTIONS.update({d: dict(dimension=d) for d in DIMS})
CHAINS = [c for n in (1, 2, 3) for c in itertools.product('df', repeat=n)]


def make(kind, opt, single=False):
    o = dict(OPTIONS[opt])
    if 'bootstrap' in o:
        n = 12 if opt != 'bigboot' else 1200
        o.update(n_resamples=n, max_resamples=n, random_state=np.random.RandomState(2))
    F = 130 if opt.startswith('large') else 1105 if opt == 'huge' else 30
    N = 1 if single else 2 if not opt.startswith('big') else 60
    return Z.build(kind, F=F, mobile=N, charge=2 if single else [2, -1] * (N // 2), parser=dict(n_steps=F), **o)


def do_fit(kind, a, stage, seed=8):
    kw = dict(STAGES[stage])
    st = kw.pop('start', 0)
    Z.fit(kind, a, 0 if st is None else a.dt[st], 300.0, random_state=np.random.RandomState(seed), **{**BASE, **kw})


def ppd(a):
    p = {'n_posterior_samples': 2, 'n_predictive_samples': 2, 'progress': False}
    np.random.seed(4)
    x = a.posterior_predictive(dict(p))
    return np.array(x)


class C15(Check):
    id = 'C15'
    technique = ('exhaustive enumeration of analyzer, option set, stage and chain of dictionary/file round trips on the real code; '
                 'bit-for-bit comparison of all reports and of later operations')
    rule = ('analyzer x option set x stage x every word over {dictionary, file} up to the length, then further fits and predictive '
            'draws on original and copy; a state is the report of one analyzer at one stage')
    bounds = {'quick': '3 analyzers x 16 option sets (one or two mobile atoms) x 6 stages x chains up to length 3',
              'thorough': 'the same with one and two mobile atoms for every option set and chains up to length 4'}
    assumptions = ['h5py stores doubles exactly']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase  # noqa: F401
        import h5py  # noqa: F401
        import pyblock  # noqa: F401
        A.fast_distributions()

    def cases(self, tier):
        full = tier == 'thorough'
        for kind in 'DJS':
            for opt in OPTIONS:
                if opt.startswith('big') or opt == 'huge':
                    continue
                for stage in STAGES:
                    if stage.startswith('big'):
                        continue
                    for single in ((False, True) if (full or opt in ('xyz', 'x', 'boot')) else (False, )):
                        if opt.startswith('large') and (stage != ('fit' if opt == 'large' else 'noicpt') or single):
                            continue
                        yield dict(kind=kind, opt=opt, stage=stage, single=single, depth=4 if full else 3)
        for kind in 'DJS':
            yield dict(kind=kind, opt='largeboot', stage='fit', single=False, depth=2)
            yield dict(kind=kind, opt='big', stage='big', single=False, depth=2)
            yield dict(kind=kind, opt='bigboot', stage='bignoicpt', single=False, depth=2)
            if kind == 'D' or full:
                yield dict(kind=kind, opt='huge', stage='new', single=False, depth=1 if not full else 2)
            for route in T.ROUTES:
                yield dict(kind=kind, route=route)
            if kind != 'D':  # one observation of a collective displacement gives no mean: nothing to report
                yield dict(kind=kind, empty=True)

    def run(self, case, ctx):
        if 'route' in case:
            return self.routes(case, ctx)
        if 'empty' in case:
            return self.empty(case, ctx)
        kind, stage = case['kind'], case['stage']
        a = make(kind, case['opt'], case['single'])
        if stage != 'new':
            do_fit(kind, a, stage)
        want = Z.report(kind, a)
        self.chains(case, ctx, kind, a, want, case['depth'], stage != 'new')

    def chains(self, case, ctx, kind, a, want, depth, fitted):
        ctx.state(case, want)
        draws = None
        if fitted:
            draws = ppd(a)
            if not np.array_equal(draws, ppd(a)):
                draws = None
        level = {(): a}
        desc = Z.plain(a.to_dict())
        with tempfile.TemporaryDirectory() as d:
            n = 0
            for _ in range(depth):
                nxt = {}
                for word, obj in level.items():
                    for step in 'df':
                        if step == 'd':
                            c = type(a).from_dict(obj.to_dict())
                        else:
                            n += 1
                            p = os.path.join(d, f'f{n}')
                            obj.save(p)
                            c = type(a).load(p)
                        ctx.op()
                        w = word + (step, )
                        nxt[w] = c
                        if type(c) is not type(a):
                            raise Violation(f'{case}: {w} gives a {type(c).__name__}')
                        bad = Z.same(want, Z.report(kind, c)) or Z.same_plain(desc, Z.plain(c.to_dict()))
                        ctx.trace()
                        if bad:
                            raise Violation(f'{case}: after the round trips {w} (d: dictionary, f: file): {bad}')
                        if draws is not None and not np.array_equal(draws, ppd(c)):
                            raise Violation(f'{case}: after {w} the predictive draws differ')
                level = nxt
            bad = Z.same(want, Z.report(kind, a))
            if bad:
                raise Violation(f'{case}: the original changed: {bad}')
            # further fits on the copies
            for nxt_stage in ('fit', 'noicpt', 'late'):
                try:
                    do_fit(kind, a, nxt_stage, seed=9)
                except Exception as e:
                    # a fit that the sampler refuses on the original must be refused on the copies
                    ctx.add('refused fits')
                    for w, c in list(level.items())[::3]:
                        try:
                            do_fit(kind, c, nxt_stage, seed=9)
                        except Exception:
                            continue
                        raise Violation(f'{case}: after {w}, the fit {nxt_stage} succeeds but fails on the original: {e}')
                    continue
                w2 = Z.report(kind, a)
                for w, c in list(level.items())[::3]:
                    do_fit(kind, c, nxt_stage, seed=9)
                    ctx.op()
                    ctx.trace()
                    bad = Z.same(w2, Z.report(kind, c))
                    if bad:
                        raise Violation(f'{case}: after {w}, the fit {nxt_stage} differs from that of the original: {bad}')

    def empty(self, case, ctx):
        kind = case['kind']
        a = Z.build(kind, parser=dict(sampling='single-origin'))
        want = Z.plain(a.to_dict())
        for word in itertools.product('df', repeat=3):
            b = a
            with tempfile.TemporaryDirectory() as d:
                for n, step in enumerate(word):
                    if step == 'd':
                        b = type(a).from_dict(b.to_dict())
                    else:
                        b.save(os.path.join(d, f'f{n}'))
                        b = type(a).load(os.path.join(d, f'f{n}'))
                    ctx.op()
                    ctx.trace()
                    ctx.state(case, word[:n + 1])
                    bad = Z.same_plain(want, Z.plain(b.to_dict()))
                    if bad or len(b.dt) or len(b.dr) or b.intercept is not None or Z.coefficient(kind, b) is not None:
                        raise Violation(f'{case}: after the round trips {word[:n + 1]} of an analyzer without data: {bad}')

    def routes(self, case, ctx):
        """Analyzers from every input route can be saved and restored."""
        from .. import kin
        kind, route = case['kind'], case['route']
        tr = Z.walk(12, 2, 2)
        with tempfile.TemporaryDirectory() as d:
            obj = T.make(route, tr, d)
            par = dict(specie='Li', time_step=0.2 * T.unit(route), step_skip=1, progress=False)
            a = T.constructor(kin.ANALYZERS[kind], route)(obj, par, uncertainty_params={'progress': False})
            do_fit(kind, a, 'fit')
        self.chains(case, ctx, kind, a, Z.report(kind, a), 2, True)


CHECK = C15()
