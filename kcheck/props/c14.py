"""C14: results depend only on the data and the last fit, not on earlier fits."""
import itertools
import os
import tempfile
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import analyzers as Z

BASE = dict(n_walkers=6, n_samples=4, n_burn=1, thin=1)
# several differ from the first in one respect only (intercept, condition limit, model, start, seed, temperature, thinning)
FITS = {
    'f0': (0, dict()),
    'n0': (0, dict(fit_intercept=False)),
    'c0': (0, dict(cond_max=1.5)),
    'c1': (0, dict(cond_max=1.3)),
    'm0': (0, dict(model=True)),
    'f2': (2, dict()),
    'f2m': (2, dict(model=True, fit_intercept=False, n_samples=6)),
    'f1c': (1, dict(cond_max=1e3, n_walkers=8)),
    'z': (None, dict(n_samples=5, thin=2, n_burn=3)),
    's0': (0, dict(seed=9)),
    't0': (0, dict(temperature=350.0)),
}
DEEP = ['f0', 'n0', 'c0', 'f2m', 'ppd', 'read', 'dict', 'file']
OTHER = ['ppd', 'read', 'dict', 'file']
OPTIONS = {
    'plain': dict(),
    'thin': dict(dimension='xz', sub_sample_dt=2),
    'boot': dict(bootstrap=True, n_resamples=12, max_resamples=12, dimension='y'),
    'small': dict(factor=1e-3),
}


def make(kind, opt):
    o = dict(OPTIONS[opt])
    if 'bootstrap' in o:
        o['random_state'] = np.random.RandomState(2)
    return Z.build(kind, F=16, mobile=2, charge=2, **o)


def do_fit(kind, a, name):
    i, kw = FITS[name]
    kw = {**BASE, **kw}
    seed, temperature = kw.pop('seed', 8), kw.pop('temperature', 300.0)
    Z.fit(kind, a, 0 if i is None else a.dt[i], temperature, random_state=np.random.RandomState(seed), **kw)


def state(kind, a):
    r = Z.report(kind, a)
    if r['coefficient'] is not None:
        np.random.seed(11)
        r['predictive'] = np.array(a.posterior_predictive({'n_posterior_samples': 2, 'n_predictive_samples': 1, 'progress': False}))
    d = a.to_dict()['diff']
    for k in ('start_dt', 'model', 'cond_max', 'max_obs', 'sub_sample_dt', 'dimension'):
        v = d[k]
        if isinstance(v, bytes):
            v = v.decode()
        r['diff_' + k] = None if v is None else (np.array(v, dtype=float) if not isinstance(v, str) else np.array([ord(c) for c in v]))
    f = d['flatchain']
    r['diff_flatchain'] = None if f is None else np.array(f, dtype=float)
    return r


class C14(Check):
    id = 'C14'
    technique = ('explicit exploration of every operation history up to a depth on the real analyzers; the model state is the last '
                 'fit, the oracle a fresh analyzer with that fit only')
    rule = ('every sequence over 11 fits, posterior predictive, reads, dictionary and file round trips up to the depth, on each '
            'analyzer and option set; a state is the complete report after a history')
    bounds = {'quick': 'depth 2 over 14 and depth 3 over 8 operations for each analyzer; depth 2 over 14 for three more option sets',
              'thorough': 'depth 3 over 14 and depth 4 over 8 operations for each analyzer; depth 3 over 14 for three more option sets'}
    assumptions = ['fits are made with a fixed seed so that they can be compared bit for bit (C13)']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase  # noqa: F401
        import h5py  # noqa: F401
        A.fast_distributions()
        self.want = {}
        for kind in 'DJS':
            for opt in OPTIONS:
                self.want[kind, opt, None] = state(kind, make(kind, opt))
                for f in FITS:
                    a = make(kind, opt)
                    do_fit(kind, a, f)
                    self.want[kind, opt, f] = state(kind, a)
        # the fits are distinguishable, otherwise the comparison below would be empty
        for kind in 'DJS':
            for opt in OPTIONS:
                for f, g in itertools.combinations(FITS, 2):
                    if (f == 'f0' and g == 't0' and kind != 'S') or (f == 'f0' and g == 'z'):
                        continue
                    assert Z.same(self.want[kind, opt, f], self.want[kind, opt, g]), (kind, opt, f, g)

    def cases(self, tier):
        full = tier == 'thorough'
        ops = list(FITS) + OTHER
        for kind in 'DJS':
            for opt in OPTIONS:
                top = (4 if full else 3) if opt == 'plain' else (3 if full else 2)
                for depth in range(0, top + 1):
                    for h in itertools.product(ops if depth < top or opt != 'plain' else DEEP, repeat=depth):
                        yield dict(kind=kind, opt=opt, h=h)

    def run(self, case, ctx):
        kind, opt = case['kind'], case['opt']
        a = make(kind, opt)
        last = None
        kept = []
        for op in case['h']:
            ctx.op()
            if op in FITS:
                do_fit(kind, a, op)
                last = op
            elif op == 'ppd':
                if last is None:
                    continue
                a.posterior_predictive({'n_posterior_samples': 3, 'n_predictive_samples': 2, 'progress': False})
            elif op == 'read':
                Z.report(kind, a)
            elif op == 'dict':
                kept.append((a, last))
                a = type(a).from_dict(a.to_dict())
            elif op == 'file':
                with tempfile.TemporaryDirectory() as d:
                    p = os.path.join(d, 'saved')
                    a.save(p)
                    kept.append((a, last))
                    a = type(a).load(p)
        got = state(kind, a)
        ctx.trace()
        ctx.state(kind, opt, last, got)
        bad = Z.same(self.want[kind, opt, last], got)
        if bad:
            raise Violation(f'{kind} {opt} after {list(case["h"])}: differs from a fresh analyzer with only '
                            f'{"the fit " + last if last else "no fit"}: {bad}')
        for o, l in kept:
            bad = Z.same(self.want[kind, opt, l], state(kind, o))
            ctx.trace()
            if bad:
                raise Violation(f'{kind} {opt} after {list(case["h"])}: using the restored copy changed the original: {bad}')


CHECK = C14()
