"""C13: a seeded computation is reproducible whatever happened before."""
import hashlib
import itertools
import os
import subprocess
import sys
import tempfile
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import analyzers as Z

FIT = dict(n_walkers=6, n_samples=6, n_burn=2, thin=2)
SEEDS = [0, 1, 2, 7, 42, 123456, 2**31, 2**32 - 1]


def rs(seed):
    return np.random.RandomState(seed)


_COUNT = itertools.count(1)


def disturb():
    """Put the global generator into a state it never had before, whatever ran before (a seeded fit reseeds it)."""
    k = next(_COUNT)
    np.random.seed((os.getpid() * 100003 + k * 7919) % 2**32)
    np.random.randint(0, 2**32, size=k % 5, dtype=np.uint32)  # also at odd positions within its block
    if k % 3 == 0:
        np.random.standard_normal()  # and with a normal number kept for later


# --- operations that may precede a seeded computation; each gets the analyzer that will be used afterwards


def op_seed(a, kind):
    np.random.seed(99)


def op_draw(a, kind):
    np.random.rand(7)


def op_fit_other(a, kind):
    o = Z.build('D', F=9, mobile=1)
    Z.fit('D', o, o.dt[0], **FIT)


def op_fit_other_seeded(a, kind):
    o = Z.build('J', F=12, mobile=3)
    Z.fit('J', o, o.dt[0], random_state=rs(7), **FIT)


def op_fit_same(a, kind):
    Z.fit(kind, a, a.dt[1], fit_intercept=False, **FIT)


def op_fit_same_seeded(a, kind):
    Z.fit(kind, a, a.dt[0], model=True, cond_max=1e4, random_state=rs(1), **FIT)


def op_fit_long(a, kind):
    Z.fit(kind, a, a.dt[0], n_walkers=8, n_samples=30, n_burn=5, thin=1)


def op_boot(a, kind):
    Z.build('D', F=8, mobile=2, bootstrap=True, n_resamples=15, max_resamples=15)


def op_boot_seeded(a, kind):
    Z.build('S', F=8, mobile=2, bootstrap=True, n_resamples=15, max_resamples=15, random_state=rs(3))


def op_ppd(a, kind):
    Z.fit(kind, a, a.dt[0], **FIT)
    a.posterior_predictive({'n_posterior_samples': 2, 'n_predictive_samples': 3, 'progress': False})


def op_progress(a, kind):
    Z.fit(kind, a, a.dt[0], **dict(FIT, progress=True))


def op_dict(a, kind):
    return type(a).from_dict(a.to_dict())


def op_file(a, kind):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'x')
        a.save(p)
        return type(a).load(p)


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}


def digest(x):
    h = hashlib.sha256()

    def feed(o):
        if isinstance(o, dict):
            for k in sorted(o):
                h.update(k.encode())
                feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b'[%d' % len(o))
            for v in o:
                feed(v)
        elif o is None:
            h.update(b'none')
        else:
            v = np.asarray(o)
            h.update(str(v.shape).encode())
            h.update(v.tobytes())

    feed(x)
    return h.hexdigest()


def child(kind):
    """Entry point of another process."""
    from .. import kin  # noqa: F401
    A.fast_distributions()
    print('DIGEST', digest(C13.targets(kind, Z.build(kind, F=12, mobile=2))))


class C13(Check):
    id = 'C13'
    technique = ('exhaustive exploration of operation histories up to a depth before each seeded computation on the real code; '
                 'bit-for-bit comparison with the first run')
    rule = ('every sequence of operations over a 13-letter alphabet up to the depth, then each seeded computation; a state is '
            'one (history, computation) result')
    bounds = {'quick': 'depth 2 for each analyzer (depth 3 over 6 operations), 3 seeded fits and 1 seeded bootstrap each; 8 seeds twice, 300 seeds pairwise; 3 other processes',
              'thorough': 'depth 3 for each analyzer, 3 seeded fits and 1 seeded bootstrap each; 8 seeds twice, 1200 seeds pairwise'}
    assumptions = ['the same machine and library versions']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase  # noqa: F401
        import h5py  # noqa: F401
        A.fast_distributions()
        self.base = {}
        for kind in 'DJS':
            np.random.seed(12345)
            self.base[kind] = self.targets(kind, Z.build(kind, F=12, mobile=2))

    def cases(self, tier):
        full = tier == 'thorough'
        names = list(OPS)
        for kind in 'DJS':
            for depth in (1, 2):
                for h in itertools.product(names, repeat=depth):
                    yield dict(kind=kind, h=h)
            short = names if full else ['draw', 'fit_same', 'fit_other_seeded', 'boot', 'ppd', 'file']
            for h in itertools.product(short, repeat=3):
                yield dict(kind=kind, h=h)
            yield dict(kind=kind, seeds=True)
            for s in (0, 5, 77):
                yield dict(kind=kind, big=s)
            yield dict(kind=kind, many=1200 if full else 300)
            for hs in ('1', '2', 'random'):
                yield dict(kind=kind, process=hs)

    @staticmethod
    def targets(kind, a, seed=5):
        out = {}
        for name, kw in (('plain', {}), ('model', dict(model=True, fit_intercept=False)), ('start', dict(cond_max=1e3))):
            disturb()
            Z.fit(kind, a, a.dt[2] if name == 'start' else a.dt[0], random_state=rs(seed), **FIT, **kw)
            r = Z.report(kind, a)
            out[name] = {k: r[k] for k in ('coefficient', 'intercept', 'gradient', 'flatchain', 'covariance')}
        disturb()
        b = Z.build(kind, F=8, mobile=2, bootstrap=True, n_resamples=12, max_resamples=112, alpha=0.3, random_state=rs(seed))
        r = Z.report(kind, b)
        out['bootstrap'] = {k: r[k] for k in ('distributions', 'diff_n_bootstrap', 'diff_v_bootstrap', 'diff_s_bootstrap',
                                              'mean', 'std')}
        return out

    def run(self, case, ctx):
        kind = case['kind']
        if case.get('seeds'):
            return self.seeds(kind, ctx)
        if 'big' in case:
            return self.big(kind, case['big'], ctx)
        if 'many' in case:
            return self.many(kind, case['many'], ctx)
        if 'process' in case:
            with tempfile.TemporaryDirectory() as d:
                env = dict(os.environ, PYTHONHASHSEED=case['process'])
                r = subprocess.run([sys.executable, '-W', 'ignore', '-c', f'from kcheck.props import c13; c13.child({kind!r})'], cwd=d, env=env,
                                   capture_output=True, text=True)
            got = [x.split()[1] for x in r.stdout.splitlines() if x.startswith('DIGEST')]
            if not got:
                raise RuntimeError(r.stderr[-1500:])
            ctx.op(4)
            ctx.trace()
            ctx.state(kind, case['process'])
            if got[0] != digest(self.base[kind]):
                raise Violation(f'{kind}: computations with seed 5 give other results in another process (hash seed {case["process"]})')
            return
        a = Z.build(kind, F=12, mobile=2)
        for name in case['h']:
            a = OPS[name](a, kind) or a
            ctx.op()
        got = self.targets(kind, a)
        ctx.op(4)
        for t, r in got.items():
            ctx.trace()
            ctx.state(case['h'], kind, t, r)
            bad = Z.same(self.base[kind][t], r)
            if bad:
                raise Violation(f'{kind} {t} with seed 5 after {list(case["h"])}: differs from the first time: {bad}')

    def big(self, kind, seed, ctx):
        """Many atoms, long trajectories, many resamples and samples, as real data have."""
        for size in (dict(F=40, mobile=30), dict(F=220, mobile=4)):
            first = {}
            for rep in range(2):
                disturb()
                b = Z.build(kind, bootstrap=True, n_resamples=40, max_resamples=240, alpha=0.5, random_state=rs(seed),
                            sub_sample_dt=3, **size)
                disturb()
                Z.fit(kind, b, b.dt[1], random_state=rs(seed), n_walkers=32, n_samples=60, n_burn=5, thin=1)
                r = Z.report(kind, b)
                ctx.op(2)
                ctx.trace()
                first = first or r
                bad = Z.same(first, r)
                if bad:
                    raise Violation(f'{kind} {size} with seed {seed} differs the second time: {bad}')
            ctx.state(kind, seed, size['F'], r['gradient'])
        # the default numbers of resamples, walkers, samples
        first = {}
        for rep in range(2 if seed == 5 else 0):
            disturb()
            b = Z.build(kind, F=6, mobile=2, bootstrap=True, random_state=rs(seed), max_resamples=1500)
            disturb()
            Z.fit(kind, b, b.dt[0], random_state=rs(seed))
            r = Z.report(kind, b)
            ctx.op(2)
            ctx.trace()
            first = first or r
            bad = Z.same(first, r)
            if bad:
                raise Violation(f'{kind} with default numbers of samples and seed {seed} differs the second time: {bad}')

    def many(self, kind, n, ctx):
        """Seeds spread over the whole range: no two give the same samples."""
        seen = {}
        a = Z.build(kind, F=8, mobile=2)
        seeds = sorted({s % 2**32 for k in range(n // 6) for s in (k, 1000 + k, 2**16 * (k + 1), 2**32 - 1 - k, 10**6 * k, 5 + 2**k % 2**32)})
        for s in seeds:
            disturb()
            Z.fit(kind, a, a.dt[0], random_state=rs(s), n_walkers=4, n_samples=2, n_burn=0, thin=1)
            disturb()
            b = Z.build(kind, F=6, mobile=3, bootstrap=True, n_resamples=8, max_resamples=8, random_state=rs(s))
            r = Z.report(kind, b)
            ctx.op(2)
            for what, x in (('fit', Z.report(kind, a)['gradient']), ('bootstrap', r['distributions'])):
                key = what, np.concatenate([np.ravel(y) for y in x]).tobytes() if isinstance(x, list) else x.tobytes()
                ctx.trace()
                ctx.state(kind, s, what)
                if key in seen:
                    raise Violation(f'{kind} {what}: seeds {seen[key]} and {s} give the same samples')
                seen[key] = s

    def seeds(self, kind, ctx):
        res = []
        for s in SEEDS:
            for _ in range(2):
                res.append((s, self.targets(kind, Z.build(kind, F=12, mobile=2), s)))
                ctx.op(4)
        for (s, r), (t, q) in itertools.combinations(res, 2):
            for name in r:
                key = 'gradient' if name != 'bootstrap' else 'diff_n_bootstrap'
                same = np.array_equal(r[name][key], q[name][key])
                ctx.trace()
                if same != (s == t):
                    raise Violation(f'{kind} {name}: seeds {s} and {t} give {"the same" if same else "different"} samples')
                if s == t and Z.same(r[name], q[name]):
                    raise Violation(f'{kind} {name}: seed {s} twice: {Z.same(r[name], q[name])}')
            ctx.state(kind, s, r['plain']['gradient'])


CHECK = C13()
