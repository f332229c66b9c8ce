"""C22: posterior predictive draws come from sampled lines and the fitted covariance."""
import collections
import itertools
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import analyzers as Z
from .. import ref

FIT = dict(n_walkers=4, n_samples=6, n_burn=2, thin=2)


class Noise(np.random.RandomState):
    """Standard normal numbers are the unit vectors one after the other (a basis of the noise space)."""

    def __init__(self, dim):
        super().__init__(7)
        self.dim, self.used = dim, 0

    def standard_normal(self, size=None):
        shape = () if size is None else tuple(np.atleast_1d(size).astype(int).tolist())
        n = int(np.prod(shape))
        out = np.array([1.0 if (self.used + k) % self.dim == ((self.used + k) // self.dim) % self.dim else 0.0 for k in range(n)])
        self.used += n
        return out.reshape(shape)


class Script:
    """Make the given state the one that scipy takes for unseeded distributions."""

    def __init__(self, state):
        self.state = state

    def __enter__(self):
        self.old = np.random.mtrand._rand
        np.random.mtrand._rand = self.state

    def __exit__(self, *a):
        np.random.mtrand._rand = self.old


class C22(Check):
    id = 'C22'
    technique = ('exhaustive product of posterior sizes, requested draws, start times and analyzers on posteriors whose samples can be '
                 'recognised in the output; complete basis of the noise space for the covariance')
    rule = ('analyzer x posterior size x requested posterior draws x predictive draws x start interval x intercept; covariance x '
            'noise basis vector; a state is one identified (block, sample) pattern')
    bounds = {'quick': '3 analyzers, posteriors of 1..4 samples, 6 x 4 requests, every start interval, with/without intercept; '
                       'real fits with 12 noise bases',
              'thorough': 'posteriors of 1..7 samples, 9 x 6 requests, every start; real fits with axes, models and condition limits'}
    assumptions = ['scipy turns standard normal numbers into the requested multivariate normal by a linear map']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase  # noqa: F401
        A.fast_distributions()
        from uravu.distribution import Distribution
        self.D = Distribution

    def cases(self, tier):
        full = tier == 'thorough'
        for kind in 'DJS':
            for P in range(1, 8 if full else 5):
                for icpt in (True, False):
                    yield dict(what='lines', kind=kind, P=P, icpt=icpt, posts=[None, 1, 2, 3, 5, 8] + ([4, 9, 17] if full else []),
                               preds=[1, 2, 3, 7] + ([4, 11] if full else []))
            for icpt in (True, False):
                for model in (True, False):
                    for start in range(3):
                        for dim in (('xyz', 'x', 'yz') if full else ('xyz', )):
                            yield dict(what='scatter', kind=kind, icpt=icpt, model=model, start=start, dim=dim)
            for icpt in (True, False):
                for P in (300, 3500):
                    yield dict(what='many', kind=kind, P=P, icpt=icpt)
            yield dict(what='default', kind=kind)

    def run(self, case, ctx):
        getattr(self, case['what'])(case, ctx)

    def crafted(self, kind, P, icpt, start, size):
        """A restored analyzer whose posterior samples and (tiny) covariance are known."""
        a = Z.build(kind, F=14)
        between = 0.0 if start == 0 else a.dt[start - 1] * (1 + 1e-6)  # a start time need not be one of the intervals
        Z.fit(kind, a, a.dt[start] if (P + start) % 2 else between, fit_intercept=icpt, **FIT)
        d = a.to_dict()
        k = np.arange(P)
        g = 1.0 + 3.0 * k
        c = 1000.0 * ((k * 3 + 1) % 11 + 1) if icpt else None
        L = len(a.dt) - start
        w = np.linspace(1, 2, L)
        d['diff']['gradient'] = self.D(g).to_dict()
        for key in ('diffusion_coefficient', 'jump_diffusion_coefficient', 'sigma'):
            if d['diff'][key] is not None:
                d['diff'][key] = self.D(g * 1e-5).to_dict()
        d['diff']['intercept'] = self.D(c).to_dict() if icpt else None
        d['diff']['flatchain'] = np.stack([g, c], axis=1) if icpt else g[:, None]
        d['diff']['covariance_matrix'] = (np.diag(w) + 0.1 * np.outer(w, w)) * size
        return type(a).from_dict(d), g, c

    def lines(self, case, ctx):
        kind, P, icpt = case['kind'], case['P'], case['icpt']
        n = len(Z.build(kind, F=14).dt)
        for start in range(0, n - 1):
            a, g, c = self.crafted(kind, P, icpt, start, 1e-16)
            t = np.array(a.dt)[start:]
            lines = g[:, None] * t + (0 if c is None else c[:, None])
            before = Z.report(kind, a)
            for post, pred in itertools.product(case['posts'], case['preds']):
                kw = dict(n_predictive_samples=pred, progress=False)
                if post is not None:
                    kw['n_posterior_samples'] = post
                ctx.op()
                np.random.seed(3)
                got = np.asarray(a.posterior_predictive(kw))
                blocks = P if post is None else post
                desc = f'{kind} posterior of {P}, {post} x {pred}, from interval {start}, intercept {icpt}'
                if got.shape != (blocks * pred, t.size):
                    raise Violation(f'{desc}: shape {got.shape}, expected {(blocks * pred, t.size)}')
                which = []
                for b in range(blocks):
                    rows = got[b * pred:(b + 1) * pred]
                    hit = [s for s in range(P) if np.all(np.abs(rows - lines[s]) < 1e-4)]
                    if len(hit) != 1:
                        raise Violation(f'{desc}: block {b} does not scatter around the line of one posterior sample '
                                        f'(first row {rows[0][:4]})')
                    which.append(hit[0])
                ctx.trace()
                ctx.state(kind, P, icpt, start, pred, which)
            # every sample of the posterior can be drawn
            np.random.seed(5)
            got = np.asarray(a.posterior_predictive(dict(n_posterior_samples=60 * P, n_predictive_samples=1, progress=False)))
            dist = np.abs(got[:, None, :] - lines[None]).max(-1)
            drawn = collections.Counter(dist.argmin(1).tolist())
            ctx.op()
            if dist.min(1).max() > 1e-4 or set(drawn) != set(range(P)):
                raise Violation(f'{kind} posterior of {P}: {60 * P} draws use only the samples {sorted(drawn)}')
            bad = Z.same(before, Z.report(kind, a))
            if bad:
                raise Violation(f'{kind}: posterior predictive sampling changed the analyzer: {bad}')

    def many(self, case, ctx):
        """Realistic sizes: every row near one line, in blocks; predictive draws differ within a block."""
        kind, P, icpt = case['kind'], case['P'], case['icpt']
        for start in (0, 2):
            a, g, c = self.crafted(kind, P, icpt, start, 1e-16)
            t = np.array(a.dt)[start:]
            for post, pred in ((None, None), (None, 40), (250, 40), (500, 3), (P, 128), (700, 1), (5, 1500)) if P < 1000 else \
                    ((None, 3), (400, 2), (1100, 1)):
                kw = dict(progress=False)
                if post is not None:
                    kw['n_posterior_samples'] = post
                if pred is not None:
                    kw['n_predictive_samples'] = pred
                np.random.seed(4)
                got = np.asarray(a.posterior_predictive(kw))
                ctx.op()
                n, m = post or P, pred or 256
                desc = f'{case} from interval {start}: request {post} x {pred}'
                if got.shape != (n * m, t.size):
                    raise Violation(f'{desc}: shape {got.shape}, expected {(n * m, t.size)}')
                slope = (got[:, -1] - got[:, 0]) / (t[-1] - t[0])
                k = np.rint((slope - 1) / 3).astype(int)
                if k.min() < 0 or k.max() >= P:
                    raise Violation(f'{desc}: gradients {slope.min()}..{slope.max()} outside the posterior')
                line = g[k][:, None] * t
                if icpt:
                    line = line + 1000.0 * ((k * 3 + 1) % 11 + 1)[:, None]
                if np.abs(got - line).max() > 1e-3:
                    i = int(np.abs(got - line).max(1).argmax())
                    raise Violation(f'{desc}: row {i} {got[i][:4].tolist()} is not near the line of sample {k[i]}')
                kb = k.reshape(n, m)
                if np.any(kb != kb[:, :1]):
                    raise Violation(f'{desc}: rows of one block belong to different posterior samples')
                res = (got - line).reshape(n, m, -1)
                if m > 1 and np.any(np.abs(res - res[:, :1]).max(axis=(1, 2)) == 0):
                    raise Violation(f'{desc}: a block repeats one draw')
                if m > 1:
                    for blk in (0, n // 2, n - 1):
                        if len(np.unique(got[blk * m:(blk + 1) * m], axis=0)) < m:
                            raise Violation(f'{desc}: draws are repeated in block {blk}')
                if n > 1 and np.abs(res[1:, 0] - res[0, 0]).max(axis=-1).min() == 0:
                    raise Violation(f'{desc}: blocks share their noise')
                if n >= 250 and not all(0.005 < np.mean((kb[:, 0] >= lo * P / 10) & (kb[:, 0] < (lo + 1) * P / 10)) < 0.25 for lo in range(10)):
                    raise Violation(f'{desc}: the blocks do not use the whole posterior alike')
                if n >= 250 and len(set(kb[:, 0].tolist())) < 90:
                    raise Violation(f'{desc}: only {len(set(kb[:, 0].tolist()))} of {P} samples are used by {n} blocks')
                ctx.trace()
                ctx.state(kind, icpt, start, post, pred, kb[:, 0])

    def scatter(self, case, ctx):
        """With the noise a basis of unit vectors, the outer products of the residuals sum to the covariance matrix."""
        kind, start, icpt = case['kind'], case['start'], case['icpt']
        a = Z.build(kind, F=14, dimension=case['dim'])
        Z.fit(kind, a, a.dt[start], fit_intercept=icpt, model=case['model'], cond_max=1e3, random_state=np.random.RandomState(2), **FIT)
        d = a.to_dict()['diff']
        C = np.array(d['covariance_matrix'])
        L = C.shape[0]
        g = np.array(d['gradient']['samples'])
        c = np.array(d['intercept']['samples']) if icpt else np.zeros_like(g)
        before = Z.report(kind, a)
        desc = f'{kind} from interval {start}, intercept {icpt}, model {case["model"]}'
        t = np.array(a.dt)[start:]
        lines = g[:, None] * t + c[:, None]
        for b in range(5):
            noise = Noise(L)
            with Script(noise):
                rows = np.asarray(a.posterior_predictive(dict(n_posterior_samples=1, n_predictive_samples=L, progress=False)))
            ctx.op()
            if rows.shape != (L, t.size):
                raise Violation(f'{desc}: shape {rows.shape}')
            if noise.used != L * L:
                ctx.add('unscripted')
                break
            res = [rows - line for line in lines]
            ctx.trace()
            ctx.state(kind, start, icpt, case['model'], res[0])
            if not any(ref.rclose(r.T @ r, C, 1e-6) for r in res):
                raise Violation(f'{desc}: a block does not scatter with the fitted covariance matrix around any sampled line')
        # without a script: covariance of many draws of one block, compared in the metric of the covariance matrix
        np.random.seed(8)
        got = np.asarray(a.posterior_predictive(dict(n_posterior_samples=1, n_predictive_samples=6000, progress=False)))
        W = np.linalg.inv(np.linalg.cholesky(C))
        best = None
        for s in range(g.size):
            r = (got - lines[s]) @ W.T
            S = r.T @ r / 6000 - np.eye(L)
            m = max(np.abs(S).max(), np.abs(r.mean(0)).max())
            best = m if best is None else min(best, m)
        ctx.op()
        if best > 7 * np.sqrt(2 / 6000):
            raise Violation(f'{desc}: the scatter of 6000 draws differs from the fitted covariance matrix (whitened by {best:.3f})')
        bad = Z.same(before, Z.report(kind, a))
        if bad:
            raise Violation(f'{desc}: posterior predictive sampling changed the analyzer: {bad}')

    def default(self, case, ctx):
        """Default request on a real fit: as many blocks as posterior samples, 256 rows each."""
        kind = case['kind']
        a = Z.build(kind, F=14)
        for kw, w, n in ((dict(FIT), 4, 3), (dict(n_walkers=6, n_samples=5, n_burn=0, thin=1), 6, 5)):
            Z.fit(kind, a, a.dt[1], **kw)
            L = len(a.dt) - 1
            for params in (None, {}, {'progress': True}, {'n_predictive_samples': 256}):
                np.random.seed(1)
                got = np.asarray(a.posterior_predictive(params) if params is not None else a.posterior_predictive())
                ctx.op()
                ctx.trace()
                ctx.state(kind, got.shape, got[:2])
                if got.shape != (w * n * 256, L):
                    raise Violation(f'{kind} default request {params}: shape {got.shape}, expected {(w * n * 256, L)}')


CHECK = C22()
