"""C10: the covariance matrix follows the model and respects the condition limit."""
import itertools
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import ref

V = (0.02, 0.3, 2.5)
DTS = [np.array([0.5, 1.0, 1.5, 2.0, 2.5, 3.0]), np.array([0.1, 0.3, 0.7, 1.9, 2.0, 4.5])]
CONDS = (1e16, 1e8, 1e4, 30.0, 3.0)


def starts(dt):
    """Every distinguishable start time that leaves two intervals or more."""
    out = [0.0, dt[0] * 0.5]
    for i in range(len(dt) - 1):
        out.append(dt[i])
        if i:
            out.append(dt[i - 1] * (1 + 1e-6))  # just after an interval: that one is before the start
            if i == len(dt) - 2:
                out.append((dt[i] + dt[i - 1]) / 2)
    return out


class C10(Check):
    id = 'C10'
    technique = ('exhaustive enumeration of variances, observation counts, start times and condition limits on the real fit; '
                 'element-wise model and eigen-decomposition oracle')
    rule = ('every variance word over a 3-letter alphabet x observation counts x time grids x every distinguishable start x '
            'condition limits x modelled or not; all words over 4 magnitudes with high limits; all small symmetric matrices for reconditioning; a state is one matrix')
    bounds = {'quick': 'up to 4 intervals with all words (5, 6 with stride), 5 limits, matrices 2x2 and 3x3 over 4 letters',
              'thorough': 'up to 6 intervals with all words, 5 limits, matrices 2x2 and 3x3 over 5 letters, 4x4 over 2'}
    assumptions = ['LAPACK eigenvalues to 1e-9 relative to the largest',
                   'for limits above 1e9 the condition number itself is not decidable in double precision and only the '
                   'matrix elements are compared']

    def setup(self):
        from .. import kin  # noqa: F401
        A.fast_distributions()

    def cases(self, tier):
        full = tier == 'thorough'
        for L in (2, 3, 4, 5, 6):
            words = list(itertools.product(range(3), repeat=L))
            stride = 1 if (full or L < 4) else {4: 5, 5: 23, 6: 101}[L]
            for w in words[::stride]:
                for grid in (0, 1):
                    if not full and L > 3 and (sum(w) + grid) % 2:
                        continue
                    yield dict(what='words', w=w, grid=grid)
        for kind in 'DJS':
            for sub in (1, 2, 3):
                for M in (6, 9):
                    yield dict(what='real', kind=kind, sub=sub, M=M)
        for L in (12, 40, 101, 130):
            yield dict(what='long', L=L)
        for scale in (1e-9, 1e-6, 1e-3, 1e3, 1e6):
            yield dict(what='scale', scale=scale)
        for w in itertools.product((1e-13, 1e-9, 1e-5, 1.0), repeat=3):
            yield dict(what='graded', w=w)
        for size, letters in (((2, (-1, 0, 1, 2, 5)), (3, (-1, 0, 1, 2, 5)), (4, (0, 1))) if full else
                              ((2, (-1, 0, 1, 3)), (3, (0, 1, 3)))):
            diag = list(itertools.product(letters, repeat=size))
            for d in diag:
                yield dict(what='matrices', size=size, letters=letters, diag=d)

    def run(self, case, ctx):
        getattr(self, case['what'])(case, ctx)

    @staticmethod
    def compare(ctx, got, v, n_o, cond, desc, tol=1e-6):
        got = np.asarray(got, dtype=float)
        raw = ref.covariance(v, n_o)
        want = ref.recondition(raw, cond)
        ctx.trace()
        ctx.state(got / np.max(np.abs(want)))
        if got.shape != want.shape:
            raise Violation(f'{desc}: covariance matrix of shape {got.shape}, expected {want.shape}')
        top = np.max(np.abs(want))
        if np.max(np.abs(got - got.T)) > 1e-9 * top:
            raise Violation(f'{desc}: covariance matrix not symmetric: {got.tolist()}')
        e = np.linalg.eigvalsh((got + got.T) / 2)
        if e[0] < -1e-9 * e[-1]:
            raise Violation(f'{desc}: covariance matrix has eigenvalue {e[0]} (largest {e[-1]})')
        if cond <= 1e9 and e[-1] > cond * e[0] * (1 + 1e-5):
            raise Violation(f'{desc}: condition number {e[-1] / e[0]} exceeds {cond}')
        if np.max(np.abs(got - want)) > tol * top:
            i, j = np.unravel_index(np.argmax(np.abs(got - want)), want.shape)
            raise Violation(f'{desc}: covariance matrix element ({i}, {j}) is {got[i, j]}, expected {want[i, j]}\n'
                            f'{got.tolist()}\nexpected {want.tolist()}')

    @staticmethod
    def modelled(dt, v, n_o):
        g = dt**2 / n_o
        return max(0.0, float(np.dot(g, v) / np.dot(g, g))) * g

    def fits(self, ctx, b, dt, v, n_o, conds, desc, starts_=None):
        for st in (starts_ if starts_ is not None else starts(dt)):
            k = int(np.argmax(dt >= st))
            for model in (False, True):
                vv = self.modelled(dt[k:], v[k:], n_o[k:]) if model else v[k:]
                for cond in conds:
                    for icpt in (True, False):
                        if not icpt and cond != conds[0]:
                            continue
                        np.random.seed(3)
                        b.diffusion(st, model=model, cond_max=cond, fit_intercept=icpt, progress=False, **A.TINY)
                        ctx.op()
                        self.compare(ctx, b.covariance_matrix, vv, n_o[k:], cond,
                                     f'{desc} start_dt={st} model={model} cond_max={cond} fit_intercept={icpt}')
        # defaults: no model, condition limit 1e16
        np.random.seed(3)
        b.diffusion(0, progress=False, **A.TINY)
        ctx.op()
        self.compare(ctx, b.covariance_matrix, v, n_o, 1e16, f'{desc} default options')

    def words(self, case, ctx):
        w = case['w']
        L = len(w)
        dt = DTS[case['grid']][:L]
        v = np.array([V[i] for i in w])
        for n_o in (2 * 6.0 / dt, 40.0 - 5.0 * np.arange(L), float(L) / (1 + np.arange(L)))[:3 if L < 4 else 2]:
            n = 6 * dt + 0.4 + 0.05 * np.sin(np.arange(L) * 2.3)
            b = A.with_statistics(dt, n, v, n_o)
            self.fits(ctx, b, dt, v, n_o, CONDS if L < 4 else CONDS[1:4], f'dt={dt.tolist()} v={v.tolist()} n_o={n_o.tolist()}')

    def real(self, case, ctx):
        """On estimators straight from displacements: the matrix against the reported variances and the given counts."""
        kind, sub = case['kind'], case['sub']
        L = 10 if kind == 'D' else 20
        for N in (1, 3):
            arr = [a + 0.5 * (i + 1) for i, a in enumerate(A.irregular_list(L, N, L + case['M'], salt=2))]
            dtt = np.cumsum(0.1 + 0.05 * (np.arange(L) % 3))
            n_o = N * (L + 3.0) / (np.arange(L) + 1) + 0.5
            st = ref.statistics(kind, dtt, arr, n_o, 'xyz', sub, 1)
            b = A.estimator(kind, dtt, arr, n_o, sub_sample_dt=sub)
            dt, v = st['dt'], st['v']
            no = n_o[::sub][:len(dt)]
            self.fits(ctx, b, dt, v, no, (1e16, 1e4), f'{case} N={N}', starts(dt)[::3])

    def scale(self, case, ctx):
        """Variances and times of any magnitude."""
        s = case['scale']
        for tscale in (1e-3, 1.0, 1e3):
            for w in ((0, 1, 2, 1), (2, 2, 2, 2), (0, 0, 1, 1), (2, 1, 1, 0)):
                dt = DTS[1][:4] * tscale
                v = np.array([V[i] for i in w]) * s
                n_o = np.array([300.0, 110.0, 40.0, 21.0])
                n = 6 * dt / tscale * np.sqrt(s) + 0.4 * np.sqrt(s)
                b = A.with_statistics(dt, n, v, n_o)
                self.fits(ctx, b, dt, v, n_o, CONDS[1:3], f'dt={dt.tolist()} v={v.tolist()} n_o={n_o.tolist()}')

    def long(self, case, ctx):
        """As many intervals as real trajectories have."""
        L = case['L']
        dt = 0.05 * (1 + np.arange(L))
        i = np.arange(L)
        for n_o in (3 * L / (1.0 + i), 900.0 - 5 * i):
            for v in (0.01 * dt**2 * (1 + 0.4 * np.sin(i)**2) / n_o * 50, 0.3 + 0.2 * np.cos(i), dt**2 / n_o):
                n = 6 * dt + 0.4 + 0.05 * np.sin(i * 2.3)
                b = A.with_statistics(dt, n, v, n_o)
                for st in (0.0, dt[1], dt[L // 2], dt[L - 2], dt[L - 3] + 0.01):
                    k = int(np.argmax(dt >= st))
                    for model, cond in ((False, 1e16), (True, 1e16), (False, 1e6), (True, 1e4)):
                        vv = self.modelled(dt[k:], v[k:], n_o[k:]) if model else v[k:]
                        np.random.seed(3)
                        b.diffusion(st, model=model, cond_max=cond, progress=False, **A.TINY)
                        ctx.op()
                        self.compare(ctx, b.covariance_matrix, vv, n_o[k:], cond, f'{case} n_o[0]={n_o[0]} v[0]={v[0]} '
                                     f'start_dt={st} model={model} cond_max={cond}')

    def graded(self, case, ctx):
        """Variances over many orders of magnitude: a high condition limit is respected too."""
        dt = DTS[1][:3]
        v = np.array(case['w'])
        top = v.max()
        for n_o in (np.array([300.0, 110.0, 40.0]), np.array([64.0, 64.0, 64.0])):
            n = (6 * dt + 0.4 + 0.05 * np.sin(np.arange(3) * 2.3)) * np.sqrt(top)
            b = A.with_statistics(dt, n, v, n_o)
            for cond in (1e15, 1e14, 1e12, 1e10):
                np.random.seed(3)
                b.diffusion(0, cond_max=cond, progress=False, **A.TINY)
                ctx.op()
                self.compare(ctx, b.covariance_matrix, v, n_o, cond, f'v={v.tolist()} n_o={n_o.tolist()} cond_max={cond}', 2e-14)

    def matrices(self, case, ctx):
        """Reconditioning alone: all symmetric matrices over an alphabet (repeated eigenvalues included)."""
        from .. import kin
        n, letters = case['size'], case['letters']
        off = [(i, j) for i in range(n) for j in range(i + 1, n)]
        for vals in itertools.product(letters, repeat=len(off)):
            m = np.diag(np.array(case['diag'], dtype=float))
            for (i, j), x in zip(off, vals):
                m[i, j] = m[j, i] = x
            e = np.linalg.eigvalsh(m)
            if e[-1] < 0.1:
                continue  # no positive eigenvalue: not a covariance matrix in any sense
            for cond in (1.0, 2.0, 10.0, 1e6):
                before = m.copy()
                got = np.asarray(kin.diffusion.minimum_eigenvalue_method(m, cond))
                ctx.op()
                ctx.trace()
                want = ref.recondition(m, cond)
                ctx.states.add(hash((m.tobytes(), cond)) & (2**64 - 1))
                if not np.array_equal(before, m):
                    raise Violation(f'reconditioning modified its input {before.tolist()}')
                if got.shape != want.shape or np.max(np.abs(got - want)) > 1e-8 * np.max(np.abs(want)):
                    raise Violation(f'reconditioning of {m.tolist()} with limit {cond} gives {got.tolist()}, expected '
                                    f'{want.tolist()}')


CHECK = C10()
