"""C08: mean-squared (total, charge) displacements are the averages they claim to be."""
import itertools
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import traj as T
from .. import ref

DIMS = list(ref.AXES)


def charges(N):
    return [1, 2, -1, 0.5, [(-1)**i * (i + 1) for i in range(N)], np.array([0.5 + i for i in range(N)]),
            np.arange(N) - 1, np.float64(-1.5), tuple(2 - i for i in range(N)), np.array(2), np.int64(3), -0.25, 0.0,
            np.full(N, -1.0), [0] * (N - 1) + [2], 0.85, -1 / 3, [0.85 - 0.3 * i for i in range(N)]]


class C08(Check):
    id = 'C08'
    technique = ('exhaustive enumeration of displacement arrays over a small alphabet as the intervals of one analysis; '
                 'averages by definition')
    rule = ('every array over the alphabet is one interval; x estimator x axes x charges; every (number of intervals, '
            'sub_sample_dt) pair; a state is one (array, axes) with its mean')
    bounds = {'quick': 'arrays 1x2, 2x2, 3x2, 1x4, 2x3 over {-1,0,2} on two axes (stride for the largest); up to 9 intervals, '
                       'sub_sample_dt 1..4',
              'thorough': 'same without stride, up to 13 intervals, sub_sample_dt 1..6'}
    assumptions = ['uravu.Distribution stores the samples it is given']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase  # noqa: F401
        A.fast_distributions()

    def cases(self, tier):
        full = tier == 'thorough'
        for kind in 'DJS':
            for dim in DIMS:
                for N, M, axes in ((1, 2, [0, 1, 2]), (2, 2, [0, 1]), (2, 2, [1, 2]), (3, 2, [2]), (1, 4, [0]), (2, 3, [1])):
                    qs = range(18) if kind == 'S' else [0]
                    for q in qs:
                        if kind == 'S' and not full and (q + DIMS.index(dim)) % 3:
                            continue
                        yield dict(kind=kind, what='words', dim=dim, N=N, M=M, axes=axes, q=q, full=full)
        for kind in 'DJS':
            for dim in DIMS:
                yield dict(kind=kind, what='grids', dim=dim, top=13 if full else 9, subs=6 if full else 4)
            yield dict(kind=kind, what='large')
            for F in range(3, 10):
                for dim in DIMS:
                    yield dict(kind=kind, what='analyzer', dim=dim, F=F)

    def run(self, case, ctx):
        getattr(self, case['what'])(case, ctx)

    def compare(self, ctx, b, want, desc, tol=1e-10):
        ctx.trace(len(want['n']))
        if not ref.close(b.dt, want['dt'], 1e-12):
            raise Violation(f'{desc}: dt {np.asarray(b.dt).tolist()} expected {want["dt"].tolist()}'[:3000])
        for name in ('n', 'ngp'):
            got = np.asarray(getattr(b, name), dtype=float)
            if not ref.rclose(got, want[name], 1e-9 if name == 'n' else 1e-7):
                if got.shape != want[name].shape:
                    raise Violation(f'{desc}: {name} has shape {got.shape}, expected {want[name].shape}')
                i = int(np.argmax(np.abs(got - want[name]) > 1e-9 * np.abs(want[name]) + 1e-12))
                raise Violation(f'{desc}: {name} at interval {i} (dt {want["dt"][i]}) is {got[i]}, expected '
                                f'{want[name][i]}')
        e = b.euclidian_displacements
        if len(e) != len(want['dr']):
            raise Violation(f'{desc}: {len(e)} displacement-length distributions, expected {len(want["dr"])}')
        for i, d in enumerate(e):
            if not ref.close(np.sort(np.ravel(d.samples)), np.sort(want['dr'][i]), 1e-9):
                raise Violation(f'{desc}: displacement lengths of interval {i} differ: {np.sort(np.ravel(d.samples)).tolist()}'
                                f' expected {np.sort(want["dr"][i]).tolist()}'[:3000])

    def words(self, case, ctx):
        kind, dim, N, M = case['kind'], case['dim'], case['N'], case['M']
        arr = A.all_arrays(N, M, case['axes'], (-1, 0, 2))
        stride = 1 if case['full'] else max(1, len(arr) // 250)
        # a stride coprime to the alphabet keeps all letters in all places
        while stride > 1 and stride % 3 == 0:
            stride += 1
        arr = list(arr[::stride])
        if kind != 'D':
            arr = arr + arr  # collective quantities cover the first half of the intervals
        L = len(arr)
        dt = 0.5 * (np.arange(L) + 1)
        n_o = N * L / (np.arange(L) + 1.0) + N
        q = charges(N)[case['q']]
        b = A.estimator(kind, dt, arr, n_o, charge=q, dimension=dim)
        ctx.op(L)
        want = ref.statistics(kind, dt, arr, n_o, dim, 1, q)
        for i in range(len(want['n'])):
            ctx.states.add(hash((kind, dim, arr[i].tobytes(), round(want['n'][i], 9))) & (2**64 - 1))
        self.compare(ctx, b, want, f'{kind} {dim} charges={q} arrays {N}x{M} over axes {case["axes"]}')

    def grids(self, case, ctx):
        kind, dim = case['kind'], case['dim']
        for L in range(1, case['top'] + 1):
            for N in (1, 2, 4):
                for sub in range(1, case['subs'] + 1):
                    arr = A.irregular_list(L, N, L + 1, salt=N)
                    dt = np.array([0.1, 0.3, 0.35, 0.7, 1.1, 1.5, 2.2, 2.9, 3.1, 4.0, 4.4, 5.1, 6.0])[:L]
                    n_o = N * 7.0 / dt
                    for q in charges(N)[::2] if kind == 'S' else [1]:
                        for d in (dim, dim.upper()) if sub == 1 else (dim, ):
                            b = A.estimator(kind, dt, arr, n_o, charge=q, dimension=d, sub_sample_dt=sub)
                            ctx.op(L)
                            want = ref.statistics(kind, dt, arr, n_o, dim, sub, q)
                            ctx.state(kind, dim, L, N, sub, want['n'])
                            self.compare(ctx, b, want, f'{kind} {d} L={L} N={N} sub_sample_dt={sub} charges={q}')

    def large(self, case, ctx):
        kind = case['kind']
        for N, M, L, scale in ((3, 300, 6, 'outlier'), (40, 200, 4, 'still'), (300, 40, 4, 1.0), (2, 6000, 3, 1.0), (1, 900, 130, 1e-3), (70, 3, 250, 1e3)):
            arr = A.irregular_list(L, N, M, salt=3)
            if scale == 'outlier':  # one observation far from all others
                for i, a in enumerate(arr):
                    a[i % N, 5 * i] *= 60 + 40 * i
            elif scale == 'still':  # atoms and observations without any motion
                for i, a in enumerate(arr):
                    a[::3] = 0
                    a[:, i::4] = 0
            else:
                arr = [a * scale for a in arr]
            dt = np.arange(1, L + 1) * 0.25
            n_o = N * L / np.arange(1.0, L + 1)
            for dim in ('xyz', 'xz', 'z'):
                q = charges(N)[4]
                b = A.estimator(kind, dt, arr, n_o, charge=q, dimension=dim)
                ctx.op(L)
                want = ref.statistics(kind, dt, arr, n_o, dim, 1, q)
                ctx.state(kind, dim, want['n'])
                self.compare(ctx, b, want, f'{kind} {dim} N={N} M={M} L={L}')

    def analyzer(self, case, ctx):
        """Through the analyzer: means, lengths and the position of the maximum of the non-Gaussian parameter."""
        from .. import kin
        kind, dim, F = case['kind'], case['dim'], case['F']
        tr = T.Traj(T.irregular(F, 4, salt=F) + 5, T.CELLS['ortho'], ['Li', 'Li', 'O', 'Li'])
        obj = tr.ase()
        for sub in (1, 2, 3):
            for q in ([1, -2, [1, -2, 3]] if kind == 'S' else [1]):
                a = kin.ANALYZERS[kind].from_ase(
                    obj, dict(specie='Li', time_step=0.2, step_skip=3, progress=False),
                    uncertainty_params=dict(progress=False, dimension=dim, sub_sample_dt=sub),
                    **({'ionic_charge': q} if kind == 'S' else {}))
                ctx.op()
                want = ref.pipeline(tr, kind, 0.2, 3, dim=dim, sub_dt=sub, charge=q)
                ctx.trace()
                ctx.state(kind, dim, F, sub, want['stats']['n'])
                bad = ref.compare_analyzer(a, want, kind, 1e-9)
                if bad:
                    raise Violation(f'{case} sub_sample_dt={sub} charges={q}: {bad}')
                ngp = want['stats']['ngp']
                if len(ngp) and (len(ngp) == 1 or np.sort(ngp)[-1] - np.sort(ngp)[-2] > 1e-6):
                    t = want['stats']['dt'][int(np.argmax(ngp))]
                    if abs(a.ngp_max - t) > 1e-9:
                        raise Violation(f'{case} sub_sample_dt={sub}: ngp_max {a.ngp_max}, expected {t} ({ngp.tolist()})')


CHECK = C08()
