"""C09: reported uncertainties scale with the independent observations of each interval."""
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import traj as T
from .. import ref

DIMS = ['x', 'y', 'z', 'xy', 'xz', 'yz', 'xyz']
DT = np.array([0.1, 0.3, 0.35, 0.7, 1.1, 1.5, 2.2, 2.9, 3.1, 4.0, 4.4, 5.1, 6.0])


class C09(Check):
    id = 'C09'
    technique = ('exhaustive enumeration of interval lists, observation counts, thinning and methods; variance by definition, '
                 'independent blocking model, integrality of the resampled sums')
    rule = ('estimator x axes x every (number of intervals, atoms, sub_sample_dt) x method (default, block, bootstrap, both); '
            'every array over {0,1} up to a size for blocking; a state is one configuration with its variances')
    bounds = {'quick': 'up to 8 intervals, 1..4 atoms, sub_sample_dt 1..4; blocking words up to length 9; up to 300 atoms, 6000 observations, 250 intervals',
              'thorough': 'up to 12 intervals, 1..5 atoms, sub_sample_dt 1..6; blocking words up to length 12'}
    assumptions = ['uravu.Distribution stores the samples it is given', 'blocking follows Flyvbjerg-Petersen with the '
                   'block length criterion of Lee et al. as documented by pyblock']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase  # noqa: F401
        import pyblock  # noqa: F401
        A.fast_distributions()

    def cases(self, tier):
        full = tier == 'thorough'
        top, subs, atoms = (12, 6, [1, 2, 3, 4, 5]) if full else (8, 4, [1, 2, 4])
        for kind in 'DJS':
            for dim in DIMS:
                for N in atoms:
                    yield dict(what='plain', kind=kind, dim=dim, N=N, top=top, subs=subs)
            for dim in (DIMS if full else ['x', 'yz', 'xyz']):
                for L in range(2, top + 1):
                    for sub in (1, 2, 3):
                        yield dict(what='boot', kind=kind, dim=dim, L=L, sub=sub)
            for N, M, L in ((300, 40, 4), (2, 6000, 3), (1, 900, 130), (70, 3, 250), (12, 700, 9)):
                yield dict(what='large', kind=kind, N=N, M=M, L=L)
            for length in range(2, (13 if full else 10)):
                yield dict(what='words', kind=kind, length=length)
            for dim in DIMS:
                for M in (20, 64, 130):
                    yield dict(what='block', kind=kind, dim=dim, M=M)
            for F in range(4, 10):
                yield dict(what='analyzer', kind=kind, F=F)

    def run(self, case, ctx):
        getattr(self, case['what'])(case, ctx)

    @staticmethod
    def check(ctx, b, want, desc, no):
        ctx.trace(len(want['v']))
        if not ref.close(b.dt, want['dt'], 1e-12):
            raise Violation(f'{desc}: dt {np.asarray(b.dt).tolist()} expected {want["dt"].tolist()}')
        for name, w in (('n', want['n']), ('v', want['v']), ('s', np.sqrt(want['v']))):
            got = np.asarray(getattr(b, name), dtype=float)
            if not ref.rclose(got, w, 1e-8):
                raise Violation(f'{desc}: {name} {got.tolist()} expected {w.tolist()} (n_o {list(no)})'[:3000])

    def plain(self, case, ctx):
        kind, dim, N = case['kind'], case['dim'], case['N']
        for L in range(1, case['top'] + 1):
            dt = DT[:L]
            arr = A.irregular_list(L, N, L + 2, salt=N)
            for n_o, q in ((N * 7.0 / dt, 0), (N * (50.0 - np.arange(L)**2 * 0.3), 0), (np.full(L, 13.0), 1), (1.5 + 0.1 * np.arange(L), 2),
                           (0.4 + 0.07 * np.arange(L), 0)):
                for sub in range(1, case['subs'] + 1):
                    for off in (False, True):
                        if off and sub != 1:
                            continue
                        q = [(-1)**i * (i + 1) for i in range(N)] if q == 0 else ([0.5] + [0] * (N - 1) if q == 1 else [2, 0, -2, 1, 1][:N]) \
                            if isinstance(q, int) else q
                        # `off`: numbers of observations as a longer array than the intervals, as after dropping
                        b = A.estimator(kind, dt, arr, np.append(n_o, [3.0]) if off else n_o, charge=q, dimension=dim,
                                        sub_sample_dt=sub)
                        ctx.op(L)
                        want = ref.statistics(kind, dt, arr, n_o, dim, sub, q)
                        ctx.state(kind, dim, L, N, sub, want['v'])
                        self.check(ctx, b, want, f'{kind} {dim} L={L} N={N} sub_sample_dt={sub}', n_o)
                        if not ref.rclose(np.asarray(b.n_i, dtype=float), n_o[::sub][:len(want['n'])], 1e-12):
                            raise Violation(f'{kind} {dim} L={L} N={N} sub_sample_dt={sub}: independent observations {b.n_i}, given {n_o}')

    def large(self, case, ctx):
        kind, N, M, L = case['kind'], case['N'], case['M'], case['L']
        arr = A.irregular_list(L, N, M, salt=3)
        dt = 0.25 * np.arange(1, L + 1)
        n_o = N * L / np.arange(1.0, L + 1)
        q = [(-1)**i * (1 + i % 3) for i in range(N)]
        for dim in ('xyz', 'xz', 'z'):
            for sub in (1, 2):
                b = A.estimator(kind, dt, arr, n_o, charge=q, dimension=dim, sub_sample_dt=sub)
                ctx.op(L)
                want = ref.statistics(kind, dt, arr, n_o, dim, sub, q)
                ctx.state(kind, dim, sub, want['v'])
                self.check(ctx, b, want, f'{case} {dim} sub_sample_dt={sub}', n_o[:3])
                if sub == 2 or dim == 'xz' and L < 10:
                    b = A.estimator(kind, dt, arr, n_o, charge=q, dimension=dim, sub_sample_dt=sub, bootstrap=True, n_resamples=9,
                                    max_resamples=9, random_state=np.random.RandomState(3))
                    ctx.op(L)
                    self.check(ctx, b, want, f'{case} {dim} sub_sample_dt={sub} bootstrap', n_o[:3])
                    d = b.to_dict()
                    r = [[x.mean(), x.var(ddof=1), x.std(ddof=1)] for x in (np.ravel(y['samples']) for y in d['distributions'])]
                    g = np.array([d[c + '_bootstrap'] for c in 'nvs'], dtype=float).T
                    if g.shape != np.shape(r) or not ref.rclose(g, r, 1e-9):
                        raise Violation(f'{case} {dim} sub_sample_dt={sub}: resampled means, variances, sds {g.tolist()[:4]}, expected {r[:4]}')

    def words(self, case, ctx):
        """Every sequence over {0,1} as the squared quantity of an interval, with blocking."""
        kind, length = case['kind'], case['length']
        w = A.words((0, 1), length)
        if kind == 'D':
            arr = [np.concatenate([x[None, :, None]] + [np.zeros((1, length, 1))] * 2, axis=2) for x in w]
        else:
            arr = [np.concatenate([x[None, :, None]] + [np.zeros((1, length, 1))] * 2, axis=2) for x in w] * 2
        L = len(arr)
        dt = np.arange(1.0, L + 1)
        b = A.estimator(kind, dt, arr, np.full(L, 5.0), charge=1, block=True)
        ctx.op(L)
        got = np.array([b.n, b.v, b.s])
        if got.shape != (3, len(w)):
            raise Violation(f'{kind} block: {got.shape} instead of {(3, len(w))}')
        for i, x in enumerate(w):
            r = ref.reblock(x)
            ctx.trace()
            if r is None:
                ctx.add('undecided')
                continue
            ctx.states.add(hash((kind, x.tobytes(), r)) & (2**64 - 1))
            if not ref.rclose(got[:, i], [r[0], r[1], np.sqrt(r[1])], 1e-8):
                raise Violation(f'{kind} block on {x.tolist()}: mean, variance, sd {got[:, i].tolist()}, expected '
                                f'{[r[0], r[1], np.sqrt(r[1])]}')

    def block(self, case, ctx):
        kind, dim = case['kind'], case['dim']
        for N in (1, 3):
            L = 8
            arr = A.irregular_list(L, N, case['M'], salt=case['M'])
            arr = [a if i % 2 else np.cumsum(a, axis=1) for i, a in enumerate(arr)]
            dt = DT[:L]
            n_o = N * 7.0 / dt
            q = [1, -2, 3][:N]
            for sub in (1, 2, 3):
                b = A.estimator(kind, dt, arr, n_o, charge=q, dimension=dim, sub_sample_dt=sub, block=True)
                ctx.op(L)
                sel = arr[::sub]
                last = len(sel) if kind == 'D' else len(sel) // 2
                r = [ref.reblock(ref.squared(kind, a, dim, q)) for a in sel[:last]]
                ctx.trace(last)
                ctx.state(kind, dim, N, sub, [x[1] for x in r if x])
                for i in range(last):
                    if r[i] is None:
                        ctx.add('undecided')
                        continue
                    got = [float(b.n[i]), float(b.v[i]), float(b.s[i])]
                    if not ref.rclose(got, [r[i][0], r[i][1], np.sqrt(r[i][1])], 1e-8):
                        raise Violation(f'{kind} {dim} N={N} sub_sample_dt={sub} block, interval {i}: mean, variance, sd '
                                        f'{got}, expected {[r[i][0], r[i][1], np.sqrt(r[i][1])]}')

    def boot(self, case, ctx):
        """
        Squared quantities in {0, 1}: a mean of k resampled observations is a whole number of k-ths, for the k of that
        very interval (primes), and of no other.
        """
        kind, dim, L, sub = case['kind'], case['dim'], case['L'], case['sub']
        ax = ref.AXES[dim][-1]
        primes = [101, 97, 89, 83, 79, 73, 71, 67, 61, 59, 53, 47][:L]
        for N in (1, 3):
            for frac in (0.0, 0.6):
                arr = []
                for i in range(L):
                    M = 7 + (L - i)
                    a = np.zeros((N, M, 3))
                    a[:, :, (ax + 1) % 3 if len(dim) == 1 else ax] = 0
                    bits = (np.arange(M) * 5 + i) % (3 + i % 2) == 0
                    if kind == 'D':
                        for j in range(N):
                            a[j, :, ax] = np.roll(bits, j)
                    else:
                        a[0, :, ax] = bits
                    arr.append(a)
                dt = DT[:L]
                n_o = np.array([(p + frac) * (1 if kind == 'D' else N) for p in primes])
                for block, alpha in ((False, 1e-3), (True, 1e-3)) + (((False, 1.0), ) if frac else ()):
                    # at level 1 batches are added up to the limit
                    b = A.estimator(kind, dt, arr, n_o, charge=1, dimension=dim, sub_sample_dt=sub, bootstrap=True,
                                    block=block, n_resamples=60, max_resamples=200, alpha=alpha,
                                    random_state=np.random.RandomState(L))
                    base = A.estimator(kind, dt, arr, n_o, charge=1, dimension=dim, sub_sample_dt=sub, block=block)
                    ctx.op(2 * L)
                    desc = f'{case} N={N} n_o={n_o.tolist()} block={block} alpha={alpha}'
                    want = ref.statistics(kind, dt, arr, n_o, dim, sub, 1)
                    for name in ('dt', 'n', 'v', 's', 'ngp'):
                        if not np.array_equal(getattr(b, name), getattr(base, name), equal_nan=True):
                            raise Violation(f'{desc}: bootstrapping changes {name}')
                    d = b.to_dict()
                    dist = d['distributions'] or []
                    K = len(want['dt'])
                    if not (len(dist) == len(d['n_bootstrap']) == len(d['v_bootstrap']) == len(d['s_bootstrap']) == K):
                        raise Violation(f'{desc}: {len(dist)} resampled distributions for {K} intervals')
                    d0 = base.to_dict()
                    if d0['distributions'] or len(d0['n_bootstrap']):
                        raise Violation(f'{desc}: resampled estimates without bootstrapping')
                    for i in range(K):
                        x = np.ravel(dist[i]['samples'])
                        k = primes[::sub][i]
                        ctx.trace()
                        if not (60 if alpha < 1 else 200) <= len(x) < 300:
                            raise Violation(f'{desc}: {len(x)} resamples at interval {i}')
                        if np.max(np.abs(x * k - np.rint(x * k))) > 1e-9 * k:
                            raise Violation(f'{desc}: the resampled values of interval {i} are not means of {k} observations'
                                            f' of it: {x[:5].tolist()}')
                        if not (x.min() < x.max()) or x.min() < 0 or x.max() > 1:
                            raise Violation(f'{desc}: resampled values of interval {i} out of range {x[:5].tolist()}')
                        m = float(want['n'][i])
                        se = np.sqrt(m * (1 - m) / k)
                        if abs(x.mean() - m) > 6 * se / np.sqrt(len(x)) or not 0.4 < x.std() / se < 2:
                            raise Violation(f'{desc}: the resampled values of interval {i} do not scatter around its mean '
                                            f'{m}: mean {x.mean()} sd {x.std()} expected sd {se}')
                        r = [x.mean(), x.var(ddof=1), x.std(ddof=1)]
                        g = [float(d[f'{c}_bootstrap'][i]) for c in 'nvs']
                        ctx.state(kind, dim, L, N, frac, i, g)
                        if not ref.rclose(g, r, 1e-9):
                            raise Violation(f'{desc}: resampled mean, variance, sd of interval {i} {g}, expected {r}')

    def analyzer(self, case, ctx):
        from .. import kin
        kind, F = case['kind'], case['F']
        tr = T.Traj(T.irregular(F, 5, salt=F) + 5, T.CELLS['ortho'], ['Li', 'Li', 'O', 'Li', 'O'])
        obj = tr.ase()
        for dim in DIMS:
            for sub in (1, 2):
                for n_steps in (100, 3):
                    for boot in (False, True):
                        up = dict(progress=False, dimension=dim, sub_sample_dt=sub)
                        if boot:
                            up.update(bootstrap=True, n_resamples=20, max_resamples=20,
                                      random_state=np.random.RandomState(1))
                        a = kin.ANALYZERS[kind].from_ase(
                            obj, dict(specie='Li', time_step=0.2, step_skip=3, progress=False, n_steps=n_steps),
                            uncertainty_params=up, **({'ionic_charge': 2} if kind == 'S' else {}))
                        ctx.op()
                        want = ref.pipeline(tr, kind, 0.2, 3, dim=dim, sub_dt=sub, charge=2, n_steps=n_steps)
                        ctx.trace()
                        ctx.state(kind, dim, F, sub, n_steps, want['stats']['v'])
                        bad = ref.compare_stats(a, want['stats'], kind, 1e-10)
                        if bad:
                            raise Violation(f'{case} {dim} sub_sample_dt={sub} n_steps={n_steps} bootstrap={boot}: {bad}')


CHECK = C09()
