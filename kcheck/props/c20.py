"""C20: bootstrap resampling stops when normal or at its limit, with true resample means."""
import collections
import itertools
import math
import warnings
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A

Result = collections.namedtuple('NormaltestResult', ['statistic', 'pvalue'])
VERDICT = {'-': 0.5, '=': 1.0, '+': 2.0}  # p-value as a multiple of the level: fails, just passes, passes


class Normality:
    """The normality test follows a script (one letter per call, then the last letter for ever)."""

    def __init__(self, word, alpha):
        self.word, self.alpha = word, alpha
        self.seen = []

    def __call__(self, a, *args, **kwargs):
        c = self.word[min(len(self.seen), len(self.word) - 1)]
        self.seen.append(np.array(a, dtype=float).ravel())
        return Result(1.0, VERDICT[c] * self.alpha)

    def __enter__(self):
        import scipy.stats
        import scipy.stats._stats_py as sp
        from .. import kin
        self.old = []
        for mod in (kin.diffusion, scipy.stats, sp):
            if hasattr(mod, 'normaltest'):
                self.old.append((mod, mod.normaltest))
                mod.normaltest = self
        return self

    def __exit__(self, *a):
        for mod, f in self.old:
            mod.normaltest = f


class Bypassed(Exception):
    pass


class Scripted(np.random.RandomState):
    """A random state whose equally likely choices among M follow a script of digits."""

    def __init__(self, digits, M):
        super().__init__(0)
        self.digits, self.M, self.at, self.bypassed = list(digits), M, 0, False

    def take(self, size):
        shape = () if size is None else (size if isinstance(size, tuple) else (int(size), ))
        n = int(np.prod(shape))
        if self.at + n > len(self.digits):
            self.bypassed = True
            raise Bypassed('more draws than expected')
        out = np.array(self.digits[self.at:self.at + n], dtype=int).reshape(shape)
        self.at += n
        return out if size is not None else int(out)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if high - low != self.M:
            self.bypassed = True
            return super().randint(low, high, size)
        return low + self.take(size)

    def choice(self, a, size=None, replace=True, p=None):
        n = int(a) if np.ndim(a) == 0 else len(a)
        if n != self.M or not replace or (p is not None and not np.allclose(p, 1 / n, rtol=1e-12)):
            self.bypassed = True
            return super().choice(a, size, replace, p)
        i = self.take(size)
        return i if np.ndim(a) == 0 else np.asarray(a)[i]

    def _other(name):

        def f(self, *a, **k):
            self.bypassed = True
            return getattr(super(Scripted, self), name)(*a, **k)

        return f

    for _n in ('shuffle', 'permutation', 'random_sample', 'rand', 'uniform', 'dirichlet', 'multinomial', 'random_integers',
               'standard_normal', 'randn', 'normal', 'exponential', 'poisson', 'binomial'):
        locals()[_n] = _other(_n)
    del _other, _n


def call(data, n, n_res, max_res, alpha, state):
    from .. import kin
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        d = kin.Bootstrap.sample_until_normal(np.array(data, dtype=float), n, n_res, max_res, alpha, state)
    warned = any(issubclass(x.category, UserWarning) or 'resample' in str(x.message).lower() for x in w)
    return np.array(d.samples, dtype=float).ravel(), warned


def expected(word, n_res, max_res):
    """(number of values, warned) for a script of verdicts."""
    count, k = n_res, 0
    while word[min(k, len(word) - 1)] == '-' and count < max_res:
        count += 100
        k += 1
    return count, count >= max_res


def decode(value, n, M):
    """Counts of each of the M data 1, B, B^2, ... (B = n + 1) in a mean of n draws; None if it is not one."""
    x = value * n
    r = int(round(x))
    if abs(x - r) > 1e-6 * max(1, abs(x)):
        return None
    B, out = n + 1, []
    for _ in range(M):
        out.append(r % B)
        r //= B
    return tuple(out) if r == 0 and sum(out) == n else None


class C20(Check):
    id = 'C20'
    technique = ('exhaustive exploration of all verdict sequences of the normality test (scripted) and of all draw sequences of the '
                 'random generator (scripted) through the real resampling loop')
    rule = ('every word over {fails, just passes, passes} x requested x maximum x level, directly and through each estimator; every '
            'index sequence M^n for every number of data and draws; a state is one (count, warning) or one resample outcome')
    bounds = {'quick': 'words of length <= 4, 6 requested x 8 maxima x 3 levels; all M^n index sequences for M, n <= 4 and pairs of '
                       'resamples for M, n <= 2 (3, 2)',
              'thorough': 'words of length <= 5, 9 requested x 14 maxima x 4 levels; all M^n for M <= 5, n <= 5'}
    assumptions = ['the code draws indices through RandomState.randint or .choice, otherwise (and in addition) frequencies of a '
                   'seeded run are required to be within 7 standard deviations of the multinomial law']

    def setup(self):
        from .. import kin  # noqa: F401
        A.fast_distributions()

    def cases(self, tier):
        full = tier == 'thorough'
        reqs = [1, 2, 10, 99, 100, 150] + ([3, 101, 250] if full else [])
        maxs = [0, 1, 10, 100, 101, 199, 200, 250] + ([2, 99, 150, 299, 300, 351] if full else [])
        for q in reqs:
            for m in maxs:
                for alpha in [1e-3, 0.05, 0.3] + ([1e-6] if full else []):
                    yield dict(what='control', q=q, m=m, alpha=alpha, L=5 if full else 4)
        for q, m in ((10, 6010), (1000, 10000), (1000, 10001), (2500, 2400)):
            yield dict(what='control', q=q, m=m, alpha=0.01, L=1)
        for kind in 'DJS':
            for q, m in ((10, 10), (10, 150), (10, 210), (100, 300), (120, 100)):
                for sub in (1, 2):
                    yield dict(what='estimator', kind=kind, q=q, m=m, sub=sub, L=3)
            for m in (110, 410):
                for alpha in (0.001, 0.1, 0.4, 0.8):
                    for seed in range(4):
                        yield dict(what='real', kind=kind, m=m, alpha=alpha, seed=seed)
        top = 5 if full else 4
        for M in range(1, top + 1):
            for n in range(1, top + 1):
                yield dict(what='draws', M=M, n=n, k=1)
                yield dict(what='means', M=M, n=n)
        for M, n in [(2, 1), (2, 2), (3, 1), (3, 2)] + ([(2, 3), (4, 2), (2, 4), (3, 3)] if full else []):
            yield dict(what='draws', M=M, n=n, k=2)
        for M, n in [(2, 2), (3, 2), (2, 3), (3, 3), (5, 1)]:
            yield dict(what='frequency', M=M, n=n)
        # equal values among the data: every partition of M data into at most 3 values
        for M in range(2, top + 2):
            for word in itertools.product(range(3), repeat=M):
                if len(set(word)) < M and all(x <= max(word[:i], default=-1) + 1 for i, x in enumerate(word)):
                    for n in (1, 2, 3):
                        if M**n <= 256:
                            yield dict(what='repeated', word=word, n=n)

    def run(self, case, ctx):
        getattr(self, case['what'])(case, ctx)

    def control(self, case, ctx):
        data = [1.0, 2.5, 4.0, 9.0]
        seen_words = set()
        for L in range(1, case['L'] + 1):
            for word in itertools.product('-=+', repeat=L):
                # after the first pass nothing more may be asked: longer words with the same prefix only vary unreachable letters
                with Normality(word, case['alpha']) as t:
                    got, warned = call(data, 3, case['q'], case['m'], case['alpha'], np.random.RandomState(1))
                ctx.op(len(t.seen))
                if not t.seen:
                    return  # the code uses another test: see 'real'
                want, warn = expected(word, case['q'], case['m'])
                ctx.trace()
                ctx.state(got.size, warned, word[:len(t.seen)])
                desc = f'{case["q"]} requested, at most {case["m"]}, verdicts {"".join(word)} at {case["alpha"]}'
                if got.size != want:
                    raise Violation(f'{desc}: {got.size} values, expected {want}')
                if warned != warn:
                    raise Violation(f'{desc}: {"a" if warned else "no"} warning with {got.size} values')
                for earlier, later in zip(t.seen, t.seen[1:] + [got]):
                    lost = collections.Counter(earlier.tolist()) - collections.Counter(later.tolist())
                    if lost:
                        raise Violation(f'{desc}: values drawn earlier were lost: {list(lost)[:3]}')
                seen_words.add(word[:len(t.seen)])
        ctx.add('verdict_words', len(seen_words))

    @staticmethod
    def inputs(kind, sub=1):
        """Displacements whose squared values at interval i are a permutation of powers; returns the data of every interval."""
        n = [6, 4, 3, 2]
        dt, disp, n_o, data = [], [], [], []
        for i in range(8):
            k = n[min(i // 2, 3)]
            M = 3 if i % 2 else 4
            vals = np.array([float((k + 1)**j) for j in range(M)])
            if kind == 'D':  # two atoms share the values
                if M % 2:
                    d = np.zeros((1, M, 3))
                    d[0, :, i % 3] = np.sqrt(vals)
                else:
                    d = np.zeros((2, M // 2, 3))
                    d[:, :, i % 3] = np.sqrt(vals).reshape(2, -1)
                n_o.append(float(k) + 0.25)
            else:  # collective: the second atom stands still
                d = np.zeros((2, M, 3))
                d[0, :, i % 3] = np.sqrt(vals)
                n_o.append(2.0 * k + 0.5)
            dt.append(0.5 * (i + 1))
            disp.append(d)
            data.append((k, M))
        used = range(0, 8, sub)
        used = list(used) if kind == 'D' else list(used)[:len(used) // 2]
        return np.array(dt), disp, np.array(n_o), [data[i] for i in used]

    def estimator(self, case, ctx):
        kind = case['kind']
        dt, disp, n_o, data = self.inputs(kind, case['sub'])
        for word in itertools.product('-+', repeat=case['L']):
            with Normality(word, 0.05) as t:
                with warnings.catch_warnings(record=True):
                    warnings.simplefilter('always')
                    b = A.estimator(kind, dt, disp, n_o, bootstrap=True, n_resamples=case['q'], max_resamples=case['m'], alpha=0.05,
                                    sub_sample_dt=case['sub'], random_state=np.random.RandomState(3))
            ctx.op(len(data))
            ds = b.to_dict()['distributions']
            if len(ds) != len(data):
                raise Violation(f'{case}: {len(ds)} distributions for {len(data)} intervals')
            at = 0
            for i, (d, (k, M)) in enumerate(zip(ds, data)):
                got = np.array(d['samples'], dtype=float).ravel()
                ctx.trace()
                ctx.state(kind, i, got.size)
                if t.seen:
                    w = [word[min(at + j, len(word) - 1)] for j in range(50)]
                    want, _ = expected(w, case['q'], case['m'])
                    at += 1 + (want - case['q']) // 100
                    if got.size != want:
                        raise Violation(f'{kind} interval {i}: {got.size} values, expected {want} for {"".join(word)} {case}')
                for v in got:
                    if decode(v, k, M) is None:
                        raise Violation(f'{kind} interval {i}: {v} is not the mean of {k} of the {M} observations')

    def real(self, case, ctx):
        """With the real normality test: the counts follow from the p-values of the values that were drawn."""
        from scipy.stats import normaltest
        kind = case['kind']
        dt, disp, n_o, data = self.inputs(kind)
        with warnings.catch_warnings(record=True):
            warnings.simplefilter('always')
            b = A.estimator(kind, dt, disp, n_o, bootstrap=True, n_resamples=10, max_resamples=case['m'], alpha=case['alpha'],
                            random_state=np.random.RandomState(case['seed']))
        for i, d in enumerate(b.to_dict()['distributions']):
            got = np.array(d['samples'], dtype=float).ravel()
            ctx.op()
            ctx.trace()
            size = 10
            while normaltest(got[:size])[1] < case['alpha'] and size < case['m'] and size < got.size:
                size += 100
            done = normaltest(got)[1] >= case['alpha'] or got.size >= case['m'] or np.isnan(normaltest(got)[1])
            ctx.state(kind, got.size, case['alpha'])
            if (got.size - 10) % 100 or got.size >= case['m'] + 100 or not done or size != got.size:
                raise Violation(f'{case}, interval {i}: {got.size} values (stopping rule gives {size}, done {done})')

    def means(self, case, ctx):
        M, n = case['M'], case['n']
        data = [float((n + 1)**j) for j in range(M)]
        for order in itertools.permutations(data) if M <= 3 else [data, data[::-1]]:
            for shape in ([M], [1, M], [M, 1]):
                for req in (n, float(n), n + 0.9):
                    for state in (None, np.random.RandomState(5)):
                        np.random.seed(4)
                        with Normality('-+', 0.05):
                            got, _ = call(np.array(order).reshape(shape), req, 20, 200, 0.05, state)
                        ctx.op()
                        for v in got:
                            ctx.trace()
                            c = decode(v, n, M)
                            if c is None:
                                raise Violation(f'{v} is not the mean of {n} values drawn from {list(order)}')
                            ctx.state(M, n, c)

    def draws(self, case, ctx):
        """All index sequences: every outcome appears as often as its number of equally likely sequences."""
        M, n, k = case['M'], case['n'], case['k']
        data = [float((n + 1)**j) for j in range(M)]
        seen = collections.Counter()
        for digits in itertools.product(range(M), repeat=n * k):
            st = Scripted(digits, M)
            with Normality('+', 0.05):
                try:
                    got, _ = call(data, n, k, 1000, 0.05, st)
                except Bypassed:
                    ctx.add('bypassed')
                    return
            ctx.op()
            if st.bypassed or st.at == 0:
                ctx.add('bypassed')
                return  # drawn in another way: see 'frequency'
            c = tuple(decode(v, n, M) for v in got)
            if None in c or len(c) != k:
                raise Violation(f'draws {digits} of {data}: {got} are not {k} means of {n} values')
            seen[c] += 1
            ctx.trace()
        one = {}
        for c in itertools.product(range(n + 1), repeat=M):
            if sum(c) == n:
                one[c] = math.factorial(n) // math.prod(math.factorial(x) for x in c)
        for c in itertools.product(one, repeat=k):
            want = math.prod(one[x] for x in c)
            ctx.state(M, n, c)
            if seen[c] != want:
                raise Violation(f'{M} data, {n} draws: outcome {c} comes up for {seen[c]} of {M**(n * k)} equally likely draw '
                                f'sequences, expected {want}')

    def repeated(self, case, ctx):
        """Observations with equal values count separately."""
        word, n = case['word'], case['n']
        M, K = len(word), max(word) + 1
        data = [float((n + 1)**j) for j in word]
        want = collections.Counter()
        for idx in itertools.product(range(M), repeat=n):
            want[tuple(sum(1 for i in idx if word[i] == j) for j in range(K))] += 1
        seen = collections.Counter()
        scripted = True
        for digits in itertools.product(range(M), repeat=n):
            st = Scripted(digits, M)
            with Normality('+', 0.05):
                try:
                    got, _ = call(data, n, 1, 1000, 0.05, st)
                except Bypassed:
                    scripted = False
                    break
            ctx.op()
            if st.bypassed or st.at == 0:
                scripted = False
                break
            ctx.trace()
            seen[decode(got[0], n, K)] += 1
        if scripted and seen != want:
            raise Violation(f'{n} draws from {data}: outcomes {dict(seen)}, expected {dict(want)}')
        if not scripted:
            ctx.add('bypassed')
            N = 3000
            with Normality('+', 0.05):
                got, _ = call(data, n, N, N, 0.05, np.random.RandomState(11))
            seen = collections.Counter(decode(v, n, K) for v in got)
            for c in set(seen) | set(want):
                p = want[c] / M**n
                ctx.trace()
                if abs(seen[c] - N * p) > 7 * math.sqrt(N * p * (1 - p)):
                    raise Violation(f'{n} draws from {data}: outcome {c} came up {seen[c]} times in {N}, expected {N * p:.0f}')
        for c in want:
            ctx.state(word, n, c)

    def frequency(self, case, ctx):
        M, n = case['M'], case['n']
        data = [float((n + 1)**j) for j in range(M)]
        N = 4000
        with Normality('+', 0.05):
            got, _ = call(data, n, N, N, 0.05, np.random.RandomState(11))
        seen = collections.Counter(decode(v, n, M) for v in got)
        ctx.op(N)
        for c in itertools.product(range(n + 1), repeat=M):
            if sum(c) == n:
                p = math.factorial(n) / math.prod(math.factorial(x) for x in c) / M**n
                ctx.trace()
                ctx.state(M, n, c)
                if abs(seen[c] - N * p) > 7 * math.sqrt(N * p * (1 - p)):
                    raise Violation(f'{M} data, {n} draws: outcome {c} came up {seen[c]} times in {N}, expected {N * p:.0f}')


CHECK = C20()
