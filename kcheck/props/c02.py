"""C02: every displacement window is present exactly once and paired with its interval."""
import itertools
import numpy as np
from ..runtime import Check, Violation, grid
from .. import traj as T
from .. import ref


def selections(n):
    return [list(p) for k in range(1, n + 1) for p in itertools.permutations(range(n), k)]


def grids(F, full):
    """Interval grids (min_dt, max_dt in frames, n_steps, spacing), all combinations that the trajectory admits."""
    for sp in ('linear', 'logarithmic'):
        for lo in (None, 2, 3) + ((0, 4, 5) if full else ()):
            if lo is not None and lo >= F:
                continue
            for hi in (None, F - 1, 4) + ((2, 3, 5, 6) if full else ()):
                if hi is not None and not (max(lo or 1, 1) <= hi <= F):
                    continue
                for n in (100, 1, 2, 3) + ((4, 5) if full else ()):
                    yield lo, hi, n, sp


def expected_grid(F, lo, hi, n, sp):
    g = ref.intervals(F, '1', 1, lo, hi, n, sp)
    return g


class C02(Check):
    id = 'C02'
    technique = ('exhaustive enumeration of trajectory shapes, ordered selections, interval grids and sampling modes; '
                 'windows of the real code against enumerated windows')
    rule = ('every frame count x atom count x ordered selection x interval grid x sampling mode on irregular series in '
            'which no two windows coincide; a state is one (shape, interval, window set)')
    bounds = {
        'quick': 'frames 1..9, atoms 1..3, all ordered selections; plus 150/400/1100 frames and 300 atoms',
        'thorough': 'frames 1..13, atoms 1..4, all ordered selections, denser grids; plus the large shapes',
    }
    assumptions = ['the parsed displacement series itself is C01/C04']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase, pymatgen.core, MDAnalysis  # noqa: F401

    def cases(self, tier):
        full = tier == 'thorough'
        maxF, maxN = (13, 4) if full else (9, 3)
        for F in range(1, maxF + 1):
            for n in range(1, maxN + 1):
                for sampling in ('multi-origin', 'single-origin'):
                    if n == 4 and F > 9:
                        continue
                    yield dict(kind='raw', F=F, n=n, sampling=sampling, full=full)
        for F, n in ((150, 1), (150, 2), (400, 2), (1100, 1), (25, 300), (120, 3), (220, 260), (2600, 3)):
            for sampling in ('multi-origin', 'single-origin'):
                for sp in ('linear', 'logarithmic'):
                    for steps in (100, 7, F):
                        if steps > 7 and F * steps * n > (400000 if not full else 4000000):
                            continue
                        yield dict(kind='big', F=F, n=n, sampling=sampling, spacing=sp, n_steps=steps)
        for route in T.ROUTES:
            for F in range(2, 8 if not full else 12):
                for sampling in ('multi-origin', 'single-origin'):
                    for sub in (1, 2) if F > 2 else (1, ):
                        yield dict(kind='parsed', route=route, F=F, sampling=sampling, sub=sub)

    def run(self, case, ctx):
        if case['kind'] == 'raw':
            for sel in selections(case['n']):
                for lo, hi, n, sp in grids(case['F'], case['full']):
                    self.raw(ctx, case['F'], case['n'], sel, lo, hi, n, sp, case['sampling'])
        elif case['kind'] == 'big':
            self.raw(ctx, case['F'], case['n'], list(range(case['n'])), None, None, case['n_steps'], case['spacing'],
                     case['sampling'])
        else:
            self.parsed(case, ctx)

    def raw(self, ctx, F, n, sel, lo, hi, n_steps, sp, sampling):
        from .. import kin
        adm = expected_grid(F, lo, hi, n_steps, sp)
        if adm is None:
            return
        disp = T.irregular(F, n, salt=F).transpose(1, 0, 2)
        p = kin.Parser(disp, list(sel), [], 1.0, 1, min_dt=lo, max_dt=hi, n_steps=n_steps, spacing=sp,
                       sampling=sampling, progress=False)
        ctx.op()
        desc = f'F={F} n={n} sel={sel} min={lo} max={hi} n_steps={n_steps} {sp} {sampling}'
        dt = np.asarray(p.delta_t, dtype=float)
        ser = disp[sel]
        self.check(ctx, desc, dt, p.disp_3d, getattr(p, '_n_o', None), ser, adm, sampling, sp)

    def check(self, ctx, desc, dt, obs, n_o, ser, adm, sampling, sp):
        got_t = [int(round(x)) for x in dt]
        kept = [t for t in got_t if not ref.dropped(ser.shape[0], ser.shape[1], t, sampling)]
        must = [s for s in adm if not any(ref.dropped(ser.shape[0], ser.shape[1], t, sampling) for t in s)]
        got_t = got_t[:len(obs)]
        if got_t != kept or any(not (s & set(got_t)) for s in must) or \
                any(not any(t in s for s in adm) for t in got_t):
            raise Violation(f'{desc}: observations for intervals {got_t} of {dt.tolist()}, '
                            f'expected {[sorted(s) for s in adm]} without those of fewer than two windows')
        longest = max(adm[-1])
        for i, t in enumerate(got_t):
            want = ref.windows(ser, t, sampling)
            ctx.trace()
            ctx.state(ser.shape, t, sampling, len(adm), want.sum())
            if not ref.close(obs[i], want, 1e-10):
                w = 'shape' if np.shape(obs[i]) != want.shape else 'values'
                raise Violation(f'{desc}: interval {t} (number {i}): {w} of the observations differ\n'
                                f'got {np.shape(obs[i])} {np.asarray(obs[i]).tolist()}\n'
                                f'expected {want.shape} {want.tolist()}'[:4000])
        if n_o is not None:
            want = np.array([ser.shape[0] * (1.0 if sampling == 'single-origin' else longest / t) for t in got_t])
            if not ref.close(np.asarray(n_o)[:len(want)], want, 1e-12):
                raise Violation(f'{desc}: independent observations {np.asarray(n_o).tolist()}, expected {want.tolist()}')

    def parsed(self, case, ctx):
        """Through the analyzers: the series is the one of the positions; known finding for the first observation."""
        import tempfile
        from .. import kin
        F, route, sampling, sub = case['F'], case['route'], case['sampling'], case['sub']
        x = T.irregular(F, 3, salt=F) + 5.0
        tr = T.Traj(x, T.CELLS['ortho'], ['Li', 'Li', 'O'])
        with tempfile.TemporaryDirectory() as d:
            obj = T.make(route, tr, d)
            a = T.constructor(kin.DiffusionAnalyzer, route)(
                obj, dict(specie='Li', time_step=1.0 * T.unit(route), step_skip=1, sampling=sampling,
                          sub_sample_traj=sub, framework_indices=[], progress=False),
                uncertainty_params={'progress': False})
        ctx.op()
        xs = x[::sub]
        ser = (xs - xs[0]).transpose(1, 0, 2)[:2]
        d = a.to_dict()
        got_t = [int(round(v / sub)) for v in np.asarray(d['delta_t'])]
        Fs = len(xs)
        if got_t != list(range(1, Fs + 1)):
            # a parser that does not repeat the first frame has windows of at most Fs - 1 frames
            if got_t != list(range(1, Fs)):
                raise Violation(f'{case}: intervals {got_t}')
        tol = T.tolerance(route)
        for i, (t, o) in enumerate(zip(got_t, d['disp_3d'])):
            ctx.trace()
            o = np.asarray(o)
            true = [ser[:, k + t] - ser[:, k] for k in range(Fs - t)]
            if sampling == 'single-origin':
                true = true[:1]
                lead_only = [ser[:, t - 1]]
            else:
                lead_only = [ser[:, t - 1]] + true
            if true and ref.close(o, np.stack(true, axis=1), tol):
                continue
            want = np.stack(lead_only, axis=1)
            if not ref.close(o, want, tol):
                raise Violation(f'{case}: interval {t}: got {o.tolist()}\nexpected {want.tolist()}')
            ctx.known.add('C02-leading-window')
        n_o = np.asarray(d['n_o'])
        want = np.array([2 * (1.0 if sampling == 'single-origin' else got_t[-1] / t) for t in got_t])
        if not ref.close(n_o, want, 1e-9):
            raise Violation(f'{case}: independent observations {n_o.tolist()} expected {want.tolist()}')


CHECK = C02()
