"""C03: the grid of time intervals."""
import itertools
from fractions import Fraction
import numpy as np
from ..runtime import Check, Violation, grid
from .. import traj as T
from .. import ref

STEPS = ['1', '0.1', '0.001', '0.002', '0.0005', '5.079648e-4', '0.7', '3', '2.5', '0.01', '20']
SKIPS = [1, 2, 5, 10, 50, 100]


def dec(fr):
    """A Fraction with a finite decimal expansion as the float a user would type."""
    return float(fr)


class C03(Check):
    id = 'C03'
    technique = 'exhaustive enumeration of (frames, time step, skip, min_dt, max_dt, n_steps, spacing); rational oracle'
    rule = ('every combination of frame count, decimal time step, skip, min_dt, max_dt, n_steps and spacing; a state is '
            'one reported grid')
    bounds = {
        'quick': 'frames 1..14 with all options, up to 400 with default bounds, up to 1400 intervals; 11 decimal time steps x 6 skips; every logarithmic grid up to 400 frames with a point 1e-7..3e-4 beside a whole number',
        'thorough': 'frames 1..24 with all options, up to 1200 with default bounds',
    }
    assumptions = ['an interior point of a linear or geometric grid that lies within 1e-9 of a whole number may be '
                   'rounded to either side']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase, pymatgen.core, MDAnalysis  # noqa: F401

    def cases(self, tier):
        full = tier == 'thorough'
        for F in range(1, 25 if full else 15):
            for ts in STEPS:
                yield dict(kind='options', F=F, ts=ts, full=full)
        for ts in STEPS:
            for ss in SKIPS:
                yield dict(kind='default', ts=ts, ss=ss, top=1200 if full else 400)
        for route in T.ROUTES:
            for ts in STEPS:
                yield dict(kind='route', route=route, ts=ts)
        for F in (41, 60, 101, 150, 333) + ((640, 1500) if full else ()):
            for ts in ('1', '0.1') + (('0.02', '2.5') if full else ()):
                yield dict(kind='medium', F=F, ts=ts)
        for lo in range(1, 9):
            yield dict(kind='almost', lo=lo, top=900 if full else 400)
        for ts in ('1', '0.1'):
            yield dict(kind='many', F=1400, ts=ts)
        yield dict(kind='reject')

    def grid_case(self, ctx, F, ts, ss, lo, hi, n, sp, units=True):
        """lo and hi are Fractions of frames (or None)."""
        from .. import kin
        spacing = Fraction(ts) * ss
        mind = None if lo is None else dec(lo * spacing)
        maxd = None if hi is None else dec(hi * spacing)
        tsv = float(ts) if units else (int(ts) if '.' not in ts and 'e' not in ts else float(ts))
        kw = {}
        if n is not None:
            kw['n_steps'] = n
        if sp is not None:
            kw['spacing'] = sp
        desc = f'F={F} time_step={ts} step_skip={ss} min_dt={mind} max_dt={maxd} n_steps={n} {sp}'
        disp = self.data(F)
        low = 1 if lo is None else int(lo)
        if low >= F:
            try:
                kin.Parser(disp, [0, 1], [], tsv, ss, min_dt=mind, max_dt=maxd, progress=False, **kw)
            except ValueError:
                ctx.op()
                ctx.trace()
                ctx.state('rejected', F, low)
                return
            raise Violation(f'{desc}: min_dt is not shorter than the trajectory but was accepted')
        p = kin.Parser(disp, [0, 1], [], tsv, ss, min_dt=mind, max_dt=maxd, progress=False, **kw)
        self.verify(ctx, desc, p.delta_t, F, ts, ss, lo, hi, n, sp)

    def verify(self, ctx, desc, delta_t, F, ts, ss, lo, hi, n, sp, scale=1):
        spacing = Fraction(ts) * ss
        adm = ref.intervals(F, '1', 1, None if lo is None else int(lo), None if hi is None else int(hi),
                            100 if n is None else n, sp or 'linear')
        dt = np.asarray(delta_t, dtype=float)
        f = dt / float(spacing / scale)
        got = np.rint(f).astype(int)
        ctx.trace()
        ctx.op(len(got))
        ctx.state(F, ts, ss, got, sp)
        if np.any(np.abs(f - got) > 1e-9 * np.maximum(1, f)):
            raise Violation(f'{desc}: times {dt.tolist()} are not whole numbers of frames of {float(spacing / scale)}')
        if not ref.match_grid(got, adm, sp or 'linear'):
            raise Violation(f'{desc}: intervals {got.tolist()} frames, expected {[sorted(s) for s in adm]}')

    _data = {}

    def data(self, F):
        if F not in self._data:
            self._data[F] = T.irregular(F, 2).transpose(1, 0, 2)
        return self._data[F]

    def run(self, case, ctx):
        if case['kind'] == 'options':
            F, ts = case['F'], case['ts']
            half = Fraction(1, 2)
            los = [None, Fraction(0), half, Fraction(2), Fraction(3), Fraction(7, 2), Fraction(F - 1), Fraction(F),
                   Fraction(F + 3), Fraction(29, 10), Fraction(2997, 1000), Fraction(39999, 10000)]
            his = [None, Fraction(F), Fraction(F - 1), F - half, Fraction(3), Fraction(6), Fraction(7), F - Fraction(3, 1000)]
            for ss in (SKIPS if case['full'] else [1, 5, 50]):
                for lo, hi in itertools.product(dict.fromkeys(los), dict.fromkeys(his)):
                    if lo is not None and lo < 0:
                        continue
                    if hi is not None and (hi < max(1, int(lo or 1)) or hi > F):
                        continue
                    for n in dict.fromkeys([None, 1, 2, 3, 4, 6, max(F - 1, 1), F, F + 1]):
                        for sp in (None, 'logarithmic'):
                            self.grid_case(ctx, F, ts, ss, lo, hi, n, sp, units=ss != 5)
        elif case['kind'] == 'default':
            # default bounds and exact bounds for every trajectory length: nothing lost to rounding
            ts, ss = case['ts'], case['ss']
            for F in range(2, case['top'] + 1):
                k = max(1, (F * 7) // 10)
                for lo, hi, n in ((None, None, 3), (Fraction(k), None, 2), (None, Fraction(k), 2)):
                    if n * F > 0 and int(lo or 1) < F:
                        self.grid_case(ctx, F, ts, ss, lo, hi, n, 'linear')
        elif case['kind'] == 'medium':
            F, ts = case['F'], case['ts']
            for n in dict.fromkeys([5, 10, 20, 33, 40, F // 3, F // 2, F // 2 + 3, F * 2 // 3, F - 2, F - 1, F, F + 9, 99, 100, 101, 250, None]):
                for lo, hi in itertools.product((None, Fraction(2), Fraction(5), Fraction(F // 2)), (None, Fraction(F - 1), Fraction(F // 2 + 2))):
                    for sp in ('linear', 'logarithmic'):
                        self.grid_case(ctx, F, ts, 1, lo, hi, n, sp)
        elif case['kind'] == 'almost':
            # logarithmic grids with a point just beside a whole number, so that any slack in the rounding shows
            lo = case['lo']
            for hi in range(lo + 2, case['top'] + 1):
                for n in range(3, min(13, hi - lo + 2)):
                    x = np.exp(np.log(lo) + (np.log(hi) - np.log(lo)) * np.arange(1, n - 1) / (n - 1))
                    off = np.abs(x - np.rint(x))
                    if np.any((off > 1e-7) & (off < 3e-4)):
                        self.grid_case(ctx, hi, '1', 1, Fraction(lo), Fraction(hi), n, 'logarithmic')
        elif case['kind'] == 'many':
            F, ts = case['F'], case['ts']
            for n in (999, 1000, 1001, 1025, 1300, F, F + 5):
                for sp in ('linear', 'logarithmic'):
                    self.grid_case(ctx, F, ts, 1, None, None, n, sp)
        elif case['kind'] == 'route':
            self.route(case, ctx)
        else:
            self.reject(ctx)

    def route(self, case, ctx):
        import tempfile
        from .. import kin
        route, ts = case['route'], case['ts']
        F = 7
        tr = T.Traj(T.irregular(F, 2) + 5, T.CELLS['cubic'], ['Li', 'Li'])
        scale = T.unit(route)
        with tempfile.TemporaryDirectory() as d:
            obj = T.make(route, tr, d)
            for ss, lo, hi, n, sp in itertools.product((1, 50), (None, Fraction(3)), (None, Fraction(5)), (None, 3),
                                                       ('linear', 'logarithmic')):
                kw = {}
                if lo is not None:
                    kw['min_dt'] = dec(lo * Fraction(ts) * ss)
                if hi is not None:
                    kw['max_dt'] = dec(hi * Fraction(ts) * ss)
                if n is not None:
                    kw['n_steps'] = n
                a = T.constructor(kin.DiffusionAnalyzer, route)(
                    obj, dict(specie='Li', time_step=float(ts), step_skip=ss, spacing=sp, progress=False, **kw),
                    uncertainty_params={'progress': False})
                self.verify(ctx, f'{route} time_step={ts} step_skip={ss} {kw} {sp}', a.dt, F, ts, ss, lo, hi, n, sp,
                            scale=scale)

    def reject(self, ctx):
        from .. import kin
        disp = self.data(9)
        for kw in ([dict(spacing=s) for s in ('log', 'geometric', '', 'quadratic')] +
                   [dict(sampling=s) for s in ('multi', 'single', '', 'random')]):
            for n in (1, 2, 100):
                ctx.op()
                try:
                    kin.Parser(disp, [0, 1], [], 1.0, 1, n_steps=n, progress=False, **kw)
                except ValueError:
                    ctx.trace()
                    ctx.state('rejected', repr(kw))
                    continue
                raise Violation(f'{kw} n_steps={n} was accepted')


CHECK = C03()
