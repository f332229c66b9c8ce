"""C29: averaged over all possible motions, the reported means are unbiased and the reported variances are those of the means."""
import itertools
import warnings
import numpy as np
from ..runtime import Check, Violation

# the steps an atom may take in one frame, all equally likely and none preferred
STEPS = {
    'two': [[-1., 0, 0], [1., 0, 0]],
    'three': [[0, 0, -1.], [0, 0, 0], [0, 0, 1.]],
    'four': [[0, -2., 0], [0, -1., 0], [0, 1., 0], [0, 2., 0]],
    'cross': [[1., 0, 0], [-1., 0, 0], [0, 0, 2.], [0, 0, -2.]],
    'box': [[x, y, z] for x in (-1., 1.) for y in (-.5, .5) for z in (-2., 2.)],
    'skew': [[-1., 0, 0], [-1., 0, 0], [2., 0, 0]],
    'star': [[0, 0, 0], [1., 2., 0], [-1., -2., 0], [0, 0, 0], [0, .3, 3.], [0, -.3, -3.]],
}
AXES = {'x': [0], 'y': [1], 'z': [2], 'xy': [0, 1], 'xz': [0, 2], 'yz': [1, 2], 'xyz': [0, 1, 2]}
CHARGES = [1.0, -1.0, 2.0, 0.5]


class C29(Check):
    id = 'C29'
    technique = 'complete enumeration of every motion of a few atoms over a few frames; exact averages over all of them'
    rule = 'every choice of a step for every atom and frame from a set of equally likely steps; a state is one motion'
    bounds = {'quick': '1..4 atoms, 2..11 frames, 7 sets of steps: at most 2200 motions each, all axes, 3 analyzers, samplings, thinning, framework',
              'thorough': 'at most 16500 motions each, more atoms and frames'}
    assumptions = ['displacement series are given to the parser directly (trajectories repeat their first frame: see C02-leading-window)']

    def setup(self):
        from .. import kin  # noqa: F401

    def cases(self, tier):
        full = tier == 'thorough'
        limit = 16500 if full else 2200
        seen = set()
        shapes = [(n, f) for n in range(1, 5 + full) for f in range(2, 17)]
        for name, steps in STEPS.items():
            fits = [(n, f) for n, f in shapes if len(steps)**(n * f) <= limit]
            for n in sorted({n for n, f in fits}):
                most = max(f for m, f in fits if m == n)
                for f in ({most, most - 1, 2} if full else {most}) - {1}:
                    if (name, n, f) not in seen:
                        seen.add((name, n, f))
                        for fr in range(min(n, 3)):
                            for kind in 'DJS':
                                yield dict(steps=name, N=n, F=f, framework=fr, kind=kind)

    def settings(self, F):
        """What is computed for every motion: analyzer, axes, sampling, interval thinning, longest interval."""
        out = [('D', 'xyz', 'multi-origin', 1, F), ('D', 'xy', 'single-origin', 1, F), ('D', 'z', 'multi-origin', 2, F),
               ('D', 'xyz', 'multi-origin', 1, max(2, F // 2)), ('D', 'yz', 'multi-origin', 1, F), ('D', 'x', 'single-origin', 2, F)]
        for kind in 'JS':
            out += [(kind, 'xyz', 'multi-origin', 1, F), (kind, 'xz', 'multi-origin', 1, F), (kind, 'y', 'multi-origin', 2, F)]
        return out

    def run(self, case, ctx):
        from .. import kin
        steps = np.array(STEPS[case['steps']])
        N, F = case['N'], case['F']
        charges = CHARGES[:N]
        M = case['framework']  # the last atoms are the framework of the others
        sel, fr = list(range(N - M)), list(range(N - M, N))
        todo = [(sel, fr) + s for s in self.settings(F) if s[0] == case['kind'] and not (s[4] < F and fr)]
        total = {}
        count = 0
        for choice in itertools.product(range(len(steps)), repeat=N * F):
            disp = np.cumsum(steps[list(choice)].reshape(N, F, 3), axis=1)
            ctx.state(case['steps'], N, choice)
            count += 1
            parsed = {}
            for i, (sel, fr, kind, dim, sampling, sub, last) in enumerate(todo):
                key = (len(sel), sampling, last)
                if key not in parsed:
                    parsed[key] = kin.Parser(disp, sel, fr, time_step=1.0, step_skip=1, sampling=sampling, max_dt=float(last), progress=False)
                p = parsed[key]
                if not p.disp_3d:
                    continue
                a, kw = (p.delta_t, p.disp_3d, p._n_o), dict(dimension=dim, sub_sample_dt=sub, progress=False)
                if kind == 'D':
                    b = kin.MSDBootstrap(*a, **kw)
                elif kind == 'J':
                    b = kin.MSTDBootstrap(*a, **kw)
                else:
                    b = kin.MSCDBootstrap(a[0], a[1], np.array(charges[:len(sel)]), a[2], **kw)
                ctx.op()
                n, v = np.asarray(b.n), np.asarray(b.v)
                t = total.setdefault(i, dict(dt=b.dt, n=0, nn=0, v=0))
                t['n'] = t['n'] + n
                t['nn'] = t['nn'] + n * n
                t['v'] = t['v'] + v
        ctx.trace(count)
        for i, t in total.items():
            self.decide(case, charges, steps, count, t, *todo[i])

    def decide(self, case, charges, steps, count, t, sel, fr, kind, dim, sampling, sub, last):
        N, F, M = len(sel), case['F'], len(fr)
        dt, mean, v = np.asarray(t['dt']), t['n'] / count, t['v'] / count
        var = t['nn'] / count - mean**2
        one = np.mean(np.sum(steps[:, AXES[dim]]**2, axis=1))  # of one step
        q = np.ones(N) if kind != 'S' else np.array(charges[:N])
        weight = 1.0 + (1.0 / M if M else 0) if kind == 'D' else np.sum(q**2) + (np.sum(q)**2 / M if M else 0)
        what = (f'{case}: averaged over all {count} motions of {N} atoms ({M} in the framework): {kind} along {dim}, {sampling}, every '
                f'{sub}. interval up to {last} of {F} frames')
        want = weight * one * dt
        if not np.allclose(mean, want, rtol=1e-9, atol=1e-10):
            raise Violation(f'{what}: the mean at {dt.tolist()} is {mean.tolist()}, but the truth is {want.tolist()}')
        if M:  # the framework moves all atoms alike: no longer independent
            return
        scale = np.maximum(mean**2, 1e-30)
        if v.shape != mean.shape or not np.all(np.isfinite(v)):
            raise Violation(f'{what}: the variances reported are {v.tolist()}')
        for k, at in enumerate(dt):
            windows = F // int(round(at))
            independent = round(at) == 1 or (round(at) == F and kind == 'D') or sampling == 'single-origin'
            if independent and last == F:
                if not abs(v[k] - var[k]) <= 1e-8 * scale[k]:
                    raise Violation(f'{what}: the variance reported at {at} is {v[k]} on average, but the mean varies by {var[k]}')
            elif round(at) == 1 and sampling != 'single-origin':  # the rest of the trajectory may be left out of the count
                if not var[k] - 1e-8 * scale[k] <= v[k] <= var[k] * F / last + 1e-8 * scale[k]:
                    raise Violation(f'{what}: the variance reported at {at} is {v[k]} on average, but the mean varies by {var[k]}')
            elif last == F and windows >= 2 and var[k] > 1e-9 * scale[k] and not 0.6 * var[k] < v[k] < 2.5 * var[k]:
                raise Violation(f'{what}: the variance reported at {at} is {v[k]} on average, but the mean varies by {var[k]}')


CHECK = C29()
