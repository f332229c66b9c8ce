"""C07: several trajectories are pooled or joined without mixing or losing data."""
import itertools
import tempfile
import numpy as np
from ..runtime import Check, Violation
from .. import traj as T
from .. import ref


def compositions(n):
    for cuts in itertools.product((0, 1), repeat=n - 1):
        parts, size = [], 1
        for c in cuts:
            if c:
                parts.append(size)
                size = 1
            else:
                size += 1
        yield parts + [size]


def replica(k, F=6, N=4):
    cell = np.array(T.CELLS[['ortho', 'tric', 'cubic', 'mono'][k % 4]]) * (1 + 0.05 * k)
    x = T.irregular(F, N, scale=1.5, salt=20 + k) + np.arange(N)[None, :, None]
    frac = (x @ np.linalg.inv(cell)) % 1.0
    return T.Traj(frac @ cell, cell, (['Li', 'O', 'Li', 'O'] * N)[:N])


OPTIONS = [
    dict(par={}, unc={}, ref={}),
    dict(par=dict(sub_sample_traj=2), unc={}, ref=dict(sub_traj=2)),
    dict(par=dict(n_steps=3, sampling='single-origin'), unc=dict(dimension='yz'),
         ref=dict(n_steps=3, sampling='single-origin', dim='yz')),
    dict(par=dict(framework_indices=[]), unc=dict(sub_sample_dt=2), ref=dict(framework=[], sub_dt=2)),
]


class C07(Check):
    id = 'C07'
    technique = 'exhaustive enumeration of replica orders and of all splits of a trajectory, routes and analyzers'
    rule = ('every ordered choice of up to K of 3 replicas (identical) and every composition of the frames into parts '
            '(consecutive) x route x analyzer x option set; a state is one pooled report')
    bounds = {'quick': 'all ordered choices of 1..3 replicas (with repetition for 2); all 32 splits of 6 frames; 12 and 30 replicas, 130 and 260 frames, 120 atoms',
              'thorough': '1..4 replicas; all 128 splits of 8 frames'}
    assumptions = ['C02, C04, C08 for the single trajectory (same reference)']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase, pymatgen.core, MDAnalysis, pymatgen.io.vasp  # noqa: F401

    def cases(self, tier):
        full = tier == 'thorough'
        combos = [list(c) for k in ((1, 2, 3, 4) if full else (1, 2, 3)) for c in itertools.permutations(range(4 if full else 3), k)]
        combos += [[0, 0], [1, 1, 0]]
        repeats = [[0, 0], [1, 0, 1], [0, 0, 0, 1, 1]]
        for route in T.ROUTES:
            for kind in 'DJS':
                for oi in range(len(OPTIONS)):
                    for c in combos:
                        yield dict(kind=kind, route=route, opt=oi, dtype='identical', combo=c)
                for c in repeats:
                    yield dict(kind=kind, route=route, opt=0, dtype='identical', combo=c, same=True)
                if route != 'universe':
                    for oi in range(len(OPTIONS)):
                        n = 8 if full else 6
                        comps = list(compositions(n))
                        for k in range(0, len(comps), 8):
                            yield dict(kind=kind, route=route, opt=oi, dtype='consecutive', F=n, parts=comps[k:k + 8])
                            if oi == 0:
                                for still in (1, 2, 3):
                                    yield dict(kind=kind, route=route, opt=oi, dtype='consecutive', F=n, parts=comps[k:k + 8], still=still)
                    if route in ('ase', 'pymatgen'):
                        for oi in range(len(OPTIONS)):
                            yield dict(kind=kind, route=route, opt=oi, dtype='overlap')
                yield dict(kind=kind, route=route, opt=0, dtype='bad')
                yield dict(kind=kind, route=route, opt=0, dtype='mismatch')
            yield dict(kind='D', route=route, opt=0, dtype='manyreplicas', k=12)
            for kind in 'DJS':
                for F, N, k in ((130, 3, 3), (20, 120, 2), (8, 4, 30)):
                    yield dict(kind=kind, route=route, opt=0, dtype='manyreplicas', k=k, F=F, N=N)
                if route != 'universe':
                    for F, sizes in ((130, [[1] * 130, [10] * 13, [65, 65], [1, 128, 1], [120, 4, 6]]),
                                     (260, [[130, 130], [255, 5], [52] * 5])):
                        yield dict(kind=kind, route=route, opt=0, dtype='consecutive', F=F, parts=sizes)

    def build(self, kind, route, obj, dtype, opt, extra):
        from .. import kin
        f = T.unit(route)
        return T.constructor(kin.ANALYZERS[kind], route)(
            obj, dict(specie='Li', time_step=0.1 * f, step_skip=3, progress=False, **opt['par']), dtype=dtype,
            uncertainty_params=dict(progress=False, **opt['unc']), **extra)

    def run(self, case, ctx):
        route, kind = case['route'], case['kind']
        opt = OPTIONS[case['opt']]
        tol = 1e-4 if route == 'universe' else 1e-8
        with tempfile.TemporaryDirectory() as d:
            if case['dtype'] in ('identical', 'manyreplicas'):
                combo = case.get('combo') or list(range(case['k']))
                reps = [replica(k, case.get('F', 6), case.get('N', 4)) for k in combo]
                objs = [T.make(route, r, d, f'_{90 - 7 * i}') for i, r in enumerate(reps)]  # names not in order
                mobile = reps[0].species.count('Li')
                if case.get('same'):
                    objs = [objs[combo.index(c)] for c in combo]  # the very same object given again
                q = np.concatenate([[(-1)**i * (1 + i % 3) for i in range(mobile)]] * len(combo)).astype(float)
                for charge in ([1, -2, q] if kind == 'S' else [1]):
                    extra = {'ionic_charge': charge} if kind == 'S' else {}
                    a = self.build(kind, route, objs, 'identical', opt, extra)
                    ctx.op(len(objs))
                    parts = [ref.pipeline(r, kind, 0.1, 3, **opt['ref']) for r in reps]
                    obs = [np.concatenate([p['disp_3d'][i] for p in parts]) for i in range(len(parts[0]['disp_3d']))]
                    n_o = sum(p['n_o'] for p in parts)
                    want = dict(parts[0], disp_3d=obs, n_o=n_o)
                    want['stats'] = ref.statistics(kind, want['delta_t'], obs, n_o, opt['ref'].get('dim', 'xyz'),
                                                   opt['ref'].get('sub_dt', 1), charge)
                    self.verdict(ctx, a, want, kind, tol, f'{case} charge={charge}')
            elif case['dtype'] == 'consecutive':
                tr = replica(1, F=case['F'])
                if case.get('still'):  # frames that equal the one before (or the first) are data like any other
                    order = [[0, 0, 1, 1, 1, 2], [0, 1, 0, 1, 2, 0], [0] * (case['F'] - 1) + [1]][case['still'] - 1]
                    order = (order * 2)[:case['F']]
                    tr = T.Traj(tr.pos[order], tr.cells[order], tr.species)
                want = ref.pipeline(tr, kind, 0.1, 3, **opt['ref'])
                for parts in case['parts']:
                    at, objs = 0, []
                    for i, n in enumerate(parts):
                        objs.append(T.make(route, tr.frames(at, at + n), d, f'_{len(parts)}_{50 - 9 * i}'))
                        at += n
                    a = self.build(kind, route, objs, 'consecutive', opt, {})
                    ctx.op(len(parts))
                    self.verdict(ctx, a, want, kind, tol, f'{route} {kind} consecutive {parts} {opt}')
            elif case['dtype'] == 'overlap':  # the same frame objects (or the same list) in several places
                tr = replica(1, F=4)
                fr = T.make(route, tr, d, '_o')
                for cut in itertools.product(([0, 1], [1, 2, 3], [3], [2, 1, 0]), repeat=2 if kind != 'D' else 3):
                    order = [i for c in cut for i in c]
                    if len(order) < 5:
                        continue
                    whole = T.Traj(tr.pos[order], tr.cells[order], tr.species)
                    want = ref.pipeline(whole, kind, 0.1, 3, **opt['ref'])
                    parts = {}
                    objs = [parts.setdefault(tuple(c), [fr[i] for i in c]) for c in cut]
                    a = self.build(kind, route, objs, 'consecutive', opt, {})
                    ctx.op(len(cut))
                    self.verdict(ctx, a, want, kind, tol, f'{route} {kind} consecutive frames {cut} {opt}')
            elif case['dtype'] == 'mismatch':  # not identical: another number of frames or of mobile atoms
                sizes = {'base': (9, 4), 'longer': (12, 4), 'shorter': (7, 4), 'one': (9, 2), 'more': (9, 8)}
                objs = {k: T.make(route, replica(1, F=F, N=N), d, f'_{k}') for k, (F, N) in sizes.items()}
                for first, second in itertools.permutations(sizes, 2):
                    for par in (dict(n_steps=4), dict(n_steps=4, sampling='single-origin'), {}, dict(n_steps=4, spacing='logarithmic'),
                                dict(framework_indices=[], n_steps=4, sampling='single-origin')):
                        for pool in ([first, second], [first, first, second], [first, second, first]):
                            ctx.op(len(pool))
                            desc = f'{route} {kind} {[sizes[p] for p in pool]} (frames, atoms) {par}'
                            try:
                                self.build(kind, route, [objs[p] for p in pool], 'identical', dict(par=par, unc={}), {})
                            except ValueError:
                                ctx.trace()
                                ctx.state('mismatch', first, second, str(par))
                                continue
                            raise Violation(f'{desc}: different trajectories were pooled as identical')
            else:
                objs = [T.make(route, replica(k), d, f'_{k}') for k in range(2)]
                bad = ['same', 'parallel', '', 'identicals'] + (['consecutive'] if route == 'universe' else [])
                for dtype in bad:
                    ctx.op()
                    try:
                        self.build(kind, route, objs, dtype, opt, {})
                    except ValueError:
                        ctx.trace()
                        ctx.state('rejected', dtype, route)
                        continue
                    raise Violation(f'{route}: dtype {dtype!r} was accepted')

    def verdict(self, ctx, a, want, kind, tol, desc):
        ctx.trace()
        ctx.state(kind, want['stats']['n'], want['n_o'])
        bad = ref.compare_analyzer(a, want, kind, tol)
        if bad:
            raise Violation(f'{desc}: {bad}')


CHECK = C07()
