"""C04: drift correction and selection of atoms."""
import itertools
import numpy as np
from ..runtime import Check, Violation
from .. import traj as T
from .. import ref

PARSERS = ('ase', 'pymatgen', 'universe')


def parser(route):
    from .. import kin
    return {'ase': kin.ASEParser, 'pymatgen': kin.PymatgenParser, 'universe': kin.MDAnalysisParser}[route]


def subsets(n, top=None):
    for k in range(1, (top or n) + 1):
        for c in itertools.combinations(range(n), k):
            yield list(c)


def kinds(n):
    """The same choice as arrays and ranges."""
    return [np.array([], dtype=int), np.array([0, n - 1]), np.array([1], dtype=np.int32), range(1, n)]


class C04(Check):
    id = 'C04'
    technique = ('exhaustive enumeration of species assignments, selections, framework choices and drift histories; '
                 'plain mean subtraction as reference')
    rule = ('every species assignment x requested species x framework subset, every ordered index selection x framework '
            'subset, every drift history over a 3-letter alphabet, per parser; a state is one corrected series')
    bounds = {
        'quick': '4 atoms, 3 species (one a prefix of another), 4 frames; ordered selections of up to 3; 27 drifts; 40, 130, 320 atoms',
        'thorough': '5 atoms for species, all ordered selections of 4, drift histories of 5 frames (81), up to 1100 atoms',
    }
    assumptions = ['C01 for the raw displacements']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase, pymatgen.core, MDAnalysis  # noqa: F401

    def cases(self, tier):
        full = tier == 'thorough'
        for route in PARSERS:
            for sp in itertools.product(('C', 'Cl', 'O'), repeat=5 if full else 4):
                yield dict(kind='species', route=route, species=list(sp))
            for first in range(4):
                yield dict(kind='indices', route=route, first=first, top=4 if full else 3)
            for h in itertools.product((0, 1, 2), repeat=4 if full else 3):
                yield dict(kind='drift', route=route, history=list(h))
            for n in (40, 130, 320) + ((1100, ) if full else ()):
                yield dict(kind='large', route=route, n=n)
            yield dict(kind='oxidation', route=route)
            yield dict(kind='still', route=route)

    def raw(self, n, F, salt=3):
        x = T.irregular(F, n, salt=salt, scale=0.9)
        return x + 4.0 + np.arange(n)[None, :, None] * 0.37

    def one(self, ctx, route, obj, raw, species, desc, specie=None, idx=None, fw=None, tol=None):
        kw = dict(specie=specie, time_step=1.0, step_skip=1, n_steps=1, progress=False)
        if idx is not None:
            kw['specie_indices'] = idx
        if fw is not None:
            kw['framework_indices'] = fw
        want = ref.select(species, specie, idx, fw)
        desc = f'{route} {desc} specie={specie} specie_indices={idx} framework_indices={fw}'
        if want is None:
            ctx.op()
            try:
                parser(route)(obj, **kw)
            except ValueError:
                ctx.trace()
                return
            raise Violation(f'{desc}: absent species was accepted')
        u = parser(route)(obj, **kw)
        ctx.op()
        if len(u.disp_3d) != 1:
            raise Violation(f'{desc}: {len(u.disp_3d)} intervals for n_steps=1')
        got = np.cumsum(u.disp_3d[0], axis=1)
        exp = ref.drift(raw, want[1])[want[0]]
        ctx.trace()
        ctx.state(route, (want[0], [int(i) for i in want[1]]), exp)
        if not ref.close(got, exp, tol or T.tolerance(route)):
            raise Violation(f'{desc}: reported {got.tolist()}\nexpected {exp.tolist()}')

    def run(self, case, ctx):
        route, kind = case['route'], case['kind']
        if kind == 'species':
            species = case['species']
            n = len(species)
            x = self.raw(n, 4)
            obj = T.make(route, T.Traj(x, T.CELLS['tric'], species))
            raw = (x - x[0]).transpose(1, 0, 2)
            fws = [None, [], ()] + list(subsets(n, 2)) + [list(range(n)), tuple(range(n))[1:], [n - 1, 0]] + kinds(n)
            for specie in ('C', 'Cl', ['C', 'O'], ['Cl'], ['Cl', 'C'], 'Ca', ['N', 'Ca']):
                for fw in fws if specie not in ('Ca', ['N', 'Ca']) else [None, [0]]:
                    self.one(ctx, route, obj, raw, species, f'species={species}', specie=specie, fw=fw)
        elif kind == 'indices':
            n = 4
            species = ['C', 'Cl', 'C', 'O']
            x = self.raw(n, 4, salt=5)
            obj = T.make(route, T.Traj(x, T.CELLS['ortho'], species))
            raw = (x - x[0]).transpose(1, 0, 2)
            fws = [None, [], ()] + list(subsets(n)) + [tuple(s) for s in subsets(n, 2)] + [[3, 1], [2, 0, 1]] + kinds(n)
            for k in range(1, case['top'] + 1):
                for idx in itertools.permutations(range(n), k):
                    if idx[0] != case['first']:
                        continue
                    for fw in fws:
                        self.one(ctx, route, obj, raw, species, '', idx=list(idx), fw=fw)
                    self.one(ctx, route, obj, raw, species, '', idx=list(idx), fw=())
        elif kind == 'drift':
            species = ['C', 'O', 'C', 'Cl', 'O']
            h = [0] + list(case['history'])
            F = len(h)
            x = self.raw(5, F, salt=7)
            still = (x - x[0]).transpose(1, 0, 2)
            steps = np.array([[0, 0, 0], [2.9, -1.7, 0.6], [-1.1, 3.1, -2.3]])[h]
            y = x + np.cumsum(steps, axis=0)[:, None]
            cell = np.array(T.CELLS['tric'])
            frac = (y @ np.linalg.inv(cell)) % 1.0
            obj = T.make(route, T.Traj(frac @ cell, cell, species))
            for fw in (None, [1], [0, 2], [4, 3, 1]):
                # with a framework the rigid motion is invisible
                self.one(ctx, route, obj, still, species, f'history={h}', specie='C', fw=fw)
                self.one(ctx, route, obj, still, species, f'history={h}', idx=[2, 3], fw=fw)
            moved = (y - y[0]).transpose(1, 0, 2)
            self.one(ctx, route, obj, moved, species, f'history={h}', specie=['C', 'O', 'Cl'])
            self.one(ctx, route, obj, moved, species, f'history={h}', specie='C', fw=[])
        elif kind == 'large':
            n = case['n']
            species = (['C', 'O', 'O', 'Cl', 'C', 'Cl', 'Cl'] * n)[:n]
            x = self.raw(n, 9, salt=9) % 7.9
            x = x[:1] + T.irregular(9, n, salt=2, scale=0.5) - T.irregular(9, n, salt=2, scale=0.5)[:1]
            obj = T.make(route, T.Traj(x, T.CELLS['cubic'], species))
            # uneven motion: the mean of a framework is not its median, its first or its extreme atom
            x = x + (np.arange(9)[:, None, None]**2 * (np.arange(n)[None, :, None] % 5 == 0) * np.array([.02, -.03, .04]))
            obj = T.make(route, T.Traj(x, T.CELLS['cubic'], species))
            raw = (x - x[0]).transpose(1, 0, 2)
            for sp in ('C', 'O', 'Cl', ['C', 'Cl'], ['C', 'Cl', 'O']):
                for fw in (None, [], [0], list(range(0, n, 3)), list(range(n))[::-1], tuple(range(5, n))):
                    self.one(ctx, route, obj, raw, species, 'large', specie=sp, fw=fw)
            for idx in (list(range(n)), list(range(n))[::-1], list(range(1, n, 4)), [n - 1], [n - 1, 0]):
                for fw in (None, [], [0], list(range(0, n, 3))):
                    self.one(ctx, route, obj, raw, species, 'large', idx=idx, fw=fw)
        elif kind == 'still':
            # atoms that never move count in the framework, and slow drifts are drifts
            species = ['C', 'O', 'O', 'O', 'Cl', 'O', 'Cl']
            n = len(species)
            for still, scale, drift in itertools.product(((), (1, ), (1, 2), (1, 2, 3, 5), (1, 2, 3, 4, 5, 6), (0, )),
                                                         (0.9, 1e-4), (0.0, 3e-3, 1e-4, 1e-6)):
                x = T.irregular(6, n, salt=21, scale=scale)
                x = x - x[:1]
                x[:, list(still)] = 0
                moved = x + 4.0 + np.arange(n)[None, :, None] * 0.37 + np.arange(6)[:, None, None] * np.array([1, -.7, .4]) * drift
                obj = T.make(route, T.Traj(moved, T.CELLS['ortho'], species))
                raw = (moved - moved[0]).transpose(1, 0, 2)
                tol = T.tolerance(route) if route == 'universe' else 1e-10
                for specie, idx, fw in (('C', None, None), (['C', 'Cl'], None, None), ('C', None, [1]), ('C', None, [1, 3, 5]),
                                        ('O', None, [4, 6, 0]), ('C', None, []), (None, [2, 0], None), (None, [0], [1, 2, 3, 5, 6])):
                    self.one(ctx, route, obj, raw, species, f'still={still} scale={scale} drift={drift}', specie=specie, idx=idx, fw=fw,
                             tol=tol)
        else:
            names = {'ase': ['C', 'Ca', 'Cl', 'C'], 'pymatgen': ['Li+', 'Li', 'O2-', 'Li+'],
                     'universe': ['1', '11', '2', 'LI', 'Li', 'li', 'OW1', 'OW', 'O', 'OWX', 'LI+']}[route]
            x = self.raw(len(names), 4, salt=11)
            obj = T.make(route, T.Traj(x, T.CELLS['ortho'], names))
            raw = (x - x[0]).transpose(1, 0, 2)
            for sp in list(dict.fromkeys(names)) + [names[:2], names[1:3]]:
                for fw in (None, [], [2]):
                    self.one(ctx, route, obj, raw, names, 'oxidation', specie=sp, fw=fw)


CHECK = C04()
