"""C05: displacements of molecules are those of the true mass-weighted centre."""
import itertools
import numpy as np
from ..runtime import Check, Violation
from .. import traj as T
from .. import ref
from .c04 import PARSERS, parser

MASSES = {2: [None, [1, 16], [7.5, 2.5], (1.0, 1.3)], 3: [None, [16, 1, 1], [1.0, 12.0, 35.5], [14.007, 15.999, 14.5]], 1: [None, [4.0]]}


class C05(Check):
    id = 'C05'
    technique = ('exhaustive enumeration of molecule placements, hops, conformations and wraps on a grid; exact centre '
                 'of the continuous path as reference')
    rule = ('every start x hop sequence x conformation sequence of a molecule spanning less than half the cell, batched '
            'as the molecules of one trajectory; every partition of atoms into ordered molecules; a state is one centre '
            'path')
    bounds = {
        'quick': 'grid 10, 3 frames, hops up to 2, offsets up to 2 (span up to 0.4 cells), sizes 1..3, 4 atoms in 2',
        'thorough': 'as quick with 5 hops, all 5 offsets, two image patterns and all cells',
    }
    assumptions = ['the centre moves by less than half a cell between frames (proviso of C01)']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase, pymatgen.core, MDAnalysis  # noqa: F401

    def cases(self, tier):
        full = tier == 'thorough'
        for route in PARSERS:
            for size in (1, 2, 3):
                for mi in range(len(MASSES[size])):
                    for start in range(10):
                        for img in ((0, 1) if full else (start % 2, )):
                            for cell in (('ortho', 'tric', 'hex') if full else ('tric' if start % 3 else 'ortho', )):
                                yield dict(kind='grid', route=route, size=size, masses=mi, start=start, images=img,
                                           cell=cell, full=full)
            for cell in ('ortho', 'tric'):
                yield dict(kind='partition', route=route, cell=cell)
            yield dict(kind='long', route=route)
            for size in (4, 5, 8, 12, 24):
                yield dict(kind='bulky', route=route, size=size, n=20, F=12)
            for cell in T.cells_of(route):
                yield dict(kind='bulky', route=route, size=3, n=8, F=12, cell=cell)
            yield dict(kind='bulky', route=route, size=3, n=150, F=12)
            yield dict(kind='bulky', route=route, size=2, n=5, F=260)
            if full:
                yield dict(kind='bulky', route=route, size=3, n=700, F=30)
                yield dict(kind='bulky', route=route, size=60, n=9, F=30)
                yield dict(kind='bulky', route=route, size=6, n=9, F=1100)
            yield dict(kind='reject', route=route)

    def paths(self, start, size, full):
        """1-D continuous grid paths of the atoms of a molecule: [molecule, frame, atom]."""
        hops = (-2, -1, 0, 1, 2) if full else (-2, 1, 2)
        offs = {1: [(0, )], 2: [(0, o) for o in ((-2, -1, 0, 1, 2, 4) if full else (-2, 1, 4))],
                3: [(0, a, b) for a, b in ((1, -1), (2, -2), (-1, -2), (4, 1))]}[size]
        out = []
        for h in itertools.product(hops, repeat=2):
            c = start + np.concatenate([[0], np.cumsum(h)])
            for conf in itertools.product(offs, repeat=3):
                out.append(np.array([[c[f] + o for o in conf[f]] for f in range(3)]))
        return np.array(out)

    def run(self, case, ctx):
        getattr(self, case['kind'])(case, ctx)

    def evaluate(self, ctx, case, desc, route, tr, true, mols, masses, framework, tol=None):
        """true: continuous positions [frame, atom, axis]; compare the reported centres."""
        kw = dict(specie=None, specie_indices=mols, time_step=1.0, step_skip=1, n_steps=1, progress=False)
        if masses is not None:
            kw['masses'] = masses
        if framework is not None:
            kw['framework_indices'] = framework
        u = parser(route)(T.make(route, tr), **kw)
        ctx.op(tr.n_frames)
        disp = (true - true[0]).transpose(1, 0, 2)
        want = ref.molecules(disp, None, None, [list(m) for m in mols], masses, framework)
        got = np.cumsum(u.disp_3d[0], axis=1)
        ctx.trace(len(want))
        for row in np.round(want, 4) + 0.0:
            ctx.states.add(hash((route, row.tobytes())) & (2**64 - 1))
        if not ref.close(got, want, tol or T.tolerance(route), scale=1 + want.shape[1] / 20):
            if got.shape != want.shape:
                raise Violation(f'{desc}: {got.shape} centres/frames/axes, expected {want.shape}')
            bad = int(np.argmax(np.abs(got - want).max(axis=(1, 2))))
            raise Violation(f'{desc}: molecule {bad}: {got[bad].tolist()}\nexpected {want[bad].tolist()}')

    def grid(self, case, ctx):
        size, route = case['size'], case['route']
        masses = MASSES[size][case['masses']]
        w = np.ones(size) if masses is None else np.array(masses, dtype=float)
        cell = np.array(T.CELLS[case['cell']])
        p = self.paths(case['start'], size, case['full'])
        cm = (p * w).sum(axis=-1) / w.sum()
        ok = np.abs(np.diff(cm, axis=1)).max(axis=1) < 4.5
        p = p[ok]
        n = len(p)
        if n > 900:
            p = p[:: n // 900 + 1] if not case['full'] else p
            n = len(p)
        perm = [np.arange(n), (np.arange(n) * 7 + 1) % n, np.arange(n)[::-1]]
        q = np.stack([p[k] for k in perm], axis=-1).astype(float) / 10 + 0.013  # [mol, frame, atom, axis]
        q = q.transpose(1, 0, 2, 3).reshape(3, n * size, 3)
        # two framework atoms that drift
        fwk = np.array([[[0.1, 0.2, 0.3], [0.6, 0.9, 0.4]]]) + np.array([[0, 0, 0], [.11, -.07, .2], [.3, .1, -.1]])[:, None]
        q = np.concatenate([q, fwk], axis=1)
        rec = q % 1.0
        if case['images'] and route != 'ase':
            k = np.arange(q.shape[1])
            rec = rec + np.stack([(k[None] * 5 + np.arange(3)[:, None] * 3) % 3 - 1] * 3, axis=-1)
        true = q @ cell
        mols = [[m * size + a + 1 for a in range(size)] for m in range(n)]
        fw = [None, [], [n * size + 2], (n * size + 1, )][case['start'] % 4]
        self.evaluate(ctx, case, f'{case}', route, T.Traj(rec @ cell, cell, ['C'] * q.shape[1]), true, mols, masses, fw)

    def partition(self, case, ctx):
        """Every ordered partition of 4 of 5 atoms into 2 ordered pairs; framework choices; order of masses."""
        route = case['route']
        cell = np.array(T.CELLS[case['cell']])
        F = 4
        base = np.array([[.95, .02, .5], [.07, .93, .55], [.9, .1, .45], [.02, .98, .6], [.4, .4, .4]])
        q = base[None] + T.irregular(F, 5, scale=0.03, salt=4) + T.irregular(F, 1, scale=0.3, salt=6)
        q[:, 4] = base[4] + T.irregular(F, 1, scale=0.2, salt=8)[:, 0]
        # keep the four molecule atoms together: continuous positions around a common corner
        q[:, :4] = q[:, :4] - np.rint(base[:4] - np.array([1.0, 1.0, .5]))[None]
        true = q @ cell
        tr = T.Traj((q % 1.0) @ cell, cell, ['O', 'H', 'H', 'O', 'Na'])
        for perm in itertools.permutations((1, 2, 3, 4)):
            mols = [[perm[0], perm[1]], [perm[2], perm[3]]]
            for masses in MASSES[2]:
                for fw in (None, [], [5], [1, 5], (5, ), np.array([5]), range(1, 1), range(5, 6)):
                    self.evaluate(ctx, case, f'{route} {mols} {masses} {fw}', route, tr, true, mols, masses, fw)
            self.evaluate(ctx, case, f'{route} {mols}', route, tr, true, tuple(tuple(m) for m in mols), [2, 3], None)
            self.evaluate(ctx, case, f'{route} {mols} array', route, tr, true, mols, np.array([3.0, 1.5]), None)
            self.evaluate(ctx, case, f'{route} one molecule {perm}', route, tr, true, [list(perm)], [1, 2, 3, 4], None)
            self.evaluate(ctx, case, f'{route} one molecule {perm}', route, tr, true, [list(perm[:3])], None, [perm[3]])

    def long(self, case, ctx):
        route = case['route']
        cell = np.array(T.CELLS['tric'])
        F = 80
        k = np.arange(F)
        c = np.stack([0.2 * k, -0.3 * k, 0.25 * np.sin(k)], axis=-1)[:, None]
        ang = 0.7 * k[:, None, None] + np.array([0, 1.9, 4.0])[None, :, None]
        q = c + 0.15 * np.concatenate([np.cos(ang), np.sin(ang), np.cos(2 * ang)], axis=-1)
        q2 = q[:, ::-1] * np.array([-1, 1, 0.5]) + 0.4
        q = np.concatenate([q, q2], axis=1) + 0.01
        true = q @ cell
        tr = T.Traj((q % 1.0) @ cell, cell, ['O', 'H', 'H', 'H', 'H', 'O'])
        for masses in MASSES[3]:
            for mols in ([[1, 2, 3], [4, 5, 6]], [[6, 4, 5], [3, 2, 1]], [[2, 3, 1]]):
                self.evaluate(ctx, case, f'{case} {mols} {masses}', route, tr, true, mols, masses, [])
                self.evaluate(ctx, case, f'{case} {mols} {masses}', route, tr, true, mols, masses, None)

    def bulky(self, case, ctx):
        """Many atoms per molecule, many molecules, many frames; interleaved atoms and framework atoms in between."""
        route, size, n, F = case['route'], case['size'], case['n'], case['F']
        cell = np.array(T.cells_of(route)[case.get('cell', 'tric')])
        c = T.irregular(F, n, scale=0.3, salt=size) + np.arange(n)[None, :, None] * 0.31
        off = 0.2 * np.modf(np.sin(np.arange(n * size * 3).reshape(1, n, size, 3) * 7.77 + 0.3) * 991.7)[0]
        wob = 0.02 * np.sin(np.arange(F)[:, None, None, None] * 1.3 + np.arange(size)[None, None, :, None])
        q = (c[:, :, None] + off + wob)  # [frame, mol, atom, axis]
        fwk = T.irregular(F, n, scale=0.1, salt=3)
        q = np.concatenate([q, fwk[:, :, None]], axis=2).reshape(F, n * (size + 1), 3)
        mols = [[m * (size + 1) + a + 1 for a in range(size)] for m in range(n)]
        true = q @ cell
        tr = T.Traj((q % 1.0) @ cell, cell, ['C'] * q.shape[1])
        masses = [1.0 + (3 * a) % 7 * 2.5 for a in range(size)]
        for w in (None, masses, [10 + 0.05 * (a % 5) for a in range(size)], [1e-3] * (size - 1) + [250]):
            for fw in (None, [], [size + 1, 2 * (size + 1)]):
                for m in (mols, [x[::-1] for x in mols[::-1]][:max(2, n // 2)]):
                    self.evaluate(ctx, case, f'{case} {w} {fw}', route, tr, true, m, w, fw)

    def reject(self, case, ctx):
        route = case['route']
        x = T.irregular(3, 6, scale=0.2) + 5
        obj = T.make(route, T.Traj(x, T.CELLS['cubic'], ['C'] * 6))
        bad = [([[1, 2], [3]], None), ([[1, 2, 3], [4, 5]], None), ([[1], [2, 3]], [1.0]),
               ([[1, 2], [3, 4]], [1.0]), ([[1, 2], [3, 4]], [1.0, 2.0, 3.0]), ([[1, 2, 3]], [1.0, 2.0]),
               ([[1, 2, 3]], []), ([[1, 2], [3, 4]], [1., 2., 3., 4.])]
        for mols, masses in bad:
            ctx.op()
            try:
                parser(route)(obj, specie=None, specie_indices=mols, masses=masses, time_step=1.0, step_skip=1,
                              progress=False)
            except ValueError:
                ctx.trace()
                ctx.state('rejected', repr((mols, masses)))
                continue
            raise Violation(f'{route}: molecules {mols} with masses {masses} were accepted')


CHECK = C05()
