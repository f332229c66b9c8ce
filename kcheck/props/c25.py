"""C25: warnings about triclinic cells and about the time unit are given exactly when they apply."""
import itertools
import tempfile
import warnings
import numpy as np
from ..runtime import Check, Violation
from .. import traj as T

BASE = np.diag([9., 10., 11.])
OFF = [(1, 0), (2, 0), (2, 1), (0, 1), (0, 2), (1, 2)]


def told(caught):
    """(warned about triclinic cells, reminded of femtoseconds)"""
    text = [(issubclass(w.category, UserWarning), str(w.message).lower()) for w in caught]
    tri = any(u and ('triclinic' in t or 'orthorhombic' in t) for u, t in text)
    fs = any(u and 'femtosecond' in t for u, t in text)
    return tri, fs


class C25(Check):
    id = 'C25'
    technique = 'exhaustive enumeration of cell shapes, frames that have them and input routes; the warnings are recorded'
    rule = ('every set of non-zero off-diagonal cell elements x every non-empty and the empty set of frames that have them x route '
            'x analyzer; 8 rotations of an orthorhombic cell; a state is one (shape, frames, route)')
    bounds = {'quick': 'all 64 sets of off-diagonal elements (8 for universes) in all frames and in one of 3 frames; all 8 sets of 3 frames for 12 '
                       'shapes; tilts of 1e-4..4 angstrom of either sign',
              'thorough': 'all 64 sets of off-diagonal elements x all 16 sets of 4 frames x 6 tilts'}
    assumptions = ['tilts below 1e-4 angstrom (rounding of a cell given by lengths and angles) are not decided']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase, pymatgen.core, MDAnalysis, pymatgen.io.vasp  # noqa: F401

    def cases(self, tier):
        full = tier == 'thorough'
        for route in T.ROUTES:
            for kind in 'DJS':
                n = 3 if route == 'universe' else 6
                if route != 'universe':  # orthorhombic cells that are not aligned with x, y and z
                    for rot in range(8):
                        yield dict(route=route, kind=kind, rot=rot, full=full)
                for bits in itertools.product((0, 1), repeat=n):
                    yield dict(route=route, kind=kind, bits=bits, full=full)

    def run(self, case, ctx):
        route, kind = case['route'], case['kind']
        if 'rot' in case:
            return self.rotated(case, ctx)
        F = 4 if case['full'] else 3
        sets = list(itertools.product((0, 1), repeat=F))
        tilts = [1.5, -1.5, 1e-2, -1e-2, 4.0, -1e-4] if case['full'] else [1.5, -1e-2, 1e-4]
        with tempfile.TemporaryDirectory() as d:
            for ti, tilt in enumerate(tilts):
                some = sets if case['full'] or kind == 'D' and sum(case['bits']) < 2 else [(1, ) * F] + [
                    tuple(int(i == j) for j in range(F)) for i in range(F)]
                if not case['full'] and kind != 'D' and ti:
                    continue
                for frames in some:
                    if route == 'universe' and abs(tilt) < 1e-2:
                        continue
                    cells = np.repeat(BASE[None], F, axis=0)
                    for f in range(F):
                        for b, (i, j) in zip(case['bits'], OFF):
                            if b and frames[f]:
                                cells[f, i, j] = tilt * (1 if (i + j) % 2 else 0.7)
                    self.one(ctx, route, kind, cells, d, f'{case} tilt={tilt} in the frames {frames}')

    def rotated(self, case, ctx):
        k = case['rot']
        if k < 5:
            R = np.eye(3)[list(list(itertools.permutations(range(3)))[1:][k])]
        else:
            R = np.eye(3)
            i, j = [(0, 1), (0, 2), (1, 2)][k - 5]
            c, s = 0.8, 0.6
            R[i, i], R[j, j], R[i, j], R[j, i] = c, c, s, -s
        with tempfile.TemporaryDirectory() as d:
            for frames in itertools.product((0, 1), repeat=3):
                cells = np.array([BASE @ R if f else BASE for f in frames])
                self.one(ctx, case['route'], case['kind'], cells, d, f'{case} rotated in the frames {frames}')

    def one(self, ctx, route, kind, cells, d, desc):
        from .. import kin
        F = len(cells)
        pos = np.einsum('fai,fij->faj', (T.irregular(F, 3, scale=0.2) + 3) % 1.0, cells)
        tr = T.Traj(pos, cells, ['Li', 'Li', 'O'])
        obj = T.make(route, tr, d)
        pp = dict(specie='Li', time_step=1.0, step_skip=1, progress=False)
        want = bool(np.any(cells[:, ~np.eye(3, dtype=bool)] != 0)), route in ('pymatgen', 'xdatcar', 'file')
        for again in (False, True):
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                T.constructor(kin.ANALYZERS[kind], route)(obj, pp, uncertainty_params=dict(progress=False),
                                                         **({'ionic_charge': 1} if kind == 'S' else {}))
            ctx.op()
            ctx.trace()
            got = told(caught)
            for g, w, what in zip(got, want, ('the cell not being orthorhombic', 'the time step being in femtoseconds')):
                if g != w:
                    raise Violation(f'{desc}: {"no " if w else "a "}warning about {what}' + (' the second time' if again else ''))
        ctx.state(route, kind, cells.tolist())


CHECK = C25()
