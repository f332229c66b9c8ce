"""C01: unwrapped displacements do not depend on the recorded periodic images."""
import itertools
import numpy as np
from ..runtime import Check, Violation, grid
from .. import traj as T
from .. import ref

# orthorhombic, sheared, tilted and squeezed; the first two and the last have the same volume
SHAPES = {
    'o': [[9., 0, 0], [0, 10., 0], [0, 0, 11.]],
    's': [[9., 0, 0], [1.3, 10., 0], [0, 0, 11.]],
    't': [[9.2, 0, 0], [0.6, 9.9, 0], [-0.9, 1.1, 11.2]],
    'v': [[9.45, 0, 0], [0, 10., 0], [0, 0, 11. / 1.05]],
    'a': [[9., 0, 0], [2.8, 9.6, 0], [0, 0, 11.]],  # the lengths of 'o', other angles
    'b': [[9., 0, 0], [-2.8, 9.6, 0], [0, 0, 11.]],
}
NPT_SCALES = [(1.0, 1.0, 1.0), (1.04, 0.97, 1.02), (0.93, 0.95, 0.96), (1.003, 1.001, 0.998), (0.9992, 1.0005, 1.0045),
              (1.0003, 0.9998, 1.0005), (0.99995, 1.00002, 0.99998)]


def walks(G, hops, K, starts):
    """All 1-D integer walks: array [walk, K+1] of unwrapped grid positions."""
    out = []
    for s in starts:
        for h in itertools.product(hops, repeat=K):
            out.append(np.concatenate([[s], s + np.cumsum(h)]))
    return np.array(out)


def patterns(mode, F):
    if mode == 'all':
        return np.array(list(itertools.product((0, -1, 1), repeat=F)))
    if mode == 'wide':
        return np.array([[0] * F, [(-1)**i for i in range(F)], [i for i in range(F)], [-2 * i for i in range(F)],
                         [2 * (i % 2) for i in range(F)]])
    if mode == 'far':
        return np.array([[37 * (-1)**i for i in range(F)], [500 * i for i in range(F)], [-1000 * (i % 2) for i in range(F)]])
    return np.array([[0] * F])


def parse(route, traj, **kw):
    from .. import kin
    p = dict(specie='Li', time_step=1.0, step_skip=1, framework_indices=[], progress=False, n_steps=1)
    p.update(kw)
    if route == 'ase':
        return kin.ASEParser(traj.ase(), **p)
    if route == 'pymatgen':
        return kin.PymatgenParser(traj.pymatgen(), **p)
    return kin.MDAnalysisParser(traj.universe(), **p)


def series(u):
    """All displacements from the first frame, from the windows of one frame."""
    return np.cumsum(u.disp_3d[0], axis=1)


class C01(Check):
    id = 'C01'
    technique = 'exhaustive enumeration of integer walks on a torus x recorded images x cells x parsers, real code vs walk'
    rule = ('every walk of K hops (|hop| < half the grid) from every start x every pattern of recorded images, batched '
            'as the atoms of one trajectory, per cell and parser; every cell-scale sequence for changing cells; a state '
            'is one (walk, images, cell, parser) displacement series')
    bounds = {
        'quick': 'grid 5, K=4 (wrapped) and K=2 with all image patterns in {-1,0,1}; grids 101 and 1001 near half; 60/600/5000 frames',
        'thorough': 'grid 5, K=5 (wrapped) and K=3 with all image patterns; grid 7 with hops up to 3; 1500 frames',
    }
    assumptions = ['numpy arithmetic', 'ase/pymatgen/MDAnalysis hand over the positions and cells they were given',
                   'MDAnalysis stores single precision: compared to 2e-3 angstrom']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase, pymatgen.core, MDAnalysis  # noqa: F401

    def cases(self, tier):
        routes = ('ase', 'pymatgen', 'universe')
        cells = list(T.CELLS)
        thorough = tier == 'thorough'
        # tiny separate trajectories
        for r in routes:
            for c in cells:
                for F in (2, 3):
                    for N in (2, 3):
                        yield dict(kind='walk', route=r, cell=c, G=5, hops=[-2, 1, 2][:N], K=F - 1, starts=[4],
                                   images='none', part=None)
        for g in grid(kind=['walk'], route=routes, cell=cells, G=[5], hops=[[-2, -1, 0, 1, 2]],
                      K=[5 if thorough else 4], starts=[[0, 1, 2, 3, 4]], images=['none'], part=[None]):
            for s in g['starts']:
                yield dict(g, starts=[s])
        for g in grid(kind=['walk'], route=routes, cell=cells, G=[5], hops=[[-2, -1, 0, 1, 2]],
                      K=[3 if thorough else 2], starts=[[0], [1], [2], [3], [4]], images=['all'], part=[None]):
            yield g
        for g in grid(kind=['walk'], route=routes, cell=cells, G=[101], hops=[[-50, -49, 0, 1, 50]], K=[3],
                      starts=[[0], [37], [100]], images=['wide'], part=[None]):
            yield g
        for g in grid(kind=['walk'], route=['ase', 'pymatgen'], cell=cells, G=[5], hops=[[-2, -1, 0, 1, 2]], K=[3], starts=[[0], [3]],
                      images=['far'], part=[None]):
            yield g
        for route in routes:
            extra = [c for c in T.cells_of(route) if c not in T.CELLS]
            for g in grid(kind=['walk'], route=[route], cell=extra, G=[5], hops=[[-2, -1, 0, 1, 2]], K=[3], starts=[[0], [4]],
                          images=['none'], part=[None]):
                yield g
            for g in grid(kind=['walk'], route=[route], cell=extra, G=[5], hops=[[-2, -1, 0, 1, 2]], K=[2], starts=[[0], [2]],
                          images=['all'], part=[None]):
                yield g
            for g in grid(kind=['walk'], route=[route], cell=['near', 'tric'], G=[1001], hops=[[-500, -499, 0, 1, 500]], K=[3],
                          starts=[[0], [370], [1000]], images=['wide'], part=[None]):
                yield g
            yield dict(kind='long', route=route, cell='near', F=5000)
            yield dict(kind='long', route=route, cell='ortho', F=5000)
            # cells of different shape, and of the same volume, from frame to frame
            for seq in itertools.chain(itertools.product('ostv', repeat=3), itertools.product('oab', repeat=3)):
                yield dict(kind='shapes', route=route, cell='ortho', seq=seq)
        if thorough:
            for g in grid(kind=['walk'], route=routes, cell=cells, G=[7], hops=[[-3, -2, -1, 0, 1, 2, 3]], K=[4],
                          starts=[[s] for s in range(7)], images=['none'], part=[None]):
                yield g
        for g in grid(kind=['long'], route=routes, cell=cells, F=[60, 1500 if thorough else 600]):
            yield g
        for g in grid(kind=['creep'], route=routes, cell=['ortho', 'tric'], step=[1e-9, 2e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3]):
            yield g
        for g in grid(kind=['npt'], route=routes, cell=['cubic', 'ortho', 'tric', 'hex'],
                      seq=list(itertools.product(range(3), repeat=4 if thorough else 3))):
            yield g
        for g in grid(kind=['npt'], route=routes, cell=['ortho', 'tric'], seq=[tuple(i % 3 for i in range(12)), tuple(i % 5 for i in range(130))]):
            yield g
        for g in grid(kind=['npt'], route=routes, cell=['ortho', 'tric'], seq=list(itertools.product((0, 3, 4), repeat=3)) + list(itertools.product((0, 5, 6), repeat=3))):
            yield g
        # more atoms than anything might be processed at once
        for g in grid(kind=['walk'], route=routes, cell=['tric'], G=[5], hops=[[-2, -1, 0, 1, 2]], K=[5], starts=[[0, 3]], images=['none'], part=[None]):
            yield g

    def run(self, case, ctx):
        route = case['route']
        cell = np.array(T.cells_of(route)[case['cell']])
        tol = T.tolerance(route)
        if case['kind'] in ('npt', 'shapes'):
            return self.npt(case, ctx, cell, tol)
        if case['kind'] == 'creep':
            return self.creep(case, ctx, cell, tol)
        if case['kind'] == 'long':
            F = case['F']
            k = np.arange(F)
            w = np.array([2 * k, -2 * k, 2 * k * (k % 2), np.where(k < F // 2, 2 * k, 2 * (F - k))])
            w[2] = np.cumsum(np.where(k % 3 == 0, 2, -1))
            G = 5
        else:
            G = case['G']
            w = walks(G, case['hops'], case['K'], case['starts'])
        F = w.shape[1]
        img = patterns(case.get('images', 'none'), F)
        W = np.repeat(w, len(img), axis=0)
        I = np.tile(img, (len(w), 1))
        n = len(W)
        # three axes see the same set of walks, in different combinations
        perm = [np.arange(n), (np.arange(n) * 7 + 1) % n, (np.arange(n)[::-1])]
        true = np.stack([W[p] for p in perm], axis=-1).astype(float) / G  # [atom, frame, axis]
        rec = np.stack([W[p] % G for p in perm], axis=-1).astype(float) / G + 0.3 / G
        rec = rec + np.stack([I[p] for p in perm], axis=-1)
        pos = (rec @ cell).transpose(1, 0, 2)
        u = parse(route, T.Traj(pos, cell, ['Li'] * n))
        ctx.op(F)
        got = series(u)
        want = (true - true[:, :1]) @ cell
        self.compare(ctx, got, want, tol, case)

    def compare(self, ctx, got, want, tol, case):
        if got.shape != want.shape:
            raise Violation(f'displacement series has shape {got.shape}, expected {want.shape}')
        err = np.abs(got - want).max(axis=(1, 2))
        bad = np.argwhere(~(err < tol * (1 + want.shape[1] / 20)))
        ctx.trace(len(got))
        key = (case['route'], case['cell'])
        for row in np.round(want, 4):
            ctx.states.add(hash((key, row.tobytes())) & (2**64 - 1))
        if len(bad):
            a = bad[0][0]
            raise Violation(f'atom {a}: displacement off by {err[a]:.3g} angstrom\nreported {str(got[a].tolist())[:800]}\n'
                            f'expected {str(want[a].tolist())[:800]}')

    def creep(self, case, ctx, cell, tol):
        """Slow atoms: many small steps add up, also across a boundary; some atoms rest for a while or move only once."""
        F = 700
        k = np.arange(F)
        s = case['step']
        one = np.array([s * k, -s * k, s * (k // 7), s * np.where(k % 2, k, k / 2), 0.2 * (k > 300) + s * k, 0.0 * k, s * (k == 500)])
        n = len(one)
        perm = [np.arange(n), (np.arange(n) + 3) % n, np.arange(n)[::-1]]
        true = np.stack([one[p] for p in perm], axis=-1)
        for start in (0.5, 1 - 300 * s, 300 * s):
            rec = (true + start) % 1.0
            pos = (rec @ cell).transpose(1, 0, 2)
            if case['route'] == 'universe':  # stored in single precision: the recorded positions are the truth
                pos = pos.astype(np.float32).astype(float)
                if s < 1e-5:
                    continue
            u = parse(case['route'], T.Traj(pos, cell, ['Li'] * n))
            ctx.op(F)
            self.compare(ctx, series(u), (true - true[:, :1]) @ cell, tol, case)

    def npt(self, case, ctx, cell, tol):
        seq = case['seq']
        F = len(seq)
        cells = np.array([cell * np.array(NPT_SCALES[s])[:, None] if isinstance(s, int) else SHAPES[s] for s in seq])
        G = 5
        if F <= 4:
            one = np.array(list(itertools.product(range(G), repeat=F)))
        else:
            one = np.array([[(a * k * k + b * k) % G for k in range(F)] for a in range(1, 5) for b in range(4)])
        n = len(one)
        perm = [np.arange(n), (np.arange(n) * 7 + 1) % n, np.arange(n)[::-1]]
        frac = (np.stack([one[p] for p in perm], axis=-1) + 0.25) / G
        frac = frac.transpose(1, 0, 2)
        pos = np.einsum('fai,fij->faj', frac, cells)
        keep = []
        for a in range(n):
            try:
                ref.unwrap(pos[:, a:a + 1], cells, eps=1e-3)
                keep.append(a)
            except ref.Tie:
                pass
        pos = pos[:, keep]
        want = ref.unwrap(pos, cells)
        u = parse(case['route'], T.Traj(pos, cells, ['Li'] * len(keep)))
        ctx.op(F)
        ctx.add('npt_atoms', len(keep))
        self.compare(ctx, series(u), want, tol, case)


CHECK = C01()
