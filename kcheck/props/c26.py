"""C26: the same physical process described in another way (origin, labels, axes, lattice vectors, units) gives the same results."""
import itertools
import tempfile
import numpy as np
from ..runtime import Check, Violation
from .. import analyzers as AN
from .. import traj as T

SPECIES = ['Li', 'Li', 'Li', 'O', 'O', 'Cl']
ABC = 'xyz'
MODES = ('specie', 'indices', 'molecules')
CHARGES = np.array([1.0, -2.0, 0.5])


def letters(dim, perm):
    """The axes that hold, after the permutation (new axis k is old axis perm[k]), what dim held before."""
    return ''.join(ABC[k] for k in range(3) if ABC[perm[k]] in dim)


class View:
    """One description of the process: trajectory, which atoms, and the numbers that depend on units and labels."""

    def __init__(self, traj, order=None, dim='xyz', ts=1.0, charges=CHARGES, mols=(0, 1, 2), swap=False):
        self.order = list(range(traj.pos.shape[1])) if order is None else list(order)
        self.traj = T.Traj(traj.pos[:, self.order], traj.cells, [traj.species[i] for i in self.order])
        self.dim, self.ts, self.charges, self.mols, self.swap = dim, ts, charges, mols, swap

    def run(self, route, kind, mode, window, scratch):
        from .. import kin
        u = T.unit(route)
        where = {a: i for i, a in enumerate(self.order)}
        pp = dict(time_step=self.ts * u, step_skip=2, progress=False)
        ions = [where[i] for i in (0, 1, 2)]
        charges = self.charges
        if mode == 'specie':
            pp['specie'] = 'Li'
            charges = self.charges[np.argsort(ions)]
            ions = sorted(ions)
        elif mode == 'indices':
            pp.update(specie=None, specie_indices=ions, framework_indices=[where[4], where[3]] if self.swap else [where[3], where[4]])
        else:
            mols = [[where[a] + 1, where[b] + 1] for a, b in ((0, 3), (4, 1), (2, 5))]  # molecules count from one
            masses = [6.0, 16.0]
            mols = [mols[k] for k in self.mols]
            charges = self.charges[list(self.mols)]
            if self.swap:
                mols, masses = [m[::-1] for m in mols], masses[::-1]
            pp.update(specie=None, specie_indices=mols, masses=masses, framework_indices=[])
        for k, v in window.items():
            pp[k] = v * self.ts * 2 * u if k in ('min_dt', 'max_dt') else v
        extra = {'ionic_charge': charges} if kind == 'S' else {}
        a = T.constructor(kin.ANALYZERS[kind], route)(T.make(route, self.traj, scratch), pp,
                                                     uncertainty_params=dict(progress=False, dimension=self.dim), **extra)
        r = AN.report(kind, a)
        return dict(dt=r['dt'], mean=r['mean'], std=r['std'], dr=[np.sort(np.ravel(x)) for x in r['dr']], ngp_max=r['ngp_max'],
                    ngp=np.array(a._diff.ngp) if hasattr(getattr(a, '_diff', None), 'ngp') else np.zeros(0), volume=r['volume'])


class C26(Check):
    id = 'C26'
    technique = ('exhaustive enumeration of motions and of descriptions (origins, labels, axes, lattice vectors, units, common motion) '
                 'of each motion; every description is analysed by the code and compared with the first')
    rule = ('every sequence of step letters of one ion x route x analyzer x selection (element, atoms, molecules) x description; '
            'a state is one (motion, route, analyzer, selection, description)')
    bounds = {'quick': '16 motions of 5 frames (6 atoms), 3 cells; descriptions: 3 origins, 9 orders of the atoms, 3 orders of molecules or framework, '
                       '5 axis permutations x 4 sets of axes, 3 reflections, 2 rotations, 3 choices of lattice vectors, 4 length and 3 time units, '
                       '2 common motions, charges times 2 factors',
              'thorough': '81 motions, 5 cells, all 720 orders of the atoms for one motion, 7 sets of axes, two windows'}
    assumptions = ['steps that are not within rounding of half a lattice vector']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase, pymatgen.core, MDAnalysis, pymatgen.io.vasp  # noqa: F401

    def cases(self, tier):
        full = tier == 'thorough'
        steps = (1, -1, 0) if full else (1, -1)
        for n, word in enumerate(itertools.product(steps, repeat=4)):
            for route in T.ROUTES:
                for kind in 'DJS':
                    for mode in MODES:
                        if not full and route != 'ase' and (n + 'DJS'.index(kind) + MODES.index(mode)) % 2:
                            continue
                        cells = ('ortho', 'tric', 'mono', 'hex', 'cubic') if full else ('ortho', 'tric', 'hex')
                        yield dict(word=list(word), route=route, kind=kind, mode=mode, cell=cells[n % len(cells)],
                                   orders=full and n == 1, full=full)

    def base(self, case):
        cell = np.array(T.CELLS[case['cell']])
        walk = T.irregular(5, 6, scale=0.9, salt=3)
        tagged = np.cumsum(np.concatenate([[0], case['word']]))[:, None] * np.array([0.9, 0.55, 1.3])
        pos = walk + np.array([[0.3, 0.2, 0.1], [4.5, 5.0, 1.0], [2.0, 6.5, 4.0], [6.0, 1.0, 7.0], [1.0, 3.0, 6.0], [3.3, 3.1, 3.0]])
        pos[:, 0] += tagged
        if case['mode'] == 'molecules':  # bonded atoms stay together
            for a, b in ((0, 3), (4, 1), (2, 5)):
                pos[:, b] = pos[:, a] + 0.4 * (walk[:, b] - walk[:1, b]) + [0.5, -0.9, 0.7]
        return T.Traj(pos, cell, SPECIES)

    def wrapped(self, t):
        f = np.einsum('fai,fij->faj', t.pos, np.linalg.inv(t.cells))
        return T.Traj(np.einsum('fai,fij->faj', f - np.floor(f), t.cells), t.cells, t.species)

    def descriptions(self, case, t):
        """(name, View, dimension of the original, factor of lengths, factor of times, factor of the charges, what is comparable)"""
        route, kind, mode, full = case['route'], case['kind'], case['mode'], case['full']
        flat = case['cell'] in ('ortho', 'cubic')
        lengths = route != 'universe'  # a universe keeps lengths and angles of its cell only
        for o in ([0.0, 0.0, 0.0], [5.0, -3.3, 8.1], [-20.2, 0.4, 1.9]):
            yield f'origin {o}', View(self.wrapped(T.Traj(t.pos + np.array(o), t.cells, t.species))), 'xyz', 1, 1, 1
        # labels: an XDATCAR lists equal elements together, as written
        orders = ([1, 0, 2, 3, 4, 5], [2, 1, 0, 3, 4, 5], [1, 2, 0, 4, 3, 5], [3, 4, 0, 1, 2, 5], [5, 4, 3, 2, 1, 0], [0, 3, 1, 4, 2, 5],
                  [4, 2, 5, 0, 3, 1], [5, 0, 1, 2, 3, 4], [3, 0, 5, 1, 4, 2])
        for o in itertools.permutations(range(6)) if case['orders'] else orders:
            yield f'atoms in the order {list(o)}', View(t, o), 'xyz', 1, 1, 1
        if mode == 'molecules':
            for m in ((1, 0, 2), (2, 0, 1), (2, 1, 0)):
                yield f'molecules in the order {m}', View(t, mols=m), 'xyz', 1, 1, 1
            yield 'atoms of the molecules reversed', View(t, swap=True), 'xyz', 1, 1, 1
        if mode == 'indices':
            yield 'framework reversed', View(t, swap=True), 'xyz', 1, 1, 1
        for p in list(itertools.permutations(range(3)))[1:]:
            for dim in ('x', 'y', 'z', 'xy', 'xz', 'yz', 'xyz') if full else ('xyz', 'y', 'xz', 'yz'):
                if flat:
                    q = T.Traj(t.pos[:, :, p], t.cells[:, p][:, :, p], t.species)
                elif lengths:
                    q = T.Traj(t.pos[:, :, p], t.cells[:, :, p], t.species)
                else:
                    continue
                yield f'axes {p}, {dim}', View(q, dim=letters(dim, p)), dim, 1, 1, 1
        for k in range(3):
            s = np.ones(3)
            s[k] = -1
            if lengths or flat:
                yield f'{ABC[k]} reversed', View(T.Traj(t.pos * s, t.cells * s * (s[:, None] if flat else 1), t.species)), 'xyz', 1, 1, 1
        if lengths:
            for R in (np.array([[.6, .8, 0], [-.8, .6, 0], [0, 0, 1]]), np.array([[1, 2, 2], [2, 1, -2], [2, -2, 1]]) / 3):
                yield f'rotated by {R.tolist()}', View(T.Traj(t.pos @ R, t.cells @ R, t.species)), 'xyz', 1, 1, 1
            for U in ([[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[-1, 0, 0], [0, 1, 0], [0, 0, -1]], [[1, 0, 0], [1, 1, 0], [0, 0, 1]]):
                yield f'lattice vectors {U}', View(self.wrapped(T.Traj(t.pos, np.array(U) @ t.cells, t.species))), 'xyz', 1, 1, 1
        for s in (2.0, 0.1, 1e3, 1e-3):
            yield f'lengths times {s}', View(T.Traj(t.pos * s, t.cells * s, t.species)), 'xyz', s, 1, 1
        for s in (2.0, 1e-3, 1024.0):
            yield f'times times {s}', View(t, ts=s), 'xyz', 1, s, 1
        if mode != 'molecules':
            for n, shift in enumerate((np.arange(5.0)[:, None, None] * np.array([0.8, -0.7, 0.4]), T.irregular(5, 1, 0.8, salt=9))):
                yield f'common motion {n}', View(T.Traj(t.pos + shift, t.cells, t.species)), 'xyz', 1, 1, 1
        if kind == 'S':
            for c in (-1.0, 4.0):
                yield f'charges times {c}', View(t, charges=CHARGES * c), 'xyz', 1, 1, abs(c)

    def run(self, case, ctx):
        route, kind, mode = case['route'], case['kind'], case['mode']
        t = self.base(case)
        tol = 5e-3 if route == 'universe' else 1e-7
        first = {}
        windows = [dict()] + ([dict(min_dt=2, max_dt=4, n_steps=2), dict(spacing='logarithmic', n_steps=4)] if case['full'] else [])
        with tempfile.TemporaryDirectory() as scratch:
            for w, window in enumerate(windows):
                for name, view, dim, L, S, Q in self.descriptions(case, t):
                    if (w, dim) not in first:
                        first[w, dim] = View(t, dim=dim).run(route, kind, mode, window, scratch)
                    want = first[w, dim]
                    got = view.run(route, kind, mode, window, scratch)
                    ctx.op()
                    ctx.trace()
                    ctx.state(case, name, w)
                    factor = {'dt': S, 'ngp_max': S, 'mean': (L * Q)**2, 'std': (L * Q)**2, 'dr': L, 'volume': L**3, 'ngp': 1}
                    for key, x in want.items():
                        y = got[key]
                        if key == 'ngp_max' and want['ngp'].size > 1 and np.ptp(np.sort(want['ngp'])[-2:]) < 10 * tol:
                            continue  # two intervals with the same maximum
                        for i, (a, b) in enumerate(zip(x, y)) if key == 'dr' else [(0, (x, y))]:
                            a = np.asarray(a, dtype=float) * factor[key]
                            b = np.asarray(b, dtype=float)
                            if a.shape != b.shape or not np.allclose(a, b, rtol=tol, atol=tol * max(1e-300, np.max(np.abs(a), initial=0))):
                                raise Violation(f'{case} {name}: {key} {b.tolist()} expected {a.tolist()}'[:3000])
                        if key == 'dr' and len(x) != len(y):
                            raise Violation(f'{case} {name}: {len(y)} displacement-length distributions, expected {len(x)}')


CHECK = C26()
