"""Trajectories as plain arrays, and their five representations that kinisi can read."""
import numpy as np


class Traj:
    """
    Recorded positions pos[frame, atom, axis] in angstrom, cells[frame, 3, 3] (rows are lattice vectors) and species.
    """

    def __init__(self, pos, cells, species):
        self.pos = np.array(pos, dtype=float)
        cells = np.array(cells, dtype=float)
        if cells.ndim == 2:
            cells = np.repeat(cells[None], self.pos.shape[0], axis=0)
        self.cells = cells
        self.species = list(species)

    @property
    def n_frames(self):
        return self.pos.shape[0]

    def thin(self, k):
        return Traj(self.pos[::k], self.cells[::k], self.species)

    def atoms(self, k):
        return Traj(self.pos[:, ::k], self.cells, self.species[::k])

    def frames(self, a, b):
        return Traj(self.pos[a:b], self.cells[a:b], self.species)

    @property
    def volume(self):
        return abs(np.linalg.det(self.cells[0]))

    def ase(self):
        from ase import Atoms
        return [Atoms(self.species, positions=p, cell=c, pbc=True) for p, c in zip(self.pos, self.cells)]

    def pymatgen(self):
        from pymatgen.core import Structure, Lattice
        return [
            Structure(Lattice(c), self.species, p, coords_are_cartesian=True) for p, c in zip(self.pos, self.cells)
        ]

    def write_xdatcar(self, path):
        groups = []
        for s in self.species:
            if groups and groups[-1][0] == s:
                groups[-1][1] += 1
            else:
                groups.append([s, 1])
        header = []
        varying = not np.all(self.cells == self.cells[0])
        with open(path, 'w') as f:
            for i, (p, c) in enumerate(zip(self.pos, self.cells)):
                if i == 0 or varying:
                    header = ['kcheck', '1.0']
                    header += ['  '.join(f'{x:.15f}' for x in row) for row in c]
                    header += ['  '.join(g[0] for g in groups), '  '.join(str(g[1]) for g in groups)]
                    f.write('\n'.join(header) + '\n')
                f.write(f'Direct configuration= {i + 1}\n')
                for row in p @ np.linalg.inv(c):
                    f.write('  '.join(f'{x:.15f}' for x in row) + '\n')

    def universe(self):
        import MDAnalysis as mda
        from MDAnalysis.lib.mdamath import triclinic_box
        n = self.pos.shape[1]
        u = mda.Universe.empty(n, trajectory=True)
        u.add_TopologyAttr('types', self.species)
        dims = np.array([triclinic_box(*c) for c in self.cells], dtype='f4')
        u.load_new(self.pos.astype('f4'), dimensions=dims)
        return u

    def universe_on_disk(self, scratch, ext='trr'):
        """The same universe read from a trajectory file, whose reader overwrites one buffer as it goes from frame to frame."""
        import os
        import warnings
        import MDAnalysis as mda
        u = self.universe()
        path = os.path.join(scratch, f'traj.{ext}')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with mda.Writer(path, n_atoms=self.pos.shape[1]) as w:
                for _ in u.trajectory:
                    w.write(u.atoms)
            v = mda.Universe.empty(self.pos.shape[1])
            v.add_TopologyAttr('types', self.species)
            v.load_new(path)
        return v


ROUTES = ('ase', 'pymatgen', 'xdatcar', 'file', 'universe')


def unit(route):
    """Factor from picoseconds to the time unit of this route."""
    return 1000 if route in ('pymatgen', 'xdatcar', 'file') else 1


def make(route, traj, scratch=None, tag=''):
    """The object that kinisi's constructor for this route takes."""
    if route == 'ase':
        return traj.ase()
    if route == 'pymatgen':
        return traj.pymatgen()
    if route == 'universe':
        return traj.universe()
    import os
    if tag and route == 'file':  # one directory per run, as VASP leaves them: the file names are the same
        path = os.path.join(scratch, f'run{tag}', 'XDATCAR')
        os.makedirs(os.path.dirname(path), exist_ok=True)
    else:
        path = os.path.join(scratch, f'XDATCAR{tag}')
    traj.write_xdatcar(path)
    if route == 'file':
        return path
    from pymatgen.io.vasp import Xdatcar
    return Xdatcar(path)


def constructor(cls, route):
    return {
        'ase': cls.from_ase,
        'pymatgen': cls.from_pymatgen,
        'xdatcar': cls.from_Xdatcar,
        'file': cls.from_file,
        'universe': cls.from_universe
    }[route]


def tolerance(route):
    return 2e-3 if route == 'universe' else 1e-7


CELLS = {
    'cubic': [[10., 0, 0], [0, 10., 0], [0, 0, 10.]],
    'ortho': [[8., 0, 0], [0, 11., 0], [0, 0, 14.5]],
    'mono': [[9., 0, 0], [0, 10., 0], [3., 0, 11.]],
    'tric': [[9., 0, 0], [2., 10., 0], [-3., 1.5, 11.]],
    'hex': [[10., 0, 0], [-5., 8.660254037844386, 0], [0, 0, 12.]],
}

# cells that only some routes can describe (a universe holds lengths and angles), and unusual sizes
ROUTE_CELLS = {
    'left': [[0, 9., 0], [8., 0, 0], [0, 0, 11.]],
    'rot': [[6., 7., 1.], [-5., 8., 2.], [1., -2., 10.]],
    'upper': [[9., 2., -3.], [0, 10., 1.5], [0, 0, 11.]],
}
SIZE_CELLS = {'big': [[70., 0, 0], [20., 64., 0], [0, 0, 90.]], 'tiny': [[2.2, 0, 0], [0, 2.6, 0], [0.4, 0, 3.1]],
              'huge': [[1500., 0, 0], [40., 1800., 0], [0, -300., 2100.]], 'near': [[10., 0, 0], [0.07, 10., 0], [-0.05, 0.06, 10.]]}


def cells_of(route):
    out = dict(CELLS)
    out.update(SIZE_CELLS)
    if route != 'universe':
        out.update(ROUTE_CELLS)
    return out


def irregular(n_frames, n_atoms, scale=0.7, salt=0):
    """A fixed irregular walk (no two windows have the same displacement), independent of any random generator."""
    k = np.arange(n_frames * n_atoms * 3, dtype=float).reshape(n_frames, n_atoms, 3) + 1 + 1000.37 * salt
    step = np.modf(np.sin(k * 12.9898 + 4.1414) * 43758.5453)[0] * scale
    return np.cumsum(step, axis=0)
