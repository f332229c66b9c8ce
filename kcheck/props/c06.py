"""C06: all input routes agree, in picoseconds and angstroms."""
import tempfile
import numpy as np
from ..runtime import Check, Violation, grid
from .. import traj as T
from .. import ref

STEPS = {'ps': 1.0, 'tenth': 0.1, 'int': 2, 'md': 0.0005}


def trajectory(shape, F=9, N=9):
    """Wrapped irregular walk; 'npt' has a different cell in every frame and fractional positions near the middle."""
    species = (['Li', 'Li', 'O', 'Li', 'O', 'O'] * N)[:N]
    if shape == 'npt':
        cells = np.array([np.array(T.CELLS['tric']) * (1 + 0.02 * np.sin(f + 1)) for f in range(F)])
        frac = 0.5 + T.irregular(F, N, scale=0.09, salt=2)
        frac = frac % 1.0
        pos = np.einsum('fai,fij->faj', frac, cells)
        return T.Traj(pos, cells, species)
    cell = np.array({**T.CELLS, **T.ROUTE_CELLS, **T.SIZE_CELLS}[shape])
    x = T.irregular(F, N, scale=2.0 if shape != 'tiny' else 0.5, salt=1) + np.arange(N)[None, :, None]
    frac = (x @ np.linalg.inv(cell)) % 1.0
    return T.Traj(frac @ cell, cell, species)


OPTIONS = [
    dict(par={}, unc={}, ref={}),
    dict(par=dict(n_steps=2), unc=dict(dimension='xz'), ref=dict(n_steps=2, dim='xz')),
    dict(par=dict(sampling='single-origin'), unc=dict(dimension='y'), ref=dict(sampling='single-origin', dim='y')),
    dict(par=dict(framework_indices=[2, 4]), unc=dict(sub_sample_dt=2), ref=dict(framework=[2, 4], sub_dt=2)),
    dict(par=dict(min=2), unc={}, ref=dict(min_frames=2)),
    dict(par=dict(max=2), unc={}, ref=dict(max_frames=2)),
]


class C06(Check):
    id = 'C06'
    technique = 'exhaustive product of input routes, analyzers, time steps, sub-sampling and options; one reference for all'
    rule = 'every route x analyzer x time step x skip x frame/atom thinning x cell x option set; a state is one report'
    bounds = {'quick': '5 routes x 3 analyzers x 4 time steps x 2 skips x thinning 1..3 x 3 cells x 6 option sets; universes from TRR, DCD and NetCDF files; 140, 260 frames, 150 atoms',
              'thorough': 'same with thinning 1..4, 6 cells, 14 frames; up to 1100 frames, 600 atoms'}
    assumptions = ['MDAnalysis stores single precision: compared to 1e-3 relative']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase, pymatgen.core, MDAnalysis, pymatgen.io.vasp  # noqa: F401

    def cases(self, tier):
        full = tier == 'thorough'
        yield dict(reject=True)
        for shape in (['ortho', 'tric', 'npt', 'cubic', 'mono', 'hex'] if full else ['ortho', 'tric', 'npt']):
            for route in T.ROUTES:
                for kind in 'DJS':
                    for ts in STEPS:
                        yield dict(shape=shape, route=route, kind=kind, ts=ts, F=14 if full else 9,
                                   subs=[1, 2, 3, 4] if full else [1, 2, 3])
        for disk in ('trr', 'dcd', 'nc'):  # universes whose reader reuses one buffer for all frames
            for shape in (['tric', 'npt', 'ortho', 'hex'] if full else ['tric', 'npt']):
                for kind in 'DJS':
                    yield dict(shape=shape, route='universe', disk=disk, kind=kind, ts='ps', F=9, subs=[1, 2, 3] if full else [1, 2])
        for route in T.ROUTES:
            for shape in T.cells_of(route):
                if shape not in T.CELLS:
                    yield dict(shape=shape, route=route, kind='D', ts='ps', F=9, subs=[1, 2])
                    yield dict(shape=shape, route=route, kind='S', ts='tenth', F=9, subs=[1])
            for kind in 'DJS':
                for F, N in ((140, 3), (260, 2), (30, 150)) + (((1100, 3), (60, 600)) if full else ()):
                    yield dict(shape='tric', route=route, kind=kind, ts='tenth', F=F, N=N, subs=[1, 2], big=True)

    def reject(self, case, ctx):
        """Thinning the atoms and selecting them by index cannot be combined: the indices would mean other atoms."""
        from .. import kin
        tr = trajectory('ortho', 6, 9)
        with tempfile.TemporaryDirectory() as d:
            obj = T.make('universe', tr, d)
            for kind in 'DJS':
                for at in (2, 3):
                    for sel in ([0, 1], [[1, 2], [3, 4]]):
                        ctx.op()
                        ctx.trace()
                        ctx.state('reject', kind, at, sel)
                        try:
                            T.constructor(kin.ANALYZERS[kind], 'universe')(
                                obj, dict(specie=None, specie_indices=sel, sub_sample_atoms=at, time_step=1.0, step_skip=1,
                                          progress=False), uncertainty_params=dict(progress=False))
                        except ValueError:
                            continue
                        raise Violation(f'{kind}: sub_sample_atoms={at} with specie_indices={sel} was accepted')

    def run(self, case, ctx):
        if 'reject' in case:
            return self.reject(case, ctx)
        from .. import kin
        tr = trajectory(case['shape'], case['F'], case.get('N', 9))
        big = case.get('big')
        route, kind = case['route'], case['kind']
        f = T.unit(route)
        ts = STEPS[case['ts']]
        tol = 1e-4 if route == 'universe' else 1e-8
        with tempfile.TemporaryDirectory() as d:
            obj = tr.universe_on_disk(d, case['disk']) if case.get('disk') else T.make(route, tr, d)
            for ss in (1, 5) if not big else (3, ):
                for sub in case['subs']:
                    for at in (1, 2, 3) if route == 'universe' and not big else (1, ):
                        for oi, opt in enumerate(OPTIONS):
                            if big and (oi > 2 or max(opt['ref'].get('framework', [0])) >= case['N']):
                                continue
                            if at != 1 and 'framework' in opt['ref']:
                                continue
                            par = {k: v for k, v in opt['par'].items() if k not in ('min', 'max')}
                            fs = ts * f * ss * sub
                            if 'min' in opt['par']:
                                par['min_dt'] = opt['par']['min'] * fs
                            if 'max' in opt['par']:
                                par['max_dt'] = opt['par']['max'] * fs
                            extra = {}
                            charge = 1
                            if kind == 'S' and oi % 2:
                                extra['ionic_charge'] = charge = 2 - oi
                            if route == 'universe':
                                par['sub_sample_atoms'] = at
                                obj.trajectory[(2 * oi + at) % case['F']]  # wherever the universe stands
                            want = ref.pipeline(tr, kind, ts, ss, sub, at, charge=charge, **opt['ref'])
                            if not want['disp_3d']:
                                continue
                            a = T.constructor(kin.ANALYZERS[kind], route)(
                                obj, dict(specie='Li', time_step=ts * f, step_skip=ss, sub_sample_traj=sub,
                                          progress=False, **par),
                                uncertainty_params=dict(progress=False, **opt['unc']), **extra)
                            ctx.op()
                            ctx.trace()
                            ctx.state(kind, want['stats']['n'], want['stats']['dt'], ts, ss, route)
                            bad = ref.compare_analyzer(a, want, kind, tol)
                            if bad:
                                raise Violation(f'{case} step_skip={ss} sub_sample_traj={sub} sub_sample_atoms={at} '
                                                f'{opt}: {bad}')


CHECK = C06()
