"""C18: the memory limit is enforced before displacements are built."""
import itertools
import tempfile
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import traj as T
from .. import ref
from .c02 import grids

EPS = 1e-5


def need(F, n_sel, grid, itemsize=8):
    """Gigabytes of the displacement values of all intervals: every atom, observation and axis."""
    return sum((F - t + 1) * n_sel * 3 * itemsize for t in grid) * 1e-9


class C18(Check):
    id = 'C18'
    technique = ('exhaustive enumeration of trajectory sizes, selections and interval grids with limits on both sides of the '
                 'boundary on the real parser; byte count by definition')
    rule = ('every frame count x atom count x selection x interval grid x sampling x limit (just below, just above, far above, far '
            'below the need, zero); a state is one (shape, grid, limit, outcome)')
    bounds = {'quick': 'frames 2..9, atoms 1..3, selections, all grids of C02; larger shapes; every input route; the default limit',
              'thorough': 'frames 2..13, atoms 1..4, selections, denser grids of C02; larger shapes; every input route; the default limit'}
    assumptions = ['limits within a relative 1e-5 of the need, other than the need itself where all ways of converting bytes to '
                   'gigabytes agree, are not decided']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase, pymatgen.core, MDAnalysis, pymatgen.io.vasp  # noqa: F401
        A.fast_distributions()

    def cases(self, tier):
        full = tier == 'thorough'
        for F in range(2, (14 if full else 10)):
            for n in range(1, (5 if full else 4)):
                for sampling in ('multi-origin', 'single-origin'):
                    yield dict(what='raw', F=F, n=n, sampling=sampling, full=full)
        for F, n in ((150, 2), (400, 5), (25, 300), (1200, 3), (620, 1)):
            for sampling in ('multi-origin', 'single-origin'):
                yield dict(what='big', F=F, n=n, sampling=sampling)
        for route in T.ROUTES:
            for sampling in ('multi-origin', 'single-origin'):
                for kind in 'DJS':
                    yield dict(what='route', route=route, sampling=sampling, kind=kind)
        yield dict(what='peak')
        for name in ('raw', 'ase', 'pymatgen', 'universe'):
            yield dict(what='default', name=name)

    def run(self, case, ctx):
        getattr(self, case['what'])(case, ctx)

    def one(self, ctx, make, F, n_sel, sampling, desc, itemsize=8):
        """make(limit) parses; compare the outcomes with different limits."""
        base = make(50.0)
        g = [int(t) for t in base.time_intervals]
        want = need(F, n_sel, g, itemsize)
        per = [(F - t + 1) * n_sel * 3 * itemsize for t in g]
        total = sum(per)
        acc1 = acc2 = 0.0
        for p_ in per:
            acc1 += p_ * 1e-9
            acc2 += p_ / 1e9
        # exactly the limit is not more than the limit; only where every way of converting to gigabytes gives the same double
        exact = [want] if len({total * 1e-9, total / 1e9, float(f'{total}e-9'), acc1, acc2, want}) == 1 else []
        if exact:
            ctx.add('exact limits')
        for lim in exact + [want * (1 - EPS), want * (1 + EPS), want * 0.5, want * 3, want * 1e-3, 0, 0.0]:
            ctx.op()
            ctx.trace()
            try:
                p = make(lim)
            except MemoryError:
                p = None
            ctx.state(desc, lim > want, p is None)
            if sampling == 'multi-origin' and (p is None) != (lim < want):
                raise Violation(f'{desc}: {want} GB needed for the intervals {g}, limit {lim}: '
                                f'{"MemoryError" if p is None else "no MemoryError"}')
            if p is not None:
                held = sum(np.asarray(d).nbytes for d in p.disp_3d) * 1e-9
                if held > lim:
                    raise Violation(f'{desc}: parsing with limit {lim} GB holds {held} GB')
                if not (np.array_equal(p.delta_t, base.delta_t) and len(p.disp_3d) == len(base.disp_3d) and
                        all(np.array_equal(x, y) for x, y in zip(p.disp_3d, base.disp_3d))):
                    raise Violation(f'{desc}: the limit {lim} changes the result')

    def raw(self, case, ctx):
        from .. import kin
        F, n, sampling = case['F'], case['n'], case['sampling']
        disp = T.irregular(F, n).transpose(1, 0, 2)
        for k in range(1, n + 1):
            for sel in list(itertools.combinations(range(n), k))[:3]:
                for lo, hi, steps, sp in grids(F, case['full']):

                    def make(lim):
                        return kin.Parser(disp, np.array(sel), np.array([], dtype=int), 1.0, 1, min_dt=lo, max_dt=hi,
                                          n_steps=steps, spacing=sp, sampling=sampling, memory_limit=lim, progress=False)

                    self.one(ctx, make, F, k, sampling, f'F={F} selected={sel} of {n} {sampling} min={lo} max={hi} n_steps={steps} {sp}')

    def big(self, case, ctx):
        from .. import kin
        F, n, sampling = case['F'], case['n'], case['sampling']
        disp = T.irregular(F, n).transpose(1, 0, 2)
        for steps in (100, 13) + ((F, ) if F < 700 else ()):
            for sp in ('linear', 'logarithmic'):

                def make(lim):
                    return kin.Parser(disp, np.arange(n), [], 0.5, 2, n_steps=steps, spacing=sp, sampling=sampling,
                                      memory_limit=lim, progress=False)

                self.one(ctx, make, F, n, sampling, f'F={F} atoms={n} {sampling} n_steps={steps} {sp}')

    def route(self, case, ctx):
        from .. import kin
        route, sampling, kind = case['route'], case['sampling'], case['kind']
        cls = {'ase': kin.ASEParser, 'pymatgen': kin.PymatgenParser, 'xdatcar': kin.PymatgenParser, 'file': None,
               'universe': kin.MDAnalysisParser}[route]
        with tempfile.TemporaryDirectory() as d:
            for F in (3, 6):
                for mobile in (2, 3):
                    tr = T.Traj(T.irregular(F, mobile + 2, salt=F) + 5, T.CELLS['ortho'], ['Li'] * mobile + ['O'] * 2)
                    obj = T.make(route, tr, d, tag=f'{F}{mobile}')
                    par = dict(specie='Li', time_step=1.0 * T.unit(route), step_skip=1, progress=False, sampling=sampling)
                    if cls is not None and kind == 'D':
                        o = obj.structures if route == 'xdatcar' else obj
                        p = cls(o, **par)
                        it = p.disp_3d[0].itemsize
                        self.one(ctx, lambda lim: cls(o, memory_limit=lim, **par), p.dc.shape[1], mobile, sampling,
                                 f'{route} F={F} mobile={mobile} {sampling}', it)
                    # the analyzer passes the limit on
                    con = T.constructor(kin.ANALYZERS[kind], route)
                    a = con(obj, par, uncertainty_params={'progress': False})
                    total = sum(np.asarray(x).nbytes for x in a.to_dict()['disp_3d']) * 1e-9
                    for lim, must in ((total * 0.9, True), (100.0, False)):
                        ctx.op()
                        ctx.trace()
                        try:
                            con(obj, dict(par, memory_limit=lim), uncertainty_params={'progress': False})
                            raised = False
                        except MemoryError:
                            raised = True
                        ctx.state(case, F, mobile, lim > total, raised)
                        if raised != must:
                            raise Violation(f'{case} F={F} mobile={mobile}: limit {lim}, {total} GB of displacements: '
                                            f'{"MemoryError" if raised else "no MemoryError"}')

    def default(self, case, ctx):
        """Without a limit given it is 8 GB, the same for every parser; nothing of that size is allocated here."""
        import resource
        from .. import kin
        classes = {'ase': kin.ASEParser, 'pymatgen': kin.PymatgenParser, 'universe': kin.MDAnalysisParser}
        for name in (case['name'], ):
            n, item = 10, 8
            args = dict(specie='Li', time_step=1.0, step_skip=1, framework_indices=[])
            if name != 'raw':
                small = T.make(name, T.Traj(T.irregular(4, 2) * 0.1 + 5, T.CELLS['cubic'], ['Li'] * 2), None)
                item = classes[name](small, progress=False, **args).disp_3d[0].itemsize
                n = 10 * 8 // item
            for F, over in ((8130, False), (8200, True)):
                want = need(F, n, range(1, F + 1), item)
                if name != 'raw':
                    obj = T.make(name, T.Traj(T.irregular(F, n) * 0.1 + 5, T.CELLS['cubic'], ['Li'] * n), None)
                par = dict(n_steps=F + 5, progress=False)
                with open('/proc/self/statm') as f:
                    now = int(f.read().split()[0]) * resource.getpagesize()
                soft, hard = resource.getrlimit(resource.RLIMIT_AS)
                resource.setrlimit(resource.RLIMIT_AS, (now + (1 << 30), hard))
                try:
                    if name == 'raw':
                        kin.Parser(T.irregular(F, n).transpose(1, 0, 2), np.arange(n), [], 1.0, 1, **par)
                    else:
                        classes[name](obj, **args, **par)
                    refused = False
                except MemoryError as e:
                    # numpy's own error says that the construction was under way
                    refused = not type(e).__module__.startswith('numpy')
                finally:
                    resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
                ctx.op()
                ctx.trace()
                ctx.state('default', name, over, refused)
                if refused != over:
                    raise Violation(f'{name} parser without a limit, {want} GB needed: {"" if refused else "no "}MemoryError')

    def peak(self, case, ctx):
        """Refused before anything of that size is allocated."""
        import tracemalloc
        from .. import kin
        F, n = 1500, 20
        disp = T.irregular(F, n).transpose(1, 0, 2)
        want = need(F, n, np.linspace(1, F, 100, dtype=int))
        tracemalloc.start()
        try:
            kin.Parser(disp, np.arange(n), [], 1.0, 1, memory_limit=want * 0.99, progress=False)
            raise Violation('no MemoryError')
        except MemoryError:
            pass
        peak = tracemalloc.get_traced_memory()[1] * 1e-9
        tracemalloc.stop()
        ctx.op()
        ctx.trace()
        ctx.state('peak')
        if peak > 0.5 * want:
            raise Violation(f'{peak} GB were allocated before the limit of {want * 0.99} GB was enforced')


CHECK = C18()
