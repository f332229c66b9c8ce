"""C24: a failed or interrupted fit leaves the previous results in place."""
import contextlib
import io
import os
import sys
import tempfile
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import analyzers as Z
from .c14 import state

BASE = dict(n_walkers=4, n_samples=2, n_burn=1, thin=1)
FITS = {
    'a': (0, 300.0, 5, dict()),
    'b': (2, 350.0, 6, dict(model=True, fit_intercept=False)),
    'c': (1, 400.0, 7, dict(cond_max=2.0, n_samples=3)),
    # as many intervals and samples as a
    'd': (0, 450.0, 8, dict(model=True, cond_max=5.0)),
}
HISTORIES = [None, 'a', 'b']
BAD = {
    'beyond': dict(start=1e9),
    'nan': dict(start=float('nan')),
    'none': dict(start=None),
    'last': dict(start='last'),
    'walkers': dict(n_walkers=1),
    'nowalkers': dict(n_walkers=0),
    'thin': dict(thin=0),
    'burn': dict(n_burn=-50),
    'cond': dict(cond_max=0),
    'condnan': dict(cond_max=float('nan')),
    'option': dict(no_such_option=1),
    'state': dict(random_state='seed'),
    'kelvin': dict(temperature=0),
    'kelvinless': dict(temperature=None),
    'kelvintext': dict(temperature='300'),
}
CHUNK = 24


class Interrupt(KeyboardInterrupt):
    pass


class Fault(RuntimeError):
    pass


EXC = {'interrupt': Interrupt, 'error': Fault}


def make(kind):
    return Z.build(kind, F=12, mobile=2, charge=2)


def do_fit(kind, a, name, **over):
    i, temperature, seed, kw = FITS[name]
    kw = {**BASE, **kw, 'random_state': np.random.RandomState(seed), **over}
    start = kw.pop('start', a.dt[i])
    if isinstance(start, str):
        start = a.dt[-1]
    Z.fit(kind, a, start, kw.pop('temperature', temperature), **kw)


def other(kind, a, name, d):
    if name == 'ppd':
        np.random.seed(4)
        a.posterior_predictive({'n_posterior_samples': 3, 'n_predictive_samples': 2, 'progress': False})
    elif name == 'save':
        a.save(os.path.join(d, 'x'))
    elif name == 'dict':
        type(a).from_dict(a.to_dict())


def faulty(call, n, exc):
    """Run the call with an exception at the n-th line the package executes; (events seen, what was raised)."""
    from .. import kin
    root = os.path.dirname(os.path.abspath(kin.diffusion.__file__)) + os.sep
    seen = [0]
    mine = {}

    def local(frame, event, arg):
        if event == 'line':
            seen[0] += 1
            if seen[0] == n:
                raise exc('injected')
        return local

    def tracer(frame, event, arg):
        code = frame.f_code
        ok = mine.get(code)
        if ok is None:
            ok = mine[code] = os.path.abspath(code.co_filename).startswith(root)
        return local if ok else None

    raised = None
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        old = sys.gettrace()
        sys.settrace(tracer)
        try:
            call()
        except (Exception, KeyboardInterrupt) as e:
            raised = e
        finally:
            sys.settrace(old)
    return seen[0], raised


class C24(Check):
    id = 'C24'
    technique = ('fault injection at every line the package executes during a fit, on the real code, after every short fit history; '
                 'the model has two states, the earlier fit and the new one')
    rule = ('every (analyzer, earlier fit, fit) with an interrupt or an error at each of the executed lines in turn, then the state and '
            'the repeated fit; every unsuitable argument; a state is the complete report after the fault')
    bounds = {'quick': 'interrupts and errors at every executed line of five pairs of an earlier fit or none and a fit, and of predictive '
                       'draws, saving and export; 15 unsuitable arguments',
              'thorough': 'interrupts and errors at every line for four fits after each of two others or none'}
    assumptions = ['a fault inside a library call surfaces where the package called it',
                   'one fault at a time: none while an earlier one is being handled']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase  # noqa: F401
        import h5py  # noqa: F401
        A.fast_distributions()
        self.want, self.lines = {}, {}
        for kind in 'DJS':
            self.want[kind, None] = state(kind, make(kind))
            for f in FITS:
                a = make(kind)
                do_fit(kind, a, f)
                self.want[kind, f] = state(kind, a)
                b = make(kind)
                self.lines[kind, f], e = faulty(lambda: do_fit(kind, b, f), -1, Fault)
                assert e is None, e
            for op in ('ppd', 'save', 'dict'):
                with tempfile.TemporaryDirectory() as d:
                    self.lines[kind, op], e = faulty(lambda: other(kind, a, op, d), -1, Fault)
                assert e is None, e

    def cases(self, tier):
        full = tier == 'thorough'
        for kind in 'DJS':
            for before in HISTORIES:
                for f in (FITS if full else {None: 'b', 'a': 'bd', 'b': 'a'}[before]):
                    if f == before:
                        continue
                    for exc in EXC:
                        if exc == 'error' and not full and f == 'd':
                            continue
                        # a margin beyond the counted lines: the faults that never fire end the case
                        for lo in range(1, self.lines[kind, f] + 2 * CHUNK, CHUNK):
                            yield dict(kind=kind, before=before, fit=f, exc=exc, lo=lo)
                for bad in BAD:
                    yield dict(kind=kind, before=before, bad=bad)
                for op in ('ppd', 'save', 'dict'):
                    if before is None and op == 'ppd':
                        continue
                    for exc in EXC:
                        for lo in range(1, self.lines[kind, op] + 2 * CHUNK, CHUNK):
                            yield dict(kind=kind, before=before, op=op, exc=exc, lo=lo)

    def start(self, case):
        a = make(case['kind'])
        if case['before']:
            do_fit(case['kind'], a, case['before'])
        return a

    def run(self, case, ctx):
        kind, before = case['kind'], case['before']
        if 'bad' in case:
            return self.rejected(case, ctx)
        for n in range(case['lo'], case['lo'] + CHUNK):
            a = self.start(case)
            with tempfile.TemporaryDirectory() as d:
                call = (lambda: do_fit(kind, a, case['fit'])) if 'fit' in case else (lambda: other(kind, a, case['op'], d))
                seen, raised = faulty(call, n, EXC[case['exc']])
            ctx.op()
            if seen < n:
                if raised is not None:
                    raise Violation(f'{case}: raised {raised!r} without a fault')
                break
            got = state(kind, a)
            ctx.trace()
            where = f'{case} fault at line event {n}'
            allowed = [before]
            if 'fit' in case:
                # once everything is in place, the new fit is complete
                allowed = [before, case['fit']] if raised is not None else [case['fit']]
            diffs = [Z.same(self.want[kind, x], got) for x in allowed]
            ctx.state(kind, before, case.get('fit'), diffs.index(None) if None in diffs else -1)
            if None not in diffs:
                raise Violation(f'{where}: the analyzer is left with neither the earlier nor the new results ({diffs[0]})')
            if 'fit' in case:
                do_fit(kind, a, case['fit'])
                ctx.op()
                bad = Z.same(self.want[kind, case['fit']], state(kind, a))
                if bad:
                    raise Violation(f'{where}: the repeated fit differs from an undisturbed one: {bad}')

    def rejected(self, case, ctx):
        kind, before = case['kind'], case['before']
        for f in FITS:
            a = self.start(case)
            over = dict(BAD[case['bad']])
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    do_fit(kind, a, f, **over)
            except Exception as e:
                name = type(e).__name__
            else:
                ctx.state(kind, before, case['bad'], f, 'accepted')
                continue
            ctx.op()
            ctx.trace()
            ctx.state(kind, before, case['bad'], f, name)
            bad = Z.same(self.want[kind, before], state(kind, a))
            if bad:
                raise Violation(f'{case} fit {f} with {over}: raised {name} but changed the analyzer: {bad}')


CHECK = C24()
