"""C17: an interrupted save is never restored as a shortened analyzer."""
import os
import resource
import shutil
import tempfile
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import analyzers as Z
from .c16 import in_child


class Faulty:
    """
    A real file behind h5py whose k-th write ends the process (after `part` of its bytes) or fails from then on.
    """

    def __init__(self, path, plan):
        self.f = open(path, 'w+b', buffering=0)
        self.plan = plan

    def read(self, n=-1):
        return self.f.read(n)

    def readinto(self, b):
        return self.f.readinto(b)

    def seek(self, o, w=0):
        return self.f.seek(o, w)

    def tell(self):
        return self.f.tell()

    def flush(self):
        self.f.flush()

    def truncate(self, n=None):
        self.plan.event(lambda part: None)
        return self.f.truncate(n)

    def write(self, b):
        self.plan.event(lambda part: self.f.write(bytes(b)[:int(len(b) * part)]))
        return self.f.write(b)


class Plan:
    """Counts events; at event number k does what the mode says."""

    def __init__(self, k=None, mode=None, part=0.0):
        self.k, self.mode, self.part = k, mode, part
        self.n = 0
        self.file = None

    def event(self, partial=None):
        n = self.n
        self.n += 1
        if self.k is None or n < self.k:
            return
        if self.mode == 'die' and n == self.k:
            if partial:
                partial(self.part)
            os._exit(77)
        if self.mode == 'flushdie' and n == self.k:
            if self.file is not None:
                self.file.flush()
            os._exit(77)
        if self.mode == 'oserror' and n == self.k:
            raise OSError(28, 'No space left on device')
        if self.mode == 'full':
            raise OSError(28, 'No space left on device')
        if self.mode == 'interrupt' and n == self.k:
            raise KeyboardInterrupt()


def instrument(plan, level):
    """Put the plan into h5py: at the level of its write calls or of the bytes it writes."""
    import h5py
    init = h5py.File.__init__

    def new_init(self, name, mode='r', *a, **k):
        if mode != 'r' and isinstance(name, (str, bytes, os.PathLike)):
            if level == 'bytes':
                if mode in ('x', 'w-') and os.path.exists(name):
                    raise FileExistsError(name)
                init(self, Faulty(name, plan), 'w', *a, **k)
            else:
                init(self, name, mode, *a, **k)
            plan.file = self
            return
        init(self, name, mode, *a, **k)

    h5py.File.__init__ = new_init
    if level == 'bytes':
        return
    for cls, names in ((h5py.Group, ('__setitem__', 'create_dataset', 'create_group', 'require_group', 'require_dataset')),
                       (h5py.Dataset, ('__setitem__', 'resize', 'write_direct')), (h5py.AttributeManager, ('__setitem__', 'create'))):
        for n in names:
            if not hasattr(cls, n):
                continue

            def wrap(orig):

                def f(self, *a, **k):
                    plan.event()
                    r = orig(self, *a, **k)
                    plan.event()
                    return r

                return f

            setattr(cls, n, wrap(getattr(cls, n)))


STAGES = ('new', 'fit', 'noicpt', 'boot')


class C17(Check):
    id = 'C17'
    level = 'fault_enumeration'
    technique = ('enumeration of every fault point of a save (each h5py call and each byte-level write, torn writes included) with '
                 'errors and abrupt process ends on the real code, then the real load')
    rule = ('analyzer x stage x level (h5py calls, raw writes) x every event number x fault (error, interrupt, process end, end '
            'after flushing, full disk, torn write); a state is one outcome of load with the surviving file')
    bounds = {'quick': 'every h5py call with an error, strides 3 to 7 for the other faults; raw writes with strides 4 to 25, always including the last 8 events; '
                       'four times the stride for two stages of two analyzers',
              'thorough': 'all h5py calls with 4 faults, every raw write with 5 faults'}
    assumptions = ['a process end leaves exactly the bytes handed to the operating system (no reordering of writes by the kernel)']
    chunk = 1

    def setup(self):
        from .. import kin  # noqa: F401
        import ase  # noqa: F401
        import h5py  # noqa: F401
        A.fast_distributions()
        self.an, self.rep, self.count = {}, {}, {}
        for kind in 'DJS':
            for stage in STAGES:
                o = {}
                if stage == 'boot':
                    o = dict(bootstrap=True, n_resamples=9, max_resamples=9, random_state=np.random.RandomState(1))
                a = Z.build(kind, F=6 if kind == 'D' else 10, mobile=2, **o)
                if stage in ('fit', 'noicpt'):
                    Z.fit(kind, a, a.dt[0], fit_intercept=stage == 'fit', random_state=np.random.RandomState(3), **A.TINY)
                self.an[kind, stage] = a
                self.rep[kind, stage] = Z.report(kind, a)
                for level in ('calls', 'bytes'):

                    def count():
                        plan = Plan()
                        instrument(plan, level)
                        with tempfile.TemporaryDirectory() as d:
                            a.save(os.path.join(d, 'x'))
                        return str(plan.n)

                    code, text = in_child(count)
                    if code:
                        raise RuntimeError(f'saving the {kind} analyzer ({stage}) failed: {text}')
                    self.count[kind, stage, level] = int(text)

    def cases(self, tier):
        full = tier == 'thorough'
        size = 12
        # (level, fault, torn part, stride in the quick tier)
        faults = [('calls', 'oserror', 0, 1), ('calls', 'flushdie', 0, 3), ('calls', 'interrupt', 0, 5), ('calls', 'die', 0, 7),
                  ('bytes', 'die', 0.0, 4), ('bytes', 'die', 0.5, 9), ('bytes', 'oserror', 0, 9), ('bytes', 'full', 0, 25),
                  ('bytes', 'die', 0.9, 25)]
        for kind in 'DJS':
            for stage in STAGES:
                for level, mode, part, stride in faults:
                    n = self.count[kind, stage, level]
                    if full:
                        stride = 1
                    elif kind != 'D' and stage in ('noicpt', 'boot'):
                        stride *= 4
                    # the last events, where the file becomes complete, are never skipped
                    pts = sorted(set(range(0, n, stride)) | set(range(max(0, n - (8 if stride < 20 else 2)), n)))
                    for i in range(0, len(pts), size):
                        yield dict(kind=kind, stage=stage, level=level, mode=mode, part=part, points=pts[i:i + size])

    def run(self, case, ctx):
        from .. import kin
        kind, stage = case['kind'], case['stage']
        a = self.an[kind, stage]
        want = self.rep[kind, stage]
        for k in case['points']:
            d = tempfile.mkdtemp(prefix='kcheck-c17-')
            try:
                other = os.path.join(d, 'other.hdf')
                with open(other, 'wb') as f:
                    f.write(b'another file')
                path = os.path.join(d, 'x')

                def save():
                    instrument(Plan(k, case['mode'], case['part']), case['level'])
                    a.save(path)
                    os._exit(5)

                code, text = in_child(save)
                ctx.op()

                def load():
                    # a torn file can claim to hold any number of bytes
                    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                    try:
                        b = kin.ANALYZERS[kind].load(path)
                        got = Z.report(kind, b)
                    except Exception as e:
                        return f'error {type(e).__name__}'
                    return f'loaded {Z.same(want, got) or "complete"}'

                rc, res = in_child(load)
                ctx.op()
                ctx.trace()
                if rc != 0:
                    res = f'error exit {rc}'
                ctx.state(case['kind'], stage, case['level'], case['mode'], k, code, res,
                          os.path.exists(path + '.hdf') and os.path.getsize(path + '.hdf'))
                ctx.add(res if res == 'loaded complete' else res.split()[0])
                with open(other, 'rb') as f:
                    if f.read() != b'another file':
                        raise Violation(f'{case} point {k}: another file was changed')
                if res.startswith('loaded') and res != 'loaded complete':
                    raise Violation(f'{kind} analyzer ({stage}): save interrupted ({case["mode"]}) at event {k} of '
                                    f'{self.count[kind, stage, case["level"]]} ({case["level"]}), yet it loads with different '
                                    f'contents: {res[7:]}')
                if code == 5 and not res.startswith('loaded'):
                    raise Violation(f'{case} point {k}: the save reported success but the file does not load: {res}')
            finally:
                shutil.rmtree(d, ignore_errors=True)


CHECK = C17()
