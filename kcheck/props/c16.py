"""C16: saving writes only the named file and never overwrites one."""
import hashlib
import itertools
import os
import shutil
import signal
import sys
import tempfile
import numpy as np
from ..runtime import Check, Violation
from .. import arrays as A
from .. import analyzers as Z

# name given by the user -> file that belongs to it (relative to the scratch directory; ABS is made absolute)
NAMES = {
    'x': 'x.hdf',
    'x.hdf': 'x.hdf',
    'x.dat': 'x.hdf',
    './x.h5': 'x.hdf',
    'x.y.hdf': 'x.y.hdf',
    'x.y.z': 'x.y.hdf',
    'a.b/x': 'a.b/x.hdf',
    'a.b/x.json': 'a.b/x.hdf',
    'plain/x': 'plain/x.hdf',
    'plain/../x': 'x.hdf',
    'v1.2/deep.er/run': 'v1.2/deep.er/run.hdf',
    'ABS/a.b/x.txt': 'a.b/x.hdf',
    'ABS/x': 'x.hdf',
}
FILES = ['x.hdf', 'x.y.hdf', 'a.b/x.hdf', 'plain/x.hdf', 'v1.2/deep.er/run.hdf']
FOREIGN = ['x', 'x.dat', 'x.y', 'a', 'a.hdf', 'v1.hdf', 'v1', 'notes.txt', 'a.b/x.bak', 'plain/other.hdf', 'x.hdf.hdf', 'x.dat.hdf',
           'x.hdf.tmp', 'v1.2/deep.hdf']
CONTENTS = [None, 'A', 'B', 'T']  # absent, two saved analyzers, a text file of the user


def tree(root):
    out = {}
    for d, sub, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            if not os.path.exists(p):  # a link to nothing
                out[os.path.relpath(p, root)] = 'link'
                continue
            with open(p, 'rb') as h:
                out[os.path.relpath(p, root)] = hashlib.sha1(h.read()).hexdigest()
        for s in sub:
            out[os.path.relpath(os.path.join(d, s), root) + '/'] = 'dir'
    return out


RIVALS = {  # what another process does while this one is saving A as x.hdf: (file before, its action)
    'save': (None, 'save'),
    'text': (None, 'text'),
    'hdf': (None, 'hdf'),
    'empty': (None, 'empty'),
    'load': (None, 'load'),
    'loadold': ('B', 'load'),
    'saveold': ('B', 'save'),
    'delete': ('B', 'delete'),
}


class Steps:
    """Counts the line events of a call and calls back at one of them (the place at which another process gets its turn)."""

    def __init__(self, at=None, then=None):
        self.n = 0
        self.at, self.then = at, then
        self.places = []

    def trace(self, frame, event, arg):
        if event == 'line':
            if self.at is None:
                self.places.append((frame.f_code.co_filename, frame.f_lineno))
            elif self.n == self.at:
                self.at = -1
                sys.settrace(None)
                self.then()
                sys.settrace(self.trace)
            self.n += 1
        return self.trace

    def run(self, fn):
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            fn()
        finally:
            sys.settrace(old)


def in_child(fn):
    """Run fn in a forked process; (exit code, text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            import signal
            signal.alarm(60)
            os.close(r)
            out = fn() or ''
            os.write(w, out.encode()[:60000])
            os._exit(0)
        except BaseException as e:
            os.write(w, repr(e).encode()[:2000])
            os._exit(3)
    os.close(w)
    buf = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        buf += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st), buf.decode(errors='replace')


class C16(Check):
    id = 'C16'
    technique = ('explicit-state exploration of the file system states reachable by save, load and delete, every operation from '
                 'every state on the real code, plus all operation sequences up to a depth')
    rule = ('states: contents (absent, analyzer A, analyzer B, foreign text) of 5 target files; operations: save A or B and load '
            'under 13 names; whole directory tree compared before and after; all sequences of operations up to the depth; 12 kinds '
            'of obstacles (links, directories, empty and broken files) and 18 similar names x 5 names; two processes: another '
            'process saves, writes, loads or deletes the file at every preemption point (source line) of a save, and two saves '
            'preempted at every pair of points up to the creation of the file')
    bounds = {'quick': '4^5 states, 39 operations each (stride 7 over states with more than two files); sequences of length 3 over '
                       '10 operations; preemption points: every distinct line, and every line event of the last 40 (pairs: 30) '
                       'before the file appears',
              'thorough': '4^5 states, 39 operations each; sequences of length 4 over 10 operations; preemption points: every line '
                          'event up to the creation of the file and every distinct line after it'}
    assumptions = ['another process acts between two source lines of the saving process, not inside a call into h5py',
                   'directories named by the user exist']

    def setup(self):
        from .. import kin  # noqa: F401
        import ase  # noqa: F401
        import h5py  # noqa: F401
        A.fast_distributions()
        os.environ['HOME'] = '/nonexistent'  # where a name like ~/n must not go
        self.an = {'A': Z.build('D', F=5, mobile=2, framework=0), 'B': Z.build('D', F=6, mobile=2, framework=0, cell='tric')}
        self.rep = {k: Z.report('D', a) for k, a in self.an.items()}
        self.bytes = {'T': b'a file of the user', 'E': b''}
        with tempfile.TemporaryDirectory() as d:  # an HDF5 file of somebody else
            with h5py.File(os.path.join(d, 'h'), 'w') as h:
                h['notes'] = np.arange(5.0)
            with open(os.path.join(d, 'h'), 'rb') as f:
                self.bytes['H'] = f.read()
        for k, a in self.an.items():
            with tempfile.TemporaryDirectory() as d:
                a.save(os.path.join(d, 'f'))
                got = os.listdir(d)
                if got != ['f.hdf']:
                    raise RuntimeError(f'saving under "f" wrote {got}')
                with open(os.path.join(d, 'f.hdf'), 'rb') as f:
                    self.bytes[k] = f.read()

    def cases(self, tier):
        full = tier == 'thorough'
        i = 0
        for st in itertools.product(range(4), repeat=len(FILES)):
            if sum(1 for s in st if s) > 2:
                i += 1
                if not full and i % 7:
                    continue
            yield dict(state=st)
        ops = [('save', 'A', 'x'), ('save', 'B', 'x.dat'), ('save', 'B', 'a.b/x'), ('save', 'A', 'ABS/a.b/x.txt'),
               ('load', None, 'x.hdf'), ('load', None, 'a.b/x.json'), ('delete', None, 'x.hdf'), ('delete', None, 'a.b/x.hdf'),
               ('save', 'B', 'x.y.z'), ('load', None, 'x.y.hdf')]
        for first in itertools.product(ops, repeat=2):
            yield dict(seq=first, rest=2 if full else 1, ops=ops)
        yield dict(classes=True)
        yield dict(odd=True)
        for other in RIVALS:
            for part in range(4):
                yield dict(race=other, part=part, of=4, near=10**9 if full else 40)
        for part in range(16):
            yield dict(race='both', part=part, of=16, near=10**9 if full else 30)

    # --- one operation on the real code, checked against the model

    def prepare(self, root, model):
        for d in ('a.b', 'plain', 'v1.2', 'v1.2/deep.er'):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for f in FOREIGN:
            with open(os.path.join(root, f), 'wb') as h:
                h.write(b'foreign ' + f.encode())
        for f, c in model.items():
            if c is not None:
                with open(os.path.join(root, f), 'wb') as h:
                    h.write(self.bytes[c])

    def apply(self, ctx, root, model, op, desc):
        from .. import kin
        kind, which, name = op
        target = NAMES[name] if kind != 'delete' else name
        given = name if not name.startswith('ABS/') else os.path.join(root, name[4:])
        before = tree(root)
        ctx.op()
        ctx.trace()
        if kind == 'delete':
            if model[target] is not None:
                os.remove(os.path.join(root, target))
                model[target] = None
            return
        if kind == 'save':
            err = None
            try:
                self.an[which].save(given)
            except Exception as e:
                err = e
            after = tree(root)
            if model[target] is not None:
                if not isinstance(err, ValueError):
                    raise Violation(f'{desc}: saving over the existing {target} {"raised " + repr(err) if err else "succeeded"}')
                if after != before:
                    raise Violation(f'{desc}: refused saving changed {self.changes(before, after)}')
                return
            if err is not None:
                raise Violation(f'{desc}: saving as {name} raised {err!r}')
            ch = self.changes(before, after)
            if ch != [('+', target)]:
                raise Violation(f'{desc}: saving as {name} must create {target} and nothing else, but changed {ch}')
            model[target] = which
            return
        err = got = None
        try:
            got = kin.DiffusionAnalyzer.load(given)
        except Exception as e:
            err = e
        after = tree(root)
        if after != before:
            raise Violation(f'{desc}: loading {name} changed {self.changes(before, after)}')
        if model[target] in ('A', 'B'):
            if err is not None:
                raise Violation(f'{desc}: loading {name} raised {err!r}')
            bad = Z.same(self.rep[model[target]], Z.report('D', got))
            if bad:
                raise Violation(f'{desc}: loading {name} does not return the analyzer saved in {target}: {bad}')
        elif err is None:
            raise Violation(f'{desc}: loading {name} returned an analyzer though {target} is '
                            f'{"missing" if model[target] is None else "no saved analyzer"}')

    @staticmethod
    def changes(b, a):
        return sorted([('+', k) for k in a if k not in b] + [('-', k) for k in b if k not in a] +
                      [('*', k) for k in a if k in b and a[k] != b[k]])

    def run(self, case, ctx):
        old = os.getcwd()
        top = tempfile.mkdtemp(prefix='kcheck-c16-')
        try:
            if 'classes' in case:
                return self.classes(top, ctx)
            if 'odd' in case:
                return self.odd(top, ctx)
            if 'race' in case:
                (self.races if case['race'] in RIVALS else self.double)(case, ctx, top)
            elif 'state' in case:
                self.from_state(case, ctx, top)
            else:
                self.sequences(case, ctx, top)
        finally:
            os.chdir(old)
            shutil.rmtree(top, ignore_errors=True)

    def from_state(self, case, ctx, top):
        base = {f: CONTENTS[c] for f, c in zip(FILES, case['state'])}
        ctx.state(sorted(base.items(), key=str))
        root = os.path.join(top, 'work')
        os.makedirs(root)
        os.chdir(root)
        self.prepare(root, base)
        for op in itertools.chain((('load', None, n) for n in NAMES), (('save', w, n) for w in 'AB' for n in NAMES)):
            model = dict(base)
            self.apply(ctx, root, model, op, f'from state {base}')
            for f in FILES:
                if model[f] != base[f]:
                    ctx.state(sorted(model.items(), key=str))
                    os.remove(os.path.join(root, f))

    # --- two processes at once

    def points(self, top, full, near=10**9):
        """The preemption points of a save: every line run (or the last ones) before the file appears, else every distinct line."""
        d = os.path.join(top, 'count')
        out = []
        for _ in range(2):  # the first run imports modules
            os.makedirs(d)
            st = Steps()
            made = []
            watch = st.trace

            def trace(frame, event, arg):
                if event == 'line' and not made and os.listdir(d):
                    made.append(st.n)
                watch(frame, event, arg)
                return trace

            st.trace = trace
            st.run(lambda: self.an['A'].save(os.path.join(d, 'x')))
            shutil.rmtree(d)
        made = made[0] if made else st.n
        seen = {}
        for i, p in enumerate(st.places):
            if made - near <= i <= made or (full and p not in seen):
                out.append(i)
            seen[p] = i
        return out, made

    def races(self, case, ctx, top):
        from .. import kin
        start, act = RIVALS[case['race']]
        pts, _ = self.points(top, True, case['near'])
        for k in pts[case['part']::case['of']]:
            root = os.path.join(top, f'r{k}')
            os.makedirs(root)
            os.chdir(root)
            target = os.path.join(root, 'x.hdf')
            with open(os.path.join(root, 'other.txt'), 'w') as f:
                f.write('other')
            if start:
                with open(target, 'wb') as f:
                    f.write(self.bytes[start])
            told = []

            def rival():
                def child():
                    if act in ('text', 'hdf', 'empty'):
                        try:
                            with open(target, 'xb') as f:
                                f.write(self.bytes[{'text': 'T', 'hdf': 'H', 'empty': 'E'}[act]])
                            return 'done'
                        except OSError:
                            return 'refused'
                    if act == 'delete':
                        os.remove(target)
                        return 'done'
                    try:
                        if act == 'save':
                            self.an['B'].save('x.dat')
                            return 'done'
                        return 'got ' + next((w for w in 'AB' if not Z.same(self.rep[w], Z.report('D', got))), 'neither') \
                            if (got := kin.DiffusionAnalyzer.load('x')) is not None else ''
                    except Exception as e:
                        return 'refused ' + repr(e)[:200]

                told.append(in_child(child)[1])
                told.append(self.content(target))

            err = None
            try:
                Steps(k, rival).run(lambda: self.an['A'].save('x'))
            except Exception as e:
                err = e
            ctx.op(2)
            ctx.trace()
            if not told:
                rival()
            desc = f'saving as x while another process does {case["race"]} at step {k} ({told[0]})'
            end = self.content(target)
            ctx.state(case['race'], told[0][:4], type(err).__name__, end[:1] if end else None)
            left = sorted(os.listdir(root))
            if left not in (['other.txt'], ['other.txt', 'x.hdf']) or self.content('other.txt') != b'other':
                raise Violation(f'{desc}: leaves {left}')
            done = told[0] == 'done'
            if act in ('save', 'text', 'hdf', 'empty') and done and not start:
                if err is None or end != told[1]:
                    raise Violation(f'{desc}: the file just written by the other process was '
                                    f'{"overwritten" if end != told[1] else "kept, but no error raised"}')
            elif act == 'delete':
                if err is None:
                    self.holds(target, 'A', desc)
                elif end is not None:
                    raise Violation(f'{desc}: a file is left though saving raised {err!r}')
            elif start:
                if not isinstance(err, ValueError) or end != self.bytes[start]:
                    raise Violation(f'{desc}: the existing file {"was changed" if end != self.bytes[start] else f"gave {err!r}"}')
                if act == 'load' and told[0] != 'got B' or act == 'save' and done:
                    raise Violation(f'{desc}: the other process must not be affected')
            else:
                if err is not None:
                    raise Violation(f'{desc}: saving raised {err!r}')
                self.holds(target, 'A', desc)
                if act == 'load' and told[0].startswith('got') and told[0] != 'got A':
                    raise Violation(f'{desc}: loading returned something that was never saved')
            os.chdir(top)
            shutil.rmtree(root)

    @staticmethod
    def content(path):
        if not os.path.lexists(path):
            return None
        with open(path, 'rb') as f:
            return f.read()

    def holds(self, target, which, desc):
        from .. import kin
        try:
            got = kin.DiffusionAnalyzer.load(target)
        except Exception as e:
            raise Violation(f'{desc}: the file cannot be loaded afterwards: {e!r}')
        bad = Z.same(self.rep[which], Z.report('D', got))
        if bad:
            raise Violation(f'{desc}: the file does not hold what was saved successfully: {bad}')

    def double(self, case, ctx, top):
        """A runs to step i, then B to step j, then A to its end, then B to its end; only steps up to the creation of the file."""
        pts, _ = self.points(top, False, case['near'])
        pairs = list(itertools.product(pts, repeat=2))
        for i, j in pairs[case['part']::case['of']]:
            root = os.path.join(top, f'd{i}-{j}')
            os.makedirs(root)
            os.chdir(root)
            target = os.path.join(root, 'x.hdf')
            here, there = os.pipe(), os.pipe()
            pid = []

            def start_b():
                p = os.fork()
                if p:
                    pid.append(p)
                    os.close(here[1])
                    os.close(there[0])
                    os.read(here[0], 1)  # B stands at step j, or has ended
                    return
                code = 3
                try:
                    signal.alarm(60)
                    os.close(here[0])
                    os.close(there[1])

                    def stop():
                        os.write(here[1], b'.')
                        os.read(there[0], 1)

                    try:
                        Steps(j, stop).run(lambda: self.an['B'].save('x.dat'))
                        code = 0
                    except Exception:
                        code = 1
                finally:
                    os._exit(code)

            err = None
            try:
                Steps(i, start_b).run(lambda: self.an['A'].save('x'))
            except Exception as e:
                err = e
            if not pid:
                start_b()
            os.close(there[1])
            st = os.waitstatus_to_exitcode(os.waitpid(pid[0], 0)[1])
            os.close(here[0])
            ctx.op(2)
            ctx.trace()
            desc = f'two processes saving as x, preempted at steps {i} and {j}'
            if st not in (0, 1):
                raise Violation(f'{desc}: the second process ended with {st}')
            won = ([] if err is not None else ['A']) + ([] if st else ['B'])
            ctx.state('both', won)
            for w in won:
                self.holds(target, w, desc + f' ({" and ".join(won)} succeeded)')
            if not won and self.content(target) is not None:
                raise Violation(f'{desc}: a file is left though both saves raised an error')
            left = os.listdir(root)
            if left not in ([], ['x.hdf']):
                raise Violation(f'{desc}: leaves {left}')
            os.chdir(top)
            shutil.rmtree(root)

    def sequences(self, case, ctx, top):
        for n, tail in enumerate(itertools.product(case['ops'], repeat=case['rest'])):
            root = os.path.join(top, f'work{n}')
            os.makedirs(root)
            os.chdir(root)
            model = {f: None for f in FILES}
            self.prepare(root, model)
            hist = []
            for op in list(case['seq']) + list(tail):
                hist.append(op)
                self.apply(ctx, root, model, tuple(op), f'history {hist}')
            ctx.state(sorted(model.items(), key=str))
            os.chdir(top)
            shutil.rmtree(root)

    def classes(self, top, ctx):
        """The three analyzers alike, saved twice under several names."""
        from .. import kin
        for kind in 'DJS':
            root = os.path.join(top, kind)
            os.makedirs(os.path.join(root, 'a.b'))
            os.chdir(root)
            a = Z.build(kind, F=8, mobile=2)
            for d in ('with space', 'UPPER.HDF', 'run.hdf', '.hidden', 'a.b/c.d', '~', '$HOME'):
                os.makedirs(os.path.join(root, d))
            for name, target in (('p', 'p.hdf'), ('a.b/q.x', 'a.b/q.hdf'), ('Run.HDF', 'Run.hdf'), ('run 300 K.out', 'run 300 K.hdf'),
                                 ('with space/n.1', 'with space/n.hdf'), ('UPPER.HDF/n', 'UPPER.HDF/n.hdf'), ('run.hdf/n', 'run.hdf/n.hdf'),
                                 ('.hidden/n.hdf5', '.hidden/n.hdf'), ('a.b/c.d/n', 'a.b/c.d/n.hdf'), ('T=300.5K.v2', 'T=300.5K.hdf'),
                                 ('x.hdf.bak', 'x.hdf.hdf'), ('m.hdf.hdf', 'm.hdf.hdf'), ('\u00e9t\u00e9.h', '\u00e9t\u00e9.hdf'),
                                 (' lead', ' lead.hdf'), ('trail ', 'trail .hdf'), ('ta il.h5 ', 'ta il.hdf'), ('t\tab', 't\tab.hdf'),
                                 ('plus+%s~.q', 'plus+%s~.hdf'), ('-dash', '-dash.hdf'), ('*', '*.hdf'), ('x..', 'x..hdf'),
                                 ('$HOME', '$HOME.hdf'), ('~', '~.hdf'), ('~/n', '~/n.hdf'), ('$HOME/n.x', '$HOME/n.hdf'), ('~/p.q.r', '~/p.q.hdf'),
                                 ('hdf', 'hdf.hdf'), ('xhdf', 'xhdf.hdf'), ('.dot', '.dot.hdf'), ('l' * 200, 'l' * 200 + '.hdf')):
                if name not in ('p', 'a.b/q.x') and kind != 'D':
                    continue
                before = tree(root)
                a.save(name)
                ch = self.changes(before, tree(root))
                ctx.op(2)
                ctx.trace()
                if ch != [('+', target)]:
                    raise Violation(f'{kind}: saving as {name} changed {ch}')
                mid = tree(root)
                try:
                    a.save(target)
                    raise Violation(f'{kind}: {target} was overwritten')
                except ValueError:
                    pass
                if tree(root) != mid:
                    raise Violation(f'{kind}: refused saving changed {self.changes(mid, tree(root))}')
                bad = Z.same(Z.report(kind, a), Z.report(kind, kin.ANALYZERS[kind].load(name)))
                if bad:
                    raise Violation(f'{kind}: loading {name}: {bad}')
                if name not in ('p', 'a.b/q.x'):
                    continue
                # loading needs no right to change anything
                for d, _, files in os.walk(top):
                    os.chmod(d, 0o555)
                    for f in files:
                        os.chmod(os.path.join(d, f), 0o444)
                os.chmod(top, 0o555)

                def unprivileged():
                    try:
                        os.setgroups([])
                        os.setgid(65534)
                        os.setuid(65534)
                        with open(target, 'rb') as f:
                            f.read()
                    except OSError:
                        return 'unable'
                    try:
                        with open(target, 'ab'):
                            return 'unable'
                    except OSError:
                        pass
                    return Z.same(Z.report(kind, a), Z.report(kind, kin.ANALYZERS[kind].load(name))) or 'same'

                code, text = in_child(unprivileged)
                for d, _, files in os.walk(top):
                    os.chmod(d, 0o755)
                ctx.op()
                ctx.trace()
                ctx.add('read-only ' + (text if text in ('unable', 'same') else 'failed'))
                if code or text not in ('unable', 'same'):
                    raise Violation(f'{kind}: loading the read-only file {target} without write permission: {text}')

    def odd(self, top, ctx):
        """Something other than a plain non-empty file stands where the file would go, or a file of a similar name exists."""
        from .. import kin

        def look(root):
            out = tree(root)
            for d, sub, files in os.walk(root):
                for f in sub + files:
                    p = os.path.join(d, f)
                    st = os.lstat(p)
                    out['mode ' + os.path.relpath(p, root)] = (st.st_mode, os.readlink(p) if os.path.islink(p) else None, st.st_nlink)
            return out

        def file(p, b):
            with open(p, 'wb') as f:
                f.write(b)

        there = {  # obstacle at x.hdf -> (how it is made, error demanded, loads as)
            'empty': (lambda: file('x.hdf', b''), ValueError, None),
            'newline': (lambda: file('x.hdf', b'\n'), ValueError, None),
            'truncated': (lambda: file('x.hdf', self.bytes['A'][:700]), ValueError, None),
            'readonly': (lambda: (file('x.hdf', self.bytes['B']), os.chmod('x.hdf', 0o444)), ValueError, 'B'),
            'link': (lambda: (file('real', self.bytes['B']), os.symlink('real', 'x.hdf')), ValueError, 'B'),
            'link away': (lambda: (file('plain/y.hdf', self.bytes['A']), os.symlink('plain/y.hdf', 'x.hdf')), ValueError, 'A'),
            'link text': (lambda: (file('real', b'text'), os.symlink('real', 'x.hdf')), ValueError, None),
            'hard link': (lambda: (file('real', self.bytes['B']), os.link('real', 'x.hdf')), ValueError, 'B'),
            'directory': (lambda: os.mkdir('x.hdf'), ValueError, None),
            'link to directory': (lambda: os.symlink('plain', 'x.hdf'), ValueError, None),
            'dangling link': (lambda: os.symlink('nowhere', 'x.hdf'), Exception, None),
            'circular link': (lambda: os.symlink('x.hdf', 'x.hdf'), Exception, None),
        }
        for what, (make, error, loads) in there.items():
            for name in ('x', 'x.hdf', 'x.dat', 'plain/../x', './x'):
                root = os.path.join(top, what, name.replace('/', '_'))
                os.makedirs(os.path.join(root, 'plain'))
                os.chdir(root)
                make()
                before = look(root)
                for kind in ('load', 'save', 'save', 'load'):
                    err = got = None
                    try:
                        if kind == 'save':
                            self.an['A'].save(name)
                        else:
                            got = kin.DiffusionAnalyzer.load(name)
                    except Exception as e:
                        err = e
                    ctx.op()
                    ctx.trace()
                    ctx.state(what, name, kind, type(err).__name__)
                    desc = f'{kind} under the name {name} where x.hdf is {what}'
                    if look(root) != before:
                        raise Violation(f'{desc}: changed {self.changes(before, look(root))}')
                    if kind == 'save' and not isinstance(err, error):
                        raise Violation(f'{desc}: {"raised " + repr(err) if err else "succeeded"}')
                    if kind == 'load' and loads is None and err is None:
                        raise Violation(f'{desc}: returned an analyzer')
                    if kind == 'load' and loads is not None:
                        bad = repr(err) if err is not None else Z.same(self.rep[loads], Z.report('D', got))
                        if bad:
                            raise Violation(f'{desc}: {bad}')
        # only files of similar names exist: loading finds nothing, saving succeeds and leaves them alone
        for other in ('RUN.hdf', 'Run.hdf', 'run.hdf', 'run', 'run.h5', 'run.hdf5', 'run.HDF', ' run.hdf', 'run .hdf', 'run.hdf.hdf', 'run.hdf.bak',
                      'plain/run.hdf', '../run.hdf', 'run/run.hdf', '.run.hdf', 'run_.hdf', 'run.hdf~', 'hdf', '.hdf'):
            for name, made in [(n, 'run') for n in ('run', 'run.hdf', 'run.h5', 'run.HDF', './run')] + \
                    [(n, m) for n, m in (('RUN', 'RUN'), ('Run.dat', 'Run'), ('runs', 'runs')) if other != m + '.hdf']:
                if other == 'run.hdf' and made == 'run':
                    continue
                root = os.path.join(top, 'similar', other.replace('/', '_'), name.replace('/', '_'), 'work')
                os.makedirs(os.path.join(root, 'plain'))
                os.chdir(root)
                os.makedirs(os.path.dirname(os.path.join(root, other)), exist_ok=True)
                file(other, self.bytes['B'])
                before = tree(os.path.dirname(root))
                desc = f'only {other} exists; name {name}'
                ctx.op(3)
                ctx.trace()
                ctx.state(other, name)
                try:
                    kin.DiffusionAnalyzer.load(name)
                except Exception:
                    pass
                else:
                    raise Violation(f'{desc}: loading returned an analyzer')
                if tree(os.path.dirname(root)) != before:
                    raise Violation(f'{desc}: loading changed something')
                try:
                    self.an['A'].save(name)
                except Exception as e:
                    raise Violation(f'{desc}: saving raised {e!r}')
                ch = self.changes(before, tree(os.path.dirname(root)))
                if ch != [('+', f'work/{made}.hdf')]:
                    raise Violation(f'{desc}: saving changed {ch}')
                bad = Z.same(self.rep['A'], Z.report('D', kin.DiffusionAnalyzer.load(name)))
                if bad:
                    raise Violation(f'{desc}: loading afterwards: {bad}')


CHECK = C16()
