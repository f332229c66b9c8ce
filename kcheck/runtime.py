"""
Explorer runtime.

A check enumerates a finite space of cases completely (`cases`), runs the real kinisi code of /repo on every one
(`run`) and compares it with a reference model.  The runtime distributes the enumeration over processes, keeps the
counts that go into the evidence, turns the first (simplest) failing case into a replayable file, and reports.
Exit status: 0 (held on everything explored) or 1 with a VIOLATION line.
"""
import hashlib
import io
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('KC_EVIDENCE', os.path.join(ROOT, 'evidence'))
CASE_TIMEOUT = int(os.environ.get('KC_CASE_TIMEOUT', '300' if os.environ.get('VERIF_TIER') == 'thorough' else '120'))
JOBS = int(os.environ.get('KC_JOBS', str(os.cpu_count() or 1)))


class Violation(Exception):
    """The real code broke the property on this case."""


class Timeout(BaseException):
    """The real code did not come back."""


def digest(obj) -> int:
    """64-bit digest of an observation, for counting distinct states."""
    import numpy as np
    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        if isinstance(o, np.ndarray):
            h.update(str(o.shape).encode())
            if o.dtype.kind == 'f':
                with np.errstate(all='ignore'):
                    o = np.round(o.astype(float), 6) + 0.0
            h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            for k in sorted(o, key=str):
                h.update(str(k).encode())
                feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b'[')
            for x in o:
                feed(x)
            h.update(b']')
        else:
            h.update(repr(o).encode())

    feed(obj)
    return int.from_bytes(h.digest(), 'big')


class Ctx:
    """Counters of one worker."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.known = set()
        self.extra = {}

    def state(self, *obs):
        self.states.add(digest(obs))

    def op(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def add(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.known |= o.known
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


class Check:
    id = None
    level = 'model_checking'
    technique = ''
    rule = ''
    bounds = {}
    assumptions = []
    chunk = None

    def setup(self):
        """Imports and fixtures, in the parent process, before workers are forked."""

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case, ctx):
        raise NotImplementedError


def _alarm(signum, frame):
    raise Timeout()


def run_one(check, case, ctx):
    """Run one case.  Returns None or the description of the failure."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            check.run(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except Timeout:
        return f'no result within {CASE_TIMEOUT} s'
    except RecursionError as e:
        return f'unexpected {type(e).__name__}: {e}'
    except Exception as e:
        return f'unexpected {type(e).__name__}: {e}\n' + traceback.format_exc()
    finally:
        signal.alarm(0)
        sys.stdout, sys.stderr = out, err


def _run_chunk(check, start, chunk):
    ctx = Ctx()
    for i, case in enumerate(chunk):
        fail = run_one(check, case, ctx)
        if fail is not None:
            return start, i, fail, ctx
    return start, None, None, ctx


class Worker:
    """A forked process that runs chunks of cases; the parent has no threads, so that it can fork at any time."""

    def __init__(self, check, chunks, others):
        ctx = mp.get_context('fork')
        self.conn, child = ctx.Pipe()
        self.proc = ctx.Process(target=self.loop, args=(check, chunks, child, [self.conn] + [w.conn for w in others]), daemon=True)
        self.proc.start()
        child.close()
        self.busy, self.since = None, 0.0

    @staticmethod
    def loop(check, chunks, conn, foreign):
        for c in foreign:
            c.close()
        while True:
            try:
                k = conn.recv()
            except EOFError:
                os._exit(0)
            conn.send(_run_chunk(check, *chunks[k]))

    def give(self, k):
        self.busy, self.since = k, time.time()
        self.conn.send(k)

    def end(self):
        self.proc.kill()
        self.proc.join()
        self.conn.close()


def explore(check, chunks, total):
    """Run all chunks.  Yields (start, index in chunk or None, text) of failures, lowest chunk first; stops giving out work then."""
    from multiprocessing.connection import wait
    workers = []
    todo = iter(range(len(chunks)))
    done = {}
    failed = {}
    try:
        while True:
            while len(workers) < min(JOBS, len(chunks)):
                workers.append(Worker(check, chunks, workers))
            for w in workers:
                if w.busy is None and not failed:
                    k = next(todo, None)
                    if k is not None:
                        w.give(k)
            busy = [w for w in workers if w.busy is not None]
            if failed and not any(w.busy < min(failed) for w in busy):
                for k in sorted(failed):
                    yield failed.pop(k)
                continue
            if not busy:
                return
            ready = wait([w.conn for w in busy], timeout=20)
            for w in busy:
                k = w.busy
                if w.conn in ready:
                    try:
                        start, bad, text, ctx = w.conn.recv()
                        total.merge(ctx)
                        w.busy = None
                        done[k] = True
                        if bad is not None:
                            failed[k] = (start, bad, text)
                        continue
                    except (EOFError, OSError):
                        text = f'a process died with exit code {w.proc.exitcode}'
                elif time.time() - w.since < min((CASE_TIMEOUT + 10) * len(chunks[k][1]), 5 * CASE_TIMEOUT) and w.proc.is_alive():
                    continue
                else:
                    text = 'a process did not come back'
                failed[k] = (chunks[k][0], None, text)
                w.end()
                workers.remove(w)
    finally:
        for w in workers:
            w.end()


def _fresh(check, cases):
    """Run the cases in a fresh forked process; index and text of the first failure, or None."""
    if not cases:
        return None
    ctx = mp.get_context('fork')
    mine, theirs = ctx.Pipe(duplex=False)

    def body():
        c = Ctx()
        for i, case in enumerate(cases):
            f = run_one(check, case, c)
            if f is not None:
                theirs.send((i, f))
                return
        theirs.send(None)

    p = ctx.Process(target=body, daemon=True)
    p.start()
    theirs.close()
    try:
        if not mine.poll(min((CASE_TIMEOUT + 10) * len(cases), 2 * CASE_TIMEOUT)):
            return 0, 'no result'
        return mine.recv()
    except EOFError:
        p.join()
        return 0, f'the process died with exit code {p.exitcode}'
    finally:
        p.kill()
        p.join()


def _jsonable(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return str(o)


def load_known():
    """Findings listed in the committed file: list of (property, key, text)."""
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.json')
    with open(path) as f:
        return json.load(f)


def main(check, tier, seed):
    t0 = time.time()
    evidence_path = os.path.join(EVIDENCE, f'{check.id}.json')
    os.makedirs(os.path.join(EVIDENCE, 'replays'), exist_ok=True)
    total = Ctx()
    failure = None
    notes = []
    n_cases = 0
    samples = []
    try:
        check.setup()
    except Exception as e:
        failure = ([], f'setup failed: {type(e).__name__}: {e}\n' + traceback.format_exc())
    if failure is None:
        cases = list(check.cases(tier))
        n_cases = len(cases)
        step = max(1, n_cases // 3)
        samples = cases[::step][:4]
        size = check.chunk or max(1, min(64, n_cases // (JOBS * 6) or 1))
        chunks = [(i, cases[i:i + size]) for i in range(0, n_cases, size)]
        found = explore(check, chunks, total)
        for start, bad, text in found:
            # same case alone in a fresh process; then its whole chunk (history-dependent failure)
            one = [cases[start + bad]] if bad is not None else []
            r = _fresh(check, one)
            if r is not None:
                failure = (one, r[1])
                break
            hist = cases[start:start + bad + 1] if bad is not None else cases[start:start + size]
            r = _fresh(check, hist)
            if r is not None:
                failure = (hist[:r[0] + 1], r[1] + '\n(only after the earlier cases of this history)')
                break
            notes.append(f'not reproduced, ignored: case {start}+{bad}: {text}')
        found.close()
    wall = time.time() - t0
    for n in notes:
        print('NOTE', n)
    known = [k for k in load_known()['known'] if k['property'] == check.id]
    for k in known:
        if k['key'] in total.known:
            print(f"KNOWN-FINDING: property={check.id} {k['what']}")
    cov = {
        'states': len(total.states),
        'transitions': total.transitions,
        'traces_validated_against_impl': total.traces,
        'samples': json.loads(json.dumps(samples, default=_jsonable)),
        'exhaustive': failure is None and not notes,
        'cases': n_cases,
        'rule': check.rule,
        'bounds': check.bounds.get(tier, check.bounds) if isinstance(check.bounds, dict) else check.bounds,
        'detail': total.extra,
        'known_findings_seen': sorted(total.known),
    }
    if check.level == 'fault_enumeration':
        cov['evaluations'] = total.traces
        cov['distinct_nontrivial'] = len(total.states)
    replay = None
    if failure is not None:
        hist, text = failure
        doc = {'property': check.id, 'tier': tier, 'seed': seed, 'history': hist, 'failure': text}
        blob = json.dumps(doc, default=_jsonable, indent=1)
        name = f'{check.id}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json'
        replay = os.path.join(EVIDENCE, 'replays', name)
        with open(replay, 'w') as f:
            f.write(blob)
        cov['counterexample'] = os.path.relpath(replay, ROOT)
    ev = {
        'property': check.id,
        'tier': tier,
        'seed': seed,
        'level': check.level,
        'coverage': cov,
        'assumptions': list(check.assumptions),
        'wall_s': round(wall, 3),
        'violations': 0 if failure is None else 1,
    }
    with open(evidence_path, 'w') as f:
        json.dump(ev, f, indent=1, default=_jsonable)
    print(f'{check.id} tier={tier} cases={n_cases} states={len(total.states)} transitions={total.transitions} '
          f'traces={total.traces} wall={wall:.1f}s {total.extra or ""}')
    if failure is not None:
        print(failure[1])
        print(f'replay with: ./run.sh replay {replay}')
        print(f'VIOLATION property={check.id} replay={replay}')
        return 1
    return 0


def replay(get_check, path):
    with open(path) as f:
        doc = json.load(f)
    check = get_check(doc['property'])
    check.setup()
    r = _fresh(check, doc['history'])
    if r is None:
        print(f"{doc['property']}: the recorded case passes")
        return 0
    print(r[1])
    print(f"VIOLATION property={doc['property']} replay={path}")
    return 1


def grid(**axes):
    """Full product of the given axes, in order, as dictionaries."""
    keys = list(axes)
    for vals in itertools.product(*axes.values()):
        yield dict(zip(keys, vals))
