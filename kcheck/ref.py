"""
The reference models: what the properties say, computed in the most pedestrian way, sharing nothing with kinisi.
"""
from fractions import Fraction
import math
import numpy as np

AXES = {'x': [0], 'y': [1], 'z': [2], 'xy': [0, 1], 'xz': [0, 2], 'yz': [1, 2], 'xyz': [0, 1, 2]}


class Tie(Exception):
    """A step is so close to half a cell that the nearest image is not decided by the property."""


def unwrap(pos, cells, eps=1e-6):
    """
    Displacement of every atom from the first frame, disp[atom, frame, axis]: every step contributes the difference of
    the two Cartesian positions reduced to the nearest image in the later frame's cell.
    """
    F, N, _ = pos.shape
    disp = np.zeros((N, F, 3))
    for f in range(1, F):
        inv = np.linalg.inv(cells[f])
        d = pos[f] - pos[f - 1]
        frac = d @ inv
        r = frac - np.rint(frac)
        if np.any(np.abs(np.abs(r) - 0.5) < eps):
            raise Tie()
        disp[:, f] = disp[:, f - 1] + r @ cells[f]
    return disp


def select(species, specie=None, specie_indices=None, framework=None):
    """Selected and framework atoms (zero-based lists); None for absent species."""
    n = len(species)
    if specie is not None:
        want = specie if isinstance(specie, (list, tuple)) else [specie]
        idx = [i for i in range(n) if species[i] in want]
        if not idx:
            return None
    else:
        idx = list(specie_indices)
    if framework is None:
        fw = [i for i in range(n) if i not in idx]
    else:
        fw = list(framework)
    return idx, fw


def drift(disp, fw):
    if len(fw) == 0:
        return disp.copy()
    mean = np.zeros(disp.shape[1:])
    for i in fw:
        mean = mean + disp[i]
    mean = mean / len(fw)
    return np.array([d - mean for d in disp])


def molecules(disp, pos0, cells, mols, masses, framework):
    """
    Displacement of the centres: the atoms of a molecule move with `disp` (already unwrapped), so the centre moves with
    their weighted mean.  mols and framework are one-based.
    """
    w = [1.0] * len(mols[0]) if masses is None else list(masses)
    cm = []
    for m in mols:
        s = sum(w)
        cm.append(sum(wi * disp[i - 1] for wi, i in zip(w, m)) / s)
    used = {i for m in mols for i in m}
    if framework is None:
        fw = [i for i in range(len(disp)) if i + 1 not in used]
    else:
        fw = [i - 1 for i in framework]
    cm = np.array(cm)
    if fw:
        cm = cm - np.mean([disp[i] for i in fw], axis=0)[None]
    return cm


def floors(x: Fraction, eps=Fraction(1, 10**9)):
    """The whole numbers that rounding down may give when x is known to about a part in 1e9."""
    return {math.floor(x - eps), math.floor(x + eps)}


def frames(t, spacing):
    """Whole number of frames in time t, both decimal strings/numbers taken at face value."""
    return math.floor(Fraction(str(t)) / spacing)


def intervals(F, time_step, step_skip, min_dt=None, max_dt=None, n_steps=100, spacing='linear'):
    """
    The grid of intervals as a list of sets of admissible frame counts (sets have more than one element only where a
    geometric/linear grid point falls within 1e-9 of a whole number).  None if min_dt must be rejected.
    """
    sp = Fraction(str(time_step)) * step_skip
    lo = 1 if min_dt is None else frames(min_dt, sp)
    hi = F if max_dt is None else frames(max_dt, sp)
    if lo >= F:
        return None
    lo = max(lo, 1)
    n = min(n_steps, hi - lo + 1)
    if n == 1:
        return [{lo}]
    out = []
    for i in range(n):
        if i == 0:
            s = {lo}
        elif i == n - 1:
            s = {hi}
        elif spacing == 'linear':
            x = Fraction(lo) + Fraction(hi - lo) * i / (n - 1)
            s = {int(x)} if (hi - lo) % (n - 1) == 0 else floors(x)
        else:
            v = math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * i / (n - 1))
            e = max(1e-9, 1e-11 * v)
            s = {math.floor(v - e), math.floor(v + e)}
        out.append(s)
    if spacing == 'logarithmic':
        uniq = []
        for s in out:
            if uniq and uniq[-1] == s:
                continue
            uniq.append(s)
        out = uniq
    return out


def match_grid(got, admissible, spacing):
    """Does the integer grid `got` fit the admissible sets?"""
    got = [int(g) for g in got]
    if spacing == 'linear':
        return len(got) == len(admissible) and all(g in s for g, s in zip(got, admissible))
    if any(b <= a for a, b in zip(got, got[1:])):
        return False
    # every admissible point is represented, and nothing else
    return all(any(g in s for s in admissible) for g in got) and all(any(g in s for g in got) for s in admissible)


def windows(series, t, sampling='multi-origin'):
    """
    series[atom, frame, axis] of displacements from the first frame, as kinisi indexes it (entry k is the position of
    frame k relative to frame 0, entry 0 being zero for parsed trajectories).
    """
    N, F, _ = series.shape
    first = series[:, t - 1]
    if sampling == 'single-origin':
        return first[:, None]
    obs = [first]
    for k in range(0, F - t):
        obs.append(series[:, k + t] - series[:, k])
    return np.stack(obs, axis=1)


def dropped(n_sel, F, t, sampling='multi-origin'):
    """A single atom with fewer than two non-overlapping windows."""
    if n_sel > 1:
        return False
    if sampling == 'single-origin':
        return True
    return F // t < 2


def observations(series, grid, sampling='multi-origin'):
    """List of (t, observation array, independent observations) for the kept intervals."""
    out = []
    for t in grid:
        if dropped(series.shape[0], series.shape[1], t, sampling):
            continue
        # a single origin gives one observation per atom, several give as many as fit into the longest interval
        n_o = series.shape[0] * (1.0 if sampling == 'single-origin' else grid[-1] / t)
        out.append((t, windows(series, t, sampling), n_o))
    return out


def squared(kind, obs, dim, charge=None):
    """The quantity that is averaged: |dr|^2 per atom and observation, or the squared (charge-weighted) sum."""
    ax = AXES[dim]
    N, M, _ = obs.shape
    if kind == 'D':
        return np.array([[sum(obs[a, m, c]**2 for c in ax) for m in range(M)] for a in range(N)]) \
            if N * M < 2000 else sum(obs[:, :, c]**2 for c in ax)
    q = np.ones(N)
    if kind == 'S':
        q = np.ones(N) * np.asarray(charge, dtype=float)
    tot = [sum(q[a] * obs[a, :, c] for a in range(N)) for c in ax]
    return sum(t**2 for t in tot)


def statistics(kind, deltas, obs, n_o, dim='xyz', sub=1, charge=None):
    """dt, mean, variance, ngp, displacement lengths per reported interval (default estimator)."""
    deltas, obs, n_o = list(deltas)[::sub], list(obs)[::sub], list(n_o)[::sub]
    last = len(obs) if kind == 'D' else len(obs) // 2
    dt, n, v, ngp, dr = [], [], [], [], []
    ax = AXES[dim]
    for i in range(last):
        sq = squared(kind, obs[i], dim, charge)
        if sq.size <= 1:
            continue
        no = n_o[i] if kind == 'D' else n_o[i] / obs[i].shape[0]
        flat = sq.ravel()
        mean = math.fsum(flat) / flat.size
        var = math.fsum((flat - mean)**2) / (flat.size - 1)
        d2 = sum(obs[i][:, :, c]**2 for c in ax).ravel()
        m2 = math.fsum(d2) / d2.size
        m4 = math.fsum(d2 * d2) / d2.size
        dt.append(deltas[i])
        n.append(mean)
        v.append(var / no)
        ngp.append(3 * m4 / (5 * m2 * m2) - 1 if m2 > 0 else math.nan)
        dr.append(np.sqrt(d2))
    return {'dt': np.array(dt, dtype=float), 'n': np.array(n), 'v': np.array(v), 'ngp': np.array(ngp), 'dr': dr}


def covariance(v, n_o):
    m = np.zeros((len(v), len(v)))
    for i in range(len(v)):
        for j in range(len(v)):
            a, b = min(i, j), max(i, j)
            m[i, j] = v[a] * n_o[a] / n_o[b]
    return m


def recondition(m, cond_max):
    w, V = np.linalg.eigh((m + m.T) / 2)
    w = np.maximum(w, w.max() / cond_max)
    return (V * w) @ V.T


def close(a, b, tol=1e-9, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if scale is None:
        scale = max(1.0, float(np.max(np.abs(b[np.isfinite(b)]))) if np.any(np.isfinite(b)) else 1.0)
    return bool(np.all((np.abs(a - b) <= tol * scale) | (np.isnan(a) & np.isnan(b))))


def rclose(a, b, tol=1e-9):
    """Element-wise relative comparison."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= tol * np.maximum(np.abs(a), np.abs(b)) + 1e-13) | (np.isnan(a) & np.isnan(b))))


def pipeline(traj, kind='D', time_step=1.0, step_skip=1, sub_traj=1, sub_atoms=1, specie='Li', specie_indices=None,
             framework=None, min_frames=None, max_frames=None, n_steps=100, sampling='multi-origin', dim='xyz',
             sub_dt=1, charge=1):
    """Everything an analyzer reports, from the recorded positions (linear spacing; times in picoseconds)."""
    if sub_atoms != 1:
        traj = traj.atoms(sub_atoms)
    if sub_traj != 1:
        traj = traj.thin(sub_traj)
    disp = unwrap(traj.pos, traj.cells)
    idx, fw = select(traj.species, specie, specie_indices, framework)
    ser = drift(disp, fw)[idx]
    g = intervals(traj.n_frames, '1', 1, min_frames, max_frames, n_steps)
    g = [min(s) if len(s) == 1 else max(s) for s in g]
    ob = observations(ser, g, sampling)
    delta = [t * time_step * step_skip * sub_traj for t, _, _ in ob]
    obs = [o for _, o, _ in ob]
    n_o = [n for _, _, n in ob]
    return {
        'delta_t': np.array(delta),
        'disp_3d': obs,
        'n_o': np.array(n_o),
        'volume': traj.volume,
        'stats': statistics(kind, delta, obs, n_o, dim, sub_dt, charge)
    }


MEAN = {'D': 'msd', 'J': 'mstd', 'S': 'mscd'}


def compare_analyzer(a, want, kind, tol):
    """None, or what differs between an analyzer's reports and the reference."""
    d = a.to_dict()
    k = len(want['disp_3d'])
    if not close(np.asarray(d['delta_t'])[:k], want['delta_t'], 1e-9):
        return f"intervals {np.asarray(d['delta_t']).tolist()} expected {want['delta_t'].tolist()}"
    if len(d['disp_3d']) != k:
        return f"{len(d['disp_3d'])} observation arrays, expected {k}"
    for i in range(k):
        if not close(d['disp_3d'][i], want['disp_3d'][i], tol):
            return (f'observations of interval {i}: {np.asarray(d["disp_3d"][i]).tolist()} expected '
                    f'{want["disp_3d"][i].tolist()}')[:3000]
    if not close(np.asarray(d['n_o'])[:k], want['n_o'], 1e-9):
        return f"independent observations {np.asarray(d['n_o']).tolist()} expected {want['n_o'].tolist()}"
    # single-precision cells are good to 1e-6
    if not abs(a.volume - want['volume']) <= min(max(tol * 10, 1e-8), 1e-5) * want['volume']:
        return f"volume {a.volume} expected {want['volume']}"
    return compare_stats(a, want['stats'], kind, tol)


def compare_stats(a, st, kind, tol):
    if not close(a.dt, st['dt'], 1e-9):
        return f"dt {np.asarray(a.dt).tolist()} expected {st['dt'].tolist()}"
    n, s = getattr(a, MEAN[kind]), getattr(a, MEAN[kind] + '_std')
    if not close(n, st['n'], tol * 50):
        return f"{MEAN[kind]} {np.asarray(n).tolist()} expected {st['n'].tolist()}"
    if not close(s, np.sqrt(st['v']), tol * 50):
        return f"{MEAN[kind]}_std {np.asarray(s).tolist()} expected {np.sqrt(st['v']).tolist()}"
    if len(a.dr) != len(st['dr']):
        return f"{len(a.dr)} displacement-length distributions, expected {len(st['dr'])}"
    for i, d in enumerate(a.dr):
        if not close(np.sort(np.ravel(d.samples)), np.sort(st['dr'][i]), tol * 20):
            return f'displacement lengths of interval {i} differ'
    return None


def reblock(x):
    """
    Flyvbjerg-Petersen blocking: (mean, squared standard error) of the first block length whose cube exceeds
    2 n (SE(B)/SE(1))^4, or of the last one when there is none.  None if that decision hangs on rounding.
    """
    x = [float(y) for y in np.ravel(x)]
    n = len(x)
    levels = []
    while len(x) >= 2:
        m = math.fsum(x) / len(x)
        var = math.fsum((y - m)**2 for y in x) / (len(x) - 1)
        levels.append((m, var / len(x)))
        x = [(x[2 * i] + x[2 * i + 1]) / 2 for i in range(len(x) // 2)]
    first = levels[0][1]
    tiny = 1e-14 * max(1e-30, abs(levels[0][0]))**2
    if first < tiny:
        return levels[-1] if all(abs(lv[0] - levels[0][0]) < 1e-9 for lv in levels) else None
    for i, (m, e2) in enumerate(levels):
        need = 2 * n * (e2 / first)**2
        have = 8.0**i
        if abs(need - have) < 1e-9 * have:
            return None
        if have > need:
            return m, e2
    return levels[-1]
