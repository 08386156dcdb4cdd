"""Random crystals with a prescribed space group in a prescribed (table) setting.

Every crystal is generated from the operations of the *reference* setting of the
tables (matched against spglib's independent database), so the transformation
between the cell handed to irrep and the reference cell is known by construction.
"""
import itertools
import numpy as np
import spglib
from .tables import read_table

_hall = {}


def hall_for(sg):
    """Hall number whose operations coincide with the table setting of `sg`."""
    if not _hall:
        for h in range(1, 531):
            ty = spglib.get_spacegroup_type(h)
            _hall.setdefault(ty.number, []).append(h)
    T = read_table(sg, False)
    for h in _hall[sg]:
        d = spglib.get_symmetry_from_database(h)
        ops = {}
        for R, t in zip(d["rotations"], d["translations"]):
            ops.setdefault(R.astype(int).tobytes(), []).append(t)
        if len(ops) != T.nsym:
            continue
        if all(any(np.allclose((s.t - t + .5) % 1 - .5, 0, atol=1e-4)
                   for t in ops.get(s.R.astype(int).tobytes(), [])) for s in T.symmetries):
            return h
    raise LookupError("no Hall setting matches table %d" % sg)


_std = {}


def std_ops(sg):
    """(coset ops ordered as in the table with exact translations, centering vectors)."""
    if sg in _std:
        return _std[sg]
    d = spglib.get_symmetry_from_database(hall_for(sg))
    T = read_table(sg, False)
    cent = [t % 1 for R, t in zip(d["rotations"], d["translations"]) if np.array_equal(R, np.eye(3))]
    ops = []
    for s in T.symmetries:
        best = None
        for R, t in zip(d["rotations"], d["translations"]):
            if np.array_equal(R, s.R) and np.allclose((s.t - t + .5) % 1 - .5, 0, atol=1e-4):
                best = t + np.round(s.t - t)
        ops.append((s.R.copy(), np.array(best, float)))
    _std[sg] = (ops, [np.array(c) for c in cent])
    return _std[sg]


def hexagonal_axes(sg):
    return 143 <= sg <= 194


_cand = {}


def candidate_axes(hexa):
    """Integer matrices of the holohedry of the conventional lattice (cubic or hexagonal axes)."""
    if hexa not in _cand:
        if hexa:
            gens = [np.array([[1, -1, 0], [1, 0, 0], [0, 0, 1]]), np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]]), -np.eye(3, dtype=int)]
        else:
            gens = [np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]]), np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), -np.eye(3, dtype=int)]
        out = [np.eye(3, dtype=int)]
        keys = {out[0].tobytes()}
        for a in out:
            for g in gens:
                b = (a @ g).astype(int)
                if b.tobytes() not in keys:
                    keys.add(b.tobytes())
                    out.append(b)
        _cand[hexa] = out
    return _cand[hexa]


def equivalent_setting(sg, rng, improper=None):
    """(A, a) with y' = A y + a mapping the tables' group onto itself (as a set of operations modulo the lattice), or None.
    Random among the symmetries of the lattice and origins on a grid; not the identity."""
    ops, cent = std_ops(sg)
    hexa = hexagonal_axes(sg)
    grid = [0, 1 / 3, 2 / 3, 1 / 2] if hexa else [0, .25, .5, .75]
    As = candidate_axes(hexa)
    shifts = np.array(list(itertools.product(grid, repeat=3)))
    cent = np.array(cent)
    bykey = {R.tobytes(): t for R, t in ops}

    def good(A, a):
        Ai = np.round(np.linalg.inv(A)).astype(int)
        ok = np.ones(len(a), bool)
        for c in cent:
            d = A @ c - cent
            if np.abs(d - np.round(d)).max(axis=1).min() > 1e-6:
                return ok & False
        for R, t in ops:
            R2 = (A @ R @ Ai).astype(R.dtype)
            if R2.tobytes() not in bykey:
                return ok & False
            d = (A @ t + a - a @ R2.T - bykey[R2.tobytes()])[:, None, :] + cent[None]
            ok &= np.abs(d - np.round(d)).max(axis=2).min(axis=1) < 1e-6
            if not ok.any():
                break
        return ok
    for i in rng.permutation(len(As)):
        A = As[i]
        if improper is not None and (np.linalg.det(A) < 0) != improper:
            continue
        ok = np.nonzero(good(A, shifts))[0]
        if np.array_equal(A, np.eye(3)):
            ok = ok[ok > 0]
        if len(ok):
            return A, shifts[int(rng.choice(ok))]
    return None


def in_setting(C, A, a):
    """refUC (columns) and shift of the reference cell y' = A y + a of the crystal."""
    P = C.P @ np.linalg.inv(A)
    return P, C.p - P @ a


def primitive_matrix(cent):
    """Columns = primitive vectors in terms of the conventional ones (det>0, short)."""
    n = len(cent)
    if n == 1:
        return np.eye(3)
    cand = []
    for c in cent:
        for s in itertools.product((-1, 0, 1), repeat=3):
            v = np.array(c) + s
            if 0 < np.abs(v).max() <= 1.0 + 1e-9:
                cand.append(v)
    cand.sort(key=lambda v: (round(float(v @ v), 6), tuple(-np.round(v, 4))))
    for a, b, c in itertools.combinations(cand[:40], 3):
        M = np.array([a, b, c]).T
        dt = np.linalg.det(M)
        if abs(abs(dt) - 1.0 / n) < 1e-6:
            if dt < 0:
                M[:, 2] *= -1
            return M
    raise LookupError


def random_unimodular(rng, nsteps=3, lefthanded=None):
    U = np.eye(3, dtype=int)
    for _ in range(nsteps):
        i, j = rng.choice(3, 2, replace=False)
        E = np.eye(3, dtype=int)
        E[i, j] = rng.choice([-1, 1])
        U = U @ E
    P = np.eye(3, dtype=int)[rng.permutation(3)]
    if np.linalg.det(P) < 0:
        P[0] *= -1
    U = U @ P
    if lefthanded:
        U = U @ np.diag(rng.permutation([1, 1, -1]))
    return U


def random_rotation(rng):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


class Crystal:
    """lattice: rows; positions: direct coords; ops: [(R,t)] in the DFT cell, in
    table order; P, p: x_dft = P y_ref + p; number: space group."""

    def cell(self):
        return (self.lattice, self.positions, self.numbers)


def sym_metric(ops, rng, lo=0.85, hi=1.25, shear=0.25):
    for _ in range(200):
        A = np.diag(rng.uniform(lo, hi, 3)) @ (np.eye(3) + rng.uniform(-shear, shear, (3, 3)))
        G0 = A @ A.T
        G = sum(R.T @ G0 @ R for R, _ in ops) / len(ops)
        w = np.linalg.eigvalsh(G)
        if w[0] > 0.25 * w[-1]:
            return G
    raise RuntimeError("metric")


def strained(C, rng, eps=0.03):
    """The same crystal (operations, fractional positions, reference cell) with slightly different lattice constants."""
    A = np.eye(3) + rng.uniform(-eps, eps, (3, 3))
    g0 = C.lattice @ A @ A.T @ C.lattice.T
    ops = [np.asarray(R, float) for R, t in C.ops]
    g = sum(R.T @ g0 @ R for R in ops) / len(ops)
    # rows of C.lattice @ F for a symmetric F commuting with the point group
    X = np.linalg.inv(C.lattice)
    w, v = np.linalg.eigh(X @ g @ X.T)
    D = Crystal()
    D.__dict__.update(C.__dict__)
    D.lattice = C.lattice @ (v * np.sqrt(w)) @ v.T
    return D


def make_crystal(sg, rng, volume=40.0, usteps=None, rotate=True, shift=True, lefthanded=None,
                 conventional=False, extra_orbits=0, verify=True, special=None, maxtry=40, digits=None):
    """volume: primitive volume in Ang^3. digits: decimals of the cell, as in a file"""
    ops, cent = std_ops(sg)
    for attempt in range(maxtry):
        G = sym_metric(ops, rng)
        Lc = np.linalg.cholesky(G)          # rows: conventional vectors, right-handed
        Pm = np.eye(3) if conventional else primitive_matrix(cent)
        ncent = len(cent)
        v0 = abs(np.linalg.det(Lc)) / ncent
        Lc = Lc * (volume / v0) ** (1 / 3.)
        if rotate:
            Lc = Lc @ random_rotation(rng).T
        n = int(rng.integers(0, 4)) if usteps is None else usteps
        U = random_unimodular(rng, n, lefthanded) if (n or lefthanded) else np.eye(3, dtype=int)
        M = Pm @ U                            # columns: DFT vectors in conventional ones
        lat = M.T @ Lc
        P = np.linalg.inv(M)                  # x_dft = P y + p
        p = rng.uniform(0, 1, 3) if shift else np.zeros(3)
        if shift and rng.random() < 0.25:
            p = rng.integers(0, 8, 3) / 8.0
        dft_ops = []
        for R, t in ops:
            Rd = P @ R @ M
            Ri = np.round(Rd).astype(int)
            assert np.abs(Rd - Ri).max() < 1e-8
            dft_ops.append((Ri, P @ t + p - Ri @ p))
        # atoms
        pos, num = [], []
        norb = (2 if len(ops) > 2 else 4) + extra_orbits
        cents = [P @ c for c in cent] if conventional else [np.zeros(3)]
        for io in range(norb):
            x0 = rng.uniform(0, 1, 3)
            for R, t in dft_ops:
                for c in cents:
                    pos.append((R @ x0 + t + c) % 1)
                    num.append(io + 1)
        pos = np.array(pos)
        pos[pos > 1 - 1e-12] = 0
        # minimum distance (avoid clashing sites)
        d = pos[:, None] - pos[None]
        d -= np.round(d)
        dist = np.linalg.norm(d @ lat, axis=2) + 10 * np.eye(len(pos))
        if dist.min() < 0.15 * (volume ** (1 / 3.)) / max(1.0, (len(pos)) ** (1 / 3.)):
            continue
        if digits is not None:
            lat, pos = np.round(lat, digits), np.round(pos, digits + 1)
        C = Crystal()
        C.lattice, C.positions, C.numbers = lat, pos, num
        C.ops, C.P, C.p, C.M, C.number = dft_ops, P, p, M, sg
        C.conv_lattice = Lc
        C.ncent = ncent
        C.conventional = conventional
        if verify:
            ds = spglib.get_symmetry_dataset(C.cell())
            nexp = len(ops) * (ncent if conventional else 1)
            if ds is None or ds.number != sg or len(ds.rotations) != nexp:
                continue
        return C
    raise RuntimeError("could not build crystal for SG %d" % sg)
