"""Cases: a crystal, a model Hamiltonian with its exact eigenstates, and the files / calls
that hand it to irrep."""
import os
import numpy as np
from . import env  # noqa: F401
from .crystals import make_crystal, std_ops, equivalent_setting, in_setting
from .pw import (Model, pick_ecut, reclat, TWOMHBAR2, in_little_group, op_matrix, ball)
from .runner import quiet, Inconclusive
from .su2 import spin_lift
from .tables import read_table
from . import writers

LEVEL_TOL = 1e-4


def frac12(k):
    return np.round(np.asarray(k, float) * 12) / 12


def table_kpts(sg, spinor=False):
    return [(kp, frac12(kp.k)) for kp in read_table(sg, spinor).kpoints]


def k_dft_from_ref(P, kref):
    """P: columns = reference vectors in DFT vectors; k_ref = P^T k."""
    return np.linalg.inv(np.asarray(P, float).T) @ np.asarray(kref, float)


class Case:
    """crystal C, model, ecut (eV, VASP convention), kds."""


def isolated(kd, nb, gap=2e-3):
    """Number of bands <= nb that ends on a clear level boundary."""
    E = kd.E_all
    for n in range(min(nb, len(E) - 1), 0, -1):
        if E[n] - E[n - 1] > gap:
            return n
    return 0


def levels_clear(kd, lo=1e-6, hi=2e-3, upto=None):
    """No ambiguous near-degeneracy: neighbouring energies differ by <lo or >hi."""
    d = np.diff(kd.E_all[: (upto or len(kd.E)) + 1])
    return not np.any((d > lo) & (d < hi))


def build(rng, sg, spinor, kpts=None, kref=None, npw=50, nb=None, trbreak=False, crystal=None, volume=None,
          usteps=None, lefthanded=None, regauge=True, same_nb=True, tries=12, norms=True, shift=True, rotate=True,
          conventional=False, v0=6.0, soc=1.0, ecut=None, whole_levels=True):
    """kpts: direct coords in the DFT cell; kref: coords in the reference cell."""
    for _ in range(tries):
        C = crystal or make_crystal(sg, rng, usteps=usteps, lefthanded=lefthanded, shift=shift, rotate=rotate,
                                    volume=volume or float(rng.uniform(30, 50)), conventional=conventional)
        ks = list(kpts) if kpts is not None else []
        if kref is not None:
            ks += [k_dft_from_ref(C.P, k) for k in kref]
        ks = [np.asarray(k, float) for k in ks]
        for k in ks:
            for R, t in C.ops:
                d = np.linalg.inv(np.asarray(R, float)).T @ k - k
                if 1e-7 < np.abs(d - np.round(d)).max() < 4e-4:
                    raise Inconclusive("a k point almost invariant")
        B = reclat(C.lattice)
        vol = abs(np.linalg.det(C.lattice))
        ec = ecut or pick_ecut(B, ks, npw, vol)
        if any(np.abs((((ball(B, k, 1.05 * np.sqrt(ec * TWOMHBAR2)) + k) @ B) ** 2).sum(1) / TWOMHBAR2 - ec).min() < 1e-4 for k in ks):
            continue
        m = Model(C.lattice, C.ops, rng, spinor, qmax=1.6 * np.sqrt(ec * TWOMHBAR2), trbreak=trbreak, v0=v0, soc=soc)
        want = nb or (14 if spinor else 8)
        kds = []
        ok = True
        for k in ks:
            kd = m.solve(k, ec)
            if not levels_clear(kd, upto=min(want + 6, len(kd.E_all) - 1)):
                ok = False
                break
            kds.append(kd)
        if not ok:
            continue
        # common number of bands, whole levels at every k if possible
        n = min(want, min(len(kd.E_all) for kd in kds) - 1)
        good = None
        for cand in list(range(n, 0, -1)) + list(range(n + 1, n + 6)):
            if all(cand < len(kd.E_all) and kd.E_all[cand] - kd.E_all[cand - 1] > 2e-3 for kd in kds):
                good = cand
                break
        if good is None:
            if whole_levels:
                continue
            good = n
        for kd in kds:
            kd.E = kd.E_all[:good].copy()
            kd.C = kd.C[:good]
            # remove numerical splitting inside levels
            for a, b in kd.levels(1e-6):
                kd.E[a:b] = kd.E[a:b].mean()
            if regauge:
                kd.regauge(rng, norms=norms)
        c = Case()
        c.C, c.model, c.ecut, c.kds, c.ks, c.spinor, c.nb, c.sg = C, m, ec, kds, ks, spinor, good, sg
        c.B = B
        return c
    raise Inconclusive("no clear case for SG %d" % sg)


def big_crystal(rng):
    """Many sites of many species in a long cell without symmetry."""
    from .crystals import Crystal, random_rotation
    C = Crystal()
    L = rng.uniform(3.0, 4.5, 3)
    L[int(rng.integers(0, 3))] = rng.uniform(25, 60)
    u = np.eye(3) + rng.uniform(-.25, .25, (3, 3))
    C.lattice = (u * L[:, None]) @ random_rotation(rng).T
    n = int(rng.integers(101, 150))
    C.positions = rng.uniform(0, 1, (n, 3))
    C.numbers = [int(x) for x in rng.permutation(np.concatenate([np.arange(1, 7), rng.integers(1, 7, n - 6)]))]
    C.ops = [(np.eye(3, dtype=int), np.zeros(3))]
    C.P = C.M = np.eye(3)
    C.p = np.zeros(3)
    return C


def skewed_crystal(rng, most=15):
    """A few sites in a cell whose vectors are long combinations of those of an ordinary one."""
    from .crystals import random_rotation
    C = big_crystal(rng)
    L = np.diag(rng.uniform(2.5, 5, 3) * np.append(1, rng.uniform(1, 3, 2))) @ (np.eye(3) + rng.uniform(-.1, .1, (3, 3)))
    U = np.eye(3, dtype=int)
    i, j = rng.choice(3, 2, replace=False)
    U[i, j] = int(rng.choice([-1, 1])) * int(rng.integers(6, most + 1))
    C.lattice = U @ L @ random_rotation(rng).T
    C.positions = rng.uniform(0, 1, (4, 3))
    C.numbers = [1, 1, 2, 3]
    return C


def big(rng, spinor, kpts, npw, nb, crystal=None, ecut=None):
    """A case with many sites, k points, plane waves and bands, with coefficients drawn at random (no Hamiltonian)."""
    from .pw import KData
    C = crystal or big_crystal(rng)
    ks = [np.asarray(k, float) for k in kpts]
    B = reclat(C.lattice)
    ec = ecut or pick_ecut(B, ks, npw, abs(np.linalg.det(C.lattice)), gap=2e-5)
    kds = []
    for k in ks:
        kd = KData()
        kd.k, kd.spinor = k, spinor
        kd.G = ball(B, k, np.sqrt(ec * TWOMHBAR2))
        e = (((kd.G + k) @ B) ** 2).sum(1) / TWOMHBAR2
        if np.abs(e - ec).min() < 1e-4:
            raise Inconclusive("wave on the cutoff")
        n = len(kd.G) * (2 if spinor else 1)
        C_ = rng.normal(size=(nb, n)) + 1j * rng.normal(size=(nb, n))
        kd.C = C_ / np.linalg.norm(C_, axis=1)[:, None] * rng.uniform(.5, 2, nb)[:, None]
        kd.E_all = np.cumsum(rng.uniform(.01, .5, nb + 2)) - 10
        kd.E = kd.E_all[:nb].copy()
        kds.append(kd)
    c = Case()
    c.C, c.model, c.ecut, c.kds, c.ks, c.spinor, c.nb, c.sg, c.B = C, None, ec, kds, ks, spinor, nb, 1, B
    return c


def write_vasp(case, d=".", **kw):
    order = writers.write_poscar(os.path.join(d, "POSCAR"), case.C.lattice, case.C.positions, case.C.numbers, **kw)
    writers.write_wavecar(os.path.join(d, "WAVECAR"), case.C.lattice, case.ecut, case.kds)
    return order


def run_vasp(case, d=".", write=True, **kw):
    from irrep.bandstructure import BandStructure
    if write:
        write_vasp(case, d)
    args = dict(fWAV=os.path.join(d, "WAVECAR"), fPOS=os.path.join(d, "POSCAR"), spinor=case.spinor, code="vasp",
                calculate_traces=True, degen_thresh=LEVEL_TOL)
    args.update(kw)
    with quiet() as buf:
        b = BandStructure(**args)
    b._captured = buf.getvalue()
    return b


def write_code(case, code, d=".", rng=None, ef_ha=None, kds=None):
    """Write the case in the format of `code`; returns the BandStructure arguments."""
    from .pw import HA, BOHR_A
    rng = rng or np.random.default_rng(0)
    C = case.C
    kds = kds or case.kds
    if code == "vasp":
        write_vasp(case, d)
        case.ecut_code = case.ecut
        return dict(fWAV=os.path.join(d, "WAVECAR"), fPOS=os.path.join(d, "POSCAR"), spinor=case.spinor, code="vasp")
    perms = [rng.permutation(len(k.G)) for k in kds]
    B = reclat(np.asarray(C.lattice) / BOHR_A)
    ec = max((((k.G + k.k) @ B) ** 2).sum(1).max() for k in kds) / 2 * (1 + 1e-6)     # Ha
    case.ecut_code = ec * HA
    if code == "abinit":
        writers.write_abinit(os.path.join(d, "o_WFK"), C.lattice, C.positions, C.numbers, ec, kds, perms=perms, ef_ha=ef_ha or 0.0)
        return dict(fWFK=os.path.join(d, "o_WFK"), code="abinit")
    if code == "espresso":
        writers.write_espresso(os.path.join(d, "pre"), C.lattice, C.positions, C.numbers, ec, kds, perms=perms, ef_ha=ef_ha)
        return dict(prefix=os.path.join(d, "pre"), code="espresso")
    if code == "wannier90":
        writers.write_w90(d, "wann", C.lattice, C.positions, C.numbers, kds, (1, 1, len(kds)), ef=None if ef_ha is None else ef_ha * HA)
        case.ecut_code = case.ecut
        return dict(prefix=os.path.join(d, "wann"), code="wannier90", Ecut=case.ecut)
    raise ValueError(code)


def run_code(case, code, d=".", rng=None, ef_ha=None, **kw):
    from irrep.bandstructure import BandStructure
    args = dict(calculate_traces=True, degen_thresh=LEVEL_TOL)
    args.update(write_code(case, code, d, rng, ef_ha))
    args.update(kw)
    with quiet() as buf:
        b = BandStructure(**args)
    b._captured = buf.getvalue()
    return b


def get_sg(C, spinor, **kw):
    from irrep.spacegroup import SpaceGroup
    with quiet():
        return SpaceGroup(C.cell(), spinor=spinor, **kw)


def tame(C, maxsum=3):
    """The default trans_thresh (1e-5) is compared with table translations rounded to 1e-5
    and multiplied by the cell transformation; keep the amplification below it."""
    return np.abs(C.P).sum(axis=1).max() <= maxsum + 1e-9


def tame_crystal(sg, rng, **kw):
    """Crystal whose cell transformation keeps the 5-digit rounding of the tables below the
    default translation threshold (matters for translations that are multiples of 1/3, 1/6)."""
    thirds = any(np.abs((t * 8) - np.round(t * 8)).max() > 1e-6 for _, t in std_ops(sg)[0])
    for i in range(40):
        C = make_crystal(sg, rng, **kw)
        if not thirds:
            return C
        from .pw import np as _np  # noqa
        import spglib
        ds = spglib.get_symmetry_dataset(C.cell())
        if np.abs(np.linalg.inv(ds.transformation_matrix)).sum(axis=1).max() <= 2 + 1e-9:
            return C
        if i > 20:
            kw["usteps"] = 0
    return C


def match_ops(C, symmetries, tol=1e-6):
    """For every op reported by irrep the index of the crystal's op with the same rotation
    whose translation agrees modulo lattice vectors (-1 if none)."""
    out = []
    for s in symmetries:
        idx = -1
        for i, (R, t) in enumerate(C.ops):
            if np.array_equal(np.asarray(s.rotation), R):
                d = np.asarray(s.translation) - t
                if np.abs(d - np.round(d)).max() < tol:
                    idx = i
        out.append(idx)
    return out


def true_traces(kd, R, t, S, levels):
    D = op_matrix(kd, R, t, S)
    return np.array([np.trace(D[a:b, a:b]) for a, b in levels])


def run_cli(args):
    """The command line interface, in this process.  Returns (exit code or exception, stdout)."""
    from irrep.cli import cli
    code = 0
    with quiet() as buf:
        try:
            cli.main([str(a) for a in args], prog_name="irrep", standalone_mode=False)
        except SystemExit as e:
            code = e.code or 0
    return code, buf.getvalue()


def cli_files(args):
    """-fWAV=... etc. from BandStructure's keyword arguments for the files"""
    out = []
    for k, v in args.items():
        if k == "spinor":
            if v:
                out.append("-spinor")
        else:
            out.append("-%s=%s" % (k, v))
    return out
