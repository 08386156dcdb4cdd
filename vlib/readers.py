"""Monitors shared by the reader-fidelity checks: the object irrep built for a k point is
compared with the data that were written to the files."""
import numpy as np
from .pw import TWOMHBAR2, ball


def check_structure(ctx, b, lat, pos, numbers, order=None, tol=1e-7):
    """Lattice, positions (direct) and the partition of the sites into species."""
    ctx.close("lattice", np.asarray(b.Lattice, float), lat, tol * max(1, np.abs(lat).max()))
    sgp, sgt = np.asarray(b.spacegroup.positions, float), list(b.spacegroup.typat)
    pos = np.asarray(pos, float)
    numbers = list(numbers)
    if order is not None:
        pos = pos[order]
        numbers = [numbers[i] for i in order]
    if not ctx.require(sgp.shape == pos.shape, "positions", "%s vs %s" % (sgp.shape, pos.shape)):
        return
    d = sgp - pos
    ctx.close("positions", d, np.round(d), tol)
    same = np.array([[x == y for y in sgt] for x in sgt])
    want = np.array([[x == y for y in numbers] for x in numbers])
    ctx.require(np.array_equal(same, want), "species", lambda: "%s vs %s" % (sgt, numbers))


def check_kpoint(ctx, kp, kd, ecut, B, ef=0.0, tolE=1e-6, tolC=1e-6, bands=slice(None), kin=None, tag="", upper="auto",
                 ik=None):
    """kp: irrep's Kpoint (save_wf=True); kd: what was written; ecut: the cutoff in force (eV),
    kin: 1/(2m) factor so that energy = |k+G|^2*kin, B in the same length unit as ecut expects."""
    kin = 1.0 / TWOMHBAR2 if kin is None else kin
    ctx.event("kpoints_read")
    ctx.close("k-coordinates", np.asarray(kp.k, float), kd.k, 1e-9, tag)
    E = kd.E[bands]
    ok = ctx.close("energies", np.asarray(kp.Energy_raw, float), E - ef, tolE, tag)
    if ik is not None:
        ctx.require(kp.ik0 == ik, "k-index", "%s expected %s %s" % (kp.ik0, ik, tag))
    if not isinstance(upper, str):
        if np.isnan(upper):
            ctx.require(np.isnan(kp.upper), "upper-energy", lambda: "%s expected nan %s" % (kp.upper, tag))
        else:
            ctx.close("upper-energy", float(kp.upper), upper, tolE, tag)
    ig = np.asarray(kp.ig)
    K = (kd.G + kd.k) @ B
    eg = np.einsum("ij,ij->i", K, K) * kin
    keep = eg < ecut
    want = {tuple(g): i for i, g in enumerate(kd.G) if keep[i]}
    got = [tuple(int(x) for x in g) for g in ig[:3].T]
    ctx.event("plane_waves", len(got))
    if not ctx.require(len(set(got)) == len(got) and set(got) == set(want), "plane-wave-set",
                       lambda: "%d waves (%d distinct), expected %d; missing %s extra %s %s" % (
                           len(got), len(set(got)), len(want), sorted(set(want) - set(got))[:4], sorted(set(got) - set(want))[:4], tag)):
        return False
    idx = np.array([want[g] for g in got])
    # shells: rows 4,5 delimit runs of equal kinetic energy
    e = eg[idx]
    ctx.require(np.all(np.diff(e) > -1e-3), "energy-order", tag)
    lo, hi = ig[4], ig[5]
    j = np.arange(len(idx))
    ctx.require(np.all(lo <= j) and np.all(j < hi), "shell-bounds", tag)
    same = np.abs(e[:, None] - e[None, :]) < 2e-5
    inside = (j[None, :] >= lo[:, None]) & (j[None, :] < hi[:, None])
    ctx.require(not np.any(same & ~inside), "shell-incomplete", lambda: "%s: waves of equal energy outside the shell" % tag)
    n = len(kd.G)
    sel = np.concatenate([idx, idx + n]) if kd.spinor else idx
    C = kd.C[bands][:, sel]
    nrm = np.linalg.norm(C, axis=1)
    kept = nrm > 1e-4 * np.linalg.norm(kd.C[bands], axis=1)     # states without weight below a reduced cutoff
    C = C / np.where(kept, nrm, 1)[:, None]
    WF = np.asarray(kp.WF)
    if not ctx.require(WF.shape == C.shape, "coefficient-shape", "%s vs %s %s" % (WF.shape, C.shape, tag)):
        return False
    ctx.event("coefficients", C.size)
    return ok and ctx.close("coefficients", WF[kept], C[kept], tolC, tag)


def text_differs(a, b, tol=1.1e-4, modulo=False):
    """'' if two texts have the same words and the same numbers up to rounding, else where they differ.
    modulo: numbers are not compared (phases may wrap around)."""
    import re
    num = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\binf\b|\bnan\b)")
    if a == b:
        return ""
    la, lb = a.splitlines(), b.splitlines()
    if len(la) != len(lb):
        return "%d and %d lines" % (len(la), len(lb))
    for x, y in zip(la, lb):
        if x == y:
            continue
        na, nb = num.findall(x), num.findall(y)
        if re.sub(r"[\s+]", "", num.sub("#", x)) != re.sub(r"[\s+]", "", num.sub("#", y)) or len(na) != len(nb):
            return "%r | %r" % (x[:150], y[:150])
        if not modulo:
            for p, q in zip(na, nb):
                p, q = float(p), float(q)
                if p != q and not abs(p - q) <= tol * max(1.0, abs(p) * 1e-2):
                    return "%r | %r" % (x[:150], y[:150])
    return ""
