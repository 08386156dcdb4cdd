"""C06: spinor rotations are genuine SU(2) lifts and their signs reproduce the tables' factor set."""
import numpy as np
from vlib.case import *
from vlib.su2 import cart_rotation, su2_to_so3, so3_to_su2
from vlib.crystals import random_rotation

PROP = "C06"
RULE = ("one case = random spinor crystal in any cell/orientation/handedness; monitor checks every spinor matrix against the cartesian "
        "rotation, the multiplication law of sign*S against the tables' S, existence of a unitary intertwiner between both sets, and "
        "covariance under a rigid rotation of the crystal; distinct = (SG, rotation type)")
MINIMUM = {"groups": 400, "spin_matrices": 5000, "products": 30000, "rotated": 200, "equivalent_settings": 80, "lefthanded_reference": 40}
ASSUMPTIONS = ["spin-table matrices S are parsed independently from the shipped text files"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 6)
    n = 2 if tier == "quick" else 25
    return [dict(sg=int(sg), rep=r) for r in range(n) for sg in rng.permutation(np.arange(1, 231))]


def run(job, ctx, rng):
    sg = job["sg"]
    T = read_table(sg, True)
    rounded = bool(rng.random() < .3)
    C = tame_crystal(sg, rng, lefthanded=bool(rng.random() < .4), digits=6 if rounded else None)
    ctx.event("rounded_cells", rounded)
    user = bool(rng.random() < .3)
    kw = dict(refUC=C.P.T.copy(), shiftUC=C.p.copy()) if user else {}
    if rng.random() < .4:
        # a setting equivalent to the tables' one: axes exchanged or reversed, another origin
        e = equivalent_setting(sg, rng, bool(rng.random() < .7) or None)
        if e is not None:
            M, sh = in_setting(C, *e)
            kw = dict(refUC=M.T.copy(), shiftUC=sh.copy())
            ctx.event("equivalent_settings")
            ctx.event("lefthanded_reference", np.linalg.det(M) * np.linalg.det(C.lattice) < 0)
    S = get_sg(C, True, search_cell=True, trans_thresh=1e-4, **kw)
    check(ctx, S, T, C.lattice, sg)
    # scalars carry no sign
    S0 = get_sg(C, False, search_cell=True, trans_thresh=1e-4, **kw)
    ctx.require(all(s.sign == 1 for s in S0.symmetries), "scalar-sign", sg)
    # rigid rotation
    Q = random_rotation(rng)
    U = so3_to_su2(Q)
    C2 = make_copy(C)
    C2.lattice = C.lattice @ Q.T
    S2 = get_sg(C2, True, search_cell=True, trans_thresh=1e-4, **kw)
    if np.allclose(S2.refUC, S.refUC) and [s.ind for s in S2.symmetries] == [s.ind for s in S.symmetries]:
        ctx.event("rotated")
        for a, b in zip(S.symmetries, S2.symmetries):
            m1 = U @ (np.asarray(a.spinor_rotation) * a.sign) @ U.conj().T
            m2 = np.asarray(b.spinor_rotation) * b.sign
            # an individual matrix may only change by the sign that also relabels consistently: require equality
            ctx.close("covariance-under-rotation", m2, m1, 2e-4, lambda: "SG %d op %d" % (sg, a.ind))
    ctx.sample(sg=sg, signs=[int(s.sign) for s in S.symmetries])


def make_copy(C):
    import copy
    return copy.copy(C)


def check(ctx, S, T, lat, sg):
    ctx.event("groups")
    M = []
    for s in S.symmetries:
        m = np.asarray(s.spinor_rotation)
        R = np.asarray(s.rotation)
        O = cart_rotation(R, lat)
        O = O * np.sign(np.linalg.det(O))
        ctx.event("spin_matrices")
        ctx.close("unitary", m @ m.conj().T, np.eye(2), 1e-9)
        ctx.close("det-one", np.linalg.det(m), 1.0, 1e-9)
        ctx.close("lift", su2_to_so3(m), O, 1e-5, lambda: "SG %d R=%s" % (sg, R.tolist()))
        ctx.require(s.sign in (1, -1), "sign-value", s.sign)
        M.append(m * s.sign)
        ctx.distinct(sg, int(np.trace(R)), int(round(np.linalg.det(R))))
    M = np.array(M)
    St = np.array([t.S for t in T.symmetries])
    Rs = np.array([t.R for t in T.symmetries])
    if len(M) != len(St):
        ctx.violation("group-order", "SG %d" % sg)
        return
    key = {R.tobytes(): i for i, R in enumerate(Rs)}
    mul = np.array([[key[(a @ b).astype(Rs.dtype).tobytes()] for b in Rs] for a in Rs])
    w1 = np.einsum("iab,jbc,ijdc->ijad", M, M, M[mul].conj())
    w2 = np.einsum("iab,jbc,ijdc->ijad", St, St, St[mul].conj())
    f1 = np.einsum("ijaa->ij", w1) / 2
    f2 = np.einsum("ijaa->ij", w2) / 2
    ctx.event("products", f1.size)
    ctx.close("factor-set", f1, f2, 2e-3, lambda: "SG %d signs %s" % (sg, [s.sign for s in S.symmetries]))
    ctx.close("characters-of-spin-half", np.einsum("iaa->i", M).real, np.einsum("iaa->i", St).real, 2e-3, "SG %d" % sg)
    # unitary intertwiner
    r = np.random.default_rng(sg)
    X = r.normal(size=(2, 2)) + 1j * r.normal(size=(2, 2))
    W = np.einsum("iab,bc,idc->ad", M, X, St.conj()) / len(M)
    ctx.require(np.linalg.norm(W) > 1e-3, "no-intertwiner", "SG %d: %g" % (sg, np.linalg.norm(W)))
