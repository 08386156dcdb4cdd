"""C09: what is analysed is what the VASP files contain (POSCAR + WAVECAR)."""
import numpy as np
from vlib.case import *
from vlib.readers import check_structure, check_kpoint
from vlib.runner import quiet

PROP = "C09"
RULE = ("one case = random crystal and wavefunctions written as POSCAR (species line or not, cartesian/direct, any scale factor, selective "
        "dynamics, comments) and WAVECAR (any record length, cell, k points); the monitor compares lattice, sites, species, k, energies, "
        "plane-wave set and every coefficient held by the program with what was written; distinct = (format options, spinor, SG)")
MINIMUM = {"kpoints_read": 1000, "coefficients": 200000, "poscar_cartesian": 150, "poscar_scaled": 150, "reduced_cutoff": 100, "skewed_cells": 40}
ASSUMPTIONS = ["coefficients are single precision in WAVECAR: tolerance 2e-6"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 9)
    n = 700 if tier == "quick" else 2500
    return [dict(sg=int(rng.integers(1, 231)), rep=i) for i in range(n)] + [dict(big=True, sg=1, rep=i) for i in range(6 if tier == "quick" else 60)] + \
        [dict(skew=True, sg=1, rep=i) for i in range(60 if tier == "quick" else 400)]


def run(job, ctx, rng):
    sg, sp = job["sg"], bool(rng.random() < .5)
    nk = int(rng.integers(10, 14) if job.get("big") else rng.integers(1, 4))
    kpts = [rng.choice([0, .5, .25, -.5, 1 / 3.], 3) if rng.random() < .6 else rng.uniform(-1, 1, 3) * rng.choice([1, 3]) for _ in range(nk)]
    if job.get("big"):
        sg = 1
        case = big(rng, sp, kpts, int(rng.integers(300, 1000)), int(rng.integers(101, 130)))
        ctx.event("big")
    elif job.get("skew"):
        case = big(rng, sp, kpts, int(rng.integers(8, 60)), int(rng.integers(1, 8)), crystal=skewed_crystal(rng))
        ctx.event("skewed_cells")
    else:
        case = build(rng, sg, sp, kpts=kpts, npw=int(rng.integers(8, 60)), nb=int(rng.integers(1, 12)), lefthanded=bool(rng.random() < .4), v0=3,
                     whole_levels=False, usteps=int(rng.choice([0, 1, 2, 3, 5])))
    cart, sel, names = bool(rng.random() < .4), rng.random() < .3 and str(rng.choice(["Selective dynamics", "selective dynamics", "S", "s", "SELECTIVE"])), bool(rng.random() < .7)
    scale = float(rng.choice([1.0, 1.0, 0.529177, 3.7, 1.25]))
    mode = str(rng.choice(["Cartesian", "cart", "CARTESIAN", "c"])) if cart else str(rng.choice(["Direct", "direct", "D", "DIRECT"]))
    order = writers.write_poscar("POSCAR", case.C.lattice, case.C.positions, case.C.numbers, scale=scale, cartesian=cart, selective=sel,
                                 names=names, mode_word=mode, blank=bool(rng.random() < .15), negscale=bool(rng.random() < .2), comments=bool(rng.random() < .3), title=str(rng.choice(["x", "2.0 3", "Bi2 Se3"])))
    if rng.random() < .3:
        with open("POSCAR", "a") as f:   # predictor-corrector / velocity block that follows the sites
            f.write("\n" + "0.0 0.0 0.0\n" * len(order))
    rl = int(rng.choice([0, 0, 4096, 8 * int(rng.integers(300, 900))]))
    writers.write_wavecar("WAVECAR", case.C.lattice, case.ecut, case.kds, rl=rl, ef=float(rng.normal()))
    if cart:
        ctx.event("poscar_cartesian")
    if scale != 1:
        ctx.event("poscar_scaled")
    ec = case.ecut
    cut = None
    if rng.random() < .4:
        cut = pick_ecut(case.B, case.ks, max(4, int(.5 * len(case.kds[0].G))), abs(np.linalg.det(case.C.lattice)))
        if cut < ec * .98 and all(np.sum(((k.G + k.k) @ case.B) ** 2, axis=1).min() / TWOMHBAR2 < cut and
                                 np.abs(np.sum(((k.G + k.k) @ case.B) ** 2, axis=1) / TWOMHBAR2 - cut).min() > 1e-5 for k in case.kds):
            ec = cut
            ctx.event("reduced_cutoff")
        else:
            cut = None
    b = run_vasp(case, write=False, Ecut=cut, trans_thresh=1e-4)
    tag = "SG %d spinor=%s cart=%s scale=%s sel=%s names=%s mode=%s" % (sg, sp, cart, scale, sel, names, mode)
    check_structure(ctx, b, case.C.lattice, case.C.positions, case.C.numbers, order, 1e-8)
    ctx.require(len(b.kpoints) == nk and b.num_k == nk, "number-of-kpoints", tag)
    ctx.close("cutoff", b.Ecut0, case.ecut, 1e-9)
    for i, (kp, kd) in enumerate(zip(b.kpoints, case.kds)):
        check_kpoint(ctx, kp, kd, ec, case.B, tolC=2e-6, tag=tag, ik=i + 1, upper=np.nan)
    ctx.distinct(cart, scale != 1, sel, names, rl > 0, sp, sg)
    ctx.sample(sg=sg, spinor=sp, nk=nk, nb=case.nb, waves=[len(k.G) for k in case.kds], cartesian=cart, scale=scale)
