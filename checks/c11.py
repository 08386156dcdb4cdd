"""C11: what is analysed is what Quantum ESPRESSO's files contain."""
import os
import numpy as np
from vlib.case import *
from vlib.pw import HA, BOHR_A, reclat
from vlib.readers import check_structure, check_kpoint
from vlib.runner import quiet

PROP = "C11"
RULE = ("one case = random crystal and wavefunctions written as prefix.save (data-file-schema.xml, wfc files in either case, plane waves in "
        "arbitrary order, non-polarised, non-collinear or spin-polarised with channels of different energies and numbers of bands) and read "
        "with any list of k points, channel, cutoff and Fermi energy; monitor compares all held data with what was written; distinct = "
        "(kind, channel, nk, selection, SG)")
MINIMUM = {"kpoints_read": 350, "coefficients": 80000, "selected": 60, "spin_polarised": 60, "channel_dw": 25, "reduced_cutoff": 60}
ASSUMPTIONS = ["cutoffs are placed at least 1e-4 eV from every plane-wave energy"]


# species names; different species may share the element or the first letters
LABELS = [("Aa", "Bb", "Cc", "Dd", "Ee", "Ff"), ("Fe1", "Fe2", "Fe3", "Fe", "O", "O1"), ("C", "Cs", "Cl", "Co", "Ca", "Cu"),
          ("Mn_a", "Mn_b", "Mn-c", "Mn.d", "Mn4", "Mn")]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 11)
    n = 500 if tier == "quick" else 5000
    return [dict(sg=int(rng.integers(1, 231)), rep=i) for i in range(n)] + [dict(big=True, sg=1, rep=i) for i in range(6 if tier == "quick" else 60)]


def run(job, ctx, rng):
    from irrep.bandstructure import BandStructure
    sg = job["sg"]
    kind = str(rng.choice(["scalar", "spinor", "lsda"]))
    sp = kind == "spinor"
    nk = int(rng.integers(10, 14) if job.get("big") else rng.choice([1, 2, 3, 4]))
    kpts = [rng.choice([0, .5, .25, -.5, 1 / 3.], 3) if rng.random() < .6 else rng.uniform(-1, 1, 3) for _ in range(nk)]
    opts = dict(kpts=kpts, npw=int(rng.integers(8, 60)), v0=3, whole_levels=False)
    if job.get("big"):
        sg = 1
        case = big(rng, sp, kpts, int(rng.integers(300, 1000)), int(rng.integers(101, 130)))
        ctx.event("big")
    else:
        case = build(rng, sg, sp, nb=int(rng.integers(1, 12)), lefthanded=bool(rng.random() < .4), **opts)
    C = case.C
    dw = None
    if kind == "lsda":
        other = big(rng, False, kpts, 0, int(rng.integers(101, 130)), crystal=C, ecut=case.ecut) if job.get("big") else build(
            rng, sg, False, nb=int(rng.integers(1, 12)), crystal=C, ecut=case.ecut, **opts)
        dw = other.kds
        ctx.event("spin_polarised")
    B = reclat(np.asarray(C.lattice) / BOHR_A)
    kin = HA / 2
    all_e = [(((k.G + k.k) @ B) ** 2).sum(1) * kin for k in case.kds]
    ec0 = max(e.max() for e in all_e) * float(rng.choice([1 + 1e-6, 1.01, 1.05]))
    perms = [rng.permutation(len(k.G)) for k in case.kds]
    ef = float(rng.normal() * .2) if rng.random() < .7 else None
    pre = str(rng.choice(["pre", "sub/dir/x", "Bi2.v"]))
    os.makedirs(os.path.dirname(pre) or ".", exist_ok=True)
    writers.write_espresso(pre, C.lattice, C.positions, C.numbers, ec0 / HA, case.kds, kds_dw=dw, perms=perms, ef_ha=ef,
                           upper=bool(rng.random() < .3), names=LABELS[int(rng.integers(0, len(LABELS)))])
    kpl, sk = None, "all"
    if nk > 1 and rng.random() < .6:
        kpl = np.sort(rng.choice(nk, int(rng.integers(1, nk + 1)), replace=False)) + 1
        sk = "subset"
        if rng.random() < .3:
            kpl = rng.permutation(kpl)
            sk = "unordered"
        ctx.event("selected")
    ec = None
    if rng.random() < .5:
        cand = ec0 * rng.uniform(.4, .95)
        if all(e.min() < cand and np.abs(e - cand).min() > 1e-4 for e in all_e):
            ec = float(cand)
            ctx.event("reduced_cutoff")
    ch = None
    kds = case.kds
    if kind == "lsda":
        ch = str(rng.choice(["up", "dw", "down", "UP", "DW", "Down"]))
        if ch.lower() != "up":
            kds = dw
            ctx.event("channel_dw")
    useEF = bool(rng.random() < .5)
    sel = range(1, nk + 1) if kpl is None else [int(x) for x in kpl]
    tag = "SG %d %s channel=%s nk=%d kplist=%s EF=%s Ecut=%s/%s" % (sg, kind, ch, nk, kpl, ef, ec, ec0)
    with quiet():
        b = BandStructure(prefix=pre, code="espresso", calculate_traces=False, kplist=None if kpl is None else np.array(kpl), Ecut=ec,
                          EF="auto" if useEF else "0.0", trans_thresh=1e-4, spin_channel=ch)
    ctx.require(bool(b.spinor) == sp, "spinor-flag", tag)
    check_structure(ctx, b, C.lattice, C.positions, C.numbers, None, 1e-7)
    ctx.close("cutoff", b.Ecut0, ec0, 1e-6)
    efv = ef * HA if (useEF and ef is not None) else 0.0
    ctx.close("fermi-energy", b.efermi, efv, 1e-8)
    if not ctx.require(len(b.kpoints) == len(sel), "number-of-kpoints", lambda: "%d of %d %s" % (len(b.kpoints), len(sel), tag)):
        return
    for j, kp in zip(sel, b.kpoints):
        check_kpoint(ctx, kp, kds[j - 1], ec or ec0 * (1 + 1e-6), B, ef=efv, tolE=1e-8, tolC=1e-10, kin=kin, tag=tag, ik=j, upper=np.nan)
    ctx.distinct(kind, ch, nk, sk, sg)
    ctx.sample(sg=sg, kind=kind, channel=ch, kplist=list(sel), waves=[len(k.G) for k in kds])
