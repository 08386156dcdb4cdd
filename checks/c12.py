"""C12: what is analysed is what the Wannier90 files (.win, .eig, UNK) contain."""
import os
import numpy as np
from vlib.case import *
from vlib.pw import reclat
from vlib.readers import check_structure, check_kpoint
from vlib.runner import quiet

PROP = "C12"
RULE = ("one case = random crystal and wavefunctions written as .win (units, fractional or cartesian sites with or without unit line, any "
        "block order, keyword separators, comments, upper case), .eig and UNK files (any grid that holds the waves), read with any list of "
        "k points and cutoff; monitor compares all held data with what was written; distinct = (format options, spinor, SG)")
MINIMUM = {"comments_everywhere": 20, "kpoints_read": 400, "coefficients": 60000, "selected": 100, "tight_grid": 60, "atoms_cart": 100, "atoms_first": 50, "cutoff_beyond_grid": 20, "k_weights": 50}
ASSUMPTIONS = ["cutoffs are placed away from plane-wave energies", "UNK files lie in the working directory, as Wannier90 requires"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 12)
    n = 400 if tier == "quick" else 4000
    return [dict(sg=int(rng.integers(1, 231)), rep=i) for i in range(n)] + [dict(big=True, sg=1, rep=i) for i in range(4 if tier == "quick" else 40)] + \
        [dict(skew=True, sg=1, rep=i) for i in range(30 if tier == "quick" else 300)]


def sphere(ctx, kp, kd, ec, B, grid, tag):
    """The waves kept form a complete sphere around -k; their coefficients are the written ones (zero beyond)."""
    from vlib.pw import ball
    g = np.asarray(kp.ig)[:3].T
    e = (((g + kd.k) @ B) ** 2).sum(1)
    full = ball(B, kd.k, np.sqrt(e.max()) * (1 - 1e-7))
    have = {tuple(x) for x in g}
    ctx.require({tuple(x) for x in full} <= have and len(have) == len(g), "sphere-incomplete", lambda: "%d of %d %s" % (len(g), len(full), tag))
    ctx.require(e.max() < ec * TWOMHBAR2, "beyond-cutoff", tag)
    if np.any(2 * np.abs(g) >= np.array(grid)):
        # two waves of the same Fourier component: only when no sphere around -k fits in the grid
        ctx.event("aliased")
        fits = np.all((np.array(grid) + 1) // 2 > np.abs(kd.k))
        ctx.require(not fits, "aliased-waves", lambda: "largest G %s %s" % (np.abs(g).max(0), tag))
        return
    look = {tuple(x): i for i, x in enumerate(kd.G)}
    n = len(kd.G)
    C = np.zeros((len(kd.E), len(g) * (2 if kd.spinor else 1)), complex)
    for i, x in enumerate(g):
        if tuple(x) in look:
            C[:, i] = kd.C[:, look[tuple(x)]]
            if kd.spinor:
                C[:, i + len(g)] = kd.C[:, n + look[tuple(x)]]
    nrm = np.linalg.norm(C, axis=1)
    kept = nrm > 1e-4 * np.linalg.norm(kd.C, axis=1)
    ctx.event("coefficients", C.size)
    ctx.close("coefficients", np.asarray(kp.WF)[kept], (C / np.where(kept, nrm, 1)[:, None])[kept], 1e-9, tag)


# atom labels; those of different species may share the element or the first letters
LABELS = [("Aa", "Bb", "Cc", "Dd", "Ee", "Ff"), ("Fe1", "Fe2", "Fe3", "Fe", "O", "O1"), ("C", "Cs", "Cl", "Co", "Ca", "Cu"), ("B", "N", "Be", "A", "Bo", "An"),
          ("Mn_a", "Mn_b", "Mn-c", "Mn.d", "Mn4", "Mn")]


def run(job, ctx, rng):
    from irrep.bandstructure import BandStructure
    sg, sp = job["sg"], bool(rng.random() < .5)
    mp = [int(rng.choice([1, 1, 2])) for _ in range(3)]
    nk = int(np.prod(mp))
    if nk > 4:
        mp = [1, 2, 2]
        nk = 4
    if job.get("big"):
        mp = [int(x) for x in rng.permutation([1, 3, 4])]
        nk = 12
    sh = rng.choice([0, .5, .25], 3)
    kpts = [np.array([i / mp[0], j / mp[1], l / mp[2]]) + sh + rng.integers(-1, 2, 3) * (rng.random() < .3)
            for i in range(mp[0]) for j in range(mp[1]) for l in range(mp[2])]
    if job.get("big"):
        sg = 1
        case = big(rng, sp, kpts, int(rng.integers(300, 700)), int(rng.integers(101, 120)))
        ctx.event("big")
    elif job.get("skew"):
        case = big(rng, sp, kpts, int(rng.integers(8, 40)), int(rng.integers(2, 8)), crystal=skewed_crystal(rng))
        ctx.event("skewed_cells")
    else:
        case = build(rng, sg, sp, nb=int(rng.integers(1, 12)), lefthanded=bool(rng.random() < .4), kpts=kpts, npw=int(rng.integers(8, 50)), v0=3,
                     whole_levels=False)
    ctx.event("one_eigenvalue", int(nk * case.nb == 1))
    C = case.C
    grid = writers.fftgrid(case.kds, extra=1)
    extra = rng.integers(0, 8, 3) * (rng.random() < .7)
    grid = [int(a + b) for a, b in zip(grid, extra)]
    if not extra.any():
        ctx.event("tight_grid")
    atoms = str(rng.choice(["frac", "cart", "cart_bohr", "cart_ang"]))
    units = str(rng.choice(["ang", "bohr", "none"]))
    order = list(rng.permutation(["unit_cell", "atoms", "kpoints"]))
    sep = str(rng.choice([" = ", "=", " : ", ":", "  ", "\t", "\t=\t"]))
    if atoms != "frac":
        ctx.event("atoms_cart")
        if order.index("atoms") < order.index("unit_cell"):
            ctx.event("atoms_first")
    ef = float(rng.normal()) if rng.random() < .6 else None
    pre = "wann"
    weights = bool(rng.random() < .25)      # as written by kmesh.pl
    if weights:
        ctx.event("k_weights")
    inline = [False, True, "everywhere"][int(rng.choice(3, p=[.5, .2, .3]))]
    ctx.event("comments_everywhere", int(inline == "everywhere"))
    writers.write_w90(".", pre, C.lattice, C.positions, C.numbers, case.kds, mp, grid=grid, ef=ef, units=units, atoms=atoms, order=order,
                      sep=sep, case=str.upper if rng.random() < .2 else str, comments=bool(rng.random() < .4),
                      inline=inline, names=LABELS[int(rng.integers(0, len(LABELS)))], weights=weights)
    kpl, sk = None, "all"
    if nk > 1 and rng.random() < .7:
        kpl = np.sort(rng.choice(nk, int(rng.integers(1, nk + 1)), replace=False)) + 1
        sk = "subset"
        if rng.random() < .3:
            kpl = rng.permutation(kpl)
            sk = "unordered"
        ctx.event("selected")
    ec = case.ecut
    if rng.random() < .3:
        cand = ec * rng.uniform(.4, .95)
        es = [(((k.G + k.k) @ case.B) ** 2).sum(1) / TWOMHBAR2 for k in case.kds]
        if all(e.min() < cand and np.abs(e - cand).min() > 1e-4 for e in es):
            ec = float(cand)
            ctx.event("reduced_cutoff")
    # at least a plane wave in the largest sphere around -k that fits in the grid
    lengths = np.linalg.norm(C.lattice, axis=1)
    some = all(np.sqrt((((k.G + k.k) @ case.B) ** 2).sum(1).min()) < .999 * ((((np.array(grid) + 1) // 2 - np.abs(k.k)) * 2 * np.pi / lengths).min())
               for k in case.kds)
    over = bool(rng.random() < .15) and (some or not job.get("skew"))
    if over:                    # cutoff beyond what the grid holds
        ec = case.ecut * float(rng.uniform(1.5, 1.7 if job.get("big") else 6))
        ctx.event("cutoff_beyond_grid")
    useEF = bool(rng.random() < .5)
    sel = range(1, nk + 1) if kpl is None else [int(x) for x in kpl]
    tag = "SG %d spinor=%s grid=%s units=%s atoms=%s order=%s sep=%r kplist=%s Gmax=%s" % (
        sg, sp, grid, units, atoms, order, sep, kpl, np.max([np.abs(k.G).max(0) for k in case.kds], axis=0))
    with quiet():
        b = BandStructure(prefix=pre, code="wannier90", calculate_traces=False, kplist=None if kpl is None else np.array(kpl), Ecut=ec,
                          EF="auto" if useEF else "0.0", trans_thresh=1e-4)
    ctx.require(bool(b.spinor) == sp, "spinor-flag", tag)
    check_structure(ctx, b, C.lattice, C.positions, C.numbers, None, 1e-7)
    efv = ef if (useEF and ef is not None) else 0.0
    ctx.close("fermi-energy", b.efermi, efv, 1e-8)
    if not ctx.require(len(b.kpoints) == len(sel), "number-of-kpoints", lambda: "%d of %d %s" % (len(b.kpoints), len(sel), tag)):
        return
    for j, kp in zip(sel, b.kpoints):
        if over:
            sphere(ctx, kp, case.kds[j - 1], ec, case.B, grid, tag)
            continue
        check_kpoint(ctx, kp, case.kds[j - 1], ec, case.B, ef=efv, tolE=1e-8, tolC=1e-9, tag=tag, ik=j, upper=np.nan)
    ctx.distinct(atoms, units, sep, "".join(o[0] for o in order), sp, sk, sg)
    ctx.sample(sg=sg, spinor=sp, kplist=list(sel), grid=grid, atoms=atoms, units=units, order=list(map(str, order)))
