"""C10: what is analysed is what the ABINIT WFK file contains."""
import numpy as np
from vlib.case import *
from vlib.pw import HA, BOHR_A, reclat
from vlib.readers import check_structure, check_kpoint
from vlib.runner import quiet

PROP = "C10"
RULE = ("one case = random crystal and wavefunctions written as an ABINIT WFK file (header versions 8/9, usepaw, plane waves in arbitrary "
        "order, different numbers of bands at different k points, one or many atoms and k points, records in one piece or in subrecords, little or big endian) and read with any list of k points; "
        "monitor compares all held data with what was written; distinct = (spinor, version, nk, selection kind, SG)")
MINIMUM = {"kpoints_read": 250, "coefficients": 80000, "selected": 60, "single_k": 20, "single_atom": 10, "subrecords": 40, "big_endian": 25}
ASSUMPTIONS = ["CODATA value of the Bohr radius"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed + 10)
    n = 500 if tier == "quick" else 5000
    return [dict(sg=int(rng.integers(1, 231)), rep=i, one=bool(rng.random() < .08)) for i in range(n)] + [dict(big=True, sg=1, rep=i, one=False) for i in range(6 if tier == "quick" else 60)]


def one_atom(rng):
    from vlib.crystals import Crystal, random_rotation
    C = Crystal()
    a = np.linalg.cholesky(np.eye(3) + .1 * rng.uniform(-1, 1) * (np.ones((3, 3)) - np.eye(3))) * 3.3
    C.lattice = a @ random_rotation(rng).T
    C.positions, C.numbers = rng.uniform(0, 1, (1, 3)), [1]
    C.ops = [(np.eye(3, dtype=int), np.zeros(3))]
    C.P = C.M = np.eye(3)
    C.p = np.zeros(3)
    return C


def run(job, ctx, rng):
    from irrep.bandstructure import BandStructure
    sg, sp = job["sg"], bool(rng.random() < .5)
    nk = int(rng.integers(10, 14) if job.get("big") else rng.choice([1, 2, 3, 4, 5]))
    crystal = one_atom(rng) if job["one"] else None
    kpts = [rng.choice([0, .5, .25, -.5, 1 / 3.], 3) if rng.random() < .6 else rng.uniform(-1, 1, 3) for _ in range(nk)]
    if job.get("big"):
        sg = 1
        case = big(rng, sp, kpts, int(rng.integers(300, 1000)), int(rng.integers(101, 130)))
        ctx.event("big")
    else:
        case = build(rng, sg, sp, kpts=kpts, npw=int(rng.integers(8, 60)), nb=int(rng.integers(1, 12)), lefthanded=bool(rng.random() < .4), v0=3,
                     whole_levels=False, crystal=crystal)
    C = case.C
    # ABINIT: its own energy units; cutoff in Ha
    B = reclat(np.asarray(C.lattice) / BOHR_A)
    kin = HA / 2
    emax = max((((k.G + k.k) @ B) ** 2).sum(1).max() for k in case.kds) * kin
    ec0 = emax * float(rng.choice([1 + 1e-6, 1.01, 1.05]))
    if rng.random() < .4:      # different number of bands per k point
        for k in case.kds:
            n = int(rng.integers(1, len(k.E) + 1))
            k.E, k.C = k.E[:n], k.C[:n]
        ctx.event("varying_nband")
    same_nb = len({len(k.E) for k in case.kds}) == 1
    perms = [rng.permutation(len(k.G)) for k in case.kds]
    ver = str(rng.choice(["8.6.3", "9.6.2", "8.10.3", "9.10.1"]))
    ef = float(rng.normal() * .2)
    fmt = {}
    if rng.random() < .15:     # records longer than the largest subrecord
        fmt["maxsub"] = int(rng.choice([64, 100, 333, 1000, 2040]))
        ctx.event("subrecords")
    if rng.random() < .1:
        fmt["order"] = ">"
        ctx.event("big_endian")
    writers.write_abinit("o_WFK", C.lattice, C.positions, C.numbers, ec0 / HA, case.kds, perms=perms, ef_ha=ef, version=ver,
                         usepaw=int(rng.random() < .3), nsym=int(rng.choice([1, 2, 5])), npsp_extra=int(rng.choice([0, 0, 1, 3])),
                         nshift=(int(rng.choice([1, 1, 4])), int(rng.choice([1, 2]))), **fmt)
    kpl, kind = None, "all"
    if nk > 1 and rng.random() < .6:
        kind = "subset"
        kpl = np.sort(rng.choice(nk, int(rng.integers(1, nk + 1)), replace=False)) + 1
        ctx.event("selected")
        if rng.random() < .35:
            kpl = rng.permutation(kpl)
            kind = "unordered"
    ec = None
    if rng.random() < .4:
        cand = ec0 * rng.uniform(.4, .95)
        es = [(((k.G + k.k) @ B) ** 2).sum(1) * kin for k in case.kds]
        if all(e.min() < cand and np.abs(e - cand).min() > 1e-4 for e in es):
            ec = float(cand)
            ctx.event("reduced_cutoff")
    sel = range(1, nk + 1) if kpl is None else list(kpl)
    useEF = bool(rng.random() < .5)
    kw = {}
    if not same_nb:      # a common set of bands
        kw = dict(IBend=min(len(k.E) for k in case.kds))
    args = dict(fWFK="o_WFK", code="abinit", calculate_traces=False, kplist=None if kpl is None else np.array(kpl), Ecut=ec,
                EF="auto" if useEF else "0.0", trans_thresh=1e-4, **kw)
    tag = "SG %d spinor=%s nk=%d kplist=%s nband=%s atoms=%d v%s %s" % (sg, sp, nk, kpl, [len(k.E) for k in case.kds], len(C.numbers), ver, fmt)
    with quiet():
        b = BandStructure(**args)
    if nk == 1:
        ctx.event("single_k")
    if len(C.numbers) == 1:
        ctx.event("single_atom")
    ctx.require(bool(b.spinor) == sp, "spinor-flag", tag)
    check_structure(ctx, b, np.asarray(C.lattice), C.positions, C.numbers, None, 1e-8)
    ctx.close("cutoff", b.Ecut0, ec0, 1e-6)
    efv = ef * HA if useEF else 0.0
    ctx.close("fermi-energy", b.efermi, efv, 1e-8)
    if not ctx.require(len(b.kpoints) == len(sel), "number-of-kpoints", lambda: "%d of %d %s" % (len(b.kpoints), len(sel), tag)):
        return
    for j, kp in zip(sel, b.kpoints):
        nb = kw.get("IBend", len(case.kds[j - 1].E))
        up = case.kds[j - 1].E
        up = up[nb] - efv if len(up) > nb else np.nan
        check_kpoint(ctx, kp, case.kds[j - 1], ec or ec0 * (1 + 1e-6), B, ef=efv, tolE=1e-8, tolC=1e-10, kin=kin, tag=tag, ik=j,
                     bands=slice(0, nb), upper=up)
    ctx.distinct(sp, ver, nk, kind, sg)
    ctx.sample(sg=sg, spinor=sp, kplist=list(map(int, sel)), version=ver, waves=[len(k.G) for k in case.kds])
