"""C01: traces of little-group operations are exact."""
import numpy as np
from vlib.case import *
from vlib.su2 import cart_rotation, su2_to_so3
from vlib.pw import in_little_group

PROP = "C01"
RULE = ("one case = random crystal of a space group (random metric, origin, orientation, unimodular cell, handedness), "
        "model plane-wave Hamiltonian with exactly that group (spinor or scalar, TR kept or broken), states in random gauge and norm, "
        "written as VASP, ABINIT, Quantum ESPRESSO or Wannier90 files and read by BandStructure; distinct = (SG, spinor, k class, operation type) whose trace was compared "
        "with the trace computed from the generating eigenvectors")
MINIMUM = {"traces_compared": 2000, "nonsymmorphic_traces": 300, "kpoints": 100, "large": 40, "code_vasp": 50, "code_abinit": 40, "code_espresso": 40, "code_wannier90": 40}
ASSUMPTIONS = ["WAVECAR stores single precision coefficients: comparison tolerance 5e-5",
               "cutoff and levels are generated away from shell borders and accidental near-degeneracies"]


def jobs(tier, seed):
    rng = np.random.default_rng(seed)
    n = 3 if tier == "quick" else 20
    out = []
    for rep in range(n):
        for sg in rng.permutation(np.arange(1, 231)):
            if tier == "quick" and rep > 0 and rng.random() < 0.5:
                continue
            out.append(dict(sg=int(sg), rep=rep, spinor=bool(rng.random() < 0.5), tr=bool(rng.random() < 0.35)))
    for sg in rng.permutation(np.arange(1, 231))[:60 if tier == "quick" else 230]:
        out.append(dict(sg=int(sg), rep=99, spinor=bool(rng.random() < 0.4), tr=False, npw=int(rng.integers(110, 260))))
    # many plane waves of equal energy
    return [dict(sg=int(rng.choice([200, 202, 204, 207, 211, 215, 217, 221, 221, 229, 229])), rep=300 + i, spinor=False, tr=False, npw=1300, shells=True)
            for i in range(3 if tier == "quick" else 16)] + out


def kpoints(sg, rng):
    tk = [k for _, k in table_kpts(sg)]
    ks = [tk[i] for i in rng.choice(len(tk), min(2, len(tk)), replace=False)]
    # same point displaced by reciprocal lattice vectors, a line and a generic point
    ops, cent = std_ops(sg)
    R = ops[rng.integers(len(ops))][0]
    w, v = np.linalg.eig(np.linalg.inv(R).T.astype(float))
    line = np.real(v[:, np.argmin(abs(w - 1))]) if np.min(abs(w - 1)) < 1e-6 else rng.uniform(-.5, .5, 3)
    line = line / np.abs(line).max() * 0.37
    return ks + [line, rng.uniform(-0.5, 0.5, 3)]


def run(job, ctx, rng):
    sg, spinor = job["sg"], job["spinor"]
    if job.get("shells"):
        case = build(rng, sg, spinor, crystal=make_crystal(sg, rng, usteps=int(rng.integers(2))), kpts=[np.zeros(3)], npw=job["npw"], nb=5)
        e = np.sort(((case.kds[0].G @ case.B) ** 2).sum(1) / TWOMHBAR2)
        ctx.event("shells_beyond_64", max(np.diff(np.r_[-1, np.where(np.diff(e) > 1e-3)[0], len(e) - 1])) > 64)
    else:
        case = build(rng, sg, spinor, kref=kpoints(sg, rng), npw=job.get("npw", 45), trbreak=job["tr"],
                     lefthanded=bool(rng.random() < .3))
    # displace some k by reciprocal lattice vectors of the DFT cell: done at the model level
    code = str(rng.choice(["vasp", "vasp", "abinit", "espresso", "wannier90"]))
    b = run_code(case, code, rng=rng)
    ctx.event("code_" + code)
    ctx.event("large" if "npw" in job else "small")
    ctx.require(len(b.kpoints) == len(case.kds), "missing-kpoints", "%d of %d" % (len(b.kpoints), len(case.kds)))
    for kd, kp in zip(case.kds, b.kpoints):
        lv = kd.levels(LEVEL_TOL)
        ctx.event("kpoints")
        if not ctx.close("level-dimensions", list(kp.degeneracies), [y - x for x, y in lv], 0):
            continue
        ctx.close("level-energies", kp.Energy_mean, [kd.E[x:y].mean() for x, y in lv], 1e-6)
        idx = match_ops(case.C, kp.little_group)
        exp = [i for i, (R, t) in enumerate(case.C.ops) if in_little_group(R, kd.k)]
        ctx.require(sorted(idx) == exp, "little-group", lambda: "k=%s ops %s expected %s" % (kd.k, sorted(idx), exp))
        ch = np.asarray(kp.char)
        if not ctx.require(ch.shape == (len(lv), len(kp.little_group)), "char-shape", str(ch.shape)):
            continue
        for i, op in enumerate(kp.little_group):
            R, t = np.asarray(op.rotation), np.asarray(op.translation)
            S = np.asarray(op.spinor_rotation) if spinor else None
            if spinor:
                O = cart_rotation(R, case.C.lattice)
                if not ctx.close("spinor-rotation", su2_to_so3(S), O * np.sign(np.linalg.det(O)), 1e-6):
                    continue
            tr = true_traces(kd, R, t, S, lv)
            ctx.close("trace", ch[:, i], tr, 5e-5, lambda: "SG %d k=%s R=%s t=%s spinor=%s %s" % (sg, kd.k, R.tolist(), t, spinor, code))
            ctx.event("traces_compared", len(lv))
            ns = np.abs((t * 1e4) % 1e4).max() > 1
            if ns and not np.array_equal(R, np.eye(3)):
                ctx.event("nonsymmorphic_traces", len(lv))
            ctx.distinct(sg, spinor, job["tr"], len(exp), int(np.trace(R)), int(round(np.linalg.det(R))))
        ctx.sample(sg=sg, spinor=spinor, k=kd.k.round(4).tolist(), little_group=len(exp), dims=[y - x for x, y in lv],
                   first_traces=np.round(ch[0], 4).astype(str).tolist()[:8])
